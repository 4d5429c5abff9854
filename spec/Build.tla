------------------------------- MODULE Build -------------------------------
(***************************************************************************)
(* The abstract specification of a DLIS file, and what each public call    *)
(* does to it.  State S:                                                   *)
(*   sul   storage unit label [made, seq, mrl, id]                         *)
(*   lfs   logical files, in creation order: [seq, id, name, objs, nf];    *)
(*         objs: object ids in the order they were added;                  *)
(*         nf: no-format data [ob, pay] in the order they were added       *)
(*   ob    objects by id: [ty, lf, nm, st, og, o, c, at, arr, ds, cast,    *)
(*         nhc]; at: label -> [v, u, hc]                                   *)
(*   hc    nesting depth of high-compatibility contexts                    *)
(* Each call either succeeds and transforms S, or raises and leaves S as   *)
(* it was (C20).                                                           *)
(***************************************************************************)
EXTENDS Eflr, Schema

None == [t |-> "none"]
IsNone(v) == v.t = "none"
EmptyFun == [x \in {} |-> 0]

NoSul == [made |-> FALSE, seq |-> 0, mrl |-> 0, id |-> <<>>]
NewSpec(hc) == [sul |-> NoSul, lfs |-> <<>>, ob |-> EmptyFun, hc |-> hc]

HC(S) == S.hc > 0

---------------------------------------------------------------------------
(* Abstract values                                                         *)

ValNum(v) ==
    CASE v.t = "int" -> FromMag(v.n, v.m)
      [] v.t = "flt" -> FromF64(v.b)
      [] v.t = "bool" -> IF v.w THEN FromInt(1) ELSE NumZero
      [] OTHER -> NumNaN
IsNumVal(v) == v.t \in {"int", "flt", "bool"}

\* a non-negative TLC integer, or -2 (never equal to anything decoded)
SmallInt(v) ==
    IF v.t = "int" /\ v.n = 0 /\ (Len(v.m) <= 3 \/ (Len(v.m) = 4 /\ v.m[1] < 128))
    THEN FoldLeft(LAMBDA a, x : 256 * a + x, 0, v.m) ELSE -2
TxtOr(v) == IF v.t = "txt" THEN v.c ELSE <<-1>>     \* <<-1>>: matches nothing in a file

RECURSIVE Flat(_)
Flat(v) == IF v.t = "list" THEN FoldLeft(LAMBDA a, x : a \o Flat(x), <<>>, v.v) ELSE <<v>>

\* shape of a nested list; irregular nesting gives <<-1>>
RECURSIVE Shape(_)
Shape(v) ==
    IF v.t # "list" THEN <<>>
    ELSE IF v.v = <<>> THEN <<0>>
    ELSE LET s == Shape(v.v[1]) IN
         IF \E i \in 1..Len(v.v) : Shape(v.v[i]) # s THEN <<-1>>
         ELSE <<Len(v.v)>> \o s

---------------------------------------------------------------------------
(* Calls                                                                   *)

MakeSul(S, e) ==
    [S EXCEPT !.sul = [made |-> TRUE, seq |-> SmallInt(e.seq), mrl |-> SmallInt(e.mrl), id |-> TxtOr(e.id)],
              !.lfs = <<>>, !.ob = EmptyFun]

AddLf(S, e) ==
    [S EXCEPT !.lfs = Append(@, [seq |-> e.seq, id |-> TxtOr(e.id), name |-> TxtOr(e.name),
                                 objs |-> <<>>, nf |-> <<>>, hc |-> HC(S)])]

AtOf(S, e) ==
    FoldLeft(LAMBDA f, a : (a.l :> [v |-> a.v, u |-> a.u, hc |-> HC(S)]) @@ f, EmptyFun, e.attrs)

NewObj(S, e) ==
    [ty |-> e.ty, lf |-> e.lf, nm |-> TxtOr(e.name), st |-> IF IsNone(e.set) THEN <<>> ELSE TxtOr(e.set),
     og |-> e.org, o |-> e.obs.o, c |-> e.obs.c,
     at |-> IF e.ty = "ORIGIN"
            THEN AtOf(S, e) @@ ("FILE-ID" :> [v |-> [t |-> "txt", c |-> S.lfs[e.lf].id, pt |-> "str"], u |-> None,
                                              hc |-> FALSE])
            ELSE AtOf(S, e),
     arr |-> e.arr, ds |-> IF IsNone(e.ds) THEN e.obs.ds ELSE TxtOr(e.ds), dsx |-> ~IsNone(e.ds),
     cast |-> e.cast, nhc |-> HC(S)]

AddObj(S, e) ==
    [S EXCEPT !.ob = (e.ob :> NewObj(S, e)) @@ @, !.lfs[e.lf].objs = Append(@, e.ob)]

AddNf(S, e) == [S EXCEPT !.lfs[e.lf].nf = Append(@, [ob |-> e.ob, pay |-> e.pay])]

NoAt == [v |-> None, u |-> None, hc |-> FALSE]
GetAt(o, l) == IF l \in DOMAIN o.at THEN o.at[l] ELSE NoAt

SetAttr(S, e) ==
    LET old == GetAt(S.ob[e.ob], e.l)
        new == IF e.part = "value" THEN [old EXCEPT !.v = e.v, !.hc = HC(S)] ELSE [old EXCEPT !.u = e.v, !.hc = HC(S)]
    IN [S EXCEPT !.ob[e.ob].at = (e.l :> new) @@ @]

Rename(S, e) == [S EXCEPT !.ob[e.ob].nm = TxtOr(e.name), !.ob[e.ob].nhc = HC(S)]
SetOrigin(S, e) == [S EXCEPT !.ob[e.ob].og = e.v]
SetCast(S, e) == [S EXCEPT !.ob[e.ob].cast = e.cast]
SetDs(S, e) == [S EXCEPT !.ob[e.ob].ds = TxtOr(e.v), !.ob[e.ob].dsx = TRUE]

EnterHC(S) == [S EXCEPT !.hc = @ + 1]
LeaveHC(S) == [S EXCEPT !.hc = @ - 1]

---------------------------------------------------------------------------
(* Derived                                                                 *)

ObjsOf(S, lf, ty) == SelectSeq(S.lfs[lf].objs, LAMBDA i : S.ob[i].ty = ty)
Origins(S, lf) == ObjsOf(S, lf, "ORIGIN")
DefOrigin(S, lf) == Origins(S, lf)[1]
HasOrigin(S, lf) == Origins(S, lf) # <<>>

\* origin reference of an object: what the user chose, else the defining origin
OriginRef(S, i) ==
    LET o == S.ob[i] IN
    IF ~IsNone(o.og) THEN SmallInt(o.og)
    ELSE IF o.ty = "ORIGIN" THEN o.o
    ELSE IF HasOrigin(S, o.lf)
         THEN LET d == S.ob[DefOrigin(S, o.lf)] IN IF IsNone(d.og) THEN d.o ELSE SmallInt(d.og)
         ELSE -2

Ident(S, i) == [o |-> OriginRef(S, i), c |-> S.ob[i].c, n |-> S.ob[i].nm]

RefsIn(v) == SelectSeq(Flat(v), LAMBDA x : x.t = "ref")
ChannelsOf(S, f) == LET v == GetAt(S.ob[f], "CHANNELS").v
                    IN [i \in 1..Len(RefsIn(v)) |-> RefsIn(v)[i].o]

ObjCount(S) == FoldLeft(LAMBDA a, lf : a + Len(lf.objs), 0, S.lfs)

---------------------------------------------------------------------------
(* Which inputs are certainly acceptable (the call has to succeed)         *)

Ascii7(cs) == \A i \in 1..Len(cs) : cs[i] >= 0 /\ cs[i] <= 127
HcChar(c) == (c >= 65 /\ c <= 90) \/ (c >= 48 /\ c <= 57) \/ c = 95 \/ c = 45
HcName(cs) == cs # <<>> /\ \A i \in 1..Len(cs) : HcChar(cs[i])

NameYes(S, v) == v.t = "txt" /\ v.pt = "str" /\ Len(v.c) >= 1 /\ Len(v.c) <= 255 /\ Ascii7(v.c)
                 /\ (HC(S) => HcName(v.c))

DtYes(v) == v.t = "dt" /\ v.y >= 1901 /\ v.y <= 2154
InRange(v, lo, hi) == v.t = "int" /\ v.pt = "int"
                      /\ NumCmp(ValNum(v), lo) >= 0 /\ NumCmp(ValNum(v), hi) <= 0
MaxUvari == MkNum(0, [i \in 1..30 |-> 1], 0)
MaxUnorm == FromInt(65535)
MaxSlong == FromInt(2147483647)
MinSlong == MkNum(1, <<1>>, 31)

FloatYes(v) == \/ v.t = "int" /\ v.pt \in {"int", "np"} /\ Len(ValNum(v).b) <= 53 /\ Msb(ValNum(v)) <= 1023
               \/ v.t = "flt" /\ v.pt \in {"float", "np"} /\ ValNum(v).k = "num"

RefOk(S, lf, v, r) ==
    /\ v.t = "ref" /\ v.o \in DOMAIN S.ob
    /\ S.ob[v.o].lf = lf
    /\ r # "" => S.ob[v.o].ty = r

SingleYes(S, lf, d, v) ==
    LET tx == v.t = "txt" /\ Ascii7(v.c) IN
    CASE d.k = "text" -> tx /\ v.pt = "str"
      [] d.k = "ident" -> tx /\ v.pt = "str" /\ Len(v.c) <= 255
      [] d.k = "identv" -> tx /\ v.pt = "str" /\ Len(v.c) <= 255 /\ (HC(S) => HcName(v.c))
      [] d.k = "enumh" -> tx /\ Str(v.c) \in EnumOf[d.e]
      [] d.k = "enums" -> tx /\ Len(v.c) <= 255 /\ (HC(S) => Str(v.c) \in EnumOf[d.e])
      [] d.k \in {"num", "fdoubl"} -> FloatYes(v)
      [] d.k = "unorm" -> InRange(v, NumZero, MaxUnorm)
      [] d.k = "uvari" -> InRange(v, NumZero, MaxUvari)
      [] d.k = "int" -> InRange(v, MinSlong, MaxSlong)
      [] d.k = "enc" -> v.t = "bool" \/ InRange(v, NumZero, FromInt(1))
      [] d.k = "status" -> v.t = "bool" \/ InRange(v, NumZero, FromInt(1))
      [] d.k = "dim" -> InRange(v, FromInt(1), MaxUvari)
      [] d.k = "dtime" -> DtYes(v) \/ (v.t = "txt" /\ v.asdt /\ DtYes(v.dt))
      [] d.k = "dtimef" -> DtYes(v) \/ (v.t = "txt" /\ v.asdt /\ DtYes(v.dt)) \/ FloatYes(v)
      [] d.k = "any" -> \/ tx /\ ~v.asnum /\ v.pt = "str"
                        \/ InRange(v, MinSlong, MaxSlong)
                        \/ v.t = "flt" /\ v.pt = "float" /\ ValNum(v).k = "num"
      [] d.k = "lntext" -> (tx /\ v.pt = "str") \/ RefOk(S, lf, v, "LONG-NAME")
      [] d.k = "ref" -> RefOk(S, lf, v, d.r)
      [] d.k = "oref" -> RefOk(S, lf, v, "")
      [] OTHER -> FALSE

NestedOk(ty, l) ==
    \/ ty = "CALIBRATION-MEASUREMENT" /\ l \in {"MEASUREMENT", "MAXIMUM-DEVIATION", "STANDARD-DEVIATION", "REFERENCE",
                                                "STANDARD", "PLUS-TOLERANCE", "MINUS-TOLERANCE"}
    \/ ty \in {"COMPUTATION", "PARAMETER"} /\ l = "VALUES"

\* one kind of value only; whole numbers and others may be mixed
Homogeneous(vs) == \/ \A i \in 1..Len(vs) : vs[i].t = vs[1].t
                   \/ \A i \in 1..Len(vs) : vs[i].t \in {"int", "flt"}

ValueYes(S, lf, ty, l, v) ==
    LET d == AttrDef(ty, l) IN
    IF IsNone(v) THEN TRUE
    ELSE IF v.t = "list"
    THEN LET fl == Flat(v)
             sh == Shape(v)
         IN /\ d.m /\ fl # <<>>
            /\ Len(sh) = 1 \/ (NestedOk(ty, l) /\ sh # <<-1>> /\ \A i \in 1..Len(sh) : sh[i] > 0)
            /\ d.k = "any" => Homogeneous(fl)
            /\ \A i \in 1..Len(fl) : SingleYes(S, lf, d, fl[i])
    ELSE SingleYes(S, lf, d, v)

UnitKinds == {"num", "fdoubl", "uvari", "unorm", "int", "enc", "dtime", "dtimef", "any"}
UnitsYes(S, ty, l, u) ==
    \/ IsNone(u)
    \/ /\ u.t = "txt" /\ Ascii7(u.c) /\ Len(u.c) >= 1 /\ Len(u.c) <= 255
       /\ AttrDef(ty, l).k \in UnitKinds
       /\ HC(S) => Str(u.c) \in EnumOf["Unit"]

\* would this set be shared with another logical file?
SetTaken(S, lf, ty, st) ==
    \E i \in DOMAIN S.ob : S.ob[i].ty = ty /\ S.ob[i].lf # lf /\ S.ob[i].st = st

SetYes(S, e) ==
    /\ IsNone(e.set) \/ (e.set.t = "txt" /\ e.set.pt = "str" /\ Ascii7(e.set.c) /\ Len(e.set.c) <= 255)
    /\ ~SetTaken(S, e.lf, e.ty, IF IsNone(e.set) THEN <<>> ELSE TxtOr(e.set))

OrgYes(S, e) ==
    IsNone(e.org) \/ (/\ e.org.t = "int" /\ e.org.pt = "int" /\ SmallInt(e.org) >= 0
                      /\ IF e.ty = "ORIGIN"
                         THEN \A i \in 1..Len(Origins(S, e.lf)) : OriginRef(S, Origins(S, e.lf)[i]) # SmallInt(e.org)
                         ELSE TRUE)

SupportedDtypes == {"int8", "int16", "int32", "uint8", "uint16", "uint32", "float32", "float64"}
DtCode(dt) == CASE dt = "int8" -> SSHORT [] dt = "int16" -> SNORM [] dt = "int32" -> SLONG
                [] dt = "uint8" -> USHORT [] dt = "uint16" -> UNORM [] dt = "uint32" -> ULONG
                [] dt = "float32" -> FSINGL [] dt = "float64" -> FDOUBL [] OTHER -> 0
SignedDt == {"int8", "int16", "int32"}

AddYes(S, e) ==
    /\ e.strict
    /\ NameYes(S, e.name) /\ SetYes(S, e) /\ OrgYes(S, e)
    /\ IsNone(e.ds) \/ (e.ds.t = "txt" /\ e.ds.pt = "str"
                        /\ \A i \in DOMAIN S.ob : S.ob[i].lf = e.lf /\ S.ob[i].ty = "CHANNEL" => S.ob[i].ds # e.ds.c)
    /\ e.cast \in SupportedDtypes \cup {""}
    /\ \A i \in 1..Len(e.attrs) :
          /\ ValueYes(S, e.lf, e.ty, e.attrs[i].l, e.attrs[i].v)
          /\ UnitsYes(S, e.ty, e.attrs[i].l, e.attrs[i].u)

SetYesAttr(S, e) ==
    LET o == S.ob[e.ob] IN
    IF e.part = "value"
    THEN e.l # "FILE-SET-NUMBER" /\ ~IsNone(e.v) /\ ValueYes(S, o.lf, o.ty, e.l, e.v)
    ELSE ~IsNone(e.v) /\ UnitsYes(S, o.ty, e.l, e.v)

FileYes(S, e) ==
    /\ e.seq.t = "int" /\ e.seq.pt = "int" /\ SmallInt(e.seq) >= 1 /\ SmallInt(e.seq) <= 9999
    /\ e.mrl.t = "int" /\ e.mrl.pt = "int" /\ SmallInt(e.mrl) >= 20 /\ SmallInt(e.mrl) <= 16384
    /\ SmallInt(e.mrl) % 2 = 0
    /\ e.id.t = "txt" /\ e.id.pt = "str" /\ Ascii7(e.id.c) /\ Len(e.id.c) <= 60 /\ Len(e.id.c) >= 1
    /\ HC(S) => HcName(e.id.c)

\* file header sequence numbers have up to ten digits, so they are kept as decimal text next to the value
LfYes(S, e) ==
    /\ e.seq.t = "int" /\ e.seq.pt = "int" /\ e.seq.n = 0 /\ Len(e.seq.dec) <= 10 /\ e.seq.dec # <<48>>
    /\ e.id.t = "txt" /\ e.id.pt = "str" /\ Ascii7(e.id.c) /\ Len(e.id.c) <= 65 /\ Len(e.id.c) >= 1
    /\ e.name.t = "txt" /\ e.name.pt = "str" /\ Ascii7(e.name.c) /\ Len(e.name.c) = 1
    /\ HC(S) => (HcName(e.id.c) /\ HcName(e.name.c))

=============================================================================
