------------------------------ MODULE Conform ------------------------------
(***************************************************************************)
(* What a successfully written file has to be, given the specification S,  *)
(* the write options and the arrays; and which writes have to raise.       *)
(* Every operator returns a sequence of <<clause, detail>>; empty = holds. *)
(***************************************************************************)
EXTENDS Build

\* arrays: [dt, dims, n, rows]; rows are the big-endian bytes of each row
DtSize(dt) == CASE dt \in {"int8", "uint8", "bool"} -> 1 [] dt \in {"int16", "uint16"} -> 2
                [] dt \in {"int32", "uint32", "float32"} -> 4 [] OTHER -> 8
DecDt(dt, bs) == CASE dt \in {"int8", "int16", "int32", "int64"} -> FromSInt(bs)
                   [] dt \in {"uint8", "uint16", "uint32", "uint64", "bool"} -> FromUInt(bs)
                   [] dt = "float32" -> FromF32(bs)
                   [] dt = "float64" -> FromF64(bs)
                   [] OTHER -> NumNaN
CastableDtypes == SupportedDtypes \cup {"int64", "uint64", "bool"}

---------------------------------------------------------------------------
(* Data resolution                                                         *)

\* position of a data set in the source passed to write(); 0: not there
InSource(w, ds) ==
    LET idx == {i \in 1..Len(w.src.map) : w.src.map[i].ds = ds} IN
    IF idx = {} THEN 0 ELSE w.src.map[CHOOSE i \in idx : TRUE].arr

InlineOf(S, lf, ds) ==
    LET c == {i \in DOMAIN S.ob : S.ob[i].lf = lf /\ S.ob[i].ty = "CHANNEL" /\ S.ob[i].arr # 0 /\ S.ob[i].ds = ds}
    IN IF c = {} THEN 0 ELSE S.ob[CHOOSE i \in c : TRUE].arr

HasInline(S, lf) == \E i \in DOMAIN S.ob : S.ob[i].lf = lf /\ S.ob[i].ty = "CHANNEL" /\ S.ob[i].arr # 0

\* array id of a channel's data; 0: missing
DataOf(S, w, c) ==
    LET o == S.ob[c]
        a == InSource(w, o.ds)
    IN IF w.src.kind \in {"none", "dict"}
       THEN IF a # 0 THEN a ELSE IF o.arr # 0 THEN o.arr ELSE InlineOf(S, o.lf, o.ds)
       ELSE a

FinalDt(S, c, A) == IF S.ob[c].cast # "" THEN S.ob[c].cast ELSE A.dt

From(w) == MaxI(w.from, 0)
To(w, n) == IF w.to < 0 THEN n ELSE MinI(w.to, n)
NRows(w, n) == MaxI(To(w, n) - From(w), 0)

Frames(S, lf) == ObjsOf(S, lf, "FRAME")
AllFrames(S) == UNION {{Frames(S, i)[j] : j \in 1..Len(Frames(S, i))} : i \in 1..Len(S.lfs)}

---------------------------------------------------------------------------
(* Writes which have to raise, whatever the file would look like           *)

HcBreaches(S, w, arrays) ==
    LET nmbad == \E i \in DOMAIN S.ob : S.ob[i].nhc /\ ~HcName(S.ob[i].nm)
        idbad == \E i \in 1..Len(S.lfs) : S.lfs[i].hc /\ ~(HcName(S.lfs[i].id) /\ HcName(S.lfs[i].name))
        enbad == \E i \in DOMAIN S.ob : \E l \in DOMAIN S.ob[i].at :
                    LET a == S.ob[i].at[l]
                        d == AttrDef(S.ob[i].ty, l)
                    IN a.hc /\ (\/ d.k = "enums" /\ a.v.t = "txt" /\ Str(a.v.c) \notin EnumOf[d.e]
                                \/ a.u.t = "txt" /\ a.u.c # <<>> /\ Str(a.u.c) \notin EnumOf["Unit"])
        inframes(c) == FoldLeft(LAMBDA n, f : n + Len(SelectSeq(ChannelsOf(S, f), LAMBDA x : x = c)), 0,
                                Frames(S, S.ob[c].lf))
        chbad == \E c \in DOMAIN S.ob : S.ob[c].ty = "CHANNEL" /\ inframes(c) # 1
        sgbad == \E f \in AllFrames(S) : \E j \in 1..Len(ChannelsOf(S, f)) :
                    LET c == ChannelsOf(S, f)[j]
                        a == DataOf(S, w, c)
                    IN a # 0 /\ FinalDt(S, c, arrays[a]) \in SignedDt
    IN (IF nmbad \/ idbad THEN <<"name">> ELSE <<>>) \o (IF enbad THEN <<"enumerated attribute">> ELSE <<>>)
       \o (IF chbad THEN <<"channel not in exactly one frame">> ELSE <<>>)
       \o (IF sgbad THEN <<"signed integer data">> ELSE <<>>)

FrameMustRaise(S, w, arrays, f) ==
    LET chs == ChannelsOf(S, f)
        as == TLCEval([j \in 1..Len(chs) |-> DataOf(S, w, chs[j])])
        have == {j \in 1..Len(chs) : as[j] # 0}
    IN IF chs = <<>> THEN <<"frame without channels">>
       ELSE IF have # 1..Len(chs) THEN <<"missing data set">>
       ELSE (IF \E j \in have : FinalDt(S, chs[j], arrays[as[j]]) \notin SupportedDtypes
             THEN <<"unsupported dtype">> ELSE <<>>)
         \o (IF \E j \in have : Len(arrays[as[j]].dims) > 1 THEN <<"too many dimensions">> ELSE <<>>)
         \o (IF \E j \in have : arrays[as[j]].n # arrays[as[1]].n THEN <<"different row counts">> ELSE <<>>)

WriteMustRaise(S, w, arrays) ==
    (IF S.lfs = <<>> THEN <<"no logical files">> ELSE <<>>)
    \o FoldLeft(LAMBDA a, i :
            a \o (IF ~HasOrigin(S, i) THEN <<"no origin">> ELSE <<>>)
              \o (IF ObjsOf(S, i, "CHANNEL") = <<>> THEN <<"no channels">> ELSE <<>>)
              \o (IF Frames(S, i) = <<>> THEN <<"no frames">> ELSE <<>>)
              \o FoldLeft(LAMBDA x, f : x \o FrameMustRaise(S, w, arrays, f), <<>>, Frames(S, i)),
          <<>>, [i \in 1..Len(S.lfs) |-> i])

\* restrictions of the high-compatibility mode (C17)
WriteHcRaise(S, w, arrays) == IF HC(S) THEN HcBreaches(S, w, arrays) ELSE <<>>

---------------------------------------------------------------------------
(* Writes which may raise (inputs that are not certainly acceptable)       *)

Cnt(o, l) == LET v == GetAt(o, l).v IN IF IsNone(v) THEN 0 ELSE IF v.t = "list" THEN Len(v.v) ELSE 1
Present(o, l) == ~IsNone(GetAt(o, l).v)

UnequalCounts(o, ls) ==
    \E a, b \in ls : Present(o, a) /\ Present(o, b) /\ Cnt(o, a) # Cnt(o, b)

\* axes against dimensions (dims: sequence of TLC integers)
AxesFit(S, o, dims) ==
    LET ax == RefsIn(GetAt(o, "AXIS").v) IN
    ~Present(o, "AXIS") \/
    (/\ Len(ax) = Len(dims)
     /\ \A i \in 1..Len(ax) :
          LET co == GetAt(S.ob[ax[i].o], "COORDINATES").v IN IsNone(co) \/ Len(Flat(co)) = dims[i])

DimInts(v) == LET fl == Flat(v) IN TLCEval([i \in 1..Len(fl) |-> SmallInt(fl[i])])

ItemDoubt(S, i) ==
    LET o == S.ob[i] IN
    CASE o.ty = "CALIBRATION-COEFFICIENT" ->
            UnequalCounts(o, {"COEFFICIENTS", "REFERENCES", "PLUS-TOLERANCES", "MINUS-TOLERANCES"})
      [] o.ty = "CALIBRATION-MEASUREMENT" ->
            LET ls == {"MAXIMUM-DEVIATION", "STANDARD-DEVIATION", "STANDARD", "PLUS-TOLERANCE", "MINUS-TOLERANCE"}
                sh == {Tail(Shape(GetAt(o, l).v)) : l \in {l \in ls : Present(o, l) /\ GetAt(o, l).v.t = "list"}}
            IN \/ UnequalCounts(o, ls)
               \/ sh \ {<<>>} # {}
               \/ Present(o, "DIMENSION") \/ Present(o, "AXIS")
      [] o.ty \in {"PARAMETER", "COMPUTATION"} ->
            LET v == GetAt(o, "VALUES").v
                sh == IF v.t = "list" THEN Shape(v) ELSE <<1>>
                dm == IF Len(sh) > 1 THEN Tail(sh) ELSE <<1>>
            IN \/ Present(o, "DIMENSION") /\ (~Present(o, "VALUES") \/ DimInts(GetAt(o, "DIMENSION").v) # dm \/ dm = <<1>>)
               \/ Present(o, "AXIS") /\ (Len(sh) = 1 \/ ~AxesFit(S, o, dm))
               \/ Present(o, "VALUES") /\ Present(o, "ZONES") /\ sh[1] # Cnt(o, "ZONES")
               \/ o.ty = "PARAMETER" /\ Present(o, "VALUES") /\ ~Present(o, "ZONES") /\ Len(Flat(v)) > 1
               \/ Present(o, "VALUES") /\ Len(Flat(v)) = 0
               \/ 0 \in {sh[j] : j \in 1..Len(sh)} \/ sh = <<-1>>
      [] o.ty = "SPLICE" -> UnequalCounts(o, {"INPUT-CHANNELS", "ZONES"})
      [] o.ty = "ZONE" ->
            LET isdt(l) == LET v == GetAt(o, l).v IN v.t = "dt" \/ v.t = "txt"
            IN Present(o, "DOMAIN") /\
               IF Str(GetAt(o, "DOMAIN").v.c) = "TIME"
               THEN Present(o, "MAXIMUM") /\ Present(o, "MINIMUM") /\ isdt("MAXIMUM") # isdt("MINIMUM")
               ELSE isdt("MAXIMUM") \/ isdt("MINIMUM")
      [] OTHER -> FALSE

ChannelDoubt(S, w, arrays, c) ==
    LET o == S.ob[c]
        a == DataOf(S, w, c)
        inframe == \E f \in AllFrames(S) : \E j \in 1..Len(ChannelsOf(S, f)) : ChannelsOf(S, f)[j] = c
        dd == IF a = 0 THEN <<>> ELSE IF arrays[a].dims = <<>> THEN <<1>> ELSE arrays[a].dims
        du == DimInts(GetAt(o, "DIMENSION").v)
        el == DimInts(GetAt(o, "ELEMENT-LIMIT").v)
        bounds(x, y) == Len(x) >= Len(y) /\ \A i \in 1..Len(y) : x[i] >= y[i]
        eff == IF inframe THEN dd ELSE IF Present(o, "DIMENSION") THEN du ELSE el
    IN \/ inframe /\ Present(o, "DIMENSION") /\ du # dd
       \/ inframe /\ Present(o, "ELEMENT-LIMIT") /\ ~bounds(el, dd)
       \/ ~inframe /\ Present(o, "DIMENSION") /\ Present(o, "ELEMENT-LIMIT") /\ ~bounds(el, du)
       \/ Present(o, "AXIS") /\ ~AxesFit(S, o, eff)
       \/ inframe /\ a # 0 /\ (arrays[a].dt \notin SupportedDtypes \/ (arrays[a].dims # <<>> /\ arrays[a].dims[1] = 0))

FrameDoubt(S, w, arrays, f) ==
    LET chs == ChannelsOf(S, f)
        a == IF chs = <<>> THEN 0 ELSE DataOf(S, w, chs[1])
    IN IF a = 0 THEN TRUE
       ELSE \/ NRows(w, arrays[a].n) = 0
            \/ w.from < 0 \/ w.from > arrays[a].n \/ w.to > arrays[a].n \/ w.to < -1
            \/ Present(S.ob[f], "INDEX-TYPE") /\ arrays[a].dims # <<>>
            \/ Present(S.ob[f], "ENCRYPTED") /\ GetAt(S.ob[f], "ENCRYPTED").v.t \notin {"int", "bool"}
            \/ \E i, j \in 1..Len(chs) : i < j /\ (S.ob[chs[i]].nm = S.ob[chs[j]].nm)

IdentDoubt(S) ==
    \E i, j \in DOMAIN S.ob : i # j /\ S.ob[i].lf = S.ob[j].lf /\ S.ob[i].ty = S.ob[j].ty
                              /\ Ident(S, i) = Ident(S, j)

OriginDoubt(S) ==
    \E i \in DOMAIN S.ob : ~\E k \in 1..Len(Origins(S, S.ob[i].lf)) :
                               OriginRef(S, Origins(S, S.ob[i].lf)[k]) = OriginRef(S, i)

ValuesDoubt(S) ==
    \E i \in DOMAIN S.ob :
        LET o == S.ob[i] IN
        \/ o.nm = <<>> \/ Len(o.nm) > 255 \/ ~Ascii7(o.nm) \/ o.c > 255
        \/ Len(o.st) > 255 \/ ~Ascii7(o.st)
        \/ \E l \in DOMAIN o.at : \/ ~ValueYes(S, o.lf, o.ty, l, o.at[l].v)
                                  \/ ~UnitsYes(S, o.ty, l, o.at[l].u)

LfDoubt(S) ==
    \E i \in 1..Len(S.lfs) :
        LET d == GetAt(S.ob[DefOrigin(S, i)], "FILE-ID").v IN
        \/ d.t # "txt" \/ d.c # S.lfs[i].id
        \/ ~Ascii7(S.lfs[i].name) \/ ~Ascii7(S.lfs[i].id)
        \/ \E k \in 1..Len(S.lfs[i].nf) :
              \/ S.lfs[i].nf[k].pay.t = "bad"
              \/ S.ob[S.lfs[i].nf[k].ob].lf # i
              \/ S.lfs[i].nf[k].pay.t = "txt" /\ ~Ascii7(S.lfs[i].nf[k].pay.c)

SulDoubt(S) == ~S.sul.made \/ S.sul.mrl < 20 \/ S.sul.mrl > 16384 \/ S.sul.mrl % 2 = 1 \/ S.sul.seq < 0
               \/ Len(S.sul.id) > 60 \/ ~Ascii7(S.sul.id)

SourceDoubt(S, w) ==
    \/ w.src.kind = "bad"
    \/ w.src.kind \in {"struct", "hdf5"} /\ \E i \in 1..Len(S.lfs) : HasInline(S, i)
    \/ w.ich # 0 /\ w.ich < 1
    \/ w.och # 0 /\ w.och < S.sul.mrl

\* nothing is wrong with this write: it has to succeed.  Evaluated only when WriteMustRaise is empty.
WriteYes(S, w, arrays) ==
    /\ w.strict
    /\ ~SulDoubt(S)
    /\ ~LfDoubt(S) /\ ~IdentDoubt(S) /\ ~OriginDoubt(S) /\ ~ValuesDoubt(S) /\ ~SourceDoubt(S, w)
    /\ \A i \in DOMAIN S.ob : ~ItemDoubt(S, i)
    /\ \A i \in DOMAIN S.ob : S.ob[i].ty = "CHANNEL" => ~ChannelDoubt(S, w, arrays, i)
    /\ \A f \in AllFrames(S) : ~FrameDoubt(S, w, arrays, f)
    /\ HC(S) => /\ HcBreaches(S, w, arrays) = <<>>
                /\ HcName(S.sul.id)
                /\ \A i \in DOMAIN S.ob : HcName(S.ob[i].nm)
                /\ \A i \in 1..Len(S.lfs) : HcName(S.lfs[i].id) /\ HcName(S.lfs[i].name)
                /\ \A f \in AllFrames(S) : ~Present(S.ob[f], "INDEX-TYPE") \/ w.uniform

---------------------------------------------------------------------------
(* Expected attribute values                                               *)

NumEq(x, y) == x.k = y.k /\ x.s = y.s /\ x.b = y.b /\ x.e = y.e
DtEq(v, obs) == /\ obs.k = "dt" /\ obs.tz = 2
                /\ SameInstant(Instant(v.y, v.mo, v.d, v.h, v.mi, v.s, v.off), v.us,
                               Instant(obs.y, obs.mo, obs.d, obs.h, obs.mi, obs.s, 0), obs.ms)
TxtEq(v, obs) == obs.k = "txt" /\ v.t = "txt" /\ v.c = obs.c
NumKind(k) == k \in {"num", "nan", "inf"}

RefEq(S, lf, r, v, obs) ==
    /\ v.t = "ref" /\ v.o \in DOMAIN S.ob
    /\ S.ob[v.o].lf = lf
    /\ IF r = "" THEN obs.k = "or" /\ Str(obs.ty) = S.ob[v.o].ty
       ELSE obs.k = "ob" /\ S.ob[v.o].ty = r
    /\ LET id == Ident(S, v.o) IN id.o = obs.o /\ id.c = obs.cp /\ id.n = obs.n

ValEq(S, lf, d, v, obs) ==
    CASE d.k \in {"text", "ident", "identv", "enums", "enumh"} -> TxtEq(v, obs)
      [] d.k \in {"num", "fdoubl", "unorm", "uvari", "int", "dim", "status"} ->
            IsNumVal(v) /\ NumKind(obs.k) /\ NumEq(ValNum(v), obs)
      [] d.k = "enc" ->
            /\ NumKind(obs.k)
            /\ IF v.t = "txt" THEN v.flag >= 0 /\ NumEq(FromInt(v.flag), obs)
               ELSE IsNumVal(v) /\ NumEq(ValNum(v), obs)
      [] d.k = "dtime" -> IF v.t = "txt" THEN v.asdt /\ DtEq(v.dt, obs) ELSE v.t = "dt" /\ DtEq(v, obs)
      [] d.k = "dtimef" ->
            IF v.t = "txt" THEN v.asdt /\ DtEq(v.dt, obs)
            ELSE IF v.t = "dt" THEN DtEq(v, obs)
            ELSE IsNumVal(v) /\ NumKind(obs.k) /\ NumEq(ValNum(v), obs)
      [] d.k = "any" -> IF v.t = "txt" THEN TxtEq(v, obs)
                        ELSE IsNumVal(v) /\ NumKind(obs.k) /\ NumEq(ValNum(v), obs)
      [] d.k = "lntext" -> IF v.t = "txt" THEN TxtEq(v, obs) ELSE RefEq(S, lf, "LONG-NAME", v, obs)
      [] d.k = "ref" -> RefEq(S, lf, d.r, v, obs)
      [] d.k = "oref" -> RefEq(S, lf, "", v, obs)
      [] OTHER -> FALSE

\* clause of a wrong value: references are about identity (C07), the rest about fidelity (C05)
ValClause(d) == IF d.k \in {"ref", "oref"} THEN "ref" ELSE "meta"

Where(o, l) == o.ty \o " " \o Str(o.nm) \o " " \o l

UnitsErr(o, l, u, obs, alt) ==
    LET exp == IF u.t = "txt" THEN u.c ELSE IF IsNone(u) THEN <<>> ELSE <<-1>>
    IN IF obs.u = exp \/ (exp = <<>> /\ obs.u = alt) THEN <<>>
       ELSE << <<"meta", Where(o, l) \o ": units">> >>

\* an attribute to which the user assigned a value
AssignedErr(S, i, l, obs, altunits) ==
    LET o == S.ob[i]
        d == AttrDef(o.ty, l)
        a == GetAt(o, l)
        exp == Flat(a.v)
    IN IF exp = <<>> THEN (IF obs.pres /\ obs.cnt # 0 THEN << <<"added", Where(o, l)>> >> ELSE <<>>)
       ELSE IF ~obs.pres THEN << <<ValClause(d), Where(o, l) \o ": absent">> >>
       ELSE IF Len(obs.vals) # Len(exp) THEN << <<ValClause(d), Where(o, l) \o ": number of values">> >>
       ELSE (IF \E j \in 1..Len(exp) : ~ValEq(S, o.lf, d, exp[j], obs.vals[j])
             THEN << <<ValClause(d), Where(o, l) \o ": value">> >> ELSE <<>>)
         \o UnitsErr(o, l, a.u, obs, altunits)

AbsentErr(o, l, obs) == IF obs.pres /\ obs.cnt # 0 THEN << <<"added", Where(o, l)>> >> ELSE <<>>
NoUnits(o, l, obs) == IF obs.u # <<>> THEN << <<"added", Where(o, l) \o ": units">> >> ELSE <<>>

OneNum(obs) == obs.pres /\ Len(obs.vals) = 1 /\ NumKind(obs.vals[1].k)

DimsEq(obs, dims) ==
    obs.pres /\ Len(obs.vals) = Len(dims) /\
    \A j \in 1..Len(dims) : NumKind(obs.vals[j].k) /\ NumEq(obs.vals[j], FromInt(dims[j]))

AsciiTxt(s) == [k |-> "txt", c |-> s]
WILDCAT == << 87, 73, 76, 68, 67, 65, 84 >>
INCREASING == << 73, 78, 67, 82, 69, 65, 83, 73, 78, 71 >>
DECREASING == << 68, 69, 67, 82, 69, 65, 83, 73, 78, 71 >>

PosIn(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x

OriginDefault(S, i, l, obs) ==
    LET o == S.ob[i] IN
    CASE l = "FIELD-NAME" -> IF obs.pres /\ obs.vals = <<AsciiTxt(WILDCAT)>> THEN <<>>
                             ELSE << <<"meta", Where(o, l) \o ": default">> >>
      [] l = "FILE-SET-NUMBER" ->
            IF ~OneNum(obs) \/ ~IsInteger(obs.vals[1]) \/ obs.vals[1].s = 1
            THEN << <<"order", Where(o, l) \o ": missing">> >>
            ELSE IF o.nhc
            THEN LET same == SelectSeq(Origins(S, o.lf), LAMBDA x : S.ob[x].st = o.st)
                 IN IF NumEq(obs.vals[1], FromInt(PosIn(same, i)))
                       \/ NumEq(obs.vals[1], FromInt(PosIn(Origins(S, o.lf), i))) THEN <<>>
                    ELSE << <<"hcfsn", Where(o, l)>> >>
            ELSE <<>>
      [] l = "CREATION-TIME" -> IF obs.pres /\ Len(obs.vals) = 1 /\ obs.vals[1].k = "dt" THEN <<>>
                                ELSE << <<"meta", Where(o, l) \o ": default">> >>
      [] OTHER -> AbsentErr(o, l, obs)

\* defaults of DIMENSION of objects with values
ShapesOf(o, ls) == {LET v == GetAt(o, l).v
                        sh == IF v.t = "list" THEN Shape(v) ELSE <<1>>
                    IN IF Len(sh) > 1 THEN Tail(sh) ELSE <<1>> : l \in {l \in ls : Present(o, l)}}
DimDefault(o, obs, ls) ==
    IF ~obs.pres \/ obs.cnt = 0
    THEN (IF \E s \in ShapesOf(o, ls) : Len(s) > 1 \/ s[1] > 1
          THEN << <<"meta", Where(o, "DIMENSION") \o ": default">> >> ELSE <<>>)
    ELSE IF \E s \in ShapesOf(o, ls) : DimsEq(obs, s) THEN <<>>
    ELSE << <<"added", Where(o, "DIMENSION")>> >>

OtherDefault(S, i, l, obs) ==
    LET o == S.ob[i] IN
    IF o.ty = "ORIGIN" THEN OriginDefault(S, i, l, obs)
    ELSE IF o.ty = "CHANNEL" /\ l = "LONG-NAME"
         THEN IF obs.pres /\ obs.vals = <<AsciiTxt(o.nm)>> THEN <<>>
              ELSE << <<"meta", Where(o, l) \o ": default">> >>
    ELSE IF o.ty \in {"PARAMETER", "COMPUTATION"} /\ l = "DIMENSION" THEN DimDefault(o, obs, {"VALUES"})
    ELSE IF o.ty = "CALIBRATION-MEASUREMENT" /\ l = "DIMENSION"
         THEN DimDefault(o, obs, {"MEASUREMENT", "MAXIMUM-DEVIATION", "STANDARD-DEVIATION", "REFERENCE", "STANDARD",
                                  "PLUS-TOLERANCE", "MINUS-TOLERANCE"})
    ELSE AbsentErr(o, l, obs)

\* --- channel descriptors (C08) ---
ChannelDescErr(S, w, arrays, c, l, obs) ==
    LET o == S.ob[c]
        inframe == \E f \in AllFrames(S) : \E j \in 1..Len(ChannelsOf(S, f)) : ChannelsOf(S, f)[j] = c
        a == DataOf(S, w, c)
        A == arrays[a]
        dims == IF A.dims = <<>> THEN <<1>> ELSE A.dims
        bad(x) == << <<"desc", Where(o, l) \o x>> >>
    IN IF inframe /\ a # 0
       THEN CASE l = "REPRESENTATION-CODE" ->
                    IF OneNum(obs) /\ NumEq(obs.vals[1], FromInt(DtCode(FinalDt(S, c, A)))) THEN <<>> ELSE bad("")
              [] l = "DIMENSION" -> IF DimsEq(obs, dims) THEN <<>> ELSE bad("")
              [] l = "ELEMENT-LIMIT" ->
                    IF /\ obs.pres /\ Len(obs.vals) >= Len(dims)
                       /\ \A j \in 1..Len(dims) : NumKind(obs.vals[j].k) /\ NumCmp(obs.vals[j], FromInt(dims[j])) >= 0
                       /\ Present(o, l) \/ DimsEq(obs, dims)
                    THEN <<>> ELSE bad("")
              [] OTHER -> <<>>
       ELSE CASE l = "REPRESENTATION-CODE" ->
                    IF o.cast = "" THEN <<>>
                    ELSE IF OneNum(obs) /\ NumEq(obs.vals[1], FromInt(DtCode(o.cast))) THEN <<>> ELSE bad("")
              [] l \in {"DIMENSION", "ELEMENT-LIMIT"} /\ ~Present(o, l) ->
                    LET other == IF l = "DIMENSION" THEN "ELEMENT-LIMIT" ELSE "DIMENSION"
                    IN IF Present(o, other) THEN (IF DimsEq(obs, DimInts(GetAt(o, other).v)) THEN <<>> ELSE bad(""))
                       ELSE AbsentErr(o, l, obs)
              [] OTHER -> <<>>

\* --- index metadata (C13); xs: numbers of the index channel over the rows written ---
Bad13(o, l, x) == << <<"index", Where(o, l) \o ": " \o x>> >>

MinOf(xs) == FoldLeft(LAMBDA a, x : IF NumCmp(x, a) < 0 THEN x ELSE a, xs[1], xs)
MaxOf(xs) == FoldLeft(LAMBDA a, x : IF NumCmp(x, a) > 0 THEN x ELSE a, xs[1], xs)
SCALE == 10
AllScalable(xs) == \A i \in 1..Len(xs) : Scalable(xs[i], SCALE)
Diffs(xs) == TLCEval([i \in 1..(Len(xs) - 1) |-> Scaled(xs[i + 1], SCALE) - Scaled(xs[i], SCALE)])
AbsI(x) == IF x < 0 THEN -x ELSE x
FromScaled(d) == IF d < 0 THEN [FromInt(d) EXCEPT !.e = @ - SCALE]
                 ELSE IF d = 0 THEN NumZero ELSE [FromInt(d) EXCEPT !.e = @ - SCALE]
\* twice the median
Median2(ds) ==
    LET s == SortSeq(ds, LAMBDA a, b : a < b)
        n == Len(s)
    IN IF n % 2 = 1 THEN 2 * s[(n + 1) \div 2] ELSE s[n \div 2] + s[n \div 2 + 1]

\* "exact" all differences equal; "near" within the tolerance; "non" outside of it; "unsure" too close to call
Uniformity(ds) ==
    IF \A i \in 1..Len(ds) : ds[i] = ds[1] THEN "exact"
    ELSE LET m == Median2(ds) IN
         IF \E i \in 1..Len(ds) : AbsI(ds[i]) > 500000 THEN "unsure"
         ELSE IF m = 0 THEN "non"
         ELSE IF \A i \in 1..Len(ds) : AbsI(m - 2 * ds[i]) * 1000 < 31 * AbsI(m) THEN "near"
         ELSE IF \E i \in 1..Len(ds) : AbsI(m - 2 * ds[i]) * 1000 > 32 * AbsI(m) THEN "non"
         ELSE "unsure"

Sense(ds) == IF (\A i \in 1..Len(ds) : ds[i] >= 0) /\ (\E i \in 1..Len(ds) : ds[i] > 0) THEN INCREASING
             ELSE IF (\A i \in 1..Len(ds) : ds[i] <= 0) /\ (\E i \in 1..Len(ds) : ds[i] < 0) THEN DECREASING
             ELSE <<>>

IndexErr(S, f, l, obs, xs, at) ==
    LET o == S.ob[f]
        indexed == Present(o, "INDEX-TYPE")
        n == Len(xs)
        usable == n > 0 /\ \A i \in 1..n : xs[i].k \in {"num", "inf"}
        one(x) == OneNum(obs) /\ NumEq(obs.vals[1], x)
        sc == usable /\ n > 1 /\ AllScalable(xs)
        ds == Diffs(xs)
        un == Uniformity(ds)
        dirobs == obs.pres /\ Len(obs.vals) = 1 /\ obs.vals[1].k = "txt"
    IN IF ~indexed
       THEN CASE l = "INDEX-MIN" -> IF one(FromInt(1)) THEN <<>> ELSE Bad13(o, l, "row numbers start at 1")
              [] l = "INDEX-MAX" -> IF one(FromInt(n)) THEN <<>> ELSE Bad13(o, l, "number of rows")
              [] l = "SPACING" -> IF ~obs.pres \/ one(FromInt(1)) THEN <<>> ELSE Bad13(o, l, "rows are 1 apart")
              [] OTHER -> IF obs.pres THEN Bad13(o, l, "present") ELSE <<>>
       ELSE IF n = 0 THEN <<>>
       ELSE CASE l = "INDEX-MIN" -> IF ~usable \/ one(MinOf(xs)) THEN <<>> ELSE Bad13(o, l, "minimum")
              [] l = "INDEX-MAX" -> IF ~usable \/ one(MaxOf(xs)) THEN <<>> ELSE Bad13(o, l, "maximum")
              [] l = "SPACING" ->
                   IF n = 1 THEN (IF obs.pres THEN Bad13(o, l, "present for a single row") ELSE <<>>)
                   ELSE IF ~sc THEN <<>>
                   ELSE IF un = "exact"
                        THEN IF ds[1] = 0 THEN (IF ~obs.pres \/ one(NumZero) THEN <<>> ELSE Bad13(o, l, "difference"))
                             ELSE IF one(FromScaled(ds[1])) THEN <<>> ELSE Bad13(o, l, "difference")
                   ELSE IF un = "near"
                        THEN LET s == SortSeq(ds, LAMBDA a, b : a < b) IN
                             IF OneNum(obs) /\ obs.vals[1].k = "num" /\ NumCmp(obs.vals[1], FromScaled(s[1])) >= 0
                                /\ NumCmp(obs.vals[1], FromScaled(s[Len(s)])) <= 0
                             THEN <<>> ELSE Bad13(o, l, "difference within tolerance")
                   ELSE IF un = "non" THEN (IF obs.pres THEN Bad13(o, l, "present though not uniform") ELSE <<>>)
                   ELSE <<>>
              [] OTHER ->                                                    \* DIRECTION
                   IF n = 1 THEN (IF obs.pres THEN Bad13(o, l, "present for a single row") ELSE <<>>)
                   ELSE IF ~sc THEN <<>>
                   ELSE LET truth == Sense(ds) IN
                        IF obs.pres /\ ~(dirobs /\ obs.vals[1].c = truth /\ truth # <<>>)
                        THEN Bad13(o, l, "sense")
                        ELSE IF ~obs.pres /\ un = "non" /\ truth # <<>> THEN Bad13(o, l, "missing")
                        ELSE <<>>

IndexLabels == {"INDEX-MIN", "INDEX-MAX", "SPACING", "DIRECTION"}

---------------------------------------------------------------------------
(* Decoded logical files                                                   *)

\* parsed records with the decoded EFLRs; d: decoded set (EFLR) or NoSet
NoSet == [ok |-> FALSE, err |-> <<>>, ty |-> "", nm |-> <<>>, named |-> FALSE, tmpl |-> <<>>, objs |-> <<>>,
          canon |-> TRUE]
DecodeRecs(recs) ==
    TLCEval([i \in 1..Len(recs) |-> [e |-> recs[i].e, ty |-> recs[i].ty, body |-> recs[i].body,
                                     d |-> IF recs[i].e = 1 THEN ParseEflr(recs[i].body) ELSE NoSet]])

GrammarErrs(rs) ==
    FoldLeft(LAMBDA a, r : IF r.e = 1 /\ ~r.d.ok THEN Append(a, <<"grammar", r.d.ty \o ": " \o r.d.err[1]>>)
                           ELSE a, <<>>, rs)

IsHeader(r) == r.e = 1 /\ r.d.ty = "FILE-HEADER"
HeaderPos(rs) == SelectSeq([i \in 1..Len(rs) |-> i], LAMBDA i : IsHeader(rs[i]))

\* records of the k-th logical file
LfRecs(rs, hp, k) == SubSeq(rs, hp[k], IF k < Len(hp) THEN hp[k + 1] - 1 ELSE Len(rs))

IsOrigin(r) == r.e = 1 /\ r.d.ty = "ORIGIN"

HeaderErrs(S, k, rs) ==
    LET d == rs[1].d
        lf == S.lfs[k]
        b(x) == << <<"order", "file header " \o ToString(k) \o ": " \o x>> >>
    IN IF rs[1].ty # 0 THEN << <<"lrtype", "file header " \o ToString(k)>> >>
       ELSE IF Len(d.objs) # 1 THEN b("number of objects")
       ELSE LET sq == AttrOf(d, d.objs[1], "SEQUENCE-NUMBER")
                id == AttrOf(d, d.objs[1], "ID")
                dec == IF lf.seq.t = "int" /\ lf.seq.n = 0 THEN lf.seq.dec ELSE <<-1>>
            IN (IF sq.pres /\ Len(dec) <= 10 /\ sq.vals = <<AsciiTxt(PadLeft(dec, 10))>> /\ sq.code = ASCII
                THEN <<>> ELSE b("sequence number"))
            \o (IF id.pres /\ Len(lf.id) <= 65 /\ id.vals = <<AsciiTxt(PadRight(lf.id, 65))>> /\ id.code = ASCII
                THEN <<>> ELSE b("id"))
            \o (IF d.objs[1].n = lf.name THEN <<>> ELSE b("name"))
            \o (IF d.objs[1].o = OriginRef(S, DefOrigin(S, k)) THEN <<>>
                ELSE << <<"origin", "file header " \o ToString(k)>> >>)

OrderErrs(S, k, rs) ==
    LET n == Len(rs)
        b(x) == << <<"order", "logical file " \o ToString(k) \o ": " \o x>> >>
        eflrs == {i \in 1..n : rs[i].e = 1}
        iflrs == {i \in 1..n : rs[i].e = 0}
        orgs == {i \in eflrs : IsOrigin(rs[i])}
        norg == Len(SelectSeq(rs, IsOrigin))
    IN (IF n < 2 \/ ~IsOrigin(rs[2]) THEN b("the header is not followed by an origin")
        ELSE IF orgs # 2..(norg + 1) THEN b("origin sets do not follow the header directly")
        ELSE LET fo == rs[2].d.objs[1]
                 d == DefOrigin(S, k)
                 fid == AttrOf(rs[2].d, fo, "FILE-ID")
                 fsn == AttrOf(rs[2].d, fo, "FILE-SET-NUMBER")
             IN (IF fo.n = S.ob[d].nm /\ fo.o = OriginRef(S, d) /\ fo.cp = S.ob[d].c THEN <<>>
                 ELSE b("first origin is not the defining one"))
             \o (IF fid.pres /\ fid.vals = <<AsciiTxt(S.lfs[k].id)>> THEN <<>> ELSE b("FILE-ID of the defining origin"))
             \o (IF OneNum(fsn) THEN <<>> ELSE b("FILE-SET-NUMBER of the defining origin")))
       \o (IF \E i \in iflrs : \E j \in eflrs : i < j THEN b("data before the end of the sets") ELSE <<>>)
       \o (IF \E i, j \in eflrs : i < j /\ rs[i].d.ty = rs[j].d.ty /\ rs[i].d.nm = rs[j].d.nm
           THEN b("set repeated") ELSE <<>>)
       \o (IF \E i \in eflrs : rs[i].d.ty \in ObjTypes /\ rs[i].ty # SchemaOf[rs[i].d.ty].lr
           THEN << <<"lrtype", "logical file " \o ToString(k) \o ": set">> >> ELSE <<>>)
       \o (IF \E i \in eflrs : rs[i].d.ty \notin ObjTypes \cup {"FILE-HEADER"}
           THEN b("unknown set type") ELSE <<>>)
       \o (IF \E i \in iflrs : rs[i].ty \notin {0, 1} THEN << <<"lrtype", "logical file " \o ToString(k) \o ": data">> >> ELSE <<>>)

\* all objects decoded: sequence of [r, j]: record index and object index
ObjIdx(rs) ==
    FoldLeft(LAMBDA a, i : IF rs[i].e = 1 /\ rs[i].d.ok /\ ~IsHeader(rs[i])
                           THEN a \o [j \in 1..Len(rs[i].d.objs) |-> [r |-> i, j |-> j]] ELSE a,
             <<>>, [i \in 1..Len(rs) |-> i])

ObjOf(rs, x) == rs[x.r].d.objs[x.j]

\* decoded objects which are object i of the specification
Matches(S, i, rs, idx) ==
    LET id == Ident(S, i) IN
    SelectSeq(idx, LAMBDA x : LET q == ObjOf(rs, x) IN
                              rs[x.r].d.ty = S.ob[i].ty /\ q.n = id.n /\ q.o = id.o /\ q.cp = id.c)
\* the same, ignoring origin and copy number: tells a missing object from one with a wrong identity
NameMatches(S, i, rs, idx) ==
    SelectSeq(idx, LAMBDA x : rs[x.r].d.ty = S.ob[i].ty /\ ObjOf(rs, x).n = S.ob[i].nm)

ObjLabel(S, i) == S.ob[i].ty \o " " \o Str(S.ob[i].nm)

ObjectErrs(S, w, arrays, i, rs, idx, xs) ==
    LET m == Matches(S, i, rs, idx)
        o == S.ob[i]
    IN IF Len(m) = 0
       THEN IF NameMatches(S, i, rs, idx) # <<>> THEN << <<"identity", ObjLabel(S, i) \o ": origin or copy number">> >>
            ELSE << <<"lost", ObjLabel(S, i)>> >>
       ELSE IF Len(m) > 1 THEN << <<"identity", ObjLabel(S, i) \o ": not unique">> >>
       ELSE LET d == rs[m[1].r].d
                q == ObjOf(rs, m[1])
                \* the units of the index channel are the default of the index attributes
                ixch == IF o.ty = "FRAME" /\ ChannelsOf(S, i) # <<>> THEN GetAt(S.ob[ChannelsOf(S, i)[1]], "UNITS").v
                        ELSE None
                alt == IF Present(o, "INDEX-TYPE") /\ ixch.t = "txt" THEN ixch.c ELSE <<>>
                altFor(l) == IF o.ty = "FRAME" /\ l \in IndexLabels \ {"DIRECTION"} THEN alt ELSE <<>>
                one(l) ==
                   LET obs == AttrOf(d, q, l) IN
                   IF o.ty = "CHANNEL" /\ l \in {"REPRESENTATION-CODE", "DIMENSION", "ELEMENT-LIMIT"}
                   THEN ChannelDescErr(S, w, arrays, i, l, obs)
                        \o (IF Present(o, l) THEN AssignedErr(S, i, l, obs, <<>>) ELSE <<>>)
                   ELSE IF Present(o, l)
                        THEN LET e == AssignedErr(S, i, l, obs, altFor(l))
                             IN IF e # <<>> /\ o.ty = "FRAME" /\ l \in IndexLabels
                                THEN Append(e, <<"index", Where(o, l) \o ": explicit value changed">>) ELSE e
                   ELSE IF ~IsNone(GetAt(o, l).u) /\ o.ty # "FRAME" THEN <<>>     \* units without a value
                   ELSE IF o.ty = "FRAME" /\ l \in IndexLabels
                        THEN IndexErr(S, i, l, obs, xs, 0)
                             \o (IF obs.pres /\ obs.u # <<>> /\ obs.u # altFor(l) /\ IsNone(GetAt(o, l).u)
                                 THEN << <<"added", Where(o, l) \o ": units">> >> ELSE <<>>)
                   ELSE OtherDefault(S, i, l, obs) \o NoUnits(o, l, obs)
            IN (IF d.nm = o.st THEN <<>> ELSE << <<"order", ObjLabel(S, i) \o ": in set " \o Str(d.nm)>> >>)
            \o FoldLeft(LAMBDA a, at : a \o one(at.l), <<>>, SchemaOf[o.ty].at)
            \o (IF \E t \in 1..Len(d.tmpl) : d.tmpl[t].l \notin LabelsOf(o.ty)
                THEN << <<"added", ObjLabel(S, i) \o ": attribute which is not standard">> >> ELSE <<>>)

---------------------------------------------------------------------------
(* Indirectly formatted records                                            *)

NoHead == [ok |-> FALSE, o |-> 0, c |-> 0, n |-> <<>>, num |-> 0, p |-> 0, canon |-> TRUE]

\* opening reference (and, for frame data, the frame number)
IflrHead(r) ==
    LET o == DecObname(r.body, 1, Len(r.body)) IN
    IF ~o.ok THEN NoHead
    ELSE LET cn == CanonLen(OBNAME, o.v) = o.p - 1 IN
         IF r.ty = 1 THEN [ok |-> TRUE, o |-> o.v.o, c |-> o.v.cp, n |-> o.v.n, num |-> 0, p |-> o.p, canon |-> cn]
         ELSE LET u == DecUvari(r.body, o.p, Len(r.body)) IN
              IF ~u.ok THEN NoHead
              ELSE [ok |-> TRUE, o |-> o.v.o, c |-> o.v.cp, n |-> o.v.n, num |-> u.v.i, p |-> u.p, canon |-> cn /\ u.v.short]

SameIdent(S, i, h) == LET id == Ident(S, i) IN id.o = h.o /\ id.c = h.c /\ id.n = h.n

Heads(rs) == TLCEval([i \in 1..Len(rs) |-> IF rs[i].e = 0 THEN IflrHead(rs[i]) ELSE NoHead])

\* indices of the frame data records of frame f
RowsOf(S, f, rs, hs) ==
    SelectSeq([i \in 1..Len(rs) |-> i], LAMBDA i : rs[i].e = 0 /\ rs[i].ty = 0 /\ hs[i].ok /\ SameIdent(S, f, hs[i]))

IflrRefErrs(S, k, rs, hs) ==
    FoldLeft(LAMBDA a, i :
        IF rs[i].e = 1 THEN a
        ELSE IF ~hs[i].ok THEN Append(a, <<"grammar", "indirectly formatted record without a proper reference">>)
        ELSE LET cand == ObjsOf(S, k, IF rs[i].ty = 0 THEN "FRAME" ELSE "NO-FORMAT") IN
             IF \E j \in 1..Len(cand) : SameIdent(S, cand[j], hs[i]) THEN a
             ELSE Append(a, <<"iref", "record refers to " \o Str(hs[i].n) \o ", which is not an object of this file">>),
        <<>>, [i \in 1..Len(rs) |-> i])

\* an input element, cast to dt, against the slot element
CastEq(src, dt, ib, ob) ==
    LET x == DecDt(src, ib)
        y == DecDt(dt, ob)
    IN IF dt = "float32" THEN (IF x.k = "nan" THEN y.k = "nan" ELSE NumEq(RoundF32(x), y))
       ELSE IF dt = "float64" THEN (IF x.k = "nan" THEN y.k = "nan" ELSE NumEq(RoundF64(x), y))
       ELSE LET t == TruncInt(x)
                n == 8 * DtSize(dt)
            IN IF t.k # "num" \/ ~(IF dt \in SignedDt THEN FitsSigned(t, n) ELSE FitsUnsigned(t, n)) THEN TRUE
               ELSE NumEq(t, y)

\* sum of the channels' slot sizes as declared in the file
Decl(S, c, rs, idx) ==
    LET m == Matches(S, c, rs, idx) IN
    IF Len(m) # 1 THEN [ok |-> FALSE, code |-> 0, size |-> 0]
    ELSE LET d == rs[m[1].r].d
             q == ObjOf(rs, m[1])
             rc == AttrOf(d, q, "REPRESENTATION-CODE")
             dm == AttrOf(d, q, "DIMENSION")
             okc == OneNum(rc) /\ IsInteger(rc.vals[1]) /\ rc.vals[1].s = 0 /\ Msb(rc.vals[1]) <= 5
             code == IF okc THEN Scaled(rc.vals[1], 0) ELSE 0
             okd == dm.pres /\ \A j \in 1..Len(dm.vals) : NumKind(dm.vals[j].k) /\ Scalable(dm.vals[j], 0)
         IN IF okc /\ okd /\ code \in 1..27
            THEN [ok |-> TRUE, code |-> code,
                  size |-> CodeSize[code] * FoldLeft(LAMBDA a, v : a * Scaled(v, 0), 1, dm.vals)]
            ELSE [ok |-> FALSE, code |-> 0, size |-> 0]

FrameErrs(S, w, arrays, f, rs, hs, idx) ==
    LET chs == ChannelsOf(S, f)
        as == TLCEval([j \in 1..Len(chs) |-> arrays[DataOf(S, w, chs[j])]])
        n == NRows(w, as[1].n)
        rows == RowsOf(S, f, rs, hs)
        lab == ObjLabel(S, f)
        decl == TLCEval([j \in 1..Len(chs) |-> Decl(S, chs[j], rs, idx)])
        declok == \A j \in 1..Len(chs) : decl[j].ok
        total == FoldLeft(LAMBDA a, x : a + x.size, 0, decl)
        nocast == \A j \in 1..Len(chs) : S.ob[chs[j]].cast \in {"", as[j].dt}
        esize(j) == LET d == FinalDt(S, chs[j], as[j]) IN DtSize(d)
        nelem(j) == FoldLeft(LAMBDA a, x : a * x, 1, as[j].dims)
        offs == FoldLeft(LAMBDA a, j : Append(a, a[Len(a)] + nelem(j) * esize(j)), <<0>>, [j \in 1..Len(chs) |-> j])
        exprow(i) == FoldLeft(LAMBDA a, j : a \o as[j].rows[From(w) + i], <<>>, [j \in 1..Len(chs) |-> j])
        rowok(i) ==
            LET bd == rs[rows[i]].body
                p == hs[rows[i]].p
                slots == SubSeq(bd, p, Len(bd))
            IN IF Len(slots) # offs[Len(offs)] THEN FALSE
               ELSE IF nocast THEN slots = exprow(i)
               ELSE \A j \in 1..Len(chs) :
                      LET src == as[j].dt
                          dt == FinalDt(S, chs[j], as[j])
                          inp == as[j].rows[From(w) + i]
                          got == SubSeq(slots, offs[j] + 1, offs[j + 1])
                      IN IF src = dt THEN inp = got
                         ELSE \A q \in 1..nelem(j) :
                                CastEq(src, dt, Slice(inp, 1 + (q - 1) * DtSize(src), DtSize(src)),
                                       Slice(got, 1 + (q - 1) * DtSize(dt), DtSize(dt)))
    IN (IF Len(rows) # n THEN << <<"rows", lab \o ": " \o ToString(Len(rows)) \o " records instead of "
                                            \o ToString(n)>> >> ELSE <<>>)
    \o (IF \E i \in 1..Len(rows) : hs[rows[i]].num # i THEN << <<"framenum", lab>> >> ELSE <<>>)
    \o (IF ~declok \/ \E i \in 1..Len(rows) : Len(rs[rows[i]].body) - hs[rows[i]].p + 1 # total
        THEN << <<"slots", lab \o ": record length differs from the declared layout">> >> ELSE <<>>)
    \o (IF \E i \in 1..MinI(Len(rows), n) : ~rowok(i)
        THEN << <<"data", lab \o ": row " \o ToString(CHOOSE i \in 1..MinI(Len(rows), n) : ~rowok(i)
                                               /\ \A j \in 1..(i - 1) : rowok(j))>> >> ELSE <<>>)

\* numbers of the index channel as written
IndexNums(S, w, arrays, f, rs, hs) ==
    LET chs == ChannelsOf(S, f)
        A == arrays[DataOf(S, w, chs[1])]
        dt == FinalDt(S, chs[1], A)
        rows == RowsOf(S, f, rs, hs)
        k == IF A.dims = <<>> THEN 1 ELSE 0
    IN IF k = 0 THEN [i \in 1..Len(rows) |-> NumNaN]
       ELSE TLCEval([i \in 1..Len(rows) |->
              LET bd == rs[rows[i]].body
                  p == hs[rows[i]].p
              IN IF p + DtSize(dt) - 1 > Len(bd) THEN NumNaN ELSE DecDt(dt, Slice(bd, p, DtSize(dt)))])

NfErrs(S, k, rs, hs) ==
    LET got == SelectSeq([i \in 1..Len(rs) |-> i], LAMBDA i : rs[i].e = 0 /\ rs[i].ty = 1 /\ hs[i].ok)
        exp == S.lfs[k].nf
        b(x) == << <<"nf", "logical file " \o ToString(k) \o ": " \o x>> >>
    IN IF Len(got) # Len(exp) THEN b("number of no-format records")
       ELSE IF \E i \in 1..Len(exp) : ~SameIdent(S, exp[i].ob, hs[got[i]]) THEN b("order or owner of the records")
       ELSE IF \E i \in 1..Len(exp) :
                 LET bd == rs[got[i]].body IN SubSeq(bd, hs[got[i]].p, Len(bd)) # TxtOr(exp[i].pay)
            THEN b("payload") ELSE <<>>

---------------------------------------------------------------------------

LfErrs(S, w, arrays, k, rs) ==
    LET hs == Heads(rs)
        idx == ObjIdx(rs)
        lf == S.lfs[k]
        \* per object: numbers of its index channel, if it is a frame
        xs == TLCEval([j \in 1..Len(lf.objs) |-> IF S.ob[lf.objs[j]].ty = "FRAME"
                                                 THEN IndexNums(S, w, arrays, lf.objs[j], rs, hs) ELSE <<>>])
        frs == Frames(S, k)
        orefs == {OriginRef(S, Origins(S, k)[j]) : j \in 1..Len(Origins(S, k))}
        extra == Len(idx) > Len(lf.objs)
    IN HeaderErrs(S, k, rs) \o OrderErrs(S, k, rs)
       \o (IF \E i \in 1..Len(rs) : ~rs[i].d.canon \/ (hs[i].ok /\ ~hs[i].canon)
           THEN << <<"enc", "logical file " \o ToString(k) \o ": a value is not in its standard encoding">> >> ELSE <<>>)
       \o FoldLeft(LAMBDA a, j : a \o ObjectErrs(S, w, arrays, lf.objs[j], rs, idx, xs[j]), <<>>,
                   [j \in 1..Len(lf.objs) |-> j])
       \o (IF extra THEN << <<"extra", "logical file " \o ToString(k) \o ": objects not of this file">> >> ELSE <<>>)
       \o (IF \E x \in 1..Len(idx) : ObjOf(rs, idx[x]).o \notin orefs
           THEN << <<"origin", "logical file " \o ToString(k) \o ": origin field without such an origin">> >> ELSE <<>>)
       \o IflrRefErrs(S, k, rs, hs)
       \o FoldLeft(LAMBDA a, f : a \o FrameErrs(S, w, arrays, f, rs, hs, idx), <<>>, frs)
       \o NfErrs(S, k, rs, hs)

\* Conformance of the records of a file to the specification; needs WriteMustRaise to be empty
RecordErrs(S, w, arrays, recs) ==
    LET rs == DecodeRecs(recs)
        g == GrammarErrs(rs)
        hp == HeaderPos(rs)
    IN IF g # <<>> THEN g
       ELSE IF Len(rs) = 0 \/ hp = <<>> \/ hp[1] # 1 THEN << <<"order", "the file does not begin with a file header">> >>
       ELSE IF Len(hp) # Len(S.lfs) THEN << <<"lfcount", ToString(Len(hp)) \o " logical files">> >>
       ELSE FoldLeft(LAMBDA a, k : a \o LfErrs(S, w, arrays, k, LfRecs(rs, hp, k)), <<>>, [k \in 1..Len(hp) |-> k])

\* the records the writer was given (taps), against the reassembled ones
TapErrs(taps, recs) ==
    IF taps = <<>> THEN <<>>
    ELSE IF Len(taps) # Len(recs) THEN << <<"lrseq", ToString(Len(recs)) \o " records instead of "
                                                    \o ToString(Len(taps))>> >>
    ELSE LET bad == {i \in 1..Len(recs) : \/ taps[i].e # recs[i].e \/ taps[i].ty # recs[i].ty
                                          \/ taps[i].body # recs[i].body}
         IN IF bad = {} THEN <<>>
            ELSE << <<"lrseq", "record " \o ToString(CHOOSE i \in bad : \A j \in bad : i <= j)>> >>

---------------------------------------------------------------------------
(* The part of specification, data and options on which the file depends   *)

RECURSIVE NormVal(_, _)
NormVal(S, v) ==
    IF v.t = "ref" THEN [t |-> "ref", p |-> IF v.o \in DOMAIN S.ob
                                            THEN <<S.ob[v.o].lf, PosIn(S.lfs[S.ob[v.o].lf].objs, v.o)>> ELSE <<0, 0>>]
    ELSE IF v.t = "list" THEN [t |-> "list", v |-> [i \in 1..Len(v.v) |-> NormVal(S, v.v[i])]]
    ELSE v

Determined(S) ==
    \A i \in 1..Len(S.lfs) : \A j \in 1..Len(Origins(S, i)) :
        LET o == S.ob[Origins(S, i)[j]] IN Present(o, "FILE-SET-NUMBER") /\ Present(o, "CREATION-TIME")

ObjKey(S, w, arrays, i) ==
    LET o == S.ob[i]
        ls == {l \in DOMAIN o.at : ~IsNone(o.at[l].v) \/ ~IsNone(o.at[l].u)}
        inframe == o.ty = "CHANNEL" /\ \E f \in AllFrames(S) : \E j \in 1..Len(ChannelsOf(S, f)) : ChannelsOf(S, f)[j] = i
        a == IF inframe THEN DataOf(S, w, i) ELSE 0
    IN [ty |-> o.ty, nm |-> o.nm, st |-> o.st, og |-> o.og, cast |-> o.cast,
        at |-> [l \in ls |-> [v |-> NormVal(S, o.at[l].v), u |-> o.at[l].u]],
        data |-> IF a = 0 THEN [dt |-> "", dims |-> <<>>, rows |-> <<>>]
                 ELSE [dt |-> arrays[a].dt, dims |-> arrays[a].dims,
                       rows |-> SubSeq(arrays[a].rows, From(w) + 1, To(w, arrays[a].n))]]

Key(S, w, arrays) ==
    [sul |-> S.sul, hc |-> HC(S),
     lfs |-> [k \in 1..Len(S.lfs) |->
                [seq |-> S.lfs[k].seq, id |-> S.lfs[k].id, name |-> S.lfs[k].name,
                 objs |-> [j \in 1..Len(S.lfs[k].objs) |-> ObjKey(S, w, arrays, S.lfs[k].objs[j])],
                 nf |-> [j \in 1..Len(S.lfs[k].nf) |->
                           [p |-> PosIn(S.lfs[k].objs, S.lfs[k].nf[j].ob), pay |-> S.lfs[k].nf[j].pay]]]]]

---------------------------------------------------------------------------
(* Single values (C06): the exact encoding of a value in a representation  *)
(* code.  UnitEnc gives [must, enc]: must = "enc" the code can represent   *)
(* the value and enc is the encoding, "raise" it cannot, "free" the        *)
(* standard does not settle it (judged by UnitFree).                       *)

IntBits(rc) == CASE rc \in {SSHORT, USHORT, STATUS} -> 8 [] rc \in {SNORM, UNORM} -> 16 [] OTHER -> 32
EncInt(rc, x) ==
    IF rc \in {SSHORT, SNORM, SLONG} THEN BitsToBytes(ToTwos(x, IntBits(rc))) ELSE BitsToBytes(ToBits(x, IntBits(rc)))
FitsCode(rc, x) ==
    CASE rc \in {SSHORT, SNORM, SLONG} -> FitsSigned(x, IntBits(rc))
      [] rc \in {USHORT, UNORM, ULONG} -> FitsUnsigned(x, IntBits(rc))
      [] rc = UVARI -> FitsUnsigned(x, 30)
      [] rc = STATUS -> FitsUnsigned(x, 1)
      [] OTHER -> FALSE

\* sign of a zero
ZeroSign(v) == IF v.t = "flt" THEN v.b[1] \div 128 ELSE 0
EncFloat(rc, v, x) ==
    IF rc = FSINGL THEN BitsToBytes(ToIeee(x, 32, 8, 127, ZeroSign(v)))
    ELSE BitsToBytes(ToIeee(x, 64, 11, 1023, ZeroSign(v)))

Enc1(must, enc) == [must |-> must, enc |-> enc]
EncObnameOf(S, o) == LET id == Ident(S, o) IN EncUvariInt(id.o) \o <<id.c>> \o EncIdent(id.n)

UnitEnc(S, rc, v) ==
    IF rc \in {SSHORT, SNORM, SLONG, USHORT, UNORM, ULONG, UVARI, STATUS}
    THEN IF IsNumVal(v)
         THEN LET x == ValNum(v) IN
              IF ~IsFin(x) \/ ~FitsCode(rc, x) THEN Enc1("raise", <<>>)
              ELSE IF v.t = "flt" THEN Enc1("may", EncInt(IF rc = UVARI THEN ULONG ELSE rc, x))
              ELSE IF rc = UVARI THEN Enc1("enc", EncUvariInt(BitsToInt(ToBits(x, 30))))
              ELSE Enc1("enc", EncInt(rc, x))
         ELSE Enc1("raise", <<>>)
    ELSE IF rc \in {FSINGL, FDOUBL}
    THEN IF IsNumVal(v)
         THEN LET x == ValNum(v)
                  r == IF rc = FSINGL THEN RoundF32(x) ELSE RoundF64(x)
              IN IF x.k = "nan" THEN Enc1("nan", <<>>)
                 ELSE IF x.k = "inf" THEN Enc1("enc", EncFloat(rc, v, x))
                 ELSE IF r.k = "inf" THEN Enc1("raise", <<>>)
                 ELSE IF NumEq(r, x) THEN Enc1(IF v.t = "bool" THEN "may" ELSE "enc", EncFloat(rc, v, x))
                 ELSE Enc1("may", EncFloat(rc, v, r))
         ELSE Enc1("raise", <<>>)
    ELSE IF rc \in {IDENT, UNITS}
    THEN IF v.t # "txt" THEN Enc1("free", <<>>)
         ELSE IF Len(v.c) > 255 \/ ~Ascii7(v.c) THEN Enc1("raise", <<>>) ELSE Enc1("enc", EncIdent(v.c))
    ELSE IF rc = ASCII
    THEN IF v.t # "txt" THEN Enc1("free", <<>>)
         ELSE IF ~Ascii7(v.c) THEN Enc1("raise", <<>>) ELSE Enc1("enc", EncAscii(v.c))
    ELSE IF rc = DTIME
    THEN IF v.t # "dt" THEN Enc1("raise", <<>>)
         ELSE IF v.y >= 1901 /\ v.y <= 2154 THEN Enc1("dt", <<>>)
         ELSE IF v.y < 1899 \/ v.y > 2156 THEN Enc1("raise", <<>>) ELSE Enc1("free", <<>>)
    ELSE IF rc = OBNAME
    THEN IF v.t = "ref" THEN Enc1("enc", EncObnameOf(S, v.o)) ELSE Enc1("raise", <<>>)
    ELSE IF rc = OBJREF
    THEN IF v.t = "ref" THEN Enc1("objref", <<>>) ELSE Enc1("raise", <<>>)
    ELSE Enc1("free", <<>>)

\* an inexact value may be refused or rounded (a result of zero with either sign)
UnitErrs(S, e) ==
    LET u == UnitEnc(S, e.rc, e.v)
        b(x) == << <<"enc", "code " \o ToString(e.rc) \o ": " \o x>> >>
        d == Decode(e.rc, e.out, 1, Len(e.out))
    IN CASE u.must = "enc" -> IF ~e.ok THEN b("rejected: " \o e.exc) ELSE IF e.out # u.enc THEN b("encoding") ELSE <<>>
         [] u.must = "may" -> IF ~e.ok \/ e.rc = UVARI THEN <<>>
                              ELSE IF e.out = u.enc \/ (e.rc \in {FSINGL, FDOUBL} /\ d.ok /\ IsZero(d.v)
                                                         /\ Tail(e.out) = Tail(u.enc)) THEN <<>> ELSE b("encoding")
         [] u.must = "raise" -> IF e.ok THEN b("value which cannot be represented is accepted") ELSE <<>>
         [] u.must = "nan" -> IF e.ok /\ ~(d.ok /\ d.p = Len(e.out) + 1 /\ d.v.k = "nan") THEN b("NaN") ELSE <<>>
         [] u.must = "dt" -> IF ~e.ok THEN b("rejected: " \o e.exc)
                             ELSE IF d.ok /\ d.p = Len(e.out) + 1 /\ DtEq(e.v, d.v) THEN <<>> ELSE b("date-time")
         [] u.must = "objref" -> IF ~e.ok THEN b("rejected: " \o e.exc)
                                 ELSE IF d.ok /\ Str(d.v.ty) = S.ob[e.v.o].ty
                                         /\ e.out = EncIdent(d.v.ty) \o EncObnameOf(S, e.v.o)
                                      THEN <<>> ELSE b("encoding")
         [] OTHER -> IF e.ok /\ ~(d.ok /\ d.p = Len(e.out) + 1) THEN b("malformed") ELSE <<>>

=============================================================================
