------------------------------- MODULE MBase -------------------------------
(***************************************************************************)
(* Common to the design models.  A model explores the abstract             *)
(* specification of Build under a bounded set of public calls, checks      *)
(* invariants of the design on it, and emits the histories: h is the       *)
(* sequence of calls made so far, in the very form in which the driver     *)
(* executes them on the real library (harness/driver.py) and Trace.tla     *)
(* judges their outcomes.  h is left out of the fingerprint (VIEW), so     *)
(* each abstract situation is visited once, by a shortest history.         *)
(***************************************************************************)
EXTENDS Conform, Json

Txt(cs) == [t |-> "txt", c |-> cs, pt |-> "str", asdt |-> FALSE, asnum |-> FALSE]
RECURSIVE DecDigits(_)
DecDigits(i) == IF i < 10 THEN <<48 + i>> ELSE Append(DecDigits(i \div 10), 48 + (i % 10))
RECURSIVE Mag(_)
Mag(i) == IF i = 0 THEN <<>> ELSE Append(Mag(i \div 256), i % 256)
Whole(i) == [t |-> "int", n |-> IF i < 0 THEN 1 ELSE 0, m |-> Mag(AbsI(i)), pt |-> "int", dec |-> DecDigits(AbsI(i))]
Flt(bs) == [t |-> "flt", b |-> bs, pt |-> "float"]
Ref(o) == [t |-> "ref", o |-> o]
Lst(vs) == [t |-> "list", v |-> vs]
Dt(y) == [t |-> "dt", y |-> y, mo |-> 5, d |-> 17, h |-> 10, mi |-> 11, s |-> 12, us |-> 0, off |-> 0,
          py |-> [tz |-> "utc"]]
Attr(l, v) == [l |-> l, v |-> v, u |-> None, via |-> "plain"]
AttrU(l, v, u) == [l |-> l, v |-> v, u |-> u, via |-> "setup"]

NmA == <<65>>    \* A
NmB == <<66>>    \* B
NmC == <<67>>    \* C
NmLow == <<97, 98>>   \* ab: not allowed in the high-compatibility mode
SetL2 == <<76, 50>>   \* L2
HEAD == <<72, 69, 65, 68>>

FileEv(mrl) == [op |-> "file", seq |-> Whole(1), mrl |-> Whole(mrl), id |-> Txt(<<83, 69, 84>>), via |-> "kw"]
LfEv(id) == [op |-> "lf", seq |-> Whole(1), id |-> Txt(id), name |-> Txt(<<48>>), via |-> "kw"]
AddEv(lf, ob, ty, nm, attrs) ==
    [op |-> "add", lf |-> lf, ob |-> ob, ty |-> ty, name |-> Txt(nm), set |-> None, org |-> None, attrs |-> attrs,
     arr |-> 0, ds |-> None, cast |-> "", castvia |-> "np", strict |-> TRUE]
OriginAttrs == << Attr("FILE-SET-NUMBER", Whole(7)), Attr("CREATION-TIME", Dt(2020)) >>
RenEv(ob, nm) == [op |-> "ren", ob |-> ob, name |-> Txt(nm)]
OrgEv(ob, i) == [op |-> "org", ob |-> ob, v |-> Whole(i)]
SetEv(ob, l, v) == [op |-> "set", ob |-> ob, l |-> l, part |-> "value", v |-> v]
UnitsEv(ob, l, v) == [op |-> "set", ob |-> ob, l |-> l, part |-> "units", v |-> v]
WriteEv == [op |-> "write", from |-> 0, to |-> -1, ich |-> 0, och |-> 32768, src |-> [kind |-> "none", map |-> <<>>],
            strict |-> TRUE, uniform |-> TRUE]

---------------------------------------------------------------------------
(* Design decisions of the library which the specification leaves open     *)

\* copy number: one more than the largest among the objects of that name in the sets of the logical file
CopyNo(S, lf, ty, nm) ==
    FoldLeft(LAMBDA a, i : IF S.ob[i].nm = nm THEN MaxI(a, S.ob[i].c + 1) ELSE a, 0, ObjsOf(S, lf, ty))

\* origin reference of an origin which is given none: its position, or the next number which is free
RECURSIVE FreeFrom(_, _)
FreeFrom(used, i) == IF i \in used THEN FreeFrom(used, i + 1) ELSE i
AutoOrigin(S, lf) ==
    LET os == Origins(S, lf)
    IN FreeFrom({OriginRef(S, os[k]) : k \in 1..Len(os)}, Len(os))

Observed(S, e) ==
    [o |-> IF ~IsNone(e.org) THEN SmallInt(e.org) ELSE IF e.ty = "ORIGIN" THEN AutoOrigin(S, e.lf) ELSE -1,
     c |-> CopyNo(S, e.lf, e.ty, TxtOr(e.name)),
     ds |-> TxtOr(e.name)]

\* what the library does with a call to add
DoAdd(S, e) == IF AddYes(S, e) THEN AddObj(S, e @@ [obs |-> Observed(S, e)]) ELSE S

\* fold of several calls from the start
Apply(S, e) ==
    CASE e.op = "file" -> IF FileYes(S, e) THEN MakeSul(S, e) ELSE S
      [] e.op = "lf" -> IF LfYes(S, e) THEN AddLf(S, e) ELSE S
      [] e.op = "add" -> DoAdd(S, e)
      [] e.op = "nf" -> AddNf(S, e)
      [] e.op = "ren" -> Rename(S, e)
      [] e.op = "org" -> SetOrigin(S, e)
      [] e.op = "set" -> IF SetYesAttr(S, e) THEN SetAttr(S, e) ELSE S
      [] e.op = "cast" -> SetCast(S, e)
      [] e.op = "ds" -> SetDs(S, e)
      [] e.op = "hcin" -> EnterHC(S)
      [] e.op = "hcout" -> LeaveHC(S)
      [] e.op = "proc" -> NewSpec(0)
      [] OTHER -> S
ApplyAll(S, es) == FoldLeft(Apply, S, es)

\* histories are printed without the calls with which they all begin
EmitBase(b, base) == PrintT("BASE|" \o b \o "|" \o ToJson(base))
EmitArrays(arrays) == PrintT("ARRAYS|" \o ToJson(arrays))
Emit(b, es) == PrintT("HIST|" \o b \o "|" \o ToJson(es))
EmitAfter(b, base, h) == Emit(b, SubSeq(h, Len(base) + 1, Len(h)))

---------------------------------------------------------------------------
(* Invariants of every specification                                       *)

\* objects of one kind in one logical file have different identities
UniqueIdents(S) ==
    \A i, j \in DOMAIN S.ob : i # j /\ S.ob[i].lf = S.ob[j].lf /\ S.ob[i].ty = S.ob[j].ty => Ident(S, i) # Ident(S, j)
\* each object is in the inventory of its own logical file, once
Inventories(S) ==
    /\ \A i \in DOMAIN S.ob : Len(SelectSeq(S.lfs[S.ob[i].lf].objs, LAMBDA x : x = i)) = 1
    /\ ObjCount(S) = Cardinality(DOMAIN S.ob)
\* no set belongs to two logical files
SetsApart(S) ==
    \A i, j \in DOMAIN S.ob : S.ob[i].lf # S.ob[j].lf /\ S.ob[i].ty = S.ob[j].ty => S.ob[i].st # S.ob[j].st
\* the oracle never demands success and failure of the same write
OracleSound(S, w, arrays) == WriteMustRaise(S, w, arrays) # <<>> \/ ~WriteYes(S, w, arrays)
                             \/ (UniqueIdents(S) /\ ~OriginDoubt(S))
=============================================================================
