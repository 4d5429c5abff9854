------------------------------ MODULE MNaming ------------------------------
(***************************************************************************)
(* Names, sets, copy numbers, origins and references in two logical files. *)
(***************************************************************************)
EXTENDS MBase
CONSTANTS MaxOps, EmitAll   \* EmitAll: a history for each transition, else only the longest

VARIABLES baseNo,    \* base: the calls which come first
          specNow, histNow,
          callNo,    \* calls made
          ren         \* a name or an origin reference was changed afterwards
vars == <<baseNo, specNow, histNow, callNo, ren>>
View == <<baseNo, specNow, callNo, ren>>

Arrays == << [dt |-> "uint8", dims |-> <<>>, n |-> 2, rows |-> << <<1>>, <<2>> >>] >>
With(e, st) == [e EXCEPT !.set = Txt(st)]
Base == << FileEv(8192), LfEv(HEAD), LfEv(HEAD \o <<50>>),
           [AddEv(1, 1, "CHANNEL", NmA, <<>>) EXCEPT !.arr = 1],
           AddEv(1, 2, "FRAME", NmA, << Attr("CHANNELS", Lst(<<Ref(1)>>)) >>),
           [With(AddEv(2, 3, "CHANNEL", NmA, <<>>), SetL2) EXCEPT !.arr = 1],
           With(AddEv(2, 4, "FRAME", NmA, << Attr("CHANNELS", Lst(<<Ref(3)>>)) >>), SetL2) >>
WithOrigins == Base \o << AddEv(1, 5, "ORIGIN", NmA, OriginAttrs),
                         [With(AddEv(2, 6, "ORIGIN", NmA, OriginAttrs), SetL2) EXCEPT !.org = Whole(3)] >>
BaseOf(x) == IF x = "bare" THEN Base ELSE WithOrigins

\* without origins to begin with, one call less is explored
Init == \E x \in {"bare", "origins"} :
        /\ baseNo = x /\ specNow = ApplyAll(NewSpec(0), BaseOf(x)) /\ histNow = BaseOf(x) /\ ren = FALSE
        /\ callNo = IF x = "bare" THEN 1 ELSE 0
        /\ EmitBase(x, BaseOf(x)) /\ EmitArrays(Arrays)

NewId == 7 + Len(histNow) - Len(BaseOf(baseNo))
Do(e, S2, r) == /\ callNo < MaxOps /\ callNo' = callNo + 1 /\ histNow' = Append(histNow, e) /\ specNow' = S2 /\ ren' = r
                /\ UNCHANGED baseNo /\ ((EmitAll \/ callNo' = MaxOps) => EmitAfter(baseNo, BaseOf(baseNo), Append(histNow', WriteEv)))

SetOf(e, lf) == IF lf = 2 THEN With(e, SetL2) ELSE e

AddZone == \E lf \in 1..2, nm \in {NmA, NmB}, st \in {0, 1} :
    LET e0 == AddEv(lf, NewId, "ZONE", nm, <<>>)
        e == IF st = 1 THEN With(e0, SetL2) ELSE e0
    IN Do(e, DoAdd(specNow, e), ren)
AddOrigin == \E lf \in 1..2, og \in {-1, 0, 1, 3} :
    LET e0 == SetOf(AddEv(lf, NewId, "ORIGIN", NmA, OriginAttrs), lf)
        e == IF og < 0 THEN e0 ELSE [e0 EXCEPT !.org = Whole(og)]
    IN Do(e, DoAdd(specNow, e), ren)
AddZoneOrg == \E lf \in 1..2, og \in {0, 1} :
    LET e == [SetOf(AddEv(lf, NewId, "ZONE", NmA, <<>>), lf) EXCEPT !.org = Whole(og)]
    IN Do(e, DoAdd(specNow, e), ren)
AddRef == \E lf \in 1..2 : \E z \in {i \in DOMAIN specNow.ob : specNow.ob[i].ty = "ZONE"} :
    LET e == SetOf(AddEv(lf, NewId, "PARAMETER", NmA, << Attr("ZONES", Lst(<<Ref(z)>>)), Attr("VALUES", Lst(<<Whole(z)>>)) >>), lf)
    \* a reference to an object of another logical file is not certain to be refused at once
    IN specNow.ob[z].lf = lf /\ Do(e, DoAdd(specNow, e), ren)
AddRejected == \E lf \in 1..2 :
    LET e == SetOf(AddEv(lf, NewId, "ZONE", NmA, << Attr("DOMAIN", Txt(<<88>>)) >>), lf) IN Do(e, specNow, ren)
RenameIt == \E i \in {i \in DOMAIN specNow.ob : specNow.ob[i].ty \in {"ZONE", "CHANNEL", "FRAME"}}, nm \in {NmA, NmB} :
    nm # specNow.ob[i].nm /\ Do(RenEv(i, nm), Rename(specNow, RenEv(i, nm)), TRUE)
ChangeOrg == \E i \in {i \in DOMAIN specNow.ob : specNow.ob[i].ty \in {"ZONE", "CHANNEL", "FRAME"}}, og \in {0, 1} :
    Do(OrgEv(i, og), SetOrigin(specNow, OrgEv(i, og)), TRUE)
Intermediate == histNow[Len(histNow)].op # "write" /\ Do(WriteEv, specNow, ren)

Next == AddZone \/ AddOrigin \/ AddZoneOrg \/ AddRef \/ AddRejected \/ RenameIt \/ ChangeOrg \/ Intermediate
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
Unique == ren \/ UniqueIdents(specNow)
OriginsUnique == \A lf \in 1..2 : \A x, y \in 1..Len(Origins(specNow, lf)) :
                    x # y => OriginRef(specNow, Origins(specNow, lf)[x]) # OriginRef(specNow, Origins(specNow, lf)[y])
Inv == Unique /\ OriginsUnique /\ Inventories(specNow) /\ SetsApart(specNow) /\ OracleSound(specNow, WriteEv, Arrays)
\* C20: a refused call changes nothing; C18: a call concerns one logical file
Local == \A lf \in 1..2 : \A i \in DOMAIN specNow.ob : specNow.ob[i].lf = lf => Ident(specNow, i) = Ident(specNow', i)
                            \/ histNow'[Len(histNow')].op \in {"ren", "org"} \/ histNow'[Len(histNow')].lf = lf
LocalSpec == [][Local]_vars
=============================================================================
