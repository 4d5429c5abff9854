------------------------------ MODULE MStruct ------------------------------
(***************************************************************************)
(* How a file comes about: logical files, origins, channels, frames,       *)
(* zones, no-format objects and their data, added in every order, and      *)
(* writes at every stage.  An incomplete file is refused, a complete one   *)
(* has the mandated order; what the reference writer makes of it conforms. *)
(***************************************************************************)
EXTENDS MBase, Encode
CONSTANTS MaxOps, EmitAll

VARIABLES baseNo, specNow, histNow, callNo
vars == <<baseNo, specNow, histNow, callNo>>
LastOp == IF histNow = <<>> THEN "" ELSE histNow[Len(histNow)].op
View == <<baseNo, specNow, callNo, LastOp>>

U8(xs) == [dt |-> "uint8", dims |-> <<>>, n |-> Len(xs), rows |-> [i \in 1..Len(xs) |-> <<xs[i]>>]]
Arrays == << U8(<<1, 3, 5>>), U8(<<9, 7>>) >>
With(e, st) == [e EXCEPT !.set = Txt(st)]
\* the second logical file has sets of its own
SetOf(e, lf) == IF lf = 2 THEN With(e, SetL2) ELSE e
Ch(lf, ob, nm) == [SetOf(AddEv(lf, ob, "CHANNEL", nm, <<>>), lf) EXCEPT !.arr = lf]
Fr(lf, ob, cs) == SetOf(AddEv(lf, ob, "FRAME", NmA, << Attr("CHANNELS", Lst(cs)) >>), lf)
Or(lf, ob) == SetOf(AddEv(lf, ob, "ORIGIN", NmA, OriginAttrs), lf)

BaseOf(x) ==
    CASE x = "empty" -> << FileEv(128), LfEv(HEAD) >>
      [] x = "half" -> << FileEv(64), LfEv(HEAD), LfEv(HEAD \o <<50>>), Ch(1, 1, NmA), Fr(1, 2, <<Ref(1)>>), Or(2, 3) >>
      [] OTHER -> << FileEv(8192), LfEv(HEAD), LfEv(HEAD \o <<50>>), Ch(1, 1, NmA), Ch(2, 2, NmA), Or(1, 3), Fr(2, 4, <<Ref(2)>>) >>

Init == \E x \in {"empty", "half", "late"} :
        /\ baseNo = x /\ specNow = ApplyAll(NewSpec(0), BaseOf(x)) /\ histNow = <<>> /\ callNo = (IF x = "late" THEN 0 ELSE 1)
        /\ EmitBase(x, BaseOf(x)) /\ (x = "empty" => EmitArrays(Arrays))

NewId == ObjCount(specNow) + 1
Do(e) == /\ callNo < MaxOps /\ callNo' = callNo + 1 /\ UNCHANGED baseNo /\ histNow' = Append(histNow, e) /\ specNow' = Apply(specNow, e)
         /\ (EmitAll \/ callNo' = MaxOps) => Emit(baseNo, Append(histNow', WriteEv))
Count(lf, ty) == Len(ObjsOf(specNow, lf, ty))

Lf == Len(specNow.lfs) < 2 /\ Do(LfEv(HEAD \o <<50>>))
Origin == \E lf \in 1..Len(specNow.lfs) : Count(lf, "ORIGIN") < 2 /\ Do(Or(lf, NewId))
Channel == \E lf \in 1..Len(specNow.lfs) : Count(lf, "CHANNEL") < 2 /\ Do(Ch(lf, NewId, IF Count(lf, "CHANNEL") = 0 THEN NmA ELSE NmB))
FreeChannels(lf) == SelectSeq(ObjsOf(specNow, lf, "CHANNEL"), LAMBDA c : ~InFrame(specNow, c))
Frame == \E lf \in 1..Len(specNow.lfs) :
            Count(lf, "FRAME") < 2 /\ FreeChannels(lf) # <<>>
            /\ LET cs == FreeChannels(lf) IN Do(Fr(lf, NewId, [i \in 1..Len(cs) |-> Ref(cs[i])]))
Zone == \E lf \in 1..Len(specNow.lfs) : Count(lf, "ZONE") < 2 /\
            Do(IF Count(lf, "ZONE") = 1 THEN With(AddEv(lf, NewId, "ZONE", NmA, <<>>), <<90, 48 + lf>>)
               ELSE SetOf(AddEv(lf, NewId, "ZONE", NmA, <<>>), lf))
NoFormat == \E lf \in 1..Len(specNow.lfs) : Count(lf, "NO-FORMAT") < 2 /\ Do(SetOf(AddEv(lf, NewId, "NO-FORMAT", NmA, <<>>), lf))
Payload == \E lf \in 1..Len(specNow.lfs) : \E j \in 1..Count(lf, "NO-FORMAT") :
            Len(specNow.lfs[lf].nf) < 3 /\
            Do([op |-> "nf", lf |-> lf, ob |-> ObjsOf(specNow, lf, "NO-FORMAT")[j], pay |-> Txt([i \in 1..callNo |-> 64 + i])])
WriteNow == LastOp # "write" /\ Do(WriteEv)

Next == Lf \/ Origin \/ Channel \/ Frame \/ Zone \/ NoFormat \/ Payload \/ WriteNow
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
\* a file can be written when each logical file has an origin, a channel and a frame, and not before
Complete == specNow.lfs # <<>> /\ \A lf \in 1..Len(specNow.lfs) : \A ty \in {"ORIGIN", "CHANNEL", "FRAME"} : Count(lf, ty) > 0
Gate == Complete <=> WriteMustRaise(specNow, WriteEv, Arrays) = <<>>
Accepts == Complete => WriteYes(specNow, WriteEv, Arrays)
\* C09: what the reference writer makes has the order of the property, and conforms in every other respect
Recs == RefRecords(specNow, WriteEv, Arrays)
Ordered(rs) ==
    LET ts == [i \in 1..Len(rs) |-> IF rs[i].e = 1 THEN ParseEflr(rs[i].body).ty ELSE "data"]
    IN /\ Len(SelectSeq(ts, LAMBDA t : t = "FILE-HEADER")) = Len(specNow.lfs) /\ ts[1] = "FILE-HEADER"
       /\ \A i \in 1..Len(ts) : ts[i] = "FILE-HEADER" => ts[i + 1] = "ORIGIN"
       /\ \A i \in 1..(Len(ts) - 1) : ts[i] = "data" => ts[i + 1] \in {"data", "FILE-HEADER"}
\* (a write changes nothing, so the situation after it need not be looked at again)
Conforms == Complete /\ LastOp # "write" => LET rs == Recs IN Ordered(rs) /\ RecordErrs(specNow, WriteEv, Arrays, rs) = <<>>
Inv == Gate /\ Accepts /\ Conforms /\ UniqueIdents(specNow) /\ Inventories(specNow) /\ SetsApart(specNow)
\* nothing which was added is lost or moved
Grows == \A lf \in 1..Len(specNow.lfs) : SubSeq(specNow'.lfs[lf].objs, 1, Len(specNow.lfs[lf].objs)) = specNow.lfs[lf].objs
                                    /\ SubSeq(specNow'.lfs[lf].nf, 1, Len(specNow.lfs[lf].nf)) = specNow.lfs[lf].nf
GrowsSpec == [][Grows]_vars
=============================================================================
