------------------------------ MODULE MHistory ------------------------------
(***************************************************************************)
(* Histories of one specification: calls which are accepted, calls which   *)
(* are refused, writes which succeed and which fail, and looking at it.    *)
(* What is written depends on the accepted calls alone (C14, C20): each    *)
(* history is followed by the same calls without those which were refused, *)
(* the writes and the looks, made from nothing, and both end with the same *)
(* write.                                                                  *)
(***************************************************************************)
EXTENDS MBase
CONSTANTS MaxOps, EmitAll

VARIABLES baseNo,       \* base: the calls which come first
          specNow, histNow, callNo, nbNow,
          clean    \* the accepted calls which change the specification
vars == <<baseNo, specNow, histNow, callNo, nbNow, clean>>
LastOp == IF histNow = <<>> THEN "" ELSE histNow[Len(histNow)].op
View == <<baseNo, specNow, callNo, nbNow, LastOp>>

U8(xs) == [dt |-> "uint8", dims |-> <<>>, n |-> Len(xs), rows |-> [i \in 1..Len(xs) |-> <<xs[i]>>]]
\* 1 inline; 2, 3: data passed later, of the right length; 4: of another dtype; 5: of another length; 6: with a dimension
Arrays == << U8(<<10, 20, 30, 40>>), U8(<<1, 2, 3, 4>>), U8(<<9, 7, 5, 5>>),
             [dt |-> "uint16", dims |-> <<>>, n |-> 4, rows |-> << <<1, 1>>, <<2, 2>>, <<3, 3>>, <<4, 0>> >>],
             U8(<<1, 2, 3>>),
             [dt |-> "uint8", dims |-> <<2>>, n |-> 4, rows |-> << <<1, 2>>, <<3, 4>>, <<5, 6>>, <<7, 8>> >>] >>
\* the data of one channel are given with it; or all come with write
BaseOf(x) ==
        << FileEv(128), LfEv(HEAD), AddEv(1, 1, "ORIGIN", NmA, OriginAttrs),
           [AddEv(1, 2, "CHANNEL", NmA, <<>>) EXCEPT !.arr = IF x = "in" THEN 1 ELSE 0],
           AddEv(1, 3, "CHANNEL", NmB, <<>>),
           AddEv(1, 4, "FRAME", NmA, << Attr("CHANNELS", Lst(<<Ref(2), Ref(3)>>)) >>),
           AddEv(1, 5, "EQUIPMENT", NmA, << Attr("LENGTH", Whole(5)) >>),
           AddEv(1, 6, "NO-FORMAT", NmA, <<>>) >>

Base == BaseOf(baseNo)
Src(a, kind) == IF baseNo = "in" THEN [kind |-> "dict", map |-> << [ds |-> NmB, arr |-> a] >>]
                ELSE [kind |-> kind, map |-> << [ds |-> NmA, arr |-> 1], [ds |-> NmB, arr |-> a] >>]
By(a, kind) == [WriteEv EXCEPT !.src = Src(a, kind)]
With(a) == By(a, "dict")
Final == By(2, "struct")

Init == /\ \E x \in {"in", "ext"} :
              baseNo = x /\ specNow = ApplyAll(NewSpec(0), BaseOf(x)) /\ EmitBase(x, BaseOf(x))
        /\ histNow = <<>> /\ callNo = 0 /\ nbNow = 7 /\ clean = <<>> /\ EmitArrays(Arrays)

Proc == [op |-> "proc"]
Do(es, S2, cl) ==
    /\ callNo < MaxOps /\ callNo' = callNo + 1 /\ UNCHANGED baseNo /\ histNow' = histNow \o es /\ specNow' = S2 /\ clean' = clean \o cl
    /\ (EmitAll \/ callNo' = MaxOps) => Emit(baseNo, histNow' \o << Final, Proc >> \o Base \o clean' \o << Final >>)
Keep(e) == Do(<<e>>, Apply(specNow, e), <<e>>)
Fail(e) == Do(<<e>>, specNow, <<>>)

Set == /\ UNCHANGED nbNow
       /\ \E e \in { SetEv(5, "LENGTH", Whole(0)), SetEv(5, "LENGTH", Whole(6)), UnitsEv(5, "LENGTH", Txt(<<109>>)),
                     SetEv(1, "WELL-NAME", Txt(<<87>>)), SetEv(4, "INDEX-TYPE", Txt(<<84, 73, 77, 69>>)), SetEv(4, "SPACING", Whole(0)),
                     SetEv(2, "LONG-NAME", Txt(<<76>>)), SetEv(3, "UNITS", Txt(<<115>>)), RenEv(2, NmC) } :
            Keep(e)
Cast == /\ UNCHANGED nbNow /\ \E c \in {"float32", "uint16", ""} : specNow.ob[3].cast # c /\ Keep([op |-> "cast", ob |-> 3, cast |-> c])
AddZone == nbNow' = nbNow + 1 /\ Keep(AddEv(1, nbNow, "ZONE", NmA, <<>>))
AddPay == UNCHANGED nbNow /\ Keep([op |-> "nf", lf |-> 1, ob |-> 6, pay |-> Txt(<<callNo, callNo + 1>>)])

Refused == /\ UNCHANGED nbNow
           /\ \E e \in { SetEv(5, "LENGTH", Txt(<<120>>)), SetEv(5, "LENGTH", Lst(<<Whole(1), Whole(2)>>)),
                         SetEv(4, "DIRECTION", Ref(1)), SetEv(2, "AXIS", Ref(1)), SetEv(1, "DESCENT-NUMBER", Txt(<<120>>)),
                         [op |-> "cast", ob |-> 3, cast |-> "bad:str"] } : Fail(e)
RefusedAdd == /\ nbNow' = nbNow + 1
              /\ \E e \in { AddEv(1, nbNow, "ZONE", NmB, << Attr("DOMAIN", Txt(<<88>>)) >>),
                            AddEv(1, nbNow, "ZONE", NmA, << Attr("MAXIMUM", Ref(1)) >>),
                            AddEv(1, nbNow, "COMMENT", NmA, << Attr("TEXT", Lst(<<Whole(1)>>)) >>),
                            \* the data of a channel which is refused must not stay behind either
                            [AddEv(1, nbNow, "CHANNEL", NmB, << Attr("AXIS", Ref(1)) >>) EXCEPT !.arr = 3],
                            [AddEv(1, nbNow, "CHANNEL", NmC, << Attr("PROPERTIES", Lst(<<Txt(NmC)>>)) >>) EXCEPT !.arr = 5] } : Fail(e)
BadWrite == UNCHANGED nbNow /\ \E w \in { WriteEv, With(5), By(5, "hdf5"), [With(2) EXCEPT !.from = 9] } : Fail(w)
Write == UNCHANGED nbNow /\ \E w \in { With(2), By(2, "struct"), By(3, "hdf5"), With(3), With(4), With(6), [With(2) EXCEPT !.from = 1, !.to = 3],
                                    [With(3) EXCEPT !.ich = 1, !.och = 128] } : Fail(w)
Look == UNCHANGED nbNow /\ LastOp # "read" /\ Fail([op |-> "read"])

Next == Set \/ Cast \/ AddZone \/ AddPay \/ Refused \/ RefusedAdd \/ BadWrite \/ Write \/ Look
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
\* the accepted calls are all that matters
Faithful == Key(ApplyAll(NewSpec(0), Base \o clean), Final, Arrays) = Key(specNow, Final, Arrays)
\* the calls which the model takes for refused are those which the specification does not allow
Writable == WriteMustRaise(specNow, Final, Arrays) = <<>>
Inv == Faithful /\ Writable /\ UniqueIdents(specNow) /\ Inventories(specNow) /\ Determined(specNow)
\* C20, C14: neither refused calls nor writes nor looks change the specification
Unchanged == clean' = clean => specNow' = specNow
UnchangedSpec == [][Unchanged]_vars
=============================================================================
