------------------------------- MODULE MMode -------------------------------
(***************************************************************************)
(* The high-compatibility mode: contexts (with statement or decorator)     *)
(* nested in any way and left normally or by an exception, with calls      *)
(* which keep and which breach its restrictions in between.                *)
(***************************************************************************)
EXTENDS MBase
CONSTANTS MaxOps, MaxDepth, EmitAll

VARIABLES stack,   \* the contexts entered, by kind
          specNow, histNow, callNo, nbNow
vars == <<stack, specNow, histNow, callNo, nbNow>>
View == <<stack, specNow, callNo, nbNow>>

Arrays == << [dt |-> "uint8", dims |-> <<>>, n |-> 2, rows |-> << <<1>>, <<2>> >>] >>
Contents == << LfEv(HEAD),
               [AddEv(1, 1, "ORIGIN", NmA, OriginAttrs) EXCEPT !.strict = TRUE],
               [AddEv(1, 2, "CHANNEL", NmA, <<>>) EXCEPT !.arr = 1],
               AddEv(1, 3, "FRAME", NmA, << Attr("CHANNELS", Lst(<<Ref(2)>>)) >>),
               AddEv(1, 4, "EQUIPMENT", NmA, << Attr("LENGTH", Whole(5)) >>) >>
Base == << FileEv(8192) >> \o Contents

LowId == [FileEv(8192) EXCEPT !.id = Txt(NmLow)]

Init == /\ stack = <<>> /\ specNow = ApplyAll(NewSpec(0), Base) /\ histNow = Base /\ callNo = 0 /\ nbNow = 5
        /\ EmitBase("b", Base) /\ EmitArrays(Arrays)

Probe == [op |-> "probe"]
\* es: the calls made; S2: their effect
Do(es, S2) == /\ callNo < MaxOps /\ callNo' = callNo + 1 /\ histNow' = histNow \o es /\ specNow' = S2
              /\ ((EmitAll \/ callNo' = MaxOps) => EmitAfter("b", Base, histNow' \o << Probe, WriteEv >>))
Same == UNCHANGED <<stack, nbNow>>

Enter == \E via \in {"with", "deco"} :
    /\ Len(stack) < MaxDepth /\ stack' = Append(stack, via) /\ UNCHANGED nbNow
    /\ Do(<< [op |-> "hcin", via |-> via] >>, EnterHC(specNow))
Leave == \E exc \in BOOLEAN :
    /\ stack # <<>> /\ stack' = SubSeq(stack, 1, Len(stack) - 1) /\ UNCHANGED nbNow
    /\ Do(<< [op |-> "hcout", exc |-> exc], Probe >>, LeaveHC(specNow))

\* a call which breaches the mode is refused within it
AddNamed == \E nm \in {NmA, NmLow} :
    LET e == AddEv(1, nbNow, "ZONE", nm, <<>>) IN
    /\ nbNow' = nbNow + 1 /\ UNCHANGED stack
    /\ Do(<<e>>, DoAdd(specNow, e))
AddEnum == \E x \in { <<84, 111, 111, 108>>, <<88, 89>> }, u \in { None, Txt(<<109>>), Txt(<<88, 89, 90>>) } :
    LET e == AddEv(1, nbNow, "EQUIPMENT", NmB, << Attr("TYPE", Txt(x)), AttrU("HEIGHT", Whole(3), u) >>) IN
    /\ nbNow' = nbNow + 1 /\ UNCHANGED stack
    /\ Do(<<e>>, DoAdd(specNow, e))
SetIt == \E e \in { SetEv(4, "TYPE", Txt(<<88, 89>>)), SetEv(4, "TYPE", Txt(<<84, 111, 111, 108>>)), UnitsEv(4, "LENGTH", Txt(<<88, 89, 90>>)),
                    UnitsEv(4, "LENGTH", Txt(<<109>>)) } :
    /\ Same /\ Do(<<e>>, IF SetYesAttr(specNow, e) THEN SetAttr(specNow, e) ELSE specNow)
RenameIt == \E nm \in {NmB, NmLow} :
    /\ Same /\ Do(<< RenEv(4, nm) >>, IF HC(specNow) /\ ~HcName(nm) THEN specNow ELSE Rename(specNow, RenEv(4, nm)))
LooseChannel ==
    LET e == AddEv(1, nbNow, "CHANNEL", NmB, <<>>) IN
    /\ nbNow' = nbNow + 1 /\ UNCHANGED stack /\ Do(<<e>>, DoAdd(specNow, e))
Signed == \E c \in {"int8", ""} : LET e == [op |-> "cast", ob |-> 2, cast |-> c] IN
    /\ specNow.ob[2].cast # c /\ Same /\ Do(<<e>>, SetCast(specNow, e))
WriteNow == /\ histNow[Len(histNow)].op # "write" /\ Same /\ Do(<< WriteEv >>, specNow)
AnotherFile == \E low \in BOOLEAN :
    LET f == IF low THEN LowId ELSE FileEv(8192)
        es == << f >> \o (IF FileYes(specNow, f) THEN Contents ELSE <<>>)
    IN /\ UNCHANGED <<stack>> /\ nbNow' = IF FileYes(specNow, f) THEN 5 ELSE nbNow
       /\ Do(es, ApplyAll(specNow, es))
AnotherLf == LET e == LfEv(NmLow) IN Same /\ HC(specNow) /\ Do(<<e>>, Apply(specNow, e))

Next == Enter \/ Leave \/ AddNamed \/ AddEnum \/ SetIt \/ RenameIt \/ LooseChannel \/ Signed \/ WriteNow \/ AnotherFile
        \/ AnotherLf
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
\* the mode is on exactly while a context is open
DepthIsStack == specNow.hc = Len(stack)
\* nothing that was named or assigned within the mode breaches it
MadeInsideIsClean ==
    /\ \A i \in DOMAIN specNow.ob : specNow.ob[i].nhc => HcName(specNow.ob[i].nm)
    /\ \A i \in DOMAIN specNow.ob : \A l \in DOMAIN specNow.ob[i].at : specNow.ob[i].at[l].hc =>
          /\ UnitsYes([specNow EXCEPT !.hc = 1], specNow.ob[i].ty, l, specNow.ob[i].at[l].u)
          /\ ValueYes([specNow EXCEPT !.hc = 1], 1, specNow.ob[i].ty, l, specNow.ob[i].at[l].v)
    /\ \A i \in 1..Len(specNow.lfs) : specNow.lfs[i].hc => HcName(specNow.lfs[i].id)
\* the mode only ever restricts: a write it allows is allowed outside of it
Restricts == HC(specNow) /\ WriteMustRaise(specNow, WriteEv, Arrays) = <<>> /\ WriteYes(specNow, WriteEv, Arrays)
                => WriteYes([specNow EXCEPT !.hc = 0], WriteEv, Arrays)
\* what the oracle lets pass is clean
Consistent == HC(specNow) /\ WriteMustRaise(specNow, WriteEv, Arrays) = <<>> /\ WriteYes(specNow, WriteEv, Arrays)
                => WriteHcRaise(specNow, WriteEv, Arrays) = <<>>
Inv == DepthIsStack /\ MadeInsideIsClean /\ Restricts /\ Consistent /\ Inventories(specNow)
\* C20: leaving or entering a context changes the mode only
ModeOnly == stack' # stack => [specNow' EXCEPT !.hc = 0] = [specNow EXCEPT !.hc = 0]
ModeOnlySpec == [][ModeOnly]_vars
=============================================================================
