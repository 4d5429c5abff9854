-------------------------------- MODULE MAttr --------------------------------
(***************************************************************************)
(* The life of one attribute: absent or given in one of three ways when    *)
(* the object is made, then values and units assigned, some acceptable and *)
(* some not, with writes in between.  What counts is what was accepted     *)
(* last.  For an attribute of each kind (Width 0), for each kind and each  *)
(* type referred to or enumeration (1), or for every attribute (2).        *)
(***************************************************************************)
EXTENDS MBase, Encode
CONSTANTS MaxOps, Width, CheckStale, EmitAll

VARIABLES tgt,      \* <<type, label>>
          specNow, histNow, callNo,
          objNow,       \* the object, 0: it was refused
          valNow, unitsNow,  \* what was accepted last
          lastCall
vars == <<tgt, specNow, histNow, callNo, objNow, valNow, unitsNow, lastCall>>
View == <<tgt, specNow, callNo, objNow, lastCall>>

Arrays == << [dt |-> "uint8", dims |-> <<>>, n |-> 2, rows |-> << <<1>>, <<2>> >>] >>

\* these have values of their own, or depend on other attributes
Special == {<<"ORIGIN", "FILE-ID">>, <<"ORIGIN", "FILE-SET-NUMBER">>, <<"FRAME", "CHANNELS">>, <<"FRAME", "INDEX-TYPE">>,
            <<"CHANNEL", "REPRESENTATION-CODE">>, <<"CHANNEL", "DIMENSION">>, <<"CHANNEL", "ELEMENT-LIMIT">>,
            <<"CHANNEL", "SOURCE">>, <<"CHANNEL", "AXIS">>}
LabelSet(ty) == {<<ty, l>> : l \in LabelsOf(ty)}
Attributes == UNION {LabelSet(ty) : ty \in ObjTypes} \ Special
Class(t) == LET d == AttrDef(t[1], t[2]) IN IF Width = 0 THEN <<d.k, d.m>> ELSE <<d.k, d.m, d.r, d.e>>
Classes == {Class(t) : t \in Attributes}
Targets == IF Width = 2 THEN Attributes ELSE {CHOOSE t \in Attributes : Class(t) = c : c \in Classes}

Referent(d) == CASE d.k = "ref" -> d.r [] d.k = "lntext" -> "LONG-NAME" [] d.k = "oref" -> "EQUIPMENT" [] OTHER -> "ZONE"
ChNm(i) == <<67, 72, 48 + i>>
Channel(i) == [AddEv(1, i, "CHANNEL", ChNm(i), <<>>) EXCEPT !.arr = 1]
BaseOf(t) ==
    LET r == Referent(AttrDef(t[1], t[2]))
        obj(i) == IF r = "CHANNEL" THEN Channel(i)
                  ELSE IF r = "ORIGIN" THEN AddEv(1, i, r, <<64 + i>>, OriginAttrs)
                  ELSE IF r = "FRAME" THEN AddEv(1, i, r, <<64 + i>>, << Attr("CHANNELS", Lst(<<Ref(6)>>)) >>)
                  ELSE AddEv(1, i, r, <<64 + i>>, <<>>)
    IN << FileEv(8192), LfEv(HEAD), AddEv(1, 1, "ORIGIN", NmA, OriginAttrs), Channel(2), Channel(6), Channel(7),
          AddEv(1, 3, "FRAME", NmA, << Attr("CHANNELS", Lst(<<Ref(2)>>)) >>), obj(4), obj(5) >>

AB == Txt(<<65, 66>>)
Fine(d) ==
    CASE d.k \in {"text", "ident", "identv"} -> << AB, Txt(<<88, 45, 49>>) >>
      [] d.k = "lntext" -> << AB, Ref(4), Ref(5) >>
      [] d.k \in {"enumh", "enums"} -> << Txt(EnumCodes[d.e][1]), Txt(EnumCodes[d.e][2]) >>
      [] d.k \in {"num", "fdoubl"} -> << Whole(5), Whole(-70000), Flt(<<63, 185, 153, 153, 153, 153, 153, 154>>) >>
      [] d.k = "unorm" -> << Whole(1), Whole(65535) >>
      [] d.k = "uvari" -> << Whole(127), Whole(16384) >>
      [] d.k = "int" -> << Whole(5), Whole(-2147483647) >>
      [] d.k \in {"enc", "status"} -> << Whole(0), Whole(1) >>
      [] d.k = "dim" -> << Whole(1), Whole(3) >>
      [] d.k = "dtime" -> << Dt(2020), Dt(1999) >>
      [] d.k = "dtimef" -> << Dt(2020), Dt(1999), Flt(<<64, 9, 0, 0, 0, 0, 0, 0>>) >>
      [] d.k = "any" -> << Whole(5), AB, Flt(<<64, 9, 0, 0, 0, 0, 0, 0>>) >>
      [] d.k \in {"ref", "oref"} -> << Ref(4), Ref(5) >>
      [] OTHER -> <<>>
\* the library may refuse these; if it accepts them the file has to say what was meant
Doubtful(d) ==
    CASE d.k \in {"text", "ident", "identv", "enumh", "enums", "lntext"} -> Whole(5)
      [] d.k = "unorm" -> Whole(65536)
      [] d.k = "uvari" -> Whole(-1)
      [] d.k = "int" -> Flt(<<64, 9, 0, 0, 0, 0, 0, 0>>)
      [] d.k \in {"enc", "status"} -> Whole(2)
      [] d.k = "dim" -> Whole(0)
      [] d.k = "ref" -> IF d.r = "CHANNEL" THEN Ref(3) ELSE Ref(2)
      [] OTHER -> Lst(<< Whole(5), AB >>)
Units == << Txt(<<109>>), Txt(<<115>>) >>
Values(d) ==
    LET g == Fine(d) IN
    {g[i] : i \in 1..Len(g)} \cup {Doubtful(d)}
    \cup (IF d.m THEN {Lst(<<g[1], g[2]>>), Lst(<<g[2]>>)} ELSE {Lst(<<g[1], g[2]>>)})
Def == AttrDef(tgt[1], tgt[2])
HasUnits == Def.k \in UnitKinds

Init == /\ tgt \in Targets /\ specNow = ApplyAll(NewSpec(0), BaseOf(tgt)) /\ histNow = <<>> /\ callNo = 0 /\ objNow = 0
        /\ valNow = None /\ unitsNow = None /\ lastCall = "start"
        /\ EmitBase(tgt[1] \o " " \o tgt[2], BaseOf(tgt)) /\ EmitArrays(Arrays)

Do(e) == /\ callNo < MaxOps /\ callNo' = callNo + 1 /\ UNCHANGED tgt /\ histNow' = Append(histNow, e) /\ specNow' = Apply(specNow, e) /\ lastCall' = e.op
         /\ (EmitAll \/ callNo' = MaxOps) => Emit(tgt[1] \o " " \o tgt[2], Append(histNow', WriteEv))

Own == IF tgt[1] = "CHANNEL" THEN << Attr("UNITS", Txt(<<109>>)) >>
       ELSE IF tgt[1] = "FRAME" THEN << Attr("CHANNELS", Lst(<<Ref(7)>>)) >>
       ELSE IF tgt[1] = "ORIGIN" THEN OriginAttrs ELSE <<>>
WithOwn(as) == SelectSeq(Own, LAMBDA a : \A i \in 1..Len(as) : as[i].l # a.l) \o as
New(as) == AddEv(1, 8 + callNo, tgt[1], <<84, 71, 84>>, WithOwn(as))
Make(as, v, u) ==
    /\ objNow = 0 /\ Do(New(as))
    /\ IF AddYes(specNow, New(as)) THEN objNow' = 8 + callNo /\ valNow' = v /\ unitsNow' = u ELSE UNCHANGED <<objNow, valNow, unitsNow>>
Own0 == LET own == SelectSeq(Own, LAMBDA a : a.l = tgt[2]) IN IF own = <<>> THEN None ELSE own[1].v
Bare == Make(<<>>, Own0, None)
Given == \E v \in Values(Def) : \E via \in {"plain", "setup", "dict"} :
            Make(<< [l |-> tgt[2], v |-> v, u |-> None, via |-> via] >>, v, None)
GivenUnits == HasUnits /\ \E v \in {Fine(Def)[1], Lst(<<Fine(Def)[1], Fine(Def)[2]>>)} : \E via \in {"setup", "dict"} :
            Make(<< [l |-> tgt[2], v |-> v, u |-> Units[1], via |-> via] >>, v, Units[1])
Assign == objNow # 0 /\ \E v \in Values(Def) :
            /\ Do(SetEv(objNow, tgt[2], v)) /\ UNCHANGED <<objNow, unitsNow>>
            /\ valNow' = IF SetYesAttr(specNow, SetEv(objNow, tgt[2], v)) THEN v ELSE valNow
AssignUnits == objNow # 0 /\ HasUnits /\ \E u \in {Units[1], Units[2], Whole(3)} :
            /\ Do(UnitsEv(objNow, tgt[2], u)) /\ UNCHANGED <<objNow, valNow>>
            /\ unitsNow' = IF SetYesAttr(specNow, UnitsEv(objNow, tgt[2], u)) THEN u ELSE unitsNow
WriteNow == objNow # 0 /\ lastCall # "write" /\ Do(WriteEv) /\ UNCHANGED <<objNow, valNow, unitsNow>>

Next == Bare \/ Given \/ GivenUnits \/ Assign \/ AssignUnits \/ WriteNow
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
\* what was accepted last is what the specification says
Lasts == objNow # 0 => LET a == GetAt(specNow.ob[objNow], tgt[2]) IN a.v = valNow /\ a.u = unitsNow
Writable(s) == WriteMustRaise(s, WriteEv, Arrays) = <<>> /\ WriteYes(s, WriteEv, Arrays)
\* what the reference writer makes of it conforms
Conforms == lastCall # "write" /\ Writable(specNow) => RecordErrs(specNow, WriteEv, Arrays, RefRecords(specNow, WriteEv, Arrays)) = <<>>
Inv == Lasts /\ Conforms /\ UniqueIdents(specNow)
\* and a file which shows what was accepted before does not
Stale ==
    CheckStale /\ objNow # 0 /\ (Flat(valNow') # Flat(valNow) \/ (unitsNow' # unitsNow /\ ~IsNone(valNow))) /\ Writable(specNow) /\ Writable(specNow')
    => RecordErrs(specNow', WriteEv, Arrays, RefRecords(specNow, WriteEv, Arrays)) # <<>>
StaleSpec == [][Stale]_vars
=============================================================================
