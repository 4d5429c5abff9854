------------------------------ MODULE MChannel ------------------------------
(***************************************************************************)
(* The description of one channel: data of its own or passed to write(),   *)
(* of several types and shapes, in a frame or not; a type to cast to, a    *)
(* dimension and an element limit, given when the channel is made, changed *)
(* later or taken back; several writes in between, with other data.  What  *)
(* a file says about the channel is what its rows consist of, whatever was *)
(* written before.                                                         *)
(***************************************************************************)
EXTENDS MBase, Encode
CONSTANTS MaxOps, Wide, EmitAll

VARIABLES ownArr,     \* array given with the channel, 0: none
          startNow,   \* number of the way in which the channel was made
          framed, specNow, histNow, callNo, lastCall
vars == <<ownArr, startNow, framed, specNow, histNow, callNo, lastCall>>
View == <<ownArr, framed, specNow, callNo, lastCall>>

\* row i has the numbers 20 i + 1, ...
Number(dt, i, j) == CastNumber(dt, FromInt(IF dt \in {"int8", "int16", "float32"} THEN -(20 * i + j) ELSE 20 * i + j))
Elements(dims) == IF dims = <<>> THEN 1 ELSE IF Len(dims) = 1 THEN dims[1] ELSE dims[1] * dims[2]
Arr(dt, dims) == [dt |-> dt, dims |-> dims, n |-> 3,
                  rows |-> [i \in 1..3 |-> Join([j \in 1..Elements(dims) |-> Number(dt, i, j)])]]
Index == [dt |-> "uint8", dims |-> <<>>, n |-> 3, rows |-> << <<1>>, <<2>>, <<4>> >>]
Arrays == TLCEval(<< Index, Arr("uint8", <<>>), Arr("float32", <<3>>), Arr("int16", <<1>>), Arr("float64", <<2>>),
                     Arr("uint32", <<>>), Arr("int8", <<3>>), Arr("uint16", <<2, 2>>), Arr("int32", <<>>) >>)
Own == IF Wide THEN 0..Len(Arrays) \ {1} ELSE {0, 2, 3}
Passed == IF Wide THEN 2..Len(Arrays) ELSE {2, 3, 4, 5, 8}

Ints(ns) == IF ns = <<>> THEN None ELSE IF Len(ns) = 1 THEN Whole(ns[1]) ELSE Lst([i \in 1..Len(ns) |-> Whole(ns[i])])
Dims == {None, Lst(<<Whole(1)>>), Lst(<<Whole(3)>>)} \cup (IF Wide THEN {Whole(2)} ELSE {})
Limits == {None, Lst(<<Whole(1)>>), Lst(<<Whole(4)>>), Lst(<<Whole(2), Whole(5)>>)} \cup (IF Wide THEN {Lst(<<Whole(3), Whole(2)>>), Whole(2)} ELSE {})
Casts == {"", "float32", "uint8"} \cup (IF Wide THEN {"int32", "float64"} ELSE {})

\* how it is made: nothing said, or one of dimension, limit and type, or all
Starts == << <<None, None, "">>, <<Lst(<<Whole(3)>>), None, "">>, <<None, Lst(<<Whole(4)>>), "">>, <<None, None, "int32">>,
             <<Whole(1), Whole(1), "float64">> >>
Given(l, v) == IF IsNone(v) THEN <<>> ELSE << Attr(l, v) >>
NmX == <<88>>
BaseOf(a, s, fr) ==
    << FileEv(256), LfEv(HEAD), AddEv(1, 1, "ORIGIN", NmA, OriginAttrs),
       [AddEv(1, 2, "CHANNEL", NmA, <<>>) EXCEPT !.arr = 1],
       [AddEv(1, 3, "CHANNEL", NmX, Given("DIMENSION", s[1]) \o Given("ELEMENT-LIMIT", s[2])) EXCEPT !.arr = a, !.cast = s[3]],
       [AddEv(1, 4, "CHANNEL", NmC, <<>>) EXCEPT !.arr = 1],
       AddEv(1, 5, "FRAME", NmA, << Attr("CHANNELS", Lst(IF fr THEN <<Ref(2), Ref(3), Ref(4)>> ELSE <<Ref(2), Ref(4)>>)) >>) >>
BaseName(a, s, fr) == ToString(a) \o " " \o ToString(s) \o " " \o ToString(fr)

Init == /\ ownArr \in Own /\ startNow \in 1..Len(Starts) /\ framed \in BOOLEAN
        /\ specNow = ApplyAll(NewSpec(0), BaseOf(ownArr, Starts[startNow], framed)) /\ histNow = <<>> /\ callNo = 0 /\ lastCall = "start"
        /\ EmitBase(BaseName(ownArr, startNow, framed), BaseOf(ownArr, Starts[startNow], framed))
        /\ (ownArr = 0 /\ startNow = 1 /\ framed => EmitArrays(Arrays))

DictW(a) == [WriteEv EXCEPT !.src = [kind |-> "dict", map |-> << [ds |-> NmX, arr |-> a] >>]]
Do(e) == /\ callNo < MaxOps /\ callNo' = callNo + 1 /\ UNCHANGED <<ownArr, startNow, framed>>
         /\ specNow' = Apply(specNow, e) /\ lastCall' = e.op /\ histNow' = Append(histNow, e)
         /\ ((EmitAll \/ callNo' = MaxOps) =>
               Emit(BaseName(ownArr, startNow, framed), IF e.op = "write" THEN histNow' ELSE histNow' \o << WriteEv, DictW(6) >>))
Dim == \E v \in Dims : Do(SetEv(3, "DIMENSION", v))
Limit == \E v \in Limits : Do(SetEv(3, "ELEMENT-LIMIT", v))
Cast == \E c \in Casts : Do([op |-> "cast", ob |-> 3, cast |-> c])
Write == Do(WriteEv)
WriteDict == \E a \in Passed : Do(DictW(a))
Next == Dim \/ Limit \/ Cast \/ Write \/ WriteDict
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
Checked == {WriteEv} \cup {DictW(a) : a \in {3, 4}}
\* what the reference writer makes conforms, when the write has to succeed
Conforms(w) ==
    WriteMustRaise(specNow, w, Arrays) = <<>> /\ WriteYes(specNow, w, Arrays)
        => RecordErrs(specNow, w, Arrays, RefRecords(specNow, w, Arrays)) = <<>>
\* a channel about which nothing is said can be written with any data of one value or one row of values
Plain == LET o == specNow.ob[3] IN o.cast = "" /\ ~Present(o, "DIMENSION") /\ ~Present(o, "ELEMENT-LIMIT")
Accepts == Plain => \A a \in Passed : Len(Arrays[a].dims) <= 1 => WriteYes(specNow, DictW(a), Arrays)
\* a frame whose channel has no data, or too many dimensions, cannot be written
Refuses == framed => (ownArr = 0 <=> WriteMustRaise(specNow, WriteEv, Arrays) # <<>>)
                     \/ (ownArr # 0 /\ Len(Arrays[ownArr].dims) > 1)

\* a reader who knows only the file: numbers of the descriptor of the channel named nm
DescOf(rs, nm) ==
    LET ps == [i \in 1..Len(rs) |-> IF rs[i].e = 1 THEN ParseEflr(rs[i].body) ELSE NoSet]
        k == CHOOSE i \in 1..Len(rs) : rs[i].e = 1 /\ ps[i].ty = "CHANNEL"
        j == CHOOSE j \in 1..Len(ps[k].objs) : ps[k].objs[j].n = nm
        nums(l) == LET v == AttrOf(ps[k], ps[k].objs[j], l) IN [i \in 1..Len(v.vals) |-> Scaled(v.vals[i], 0)]
    IN [code |-> nums("REPRESENTATION-CODE")[1], dim |-> nums("DIMENSION")]
SlotSize(d) == CodeSize[d.code] * FoldLeft(LAMBDA a, x : a * x, 1, d.dim)
\* ... can slice the rows (C08)
SelfDescribing(w) ==
    framed /\ WriteMustRaise(specNow, w, Arrays) = <<>> /\ WriteYes(specNow, w, Arrays) =>
        LET rs == RefRecords(specNow, w, Arrays)
            d == DescOf(rs, NmX)
            hd == Len(EncObnameOf(specNow, 5)) + 1
            rows == SelectSeq(rs, LAMBDA r : r.e = 0)
            A == Arrays[DataOf(specNow, w, 3)]
        IN /\ Len(rows) = 3
           /\ \A i \in 1..3 : /\ Len(rows[i].body) = hd + 1 + SlotSize(d) + 1
                              /\ rows[i].body[Len(rows[i].body)] = Index.rows[i][1]
                              /\ (specNow.ob[3].cast \in {"", "float64"} =>
                                    NumEq(Decode(d.code, rows[i].body, hd + 2, Len(rows[i].body)).v, DecDt(A.dt, SubSeq(A.rows[i], 1, DtSize(A.dt)))))

Inv == /\ Accepts /\ Refuses
       /\ lastCall # "write" => \A w \in Checked : Conforms(w) /\ SelfDescribing(w)
=============================================================================
