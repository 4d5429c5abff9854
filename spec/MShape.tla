------------------------------ MODULE MShape ------------------------------
(***************************************************************************)
(* Which arrays a frame can be made of: every sequence of up to MaxCh      *)
(* channels of which at most MaxBad have another number of rows, a dtype   *)
(* or a shape which cannot be written, or no data; next to it a second     *)
(* frame, also with channels of the first one, in the same sets or in sets *)
(* of its own.  A write fails exactly when some frame has such a channel,  *)
(* wherever it stands, wherever the data come from and whatever the rows   *)
(* which are asked for; otherwise every frame gets its rows.               *)
(***************************************************************************)
EXTENDS MBase, Encode
CONSTANTS MaxCh, MaxBad

VARIABLES colsNow, secondNow, splitNow, kindNow, specNow, callNo, writeNow
vars == <<colsNow, secondNow, splitNow, kindNow, specNow, callNo, writeNow>>

Arr(dt, dims, rs) == [dt |-> dt, dims |-> dims, n |-> Len(rs), rows |-> rs]
Long(x) == <<x, 0, 0, 0, 0, 0, 0, 0>>
Arrays == << Arr("uint8", <<>>, << <<1>>, <<3>>, <<5>> >>),
             Arr("uint16", <<2>>, << <<20, 1, 20, 2>>, <<20, 3, 20, 4>>, <<20, 5, 20, 6>> >>),
             Arr("uint8", <<>>, << <<31>>, <<33>>, <<35>>, <<37>> >>),
             Arr("uint16", <<2>>, << <<40, 1, 40, 2>>, <<40, 3, 40, 4>> >>),
             Arr("int8", <<>>, << <<51>> >>),
             Arr("int64", <<>>, << Long(1), Long(2), Long(3) >>),
             Arr("uint8", <<2, 2>>, << <<1, 2, 3, 4>>, <<5, 6, 7, 8>>, <<9, 10, 11, 12>> >>),
             Arr("uint8", <<>>, << <<71>>, <<73>> >>),
             Arr("uint8", <<>>, << <<81>>, <<83>>, <<85>> >>) >>
\* 0: no data; 3..7: does not go with arrays of three rows
Sound == {1, 2}
Odd == {0, 3, 4, 5, 6, 7}
Cols == UNION {{x \in [1..m -> Sound \cup Odd] : Cardinality({j \in 1..m : x[j] \in Odd}) <= MaxBad} : m \in 1..MaxCh}
\* columns of the second frame, -j: channel j of the first
Second == << <<>>, <<8>>, <<8, 9>>, <<9, 8>>, <<-1>>, <<9, -1>>, <<-1, 8>> >>
Kinds == {"none", "dict", "struct", "hdf5"}

\* arrays of the channels: those of the first frame, then those of the second
OwnOf(cs) == SelectSeq(cs, LAMBDA x : x >= 0)
AllCols(cs, s) == cs \o OwnOf(Second[s])
NmOf(j) == <<64 + j>>
Placed(e, far) == IF far THEN [e EXCEPT !.set = Txt(SetL2)] ELSE e
\* split 1: the second frame and its channels are in sets of their own; 2: and so is every other channel of the first
Contents(cs, s, split, kind) ==
    LET all == AllCols(cs, s)
        far(j) == IF j <= Len(cs) THEN split = 2 /\ j % 2 = 0 ELSE split > 0
        ch(j) == [Placed(AddEv(1, j + 1, "CHANNEL", NmOf(j), <<>>), far(j)) EXCEPT !.arr = IF kind = "none" THEN all[j] ELSE 0]
        own(k) == Len(cs) + Cardinality({q \in 1..k : Second[s][q] > 0})
        fst == << AddEv(1, Len(all) + 2, "FRAME", NmA, << Attr("CHANNELS", Lst([j \in 1..Len(cs) |-> Ref(j + 1)])) >>) >>
        snd == << Placed(AddEv(1, Len(all) + 3, "FRAME", NmB,
                     << Attr("CHANNELS", Lst([k \in 1..Len(Second[s]) |->
                            IF Second[s][k] < 0 THEN Ref(2) ELSE Ref(own(k) + 1)])) >>), split > 0) >>
    IN << FileEv(256), LfEv(HEAD), AddEv(1, 1, "ORIGIN", NmA, OriginAttrs) >>
       \o [j \in 1..Len(all) |-> ch(j)] \o fst \o (IF s = 1 THEN <<>> ELSE snd)

MapOf(all) == LET js == SelectSeq([j \in 1..Len(all) |-> j], LAMBDA j : all[j] # 0)
              IN [k \in 1..Len(js) |-> [ds |-> NmOf(js[k]), arr |-> all[js[k]]]]
W(all, kind, fr, to) ==
    [WriteEv EXCEPT !.src = [kind |-> kind, map |-> IF kind = "none" THEN <<>> ELSE MapOf(all)], !.from = fr, !.to = to]
\* fields of a structured array have as many rows each; there is no source of nothing
Possible(all, kind) ==
    /\ kind # "none" => \E j \in 1..Len(all) : all[j] # 0
    /\ kind = "struct" => \A i, j \in 1..Len(all) : all[i] # 0 /\ all[j] # 0 => Arrays[all[i]].n = Arrays[all[j]].n

Init == /\ colsNow \in Cols /\ secondNow \in 1..Len(Second) /\ kindNow \in Kinds
        /\ splitNow \in (IF secondNow = 1 THEN {0} ELSE 0..2)
        /\ Possible(AllCols(colsNow, secondNow), kindNow)
        /\ specNow = ApplyAll(NewSpec(0), Contents(colsNow, secondNow, splitNow, kindNow))
        /\ callNo = 0 /\ writeNow = W(AllCols(colsNow, secondNow), kindNow, 0, -1)
        /\ (colsNow = <<1>> /\ secondNow = 1 /\ kindNow = "none" => EmitArrays(Arrays))
\* said of the arrays alone
ColsOf2 == [k \in 1..Len(Second[secondNow]) |-> IF Second[secondNow][k] < 0 THEN colsNow[1] ELSE Second[secondNow][k]]
FrameWrong(xs) ==
    \/ \E j \in 1..Len(xs) : xs[j] \in {0, 6, 7}
    \/ \E i, j \in 1..Len(xs) : xs[i] # 0 /\ xs[j] # 0 /\ Arrays[xs[i]].n # Arrays[xs[j]].n
Wrong == FrameWrong(colsNow) \/ (secondNow # 1 /\ FrameWrong(ColsOf2))
RowCounts == << Arrays[colsNow[1]].n >> \o (IF secondNow = 1 THEN <<>> ELSE << Arrays[ColsOf2[1]].n >>)

Next == /\ callNo = 0 /\ callNo' = 1 /\ UNCHANGED <<colsNow, secondNow, splitNow, kindNow, specNow>>
        /\ \E win \in {<<0, -1>>, <<1, 2>>, <<0, 1>>} :
              /\ writeNow' = W(AllCols(colsNow, secondNow), kindNow, win[1], win[2])
              /\ Emit(IF Wrong THEN "wrong" ELSE "fine", Append(Contents(colsNow, secondNow, splitNow, kindNow), writeNow'))
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
Fits == \A k \in 1..Len(RowCounts) : writeNow.from < RowCounts[k] /\ writeNow.to <= RowCounts[k]

Refused == (WriteMustRaise(specNow, writeNow, Arrays) # <<>>) <=> Wrong
Accepted == ~Wrong /\ Fits => WriteYes(specNow, writeNow, Arrays)
\* the reference file: conforms, and has the rows of each frame, in the order of the frames in the file
Conforms == ~Wrong /\ Fits =>
    LET rs == RefRecords(specNow, writeNow, Arrays)
        last == IF writeNow.to < 0 THEN 9 ELSE writeNow.to
        rows == FoldLeft(LAMBDA a, n : a + MinI(n, last) - writeNow.from, 0, RowCounts)
    IN /\ RecordErrs(specNow, writeNow, Arrays, rs) = <<>>
       /\ Len(SelectSeq(rs, LAMBDA r : r.e = 0)) = rows
Inv == Refused /\ Accepted /\ Conforms
=============================================================================
