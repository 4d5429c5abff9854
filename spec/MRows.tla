------------------------------- MODULE MRows -------------------------------
(***************************************************************************)
(* Rows from a data source to frame data records: the source is read in    *)
(* chunks, each row of a chunk becomes a record with the next frame        *)
(* number.  For every number of rows, window and chunk size within the     *)
(* bounds; the histories write the same two frames from every kind of      *)
(* source, with the fields of the source in every order.                   *)
(***************************************************************************)
EXTENDS MBase
CONSTANTS MaxRows

VARIABLES rowCount, rowFrom, rowTo,  \* rows of the source; the window
          chunkRows,          \* input chunk size; 0: not given
          fieldOrder,         \* order of the fields in the source
          posNow, outNow, stageNow
vars == <<rowCount, rowFrom, rowTo, chunkRows, fieldOrder, posNow, outNow, stageNow>>

A(i) == <<16 * rowCount + i>>
\* arrays 4 (n - 1) + 1 .. 4: channel A, B (two elements), C, and one which no channel refers to
ArraysOf(k) == << [dt |-> "uint8", dims |-> <<>>, n |-> k, rows |-> [i \in 1..k |-> <<16 * k + i>>]],
                  [dt |-> "uint16", dims |-> <<2>>, n |-> k, rows |-> [i \in 1..k |-> <<k, i, 255 - k, 255 - i>>]],
                  [dt |-> "float32", dims |-> <<>>, n |-> k, rows |-> [i \in 1..k |-> <<63, 128 + i, k, 0>>]],
                  [dt |-> "int16", dims |-> <<>>, n |-> k, rows |-> [i \in 1..k |-> <<9, 9>>]] >>
Arrays == FoldLeft(LAMBDA a, k : a \o ArraysOf(k), <<>>, [k \in 1..MaxRows |-> k])

DsX == <<88, 32, 49>>   \* data set of channel B
NmE == <<69>>
Contents(inline) ==
    LET ch(ob, nm, j) == [AddEv(1, ob, "CHANNEL", nm, <<>>) EXCEPT !.arr = IF inline THEN 4 * (rowCount - 1) + j ELSE 0]
    IN << FileEv(256), LfEv(HEAD), AddEv(1, 1, "ORIGIN", NmA, OriginAttrs),
          ch(2, NmA, 1), [ch(3, NmB, 2) EXCEPT !.ds = Txt(DsX)], ch(4, NmC, 3),
          AddEv(1, 5, "FRAME", NmA, << Attr("CHANNELS", Lst(<<Ref(2), Ref(3)>>)), Attr("INDEX-TYPE", Txt(<<84, 73, 77, 69>>)) >>),
          AddEv(1, 6, "FRAME", NmB, << Attr("CHANNELS", Lst(<<Ref(4)>>)) >>) >>

Names == << NmA, DsX, NmC, NmE >>
MapOf == [i \in 1..4 |-> [ds |-> Names[fieldOrder[i]], arr |-> 4 * (rowCount - 1) + fieldOrder[i]]]
W(kind, c) == [WriteEv EXCEPT !.src = IF kind = "none" THEN [kind |-> "none", map |-> <<>>] ELSE [kind |-> kind, map |-> MapOf],
                              !.from = rowFrom, !.to = rowTo, !.ich = c]
Writes(kind) == [c \in 1..(rowCount + 2) |-> W(kind, c - 1)]
Hist == Contents(FALSE) \o Writes("struct") \o Writes("dict") \o Writes("hdf5")
        \o << [op |-> "proc"] >> \o Contents(TRUE) \o Writes("none")

Perms == {p \in [1..4 -> 1..4] : {p[i] : i \in 1..4} = 1..4 /\ (p[4] = 4 \/ p[1] = 4)}

Init == /\ rowCount \in 1..MaxRows /\ rowFrom \in 0..(rowCount - 1) /\ rowTo \in {-1} \cup (rowFrom + 1)..rowCount /\ chunkRows \in 0..(rowCount + 1)
        /\ fieldOrder \in Perms
        /\ posNow = rowFrom /\ outNow = <<>> /\ stageNow = "read"
        /\ (rowCount = 1 /\ rowFrom = 0 /\ rowTo = -1 /\ chunkRows = 0 /\ fieldOrder = <<1, 2, 3, 4>>) => EmitArrays(Arrays)

End == IF rowTo < 0 THEN rowCount ELSE rowTo
Chunk == IF chunkRows = 0 THEN End - rowFrom ELSE chunkRows
Read == /\ stageNow = "read" /\ posNow < End
        /\ LET m == MinI(Chunk, End - posNow) IN
           /\ outNow' = outNow \o [i \in 1..m |-> [num |-> Len(outNow) + i, row |-> posNow + i]]
           /\ posNow' = posNow + m
        /\ UNCHANGED <<rowCount, rowFrom, rowTo, chunkRows, fieldOrder, stageNow>>
Finish == /\ stageNow = "read" /\ posNow >= End /\ stageNow' = "done"
          /\ (chunkRows = 0 => Emit("r", Hist))
          /\ UNCHANGED <<rowCount, rowFrom, rowTo, chunkRows, fieldOrder, posNow, outNow>>
Next == Read \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

---------------------------------------------------------------------------
w0 == W("dict", chunkRows)
\* C03, C10, C11: each row of the window once, in order, numbered from 1, whatever the chunks
Rows == stageNow = "done" =>
    /\ Len(outNow) = NRows(w0, rowCount)
    /\ \A i \in 1..Len(outNow) : outNow[i].num = i /\ outNow[i].row = From(w0) + i
Bounded == posNow <= End /\ \A i \in 1..Len(outNow) : outNow[i].row \in (rowFrom + 1)..End
Inv == Rows /\ Bounded
Terminates == <>(stageNow = "done")
=============================================================================
