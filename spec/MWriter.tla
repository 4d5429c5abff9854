------------------------------ MODULE MWriter ------------------------------
(***************************************************************************)
(* How the writer lays logical records out: segmentation of each record,   *)
(* one visible record per segment, a buffer of the output chunk size which *)
(* is flushed to disk when the next visible record does not fit.  The file *)
(* which results is judged by Framing, for every maximum length, record    *)
(* lengths and chunk size within the bounds.                               *)
(***************************************************************************)
EXTENDS MBase
CONSTANTS MaxMrl,     \* maximum record lengths 20, 22, ..., MaxMrl
          Single,     \* one record of every length up to this
          EmitAll

VARIABLES maxLen, chunkBytes, recsNow,   \* configuration; recs: records [e, ty, body]
          recNo, posNow,           \* record, and position within it
          bufNow, diskNow,
          stageNow,               \* "write", "done"
          histNow
vars == <<maxLen, chunkBytes, recsNow, recNo, posNow, bufNow, diskNow, stageNow, histNow>>
View == <<maxLen, chunkBytes, recsNow, recNo, posNow, bufNow, diskNow, stageNow>>

MinBody == 12
Cap == maxLen - 8
Payload(n) == [i \in 1..n |-> 32 + ((7 * i) % 90)]
\* reference to the object NO-FORMAT A of origin 0
Head4 == << 0, 0, 1, 65 >>
Rec(n) == [e |-> 0, ty |-> 1, body |-> IF n <= 4 THEN SubSeq(Head4, 1, n) ELSE Head4 \o Payload(n - 4)]

Edges(c) == { 4, 15, 16, c - 1, c, c + 1, c + 11, c + 12, 2 * c - 1, 2 * c + 3 }
Lens(m) == { <<n>> : n \in 1..Single } \cup { <<a, b>> : a, b \in Edges(m - 8) }

Sul == [made |-> TRUE, seq |-> 1, mrl |-> maxLen, id |-> <<83, 69, 84>>]
Label == PadLeft(<<49>>, 4) \o << 86, 49, 46, 48, 48 >> \o RECORD \o PadLeft(DecDigits(maxLen), 5) \o PadRight(Sul.id, 60)

Hist == << FileEv(maxLen), LfEv(HEAD), AddEv(1, 1, "ORIGIN", NmA, OriginAttrs),
           [AddEv(1, 2, "CHANNEL", NmA, <<>>) EXCEPT !.arr = 1],
           AddEv(1, 3, "FRAME", NmA, << Attr("CHANNELS", Lst(<<Ref(2)>>)) >>),
           AddEv(1, 4, "NO-FORMAT", NmA, <<>>) >>
        \o [i \in 1..Len(recsNow) |-> [op |-> "nf", lf |-> 1, ob |-> 4, pay |-> Txt(SubSeq(recsNow[i].body, 5, Len(recsNow[i].body)))]]
        \o << [WriteEv EXCEPT !.och = chunkBytes] >>

Arrays == << [dt |-> "uint8", dims |-> <<>>, n |-> 1, rows |-> << <<9>> >>] >>
Init == /\ EmitArrays(Arrays)
        /\ \E m \in {x \in 20..MaxMrl : x % 2 = 0} : \E ls \in Lens(m), o \in {m, m + 1, 2 * m, 3 * m - 1, 4000} :
           /\ (Len(ls) = 1 => o \in {m, 4000})
           /\ maxLen = m /\ chunkBytes = o /\ recsNow = [i \in 1..Len(ls) |-> Rec(ls[i])]
           /\ recNo = 1 /\ posNow = 0 /\ bufNow = <<>> /\ diskNow = Label /\ stageNow = "write" /\ histNow = <<>>

U16of(n) == << n \div 256, n % 256 >>
Segment(rec, from, n) ==
    LET p0 == MaxI(0, MinBody - n)
        pad == p0 + ((n + p0) % 2)
        size == n + pad + 4
        attr == 128 * rec.e + (IF from > 0 THEN 64 ELSE 0) + (IF from + n < Len(rec.body) THEN 32 ELSE 0)
                + (IF pad > 0 THEN 1 ELSE 0)
    IN U16of(size) \o << attr, rec.ty >> \o SubSeq(rec.body, from + 1, from + n) \o [i \in 1..pad |-> pad]
Visible(seg) == U16of(Len(seg) + 4) \o << 255, 1 >> \o seg

\* bytes of the record in the next segment
Take(rem) ==
    LET n == MinI(rem, Cap)
        rest == rem - n
        miss == MinBody - rest
    IN IF rest > 0 /\ rest < MinBody /\ n - miss >= MinBody THEN n - miss ELSE n

Step ==
    /\ stageNow = "write" /\ recNo <= Len(recsNow)
    /\ LET n == Take(Len(recsNow[recNo].body) - posNow)
           vr == Visible(Segment(recsNow[recNo], posNow, n))
           fits == Len(bufNow) + Len(vr) <= chunkBytes
       IN /\ bufNow' = IF fits THEN bufNow \o vr ELSE vr
          /\ diskNow' = IF fits THEN diskNow ELSE diskNow \o bufNow
          /\ IF posNow + n = Len(recsNow[recNo].body) THEN recNo' = recNo + 1 /\ posNow' = 0 ELSE recNo' = recNo /\ posNow' = posNow + n
    /\ UNCHANGED <<maxLen, chunkBytes, recsNow, stageNow, histNow>>
Finish ==
    /\ stageNow = "write" /\ recNo > Len(recsNow)
    /\ diskNow' = diskNow \o bufNow /\ bufNow' = <<>> /\ stageNow' = "done" /\ histNow' = Hist
    /\ (\A i \in 1..Len(recsNow) : Len(recsNow[i].body) >= 4) => Emit("b", Hist)
    /\ UNCHANGED <<maxLen, chunkBytes, recsNow, recNo, posNow>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
\* C01, C02: the file is laid out as RP66 prescribes, and the records come out of it again
Legal == stageNow = "done" =>
    LET p == ParseFile(diskNow, Sul) IN p.errs = <<>> /\ [i \in 1..Len(p.recs) |-> [e |-> p.recs[i].e, ty |-> p.recs[i].ty,
                                                                                 body |-> p.recs[i].body]] = recsNow
\* C10: between the flushes the disk holds whole visible records
RECURSIVE Whole4(_, _)
Whole4(b, p) == p = Len(b) + 1 \/ (p + 1 <= Len(b) /\ Whole4(b, p + b[p] * 256 + b[p + 1]))
Prefix == Whole4(diskNow, 81) /\ Whole4(bufNow, 1) /\ Len(bufNow) <= chunkBytes
\* C15: every step makes progress and no visible record is too long
Progress == stageNow = "write" /\ recNo <= Len(recsNow) =>
    LET n == Take(Len(recsNow[recNo].body) - posNow) IN n >= 1 /\ Len(Visible(Segment(recsNow[recNo], posNow, n))) <= maxLen
Inv == Legal /\ Prefix /\ Progress
\* C10: what is on disk stays there
Grows == SubSeq(diskNow', 1, Len(diskNow)) = diskNow
GrowsSpec == [][Grows]_vars
=============================================================================
