------------------------------- MODULE MIndex -------------------------------
(***************************************************************************)
(* Index channels: every short sequence of small numbers, and sequences    *)
(* whose steps are nearly equal.  The invariants are laws of the notions   *)
(* of the oracle (sense, uniformity, median); each sequence is written as  *)
(* the index channel of frames of several dtypes, whole and in windows.    *)
(***************************************************************************)
EXTENDS MBase
CONSTANTS MaxLen,    \* length of the sequences of small numbers
          MaxSteps   \* number of nearly equal steps

VARIABLES seqNow, famNow
vars == <<seqNow, famNow>>

Small == {0, 1, 2, 5}
\* 3.1 % apart at most: 1000 and 1031; more: 1000 and 1033
Near == {1000, 1001, 1030, 1040, -1000}
RECURSIVE Sums(_, _)
Sums(a, ds) == IF ds = <<>> THEN <<a>> ELSE <<a>> \o Sums(a + Head(ds), Tail(ds))

Init == famNow \in {"small", "near"} /\ seqNow = <<>>
\* xs: the sequence (small) or its steps (near)
Next == \/ famNow = "small" /\ Len(seqNow) < MaxLen /\ \E x \in Small : seqNow' = Append(seqNow, x) /\ UNCHANGED famNow
        \/ famNow = "near" /\ Len(seqNow) < MaxSteps /\ \E x \in Near : seqNow' = Append(seqNow, x) /\ UNCHANGED famNow
Seq_ == IF famNow = "small" THEN seqNow ELSE Sums(4000, seqNow)
N == Len(Seq_)

Nums == [i \in 1..N |-> FromInt(Seq_[i])]
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
D == Diffs(Nums)
RD == Diffs(Rev(Nums))
Opp(c) == IF c = INCREASING THEN DECREASING ELSE IF c = DECREASING THEN INCREASING ELSE <<>>

Laws == N >= 2 =>
    /\ Sense(RD) = Opp(Sense(D))
    /\ Uniformity(RD) = Uniformity(D)
    /\ Median2(RD) = - Median2(D)
    /\ Uniformity(D) \in {"exact", "near"} /\ Median2(D) # 0 => Sense(D) # <<>>
    /\ Uniformity(D) = "exact" =>
          NumEq(MaxOf(Nums), FromInt(AbsI((Seq_[2] - Seq_[1]) * (N - 1)) + MinI(Seq_[1], Seq_[N])))
    /\ Sense(D) = INCREASING => NumEq(MinOf(Nums), Nums[1]) /\ NumEq(MaxOf(Nums), Nums[N])
    /\ N = 2 => Uniformity(D) = "exact"

---------------------------------------------------------------------------
U16of(i) == << i \div 256, i % 256 >>
I16of(i) == IF i < 0 THEN U16of(65536 + i) ELSE U16of(i)
F64of(i) == BitsToBytes(ToIeee(FromInt(i), 64, 11, 1023, 0))
F32of(i) == BitsToBytes(ToIeee(FromInt(i), 32, 8, 127, 0))
Arr(dt, f(_)) == [dt |-> dt, dims |-> <<>>, n |-> N, rows |-> [i \in 1..N |-> f(Seq_[i])]]
\* the negated sequence, for the signed dtypes
Arrays == << Arr("uint16", U16of), Arr("int16", LAMBDA x : I16of(-x)), Arr("float64", F64of),
             Arr("float32", LAMBDA x : F32of(-x)) >>
NmD == <<68>>
Nms == << NmA, NmB, NmC, NmD >>
Hist == << FileEv(512), LfEv(HEAD), AddEv(1, 1, "ORIGIN", NmA, OriginAttrs) >>
        \o [j \in 1..4 |-> [AddEv(1, 1 + j, "CHANNEL", Nms[j], << Attr("UNITS", Txt(<<109>>)) >>) EXCEPT !.arr = j,
                            !.cast = IF j = 1 /\ Len(seqNow) % 2 = 0 THEN "float32" ELSE ""]]
        \o [j \in 1..4 |-> AddEv(1, 5 + j, "FRAME", Nms[j], << Attr("CHANNELS", Lst(<<Ref(1 + j)>>)),
                                                           Attr("INDEX-TYPE", Txt(<<84, 73, 77, 69>>)) >>)]
        \o << WriteEv >>
        \o (IF N >= 2 THEN << [WriteEv EXCEPT !.from = 1], [WriteEv EXCEPT !.to = N - 1], WriteEv >> ELSE <<>>)
Emitted == N >= 1 => PrintT("HIST|" \o famNow \o "|" \o ToJson([ev |-> Hist, arrays |-> Arrays]))
Inv == Laws /\ Emitted
Spec == Init /\ [][Next]_vars
=============================================================================
