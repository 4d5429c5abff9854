------------------------------ MODULE Framing ------------------------------
(***************************************************************************)
(* Physical layer: storage unit label, visible records, logical record     *)
(* segments; reassembly into logical records.                              *)
(*                                                                         *)
(* ParseFile(b, sul) is total.  Its result carries the errors found, each  *)
(* <<clause, detail>>, the logical records reassembled, and the positions  *)
(* at which visible records end.                                           *)
(***************************************************************************)
EXTENDS Codes

V100   == << 86, 49, 46, 48, 48 >>
RECORD == << 82, 69, 67, 79, 82, 68 >>

\* decimal digits, possibly with leading blanks -> integer; -1 if malformed
RECURSIVE SkipBlanks(_, _)
SkipBlanks(cs, i) == IF i > Len(cs) THEN i ELSE IF cs[i] = 32 THEN SkipBlanks(cs, i + 1) ELSE i
DecimalField(cs) ==
    LET i == SkipBlanks(cs, 1)
        ds == SubSeq(cs, i, Len(cs))
    IN IF ds = <<>> \/ \E j \in 1..Len(ds) : ds[j] < 48 \/ ds[j] > 57 \/ Len(ds) > 9 THEN -1
       ELSE FoldLeft(LAMBDA a, c : 10 * a + (c - 48), 0, ds)

Blanks(n) == [i \in 1..n |-> 32]
PadRight(cs, n) == cs \o Blanks(n - Len(cs))
PadLeft(cs, n) == Blanks(n - Len(cs)) \o cs

\* sul: [seq |-> Int, mrl |-> Int, id |-> Seq(code)]
LabelErrors(b, sul) ==
    IF Len(b) < 80 THEN << <<"phys", "file shorter than the storage unit label">> >>
    ELSE (IF DecimalField(Slice(b, 1, 4)) # sul.seq THEN << <<"phys", "label: sequence number">> >> ELSE <<>>)
      \o (IF Slice(b, 5, 5) # V100 THEN << <<"phys", "label: version">> >> ELSE <<>>)
      \o (IF Slice(b, 10, 6) # RECORD THEN << <<"phys", "label: structure">> >> ELSE <<>>)
      \o (IF DecimalField(Slice(b, 16, 5)) # sul.mrl THEN << <<"phys", "label: maximum record length">> >> ELSE <<>>)
      \o (IF Len(sul.id) > 60 \/ Slice(b, 21, 60) # PadRight(sul.id, 60)
          THEN << <<"phys", "label: set identifier">> >> ELSE <<>>)

U16(b, p) == b[p] * 256 + b[p + 1]
Bit(a, v) == (a \div v) % 2

NoRec == [e |-> 0, ty |-> 0, body |-> <<>>, n |-> 0]

\* Parser state:
\*   p     next position to read          vend   end of the current visible record (0: none open)
\*   errs  errors                         recs   finished records
\*   open  a record is being assembled    cur    that record
\*   bnd   positions at which visible records end
FInit == [p |-> 81, vend |-> 0, errs |-> <<>>, recs |-> <<>>, open |-> FALSE, cur |-> NoRec,
          bnd |-> <<80>>, stop |-> FALSE, segs |-> 0, pads |-> 0]

Err(st, c, d) == [st EXCEPT !.errs = Append(@, <<c, d \o " at " \o ToString(st.p)>>)]
Fatal(st, c, d) == [Err(st, c, d) EXCEPT !.stop = TRUE]

StepVR(b, mrl, st) ==
    IF st.p + 3 > Len(b) THEN Fatal(st, "phys", "truncated visible record header")
    ELSE LET n == U16(b, st.p)
             st1 == IF b[st.p + 2] # 255 \/ b[st.p + 3] # 1 THEN Err(st, "phys", "visible record format marker") ELSE st
             st2 == IF n % 2 # 0 \/ n < 20 \/ n > mrl THEN Err(st1, "phys", "visible record length " \o ToString(n))
                    ELSE st1
         IN IF n < 4 THEN Fatal(st2, "phys", "visible record length " \o ToString(n))
            ELSE IF st.p + n - 1 > Len(b) THEN Fatal(st2, "phys", "visible record exceeds the file")
            ELSE IF n = 4 THEN Fatal(st2, "phys", "empty visible record")
            ELSE [st2 EXCEPT !.p = st.p + 4, !.vend = st.p + n - 1]

StepSeg(b, st) ==
    IF st.p + 3 > st.vend THEN Fatal(st, "phys", "segments do not tile the visible record")
    ELSE
    LET n == U16(b, st.p)
        a == b[st.p + 2]
        ty == b[st.p + 3]
        eflr == Bit(a, 128)
        pred == Bit(a, 64)
        succ == Bit(a, 32)
    IN
    IF n < 4 \/ st.p + n - 1 > st.vend THEN Fatal(st, "phys", "segment length " \o ToString(n))
    ELSE
    LET st1 == IF n % 2 # 0 \/ n < 16 THEN Err(st, "phys", "segment length " \o ToString(n)) ELSE st
        st2 == IF Bit(a, 16) = 1 \/ Bit(a, 8) = 1 \/ Bit(a, 4) = 1 \/ Bit(a, 2) = 1
               THEN Err(st1, "phys", "segment attributes: encryption, checksum or trailing length") ELSE st1
        pad == IF Bit(a, 1) = 1 THEN b[st.p + n - 1] ELSE 0
        padok == IF Bit(a, 1) = 1 THEN pad >= 1 /\ pad <= n - 4 ELSE TRUE
        st3 == IF ~padok THEN Err(st2, "phys", "pad count " \o ToString(pad)) ELSE st2
        body == IF padok THEN SubSeq(b, st.p + 4, st.p + n - 1 - pad) ELSE <<>>
        \* bracketing
        st4 == IF st.open /\ pred = 0 THEN Err(st3, "bracket", "record not finished before the next one begins")
               ELSE IF ~st.open /\ pred = 1 THEN Err(st3, "bracket", "first segment has the predecessor flag")
               ELSE st3
        cont == st.open /\ pred = 1
        st5 == IF cont /\ (st.cur.e # eflr \/ st.cur.ty # ty)
               THEN Err(st4, "bracket", "segments of one record differ in type") ELSE st4
        cur == IF cont THEN [st.cur EXCEPT !.body = @ \o body, !.n = @ + 1]
               ELSE [e |-> eflr, ty |-> ty, body |-> body, n |-> 1]
        base == IF st.open /\ ~cont THEN Append(st5.recs, st.cur) ELSE st5.recs
        nx == st.p + n
    IN [st5 EXCEPT !.p = nx,
                   !.recs = IF succ = 0 THEN Append(base, cur) ELSE base,
                   !.open = succ = 1,
                   !.cur = IF succ = 1 THEN cur ELSE NoRec,
                   !.segs = @ + 1,
                   !.pads = @ + Bit(a, 1),
                   !.vend = IF nx > st.vend THEN 0 ELSE st.vend,
                   !.bnd = IF nx > st.vend THEN Append(@, st.vend) ELSE @]

FStep(b, mrl, st) ==
    IF st.stop THEN st
    ELSE IF st.vend = 0 THEN (IF st.p > Len(b) THEN [st EXCEPT !.stop = TRUE] ELSE StepVR(b, mrl, st))
    ELSE StepSeg(b, st)

\* Every two steps consume at least eight bytes unless the parser stops, so this many steps are enough
ParseFile(b, sul) ==
    LET lab == LabelErrors(b, sul) IN
    IF Len(b) < 80 THEN [errs |-> lab, recs |-> <<>>, bnd |-> <<>>, segs |-> 0, pads |-> 0]
    ELSE LET n == (Len(b) - 80) \div 4 + 2
             st == FoldLeft(LAMBDA s, i : FStep(b, sul.mrl, s), FInit, [i \in 1..n |-> i])
             e1 == IF st.open THEN << <<"bracket", "last record is not finished">> >> ELSE <<>>
             e2 == IF ~st.stop \/ st.vend # 0 THEN << <<"phys", "file does not end with a visible record">> >> ELSE <<>>
         IN [errs |-> lab \o st.errs \o e1 \o (IF st.errs = <<>> THEN e2 ELSE <<>>),
             recs |-> st.recs, bnd |-> st.bnd, segs |-> st.segs, pads |-> st.pads]

=============================================================================
