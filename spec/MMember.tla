------------------------------ MODULE MMember ------------------------------
(***************************************************************************)
(* The restrictions of the high-compatibility mode on a file as a whole:   *)
(* every way of putting up to MaxCh channels into up to three frames (of   *)
(* one or two sets, in one or two logical files), signed and unsigned data *)
(* and casts, indexes with equal and unequal steps.  In the mode a write   *)
(* succeeds exactly when every channel is in one frame, no data is signed  *)
(* and every index is uniform; outside of it, always.                      *)
(***************************************************************************)
EXTENDS MBase
CONSTANTS MaxCh

VARIABLES homes,      \* for each channel: the frames it is in
          datums,     \* for each channel: which array
          casts,      \* for each channel: type it is cast to
          shapeNow,   \* one set, two sets, two logical files
          indexed,    \* the frames which have an index
          doneNow, specNow
vars == <<homes, datums, casts, shapeNow, indexed, doneNow, specNow>>

Arr(dt, rs) == [dt |-> dt, dims |-> <<>>, n |-> Len(rs), rows |-> rs]
\* equal steps, unequal steps (unsigned); equal steps (signed); unequal steps, descending
Arrays == << Arr("uint8", << <<10>>, <<12>>, <<14>> >>), Arr("uint8", << <<10>>, <<12>>, <<17>> >>),
             Arr("int8", << <<10>>, <<12>>, <<14>> >>), Arr("uint16", << <<1, 0>>, <<0, 200>>, <<0, 1>> >>),
             Arr("uint16", << <<0, 30>>, <<0, 20>>, <<0, 10>> >>) >>
Uniform == {1, 3, 5}
Signed(d, cst) == IF cst = "" THEN d = 3 ELSE cst = "int16"
FrameIds == 1..3
\* logical file and set of a frame: frame 3 is elsewhere
LfOf(sh, f) == IF sh = "files" /\ f = 3 THEN 2 ELSE 1
SetOf(sh, f) == IF sh # "one" /\ f = 3 THEN SetL2 ELSE <<>>
In(e, st) == IF st = <<>> THEN e ELSE [e EXCEPT !.set = Txt(st)]

\* channels whose home is frame 3 only, of another logical file, are made there
HomeLf(sh, hs, j) == IF sh = "files" /\ hs[j] = {3} THEN 2 ELSE 1
Used(hs) == UNION {hs[j] : j \in DOMAIN hs}
MembersOf(hs, f) == SelectSeq([j \in 1..Len(hs) |-> j], LAMBDA j : f \in hs[j])
Possible(sh, hs) ==
    /\ sh = "files" => /\ \A j \in DOMAIN hs : 3 \in hs[j] => hs[j] = {3}
                       /\ 3 \in Used(hs)
    /\ sh = "two" => 3 \in Used(hs)
    /\ sh = "one" => 3 \notin Used(hs)
    /\ (Used(hs) \ (IF sh = "files" THEN {3} ELSE {})) # {}
    /\ 2 \in Used(hs) => 1 \in Used(hs)

RECURSIVE FrameEvs(_, _, _, _, _)
FrameEvs(sh, hs, ix, f, next) ==
    IF f > 3 THEN <<>>
    ELSE IF f \notin Used(hs) THEN FrameEvs(sh, hs, ix, f + 1, next)
    ELSE << In(AddEv(LfOf(sh, f), next, "FRAME", <<69 + f>>,
                     << Attr("CHANNELS", Lst([k \in 1..Len(MembersOf(hs, f)) |-> Ref(MembersOf(hs, f)[k] + 2)])) >>
                     \o (IF f \in ix THEN << Attr("INDEX-TYPE", Txt(LabelCodes["BOREHOLE-DEPTH"])) >> ELSE <<>>)), SetOf(sh, f)) >>
         \o FrameEvs(sh, hs, ix, f + 1, next + 1)
Contents(sh, hs, ds, cs, ix) ==
    LET ch(j) == [In(AddEv(HomeLf(sh, hs, j), j + 2, "CHANNEL", <<64 + j>>, <<>>), IF HomeLf(sh, hs, j) = 2 THEN SetL2 ELSE <<>>)
                  EXCEPT !.arr = ds[j], !.cast = cs[j]]
    IN << FileEv(512), LfEv(HEAD) >> \o (IF sh = "files" THEN << LfEv(HEAD \o <<50>>) >> ELSE <<>>)
       \o << AddEv(1, 1, "ORIGIN", NmA, OriginAttrs), IF sh = "files" THEN In(AddEv(2, 2, "ORIGIN", NmA, OriginAttrs), SetL2)
                                                       ELSE AddEv(1, 2, "ORIGIN", NmB, OriginAttrs) >>
       \o [j \in 1..Len(hs) |-> ch(j)] \o FrameEvs(sh, hs, ix, 1, Len(hs) + 3)

\* one channel at most differs from the others in its data and its cast
Datums(m) == {[j \in 1..m |-> IF j = k THEN d ELSE 1] : k \in 1..m, d \in 1..Len(Arrays)}
CastsOf(m) == {[j \in 1..m |-> IF j = k THEN c ELSE ""] : k \in 1..m, c \in {"", "int16", "float32"}}

Init == \E m \in 1..MaxCh :
        /\ homes \in [1..m -> SUBSET FrameIds] /\ shapeNow \in {"one", "two", "files"} /\ Possible(shapeNow, homes)
        /\ datums \in Datums(m) /\ casts \in CastsOf(m)
        /\ indexed \in {{}, {1} \cap Used(homes), Used(homes)} /\ doneNow = FALSE
        /\ specNow = ApplyAll(NewSpec(0), Contents(shapeNow, homes, datums, casts, indexed))
        /\ (homes = << {1} >> /\ datums = <<1>> /\ casts = << "" >> /\ indexed = {} => EmitArrays(Arrays))

---------------------------------------------------------------------------
\* said of the variables alone
SignedIn == \E j \in DOMAIN homes : homes[j] # {} /\ Signed(datums[j], casts[j])
Misplaced == \E j \in DOMAIN homes : Cardinality(homes[j]) # 1
IndexOf(f) == MembersOf(homes, f)[1]
Steps(f) == datums[IndexOf(f)] \in Uniform /\ casts[IndexOf(f)] = ""
Uneven(n) == \E f \in indexed : datums[IndexOf(f)] \notin Uniform /\ n > 2
Breach(n) == SignedIn \/ Misplaced \/ Uneven(n)

Wr(n) == [WriteEv EXCEPT !.to = IF n = 3 THEN -1 ELSE n, !.uniform = \A f \in indexed : Steps(f) \/ (n = 2 /\ casts[IndexOf(f)] = "")]
In1 == [op |-> "hcin", via |-> "with"]
In2 == [op |-> "hcin", via |-> "deco"]
OutX(x) == [op |-> "hcout", exc |-> x]
Probe == [op |-> "probe"]
Made == Contents(shapeNow, homes, datums, casts, indexed)
\* made in the mode; made outside of it and written in it
Histories == { << In1 >> \o Made \o << Wr(3), Wr(2), OutX(FALSE), Probe, Wr(3) >>,
               Made \o << Wr(3), In2, Wr(3), In1, Probe, Wr(2), OutX(TRUE), Probe, Wr(3), OutX(FALSE), Wr(2), Probe >> }
Next == /\ ~doneNow /\ doneNow' = TRUE /\ UNCHANGED <<homes, datums, casts, shapeNow, indexed, specNow>>
        /\ \A h \in Histories : Emit(IF Misplaced THEN "place" ELSE IF SignedIn THEN "sign" ELSE IF Uneven(3) THEN "steps" ELSE "fine", h)
Spec == Init /\ [][Next]_vars

Within == [specNow EXCEPT !.hc = 1]
Rule == \A n \in {2, 3} :
    /\ WriteMustRaise(Within, Wr(n), Arrays) = <<>>
    /\ (WriteHcRaise(Within, Wr(n), Arrays) # <<>>) <=> (SignedIn \/ Misplaced)
    /\ ~Breach(n) /\ Wr(n).uniform => WriteYes(Within, Wr(n), Arrays)
    /\ Breach(n) => ~WriteYes(Within, Wr(n), Arrays)
\* outside of the mode nothing of this is wrong
Free == \A n \in {2, 3} : WriteMustRaise(specNow, Wr(n), Arrays) = <<>> /\ WriteYes(specNow, Wr(n), Arrays)
                           /\ WriteHcRaise(specNow, Wr(n), Arrays) = <<>>
Inv == ~doneNow => Rule /\ Free /\ UniqueIdents(specNow) /\ Inventories(specNow)
=============================================================================
