------------------------------ MODULE MSource ------------------------------
(***************************************************************************)
(* Where the data of the channels come from: three channels in two frames, *)
(* each with or without data of its own, and several writes, each with     *)
(* data for some of the channels from some kind of source.  What is        *)
(* written by a call depends on its own arguments and on the data given    *)
(* with the channels, and on nothing that was passed to an earlier call;   *)
(* a channel for which there is no data makes the call fail.               *)
(***************************************************************************)
EXTENDS MBase
CONSTANTS MaxOps, EmitAll

VARIABLES inl,      \* channels which have data of their own
          specNow, histNow, callNo, lastCall
vars == <<inl, specNow, histNow, callNo, lastCall>>
View == <<inl, callNo, lastCall>>

U8(xs) == [dt |-> "uint8", dims |-> <<>>, n |-> Len(xs), rows |-> [i \in 1..Len(xs) |-> <<xs[i]>>]]
U16x2(x) == [dt |-> "uint16", dims |-> <<2>>, n |-> 3, rows |-> << <<x, 1, x, 2>>, <<x, 3, x, 4>>, <<x, 5, x, 6>> >>]
\* 1..3: own data of the channels; 4..6 and 7..9: passed to write
Arrays == << U8(<<1, 3, 5>>), U8(<<11, 12, 13>>), U16x2(20),
             U8(<<2, 4, 8>>), U8(<<31, 32, 33>>), U16x2(40),
             U8(<<7, 5, 3>>), U8(<<51, 52, 53>>), U16x2(60) >>
Names == << NmA, NmB, NmC >>
NmD == <<68>>
Subsets == SUBSET (1..3)

Contents(own) ==
    LET ch(i) == [AddEv(1, i + 1, "CHANNEL", Names[i], <<>>) EXCEPT !.arr = IF i \in own THEN i ELSE 0]
    IN << FileEv(256), LfEv(HEAD), AddEv(1, 1, "ORIGIN", NmA, OriginAttrs), ch(1), ch(2), ch(3),
          AddEv(1, 5, "FRAME", NmA, << Attr("CHANNELS", Lst(<<Ref(3), Ref(2)>>)) >>),
          AddEv(1, 6, "FRAME", NmB, << Attr("CHANNELS", Lst(<<Ref(4)>>)) >>) >>

\* keys: channels in the source (in reverse order if rev); ver: which data; more: a data set which no channel wants
MapOf(keys, ver, rev, more) ==
    LET ks == SelectSeq(IF rev THEN <<3, 2, 1>> ELSE <<1, 2, 3>>, LAMBDA i : i \in keys)
    IN [j \in 1..Len(ks) |-> [ds |-> Names[ks[j]], arr |-> 3 * ver + ks[j]]]
       \o (IF more THEN << [ds |-> NmD, arr |-> 1] >> ELSE <<>>)
W(kind, keys, ver, rev, more) ==
    [WriteEv EXCEPT !.src = [kind |-> kind, map |-> IF kind = "none" THEN <<>> ELSE MapOf(keys, ver, rev, more)]]
NoneW == W("none", {}, 1, FALSE, FALSE)
Writes(own) ==
    {NoneW} \cup {W("dict", ks, v, v = 2, more) : ks \in Subsets, v \in {1, 2}, more \in BOOLEAN}
            \cup (IF own = {} THEN {W(kd, ks, 1, TRUE, FALSE) : kd \in {"struct", "hdf5"}, ks \in Subsets \ {{}}} ELSE {})

Init == /\ inl \in Subsets /\ specNow = ApplyAll(NewSpec(0), Contents(inl)) /\ histNow = <<>> /\ callNo = 0 /\ lastCall = NoneW
        /\ EmitBase(ToString(inl), Contents(inl)) /\ (inl = {} => EmitArrays(Arrays))
Next == /\ callNo < MaxOps /\ callNo' = callNo + 1 /\ UNCHANGED <<inl, specNow>>
        /\ \E w \in Writes(inl) :
              /\ lastCall' = w /\ histNow' = Append(histNow, w)
              /\ (EmitAll \/ callNo' = MaxOps) => Emit(ToString(inl), histNow')
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
KeysOf(w) == {w.src.map[i].ds : i \in 1..Len(w.src.map)}
Have(w) == inl \cup {i \in 1..3 : Names[i] \in KeysOf(w)}
\* exactly the calls with data for every channel can succeed
Enough == \A w \in Writes(inl) :
    /\ WriteMustRaise(specNow, w, Arrays) = <<>> <=> Have(w) = 1..3
    /\ Have(w) = 1..3 => WriteYes(specNow, w, Arrays)
\* the data of the channels which are not in the source are their own
Resolved == \A w \in Writes(inl) : Have(w) = 1..3 =>
    \A i \in 1..3 : DataOf(specNow, w, i + 1) = IF Names[i] \in KeysOf(w) THEN w.src.map[CHOOSE j \in 1..Len(w.src.map) : w.src.map[j].ds = Names[i]].arr ELSE i
Inv == callNo = 0 => Enough /\ Resolved
=============================================================================
