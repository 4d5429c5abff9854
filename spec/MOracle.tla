------------------------------ MODULE MOracle ------------------------------
(***************************************************************************)
(* Is the relation of Conform as sharp as it has to be?  The reference     *)
(* writer makes a correct file for each of several specifications; a fault *)
(* is put into it (a bit of a record changed, a byte lost or repeated, a   *)
(* record lost, repeated, moved or of another type); the relation has to   *)
(* notice.  The few differences which the standard allows are named.       *)
(***************************************************************************)
EXTENDS MBase, Encode
CONSTANTS Bases, Stride   \* of all faults, one in Stride is tried

VARIABLES baseNo, fault,
          specNow, refRecs, refBytes    \* specification, reference records and reference file of the base
vars == <<baseNo, fault, specNow, refRecs, refBytes>>
View == <<baseNo, fault>>

U8(xs) == [dt |-> "uint8", dims |-> <<>>, n |-> Len(xs), rows |-> [i \in 1..Len(xs) |-> <<xs[i]>>]]
Arrays == << U8(<<1, 3, 5>>), U8(<<9, 7>>),
             [dt |-> "uint16", dims |-> <<2>>, n |-> 3, rows |-> << <<1, 2, 3, 4>>, <<5, 6, 7, 8>>, <<9, 10, 11, 12>> >>] >>
Ch(lf, ob, nm, a) == [AddEv(lf, ob, "CHANNEL", nm, <<>>) EXCEPT !.arr = a]
With(e, st) == [e EXCEPT !.set = Txt(st)]

Simple == << FileEv(256), LfEv(HEAD), AddEv(1, 1, "ORIGIN", NmA, OriginAttrs), Ch(1, 2, NmA, 1),
             AddEv(1, 3, "FRAME", NmA, << Attr("CHANNELS", Lst(<<Ref(2)>>)) >>) >>
Indexed == << FileEv(256), LfEv(HEAD), AddEv(1, 1, "ORIGIN", NmA, OriginAttrs), Ch(1, 2, NmA, 1), Ch(1, 3, NmB, 3),
              AddEv(1, 4, "FRAME", NmA, << Attr("CHANNELS", Lst(<<Ref(2), Ref(3)>>)), Attr("INDEX-TYPE", Txt(<<84, 73, 77, 69>>)) >>) >>
Two == << FileEv(256), LfEv(HEAD), LfEv(HEAD \o <<50>>),
          AddEv(1, 1, "ORIGIN", NmA, OriginAttrs), Ch(1, 2, NmA, 1), Ch(1, 3, NmA, 2),
          AddEv(1, 4, "FRAME", NmA, << Attr("CHANNELS", Lst(<<Ref(2)>>)) >>),
          AddEv(1, 5, "FRAME", NmA, << Attr("CHANNELS", Lst(<<Ref(3)>>)) >>),
          With(AddEv(2, 6, "ORIGIN", NmA, OriginAttrs), SetL2), With(Ch(2, 7, NmA, 1), SetL2),
          With(AddEv(2, 8, "FRAME", NmA, << Attr("CHANNELS", Lst(<<Ref(7)>>)) >>), SetL2),
          AddEv(1, 9, "NO-FORMAT", NmA, <<>>), With(AddEv(2, 10, "NO-FORMAT", NmA, <<>>), SetL2),
          [op |-> "nf", lf |-> 1, ob |-> 9, pay |-> Txt(<<1, 2>>)], [op |-> "nf", lf |-> 2, ob |-> 10, pay |-> Txt(<<3>>)] >>
Meta == Simple \o
        << AddEv(1, 4, "EQUIPMENT", NmA, << AttrU("LENGTH", Whole(5), Txt(<<109>>)), Attr("STATUS", [t |-> "bool", w |-> TRUE]),
                                          Attr("TYPE", Txt(<<84, 111, 111, 108>>)) >>),
           AddEv(1, 5, "ZONE", NmA, << Attr("MAXIMUM", Dt(2020)), Attr("DOMAIN", Txt(<<84, 73, 77, 69>>)) >>),
           AddEv(1, 6, "ZONE", NmB, << Attr("MINIMUM", Flt(<<63, 240, 0, 0, 0, 0, 0, 1>>)) >>),
           AddEv(1, 7, "PARAMETER", NmA, << Attr("ZONES", Lst(<<Ref(5), Ref(6)>>)), Attr("VALUES", Lst(<<Whole(1), Whole(-2)>>)) >>),
           AddEv(1, 8, "GROUP", NmA, << Attr("OBJECT-LIST", Lst(<<Ref(7), Ref(4)>>)) >>),
           AddEv(1, 9, "COMMENT", NmA, << Attr("TEXT", Lst(<<Txt(<<120, 121>>), Txt(<<>>)>>)) >>),
           AddEv(1, 10, "CALIBRATION-MEASUREMENT", NmA, << Attr("SAMPLE-COUNT", Whole(-3)), Attr("BEGIN-TIME", Whole(0)) >>),
           AddEv(1, 11, "AXIS", NmA, << Attr("COORDINATES", Lst(<<Txt(<<65, 66>>), Txt(<<67>>)>>)) >>) >>
BaseOf(x) == CASE x = "simple" -> Simple [] x = "indexed" -> Indexed [] x = "two" -> Two [] OTHER -> Meta

Init == /\ baseNo \in Bases /\ fault = [k |-> "none"]
        /\ specNow = ApplyAll(NewSpec(0), BaseOf(baseNo)) /\ refRecs = RefRecords(specNow, WriteEv, Arrays) /\ refBytes = RefFile(specNow, refRecs)
       /\ (baseNo = "simple" => EmitArrays(Arrays)) /\ Emit(baseNo, BaseOf(baseNo) \o <<WriteEv>>)
N == Len(refRecs)
Sampled(i, j) == (i * 31 + j) % Stride = 0
Faults(i) ==
    LET m == Len(refRecs[i].body) IN
    {[k |-> "bit", i |-> i, j |-> j, v |-> v] : j \in {j \in 1..m : Sampled(i, j)}, v \in {1, 2, 4, 8, 16, 32, 64, 128}}
    \cup {[k |-> kk, i |-> i, j |-> j] : kk \in {"drop", "twice"}, j \in {j \in 1..m : Sampled(i, j)}}
    \cup {[k |-> "lost", i |-> i], [k |-> "again", i |-> i], [k |-> "kind", i |-> i]}
    \cup {[k |-> "type", i |-> i, j |-> t] : t \in 0..12 \ {refRecs[i].ty}}
    \cup {[k |-> "swap", i |-> i, j |-> j] : j \in (i + 1)..N}

Flip(x, v) == IF Bit(x, v) = 1 THEN x - v ELSE x + v
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Twice(s, i) == SubSeq(s, 1, i) \o SubSeq(s, i, Len(s))
Faulty(rs, f) ==
    CASE f.k = "none" -> rs
      [] f.k = "bit" -> [rs EXCEPT ![f.i].body[f.j] = Flip(@, f.v)]
      [] f.k = "drop" -> [rs EXCEPT ![f.i].body = Without(@, f.j)]
      [] f.k = "twice" -> [rs EXCEPT ![f.i].body = Twice(@, f.j)]
      [] f.k = "lost" -> Without(rs, f.i)
      [] f.k = "again" -> Twice(rs, f.i)
      [] f.k = "kind" -> [rs EXCEPT ![f.i].e = 1 - @]
      [] f.k = "type" -> [rs EXCEPT ![f.i].ty = f.j]
      [] f.k = "swap" -> [rs EXCEPT ![f.i] = rs[f.j], ![f.j] = rs[f.i]]

Errs(f) == RecordErrs(specNow, WriteEv, Arrays, Faulty(refRecs, f))

---------------------------------------------------------------------------
(* Faults in the bytes of the whole file                                   *)

FileFaults ==
    {[k |-> "fbit", j |-> j, v |-> v] : j \in {j \in 1..Len(refBytes) : Sampled(j, j \div 7)}, v \in {1, 2, 4, 8, 16, 32, 64, 128}}
    \cup {[k |-> kk, j |-> j] : kk \in {"fdrop", "ftwice"}, j \in {j \in 1..Len(refBytes) : Sampled(j, j \div 7)}}
    \cup {[k |-> "cut", j |-> j] : j \in {j \in 0..(Len(refBytes) - 1) : Sampled(j, j \div 7)}}
FileFaulty(f) ==
    CASE f.k = "fbit" -> [refBytes EXCEPT ![f.j] = Flip(@, f.v)]
      [] f.k = "fdrop" -> Without(refBytes, f.j)
      [] f.k = "ftwice" -> Twice(refBytes, f.j)
      [] OTHER -> SubSeq(refBytes, 1, f.j)
InFile(f) == f.k \in {"fbit", "fdrop", "ftwice", "cut"}

Next == /\ fault.k = "none" /\ UNCHANGED <<baseNo, specNow, refRecs, refBytes>>
        /\ \/ \E i \in 1..N : \E f \in Faults(i) : fault' = f
           \/ \E f \in FileFaults : fault' = f
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* What a reader gets from the records: the content of the sets, without   *)
(* the representation codes chosen and the form in which absence is said,  *)
(* and the data records.  The copy number of a file header is free.        *)

ObjContent(d, q) ==
    [o |-> q.o, n |-> q.n, cp |-> IF d.ty = "FILE-HEADER" THEN 0 ELSE q.cp,
     at |-> [i \in 1..Len(d.tmpl) |-> LET a == AttrOf(d, q, d.tmpl[i].l) IN [pres |-> a.pres, u |-> a.u, vals |-> a.vals]]]
SetContent(r) == LET d == ParseEflr(r.body)
                 IN [ok |-> d.ok, ty |-> r.ty, t |-> d.ty, nm |-> d.nm, lab |-> [i \in 1..Len(d.tmpl) |-> d.tmpl[i].lc],
                     objs |-> [i \in 1..Len(d.objs) |-> ObjContent(d, d.objs[i])]]
Owner(r) == LET h == IflrHead(r) IN <<r.ty, h.ok, h.o, h.c, h.n>>
Content(rs) == [n |-> Len(rs),
                sets |-> {SetContent(rs[i]) : i \in {i \in 1..Len(rs) : rs[i].e = 1}},
                data |-> {LET own == Owner(rs[i]) IN SelectSeq(rs, LAMBDA r : r.e = 0 /\ Owner(r) = own) :
                          i \in {i \in 1..Len(rs) : rs[i].e = 0}}]

Sound == fault.k = "none" =>
            /\ WriteMustRaise(specNow, WriteEv, Arrays) = <<>> /\ WriteYes(specNow, WriteEv, Arrays)
            /\ Errs(fault) = <<>>
            /\ LET pf == ParseFile(refBytes, specNow.sul)
               IN pf.errs = <<>> /\ [i \in 1..Len(pf.recs) |-> Rec(pf.recs[i].e, pf.recs[i].ty, pf.recs[i].body)] = refRecs

\* a fault in the records is noticed, unless a reader gets the same from them
Sharp == fault.k # "none" /\ ~InFile(fault) =>
            \/ Errs(fault) # <<>>
            \/ Content(Faulty(refRecs, fault)) = Content(refRecs)
\* a fault in the file is noticed, unless it is in the filling of a padding or a reader gets the same
SharpFile == InFile(fault) =>
            LET pf == ParseFile(FileFaulty(fault), specNow.sul) IN
            \/ pf.errs # <<>>
            \/ [i \in 1..Len(pf.recs) |-> Rec(pf.recs[i].e, pf.recs[i].ty, pf.recs[i].body)] = refRecs
            \/ RecordErrs(specNow, WriteEv, Arrays, pf.recs) # <<>>
            \/ Content([i \in 1..Len(pf.recs) |-> Rec(pf.recs[i].e, pf.recs[i].ty, pf.recs[i].body)]) = Content(refRecs)
Inv == Sound /\ Sharp /\ SharpFile
=============================================================================
