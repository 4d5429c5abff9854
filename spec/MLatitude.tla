------------------------------ MODULE MLatitude ------------------------------
(***************************************************************************)
(* What the standard leaves to a writer must not matter to the relation.   *)
(* Sets of up to MaxObs objects, in which each of three attributes is      *)
(* absent or present in several forms, are encoded in every way the        *)
(* component grammar allows: defaults in the template or not, count, code  *)
(* and units written out or inherited, a shared value taken from the       *)
(* template, absent attributes at the end left out.  All of them conform   *)
(* (so the checks stay quiet if the library ever writes another of these   *)
(* forms), and all say the same.  The physical form of a file is free as   *)
(* well: sizes of segments, segments per visible record, more padding than *)
(* needed, order in which the data of different objects are interleaved.   *)
(* The sets themselves are emitted as histories.                           *)
(***************************************************************************)
EXTENDS MBase, Encode
CONSTANTS MaxObs, Forms, Sizes, Dense

VARIABLES stepNow, patNow, histNow
vars == <<stepNow, patNow, histNow>>
View == <<stepNow, patNow>>

U8(xs) == [dt |-> "uint8", dims |-> <<>>, n |-> Len(xs), rows |-> [i \in 1..Len(xs) |-> <<xs[i]>>]]
Arrays == << U8(<<1, 3, 5>>), U8(<<9, 7>>) >>
Ch(lf, ob, nm, a) == [AddEv(lf, ob, "CHANNEL", nm, <<>>) EXCEPT !.arr = a]
Start == << FileEv(256), LfEv(HEAD), AddEv(1, 1, "ORIGIN", NmA, OriginAttrs), Ch(1, 2, NmA, 1), Ch(1, 3, NmB, 2),
            AddEv(1, 4, "FRAME", NmA, << Attr("CHANNELS", Lst(<<Ref(2)>>)) >>),
            AddEv(1, 5, "FRAME", NmB, << Attr("CHANNELS", Lst(<<Ref(3)>>)) >>),
            AddEv(1, 6, "NO-FORMAT", NmA, <<>>), AddEv(1, 7, "NO-FORMAT", NmB, <<>>),
            [op |-> "nf", lf |-> 1, ob |-> 6, pay |-> Txt(<<1, 2>>)], [op |-> "nf", lf |-> 1, ob |-> 7, pay |-> Txt(<<3>>)],
            [op |-> "nf", lf |-> 1, ob |-> 6, pay |-> Txt(<<>>)] >>
StartSpec == ApplyAll(NewSpec(0), Start)
FirstOb == 8

\* forms of the three attributes of an AXIS
Metre == Txt(<<109>>)
IdForms == {"none", "txt"}
CoForms == IF Forms = "few" THEN {"none", "one", "three", "threeu"} ELSE {"none", "one", "oneu", "three", "threeu", "texts"}
SpForms == {"none", "num", "numu"}
Patterns == [id : IdForms, co : CoForms, sp : SpForms]
Three == Lst(<<Flt(<<192, 4, 0, 0, 0, 0, 0, 0>>), Flt(<<0, 0, 0, 0, 0, 0, 0, 0>>), Flt(<<63, 240, 0, 0, 0, 0, 0, 1>>)>>)
AttrsOf(p) ==
    (CASE p.id = "txt" -> << Attr("AXIS-ID", Txt(<<65, 88>>)) >> [] OTHER -> <<>>)
    \o (CASE p.co = "one" -> << Attr("COORDINATES", Lst(<<Flt(<<64, 4, 0, 0, 0, 0, 0, 0>>)>>)) >>
          [] p.co = "oneu" -> << AttrU("COORDINATES", Lst(<<Flt(<<64, 4, 0, 0, 0, 0, 0, 0>>)>>), Metre) >>
          [] p.co = "three" -> << Attr("COORDINATES", Three) >>
          [] p.co = "threeu" -> << AttrU("COORDINATES", Three, Metre) >>
          [] p.co = "texts" -> << Attr("COORDINATES", Lst(<<Txt(<<66, 66>>), Txt(<<>>)>>)) >>
          [] OTHER -> <<>>)
    \o (CASE p.sp = "num" -> << Attr("SPACING", Whole(-2)) >>
          [] p.sp = "numu" -> << AttrU("SPACING", Whole(-2), Metre) >>
          [] OTHER -> <<>>)
Nm(i) == <<64 + i>>
AxisEv(i, p) == AddEv(1, FirstOb + i - 1, "AXIS", Nm(i), AttrsOf(p))
Calls(pats) == Start \o [i \in 1..Len(pats) |-> AxisEv(i, pats[i])]

Init == stepNow = "build" /\ patNow = <<>> /\ histNow = Start
        /\ EmitBase("axis", Start) /\ EmitArrays(Arrays)
Grow == /\ stepNow = "build" /\ Len(patNow) < MaxObs
        /\ \E p \in Patterns : patNow' = Append(patNow, p) /\ histNow' = Append(histNow, AxisEv(Len(patNow) + 1, p))
        /\ UNCHANGED stepNow
        /\ EmitAfter("axis", Start, Append(histNow', WriteEv))
Next == Grow
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* The ways to encode a set                                                *)

\* template: no defaults, the code, code and units and count, or the whole of the first object which has the attribute
AllWays == [tm : {"plain", "code", "shape", "value"}, cnt : BOOLEAN, code : BOOLEAN, u : BOOLEAN, trim : BOOLEAN]
Ways == IF Dense THEN AllWays ELSE {w \in AllWays : w.cnt = w.u /\ w.code = w.trim}
NoDef == [cnt |-> 1, code |-> IDENT, u |-> <<>>, vs |-> <<>>]
DefOf(xs, w) ==      \* xs: the attribute in each of the objects
    LET has == SelectSeq(xs, LAMBDA x : x.vs # <<>>) IN
    IF has = <<>> \/ w.tm = "plain" THEN NoDef
    ELSE LET x == has[1] IN
         CASE w.tm = "code" -> [NoDef EXCEPT !.code = x.vs[1].c]
           [] w.tm = "shape" -> [cnt |-> Len(x.vs), code |-> x.vs[1].c, u |-> x.u, vs |-> <<>>]
           [] OTHER -> [cnt |-> Len(x.vs), code |-> x.vs[1].c, u |-> x.u, vs |-> x.vs]
BytesOf(vs) == Join([j \in 1..Len(vs) |-> vs[j].b])
TmplWay(lc, d) ==
    << 48 + (IF d.cnt # 1 THEN 8 ELSE 0) + (IF d.code # IDENT THEN 4 ELSE 0) + (IF d.u # <<>> THEN 2 ELSE 0)
       + (IF d.vs # <<>> THEN 1 ELSE 0) >> \o EncIdent(lc)
    \o (IF d.cnt # 1 THEN EncUvariInt(d.cnt) ELSE <<>>) \o (IF d.code # IDENT THEN <<d.code>> ELSE <<>>)
    \o (IF d.u # <<>> THEN EncIdent(d.u) ELSE <<>>) \o BytesOf(d.vs)
AttrWay(x, d, w) ==
    IF x.vs = <<>> THEN <<0>>
    ELSE LET cnt == w.cnt \/ Len(x.vs) # d.cnt
             code == w.code \/ x.vs[1].c # d.code
             u == w.u \/ x.u # d.u
             v == x.vs # d.vs
         IN << 32 + (IF cnt THEN 8 ELSE 0) + (IF code THEN 4 ELSE 0) + (IF u THEN 2 ELSE 0) + (IF v THEN 1 ELSE 0) >>
            \o (IF cnt THEN EncUvariInt(Len(x.vs)) ELSE <<>>) \o (IF code THEN <<x.vs[1].c>> ELSE <<>>)
            \o (IF u THEN EncIdent(x.u) ELSE <<>>) \o (IF v THEN BytesOf(x.vs) ELSE <<>>)
\* attributes up to the last one which has to be said
Said(xs, ds, w) ==
    IF ~w.trim THEN Len(xs)
    ELSE LET js == {j \in 1..Len(xs) : xs[j].vs # <<>> \/ ds[j].vs # <<>>}
         IN IF js = {} THEN 0 ELSE CHOOSE j \in js : \A k \in js : k <= j
ValsOf(S, ids) ==
    LET at == SchemaOf[S.ob[ids[1]].ty].at
    IN [k \in 1..Len(ids) |-> [j \in 1..Len(at) |-> ValuesOf(S, WriteEv, Arrays, ids[k], at[j].l)]]
SetWay(S, ids, vals, w) ==
    LET ty == S.ob[ids[1]].ty
        at == SchemaOf[ty].at
        ds == TLCEval([j \in 1..Len(at) |-> DefOf([k \in 1..Len(ids) |-> vals[k][j]], w)])
        ob(k) == <<112>> \o EncObnameOf(S, ids[k])
                 \o Join([j \in 1..Said(vals[k], ds, w) |-> AttrWay(vals[k][j], ds[j], w)])
    IN SetBytes(TypeCodes[ty], S.ob[ids[1]].st)
       \o Join([j \in 1..Len(at) |-> TmplWay(LabelCodes[at[j].l], ds[j])])
       \o Join([k \in 1..Len(ids) |-> ob(k)])

\* an object's attributes as a reader gets them
ContentOf(b) ==
    LET d == ParseEflr(b)
    IN [ok |-> d.ok, t |-> d.ty,
        objs |-> [k \in 1..Len(d.objs) |->
                    [n |-> d.objs[k].n, c |-> d.objs[k].cp, o |-> d.objs[k].o,
                     at |-> [j \in 1..Len(d.tmpl) |-> LET a == AttrOf(d, d.objs[k], d.tmpl[j].l)
                                                       IN [l |-> d.tmpl[j].l, pres |-> a.pres, code |-> a.code, u |-> a.u, vals |-> a.vals]]]]]

SpecOf(pats) == ApplyAll(NewSpec(0), Calls(pats))
Ids(pats) == [i \in 1..Len(pats) |-> FirstOb + i - 1]
SameContent ==
    patNow # <<>> =>
        LET S == TLCEval(SpecOf(patNow))
            refs == TLCEval(RefRecords(S, WriteEv, Arrays))
            body == TLCEval(SetBody(S, WriteEv, Arrays, Ids(patNow)))
            ref == TLCEval(ContentOf(body))
            pos == TLCEval(CHOOSE i \in 1..Len(refs) : refs[i].e = 1 /\ refs[i].body = body)
            vals == TLCEval(ValsOf(S, Ids(patNow)))
        IN /\ ref.ok /\ Len(ref.objs) = Len(patNow)
           /\ RecordErrs(S, WriteEv, Arrays, refs) = <<>>
           /\ \A w \in Ways : LET b == TLCEval(SetWay(S, Ids(patNow), vals, w)) IN
                 /\ ContentOf(b) = ref
                 /\ (w.cnt = w.u /\ w.code = w.trim /\ w.trim # w.u => RecordErrs(S, WriteEv, Arrays, [refs EXCEPT ![pos].body = b]) = <<>>)

---------------------------------------------------------------------------
(* The physical form                                                       *)

\* the sizes of the segments cycle through a sequence; up to per segments in one visible record; extra pad bytes
Seg(r, part, pred, succ, extra) ==
    LET short == MaxI(0, 12 - Len(part))
        pad == short + ((Len(part) + short) % 2) + extra
        n == 4 + Len(part) + pad
    IN U16Of(n) \o << r.e * 128 + pred * 64 + succ * 32 + (IF pad > 0 THEN 1 ELSE 0), r.ty >> \o part \o [i \in 1..pad |-> pad]
RECURSIVE SegsOf(_, _, _, _)
SegsOf(r, i, size, extra) ==
    LET last == i + size > Len(r.body)
    IN << Seg(r, SubSeq(r.body, i, MinI(i + size - 1, Len(r.body))), IF i = 1 THEN 0 ELSE 1, IF last THEN 0 ELSE 1, extra) >>
       \o (IF last THEN <<>> ELSE SegsOf(r, i + size, size, extra))
RECURSIVE Visible(_, _, _)
Visible(segs, per, mrl) ==
    IF segs = <<>> THEN <<>>
    ELSE LET fits == {k \in 1..MinI(per, Len(segs)) : 4 + Len(Join(SubSeq(segs, 1, k))) <= mrl}
             k == CHOOSE k \in fits : \A l \in fits : l <= k
             body == Join(SubSeq(segs, 1, k))
         IN U16Of(4 + Len(body)) \o <<255, 1>> \o body \o Visible(SubSeq(segs, k + 1, Len(segs)), per, mrl)
FileWay(S, recs, size, per, extra) ==
    Label(S.sul) \o Visible(Join([i \in 1..Len(recs) |-> SegsOf(recs[i], 1, size, extra)]), per, S.sul.mrl)

StartRecs == RefRecords(StartSpec, WriteEv, Arrays)
Physical ==
    patNow = <<>> =>
        \A size \in Sizes, per \in {1, 2, 5}, extra \in {0, 2, 20} :
            LET pf == ParseFile(FileWay(StartSpec, StartRecs, size, per, extra), StartSpec.sul)
            IN /\ pf.errs = <<>>
               /\ [i \in 1..Len(pf.recs) |-> Rec(pf.recs[i].e, pf.recs[i].ty, pf.recs[i].body)] = StartRecs

\* the data records: any interleaving which keeps the order of each frame and of the no-format data
RECURSIVE Shuffles(_, _)
Shuffles(a, b) ==
    IF a = <<>> THEN {b} ELSE IF b = <<>> THEN {a}
    ELSE {<<a[1]>> \o s : s \in Shuffles(Tail(a), b)} \cup {<<b[1]>> \o s : s \in Shuffles(a, Tail(b))}
Interleaved ==
    patNow = <<>> =>
        LET n == Len(SelectSeq(StartRecs, LAMBDA r : r.e = 1))
            head == SubSeq(StartRecs, 1, n)
            fa == SubSeq(StartRecs, n + 1, n + 3)
            fb == SubSeq(StartRecs, n + 4, n + 5)
            nf == SubSeq(StartRecs, n + 6, Len(StartRecs))
        IN \A s \in Shuffles(fa, fb) : \A t \in Shuffles(s, nf) :
              RecordErrs(StartSpec, WriteEv, Arrays, head \o t) = <<>>
\* but not an interleaving which changes the order of the rows of a frame or of the no-format data
Ordered ==
    patNow = <<>> =>
        LET n == Len(SelectSeq(StartRecs, LAMBDA r : r.e = 1))
            swap(i, j) == [StartRecs EXCEPT ![i] = StartRecs[j], ![j] = StartRecs[i]]
        IN \A i \in {n + 1, n + 2, n + 4, n + 6, n + 7} : RecordErrs(StartSpec, WriteEv, Arrays, swap(i, i + 1)) # <<>>
Inv == SameContent /\ Physical /\ Interleaved /\ Ordered
=============================================================================
