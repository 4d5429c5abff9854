------------------------------- MODULE Encode -------------------------------
(***************************************************************************)
(* A reference writer: the records of a file for a specification, write    *)
(* options and arrays, as a function.  Conform says which files are        *)
(* correct; Encode makes one of them.  MOracle and MStruct check that      *)
(* what Encode makes conforms, and MOracle that a file which differs from  *)
(* it does not (unless the difference is one which the standard allows).   *)
(***************************************************************************)
EXTENDS Conform

NumF64(x) == BitsToBytes(ToIeee(x, 64, 11, 1023, x.s))

\* a value: its representation code and its bytes
EV(c, b) == [c |-> c, b |-> b]
EncDt(v) == << v.y - 1900, 32 + v.mo, v.d, v.h, v.mi, v.s, (v.us \div 1000) \div 256, (v.us \div 1000) % 256 >>
EncTxt(ty, l, d, cs) ==
    IF ty = "CHANNEL" /\ l = "UNITS" THEN EV(UNITS, EncIdent(cs))
    ELSE IF d.k \in {"text", "lntext", "any"} THEN EV(ASCII, EncAscii(cs))
    ELSE EV(IDENT, EncIdent(cs))
EncNumber(d, v) ==
    LET x == ValNum(v) IN
    CASE d.k = "status" -> EV(STATUS, EncInt(STATUS, x))
      [] d.k = "enc" -> EV(USHORT, EncInt(USHORT, x))
      [] d.k \in {"dim", "uvari"} -> EV(UVARI, EncUvariInt(BitsToInt(ToBits(x, 30))))
      [] d.k = "unorm" -> EV(UNORM, EncInt(UNORM, x))
      [] d.k = "int" -> EV(SLONG, EncInt(SLONG, x))
      [] OTHER -> EV(FDOUBL, NumF64(x))
EncValue(S, ty, l, d, v) ==
    CASE v.t = "txt" -> IF d.k \in {"dtime", "dtimef"} THEN EV(DTIME, EncDt(v.dt)) ELSE EncTxt(ty, l, d, v.c)
      [] v.t = "dt" -> EV(DTIME, EncDt(v))
      [] v.t = "ref" -> IF d.k = "oref" THEN EV(OBJREF, EncIdent(TypeCodes[S.ob[v.o].ty]) \o EncObnameOf(S, v.o))
                        ELSE EV(OBNAME, EncObnameOf(S, v.o))
      [] OTHER -> EncNumber(d, v)

\* values of an attribute: a sequence of encodings (empty: absent) and the units
AV(vs, u) == [vs |-> vs, u |-> u]
NoAV == AV(<<>>, <<>>)
Numbers(c, xs) == [i \in 1..Len(xs) |-> EV(c, IF c = UVARI THEN EncUvariInt(xs[i]) ELSE NumF64(FromInt(xs[i])))]
NumAV(x) == AV(<< EV(FDOUBL, NumF64(x)) >>, <<>>)

InFrame(S, c) == \E f \in AllFrames(S) : \E j \in 1..Len(ChannelsOf(S, f)) : ChannelsOf(S, f)[j] = c

DefaultChannel(S, w, arrays, i, l) ==
    LET o == S.ob[i]
        a == DataOf(S, w, i)
        fr == InFrame(S, i) /\ a # 0
        dims == IF arrays[a].dims = <<>> THEN <<1>> ELSE arrays[a].dims
        other == IF l = "DIMENSION" THEN "ELEMENT-LIMIT" ELSE "DIMENSION"
    IN CASE l = "LONG-NAME" -> AV(<< EV(ASCII, EncAscii(o.nm)) >>, <<>>)
         [] l = "REPRESENTATION-CODE" ->
               IF fr THEN AV(<< EV(USHORT, << DtCode(FinalDt(S, i, arrays[a])) >>) >>, <<>>)
               ELSE IF o.cast # "" THEN AV(<< EV(USHORT, << DtCode(o.cast) >>) >>, <<>>) ELSE NoAV
         [] l \in {"DIMENSION", "ELEMENT-LIMIT"} ->
               IF fr THEN AV(Numbers(UVARI, dims), <<>>)
               ELSE IF Present(o, other) THEN AV(Numbers(UVARI, DimInts(GetAt(o, other).v)), <<>>) ELSE NoAV
         [] OTHER -> NoAV

\* numbers of the index channel over the rows written
IndexOf(S, w, arrays, f) ==
    LET c == ChannelsOf(S, f)[1]
        A == arrays[DataOf(S, w, c)]
    IN [i \in 1..NRows(w, A.n) |-> DecDt(A.dt, A.rows[From(w) + i])]

DefaultFrame(S, w, arrays, f, l) ==
    LET o == S.ob[f]
        xs == IndexOf(S, w, arrays, f)
        n == Len(xs)
        ds == Diffs(xs)
        un == Uniformity(ds)
        se == Sense(ds)
    IN IF ~Present(o, "INDEX-TYPE")
       THEN CASE l = "INDEX-MIN" -> NumAV(FromInt(1))
              [] l = "INDEX-MAX" -> NumAV(FromInt(n))
              [] l = "SPACING" -> NumAV(FromInt(1))
              [] OTHER -> NoAV
       ELSE CASE l = "INDEX-MIN" -> NumAV(MinOf(xs))
              [] l = "INDEX-MAX" -> NumAV(MaxOf(xs))
              [] l = "SPACING" -> IF n = 1 THEN NoAV
                                  ELSE IF un = "exact" THEN NumAV(FromScaled(ds[1]))
                                  ELSE IF un = "near" THEN NumAV(FromScaled(SortSeq(ds, LAMBDA a, b : a < b)[(n + 1) \div 2]))
                                  ELSE NoAV
              [] l = "DIRECTION" -> IF n = 1 \/ se = <<>> THEN NoAV ELSE AV(<< EV(IDENT, EncIdent(se)) >>, <<>>)
              [] OTHER -> NoAV

DefaultOf(S, w, arrays, i, l) ==
    LET o == S.ob[i] IN
    CASE o.ty = "CHANNEL" -> DefaultChannel(S, w, arrays, i, l)
      [] o.ty = "FRAME" /\ l \in IndexLabels -> DefaultFrame(S, w, arrays, i, l)
      [] o.ty = "ORIGIN" /\ l = "FIELD-NAME" -> AV(<< EV(ASCII, EncAscii(WILDCAT)) >>, <<>>)
      [] o.ty = "ORIGIN" /\ l = "FILE-SET-NUMBER" ->
            AV(<< EV(UVARI, EncUvariInt(PosIn(Origins(S, o.lf), i))) >>, <<>>)
      [] o.ty \in {"PARAMETER", "COMPUTATION"} /\ l = "DIMENSION" /\ Present(o, "VALUES") ->
            AV(Numbers(UVARI, CHOOSE s \in ShapesOf(o, {"VALUES"}) : TRUE), <<>>)
      [] OTHER -> NoAV

ValuesOf(S, w, arrays, i, l) ==
    LET o == S.ob[i]
        a == GetAt(o, l)
        d == AttrDef(o.ty, l)
    IN IF ~Present(o, l) \/ Flat(a.v) = <<>> THEN DefaultOf(S, w, arrays, i, l)
       ELSE AV([j \in 1..Len(Flat(a.v)) |-> EncValue(S, o.ty, l, d, Flat(a.v)[j])],
               IF a.u.t = "txt" THEN a.u.c ELSE <<>>)

Join(ss) == FoldLeft(LAMBDA a, s : a \o s, <<>>, ss)

\* Attribute component of an object: explicit count, code, units if any, and value
AttrBytes(x) ==
    IF x.vs = <<>> THEN <<0>>
    ELSE << 32 + 8 + 4 + (IF x.u = <<>> THEN 0 ELSE 2) + 1 >> \o EncUvariInt(Len(x.vs)) \o << x.vs[1].c >>
         \o (IF x.u = <<>> THEN <<>> ELSE EncIdent(x.u)) \o Join([j \in 1..Len(x.vs) |-> x.vs[j].b])

TmplBytes(lc) == <<48>> \o EncIdent(lc)

SetBytes(tyc, nm) == (IF nm = <<>> THEN <<240>> ELSE <<248>>) \o EncIdent(tyc) \o (IF nm = <<>> THEN <<>> ELSE EncIdent(nm))

\* one set: objects ids (of one type and set name)
SetBody(S, w, arrays, ids) ==
    LET ty == S.ob[ids[1]].ty
        at == SchemaOf[ty].at
        ob(i) == <<112>> \o EncObnameOf(S, i) \o Join([j \in 1..Len(at) |-> AttrBytes(ValuesOf(S, w, arrays, i, at[j].l))])
    IN SetBytes(TypeCodes[ty], S.ob[ids[1]].st)
       \o Join([j \in 1..Len(at) |-> TmplBytes(LabelCodes[at[j].l])])
       \o Join([j \in 1..Len(ids) |-> ob(ids[j])])

Rec(e, ty, body) == [e |-> e, ty |-> ty, body |-> body]

HeaderBody(S, k) ==
    LET lf == S.lfs[k] IN
    SetBytes(TypeCodes["FILE-HEADER"], <<>>)
    \o <<52>> \o EncIdent(LabelCodes["SEQUENCE-NUMBER"]) \o <<ASCII>> \o <<52>> \o EncIdent(LabelCodes["ID"]) \o <<ASCII>>
    \o <<112>> \o EncUvariInt(OriginRef(S, DefOrigin(S, k))) \o <<0>> \o EncIdent(lf.name)
    \o <<33>> \o EncAscii(PadLeft(lf.seq.dec, 10)) \o <<33>> \o EncAscii(PadRight(lf.id, 65))

\* sets of a logical file in the order of their first objects
SetKeys(S, ids) ==
    FoldLeft(LAMBDA a, i : LET key == <<S.ob[i].ty, S.ob[i].st>>
                           IN IF \E j \in 1..Len(a) : a[j] = key THEN a ELSE Append(a, key), <<>>, ids)

\* one number in another type: floating-point numbers to the nearest, whole numbers towards zero
CastNumber(dt, x) ==
    CASE dt = "float32" -> BitsToBytes(ToIeee(RoundF32(x), 32, 8, 127, x.s))
      [] dt = "float64" -> BitsToBytes(ToIeee(RoundF64(x), 64, 11, 1023, x.s))
      [] OTHER -> EncInt(DtCode(dt), TruncInt(x))
RECURSIVE CastRow(_, _, _)
CastRow(src, dt, bs) ==
    IF src = dt \/ bs = <<>> THEN bs
    ELSE CastNumber(dt, DecDt(src, SubSeq(bs, 1, DtSize(src)))) \o CastRow(src, dt, SubSeq(bs, DtSize(src) + 1, Len(bs)))

RowsBody(S, w, arrays, f, i) ==
    LET chs == ChannelsOf(S, f)
        slot(c) == LET A == arrays[DataOf(S, w, c)] IN CastRow(A.dt, FinalDt(S, c, A), A.rows[From(w) + i])
    IN EncObnameOf(S, f) \o EncUvariInt(i) \o Join([j \in 1..Len(chs) |-> slot(chs[j])])

LfRecords(S, w, arrays, k) ==
    LET lf == S.lfs[k]
        org == Origins(S, k)
        rest == SelectSeq(lf.objs, LAMBDA i : S.ob[i].ty # "ORIGIN")
        sets(ids) == LET ks == SetKeys(S, ids) IN
                     [j \in 1..Len(ks) |->
                         Rec(1, SchemaOf[ks[j][1]].lr,
                             SetBody(S, w, arrays, SelectSeq(ids, LAMBDA i : S.ob[i].ty = ks[j][1] /\ S.ob[i].st = ks[j][2])))]
        nrows(f) == NRows(w, arrays[DataOf(S, w, ChannelsOf(S, f)[1])].n)
        rows(f) == [i \in 1..nrows(f) |-> Rec(0, 0, RowsBody(S, w, arrays, f, i))]
    IN << Rec(1, 0, HeaderBody(S, k)) >> \o sets(org) \o sets(rest)
       \o Join([j \in 1..Len(Frames(S, k)) |-> rows(Frames(S, k)[j])])
       \o [j \in 1..Len(lf.nf) |-> Rec(0, 1, EncObnameOf(S, lf.nf[j].ob) \o lf.nf[j].pay.c)]

RefRecords(S, w, arrays) == Join([k \in 1..Len(S.lfs) |-> LfRecords(S, w, arrays, k)])

---------------------------------------------------------------------------
(* Physical form of a sequence of records: one segment per visible record, *)
(* at most chunk bytes of a body in each.                                  *)

U16Of(n) == << n \div 256, n % 256 >>
Segment(r, part, pred, succ) ==
    LET short == MaxI(0, 12 - Len(part))
        pad == short + ((Len(part) + short) % 2)
        n == 4 + Len(part) + pad
        at == r.e * 128 + pred * 64 + succ * 32 + (IF pad > 0 THEN 1 ELSE 0)
    IN U16Of(n + 4) \o <<255, 1>> \o U16Of(n) \o << at, r.ty >> \o part \o [i \in 1..pad |-> pad]
RECURSIVE Pieces(_, _, _)
Pieces(r, i, chunk) ==
    LET last == i + chunk > Len(r.body)
        part == SubSeq(r.body, i, MinI(i + chunk - 1, Len(r.body)))
    IN Segment(r, part, IF i = 1 THEN 0 ELSE 1, IF last THEN 0 ELSE 1)
       \o (IF last THEN <<>> ELSE Pieces(r, i + chunk, chunk))

RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Digits(n \div 10), 48 + (n % 10))
Label(sul) == PadLeft(Digits(sul.seq), 4) \o V100 \o RECORD \o PadLeft(Digits(sul.mrl), 5) \o PadRight(sul.id, 60)

RefFile(S, recs) ==
    Label(S.sul) \o Join([i \in 1..Len(recs) |-> Pieces(recs[i], 1, S.sul.mrl - 8)])
=============================================================================
