------------------------------- MODULE MCodec -------------------------------
(***************************************************************************)
(* The representation codes, each over a grid of its boundaries: integers  *)
(* around every power of two, floating-point numbers with every special    *)
(* exponent and fraction, texts around every length, date-times around     *)
(* every rollover, references with origin numbers of every length.         *)
(*                                                                         *)
(* The exact encoder of Conform (UnitEnc) is checked against the decoder   *)
(* of Codes (RoundTrip), against ranges stated as in the standard          *)
(* (Represents), against round to nearest, ties to even, stated by         *)
(* midpoints (Nearest), and for order (OrderSpec).  The grid is given to   *)
(* the library's encoder.                                                  *)
(***************************************************************************)
EXTENDS MBase, Encode
CONSTANTS Dense, Chunk

VARIABLES codeNow, viaNow, gridPos, valNow, encNow, histNow
vars == <<codeNow, viaNow, gridPos, valNow, encNow, histNow>>
View == <<codeNow, viaNow, gridPos>>

Zeros(n) == [i \in 1..n |-> 0]
Ones(n) == [i \in 1..n |-> 1]
BytesOf(bits) == IF bits = <<>> THEN <<>> ELSE BitsToBytes(Zeros((8 - (Len(bits) % 8)) % 8) \o bits)
IntOf(neg, bits, pt) == [t |-> "int", n |-> neg, m |-> BytesOf(bits), pt |-> pt, dec |-> <<>>]
NpInt(neg, bits, dt) == [t |-> "int", n |-> neg, m |-> BytesOf(bits), pt |-> "np", dec |-> <<>>, py |-> [np |-> dt]]

\* 2^n - 1, 2^n, 2^n + 1, 3 * 2^(n-1)
Around(n) == << Ones(n), <<1>> \o Zeros(n), IF n = 0 THEN <<1, 0>> ELSE <<1>> \o Zeros(n - 1) \o <<1>> >>
             \o (IF n > 1 THEN << <<1, 1>> \o Zeros(n - 1) >> ELSE <<>>)
Powers == IF Dense THEN [i \in 1..71 |-> i - 1] \o <<100, 127, 128, 1023, 1024, 1100>>
          ELSE <<0, 1, 6, 7, 8, 9, 13, 14, 15, 16, 17, 23, 24, 29, 30, 31, 32, 33, 52, 53, 62, 63, 64, 65, 127, 128, 1023, 1024>>
SeqFlat(ss) == FoldLeft(LAMBDA a, x : a \o x, <<>>, ss)
Magnitudes == SeqFlat([i \in 1..Len(Powers) |-> Around(Powers[i])])
Integers64 == SelectSeq(Magnitudes, LAMBDA b : Len(b) <= 63)
Integers32 == SelectSeq(Magnitudes, LAMBDA b : Len(b) <= 31)
PyInts == [i \in 1..(2 * Len(Magnitudes)) |-> IntOf(i % 2, Magnitudes[(i + 1) \div 2], "int")]
NpInts == [i \in 1..(2 * Len(Integers64)) |-> NpInt(i % 2, Integers64[(i + 1) \div 2], "int64")]
          \o [i \in 1..(2 * Len(Integers32)) |-> NpInt(i % 2, Integers32[(i + 1) \div 2], "int32")]
          \o [i \in 1..Len(Integers32) |-> NpInt(0, Integers32[i], "uint32")]

FltOf(s, ex, frac) == Flt(BitsToBytes(<<s>> \o ToBits(FromInt(ex), 11) \o frac))
Exponents == IF Dense
    THEN <<0, 1, 2, 53, 870, 871, 872, 873, 874, 885, 894, 895, 896, 897, 898, 1000, 1021, 1022, 1023, 1024, 1025, 1030, 1045,
           1046, 1047, 1048, 1053, 1054, 1055, 1074, 1075, 1076, 1086, 1087, 1149, 1150, 1151, 1152, 2045, 2046, 2047>>
    ELSE <<0, 1, 872, 873, 874, 895, 896, 897, 1022, 1023, 1030, 1046, 1047, 1054, 1075, 1149, 1150, 1151, 2046, 2047>>
\* fractions: of a single; the last bit of a single (23rd) with what follows below, at and above one half
OneAt(i) == [Zeros(52) EXCEPT ![i] = 1]
Fractions == << Zeros(52), Ones(52), OneAt(52), OneAt(1), OneAt(23), OneAt(24), [OneAt(24) EXCEPT ![52] = 1], [OneAt(23) EXCEPT ![24] = 1],
                [OneAt(23) EXCEPT ![25] = 1], Ones(23) \o Zeros(29), Ones(24) \o Zeros(28), Ones(23) \o <<0>> \o Ones(28),
                [OneAt(23) EXCEPT ![24] = 1, ![52] = 1], OneAt(25) >>
Floats == SeqFlat([i \in 1..Len(Exponents) |-> [j \in 1..(2 * Len(Fractions)) |->
              FltOf(j % 2, Exponents[i], Fractions[(j + 1) \div 2])]])
NpFloats == [i \in 1..Len(Floats) |-> [t |-> "flt", b |-> Floats[i].b, pt |-> "np", py |-> [np |-> "float64"]]]

Words(ns) == [i \in 1..Len(ns) |-> Txt([j \in 1..ns[i] |-> 33 + ((j * 7) % 94)])]
Lengths == <<0, 1, 2, 126, 127, 128, 129, 254, 255, 256, 257, 300, 512>>
LongLengths == <<16382, 16383, 16384, 16385>>
Odd == <<0, 9, 10, 32, 126, 127, 128, 160, 178, 255, 256, 913, 8364>>
OddTexts == SeqFlat([i \in 1..Len(Odd) |-> << Txt(<<Odd[i]>>), Txt(<<65, Odd[i], 66>>), Txt(Zeros(0) \o [j \in 1..254 |-> 77] \o <<Odd[i]>>) >>])

DtOf(y, mo, d, h, mi, s, us, off) ==
    [t |-> "dt", y |-> y, mo |-> mo, d |-> d, h |-> h, mi |-> mi, s |-> s, us |-> us, off |-> off,
     py |-> [tz |-> IF off = 0 THEN "utc" ELSE "fixed"]]
Years == <<1901, 1969, 1970, 1999, 2000, 2023, 2024, 2027, 2028, 2100, 2154, 1800, 1890, 2160, 2500>>
Days == << <<1, 1>>, <<2, 28>>, <<3, 1>>, <<12, 31>> >>
Times == << <<0, 0, 0, 0>>, <<23, 59, 59, 999999>>, <<12, 30, 0, 999>>, <<0, 0, 59, 1000>>, <<11, 59, 59, 999000>> >>
Offsets == <<0, 3600, -3600, 19800, -34200, 43200, -43200>>
\* every year with every day; times and offsets in turn (each of them with each other when Dense)
NTurns == IF Dense THEN 35 ELSE 4
Dates == SeqFlat([i \in 1..(Len(Years) * Len(Days)) |-> [j \in 1..NTurns |->
             LET y == Years[((i - 1) \div Len(Days)) + 1]
                 d == Days[((i - 1) % Len(Days)) + 1]
                 n == IF Dense THEN j ELSE i * NTurns + j
                 t == Times[(n % 5) + 1]
             IN DtOf(y, d[1], d[2], t[1], t[2], t[3], t[4], Offsets[(n % 7) + 1])]])
         \o [i \in 1..Len(Years) |-> IF LeapYear(Years[i]) THEN DtOf(Years[i], 2, 29, 23, 59, 59, 500000, Offsets[(i % 7) + 1])
                                     ELSE DtOf(Years[i], 6, 30, 0, 0, 0, 1, Offsets[(i % 7) + 1])]

Strange == << Txt(<<53>>), Txt(<<>>), None, [t |-> "bool", w |-> TRUE], [t |-> "bool", w |-> FALSE] >>
SomeFloats == [i \in 1..5 |-> <<FltOf(0, 1023, Zeros(52)), FltOf(1, 1023, Zeros(52)), FltOf(0, 1022, Zeros(52)), FltOf(0, 0, Zeros(52)),
                                FltOf(0, 1030, Ones(52))>>[i]]
IntCodes == {SSHORT, SNORM, SLONG, USHORT, UNORM, ULONG, UVARI, STATUS}

\* objects to refer to: origin references and names of every length
OriginNumbers == <<0, 1, 127, 128, 255, 256, 16383, 16384, 65536, 1073741823>>
NameLengths == <<1, 127, 128, 255>>
Base == << FileEv(8192), LfEv(HEAD) >>
        \o [i \in 1..Len(OriginNumbers) |-> [AddEv(1, i, "ORIGIN", <<79, 48 + i>>, << Attr("FILE-SET-NUMBER", Whole(7)),
                                                     Attr("CREATION-TIME", Dt(2020)) >>) EXCEPT !.org = Whole(OriginNumbers[i])]]
        \o [i \in 1..12 |-> [AddEv(1, 10 + i, <<"ZONE", "CALIBRATION-COEFFICIENT", "WELL-REFERENCE">>[((i - 1) \div 4) + 1],
                                   [j \in 1..NameLengths[((i - 1) % 4) + 1] |-> 65], <<>>)
                             EXCEPT !.org = Whole(OriginNumbers[((i * 3) % 10) + 1])]]
        \o [i \in 1..3 |-> [AddEv(1, 22 + i, "AXIS", NmA, <<>>) EXCEPT !.org = Whole(1)]]
BaseSpec == TLCEval(ApplyAll(NewSpec(0), Base))

GridOf(rc) ==
    CASE rc \in IntCodes \ {UVARI, STATUS} -> PyInts \o NpInts \o SomeFloats \o Strange
      [] rc = UVARI -> PyInts \o Strange
      [] rc = STATUS -> SubSeq(PyInts, 1, 30) \o SubSeq(NpInts, 1, 30) \o SomeFloats \o Strange
      [] rc = FSINGL -> Floats \o PyInts \o Strange
      [] rc = FDOUBL -> Floats \o NpFloats \o PyInts \o Strange
      [] rc = IDENT -> Words(Lengths) \o OddTexts
      [] rc = ASCII -> Words(Lengths \o LongLengths) \o OddTexts
      [] rc = DTIME -> Dates \o <<Txt(<<53>>), Whole(5), None>>
      [] OTHER -> [i \in 1..25 |-> Ref(i)] \o <<Txt(<<53>>), Whole(5), None>>
CodesHere == IntCodes \cup {FSINGL, FDOUBL, IDENT, ASCII, DTIME, OBNAME, OBJREF}
Direct == {FSINGL, FDOUBL} \cup (IntCodes \ {UVARI, STATUS})
Grid == [rc \in CodesHere |-> TLCEval(GridOf(rc))]
Grids == TLCEval(Grid)

BaseFor(rc) == IF rc \in {OBNAME, OBJREF} THEN Base ELSE << FileEv(8192), LfEv(HEAD) >>
SpecFor(rc) == IF rc \in {OBNAME, OBJREF} THEN BaseSpec ELSE NewSpec(0)

EncOf(rc, v) == UnitEnc(SpecFor(rc), rc, v)
Init == /\ codeNow \in CodesHere /\ viaNow \in {"struct", "convert"} /\ (viaNow = "convert" => codeNow \in Direct)
        /\ gridPos = 1 /\ valNow = Grids[codeNow][1] /\ encNow = EncOf(codeNow, valNow) /\ histNow = <<>>
        /\ EmitBase(ToString(codeNow), BaseFor(codeNow)) /\ EmitArrays(<<>>)
UnitEv == [op |-> "unit", rc |-> codeNow, v |-> valNow, via |-> viaNow]
\* gridPos = length of the grid + 1: all done
Next == /\ gridPos <= Len(Grids[codeNow]) /\ gridPos' = gridPos + 1 /\ UNCHANGED <<codeNow, viaNow>>
        /\ valNow' = IF gridPos' <= Len(Grids[codeNow]) THEN Grids[codeNow][gridPos'] ELSE valNow
        /\ encNow' = EncOf(codeNow, valNow')
        /\ LET h == Append(histNow, UnitEv) IN
           IF Len(h) = Chunk \/ gridPos' > Len(Grids[codeNow])
           THEN histNow' = <<>> /\ Emit(ToString(codeNow), h)
           ELSE histNow' = h
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
Enc == encNow
Exact == Enc.must \in {"enc", "may"}

\* what is encoded decodes, all of it, to the value; to nothing shorter
RoundTrip ==
    Exact => LET d == Decode(codeNow, Enc.enc, 1, Len(Enc.enc)) IN
             IF codeNow = UVARI /\ valNow.t = "flt" THEN TRUE
             ELSE /\ d.ok /\ d.p = Len(Enc.enc) + 1
                  /\ CodeSize[codeNow] > 0 => Len(Enc.enc) = CodeSize[codeNow]
                  /\ ~Decode(codeNow, Enc.enc, 1, Len(Enc.enc) - 1).ok
                  /\ CASE codeNow \in IntCodes -> NumEq(d.v, ValNum(valNow))
                       [] codeNow \in {FSINGL, FDOUBL} -> (Enc.must = "enc" => NumCmp(d.v, ValNum(valNow)) = 0)
                       [] codeNow \in {IDENT, ASCII} -> d.v.c = valNow.c
                       [] codeNow = OBNAME -> LET id == Ident(BaseSpec, valNow.o) IN d.v.o = id.o /\ d.v.cp = id.c /\ d.v.n = id.n
                       [] OTHER -> FALSE

Pow(n) == MkNum(0, <<1>>, n)
Neg(x) == IF IsZero(x) THEN x ELSE [x EXCEPT !.s = 1 - x.s]
\* least value and the first one above the greatest
Low(rc) == CASE rc = SSHORT -> Neg(Pow(7)) [] rc = SNORM -> Neg(Pow(15)) [] rc = SLONG -> Neg(Pow(31)) [] OTHER -> NumZero
Above(rc) == CASE rc \in {SSHORT} -> Pow(7) [] rc = USHORT -> Pow(8) [] rc = SNORM -> Pow(15) [] rc = UNORM -> Pow(16)
               [] rc = SLONG -> Pow(31) [] rc = ULONG -> Pow(32) [] rc = UVARI -> Pow(30) [] OTHER -> Pow(1)
Represents ==
    codeNow \in IntCodes =>
        IF ~IsNumVal(valNow) THEN Enc.must = "raise"
        ELSE LET x == ValNum(valNow)
                 within == x.k = "num" /\ IsInteger(x) /\ NumCmp(x, Low(codeNow)) >= 0 /\ NumCmp(x, Above(codeNow)) < 0
             IN (Enc.must = "raise") = ~within

\* the shortest form of a UVARI
Shortest ==
    codeNow = UVARI /\ Enc.must = "enc" =>
        LET x == ValNum(valNow) IN
        Len(Enc.enc) = IF NumCmp(x, FromInt(127)) <= 0 THEN 1 ELSE IF NumCmp(x, FromInt(16383)) <= 0 THEN 2 ELSE 4

\* number of a bit pattern with any number of fraction bits
OfBits(bits, ebits, bias) ==
    LET frac == SubSeq(bits, ebits + 2, Len(bits))
        ex == BitsToInt(SubSeq(bits, 2, ebits + 1))
    IN IF ex = 0 THEN MkNum(bits[1], frac, 1 - bias - Len(frac)) ELSE MkNum(bits[1], <<1>> \o frac, ex - bias - Len(frac))
DecBits(bits) == LET l == LastOne(bits, Len(bits)) IN [i \in 1..Len(bits) |-> IF i < l THEN bits[i] ELSE IF i = l THEN 0 ELSE 1]
Nearest ==
    codeNow \in {FSINGL, FDOUBL} /\ IsNumVal(valNow) /\ ValNum(valNow).k = "num" =>
        LET x == [ValNum(valNow) EXCEPT !.s = 0]
            eb == IF codeNow = FSINGL THEN 8 ELSE 11
            bias == IF codeNow = FSINGL THEN 127 ELSE 1023
            n == IF codeNow = FSINGL THEN 32 ELSE 64
            top == <<0>> \o Ones(eb - 1) \o <<0>> \o Ones(n - eb - 1)
            up(b) == OfBits(b \o <<1>>, eb, bias)
            dn(b) == OfBits(DecBits(b) \o <<1>>, eb, bias)
        IN IF Enc.must = "raise" THEN NumCmp(x, up(top)) >= 0
           ELSE LET raw == Bits(Enc.enc)
                    b == [raw EXCEPT ![1] = 0]
                    even == b[n] = 0
                    cu == NumCmp(x, up(b))
                IN /\ (cu < 0 \/ (cu = 0 /\ even))
                   /\ LastOne(b, n) > 0 => LET cd == NumCmp(x, dn(b)) IN cd > 0 \/ (cd = 0 /\ even)
                   /\ ~IsZero(x) => raw[1] = ValNum(valNow).s

\* date-times: the reference writer's encoding is of the same instant, a neighbouring one is not
InUtc == [valNow EXCEPT !.off = 0]
DateTimes ==
    codeNow = DTIME /\ valNow.t = "dt" /\ Enc.must = "dt" /\ valNow.off = 0 =>
        LET b == EncDt(valNow)
            d == Decode(DTIME, b, 1, 8)
            off(i, k) == [b EXCEPT ![i] = IF b[i] + k > 255 \/ b[i] + k < 0 THEN b[i] ELSE b[i] + k]
        IN /\ d.ok /\ d.p = 9 /\ DtEq(valNow, d.v)
           /\ \A i \in 1..8 : \A k \in {-1, 1} :
                 LET e == Decode(DTIME, off(i, k), 1, 8) IN
                 off(i, k) # b /\ e.ok => ~DtEq(valNow, e.v) \/ (i = 8 /\ k = 1 /\ valNow.us % 1000 # 0)

Inv == RoundTrip /\ Represents /\ Shortest /\ Nearest /\ DateTimes

\* equal encodings: equal values; and unsigned encodings are in the order of the values
Ordered ==
    codeNow \in (IntCodes \ {STATUS}) /\ Enc.must = "enc" /\ encNow'.must = "enc" =>
        LET c == NumCmp(ValNum(valNow), ValNum(valNow')) IN
        /\ (c = 0) = (Enc.enc = encNow'.enc)
        /\ codeNow \in {USHORT, UNORM, ULONG, UVARI} =>
              LexCmp(Enc.enc, encNow'.enc, 1) = c
OrderSpec == [][Ordered]_vars
=============================================================================
