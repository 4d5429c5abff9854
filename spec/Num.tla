-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Exact binary numbers.  TLC's integers have 32 bits, so a number is kept *)
(* as a record: sign, significant bits (leading and trailing zeros         *)
(* removed) and the exponent of the last bit; value = (-1)^s * b * 2^e.    *)
(* NaN and the infinities have kinds of their own.  Zero has no bits, and  *)
(* its sign is dropped ("decodes to an equal value").                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC

MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a > b THEN a ELSE b

ByteBits(v) ==
    << v \div 128, (v \div 64) % 2, (v \div 32) % 2, (v \div 16) % 2,
       (v \div 8) % 2, (v \div 4) % 2, (v \div 2) % 2, v % 2 >>

\* bits of a sequence of bytes, most significant first
Bits(bs) == FoldLeft(LAMBDA a, x : a \o ByteBits(x), <<>>, bs)

\* value of a short bit sequence (at most 30 bits)
BitsToInt(bits) == FoldLeft(LAMBDA a, x : 2 * a + x, 0, bits)

RECURSIVE FirstOne(_, _)
FirstOne(b, i) == IF i > Len(b) THEN 0 ELSE IF b[i] = 1 THEN i ELSE FirstOne(b, i + 1)
RECURSIVE LastOne(_, _)
LastOne(b, i) == IF i < 1 THEN 0 ELSE IF b[i] = 1 THEN i ELSE LastOne(b, i - 1)

NumZero == [k |-> "num", s |-> 0, b |-> <<>>, e |-> 0]
NumNaN  == [k |-> "nan", s |-> 0, b |-> <<>>, e |-> 0]
NumInf(s) == [k |-> "inf", s |-> s, b |-> <<>>, e |-> 0]

MkNum(s, bits, e) ==
    LET f == FirstOne(bits, 1) IN
    IF f = 0 THEN NumZero
    ELSE LET l == LastOne(bits, Len(bits)) IN
         [k |-> "num", s |-> s, b |-> SubSeq(bits, f, l), e |-> e + (Len(bits) - l)]

FromMag(neg, bytes) == MkNum(neg, Bits(bytes), 0)
FromUInt(bytes) == FromMag(0, bytes)

\* two's complement
FromSInt(bytes) ==
    LET bits == Bits(bytes) IN
    IF Len(bits) = 0 \/ bits[1] = 0 THEN MkNum(0, bits, 0)
    ELSE LET l == TLCEval(LastOne(bits, Len(bits)))
         IN MkNum(1, TLCEval([i \in 1..Len(bits) |-> IF i < l THEN 1 - bits[i] ELSE bits[i]]), 0)

FromIeee(bytes, ebits, bias) ==
    LET bits == Bits(bytes)
        s == bits[1]
        ex == BitsToInt(SubSeq(bits, 2, ebits + 1))
        frac == SubSeq(bits, ebits + 2, Len(bits))
        allones == \A i \in 2..(ebits + 1) : bits[i] = 1
    IN IF allones THEN (IF FirstOne(frac, 1) = 0 THEN NumInf(s) ELSE NumNaN)
       ELSE IF ex = 0 THEN MkNum(s, frac, 1 - bias - Len(frac))
       ELSE MkNum(s, <<1>> \o frac, ex - bias - Len(frac))

FromF32(bytes) == FromIeee(bytes, 8, 127)
FromF64(bytes) == FromIeee(bytes, 11, 1023)

FromInt(n) ==
    LET a == IF n < 0 THEN -n ELSE n
    IN FromMag(IF n < 0 THEN 1 ELSE 0,
               << (a \div 16777216) % 256, (a \div 65536) % 256, (a \div 256) % 256, a % 256 >>)

IsFin(x) == x.k = "num"
IsZero(x) == x.k = "num" /\ Len(x.b) = 0
\* position just above the most significant bit
Msb(x) == Len(x.b) + x.e
IsInteger(x) == x.k = "num" /\ (Len(x.b) = 0 \/ x.e >= 0)

RECURSIVE LexCmp(_, _, _)
LexCmp(a, b, i) ==
    IF i > Len(a) /\ i > Len(b) THEN 0
    ELSE LET x == IF i > Len(a) THEN 0 ELSE a[i]
             y == IF i > Len(b) THEN 0 ELSE b[i]
         IN IF x < y THEN -1 ELSE IF x > y THEN 1 ELSE LexCmp(a, b, i + 1)

MagCmp(x, y) ==
    IF IsZero(x) /\ IsZero(y) THEN 0
    ELSE IF IsZero(x) THEN -1 ELSE IF IsZero(y) THEN 1
    ELSE IF Msb(x) < Msb(y) THEN -1 ELSE IF Msb(x) > Msb(y) THEN 1
    ELSE LexCmp(x.b, y.b, 1)

\* comparison of two numbers neither of which is NaN
NumCmp(x, y) ==
    LET key(v) == IF v.k = "inf" THEN (IF v.s = 1 THEN -2 ELSE 2)
                  ELSE IF IsZero(v) THEN 0 ELSE IF v.s = 1 THEN -1 ELSE 1
        kx == key(x)
        ky == key(y)
    IN IF kx < ky THEN -1 ELSE IF kx > ky THEN 1
       ELSE IF kx \in {-2, 0, 2} THEN 0
       ELSE IF kx = 1 THEN MagCmp(x, y) ELSE MagCmp(y, x)

\* add one to a bit sequence (the result may be one bit longer)
RECURSIVE IncBits(_, _)
IncBits(b, i) ==
    IF i = 0 THEN <<1>> \o b
    ELSE IF b[i] = 0 THEN [b EXCEPT ![i] = 1]
    ELSE IncBits([b EXCEPT ![i] = 0], i - 1)

\* round to nearest, ties to even, into a binary format with p significant bits, smallest exponent of the
\* last bit emin, and msb position at most emax
RoundRNE(x, p, emin, emax) ==
    IF x.k # "num" \/ IsZero(x) THEN x
    ELSE LET q == MaxI(Msb(x) - p, emin)
             k == q - x.e
             r == IF k <= 0 THEN x
                  ELSE LET n == Len(x.b) - k                  \* number of bits kept; may be <= 0
                           kept == IF n > 0 THEN SubSeq(x.b, 1, n) ELSE <<0>>
                           half == IF n < 0 THEN 0 ELSE x.b[n + 1]
                           more == IF n < 0 THEN FALSE ELSE \E i \in (n + 2)..Len(x.b) : x.b[i] = 1
                           up == half = 1 /\ (more \/ kept[Len(kept)] = 1)
                       IN MkNum(x.s, IF up THEN IncBits(kept, Len(kept)) ELSE kept, q)
         IN IF ~IsZero(r) /\ Msb(r) > emax THEN NumInf(x.s) ELSE r

RoundF32(x) == RoundRNE(x, 24, -149, 128)
RoundF64(x) == RoundRNE(x, 53, -1074, 1024)

\* towards zero
TruncInt(x) ==
    IF x.k # "num" \/ IsInteger(x) THEN x
    ELSE IF Msb(x) <= 0 THEN NumZero
    ELSE MkNum(x.s, SubSeq(x.b, 1, Msb(x)), 0)

\* does an integer fit into the given number of bits?
FitsUnsigned(x, n) == IsInteger(x) /\ (IsZero(x) \/ (x.s = 0 /\ Msb(x) <= n))
FitsSigned(x, n) ==
    IsInteger(x) /\ (IsZero(x) \/ Msb(x) <= n - 1 \/ (x.s = 1 /\ Msb(x) = n /\ Len(x.b) = 1))

\* a finite number times 2^k as a TLC integer, if that is an integer below 2^29 in magnitude
Scalable(x, k) == x.k = "num" /\ (IsZero(x) \/ (x.e + k >= 0 /\ Msb(x) + k <= 29))
Scaled(x, k) ==
    IF IsZero(x) THEN 0
    ELSE LET v == BitsToInt(x.b \o [i \in 1..(x.e + k) |-> 0]) IN IF x.s = 1 THEN -v ELSE v

\* the n bytes of a sequence of 8n bits
BitsToBytes(bits) == TLCEval([i \in 1..(Len(bits) \div 8) |-> BitsToInt(SubSeq(bits, 8 * i - 7, 8 * i))])

\* integer part as exactly n bits (it has to fit)
ToBits(x, n) ==
    IF IsZero(x) THEN [i \in 1..n |-> 0]
    ELSE LET all == TLCEval(x.b \o [i \in 1..x.e |-> 0])
         IN TLCEval([i \in 1..(n - Len(all)) |-> 0] \o all)

\* two's complement bits
ToTwos(x, n) ==
    IF IsZero(x) \/ x.s = 0 THEN ToBits(x, n)
    ELSE LET m == TLCEval(ToBits(x, n))
             l == TLCEval(LastOne(m, n))
         IN TLCEval([i \in 1..n |-> IF i < l THEN 1 - m[i] ELSE m[i]])

\* IEEE encoding of a number which the format can represent exactly; sign of zero given separately
ToIeee(x, n, ebits, bias, zsign) ==
    LET fl == n - 1 - ebits IN
    IF x.k = "inf" THEN <<x.s>> \o [i \in 1..ebits |-> 1] \o [i \in 1..fl |-> 0]
    ELSE IF IsZero(x) THEN <<zsign>> \o [i \in 1..(n - 1) |-> 0]
    ELSE LET ex == Msb(x) - 1 + bias IN
         IF ex > 0
         THEN LET f == SubSeq(x.b, 2, Len(x.b))
              IN <<x.s>> \o ToBits(FromInt(ex), ebits) \o f \o [i \in 1..(fl - Len(f)) |-> 0]
         ELSE LET m == ToBits([x EXCEPT !.s = 0, !.e = x.e - (1 - bias - fl)], fl)
              IN <<x.s>> \o [i \in 1..ebits |-> 0] \o m

=============================================================================
