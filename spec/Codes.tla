------------------------------- MODULE Codes -------------------------------
(***************************************************************************)
(* RP66 v1 representation codes: sizes, decoding, and the exact encoding   *)
(* of a value.  Every decoder is total: out-of-bounds or malformed input   *)
(* gives ok = FALSE and a reason.                                          *)
(***************************************************************************)
EXTENDS Num

FSINGL == 2
FDOUBL == 7
SSHORT == 12
SNORM  == 13
SLONG  == 14
USHORT == 15
UNORM  == 16
ULONG  == 17
UVARI  == 18
IDENT  == 19
ASCII  == 20
DTIME  == 21
OBNAME == 23
OBJREF == 24
STATUS == 26
UNITS  == 27

CodeSize == << 2, 4, 8, 12, 4, 4, 8, 16, 24, 8, 16, 1, 2, 4, 1, 2, 4, 0, 0, 0, 8, 0, 0, 0, 0, 1, 0 >>
NumericCodes == (1..18) \cup {STATUS}
TextCodes == {IDENT, ASCII, UNITS}

Slice(b, p, n) == SubSeq(b, p, p + n - 1)

CharTable ==
    << " ", "!", "\"", "#", "$", "%", "&", "'", "(", ")", "*", "+", ",", "-", ".", "/",
       "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", ":", ";", "<", "=", ">", "?",
       "@", "A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O",
       "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z", "[", "\\", "]", "^", "_",
       "`", "a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o",
       "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z", "{", "|", "}", "~" >>

CharOf(c) == IF c >= 32 /\ c <= 126 THEN CharTable[c - 31] ELSE "<" \o ToString(c) \o ">"
\* character codes as a TLA+ string; injective (non-printable codes are bracketed and so is '<')
Str(cs) == FoldLeft(LAMBDA a, c : a \o (IF c = 60 THEN "<60>" ELSE CharOf(c)), "", cs)

NoVal == [k |-> "none"]
Bad(why) == [ok |-> FALSE, v |-> NoVal, p |-> 0, why |-> why]
Good(v, p) == [ok |-> TRUE, v |-> v, p |-> p, why |-> ""]

\* UVARI: v is a TLC integer (30 bits at most); short says if the shortest form was used
DecUvari(b, p, end) ==
    IF p > end THEN Bad("uvari-out-of-bounds")
    ELSE IF b[p] < 128 THEN Good([k |-> "uv", i |-> b[p], short |-> TRUE], p + 1)
    ELSE IF b[p] < 192
         THEN IF p + 1 > end THEN Bad("uvari-out-of-bounds")
              ELSE LET x == (b[p] - 128) * 256 + b[p + 1]
                   IN Good([k |-> "uv", i |-> x, short |-> x >= 128], p + 2)
    ELSE IF p + 3 > end THEN Bad("uvari-out-of-bounds")
    ELSE LET x == (b[p] - 192) * 16777216 + b[p + 1] * 65536 + b[p + 2] * 256 + b[p + 3]
         IN Good([k |-> "uv", i |-> x, short |-> x >= 16384], p + 4)

AsciiOnly(cs) == \A i \in 1..Len(cs) : cs[i] <= 127

DecIdent(b, p, end) ==
    IF p > end THEN Bad("ident-out-of-bounds")
    ELSE IF p + b[p] > end THEN Bad("ident-out-of-bounds")
    ELSE LET cs == Slice(b, p + 1, b[p])
         IN IF ~AsciiOnly(cs) THEN Bad("ident-not-ascii")
            ELSE Good([k |-> "txt", c |-> cs], p + 1 + b[p])

DecAscii(b, p, end) ==
    LET u == DecUvari(b, p, end) IN
    IF ~u.ok THEN Bad("ascii-length-out-of-bounds")
    ELSE IF u.v.i > end - u.p + 1 THEN Bad("ascii-out-of-bounds")
    ELSE LET cs == Slice(b, u.p, u.v.i)
         IN IF ~AsciiOnly(cs) THEN Bad("ascii-not-ascii")
            ELSE Good([k |-> "txt", c |-> cs], u.p + u.v.i)

DecObname(b, p, end) ==
    LET o == DecUvari(b, p, end) IN
    IF ~o.ok THEN Bad("obname-origin-out-of-bounds")
    ELSE IF o.p > end THEN Bad("obname-copy-out-of-bounds")
    ELSE LET n == DecIdent(b, o.p + 1, end) IN
         IF ~n.ok THEN Bad("obname-" \o n.why)
         ELSE Good([k |-> "ob", o |-> o.v.i, cp |-> b[o.p], n |-> n.v.c], n.p)

DecObjref(b, p, end) ==
    LET t == DecIdent(b, p, end) IN
    IF ~t.ok THEN Bad("objref-" \o t.why)
    ELSE LET o == DecObname(b, t.p, end) IN
         IF ~o.ok THEN Bad("objref-" \o o.why)
         ELSE Good([k |-> "or", ty |-> t.v.c, o |-> o.v.o, cp |-> o.v.cp, n |-> o.v.n], o.p)

LeapYear(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthDays(y, m) == << 31, IF LeapYear(y) THEN 29 ELSE 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 >>[m]

DecDtime(b, p, end) ==
    IF p + 7 > end THEN Bad("dtime-out-of-bounds")
    ELSE LET y == 1900 + b[p]
             tz == b[p + 1] \div 16
             mo == b[p + 1] % 16
             d == b[p + 2]
             ms == b[p + 6] * 256 + b[p + 7]
         IN IF tz > 2 \/ mo < 1 \/ mo > 12 THEN Bad("dtime-zone-or-month")
            ELSE IF d < 1 \/ d > MonthDays(y, mo) THEN Bad("dtime-day")
            ELSE IF b[p + 3] > 23 \/ b[p + 4] > 59 \/ b[p + 5] > 59 \/ ms > 999 THEN Bad("dtime-time")
            ELSE Good([k |-> "dt", tz |-> tz, y |-> y, mo |-> mo, d |-> d, h |-> b[p + 3], mi |-> b[p + 4],
                       s |-> b[p + 5], ms |-> ms], p + 8)

\* decode one value at position p; end is the last valid position
Decode(code, b, p, end) ==
    IF code \notin 1..27 THEN Bad("undefined-representation-code")
    ELSE IF CodeSize[code] > 0 /\ p + CodeSize[code] - 1 > end THEN Bad("value-out-of-bounds")
    ELSE LET n == CodeSize[code]
             bs == Slice(b, p, n)
         IN CASE code = FSINGL -> Good(FromF32(bs), p + n)
              [] code = FDOUBL -> Good(FromF64(bs), p + n)
              [] code \in {SSHORT, SNORM, SLONG} -> Good(FromSInt(bs), p + n)
              [] code \in {USHORT, UNORM, ULONG} -> Good(FromUInt(bs), p + n)
              [] code = STATUS -> IF bs[1] > 1 THEN Bad("status-not-0-or-1") ELSE Good(FromUInt(bs), p + n)
              [] code = UVARI -> LET u == DecUvari(b, p, end)
                                 IN IF ~u.ok THEN u ELSE Good(FromInt(u.v.i), u.p)
              [] code \in {IDENT, UNITS} -> DecIdent(b, p, end)
              [] code = ASCII -> DecAscii(b, p, end)
              [] code = DTIME -> DecDtime(b, p, end)
              [] code = OBNAME -> DecObname(b, p, end)
              [] code = OBJREF -> DecObjref(b, p, end)
              [] code = 25 -> LET o == DecObjref(b, p, end) IN          \* ATTREF: object reference and a label
                              IF ~o.ok THEN o
                              ELSE LET l == DecIdent(b, o.p, end)
                                   IN IF ~l.ok THEN l ELSE Good([k |-> "ar"], l.p)
              [] OTHER -> Good([k |-> "raw", bs |-> bs], p + n)

---------------------------------------------------------------------------
(* Instants: a date-time as (day number, second of the day, millisecond)   *)

DaysBeforeYear(y) == 365 * (y - 1) + ((y - 1) \div 4) - ((y - 1) \div 100) + ((y - 1) \div 400)
DayNumber(y, mo, d) ==
    DaysBeforeYear(y) + FoldLeft(LAMBDA a, m : a + MonthDays(y, m), 0, [m \in 1..(mo - 1) |-> m]) + d

Instant(y, mo, d, h, mi, s, off) ==
    LET sec == h * 3600 + mi * 60 + s - off
        dd == IF sec < 0 THEN -1 - ((-sec - 1) \div 86400) ELSE sec \div 86400
    IN << DayNumber(y, mo, d) + dd, sec - 86400 * dd >>

\* less than one millisecond apart; us is the microsecond of the expected instant
SameInstant(exp, us, obs, ms) ==
    LET dday == obs[1] - exp[1] IN
    /\ dday \in -1..1
    /\ LET dsec == 86400 * dday + obs[2] - exp[2] IN
       /\ dsec \in -1..1
       /\ LET dus == 1000000 * dsec + 1000 * ms - us IN dus > -1000 /\ dus < 1000

---------------------------------------------------------------------------
(* Exact encodings (property C06).  Enc gives the set of admissible byte   *)
(* sequences of a value; the empty set says that the code cannot represent *)
(* the value.                                                              *)

EncUvariInt(i) ==   \* 0 <= i < 2^30
    IF i < 128 THEN <<i>>
    ELSE IF i < 16384 THEN << 128 + (i \div 256), i % 256 >>
    ELSE << 192 + (i \div 16777216), (i \div 65536) % 256, (i \div 256) % 256, i % 256 >>

EncIdent(cs) == <<Len(cs)>> \o cs
EncAscii(cs) == EncUvariInt(Len(cs)) \o cs

=============================================================================
