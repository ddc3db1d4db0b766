-------------------------------- MODULE Num --------------------------------
(* Numbers of up to 64 bits as big-endian byte sequences (TLC integers have
   32 bits), pairs <<hi, lo>> in base 2^24 for offsets, decimal / hexadecimal
   text, and a small deterministic generator for pseudo-random choices. *)
EXTENDS Integers, Sequences, SequencesExt, TLC, Bitwise

LOCAL HexDigits == <<"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f">>
HexDigit(n) == HexDigits[n + 1]
Hex2(b) == HexDigit(b \div 16) \o HexDigit(b % 16)

RECURSIVE Cat(_)
\* concatenation of a sequence of sequences / strings, balanced
Cat(ss) == IF Len(ss) = 0 THEN <<>>
           ELSE IF Len(ss) = 1 THEN ss[1]
           ELSE LET m == Len(ss) \div 2
                IN Cat(SubSeq(ss, 1, m)) \o Cat(SubSeq(ss, m + 1, Len(ss)))
RECURSIVE CatS(_)
CatS(ss) == IF Len(ss) = 0 THEN ""
            ELSE IF Len(ss) = 1 THEN ss[1]
            ELSE LET m == Len(ss) \div 2
                 IN CatS(SubSeq(ss, 1, m)) \o CatS(SubSeq(ss, m + 1, Len(ss)))
\* strings joined by a separator
Join(ss, sep) == CatS([i \in 1..Len(ss) |-> IF i = 1 THEN ss[i] ELSE sep \o ss[i]])

HexOfBytes(bs) == CatS([i \in 1..Len(bs) |-> Hex2(bs[i])])

Zeros(n) == [i \in 1..n |-> 0]
RECURSIVE Strip(_)
Strip(bs) == IF bs # <<>> /\ bs[1] = 0 THEN Strip(Tail(bs)) ELSE bs
\* n as w bytes (0 <= n < 2^31)
RECURSIVE Be(_, _)
Be(n, w) == IF w = 0 THEN <<>> ELSE Append(Be(n \div 256, w - 1), n % 256)
\* widen to w bytes
Widen(bs, w) == Zeros(w - Len(bs)) \o bs
\* small values only (stripped length <= 3, or 4 with a leading byte < 128)
RECURSIVE ToIntR(_)
ToIntR(bs) == IF bs = <<>> THEN 0 ELSE ToIntR(Front(bs)) * 256 + Last(bs)
IsSmall(bs) == LET s == Strip(bs) IN Len(s) <= 3 \/ (Len(s) = 4 /\ s[1] < 128)
ToInt(bs) == ToIntR(Strip(bs))

\* <<quotient bytes, remainder>> for a divisor below 2^23
RECURSIVE DivR(_, _, _, _)
DivR(bs, d, i, acc) ==   \* acc = <<quotient so far, remainder>>
  IF i > Len(bs) THEN acc
  ELSE LET x == acc[2] * 256 + bs[i]
       IN DivR(bs, d, i + 1, <<Append(acc[1], x \div d), x % d>>)
DivMod(bs, d) == DivR(bs, d, 1, << <<>>, 0 >>)
PadInt(n, w) == LET s == ToString(n) IN
  IF w = 2 THEN (IF n < 10 THEN "0" \o s ELSE s)
  ELSE IF w = 4 THEN (IF n < 10 THEN "000" \o s ELSE IF n < 100 THEN "00" \o s
                      ELSE IF n < 1000 THEN "0" \o s ELSE s)
  ELSE s
RECURSIVE Dec(_)
Dec(bs) == LET s == Strip(bs) IN
  IF Len(s) <= 3 THEN ToString(ToIntR(s))
  ELSE LET q == DivMod(s, 10000) IN Dec(q[1]) \o PadInt(q[2], 4)
\* two's complement
IsNeg(bs) == bs # <<>> /\ bs[1] >= 128
RECURSIVE NegR(_, _)
NegR(bs, carry) == IF bs = <<>> THEN <<>>
  ELSE LET x == (255 - Last(bs)) + carry
       IN Append(NegR(Front(bs), x \div 256), x % 256)
Neg(bs) == NegR(bs, 1)
SDec(bs) == IF IsNeg(bs) THEN "-" \o Dec(Neg(bs)) ELSE Dec(bs)
\* fmt "{:#x}"
HexNum(bs) == LET s == Strip(bs) IN
  IF s = <<>> THEN "0x0"
  ELSE "0x" \o (IF s[1] < 16 THEN HexDigit(s[1]) ELSE Hex2(s[1])) \o HexOfBytes(Tail(s))
SHexNum(bs) == IF IsNeg(bs) THEN "-" \o HexNum(Neg(bs)) ELSE HexNum(bs)

\* addition of byte sequences of the same width, modulo 256^width
RECURSIVE AddR(_, _, _)
AddR(a, b, c) == IF a = <<>> THEN <<>>
  ELSE LET x == Last(a) + Last(b) + c
       IN Append(AddR(Front(a), Front(b), x \div 256), x % 256)
AddB(a, b) == AddR(a, b, 0)
\* comparison of byte sequences of the same width
RECURSIVE LessB(_, _)
LessB(a, b) == IF a = <<>> THEN FALSE
  ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE LessB(Tail(a), Tail(b))
CmpW(a, b) == LET w == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b) IN <<Widen(a, w), Widen(b, w)>>
Less(a, b) == LET c == CmpW(a, b) IN LessB(c[1], c[2])
EqN(a, b) == LET c == CmpW(a, b) IN c[1] = c[2]
\* bits (MSB first) <-> bytes
BitsOfByte(b) == [i \in 1..8 |-> (b \div (2 ^ (8 - i))) % 2]
BitsOf(bs) == Cat([i \in 1..Len(bs) |-> BitsOfByte(bs[i])])
RECURSIVE IntOfBitsR(_, _)
IntOfBitsR(b, acc) == IF b = <<>> THEN acc ELSE IntOfBitsR(Tail(b), acc * 2 + Head(b))
IntOfBits(b) == IntOfBitsR(b, 0)                 \* Len(b) <= 31
BitsOfInt(n, w) == [i \in 1..w |-> IF w - i > 30 THEN 0 ELSE (n \div (2 ^ (w - i))) % 2]
BytesOfBits(b) == [i \in 1..(Len(b) \div 8) |-> IntOfBits(SubSeq(b, 8 * i - 7, 8 * i))]
\* left-pad a bit string to whole bytes with bit p
PadBits(b, p) == [i \in 1..((8 - (Len(b) % 8)) % 8) |-> p] \o b
RECURSIVE SignExt(_, _)
SignExt(b, w) == IF Len(b) >= w THEN b ELSE SignExt(<<b[1]>> \o b, w)

\* ---- pseudo-random choices: Rnd(x) is a new state, Pick(x, n) a choice below n
Rnd(x) == LET a == ((x % 86000) * 24691 + 12347) % 65521
              b == a ^^ ((a * 128) % 65536)
              c == b ^^ (b \div 512)
          IN (c ^^ ((c * 256) % 65536)) + 1
Rnd2(x, y) == Rnd((Rnd(x % 65536) ^^ (y % 65536)) % 65536)
Rnd3(x, y, z) == Rnd((Rnd2(x, y) ^^ (z % 65536)) % 65536)
\* 0 .. n-1, n <= 32768
PickR(r, n) == (Rnd(Rnd(r)) \div 2) % n
=============================================================================
