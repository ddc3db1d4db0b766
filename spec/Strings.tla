------------------------------ MODULE Strings ------------------------------
(* Strings and variable-length numbers on a byte stream (C16).
   The stream is a byte sequence with a read position; each read operation
   says how much it consumes and what it yields.                            *)
EXTENDS Num, Emit

VARIABLES k, r, by, pos, items, log, ph
vars == <<k, r, by, pos, items, log, ph>>

\* ---- coding ------------------------------------------------------------------
\* 7-bit groups, most significant first; n groups
Groups(bitseq, n) ==   \* bitseq has 7 * n bits
  [i \in 1..n |-> IntOfBits(SubSeq(bitseq, 7 * i - 6, 7 * i)) + (IF i < n THEN 128 ELSE 0)]
\* as many groups as the type has bytes
UvarBytes(tyBytes, vb) == Groups(vb, tyBytes)     \* vb: 7*tyBytes bits
EncodeItem(it) ==
  CASE it[1] = "str" -> it[2] \o <<0>>
    [] it[1] = "pas" -> IF Len(it[2]) > 255 THEN <<>> ELSE <<Len(it[2])>> \o it[2]
    [] it[1] = "4cc" -> it[2]
    [] it[1] = "vec" -> it[2]            \* it[3] = bytes per element
    [] it[1] = "uv"  -> UvarBytes(it[3], it[2])
    [] it[1] = "raw" -> it[2]
\* what the write operation reports: bits, or -1 when it is refused
WriteRet(it) == IF it[1] = "pas" /\ Len(it[2]) > 255 THEN -1 ELSE 8 * Len(EncodeItem(it))
ValOf(it) == IF it[1] = "uv" THEN Dec(BytesOfBits(PadBits(it[2], 0))) ELSE HexOfBytes(it[2])

\* ---- reading ---------------------------------------------------------------------
RECURSIVE CStr(_, _, _, _)
\* <<bytes consumed, value>> or <<-1, ..>> when the stream ends first
CStr(b, p, max, acc) ==
  IF max = 0 THEN <<Len(acc), acc>>
  ELSE IF p > Len(b) THEN <<-1, acc>>
  ELSE IF b[p] = 0 THEN <<Len(acc) + 1, acc>>
  ELSE CStr(b, p + 1, max - 1, Append(acc, b[p]))
PStr(b, p, max) ==
  IF max < 2 THEN CStr(b, p, max, <<>>)
  ELSE IF p > Len(b) THEN <<-1, <<>> >>
  ELSE IF b[p] # max - 1 THEN CStr(b, p, max, <<>>)
  ELSE IF p + b[p] > Len(b) THEN <<-1, <<>> >>
  ELSE <<b[p] + 1, SubSeq(b, p + 1, p + b[p])>>
Take(b, p, n) == IF p + n - 1 > Len(b) THEN <<-1, <<>> >> ELSE <<n, SubSeq(b, p, p + n - 1)>>
RECURSIVE Uv(_, _, _, _)
Uv(b, p, n, acc) ==   \* <<consumed, bits>>
  IF p > Len(b) THEN <<-1, acc>>
  ELSE LET a == acc \o SubSeq(BitsOfByte(b[p]), 2, 8)
       IN IF b[p] < 128 THEN <<n + 1, a>> ELSE Uv(b, p + 1, n + 1, a)
RECURSIVE Lead0(_)
Lead0(b) == IF b # <<>> /\ b[1] = 0 THEN Lead0(Tail(b)) ELSE b
UvText(bits) == Dec(BytesOfBits(PadBits(Lead0(bits), 0)))

\* ---- choices ---------------------------------------------------------------------------
B(n, lo) == [i \in 1..n |-> lo + (Rnd2(r + 11 * i, n) % (256 - lo))]
StrLen(x) == LET c == PickR(x, 8) IN IF c = 0 THEN 0 ELSE IF c = 1 THEN 31 ELSE PickR(Rnd2(x, 2), 7)
PasLen(x) == LET c == PickR(x, 12) IN
  CASE c = 0 -> 0 [] c = 1 -> 255 [] c = 2 -> 256 [] c = 3 -> 254 [] c = 4 -> 300
    [] OTHER -> PickR(Rnd2(x, 2), 9)
Item ==
  LET c == PickR(r, 7) x == Rnd2(r, 21) IN
  CASE c \in {0, 1} -> <<"str", B(StrLen(x), 1), 1>>
    [] c \in {2, 3} -> <<"pas", B(PasLen(x), 0), 1>>
    [] c = 4 -> <<"4cc", B(4, 0), 1>>
    [] c = 5 -> LET w == 2 ^ PickR(x, 4) IN <<"vec", B(w * PickR(Rnd2(x, 4), 4), 0), w>>
    [] c = 6 -> LET w == 2 ^ PickR(x, 4)
                    z == PickR(Rnd2(x, 6), 7 * w + 1)
                IN <<"uv", [i \in 1..(7 * w) |-> IF i <= z THEN 0 ELSE Rnd2(r + 5 * i, 3) % 2], w>>
N == 1 + PickR(Rnd2(SeedE, k), 5)

Write ==
  /\ ph = "w" /\ Len(items) < N
  /\ LET it == Item IN
       /\ items' = Append(items, it)
       /\ by' = by \o EncodeItem(it)
       /\ log' = Append(log, <<it[1], it[3], ValOf(it), WriteRet(it)>>)
  /\ r' = Rnd2(r, 77 + Len(items))
  /\ UNCHANGED <<k, pos, ph>>
\* some streams end with a number spread over more groups than needed
Extra ==
  /\ ph = "w" /\ Len(items) = N
  /\ IF k % 3 = 0
     THEN LET n == PickR(r, 6)
              t == <<(r * 3) % 128>>
              raw == [i \in 1..n |-> 128] \o [i \in 1..PickR(Rnd(r), 4) |-> 128 + (Rnd2(r, i) % 128)] \o t
          IN /\ items' = Append(items, <<"raw", raw, 4>>)
             /\ by' = by \o raw
             /\ log' = Append(log, <<"raw", 4, HexOfBytes(raw), 8 * Len(raw)>>)
     ELSE UNCHANGED <<items, by, log>>
  /\ ph' = "r" /\ r' = Rnd2(r, 5)
  /\ UNCHANGED <<k, pos>>
\* read item i back, with the exact room or a disturbed one
NR == Len(items)
ReadI == Len(log) - NR + 1
Room(it) ==   \* room in bytes
  LET n == Len(EncodeItem(it))
      c == PickR(r, 8)
  IN IF c = 0 THEN PickR(Rnd(r), n + 2)
     ELSE IF c = 1 THEN n + PickR(Rnd(r), 4) ELSE n
Step(op, arg, res, text) ==
  /\ log' = Append(log, <<op, arg, IF res[1] < 0 THEN "" ELSE text, IF res[1] < 0 THEN -1 ELSE 8 * res[1]>>)
  /\ pos' = IF res[1] < 0 THEN pos ELSE pos + res[1]
  /\ ph' = IF res[1] < 0 THEN "end" ELSE IF ReadI = NR THEN "end" ELSE "r"
Read ==
  /\ ph = "r"
  /\ LET it == items[ReadI] IN
     CASE it[1] = "str" -> LET m == Room(it) x == CStr(by, pos + 1, m, <<>>) IN Step("str", m, x, HexOfBytes(x[2]))
       [] it[1] = "pas" -> LET m == Room(it) x == PStr(by, pos + 1, m) IN Step("pas", m, x, HexOfBytes(x[2]))
       [] it[1] = "4cc" -> LET x == Take(by, pos + 1, 4) IN Step("4cc", 4, x, HexOfBytes(x[2]))
       [] it[1] = "vec" -> LET x == Take(by, pos + 1, Len(it[2])) IN Step("vec" \o ToString(it[3]), Len(it[2]) \div it[3], x, HexOfBytes(x[2]))
       [] it[1] \in {"uv", "raw"} ->
            LET x == Uv(by, pos + 1, 0, <<>>)
                w == IF x[1] > 0 /\ Len(Lead0(x[2])) > 8 * it[3] THEN 8 ELSE it[3]
            IN IF x[1] > 0 /\ Len(Lead0(x[2])) > 64
               THEN Step("4cc", 4, Take(by, pos + 1, 4), HexOfBytes(Take(by, pos + 1, 4)[2]))
               ELSE Step("uv" \o ToString(w), 0, x, UvText(x[2]))
  /\ r' = Rnd2(r, 99 + Len(log))
  /\ UNCHANGED <<k, by, items>>
Done ==
  /\ ph = "end" /\ ph' = "emitted"
  /\ EmitCase([id |-> "s" \o ToString(k), op |-> "strings", hex |-> HexOfBytes(by),
               w |-> SubSeq(log, 1, NR), r |-> SubSeq(log, NR + 1, Len(log))])
  /\ UNCHANGED <<k, r, by, pos, items, log>>

Init == /\ k \in 1..NumE /\ r = Rnd2(SeedE, k) /\ by = <<>> /\ pos = 0
        /\ items = <<>> /\ log = <<>> /\ ph = "w"
Next == Write \/ Extra \/ Read \/ Done
Spec == Init /\ [][Next]_vars

\* read back in full when every read had its exact room
Exact == \A i \in 1..NR : items[i][1] \in {"str", "pas"} /\ Len(log) = 2 * NR
             => log[NR + i][2] = Len(EncodeItem(items[i]))
Clean == \A i \in 1..NR : items[i][1] # "raw" /\ ~(items[i][1] = "pas" /\ Len(items[i][2]) > 255)
RoundTrip == (ph = "end" /\ Clean /\ Len(log) = 2 * NR /\ Exact) =>
  \A i \in 1..NR : (items[i][1] = "pas" /\ Len(items[i][2]) = 0) \/
     (log[NR + i][3] = log[i][3] /\ log[NR + i][4] = log[i][4])
Bounded == \A i \in 1..Len(log) : (i > NR /\ log[i][1] \in {"str", "pas"}) => log[i][4] <= 8 * log[i][2]
=============================================================================
