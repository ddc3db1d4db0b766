------------------------------- MODULE BitIO -------------------------------
(* A stream of bits written through bitio::Writer and read through
   bitio::Reader (C15).

   The abstract stream is the sequence of bits written; the bytes that reached
   the medium are the complete groups of eight.  Byte-wise access is possible
   only when no partial byte is pending.  The reader side is a position in the
   bits of a byte string.

   Behaviours: systematic ones (every integer type x width x alignment x
   boundary value) and seeded walks.  Each finished behaviour is emitted with
   the outcome of each operation, for replay into the real code.            *)
EXTENDS Num, Emit

Types == <<8, 16, 32, 64>>

VARIABLES k,     \* behaviour number
          r,     \* generator state of the walk
          bits,  \* bits written / bits of the stream that is read
          pos,   \* reader: bits consumed
          log,   \* operations with their outcomes
          ph     \* "w" writing, "r" reading, "end" finished
vars == <<k, r, bits, pos, log, ph>>

\* ---- abstract operations -----------------------------------------------------
Pending(b) == Len(b) % 8
ValText(kind, vb) == IF kind = "i" THEN SDec(BytesOfBits(SignExt(vb, 64)))
                     ELSE Dec(BytesOfBits(PadBits(vb, 0)))
WBits(kind, ty, vb) ==   \* write a value given by its bits
  /\ bits' = bits \o vb
  /\ log' = Append(log, <<kind, ty, Len(vb), ValText(kind, vb), Len(vb)>>)
WBool(b) == /\ bits' = Append(bits, b)
            /\ log' = Append(log, <<"b", 1, 1, ToString(b), 1>>)
WBytes(bs) ==
  IF Pending(bits) = 0
  THEN /\ bits' = bits \o BitsOf(bs)
       /\ log' = Append(log, <<"y", 0, Len(bs), HexOfBytes(bs), Len(bs)>>)
  ELSE /\ bits' = bits                    \* refused
       /\ log' = Append(log, <<"y", 0, Len(bs), HexOfBytes(bs), -1>>)
RBits(kind, ty, w) ==
  IF pos + w <= (Len(bits) \div 8) * 8
  THEN /\ pos' = pos + w
       /\ log' = Append(log, <<kind, ty, w, ValText(kind, SubSeq(bits, pos + 1, pos + w)), w>>)
       /\ ph' = ph
  ELSE /\ pos' = pos                      \* the stream ends: an error
       /\ log' = Append(log, <<kind, ty, w, "", -1>>)
       /\ ph' = "end"
RBytes(n) ==
  IF pos % 8 # 0
  THEN /\ pos' = pos /\ ph' = ph
       /\ log' = Append(log, <<"y", 0, n, "", -1>>)
  ELSE IF pos + 8 * n <= (Len(bits) \div 8) * 8
  THEN /\ pos' = pos + 8 * n /\ ph' = ph
       /\ log' = Append(log, <<"y", 0, n, HexOfBytes(BytesOfBits(SubSeq(bits, pos + 1, pos + 8 * n))), n>>)
  ELSE /\ pos' = pos /\ ph' = "end"
       /\ log' = Append(log, <<"y", 0, n, "", -1>>)
\* seek: relative seeks are refused inside a byte, absolute ones drop the partial byte
RSeekCur(d) ==
  IF pos % 8 # 0
  THEN /\ pos' = pos /\ ph' = ph
       /\ log' = Append(log, <<"sc", 0, d, "", -1>>)
  ELSE /\ pos + 8 * d <= (Len(bits) \div 8) * 8
       /\ pos' = pos + 8 * d /\ ph' = ph
       /\ log' = Append(log, <<"sc", 0, d, ToString(pos \div 8 + d), pos \div 8 + d>>)
RSeekBeg(o) ==
  /\ pos' = 8 * o /\ ph' = ph
  /\ log' = Append(log, <<"sb", 0, o, ToString(o), o>>)

\* ---- systematic behaviours ---------------------------------------------------------
\* number -> (type, width, alignment, value pattern, signed)
SysWidths == 8 + 16 + 32 + 64
SysN == SysWidths * 8 * 6 * 2
SysTW(n) == IF n < 8 THEN <<8, n + 1>> ELSE IF n < 24 THEN <<16, n - 7>>
            ELSE IF n < 56 THEN <<32, n - 23>> ELSE <<64, n - 55>>
Pattern(p, w) ==
  CASE p = 0 -> [i \in 1..w |-> 0]
    [] p = 1 -> [i \in 1..w |-> 1]
    [] p = 2 -> [i \in 1..w |-> IF i = 1 THEN 1 ELSE 0]
    [] p = 3 -> [i \in 1..w |-> IF i = 1 THEN 0 ELSE 1]
    [] p = 4 -> [i \in 1..w |-> i % 2]
    [] p = 5 -> [i \in 1..w |-> Rnd2(w, i) % 2]
SysTWOf == SysTW((k \div 96) % SysWidths)
SysAlign == k % 8
SysPat == (k \div 8) % 6
SysKind == IF (k \div 48) % 2 = 0 THEN "u" ELSE "i"

SysStep ==
  /\ r = 0
  /\ \/ /\ ph = "w" /\ log = <<>>
        /\ IF SysAlign = 0 THEN WBits("u", 8, Pattern(4, 8))
           ELSE WBits("u", 8, Pattern(SysPat, SysAlign))
        /\ UNCHANGED <<k, r, pos, ph>>
     \/ /\ ph = "w" /\ Len(log) = 1
        /\ WBits(SysKind, SysTWOf[1], Pattern(SysPat, SysTWOf[2]))
        /\ UNCHANGED <<k, r, pos, ph>>
     \/ /\ ph = "w" /\ Len(log) = 2      \* fill up with a bool and further bits
        /\ WBool(1) /\ UNCHANGED <<k, r, pos, ph>>
     \/ /\ ph = "w" /\ Len(log) = 3
        /\ LET n == 8 - (Len(bits) % 8) IN WBits("u", 8, Pattern(4, n))
        /\ UNCHANGED <<k, r, pos, ph>>
     \/ /\ ph = "w" /\ Len(log) = 4 /\ ph' = "r" /\ UNCHANGED <<k, r, bits, pos, log>>
     \/ /\ ph = "r" /\ Len(log) < 8
        /\ LET o == log[Len(log) - 3] IN RBits(o[1], o[2], o[3])
        /\ UNCHANGED <<k, r, bits>>
     \/ /\ ph = "r" /\ Len(log) = 8
        /\ ph' = "end" /\ UNCHANGED <<k, r, bits, pos, log>>

\* ---- seeded walks -------------------------------------------------------------------
WalkLen == 4 + PickR(Rnd2(SeedE, k), 9)
RandBits(w) == [i \in 1..w |-> Rnd2(r + 7 * i, w + i) % 2]
RandBytes(n) == [i \in 1..n |-> Rnd2(r + 13 * i, n) % 256]
PickTy(x) == Types[PickR(x, 4) + 1]
WalkW ==
  /\ r > 0 /\ ph = "w" /\ Len(log) < WalkLen
  /\ LET c == PickR(r, 10)
         ty == PickTy(Rnd2(r, 3))
         w == 1 + PickR(Rnd2(r, 5), ty)
     IN CASE c < 4 -> WBits("u", ty, RandBits(w))
          [] c \in 4..6 -> WBits("i", ty, RandBits(w))
          [] c = 7 -> WBool(r % 2)
          [] c = 8 -> WBytes(RandBytes(PickR(Rnd2(r, 9), 4)))
          [] c = 9 -> WBits("u", 8, RandBits(IF Pending(bits) = 0 THEN 8 ELSE 8 - Pending(bits)))
  /\ r' = Rnd2(r, Len(log)) /\ UNCHANGED <<k, pos, ph>>
WalkTurn ==
  /\ r > 0 /\ ph = "w" /\ Len(log) = WalkLen
  /\ ph' = "r" /\ UNCHANGED <<k, r, bits, pos, log>>
WalkR ==
  /\ r > 0 /\ ph = "r" /\ Len(log) < 2 * WalkLen + 2
  /\ LET c == PickR(r, 12)
         ty == PickTy(Rnd2(r, 3))
         n == Len(bits) \div 8
         rem == 8 * n - pos
         lim == IF rem > 0 /\ rem < ty /\ PickR(Rnd2(r, 15), 8) # 0 THEN rem ELSE ty
         w == 1 + PickR(Rnd2(r, 5), lim)
     IN CASE c < 4 -> RBits("u", ty, w)
          [] c \in 4..6 -> RBits("i", ty, w)
          [] c = 7 -> RBits("b", 1, 1)
          [] c = 8 -> RBytes(1 + PickR(Rnd2(r, 9), 3))
          [] c = 9 -> RBits("u", 8, IF pos % 8 = 0 THEN 8 ELSE 8 - (pos % 8))
          [] c = 10 -> RSeekCur(IF pos % 8 # 0 THEN 1 ELSE PickR(Rnd2(r, 9), n - pos \div 8 + 1))
          [] c = 11 -> RSeekBeg(PickR(Rnd2(r, 9), n + 1))
  /\ r' = Rnd2(r, Len(log)) /\ UNCHANGED <<k, bits>>
WalkEnd ==
  /\ r > 0 /\ ph = "r" /\ Len(log) = 2 * WalkLen + 2
  /\ ph' = "end" /\ UNCHANGED <<k, r, bits, pos, log>>

\* ---- long byte runs ------------------------------------------------------------------
BigN == IF NumE > 10000 THEN 6 ELSE 3
BigLen == <<65537, 65536, 70003, 131073, 65535, 200001>>[k]
BigBytes == [i \in 1..BigLen |-> Rnd2((k + 13 * i) % 65521, i % 65536) % 256]
BigStep ==
  /\ r = -1
  /\ \/ /\ ph = "w" /\ log = <<>> /\ WBits("u", 16, Pattern(4, 16)) /\ UNCHANGED <<k, r, pos, ph>>
     \/ /\ ph = "w" /\ Len(log) = 1 /\ WBytes(BigBytes) /\ UNCHANGED <<k, r, pos, ph>>
     \/ /\ ph = "w" /\ Len(log) = 2 /\ WBits("u", 8, Pattern(1, 8)) /\ UNCHANGED <<k, r, pos, ph>>
     \/ /\ ph = "w" /\ Len(log) = 3 /\ ph' = "r" /\ UNCHANGED <<k, r, bits, pos, log>>
     \/ /\ ph = "r" /\ Len(log) = 3 /\ RBits("u", 16, 16) /\ UNCHANGED <<k, r, bits>>
     \/ /\ ph = "r" /\ Len(log) = 4 /\ RBytes(BigLen) /\ UNCHANGED <<k, r, bits>>
     \/ /\ ph = "r" /\ Len(log) = 5 /\ RBits("u", 8, 8) /\ UNCHANGED <<k, r, bits>>
     \/ /\ ph = "r" /\ Len(log) = 6 /\ ph' = "end" /\ UNCHANGED <<k, r, bits, pos, log>>

NW == IF r = 0 THEN 4 ELSE IF r = -1 THEN 3 ELSE WalkLen
Done ==
  /\ ph = "end" /\ ph' = "emitted"
  /\ EmitCase([id |-> IF r = 0 THEN "sys" \o ToString(k) ELSE IF r = -1 THEN "big" \o ToString(k) ELSE "walk" \o ToString(k),
               op |-> "bitio",
               w |-> SubSeq(log, 1, NW), r |-> SubSeq(log, NW + 1, Len(log)),
               hex |-> HexOfBytes(BytesOfBits(bits))])
  /\ UNCHANGED <<k, r, bits, pos, log>>

Init == /\ \/ k \in 0..(SysN - 1) /\ r = 0
           \/ k \in 1..NumE /\ r = Rnd2(SeedE, k)
           \/ k \in 1..BigN /\ r = -1
        /\ bits = <<>> /\ pos = 0 /\ log = <<>> /\ ph = "w"
Next == SysStep \/ BigStep \/ WalkW \/ WalkTurn \/ WalkR \/ WalkEnd \/ Done
Spec == Init /\ [][Next]_vars

\* ---- properties of the specification --------------------------------------------------
\* what is read with the widths that were written is what was written
SysRoundTrip == (r = 0 /\ ph = "end") =>
  \A i \in 1..4 : log[i + 4] = log[i]
\* the widths reported add up to the bits in the stream
RECURSIVE SumW(_, _)
SumW(l, i) == IF i = 0 THEN 0
  ELSE SumW(l, i - 1) + (IF l[i][5] < 0 THEN 0 ELSE IF l[i][1] = "y" THEN 8 * l[i][5] ELSE l[i][5])
Reported == ph = "w" => SumW(log, Len(log)) = Len(bits)
InBounds == pos <= Len(bits)
=============================================================================
