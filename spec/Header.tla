------------------------------- MODULE Header -------------------------------
(* Box headers (C11): a stream holds a header in one of three forms at some
   position.  Reading it gives position, type, header length and total size;
   then the header is used: seek to its data or end, lay it out anew, write
   it.  Too little data is refused.                                           *)
EXTENDS Num, Emit

AnyByte(x) == IF PickR(x, 3) = 0 THEN <<0, 255, 127, 128, 169, 32, 31, 126, 174, 161>>[1 + PickR(Rnd2(x, 5), 10)] ELSE Rnd2(x, 9) % 256
VARIABLES k, ph, st, h, log, top      \* top: where the stream ends
vars == <<k, ph, st, h, log, top>>

W(n) == Widen(Be(n, 4), 8)
Minus(a, b) == AddB(a, Neg(b))
Types == <<<<109,111,111,118>>, <<0,0,0,0>>, <<255,254,1,128>>, <<169,116,111,111>>, <<102,114,101,101>>, <<32,126,31,127>>>>
Positions == <<Zeros(8), W(1), W(8), W(1000), <<0,0,0,0,255,255,255,248>>, <<0,0,0,0,255,255,255,255>>, <<0,0,0,1,0,0,0,0>>, <<0,0,1,0,0,0,0,17>>>>
Smalls == <<0, 0, 1, 1, 2, 7, 8, 9, 16, 24, 100, 1000>>
SmallB == <<<<127,255,255,255>>, <<128,0,0,0>>, <<255,255,255,255>>, <<255,255,255,247>>>>
Larges == <<W(0), W(1), W(8), W(15), W(16), W(17), W(100), <<0,0,0,0,255,255,255,255>>, <<0,0,0,1,0,0,0,0>>, <<0,0,0,1,0,0,0,7>>,
            <<0,0,0,0,255,255,255,254>>, <<0,0,0,9,8,7,6,5>>, <<15,255,255,0,0,0,0,0>>>>
Datas == <<W(0), W(1), W(8), W(100), <<0,0,0,0,255,255,255,246>>, <<0,0,0,0,255,255,255,247>>, <<0,0,0,0,255,255,255,248>>,
           <<0,0,0,0,255,255,255,255>>, <<0,0,0,1,0,0,0,0>>, <<0,0,77,0,0,0,0,1>>>>
L == INSTANCE Layout
\* any four bytes may be a type code
TypeOf(x) == CASE PickR(x, 3) = 0 -> Types[1 + PickR(Rnd2(x, 1), Len(Types))]
               [] PickR(x, 3) = 1 -> [i \in 1..4 |-> IF PickR(Rnd2(x, i), 8) = 0 THEN AnyByte(Rnd3(x, i, 1)) ELSE 32 + PickR(Rnd3(x, i, 2), 95)]
               [] OTHER -> [i \in 1..4 |-> AnyByte(Rnd2(x, i))]
TypeText(c) == L!CodeText(c)

\* stream: [pos, bytes (at pos), avail (bytes from pos to the end)]
StreamOf(kk) ==
  LET x == Rnd2(SeedE, kk)
      ty == TypeOf(Rnd2(x, 1))
      pos == Positions[1 + PickR(Rnd2(x, 2), Len(Positions))]
      si == PickR(Rnd2(x, 3), Len(Smalls) + Len(SmallB))
      size == IF si < Len(Smalls) THEN Be(Smalls[si + 1], 4) ELSE SmallB[si + 1 - Len(Smalls)]
      full == size \o ty \o Larges[1 + PickR(Rnd2(x, 4), Len(Larges))]
      short == PickR(Rnd2(x, 5), 3) = 0
      avail == IF short THEN W(PickR(Rnd2(x, 6), 20)) ELSE <<W(16), W(17), W(1000), <<0,0,0,1,0,0,0,3>>, <<0,0,16,0,0,0,0,0>>>>[1 + PickR(Rnd2(x, 6), 5)]
      n == IF IsSmall(avail) /\ ToInt(avail) < 16 THEN ToInt(avail) ELSE 16
  IN [pos |-> pos, bytes |-> SubSeq(full, 1, n), avail |-> avail]

\* reading: [ok, off, type, hdr, size, eof]
Refused == [ok |-> FALSE]
Parse(s) ==
  IF Less(s.avail, W(8)) THEN Refused
  ELSE LET n == SubSeq(s.bytes, 1, 4) ty == SubSeq(s.bytes, 5, 8) IN
    IF EqN(n, <<0>>) THEN [ok |-> TRUE, off |-> s.pos, type |-> ty, hdr |-> 8, size |-> s.avail, eof |-> TRUE]
    ELSE IF EqN(n, <<1>>) THEN
      IF Less(s.avail, W(16)) THEN Refused
      ELSE [ok |-> TRUE, off |-> s.pos, type |-> ty, hdr |-> 16, size |-> SubSeq(s.bytes, 9, 16), eof |-> FALSE]
    ELSE [ok |-> TRUE, off |-> s.pos, type |-> ty, hdr |-> 8, size |-> Widen(n, 8), eof |-> FALSE]
\* writing
Bytes(x) == IF x.eof THEN Zeros(4) \o x.type
            ELSE IF x.hdr = 8 THEN SubSeq(x.size, 5, 8) \o x.type
            ELSE <<0, 0, 0, 1>> \o x.type \o x.size
\* laying out
Lay(x, off, d) == LET big == LessB(<<0,0,0,0,255,255,255,247>>, d) IN
  [x EXCEPT !.off = off, !.hdr = IF big THEN 16 ELSE 8, !.size = AddB(d, W(IF big THEN 16 ELSE 8))]

Show(x) == [off |-> Dec(x.off), size |-> Dec(x.size), hdr |-> x.hdr, data |-> Dec(Minus(x.size, W(x.hdr))),
            type |-> HexOfBytes(x.type), text |-> "[" \o TypeText(x.type) \o "] Offset=" \o Dec(x.off) \o " Size=" \o Dec(x.size)]

Init == k \in 1..NumE /\ ph = "start" /\ st = <<>> /\ h = <<>> /\ log = <<>> /\ top = <<>>
Read == ph = "start" /\ ph' = "read" /\ st' = StreamOf(k) /\ h' = Parse(st') /\ top' = AddB(st'.pos, st'.avail) /\ UNCHANGED <<k, log>>
R == Rnd3(SeedE, k, 100 + Len(log))
More == ph = "read" /\ h.ok /\ Len(log) < 6
Upto(o, f, x, end) == log' = Append(log, f @@ [op |-> o, now |-> Show(x)]) /\ h' = x /\ top' = end /\ UNCHANGED <<k, ph, st>>
Step(o, f, x) == Upto(o, f, x, top)
SeekData == More /\ PickR(R, 5) = 0 /\ Step("data", [at |-> Dec(AddB(h.off, W(h.hdr)))], h)
SeekEnd == More /\ PickR(R, 5) = 1 /\ Step("end", [at |-> Dec(AddB(h.off, h.size))], h)
LayOut == /\ More /\ PickR(R, 5) = 2
          /\ LET off == Positions[1 + PickR(Rnd(R), Len(Positions))] d == Datas[1 + PickR(Rnd2(R, 5), Len(Datas))]
             IN IF h.eof   \* its short form holds any size: laid out and written at once
                THEN LET n == [h EXCEPT !.off = off, !.hdr = 8, !.size = AddB(d, W(8))] IN
                     Step("laywrite", [off |-> Dec(off), size |-> Dec(d), ret |-> Dec(n.size), writes |-> << <<Dec(off), HexOfBytes(Bytes(n))>> >>], n)
                ELSE Step("lay", [off |-> Dec(off), size |-> Dec(d)], Lay(h, off, d))
Write == /\ More /\ PickR(R, 5) = 3
         /\ Step("write", [ret |-> Dec(h.size), writes |-> << <<Dec(h.off), HexOfBytes(Bytes(h))>> >>], h)
\* written and read again: the same header (a header smaller than itself reads the same too)
Again == /\ More /\ PickR(R, 5) = 4
         /\ LET b == Bytes(h)
                end == LET a == top z == AddB(h.off, W(Len(b))) IN IF LessB(a, z) THEN z ELSE a
                back == Parse([pos |-> h.off, bytes |-> b \o Zeros(16 - Len(b)), avail |-> Minus(end, h.off)])
            IN /\ Upto("again", [back |-> Show(back)], h, end)
               /\ Assert(h.eof \/ back = h, <<h, back>>)
End == /\ ph = "read" /\ (~h.ok \/ Len(log) = 6) /\ ph' = "end" /\ UNCHANGED <<k, st, h, log, top>>
       /\ EmitCase([id |-> "h" \o ToString(k), op |-> "header", pos |-> Dec(st.pos), len |-> Dec(AddB(st.pos, st.avail)),
                    hex |-> HexOfBytes(st.bytes), ok |-> h.ok, steps |-> log] @@
                   (IF h.ok THEN [read |-> Show(Parse(st))] ELSE [read |-> 0]))
Next == Read \/ SeekData \/ SeekEnd \/ LayOut \/ Write \/ Again \/ End
Spec == Init /\ [][Next]_vars
\* what is written has the announced form and holds what was read
Faithful == ph = "read" /\ h.ok /\ log = <<>> /\ ~Less(h.size, W(h.hdr)) => Bytes(h) = SubSeq(st.bytes, 1, h.hdr)
=============================================================================
