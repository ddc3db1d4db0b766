------------------------------- MODULE AnnexB -------------------------------
(* H.264 byte streams (C17): start codes 00 00 01 / 00 00 00 01 each followed
   by a NAL unit.  A stream is built unit by unit (the grammar), then a
   scanner machine reads it byte by byte; on every stream the scanner must find
   exactly the units that were put in (Exact).  SMALL = length: all streams up
   to that length over the bytes 0, 1 and 101, and all strings of up to six
   bytes that do not begin with a start code; otherwise seeded longer streams. *)
EXTENDS Num, Emit, IOUtils

VARIABLES k, ph, units, bytes, sc
vars == <<k, ph, units, bytes, sc>>

Small == atoi(IOEnv.SMALL)
Alpha == {0, 1, 101}

Code(n) == IF n = 3 THEN <<0, 0, 1>> ELSE <<0, 0, 0, 1>>
\* no start code inside, no zero byte at the end
RECURSIVE CleanR(_, _)
CleanR(b, i) == IF i + 2 > Len(b) THEN TRUE
                ELSE IF b[i] = 0 /\ b[i + 1] = 0 /\ b[i + 2] <= 1 THEN FALSE ELSE CleanR(b, i + 1)
IsNal(b) == b # <<>> /\ b[Len(b)] # 0 /\ CleanR(b, 1)
StreamOf(us) == Cat([i \in 1..Len(us) |-> Code(us[i].code) \o us[i].nal])
\* where unit i lies
RECURSIVE LenTo(_, _)
LenTo(us, i) == IF i = 0 THEN 0 ELSE LenTo(us, i - 1) + us[i].code + Len(us[i].nal)
Found(us) == [i \in 1..Len(us) |-> [code |-> us[i].code, start |-> LenTo(us, i - 1), stop |-> LenTo(us, i), header |-> us[i].nal[1]]]

\* ---- the scanner ----------------------------------------------------------------
\* pos: bytes read; z: zero bytes just before pos; cur: the open unit or <<>>; out: finished units
Start == [pos |-> 0, z |-> 0, cur |-> <<>>, out |-> <<>>, st |-> "run"]
CloseAt(s, p) == IF s.cur = <<>> THEN s.out ELSE Append(s.out, [s.cur[1] EXCEPT !.stop = p])
ScanStep(s, b) ==
  IF s.pos = Len(b) THEN
    IF s.cur = <<>> THEN [s EXCEPT !.st = "failed"]
    ELSE [s EXCEPT !.st = "done", !.out = CloseAt(s, Len(b))]
  ELSE LET c == b[s.pos + 1]
           at == s.pos + 1
           lead == IF s.z >= 3 THEN 3 ELSE 2
       IN IF c = 1 /\ s.z >= 2 THEN
            IF s.cur = <<>> /\ s.pos # lead THEN [s EXCEPT !.st = "failed"]
            ELSE [s EXCEPT !.pos = at, !.z = 0, !.out = CloseAt(s, s.pos - lead),
                           !.cur = <<[code |-> lead + 1, start |-> s.pos - lead, stop |-> -1, header |-> -1]>>]
          ELSE IF s.cur = <<>> /\ c # 0 THEN [s EXCEPT !.st = "failed"]
          ELSE [s EXCEPT !.pos = at, !.z = IF c = 0 THEN s.z + 1 ELSE 0,
                         !.cur = IF s.cur # <<>> /\ s.cur[1].header = -1 THEN <<[s.cur[1] EXCEPT !.header = c]>> ELSE s.cur]

\* ---- seeded units --------------------------------------------------------------------
RECURSIVE FixNal(_, _, _)
\* put a 3 where a start code would arise (emulation prevention)
FixNal(b, acc, z) == IF b = <<>> THEN (IF acc[Len(acc)] = 0 THEN Append(acc, 128) ELSE acc)
  ELSE LET c == b[1] IN
    IF z >= 2 /\ c <= 1 THEN FixNal(b, Append(acc, 3), 0)
    ELSE FixNal(Tail(b), Append(acc, c), IF c = 0 THEN z + 1 ELSE 0)
NalBytes(h, n, x) == FixNal(<<h>> \o [i \in 1..n |-> LET c == Rnd2(x, i) IN
                       <<0, 0, 0, 0, 1, 1, 2, 3, 255, c % 256, (c \div 7) % 256>>[1 + PickR(c, 11)]], <<>>, 0)
NalLen(x) == LET c == PickR(x, 10) IN IF c < 3 THEN 0 ELSE IF c < 5 THEN 1 ELSE IF c < 6 THEN 2 ELSE IF c < 9 THEN PickR(Rnd(x), 12) ELSE PickR(Rnd(x), 60)
SeededUnits(kk) == LET x == Rnd3(SeedE, kk, 31) IN
  [i \in 1..(1 + PickR(x, 9)) |-> LET y == Rnd2(x, i) IN [code |-> 3 + PickR(y, 2), nal |-> NalBytes(Rnd2(y, 1) % 256, NalLen(Rnd2(y, 2)), Rnd2(y, 3))]]

\* ---- transitions ----------------------------------------------------------------------------
Strings(n) == UNION {[1..i -> Alpha] : i \in 0..n}
Begins(b) == (Len(b) >= 3 /\ SubSeq(b, 1, 3) = Code(3)) \/ (Len(b) >= 4 /\ SubSeq(b, 1, 4) = Code(4))
Junk == {s \in Strings(6) : ~Begins(s)}
Init == /\ units = <<>> /\ sc = Start
        /\ IF Small > 0 THEN \/ (k = 0 /\ ph = "build" /\ bytes = <<>>)
                             \/ (k = -1 /\ ph = "scan" /\ bytes \in Junk)
           ELSE k \in 1..NumE /\ ph = "seed" /\ bytes = <<>>
Room(n) == LenTo(units, Len(units)) + n <= Small
NalOk == IF units = <<>> THEN TRUE ELSE IsNal(units[Len(units)].nal)
AddUnit == /\ ph = "build" /\ NalOk
           /\ \E c \in {3, 4} : Room(c + 1) /\ units' = Append(units, [code |-> c, nal |-> <<>>])
           /\ UNCHANGED <<k, ph, bytes, sc>>
AddByte == /\ ph = "build" /\ units # <<>> /\ Room(1)
           /\ \E x \in Alpha : LET n == Append(units[Len(units)].nal, x) IN CleanR(n, 1) /\ units' = [units EXCEPT ![Len(units)].nal = n]
           /\ UNCHANGED <<k, ph, bytes, sc>>
Close == ph = "build" /\ units # <<>> /\ NalOk /\ ph' = "scan" /\ bytes' = StreamOf(units) /\ UNCHANGED <<k, units, sc>>
Seeded == ph = "seed" /\ units' = SeededUnits(k) /\ bytes' = StreamOf(SeededUnits(k)) /\ ph' = "scan" /\ UNCHANGED <<k, sc>>
Scan == ph = "scan" /\ sc.st = "run" /\ sc' = ScanStep(sc, bytes) /\ UNCHANGED <<k, ph, units, bytes>>
End == /\ ph = "scan" /\ sc.st # "run" /\ ph' = "end"
       /\ EmitCase([id |-> "n" \o ToString(k) \o "_" \o HexOfBytes(bytes), op |-> "annexb", hex |-> HexOfBytes(bytes),
                    found |-> IF sc.st = "failed" THEN <<>> ELSE sc.out, err |-> IF sc.st = "failed" THEN 1 ELSE 0])
       /\ UNCHANGED <<k, units, bytes, sc>>
Next == AddUnit \/ AddByte \/ Close \/ Seeded \/ Scan \/ End
Spec == Init /\ [][Next]_vars

Exact == ph = "scan" /\ sc.st # "run" =>
  IF units = <<>> THEN sc.st = "failed" ELSE sc.st = "done" /\ sc.out = Found(units)
=============================================================================
