------------------------------- MODULE Tables -------------------------------
(* Run-length sample tables and chunk offset tables (C23).

   A run-length compressor consumes a list element by element; its state is
   the list of entries made so far.  Expanding the entries must give the list
   back, adjacent entries differ, nothing gives nothing.  The chunk table
   keeps the offsets and is wide exactly when the last one needs it.

   Lists: all lists up to MaxLen over a small alphabet (exhaustive), seeded
   lists with long runs and extreme values.                                  *)
EXTENDS Num, Emit

VARIABLES k, what, list, runs, offs, ph
vars == <<k, what, list, runs, offs, ph>>

\* values are 4-byte numbers, referred to by index
Alphabet == <<<<0,0,0,0>>, <<0,0,0,1>>, <<255,255,255,255>>, <<0,0,4,0>>, <<0,1,0,0>>, <<127,255,255,255>>, <<128,0,0,0>>>>
MaxLen == IF NumE > 5000 THEN 7 ELSE 5
Letters == 3

\* ---- the compressor, one element at a time -------------------------------------
\* stts: <<count, value>>; stsc: <<first chunk (from 1), value>>
Push(rs, v) ==
  IF rs # <<>> /\ rs[Len(rs)].v = v THEN [rs EXCEPT ![Len(rs)].n = @ + 1]
  ELSE Append(rs, [n |-> 1, v |-> v])
RECURSIVE Expand(_)
Expand(rs) == IF rs = <<>> THEN <<>> ELSE [i \in 1..Head(rs).n |-> Head(rs).v] \o Expand(Tail(rs))
RECURSIVE Firsts(_, _)
Firsts(rs, at) == IF rs = <<>> THEN <<>> ELSE <<at>> \o Firsts(Tail(rs), at + Head(rs).n)
\* a run at a time; how many values went in is then kept in list as <<value, count>>
PushN(rs, v, n) ==
  IF rs # <<>> /\ rs[Len(rs)].v = v THEN [rs EXCEPT ![Len(rs)].n = @ + n]
  ELSE Append(rs, [n |-> n, v |-> v])
Counts == <<1, 2, 127, 128, 255, 256, 257, 32767, 32768, 65535, 65536, 65537, 70000, 131072>>
RECURSIVE LongRuns(_, _)
LongRuns(x, n) == IF n = 0 THEN <<>>
  ELSE <<<<1 + PickR(x, Len(Alphabet)), Counts[1 + PickR(Rnd2(x, 3), Len(Counts))]>>>> \o LongRuns(Rnd2(x, n), n - 1)
RECURSIVE Merge(_)   \* pairs with equal neighbours joined
Merge(ps) == IF Len(ps) < 2 THEN ps
  ELSE IF ps[1][1] = ps[2][1] THEN Merge(<<<<ps[1][1], ps[1][2] + ps[2][2]>>>> \o Tail(Tail(ps)))
  ELSE <<ps[1]>> \o Merge(Tail(ps))
Lossless == IF what = "long" THEN Merge(list) = [i \in 1..Len(runs) |-> <<runs[i].v, runs[i].n>>] ELSE Expand(runs) = list
Minimal == \A i \in 1..(Len(runs) - 1) : runs[i].v # runs[i + 1].v

\* the n-th list over the alphabet with length len
RECURSIVE Nth(_, _)
Nth(n, len) == IF len = 0 THEN <<>> ELSE Append(Nth(n \div Letters, len - 1), 1 + (n % Letters))
\* seeded list: runs of up to 6, alphabet of 7
RECURSIVE Rands(_, _)
Rands(x, n) == IF n = 0 THEN <<>>
  ELSE LET v == 1 + PickR(x, Len(Alphabet)) c == 1 + PickR(Rnd2(x, 3), 6)
       IN [i \in 1..c |-> v] \o Rands(Rnd2(x, n), n - 1)

Step ==
  /\ ph = "run" /\ Len(list) < Len(offs)      \* offs holds the input while running
  /\ LET v == offs[Len(list) + 1] IN list' = Append(list, v) /\ runs' = IF what = "long" THEN PushN(runs, v[1], v[2]) ELSE Push(runs, v)
  /\ UNCHANGED <<k, what, offs, ph>>

\* chunk offsets: ascending 8-byte numbers around 2^32, from index steps
Base == <<Zeros(8), <<0,0,0,0,255,255,255,240>>, <<0,0,0,0,255,255,255,255>>, <<0,0,0,1,0,0,0,0>>,
          <<0,0,0,0,127,255,255,255>>, <<0,0,0,0,128,0,0,0>>, <<255,255,255,255,255,255,255,0>>, <<0,0,0,0,0,0,0,48>>>>
RECURSIVE Climb(_, _, _)
Climb(o, x, n) == IF n = 0 THEN <<>>
  ELSE <<o>> \o Climb(AddB(o, Widen(Be(1 + PickR(x, 9), 2), 8)), Rnd2(x, n), n - 1)
Chunks == IF k = 0 THEN <<>>
          ELSE Climb(Base[1 + (k % Len(Base))], Rnd2(SeedE, k), 1 + PickR(Rnd2(k, 5), 6))
Wide(o) == o # <<>> /\ SubSeq(o[Len(o)], 1, 4) # Zeros(4)

Done ==
  /\ ph = "run" /\ Len(list) = Len(offs) /\ ph' = "end"
  /\ LET fs == Firsts(runs, 1)
         ch == Chunks
     IN EmitCase([id |-> what \o ToString(k), op |-> "tables",
         values |-> [i \in 1..Len(list) |-> IF what = "long" THEN <<Dec(Alphabet[list[i][1]]), list[i][2]>> ELSE <<Dec(Alphabet[list[i]]), 1>>],
         stts |-> Cat(<<<<0,0,0,0>>, Be(Len(runs), 4)>> \o
                      [i \in 1..Len(runs) |-> Be(runs[i].n, 4) \o Alphabet[runs[i].v]]),
         stsc |-> Cat(<<<<0,0,0,0>>, Be(Len(runs), 4)>> \o
                      [i \in 1..Len(runs) |-> Be(fs[i], 4) \o Alphabet[runs[i].v] \o <<0,0,0,1>>]),
         offsets |-> [i \in 1..Len(ch) |-> Dec(ch[i])],
         chunkbox |-> IF Wide(ch) THEN "co64" ELSE "stco",
         chunks |-> Cat(<<<<0,0,0,0>>, Be(Len(ch), 4)>> \o
                       [i \in 1..Len(ch) |-> IF Wide(ch) THEN ch[i] ELSE SubSeq(ch[i], 5, 8)])])
  /\ UNCHANGED <<k, what, list, runs, offs>>

Init ==
  /\ \/ \E len \in 0..MaxLen : \E n \in 0..((Letters ^ len) - 1) :
          k = len * 10000 + n /\ what = "all" /\ offs = Nth(n, len)
     \/ \E n \in 1..(NumE \div 100) : k = n /\ what = "long" /\ offs = LongRuns(Rnd2(SeedE, n + 7000), 1 + PickR(Rnd2(n, SeedE), 5))
     \/ \E n \in 1..(NumE \div 10) : k = n /\ what = "rnd" /\ offs = Rands(Rnd2(SeedE, n), 1 + PickR(Rnd2(n, SeedE), 8))
  /\ list = <<>> /\ runs = <<>> /\ ph = "run"
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
RunsCover == LET RECURSIVE S(_) S(rs) == IF rs = <<>> THEN 0 ELSE Head(rs).n + S(Tail(rs)) 
  IN S(runs) = IF what = "long" THEN LET RECURSIVE T(_) T(l) == IF l = <<>> THEN 0 ELSE Head(l)[2] + T(Tail(l)) IN T(list) ELSE Len(list)
=============================================================================
