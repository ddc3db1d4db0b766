-------------------------------- MODULE Inter --------------------------------
(* Several parts at work in one program at the same time (C25): movies being
   written, readers, bit writers.  Each has a program of its own; a schedule
   says whose operation comes next.  The state of a part depends on nothing but
   its own operations, so at the end it is what its program alone leads to
   (Alone), and the finished movies have all properties of Movie (Sound).

   MODE all: every schedule of short programs; walk: seeded schedules of longer
   ones.  Every complete schedule is emitted and carried out with real objects;
   the results must be those of the programs run alone.                       *)
EXTENDS MuxCore

VARIABLES k, parts, st, pc, sched, r, ph
vars == <<k, parts, st, pc, sched, r, ph>>

\* ---- programs -----------------------------------------------------------------------
RECURSIVE GenOps(_, _, _, _)
GenOps(c, s, n, x) == IF n = 0 THEN <<>> ELSE LET op == PickOp(c, s, x) IN <<op>> \o GenOps(c, Do(c, s, op), n - 1, Rnd2(x, 991))
MovieOf(c, n, x) ==
  LET a == Opening \o GenOps(c, RunOps(c, Writer0(c), Opening, 1), n, Rnd2(x, 1))
      s == RunOps(c, Writer0(c), a, 1)
  IN [kind |-> "movie", c |-> c, prog |-> a \o Finale(c, OrderOf(s, Rnd2(x, 2)), 0)]
\* a bit writer: <<width, value>>
BitsOfPart(n, x) == [kind |-> "bits", c |-> <<>>, prog |-> [i \in 1..n |-> <<1 + PickR(Rnd3(x, i, 1), 16), PickR(Rnd3(x, i, 2), 65536)>>]]
\* a reader of what part `of` would write alone
ReaderOf(of) == [kind |-> "reader", c |-> <<of>>, prog |-> <<"open", "read">>]
PlainMovie(wr, kind, n, x) ==
  LET c == [ConfigSmall(IF wr = "simple" THEN 0 ELSE 1) EXCEPT !.tracks = <<[Plain(kind) EXCEPT !.width = 320 + n]>>, !.dur = <<n, 0>>]
      us(i) == <<H!MkUnit(Rnd2(x, i)), H!MkUnit(Rnd2(x, i + 7))>>
      add(i) == [o |-> "add", t |-> 1, ts |-> N8(10 * i), key |-> i % 2, ptr |-> 1, units |-> IF kind = "h264" THEN us(i) ELSE <<>>,
                 data |-> IF kind = "h264" THEN Whole(H!A!StreamOf(us(i))) ELSE Blob(3 + n, Rnd2(x, i))]
  IN [kind |-> "movie", c |-> c, prog |-> Opening \o <<[o |-> "track", t |-> 1, next |-> 1, id |-> 0], add(1)>> \o Finale(c, <<1>>, 0)]
AllParts == <<
  <<PlainMovie("simple", "aac", 1, 5), PlainMovie("simple", "vp9", 2, 6)>>,
  <<PlainMovie("fast", "opus", 1, 7), PlainMovie("fast", "av1", 2, 8)>>,
  <<PlainMovie("simple", "mp3", 3, 9), PlainMovie("fast", "vp8", 1, 10)>>,
  <<PlainMovie("fast", "aac", 1, 11), ReaderOf(1), BitsOfPart(2, 12)>>,
  <<BitsOfPart(2, 13), BitsOfPart(2, 14), PlainMovie("simple", "h264", 1, 15)>> >>
ConfigIn(x, i) == [Config0(Rnd2(x, i)) EXCEPT !.sink = "sparse", !.now = <<>>]
WalkParts(kk) ==
  LET x == Rnd3(SeedE, kk, 5000)
      m(i) == MovieOf(ConfigIn(x, i), 4 + PickR(Rnd3(x, i, 3), 20), Rnd3(x, i, 4))
      y == Rnd2(x, 7)
  IN CASE kk % 4 = 0 -> <<m(1), m(2)>>
       [] kk % 4 = 1 -> <<m(1), m(2), m(3)>>
       [] kk % 4 = 2 -> <<m(1), ReaderOf(1), m(3), BitsOfPart(12, y)>>
       [] kk % 4 = 3 -> <<m(1), ReaderOf(1), m(3), ReaderOf(3), BitsOfPart(10, y), BitsOfPart(10, Rnd2(y, 1))>>

\* ---- state of a part --------------------------------------------------------------------
Start(p) == IF p.kind = "movie" THEN Writer0(p.c) ELSE <<>>
After(p, s, op) == CASE p.kind = "movie" -> Do(p.c, s, op)
                     [] p.kind = "bits" -> s \o Low(BitsOf(Be(op[2], 4)), op[1])
                     [] OTHER -> Append(s, op)
RECURSIVE AllOf(_, _, _)
AllOf(p, s, i) == IF i > Len(p.prog) THEN s ELSE AllOf(p, After(p, s, p.prog[i]), i + 1)

Init == /\ k \in 1..NumE /\ parts = <<>> /\ st = <<>> /\ pc = <<>> /\ sched = <<>> /\ r = Rnd3(SeedE, k, 5100) /\ ph = "start"
Setup == /\ ph = "start"
         /\ LET ps == IF Mode = "all" THEN AllParts[k] ELSE WalkParts(k) IN
              parts' = ps /\ st' = [i \in 1..Len(ps) |-> Start(ps[i])] /\ pc' = [i \in 1..Len(ps) |-> 1]
         /\ ph' = "run" /\ UNCHANGED <<k, sched, r>>
Open0 == {i \in 1..Len(parts) : pc[i] <= Len(parts[i].prog)}
Move(i) == /\ st' = [st EXCEPT ![i] = After(parts[i], @, parts[i].prog[pc[i]])]
           /\ pc' = [pc EXCEPT ![i] = @ + 1] /\ sched' = Append(sched, i) /\ UNCHANGED <<k, parts, ph>>
StepAll == ph = "run" /\ Mode = "all" /\ (\E i \in Open0 : Move(i)) /\ UNCHANGED r
\* now and then one part goes on for a while
Same(x) == sched # <<>> /\ sched[Len(sched)] \in Open0 /\ PickR(x, 5) < <<0, 2, 4>>[1 + (k % 3)]
StepWalk == /\ ph = "run" /\ Mode = "walk" /\ Open0 # {}
            /\ LET l == SetToSortSeq(Open0, <) i == IF Same(r) THEN sched[Len(sched)] ELSE AnyOf(l, Rnd2(r, 1)) IN Move(i)
            /\ r' = Rnd2(r, 2)
\* the parts are given with the first schedule of k only
FirstSched == \A i, j \in 1..Len(sched) : i < j => sched[i] <= sched[j]
Out(p) == IF p.kind = "movie" THEN [kind |-> p.kind, m |-> [p.c EXCEPT !.ops = p.prog]]
          ELSE IF p.kind = "reader" THEN [kind |-> p.kind, of |-> p.c[1]] ELSE [kind |-> p.kind, ops |-> p.prog]
End == /\ ph = "run" /\ Open0 = {}
       /\ EmitCase([id |-> "k" \o ToString(k) \o "_" \o CatS([i \in 1..Len(sched) |-> ToString(sched[i])]), k |-> k, sched |-> sched,
                    parts |-> IF Mode = "walk" \/ FirstSched THEN [i \in 1..Len(parts) |-> Out(parts[i])] ELSE <<>>,
                    bits |-> IF Mode = "walk" \/ FirstSched THEN [i \in 1..Len(parts) |-> IF parts[i].kind = "bits" THEN HexOfBytes(BytesOfBits(SubSeq(st[i], 1, 8 * (Len(st[i]) \div 8)))) ELSE ""] ELSE <<>>])
       /\ ph' = "end" /\ UNCHANGED <<k, parts, st, pc, sched, r>>
Next == Setup \/ StepAll \/ StepWalk \/ End
Spec == Init /\ [][Next]_vars

Alone == ph = "end" => \A i \in 1..Len(parts) : st[i] = AllOf(parts[i], Start(parts[i]), 1)
Sound == ph = "end" /\ (Mode = "walk" \/ FirstSched) => \A i \in 1..Len(parts) :
           parts[i].kind = "movie" => LET h == [parts[i].c EXCEPT !.ops = parts[i].prog] bad == Check("all", h, FileOf(h, st[i])) IN
             IF bad = {} THEN TRUE ELSE PrintT(<<k, i, bad>>) /\ FALSE
=============================================================================
