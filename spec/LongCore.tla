------------------------------ MODULE LongCore ------------------------------
(* Histories of runs and what the finished file has to hold (see Long). *)
EXTENDS MuxCore, SequencesExt

Scale == IOEnv.SCALE
Bends == 30

\* ---- contents of runs ---------------------------------------------------------------------
SizeIn(r, j) == r.sz + (j % r.m)                                    \* j-th sample of run r, in its track's data
ByteIn(r, j, i) == 1 + ((r.x + 31 * (j % 5000) + 17 * (j \div 256) + i) % 255)
Slack(kind) == IF kind = "h264" THEN 4 ELSE 0
\* bytes of the first j samples of a run
CumIn(r, j) == LET a == j \div r.m  b == j % r.m IN j * r.sz + a * ((r.m * (r.m - 1)) \div 2) + ((b * (b + 1)) \div 2)
TimeIn(r, j) == r.ts + (j - 1) * r.dt + r.dd * (j % 2)
Hist(r) == r.o = "rep"
RunsOf(hh) == SelectSeq(hh.ops, Hist)

\* ---- the same history sample by sample ------------------------------------------------------
Sample0(hh, r, j) == [i \in 1..SizeIn(r, j) |-> ByteIn(r, j, i)]
AddOf(hh, r, j) ==
  LET kind == hh.tracks[r.t].kind b == Sample0(hh, r, j) key == IF r.q > 0 /\ j % r.q = 0 THEN 1 ELSE 0 IN
  IF kind = "h264" THEN [o |-> "add", t |-> r.t, ts |-> N8(TimeIn(r, j)), key |-> key, ptr |-> 0,
                         units |-> <<[code |-> 4, nal |-> <<65>> \o b]>>, data |-> Whole(<<0, 0, 0, 1, 65>> \o b)]
  ELSE [o |-> "add", t |-> r.t, ts |-> N8(TimeIn(r, j)), key |-> key, ptr |-> 0, data |-> Whole(b)]
RECURSIVE Steps0(_, _, _)
Steps0(hh, r, j) == IF j > r.n THEN (IF r.e = 1 THEN <<EndOp(r.t)>> ELSE <<>>)
  ELSE <<AddOf(hh, r, j)>> \o (IF r.c > 0 /\ j % r.c = 0 THEN <<EndOp(r.t)>> ELSE <<>>) \o Steps0(hh, r, j + 1)
Expanded(hh) == [hh EXCEPT !.ops = Cat([i \in 1..Len(hh.ops) |-> IF Hist(hh.ops[i]) THEN Steps0(hh, hh.ops[i], 1) ELSE <<hh.ops[i]>>])]

\* ---- choice of histories ----------------------------------------------------------------------
Large0 == <<65535, 65536, 65537, 66001, 70000>>
CountOf(x, big) == IF Scale = "small" THEN 1 + PickR(x, 6)
  ELSE IF big THEN AnyOf(Large0, x) ELSE AnyOf(<<1, 2, 3, 127, 128, 129, 255, 256, 257, 300, 511, 512, 1000, 1023, 1024, 1025, 4096>>, x)
\* runs take turns; a track's next times follow the last ones
RECURSIVE MoreRuns(_, _, _, _, _, _, _)
MoreRuns(c, n, x, bigat, b, last, acc) ==      \* last: per track the time from which it may go on
  IF n = 0 THEN acc ELSE
  LET open == acc # <<>> /\ acc[Len(acc)].e = 0
      big == n = bigat        \* the b-th big run: in the first track
      t == IF open THEN acc[Len(acc)].t ELSE IF big THEN 1 ELSE 1 + PickR(Rnd2(x, 1), Len(c.tracks))
      cnt == CountOf(Rnd2(x, 2), big)
      dt == IF big THEN AnyOf(<<1, 2, 3, 20>>, Rnd2(x, 3)) ELSE AnyOf(<<0, 1, 2, 100, 1024>>, Rnd2(x, 3))
      many == cnt > 5000
      r == [o |-> "rep", t |-> t, n |-> cnt, sz |-> AnyOf(IF many THEN <<0, 1, 2>> ELSE <<0, 1, 3, 40>>, Rnd2(x, 4)),
            m |-> AnyOf(IF many THEN <<1, 2>> ELSE <<1, 2, 7>>, Rnd2(x, 5)), ts |-> last[t], dt |-> dt,
            dd |-> IF dt = 0 THEN 0 ELSE AnyOf(<<0, 0, 1>>, Rnd2(x, 6)),
            c |-> AnyOf(IF Scale = "small" THEN <<0, 1, 2, 3>> ELSE IF big THEN << <<0, 1, 65536, 2, 1, 300, 0>>[1 + (b % 7)] >> ELSE <<0, 0, 1, 2, 5, 100, 256>>, Rnd2(x, 7)),
            q |-> IF big THEN <<1, 2, 30>>[1 + (b % 3)] ELSE AnyOf(<<0, 1, 1, 2, 30>>, Rnd2(x, 8)), e |-> IF n = bigat + 1 THEN 1 ELSE IF n = 1 THEN PickR(Rnd2(x, 9), 2) ELSE IF PickR(Rnd2(x, 9), 4) = 0 THEN 0 ELSE 1,
            x |-> PickR(Rnd2(x, 10), 255)]
  IN MoreRuns(c, n - 1, Rnd2(x, 11), bigat, b, [last EXCEPT ![t] = TimeIn(r, cnt) + AnyOf(<<0, 1, 7, 5000>>, Rnd2(x, 12)) + 1], Append(acc, r))
LongKinds == <<"vp9", "av1", "aac", "h264", "opus", "vp8", "mp3">>
HistoryOf(kk) ==
  LET x == Rnd3(SeedE, kk, 4700)
      n == 1 + PickR(Rnd2(x, 1), 3)
      kinds == [i \in 1..n |-> IF i = 1 THEN LongKinds[1 + ((IF kk % 3 = 0 THEN kk \div 3 ELSE kk) % 7)] ELSE AnyOf(LongKinds, Rnd3(x, 2, i))]
      c == [id |-> "long" \o ToString(kk), op |-> "mux", sink |-> IF kk % 2 = 0 THEN AnyOf(<<"sparse", "file">>, Rnd2(x, 3)) ELSE AnyOf(<<"sparse", "string", "file">>, Rnd2(x, 3)),
            w |-> IF kk % 2 = 0 THEN "simple" ELSE "fast", dflt |-> 0, mts |-> Be(AnyOf(<<1000, 600, 90000>>, Rnd2(x, 4)), 4), dur |-> <<8192, 0>>,
            major |-> Brand4(Rnd2(x, 5)), minor |-> B4(Rnd2(x, 6)), compat |-> CompatsOf(Rnd2(x, 7)),
            tracks |-> [i \in 1..n |-> [TrackOf(1000, kinds[i], Rnd3(x, 8, i)) EXCEPT !.dur = <<8192, 0>>,
                           !.ts = Be(AnyOf(<<90000, 48000, 16000, 65536>>, Rnd3(x, 9, i)), 4), !.dflt = PickR(Rnd3(x, 10, i), 2)]],
            now |-> AnyOf(Nows, Rnd2(x, 18)), ops |-> <<>>]
      runs == MoreRuns(c, 1 + PickR(Rnd2(x, 11), 5), Rnd2(x, 12), IF kk % 3 = 0 THEN 1 + PickR(Rnd2(x, 15), 2) ELSE 0, kk \div 3, [i \in 1..n |-> PickR(Rnd3(x, 13, i), 100)], <<>>)
      order == Shuffle([i \in 1..n |-> i], Rnd2(x, 14))
  IN [c EXCEPT !.ops = Opening \o Tracks0(c, x) \o runs \o Finale(c, order, 0)]

\* ---- the tables, as bytes -----------------------------------------------------------------------
U32(bs, p) == IF bs[p] >= 128 THEN 0 - 1 ELSE ((bs[p] * 256 + bs[p + 1]) * 256 + bs[p + 2]) * 256 + bs[p + 3]
\* body of the first child with this code in bs[p..q]: <<first, last>>, or <<0, 0>>
RECURSIVE Find(_, _, _, _)
Find(bs, p, q, code) ==
  IF p + 7 > q THEN <<0, 0>>
  ELSE LET n == U32(bs, p) IN
       IF n < 8 \/ n > q - p + 1 THEN <<0, 0>>
       ELSE IF SubSeq(bs, p + 4, p + 7) = code THEN <<p + 8, p + n - 1>>
       ELSE Find(bs, p + n, q, code)
RECURSIVE FindAll(_, _, _, _)
FindAll(bs, p, q, code) == LET x == Find(bs, p, q, code) IN IF x = <<0, 0>> THEN <<>> ELSE <<x>> \o FindAll(bs, x[2] + 1, q, code)
RECURSIVE Path(_, _, _)
Path(bs, x, codes) == IF codes = <<>> \/ x = <<0, 0>> THEN x ELSE Path(bs, Find(bs, x[1], x[2], codes[1]), Tail(codes))
Cc(a) == CASE a = "trak" -> <<116,114,97,107>> [] a = "mdia" -> <<109,100,105,97>> [] a = "minf" -> <<109,105,110,102>> [] a = "stbl" -> <<115,116,98,108>>
  [] a = "stts" -> <<115,116,116,115>> [] a = "stsc" -> <<115,116,115,99>> [] a = "stsz" -> <<115,116,115,122>> [] a = "stco" -> <<115,116,99,111>>
  [] a = "co64" -> <<99,111,54,52>> [] a = "stss" -> <<115,116,115,115>> [] a = "sbgp" -> <<115,98,103,112>>
TrakAt(bs, j) == LET l == FindAll(bs, 1, Len(bs), Cc("trak")) IN IF j > Len(l) THEN <<0, 0>> ELSE l[j]
TableAt(bs, trak, name) == Path(bs, trak, <<Cc("mdia"), Cc("minf"), Cc("stbl"), Cc(name)>>)
\* entries of w bytes behind the count at p + 4 (stsz: p + 8): as many as announced, and nothing else
Announced(bs, x, lead) == IF x = <<0, 0>> \/ x[2] - x[1] + 1 < lead + 4 THEN 0 - 1 ELSE U32(bs, x[1] + lead)
Exactly(bs, x, lead, w) == LET n == Announced(bs, x, lead) IN n >= 0 /\ n <= 300000 /\ x[2] - x[1] + 1 = lead + 4 + n * w
Word(bs, x, lead, w, i, d) == U32(bs, x[1] + lead + 4 + (i - 1) * w + d)

\* ---- the predicates --------------------------------------------------------------------------------
\* runs of track t with what lies before them: samples, bytes in the track, bytes in the media data
TrackRuns(hh, t) ==
  LET all == RunsOf(hh)
      Step(acc, r) ==
        LET size == CumIn(r, r.n) + r.n * (IF hh.tracks[r.t].kind = "h264" THEN 5 ELSE 0) IN
        [acc EXCEPT !.media = @ + size,
                    !.count = IF r.t = t THEN @ + r.n ELSE @,
                    !.list = IF r.t = t THEN Append(@, [r |-> r, s |-> acc.count, at |-> acc.media]) ELSE @]
  IN FoldLeft(Step, [media |-> 0, count |-> 0, list |-> <<>>], all)
RunAt(list, s) == CHOOSE i \in 1..Len(list) : list[i].s < s /\ s <= list[i].s + list[i].r.n
Extra(hh, t) == IF hh.tracks[t].kind = "h264" THEN 5 ELSE 0
SizeAt(hh, t, list, s) == LET i == RunAt(list, s) IN SizeIn(list[i].r, s - list[i].s) + Extra(hh, t)
\* position of sample s in the media data
PosAt(hh, t, list, s) == LET y == list[RunAt(list, s)] j == s - y.s IN y.at + CumIn(y.r, j - 1) + (j - 1) * Extra(hh, t)
TimeAt(list, s) == LET y == list[RunAt(list, s)] IN TimeIn(y.r, s - y.s)
\* where the media data begins in the file
MediaAt(top) == LET l == TopBox(top, CMdat) IN IF l = <<>> THEN 0 - 1 ELSE ToInt(Payload(l[1]))
ContentsOk(hh, media, y) ==
  LET r == y.r  ex == Extra(hh, r.t) IN
  \A j \in 1..r.n :
    LET n == SizeIn(r, j)  p == y.at + CumIn(r, j - 1) + (j - 1) * ex IN
    /\ ex = 0 \/ SubSeq(media, p + 1, p + 5) = Be(n + 1, 4) \o <<65>>
    /\ \A i \in 1..n : media[p + ex + i] = ByteIn(r, j, i)
Whereabouts(hh, t, bs, trak, base) ==
  LET tr == TrackRuns(hh, t)  list == tr.list  N == tr.count
      sz == TableAt(bs, trak, "stsz")  sc == TableAt(bs, trak, "stsc")
      co == TableAt(bs, trak, "stco")  c64 == TableAt(bs, trak, "co64")
      wide == c64 # <<0, 0>>
      ox == IF wide THEN c64 ELSE co
      chunks == Announced(bs, ox, 4)
      Off(c) == IF wide THEN (IF Word(bs, ox, 4, 8, c, 0) = 0 THEN Word(bs, ox, 4, 8, c, 4) ELSE 0 - 1) ELSE Word(bs, ox, 4, 4, c, 0)
      fixed == U32(bs, sz[1] + 4)
      es == Announced(bs, sc, 4)
      First(i) == Word(bs, sc, 4, 12, i, 0)  Per(i) == Word(bs, sc, 4, 12, i, 4)
      Until(i) == IF i = es THEN chunks ELSE First(i + 1) - 1
      \* the samples of a chunk lie one behind the other from its offset on
      ChunkOk(c, s, n) ==
        n = 0 \/ (s + n <= N /\ Off(c) = base + PosAt(hh, t, list, s + 1)
                  /\ PosAt(hh, t, list, s + n) - PosAt(hh, t, list, s + 1) =
                     LET a == RunAt(list, s + 1) b == RunAt(list, s + n)
                         Cum(i, s2) == CumIn(list[i].r, s2 - list[i].s - 1) + (s2 - list[i].s - 1) * Extra(hh, t)
                         RECURSIVE Sum(_)
                         Sum(i) == IF i >= b THEN 0 ELSE CumIn(list[i].r, list[i].r.n) + list[i].r.n * Extra(hh, t) + Sum(i + 1)
                     IN Sum(a) - Cum(a, s + 1) + Cum(b, s + n))
      Step(acc, i) ==
        IF acc.msg # "" THEN acc
        ELSE IF (i = 1 /\ First(i) # 1) \/ Until(i) < First(i) \/ Per(i) > N \/ Word(bs, sc, 4, 12, i, 8) # 1
             THEN [acc EXCEPT !.msg = "entry " \o ToString(i) \o " of the chunk table"]
        ELSE LET bad == {c \in First(i)..Until(i) : ~ChunkOk(c, acc.s + (c - First(i)) * Per(i), Per(i))} IN
             IF bad # {} THEN [acc EXCEPT !.msg = "samples not found in chunk " \o ToString(CHOOSE c \in bad : \A d \in bad : c <= d)]
             ELSE [acc EXCEPT !.s = @ + (Until(i) - First(i) + 1) * Per(i)]
      walk == FoldLeft(Step, [s |-> 0, msg |-> ""], [i \in 1..es |-> i])
  IN IF sz = <<0, 0>> \/ sc = <<0, 0>> \/ ((co = <<0, 0>>) = (c64 = <<0, 0>>)) THEN {"sample tables are missing"}
     ELSE IF ~Exactly(bs, sc, 4, 12) \/ ~Exactly(bs, ox, 4, IF wide THEN 8 ELSE 4) THEN {"chunk tables are not as long as they say"}
     ELSE IF Announced(bs, sz, 8) # N THEN {"sample sizes: " \o ToString(Announced(bs, sz, 8)) \o " instead of " \o ToString(N)}
     ELSE IF fixed = 0 /\ ~Exactly(bs, sz, 8, 4) THEN {"sample size table is not as long as it says"}
     ELSE LET bad == {s \in 1..N : SizeAt(hh, t, list, s) # (IF fixed # 0 THEN fixed ELSE Word(bs, sz, 8, 4, s, 0))} IN
          IF bad # {} THEN {"size of sample " \o ToString(CHOOSE s \in bad : \A z \in bad : s <= z)}
          ELSE IF walk.msg # "" THEN {walk.msg}
          ELSE Req(walk.s = N, "samples in chunks: " \o ToString(walk.s) \o " instead of " \o ToString(N))
LongTimes(hh, t, bs, trak) ==
  LET tr == TrackRuns(hh, t)  list == tr.list  N == tr.count
      x == TableAt(bs, trak, "stts")
      D == ToInt(InScale(TsOf(hh.tracks[t]), hh.tracks[t].dur))
      Want(s) == (IF s = N THEN D ELSE TimeAt(list, s + 1)) - TimeAt(list, s)
      Step(acc, i) ==
        IF acc.msg # "" THEN acc
        ELSE LET n == Word(bs, x, 4, 8, i, 0)  d == Word(bs, x, 4, 8, i, 4) IN
             IF n < 0 \/ n > N - acc.s THEN [acc EXCEPT !.msg = "times for more samples than there are"]
             ELSE LET bad == {s \in (acc.s + 1)..(acc.s + n) : Want(s) # d} IN
                  IF bad # {} THEN [acc EXCEPT !.msg = "duration of sample " \o ToString(CHOOSE s \in bad : \A z \in bad : s <= z)]
                  ELSE [acc EXCEPT !.s = @ + n]
      walk == FoldLeft(Step, [s |-> 0, msg |-> ""], [i \in 1..Announced(bs, x, 4) |-> i])
  IN IF x = <<0, 0>> \/ ~Exactly(bs, x, 4, 8) THEN {"no proper table of times"}
     ELSE IF walk.msg # "" THEN {walk.msg} ELSE Req(walk.s = N, "times for " \o ToString(walk.s) \o " samples instead of " \o ToString(N))
LongMarks(hh, t, bs, trak) ==
  LET tr == TrackRuns(hh, t)  list == tr.list  N == tr.count
      x == TableAt(bs, trak, "stss")  g == TableAt(bs, trak, "sbgp")
      KeysOf(y) == IF y.r.q = 0 THEN <<>> ELSE [i \in 1..(y.r.n \div y.r.q) |-> y.s + i * y.r.q]
      keys == Cat([i \in 1..Len(list) |-> KeysOf(list[i])])
      p == hh.tracks[t]
      Step(acc, i) == acc + Word(bs, g, 8, 8, i, 0)
  IN IF IsVideo(p) THEN
       IF x = <<0, 0>> \/ ~Exactly(bs, x, 4, 4) THEN {"no proper table of key samples"}
       ELSE Req(Announced(bs, x, 4) = Len(keys) /\ \A i \in 1..Len(keys) : i <= Announced(bs, x, 4) /\ Word(bs, x, 4, 4, i, 0) = keys[i], "key samples")
     ELSE Req(x = <<0, 0>>, "table of key samples in an audio track")
          \cup (IF p.kind = "mp3" THEN {} ELSE IF g = <<0, 0>> \/ ~Exactly(bs, g, 8, 8) THEN {"no proper roll group"}
                ELSE Req(FoldLeft(Step, 0, [i \in 1..Announced(bs, g, 8) |-> i]) = N /\ \A i \in 1..Announced(bs, g, 8) : Word(bs, g, 8, 8, i, 4) = 1, "samples in the roll group"))
MoovBytes(f, top) == LET l == TopBox(top, CMoov) IN IF l = <<>> \/ ~IsSmall(l[1].size) THEN <<>> ELSE ReadAt(f, Payload(l[1]), ToInt(l[1].size) - l[1].hs)
LongCheck(pid, hh, f) ==
  LET top == Top(f)
      bs == MoovBytes(f, top)
      o == Order(hh)
      base == MediaAt(top)
      all == UNION {{y : y \in {TrackRuns(hh, t).list[i] : i \in 1..Len(TrackRuns(hh, t).list)}} : t \in 1..Len(hh.tracks)}
      total == TrackRuns(hh, 1).media
      ma == TopBox(top, CMdat)
      media == IF ma = <<>> \/ ~Inside(f, Payload(ma[1]), N8(total)) THEN <<>> ELSE ReadAt(f, Payload(ma[1]), total)
  IN Fine(f) \cup Req(bs # <<>>, "no moov") \cup
     (IF bs = <<>> THEN {} ELSE
      UNION {LET trak == TrakAt(bs, j)
                 bad == IF trak = <<0, 0>> THEN {"no track box"} ELSE
                        CASE pid = "C01" -> Whereabouts(hh, o[j], bs, trak, base)
                          [] pid = "C02" -> LongTimes(hh, o[j], bs, trak)
                          [] pid = "C03" -> LongMarks(hh, o[j], bs, trak)
             IN {"track " \o ToString(o[j]) \o ": " \o m : m \in bad} : j \in 1..Len(o)})
     \cup (IF pid # "C01" THEN {} ELSE
           IF Len(media) # total THEN {"media data is missing"}
           ELSE {"contents of the run at " \o ToString(y.at) : y \in {z \in all : ~ContentsOk(hh, media, z)}})
\* positions in the file's first segment of the last byte of table words (for Sharp)
Words(hh, f) ==
  LET top == Top(f)  l == TopBox(top, CMoov)  bs == MoovBytes(f, top)
      start == ToInt(Payload(l[1]))
      At1(trak, name, lead, w, ds) == LET x == TableAt(bs, trak, name) n == Announced(bs, x, lead) IN
        IF x = <<0, 0>> \/ n < 1 THEN <<>> ELSE <<x[1] + lead + 3>> \o Cat([i \in 1..n |-> [d \in 1..Len(ds) |-> x[1] + lead + 4 + (i - 1) * w + ds[d] + 3]])
      Of(trak) == At1(trak, "stsz", 8, 4, <<0>>) \o At1(trak, "stsc", 4, 12, <<0, 4, 8>>) \o At1(trak, "stco", 4, 4, <<0>>)
                  \o At1(trak, "stts", 4, 8, <<0, 4>>) \o At1(trak, "stss", 4, 4, <<0>>) \o At1(trak, "sbgp", 8, 8, <<0, 4>>)
  IN IF hh.w # "fast" THEN <<>> ELSE LET a == Cat([j \in 1..Len(Order(hh)) |-> Of(TrakAt(bs, j))]) IN [i \in 1..Len(a) |-> start + a[i]]
=============================================================================
