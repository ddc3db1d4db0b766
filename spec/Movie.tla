-------------------------------- MODULE Movie --------------------------------
(* What a finished movie has to be, given the history of operations that made
   it (C01 - C06).  The predicates look only at the history and at the bytes of
   the finished file, following the tables as a player would.

   history h: [w, dflt, mts, dur, major, minor, compat, tracks, ops]
   file f:    [len, segs, t0, t1, ids, refused, scales, err]; what is in no
              segment is zero.
   Numbers are big-endian byte sequences unless they are small.
   Each predicate yields the set of its complaints.                           *)
EXTENDS Codec, FiniteSets

Req(c, msg) == IF c THEN {} ELSE {msg}
Max32 == <<0, 0, 0, 0, 255, 255, 255, 255>>
N8(n) == Be(n, 8)
Add8(a, n) == AddB(a, N8(n))
Sub8(a, b) == AddB(a, Neg(b))
Leq8(a, b) == ~LessB(b, a)
\* times a small integer (below 2^22), to 8 bytes
RECURSIVE MulR(_, _, _)
MulR(bs, m, c) == IF bs = <<>> THEN <<>>
  ELSE LET x == Last(bs) * m + c IN Append(MulR(Front(bs), m, x \div 256), x % 256)
Mul8(bs, m) == MulR(Widen(bs, 8), m, 0)
\* duration d = <<a, k>> (a / 2^k seconds) in a time scale
InScale(ts, d) == Widen(Strip(DivMod(Mul8(ts, d[1]), 2 ^ d[2])[1]), 8)
\* Durations are given as floats.  The stored one is the product if that is a whole number a float
\* holds, one of its neighbours if it is not whole, and close to it if no float holds the product.
RECURSIVE Trim0(_)
Trim0(b) == IF b # <<>> /\ b[Len(b)] = 0 THEN Trim0(Front(b)) ELSE b
RECURSIVE Lead0(_)
Lead0(b) == IF b # <<>> /\ b[1] = 0 THEN Lead0(Tail(b)) ELSE b
Held(ts, d) == Len(Trim0(Lead0(BitsOf(Mul8(ts, d[1]))))) <= 24
Exact(ts, d) == Held(ts, d) /\ DivMod(Mul8(ts, d[1]), 2 ^ d[2])[2] = 0
Slack8(ts, d) == IF Exact(ts, d) THEN Zeros(8) ELSE IF Held(ts, d) THEN N8(1)
                 ELSE AddB(N8(1), Widen(Strip(DivMod(InScale(ts, d), 2 ^ 22)[1]), 8))
IsDur(v, ts, d) == LET F == InScale(ts, d) s == Slack8(ts, d) w == Widen(v, 8) IN
  /\ Leq8(w, AddB(F, s))
  /\ IF Held(ts, d) THEN Leq8(F, w) ELSE Leq8(F, AddB(w, s))
\* no stored duration is below
LowDur(ts, d) == LET F == InScale(ts, d) s == Slack8(ts, d) IN IF Held(ts, d) THEN F ELSE IF LessB(F, s) THEN Zeros(8) ELSE Sub8(F, s)

\* ---- what the history says ---------------------------------------------------------------
Defaults == [mts |-> Be(1000, 4), major |-> <<105,115,111,109>>, minor |-> Be(512, 4),
             compat |-> << <<105,115,111,109>>, <<105,115,111,50>>, <<109,112,52,49>> >>]
Mts(h) == IF h.dflt = 1 THEN Defaults.mts ELSE h.mts
IsVideo(p) == p.kind \in {"vp8", "vp9", "av1", "h264"}
\* a parameter or its documented default
Param(p, n) ==
  IF p.dflt = 0 THEN p[n]
  ELSE CASE n = "mt" -> Zeros(8) [] n = "buf" -> Be(768, 4) [] n = "roll" -> -4
         [] n \in {"maxb", "avgb"} -> IF IsVideo(p) THEN Zeros(4) ELSE p[n]
         [] n = "level" -> (IF p.kind = "h264" THEN 31 ELSE 0)
         [] n = "prof" -> (IF p.kind = "h264" THEN 66 ELSE 0)
         [] n \in {"tier", "csp"} -> 0 [] n \in {"cx", "cy"} -> 1
         [] n = "obus" -> <<10, 11, 0, 0, 0, 4, 71, 126, 26, 255, 252, 192, 32>>
         [] n = "cv" -> 1 [] n = "compat" -> 192
TsOf(p) == IF p.kind = "opus" THEN Be(48000, 4) ELSE p.ts
Ops(h, o) == SelectSeq(h.ops, LAMBDA x : x.o = o)
OpsOf(h, o, i) == SelectSeq(h.ops, LAMBDA x : x.o = o /\ x.t = i)
Whole(bs) == [n |-> Len(bs), b |-> bs, z |-> <<>>]
NalType(u) == u.nal[1] % 32
Slices(us) == LET s == SelectSeq(us, LAMBDA u : NalType(u) \in 1..5) IN
  [i \in 1..Len(s) |-> Whole(Be(Len(s[i].nal), 4) \o s[i].nal)]
BlobsOf(p, op) == IF p.kind = "h264" THEN Slices(op.units) ELSE <<op.data>>
RECURSIVE SamplesR(_, _, _)
SamplesR(p, adds, j) == IF j > Len(adds) THEN <<>>
  ELSE LET b == BlobsOf(p, adds[j]) IN
       [x \in 1..Len(b) |-> [ts |-> adds[j].ts, key |-> adds[j].key, d |-> b[x]]] \o SamplesR(p, adds, j + 1)
Samples(h, i) == SamplesR(h.tracks[i], OpsOf(h, "add", i), 1)
\* everything that went into the media data, in order
RECURSIVE MediaR(_, _)
MediaR(h, j) == IF j > Len(h.ops) THEN <<>>
  ELSE LET x == h.ops[j] IN
       (CASE x.o = "add" -> BlobsOf(h.tracks[x.t], x) [] x.o = "raw" -> <<x.data>> [] OTHER -> <<>>) \o MediaR(h, j + 1)
Media(h) == MediaR(h, 1)
RECURSIVE Sum8(_, _)
Sum8(bl, j) == IF j > Len(bl) THEN Zeros(8) ELSE AddB(N8(bl[j].n), Sum8(bl, j + 1))
Order(h) == Ops(h, "append")[1].order
\* parameter sets, each once
AddNew(l, n) == IF \E j \in 1..Len(l) : l[j] = n THEN l ELSE Append(l, n)
Nals(h, i, ty) == LET us == Cat([j \in 1..Len(OpsOf(h, "add", i)) |-> OpsOf(h, "add", i)[j].units])
                  IN FoldLeft(LAMBDA acc, u : IF NalType(u) = ty THEN AddNew(acc, u.nal) ELSE acc, <<>>, us)
MediaTime(h, i) == LET l == OpsOf(h, "mt", i) IN IF l = <<>> THEN Param(h.tracks[i], "mt") ELSE l[Len(l)].mt

\* ---- the bytes ---------------------------------------------------------------------------------
Far == 2000000000
Dist(a, b) ==   \* a - b, cut off
  IF LessB(a, b) THEN LET d == Sub8(b, a) IN IF IsSmall(d) /\ ToInt(d) < Far THEN 0 - ToInt(d) ELSE 0 - Far
  ELSE LET d == Sub8(a, b) IN IF IsSmall(d) /\ ToInt(d) < Far THEN ToInt(d) ELSE Far
ReadAt(f, off, n) ==
  LET rel == [j \in 1..Len(f.segs) |-> Dist(f.segs[j].o, off)]
      over == {j \in 1..Len(f.segs) : rel[j] < n /\ rel[j] + Len(f.segs[j].b) > 0}
      l == SelectSeq([j \in 1..Len(f.segs) |-> j], LAMBDA j : j \in over)
      End(j) == rel[j] + Len(f.segs[j].b)
      \* one behind the other, as they are in recorded files
      ordered == \A i \in 2..Len(l) : End(l[i - 1]) <= rel[l[i]]
      Piece(i) == LET j == l[i]
                      a == IF rel[j] < 0 THEN 0 ELSE rel[j]
                      b == IF End(j) > n THEN n ELSE End(j)
                  IN Zeros(a - (IF i = 1 THEN 0 ELSE End(l[i - 1]))) \o SubSeq(f.segs[j].b, a - rel[j] + 1, b - rel[j])
  IN IF n = 0 THEN <<>>
     ELSE IF over = {} THEN Zeros(n)
     ELSE LET j == l[1] IN
       IF Len(l) = 1 /\ rel[j] <= 0 /\ End(j) >= n THEN SubSeq(f.segs[j].b, 1 - rel[j], n - rel[j])
       ELSE IF ordered THEN Cat([i \in 1..Len(l) |-> Piece(i)]) \o Zeros(IF End(l[Len(l)]) >= n THEN 0 ELSE n - End(l[Len(l)]))
       ELSE [i \in 1..n |-> LET c == {x \in over : rel[x] < i /\ i <= rel[x] + Len(f.segs[x].b)} IN
                              IF c = {} THEN 0 ELSE LET x == CHOOSE x \in c : TRUE IN f.segs[x].b[i - rel[x]]]
Inside(f, off, n) == Leq8(AddB(off, n), f.len)
BlobAt(f, pos, bl) ==
  /\ Inside(f, pos, N8(bl.n))
  /\ ReadAt(f, pos, Len(bl.b)) = bl.b
  /\ ReadAt(f, Add8(pos, bl.n - Len(bl.z)), Len(bl.z)) = bl.z

\* ---- boxes ----------------------------------------------------------------------------------------
RECURSIVE TopR(_, _, _)
TopR(f, off, acc) ==
  IF off = f.len THEN [ok |-> TRUE, boxes |-> acc]
  ELSE IF Len(acc) > 20 \/ ~Inside(f, off, N8(8)) THEN [ok |-> FALSE, boxes |-> acc]
  ELSE LET b == ReadAt(f, off, 16)
           large == SubSeq(b, 1, 4) = <<0, 0, 0, 1>>
           size == IF large THEN SubSeq(b, 9, 16) ELSE IF SubSeq(b, 1, 4) = Zeros(4) THEN Sub8(f.len, off) ELSE Widen(SubSeq(b, 1, 4), 8)
           hs == IF large THEN 16 ELSE 8
           x == [c |-> SubSeq(b, 5, 8), o |-> off, size |-> size, hs |-> hs]
       IN IF LessB(size, N8(hs)) \/ ~Inside(f, off, size) \/ LessB(f.len, size) THEN [ok |-> FALSE, boxes |-> acc]
          ELSE TopR(f, AddB(off, size), Append(acc, x))
Top(f) == TopR(f, Zeros(8), <<>>)
CMoov == <<109,111,111,118>>  CMdat == <<109,100,97,116>>  CFtyp == <<102,116,121,112>>  CFree == <<102,114,101,101>>

Parents == Containers \cup {"Meta", "Dref", "Stsd", "VisualSampleEntry", "AudioSampleEntry"}
RECURSIVE KidsR(_, _, _, _), Node(_, _, _, _)
KidsR(bs, p, q, acc) ==
  IF p = q + 1 THEN [ok |-> TRUE, n |-> acc]
  ELSE IF q - p + 1 < 8 THEN [ok |-> FALSE, n |-> acc]
  ELSE LET sz == SubSeq(bs, p, p + 3)
           n == IF IsSmall(sz) THEN ToInt(sz) ELSE 0
       IN IF n < 8 \/ n > q - p + 1 THEN [ok |-> FALSE, n |-> acc]
          ELSE KidsR(bs, p + n, q, Append(acc, Node(SubSeq(bs, p + 4, p + 7), bs, p + 8, p + n - 1)))
Node(c, bs, p, q) ==
  LET kind == KindOf(c)
      s == DecodeAt(kind, IF kind = "AudioSampleEntry" THEN "code" :> c ELSE EmptyEnv, bs, p, q)
      k == IF ~s.ok THEN [ok |-> FALSE, n |-> <<>>]
           ELSE IF kind \in Parents THEN KidsR(bs, s.p, q, <<>>) ELSE [ok |-> s.p = q + 1, n |-> <<>>]
  IN [c |-> c, kind |-> kind, ok |-> k.ok /\ \A i \in 1..Len(k.n) : k.n[i].ok, e |-> s.e, kids |-> k.n]
NoNode == [c |-> <<>>, kind |-> "none", ok |-> FALSE, e |-> EmptyEnv, kids |-> <<>>]
AllKids(x, kind) == SelectSeq(x.kids, LAMBDA y : y.kind = kind)
Kid(x, kind) == LET l == AllKids(x, kind) IN IF l = <<>> THEN NoNode ELSE l[1]
RECURSIVE At(_, _)
At(x, path) == IF path = <<>> THEN x ELSE At(Kid(x, path[1]), Tail(path))
TopBox(top, c) == SelectSeq(top.boxes, LAMBDA b : b.c = c)
\* the moov tree; a box too large to be one is not looked at
Moov(f, top) == LET l == TopBox(top, CMoov) IN
  IF l = <<>> \/ ~IsSmall(l[1].size) \/ ToInt(l[1].size) > 4000000 THEN NoNode
  ELSE LET n == ToInt(l[1].size) IN Node(CMoov, ReadAt(f, l[1].o, n), 1 + l[1].hs, n)
Traks(m) == AllKids(m, "Trak")
Stbl(t) == At(t, <<"Mdia", "Minf", "Stbl">>)
Is(x, n, v) == n \in DOMAIN x.e /\ EqN(x.e[n], v)
IsBits(x, n, v) == n \in DOMAIN x.e /\ x.e[n] = v
ListOf(x, n) == IF n \in DOMAIN x.e THEN x.e[n] ELSE <<>>

\* ---- tables -----------------------------------------------------------------------------------------
Most == 100000
Cap(b) == IF IsSmall(b) /\ ToInt(b) < Most THEN ToInt(b) ELSE Most
Wide(t) == AllKids(Stbl(t), "Co64") # <<>>
Offsets(t) == LET x == IF Wide(t) THEN Kid(Stbl(t), "Co64") ELSE Kid(Stbl(t), "Stco") l == ListOf(x, "chunk_offsets") IN
  [i \in 1..Len(l) |-> Widen(l[i]["v"], 8)]
\* samples in chunk c
RECURSIVE InChunk(_, _, _)
InChunk(es, c, i) == IF i > Len(es) \/ Cap(es[i]["first_chunk"]) > c THEN IF i = 1 THEN 0 ELSE Cap(es[i - 1]["samples_per_chunk"])
                     ELSE InChunk(es, c, i + 1)
Sizes(t) == LET x == Kid(Stbl(t), "Stsz") IN
  IF "entry_sizes" \in DOMAIN x.e THEN [i \in 1..Len(x.e["entry_sizes"]) |-> x.e["entry_sizes"][i]["v"]]
  ELSE IF "sample_count" \in DOMAIN x.e THEN [i \in 1..Cap(x.e["sample_count"]) |-> x.e["sample_size"]] ELSE <<>>
\* positions of the samples
RECURSIVE PlaceR(_, _, _, _, _, _)
PlaceR(offs, counts, sizes, c, j, pos) ==   \* c: chunk, j: samples of it done
  IF c > Len(offs) THEN <<>>
  ELSE IF j >= counts[c] THEN PlaceR(offs, counts, sizes, c + 1, 0, IF c < Len(offs) THEN offs[c + 1] ELSE Zeros(8))
  ELSE IF sizes = <<>> THEN <<>>
  ELSE <<pos>> \o PlaceR(offs, counts, Tail(sizes), c, j + 1, AddB(pos, Widen(sizes[1], 8)))
RECURSIVE SumI(_, _)
SumI(l, i) == IF i > Len(l) THEN 0 ELSE l[i] + SumI(l, i + 1)
Located(h, f, i, t) ==   \* complaints about the samples of track i
  LET want == Samples(h, i)
      offs == Offsets(t)
      es == ListOf(Kid(Stbl(t), "Stsc"), "entries")
      counts == [c \in 1..Len(offs) |-> InChunk(es, c, 1)]
      sizes == Sizes(t)
      n == SumI(counts, 1)
      pos == IF offs = <<>> THEN <<>> ELSE PlaceR(offs, counts, sizes, 1, 0, offs[1])
      bad == {s \in 1..Len(want) : ~(EqN(sizes[s], N8(want[s].d.n)) /\ BlobAt(f, pos[s], want[s].d))}
  IN IF t.kind = "none" THEN {"no track box"}
     ELSE IF Kid(Stbl(t), "Stsc").kind = "none" \/ Kid(Stbl(t), "Stsz").kind = "none" \/
             Len(AllKids(Stbl(t), "Stco")) + Len(AllKids(Stbl(t), "Co64")) # 1 THEN {"sample tables are missing"}
     ELSE Req(Len(sizes) = Len(want), "sample sizes: " \o ToString(Len(sizes)) \o " instead of " \o ToString(Len(want)))
     \cup Req(n = Len(want), "samples in chunks: " \o ToString(n) \o " instead of " \o ToString(Len(want)))
     \cup Req(\A x \in 1..Len(es) : Is([e |-> es[x]], "sample_description_index", <<1>>), "sample description index")
     \cup (IF Len(sizes) # Len(want) \/ n # Len(want) THEN {}
           ELSE Req(bad = {}, "samples not found: " \o ToString(bad)))
\* P(i, t): complaints about track i in track box t, for the tracks in order
ForTracks(h, m, P(_, _)) == LET o == Order(h) ts == Traks(m) IN
  UNION {LET t == IF j <= Len(ts) THEN ts[j] ELSE NoNode IN {"track " \o ToString(o[j]) \o ": " \o c : c \in P(o[j], t)} : j \in 1..Len(o)}
Fine(f) == Req(f.err = "", "an error was reported: " \o f.err)

C01(h, f, top, m) == Fine(f) \cup ForTracks(h, m, LAMBDA i, t : Located(h, f, i, t))

\* ---- times ------------------------------------------------------------------------------------------------
RECURSIVE Expand(_, _)
Expand(es, i) == IF i > Len(es) THEN <<>> ELSE [x \in 1..Cap(es[i]["sample_count"]) |-> es[i]["sample_duration"]] \o Expand(es, i + 1)
RECURSIVE CountR(_, _)
CountR(es, i) == IF i > Len(es) THEN 0 ELSE Cap(es[i]["sample_count"]) + CountR(es, i + 1)
Times2(h, f, x, name) ==
  LET Ok(n) == n \in DOMAIN x.e /\ LET v == Widen(x.e[n], 8) IN Leq8(f.t0, v) /\ Leq8(v, f.t1)
  IN Req(Ok("creation_time"), name \o " creation time") \cup Req(Ok("modification_time"), name \o " modification time")
Timed(h, f, i, t) ==
  LET s == Samples(h, i)
      p == h.tracks[i]
      Stored(x) == IF "duration" \in DOMAIN x.e THEN Widen(x.e["duration"], 8) ELSE Zeros(8)
      d == Stored(At(t, <<"Mdia", "Mdhd">>))
      dm == Stored(Kid(t, "Tkhd"))
      want == [j \in 1..Len(s) |-> Sub8(IF j = Len(s) THEN d ELSE s[j + 1].ts, s[j].ts)]
      es == ListOf(Kid(Stbl(t), "Stts"), "entries")
      got == Expand(es, 1)
      mdhd == At(t, <<"Mdia", "Mdhd">>)  tkhd == Kid(t, "Tkhd")
      el == ListOf(At(t, <<"Edts", "Elst">>), "entries")
  IN IF t.kind = "none" THEN {"no track box"}
     ELSE Req(Kid(Stbl(t), "Stts").kind # "none", "no table of times")
     \cup (IF CountR(es, 1) # Len(s) THEN {"times for " \o ToString(CountR(es, 1)) \o " samples instead of " \o ToString(Len(s))}
           ELSE LET bad == {j \in 1..Len(s) : ~EqN(got[j], want[j])} IN Req(bad = {}, "durations of samples " \o ToString(bad)))
     \cup Req(Is(mdhd, "timescale", TsOf(p)), "media time scale") \cup Req("duration" \in DOMAIN mdhd.e /\ IsDur(d, TsOf(p), p.dur), "media duration")
     \cup Req("duration" \in DOMAIN tkhd.e /\ IsDur(dm, Mts(h), p.dur), "track duration")
     \cup Req(Len(el) = 1, "edit list entries")
     \cup (IF Len(el) # 1 THEN {} ELSE
             Req(EqN(el[1]["track_duration"], dm), "edit list duration")
             \cup Req(SignExt(BitsOf(el[1]["media_time"]), 64) = BitsOf(MediaTime(h, i)), "media time")
             \cup Req(EqN(el[1]["media_rate"], <<1, 0, 0>>), "media rate"))
     \cup Times2(h, f, mdhd, "media") \cup Times2(h, f, tkhd, "track")
C02(h, f, top, m) ==
  LET mvhd == Kid(m, "Mvhd") IN
  Fine(f) \cup Req(Is(mvhd, "timescale", Mts(h)), "movie time scale")
  \cup Req("duration" \in DOMAIN mvhd.e /\ IsDur(mvhd.e["duration"], Mts(h), h.dur), "movie duration")
  \cup Times2(h, f, mvhd, "movie")
  \cup ForTracks(h, m, LAMBDA i, t : Timed(h, f, i, t))

\* ---- key samples and roll groups -----------------------------------------------------------------------------
RollDistance(p) == IF p.kind = "aac" THEN -1 ELSE Param(p, "roll")
S16(n) == IF n < 0 THEN Be(65536 + n, 2) ELSE Be(n, 2)
Marked(h, f, i, t) ==
  LET p == h.tracks[i]
      s == Samples(h, i)
      keys == SelectSeq([j \in 1..Len(s) |-> j], LAMBDA j : s[j].key = 1)
      x == Kid(Stbl(t), "Stss")
      got == ListOf(x, "sample_numbers")
      gd == AllKids(Stbl(t), "Sgpd")  gb == AllKids(Stbl(t), "Sbgp")
      ge == ListOf(Kid(Stbl(t), "Sbgp"), "entries")
      IsRoll(y) == Val(y.e, "grouping_type", <<>>) = Roll
  IN IF t.kind = "none" THEN {"no track box"}
     ELSE IF IsVideo(p) THEN
       Req(Len(AllKids(Stbl(t), "Stss")) = 1, "no table of key samples")
       \cup Req(Len(got) = Len(keys) /\ \A j \in 1..Len(keys) : j <= Len(got) /\ EqN(got[j]["v"], Be(keys[j], 4)), "key samples are not " \o ToString(keys))
     ELSE Req(x.kind = "none", "table of key samples in an audio track")
       \cup (IF p.kind = "mp3" THEN {} ELSE
              Req(Len(gd) = 1 /\ Len(gb) = 1, "roll group boxes")
              \cup (IF Len(gd) # 1 \/ Len(gb) # 1 THEN {} ELSE
                     Req(IsRoll(gd[1]) /\ IsRoll(gb[1]), "grouping type")
                     \cup Req(Len(ListOf(gd[1], "roll_distances")) = 1 /\
                              gd[1].e["roll_distances"][1]["roll_distance"] = S16(RollDistance(p)), "roll distance")
                     \cup Req(CountR(ge, 1) = Len(s) /\ \A j \in 1..Len(ge) : EqN(ge[j]["group_description_index"], <<1>>) \/ Cap(ge[j]["sample_count"]) = 0,
                              "samples in the roll group")))
C03(h, f, top, m) == Fine(f) \cup ForTracks(h, m, LAMBDA i, t : Marked(h, f, i, t))

\* ---- tiling ------------------------------------------------------------------------------------------------------
RECURSIVE Misplaced(_, _, _, _)
Misplaced(f, media, j, pos) == IF j > Len(media) THEN {}
  ELSE (IF BlobAt(f, pos, media[j]) THEN {} ELSE {j}) \cup Misplaced(f, media, j + 1, Add8(pos, media[j].n))
Payload(b) == Add8(b.o, b.hs)
C04(h, f, top, m) ==
  LET codes == [i \in 1..Len(top.boxes) |-> top.boxes[i].c]
      mdat == TopBox(top, CMdat)
      large == mdat # <<>> /\ mdat[1].hs = 16
      ft == TopBox(top, CFtyp)
      fe == IF ft = <<>> THEN NoNode ELSE Node(CFtyp, ReadAt(f, ft[1].o, ToInt(ft[1].size)), 1 + ft[1].hs, ToInt(ft[1].size))
      D == IF h.dflt = 1 THEN Defaults ELSE [mts |-> h.mts, major |-> h.major, minor |-> h.minor, compat |-> h.compat]
      total == Sum8(Media(h), 1)
  IN Fine(f) \cup Req(top.ok, "the boxes do not tile the file: " \o ToString(codes))
     \cup Req(codes = IF h.w = "fast" THEN <<CFtyp, CMoov, CMdat>>
                      ELSE IF large THEN <<CFtyp, CMdat, CMoov>> ELSE <<CFtyp, CFree, CMdat, CMoov>>, "order of the boxes: " \o ToString(codes))
     \cup (IF h.w = "fast" \/ large THEN {} ELSE
             Req(\A i \in 1..Len(top.boxes) : codes[i] = CFree => top.boxes[i].size = N8(8), "size of the free box"))
     \cup (IF mdat = <<>> THEN {"no media data"} ELSE
             Req(mdat[1].size = Add8(total, mdat[1].hs), "size of the media data")
             \cup (LET bad == Misplaced(f, Media(h), 1, Payload(mdat[1])) IN Req(bad = {}, "media data at " \o ToString(bad))))
     \cup (IF ft = <<>> THEN {"no brands"} ELSE
             Req(Val(fe.e, "major_brand", <<>>) = D.major, "major brand") \cup Req(Is(fe, "minor_version", D.minor), "minor version")
             \cup Req([i \in 1..Len(ListOf(fe, "compatible_brands")) |-> fe.e["compatible_brands"][i]["v"]] = D.compat, "compatible brands"))
     \cup Req(m.kind = "Moov" /\ m.ok, "inner boxes do not tile the movie box")

\* ---- 64-bit forms ------------------------------------------------------------------------------------------------------
Forms(h, f, i, t) ==
  LET offs == Offsets(t) IN
  Located(h, f, i, t) \cup
  (IF t.kind = "none" THEN {} ELSE
   Req(Wide(t) = (offs # <<>> /\ LessB(Max32, offs[Len(offs)])), "width of the chunk offsets; last chunk at " \o HexOfBytes(IF offs = <<>> THEN <<>> ELSE offs[Len(offs)])))
C05(h, f, top, m) ==
  LET total == Sum8(Media(h), 1)
      mdat == TopBox(top, CMdat) IN
  Fine(f) \cup (IF mdat = <<>> THEN {"no media data"} ELSE
    Req((mdat[1].hs = 16) = LessB(Max32, Add8(total, 8)), "form of the media header")
    \cup Req(mdat[1].size = Add8(total, mdat[1].hs), "size of the media data"))
  \cup ForTracks(h, m, LAMBDA i, t : Forms(h, f, i, t))

\* ---- descriptions -------------------------------------------------------------------------------------------------------
\* fields: sequence of <<name, bytes>>
Fields(x, name, fs) == IF x.kind = "none" THEN {"no " \o name} ELSE
  UNION {Req(Is(x, fs[i][1], fs[i][2]), name \o " " \o fs[i][1]) : i \in 1..Len(fs)}
Bits(x, name, fs) == IF x.kind = "none" THEN {} ELSE
  UNION {Req(IsBits(x, fs[i][1], fs[i][2]), name \o " " \o fs[i][1]) : i \in 1..Len(fs)}
B2(n) == Be(n, 2)
Codes == [aac |-> <<109,112,52,97>>, mp3 |-> <<109,112,52,97>>, opus |-> <<79,112,117,115>>, vp8 |-> <<118,112,48,56>>,
          vp9 |-> <<118,112,48,57>>, av1 |-> <<97,118,48,49>>, h264 |-> <<97,118,99,49>>]
Descs(x, tag) == SelectSeq(ListOf(Kid(x, "Esds"), "descriptors"), LAMBDA d : d["tag"] = <<tag>>)
Low(bs, n) == SubSeq(bs, Len(bs) - n + 1, Len(bs))
Avc(h, i) == LET p == h.tracks[i] sps == Nals(h, i, 7) IN
  IF sps # <<>> THEN <<Param(p, "cv"), sps[1][2], sps[1][3], sps[1][4]>>
  ELSE <<Param(p, "cv"), Param(p, "prof"), Param(p, "compat"), Param(p, "level")>>
Config(h, f, i, id, x) ==
  LET p == h.tracks[i] IN
  CASE p.kind \in {"aac", "mp3"} ->
        LET es == Descs(x, 3) dcd == Descs(x, 4) dsi == Descs(x, 5) IN
        Req(Len(es) = 1 /\ Len(dcd) = 1, "descriptors")
        \cup (IF Len(dcd) # 1 \/ Len(es) # 1 THEN {} ELSE
               Req(p.kind = "mp3" \/ es[1]["ESID"] = Low(id, 2), "ES id")
               \cup Req(dcd[1]["object_type_indication"] = <<IF p.kind = "aac" THEN 64 ELSE 107>>, "object type")
               \cup Req(dcd[1]["stream_type"] = 5, "stream type")
               \cup Req(EqN(dcd[1]["buffer_size_db"], Param(p, "buf")), "buffer size")
               \cup Req(EqN(dcd[1]["max_bitrate"], p.maxb), "maximal bit rate")
               \cup Req(EqN(dcd[1]["avg_bitrate"], p.avgb), "average bit rate"))
        \cup (IF p.kind = "aac" THEN
               Req(Len(dsi) = 1, "decoder specific information")
               \cup (IF Len(dsi) = 1 /\ EqN(p.ts, Be(48000, 4)) THEN Req(dsi[1]["data"] = <<17, 144>>, "decoder specific information") ELSE {})
               \cup Fields(Kid(x, "Btrt"), "bit rates", <<<<"max_bitrate", p.maxb>>, <<"avg_bitrate", p.avgb>>>>)
              ELSE {})
    [] p.kind = "opus" ->
        Fields(Kid(x, "DOps"), "dOps", <<<<"output_channel_count", <<2>>>>, <<"pre_skip", B2(p.pre)>>, <<"input_sample_rate", Be(48000, 4)>>,
               <<"output_gain", <<0>>>>, <<"channel_mapping_family", <<0>>>>>>)
    [] p.kind \in {"vp8", "vp9"} ->
        Fields(Kid(x, "VPCodecConfiguration"), "vpcC", <<<<"version", <<1>>>>, <<"profile", <<0>>>>, <<"level", <<21>>>>>>)
        \cup Bits(Kid(x, "VPCodecConfiguration"), "vpcC", <<<<"bit_depth", 8>>>>)
        \cup Fields(Kid(x, "Btrt"), "bit rates", <<<<"max_bitrate", Param(p, "maxb")>>, <<"avg_bitrate", Param(p, "avgb")>>>>)
    [] p.kind = "av1" ->
        Bits(Kid(x, "AV1CodecConfiguration"), "av1C", <<<<"marker", 1>>, <<"version", 1>>, <<"seq_profile", Param(p, "prof")>>,
              <<"seq_level_idx_0", Param(p, "level")>>, <<"seq_tier_0", Param(p, "tier")>>, <<"chroma_subsampling_x", Param(p, "cx")>>,
              <<"chroma_subsampling_y", Param(p, "cy")>>, <<"chroma_sample_position", Param(p, "csp")>>>>)
        \cup Req(Val(Kid(x, "AV1CodecConfiguration").e, "config_OBUs", <<-1>>) = Param(p, "obus"), "av1C config OBUs")
    [] p.kind = "h264" ->
        LET a == Kid(x, "AVCDecoderConfiguration") c == Avc(h, i)
            L(n) == [j \in 1..Len(ListOf(a, n)) |-> a.e[n][j]["nal_unit"]]
        IN Fields(a, "avcC", <<<<"configuration_version", <<c[1]>>>>, <<"profile", <<c[2]>>>>,
                    <<"profile_compatibility", <<c[3]>>>>, <<"level", <<c[4]>>>>>>)
           \cup Bits(a, "avcC", <<<<"length_size_minus_one", 3>>>>)
           \cup Req(L("sequence_parameter_sets") = Nals(h, i, 7), "sequence parameter sets")
           \cup Req(L("picture_parameter_sets") = Nals(h, i, 8), "picture parameter sets")
CVide == <<118,105,100,101>>  CSoun == <<115,111,117,110>>
Unity9 == [i \in 1..9 |-> IF i \in {1, 5} THEN <<0, 1, 0, 0>> ELSE IF i = 9 THEN <<64, 0, 0, 0>> ELSE Zeros(4)]
Matrix(x) == LET l == ListOf(x, "matrix") IN Len(l) = 9 /\ \A i \in 1..9 : EqN(l[i]["v"], Unity9[i])
Described(h, f, i, id, t) ==
  LET p == h.tracks[i]
      mdia == Kid(t, "Mdia")
      minf == Kid(mdia, "Minf")
      stsd == Kid(Stbl(t), "Stsd")
      x == IF Len(stsd.kids) = 1 THEN stsd.kids[1] ELSE NoNode
      v == IsVideo(p)
      dref == At(minf, <<"Dinf", "Dref">>)
  IN IF t.kind = "none" THEN {"no track box"}
     ELSE Fields(Kid(t, "Tkhd"), "track header", <<<<"track_id", id>>, <<"volume", IF v THEN <<0>> ELSE <<1, 0>>>>,
              <<"width", IF v THEN B2(p.width) \o <<0, 0>> ELSE <<0>>>>, <<"height", IF v THEN B2(p.height) \o <<0, 0>> ELSE <<0>>>>,
              <<"flags", <<0, 0, 3>>>>>>)
     \cup Req(Matrix(Kid(t, "Tkhd")), "track matrix")
     \cup Fields(Kid(mdia, "Mdhd"), "media header", <<<<"timescale", TsOf(p)>>>>)
     \cup Bits(Kid(mdia, "Mdhd"), "media header", <<<<"language0", 21>>, <<"language1", 14>>, <<"language2", 4>>>>)
     \cup Req(Val(Kid(mdia, "Hdlr").e, "handler_type", <<>>) = IF v THEN CVide ELSE CSoun, "handler")
     \cup Req(Kid(minf, IF v THEN "Vmhd" ELSE "Smhd").kind # "none" /\ Kid(minf, IF v THEN "Smhd" ELSE "Vmhd").kind = "none", "media header type")
     \cup Req(Len(dref.kids) = 1 /\ Is(dref, "entry_count", <<1>>) /\ Is(Kid(dref, "Url"), "flags", <<1>>), "data reference")
     \cup Req(Is(stsd, "entry_count", <<1>>) /\ Len(stsd.kids) = 1, "number of sample entries")
     \cup Req(x.c = Codes[p.kind], "sample entry code")
     \cup Fields(x, "sample entry", IF v THEN <<<<"data_reference_index", <<1>>>>, <<"width", B2(p.width)>>, <<"height", B2(p.height)>>>>
                  ELSE <<<<"data_reference_index", <<1>>>>, <<"entry_version", <<0>>>>, <<"channel_count", <<2>>>>, <<"sample_size", <<16>>>>>>
                       \o (IF SubSeq(TsOf(p), 1, 2) = <<0, 0>> THEN <<<<"sample_rate", SubSeq(TsOf(p), 3, 4) \o <<0, 0>>>>>> ELSE <<>>))
     \cup Config(h, f, i, id, x)
\* ids that tracks were made with, 4 bytes; <<>> for a track that was not made
RECURSIVE NextIds(_, _, _)
NextIds(h, j, n) == IF j > Len(h.ops) THEN <<>>
  ELSE LET x == h.ops[j] IN
       IF x.o = "id" THEN <<n>> \o NextIds(h, j + 1, n + 1)
       ELSE IF x.o = "track" /\ x.next = 1 THEN <<n>> \o NextIds(h, j + 1, n + 1)
       ELSE NextIds(h, j + 1, n)
RECURSIVE IdOf(_, _, _, _)
IdOf(h, i, j, n) == LET x == h.ops[j] IN
  IF x.o = "track" /\ x.t = i /\ (x.next = 1 \/ x.id > 0) THEN (IF x.next = 1 THEN n ELSE x.id)
  ELSE IdOf(h, i, j + 1, IF x.o = "id" \/ (x.o = "track" /\ x.next = 1) THEN n + 1 ELSE n)
TrackOps(h) == Ops(h, "track")
C06(h, f, top, m) ==
  LET ids == NextIds(h, 1, 1)
      o == Order(h)
      meta == At(m, <<"Udta", "Meta">>)
      too == LET l == SelectSeq(Kid(meta, "Ilst").kids, LAMBDA y : y.c = <<169, 116, 111, 111>>) IN IF l = <<>> THEN NoNode ELSE l[1]
      d == Kid(too, "Data")
  IN Fine(f) \cup Req(f.ids = ids, "ids handed out: " \o ToString(f.ids))
     \cup Req(f.refused = [j \in 1..Len(TrackOps(h)) |-> IF TrackOps(h)[j].next = 0 /\ TrackOps(h)[j].id = 0 THEN 1 ELSE 0], "tracks refused")
     \cup Req(Len(Traks(m)) = Len(o), ToString(Len(Traks(m))) \o " track boxes instead of " \o ToString(Len(o)))
     \cup Req([j \in 1..Len(f.scales) |-> f.scales[j]] = [j \in 1..Len(o) |-> ToInt(TsOf(h.tracks[o[j]]))], "time scales reported")
     \cup Req(\A j \in 1..Len(ids) : "next_track_id" \in DOMAIN Kid(m, "Mvhd").e /\ Less(Be(ids[j], 4), Kid(m, "Mvhd").e["next_track_id"]), "next track id")
     \cup Fields(Kid(m, "Mvhd"), "movie header", <<<<"rate", <<0, 1, 0, 0>>>>, <<"volume", <<1, 0>>>>>>) \cup Req(Matrix(Kid(m, "Mvhd")), "movie matrix")
     \cup Req(Val(Kid(meta, "Hdlr").e, "handler_type", <<>>) = <<109,100,105,114>>, "handler of the user data")
     \cup Req(Is(d, "data_type", <<1>>) /\ Val(d.e, "data", <<>>) = <<115,104,105,103,117,114,101,100,111,58,58,109,112,52>>, "tool name")
     \cup ForTracks(h, m, LAMBDA i, t : Described(h, f, i, Be(IdOf(h, i, 1, 1), 4), t))

Check(pid, h, f) ==
  LET top == Top(f) m == Moov(f, top) IN
  CASE pid = "C01" -> C01(h, f, top, m) [] pid = "C02" -> C02(h, f, top, m) [] pid = "C03" -> C03(h, f, top, m)
    [] pid = "C04" -> C04(h, f, top, m) [] pid = "C05" -> C05(h, f, top, m) [] pid = "C06" -> C06(h, f, top, m)
    [] pid = "all" -> C01(h, f, top, m) \cup C02(h, f, top, m) \cup C03(h, f, top, m) \cup C04(h, f, top, m)
                      \cup C05(h, f, top, m) \cup C06(h, f, top, m)
=============================================================================
