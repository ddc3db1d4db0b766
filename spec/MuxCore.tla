------------------------------- MODULE MuxCore -------------------------------
(* The writers and tracks: what they gather from operations, the file they lay
   out from it, and the choice of operations for generated histories.
   Used by Mux (one movie) and Inter (several at the same time).             *)
EXTENDS Movie, Emit
H == INSTANCE H264Track WITH k <- 0, r <- 0, left <- 0, trk <- 0, log <- <<>>, st <- ""

Mode == IOEnv.MODE
Depth == atoi(IOEnv.DEPTH)

\* ---- configuration --------------------------------------------------------------------------
AnyOf(s, x) == s[1 + PickR(x, Len(s))]
Scales == <<90000, 48000, 1000, 600, 30000, 24000, 44100, 25, 16000, 12800, 1, 16777215, 8000, 96000, 65536, 15360>>
MScales == <<1000, 600, 90000, 48000, 1, 3, 1000, 16777215, 30000>>
Kinds == <<"aac", "mp3", "opus", "vp8", "vp9", "av1", "h264">>
RECURSIVE TwoIn(_)
TwoIn(n) == IF n % 2 = 0 THEN 1 + TwoIn(n \div 2) ELSE 0
Min2(a, b) == IF a < b THEN a ELSE b
\* a / 2^k seconds: often so that the product with both scales is a whole number that a float can hold, else any float
DurOf(s1, s2, x) ==
  LET odd == IF 16777215 \in {s1, s2} THEN 1 ELSE 1 + 2 * PickR(Rnd2(x, 1), 256)
      j == AnyOf(<<0, 0, 0, 0, 1, 2, 3, 5, 8, 8>>, Rnd2(x, 2)) + (IF odd = 1 THEN PickR(Rnd2(x, 3), 9) ELSE 0)
      m == Min2(4, Min2(TwoIn(s1), TwoIn(s2)))
  IN IF PickR(Rnd2(x, 4), 30) = 0 THEN <<0, 0>>
     ELSE IF PickR(Rnd2(x, 7), 4) = 0 /\ 16777215 \notin {s1, s2} THEN <<1 + ((Rnd2(x, 8) * 63 + (Rnd2(x, 9) % 256)) % 4194303), 10 + PickR(Rnd2(x, 10), 10)>>
     ELSE IF j = 0 THEN <<odd, PickR(Rnd2(x, 5), m + 1)>> ELSE <<odd * (2 ^ j), 0>>
Brand4(x) == IF PickR(x, 3) = 0 THEN <<105, 115, 111, 109>> ELSE [i \in 1..4 |-> Rnd2(x, i) % 256]
B4(x) == [i \in 1..4 |-> IF PickR(x, 3) = 0 /\ i < 3 THEN 0 ELSE Rnd2(x, i) % 256]
MediaTimes == <<Zeros(8), N8(1024), Neg(N8(1)), Neg(N8(5)), N8(2147483647), AddB(N8(2147483647), N8(1)), Neg(N8(2147483647)),
                Neg(AddB(N8(2147483647), N8(1))), Neg(AddB(N8(2147483647), N8(2))), <<0, 0, 1, 0, 0, 0, 0, 0>>, <<0, 0, 0, 0, 255, 255, 255, 255>>,
                Neg(<<0, 0, 0, 3, 0, 0, 0, 7>>), N8(312)>>
Dims == <<1, 640, 480, 1920, 65535, 255, 256, 320, 32768>>
TrackOf(mts, kind, x) ==
  LET ts == AnyOf(Scales, Rnd2(x, 1)) IN
  [kind |-> kind, dflt |-> IF PickR(Rnd2(x, 2), 5) = 0 THEN 1 ELSE 0, ts |-> Be(ts, 4), dur |-> DurOf(mts, IF kind = "opus" THEN 48000 ELSE ts, Rnd2(x, 3)),
   mt |-> AnyOf(MediaTimes, Rnd2(x, 4)), buf |-> <<0>> \o Tail(B4(Rnd2(x, 5))), maxb |-> B4(Rnd2(x, 6)), avgb |-> B4(Rnd2(x, 7)),
   pre |-> AnyOf(<<0, 312, 65535, 3840>>, Rnd2(x, 8)), roll |-> AnyOf(<<-4, -2, -1, 1, -32768, 32767>>, Rnd2(x, 9)),
   width |-> AnyOf(Dims, Rnd2(x, 10)), height |-> AnyOf(Dims, Rnd2(x, 11)),
   prof |-> IF kind = "h264" THEN AnyOf(<<66, 77, 100, 244, 88>>, Rnd2(x, 12)) ELSE PickR(Rnd2(x, 12), 8), level |-> PickR(Rnd2(x, 13), 32),
   tier |-> PickR(Rnd2(x, 14), 2), cx |-> PickR(Rnd2(x, 15), 2), cy |-> PickR(Rnd2(x, 16), 2), csp |-> PickR(Rnd2(x, 17), 4),
   obus |-> [i \in 1..(IF PickR(Rnd2(x, 21), 6) = 0 THEN 250 + PickR(Rnd2(x, 18), 60) ELSE PickR(Rnd2(x, 18), 20)) |-> Rnd3(x, 18, i) % 256], cv |-> 1 + PickR(Rnd2(x, 19), 3), compat |-> PickR(Rnd2(x, 20), 256)]
\* no configuration to choose in the exhaustive mode
Plain(kind) == [TrackOf(1000, kind, 1) EXCEPT !.dflt = 0, !.ts = Be(IF kind = "aac" THEN 48000 ELSE 90000, 4), !.dur = <<1, 0>>, !.mt = Zeros(8),
                !.width = 320, !.height = 240]
Nows == <<<<>>, <<>>, <<0, 0, 0, 0, 255, 255, 255, 255>>, <<0, 0, 0, 1, 0, 0, 0, 0>>, <<>>, <<0, 0, 0, 0, 255, 255, 255, 254>>, <<0, 0, 0, 1, 41, 7, 200, 3>>, <<0, 0, 0, 0, 144, 1, 2, 3>>,
          <<>>, <<0, 0, 0, 2, 160, 128, 0, 255>>>>
CompatsOf(x) == [i \in 1..PickR(x, 5) |-> Brand4(Rnd2(x, i))]
Config0(kk) ==
  LET x == Rnd3(SeedE, kk, 4100)
      big == Mode \in {"big", "bigfast", "chain"}
      d == IF PickR(Rnd2(x, 1), 4) = 0 THEN 1 ELSE 0
      mts == IF d = 1 THEN 1000 ELSE AnyOf(MScales, Rnd2(x, 2))
      n == IF Mode = "chain" THEN 2 + (kk % 3) ELSE IF big THEN 1 + PickR(Rnd2(x, 3), 3) ELSE IF Mode = "edge" \/ (Mode = "fault" /\ kk % 6 = 5) THEN 1 ELSE IF Mode = "long" THEN 2 ELSE IF Mode = "tracks" THEN <<300, 257, 20, 256, 255, 128>>[1 + (kk % 6)] ELSE AnyOf(<<1, 1, 2, 2, 2, 3, 3, 4, 0, 2>>, Rnd2(x, 3))
      kinds == IF big THEN <<"vp9", "aac", "av1", "opus", "mp3", "vp8">> ELSE Kinds
  IN [id |-> Mode \o ToString(kk), op |-> IF Mode = "fault" THEN "fault" ELSE "mux", sink |-> IF big \/ Mode = "fault" THEN "sparse" ELSE IF kk % 2 = 0 THEN AnyOf(<<"sparse", "file">>, Rnd2(x, 5)) ELSE AnyOf(<<"sparse", "string", "file">>, Rnd2(x, 5)),
      w |-> CASE Mode = "big" -> "simple" [] Mode \in {"bigfast", "chain"} -> "fast" [] OTHER -> IF kk % 2 = 0 THEN "simple" ELSE "fast",
      dflt |-> d, mts |-> Be(mts, 4), dur |-> DurOf(mts, mts, Rnd2(x, 6)), major |-> Brand4(Rnd2(x, 7)), minor |-> B4(Rnd2(x, 8)),
      compat |-> CompatsOf(Rnd2(x, 9)),
      tracks |-> [i \in 1..n |-> TrackOf(mts, IF i = 1 /\ ~big THEN Kinds[1 + (kk % 7)] ELSE AnyOf(kinds, Rnd3(x, 10, i)), Rnd3(x, 11, i))],
      now |-> AnyOf(Nows, Rnd2(x, 12)), ops |-> <<>>]
ConfigSmall(kk) ==
  [id |-> "small", op |-> "mux", sink |-> "sparse", w |-> IF kk % 2 = 0 THEN "simple" ELSE "fast", dflt |-> 1, mts |-> Be(1000, 4), dur |-> <<1, 0>>,
   major |-> Zeros(4), minor |-> Zeros(4), compat |-> <<>>, tracks |-> <<Plain("vp9"), Plain("aac")>>, now |-> <<>>, ops |-> <<>>]
ConfigOf(kk) == IF Mode = "small" THEN ConfigSmall(kk) ELSE Config0(kk)

\* ---- the machine --------------------------------------------------------------------------------
NoChunk == [off |-> Zeros(8), n |-> 0]
Track0 == [made |-> FALSE, id |-> <<>>, sizes |-> <<>>, durs |-> <<>>, first |-> Zeros(8), prev |-> Zeros(8), keys |-> <<>>, chunks |-> <<>>,
           cur |-> NoChunk, mt |-> Zeros(8), sps |-> <<>>, pps |-> <<>>]
Writer0(c) == [next |-> 1, data |-> Zeros(8), ids |-> <<>>, refused |-> <<>>, trk |-> [i \in 1..Len(c.tracks) |-> Track0]]
FtypBox(c) == LET d == IF c.dflt = 1 THEN Defaults ELSE c IN
  LET b == d.major \o d.minor \o Cat(d.compat) IN Be(8 + Len(b), 4) \o CFtyp \o b
\* where the writer says it is: the simple writer writes into the file itself
Tell(c, s) == IF c.w = "simple" THEN Add8(s.data, Len(FtypBox(c)) + 16) ELSE s.data
AddSample(c, s, i, ts, key, n) ==
  LET t == s.trk[i]
      t2 == [t EXCEPT !.cur = IF t.cur.n = 0 THEN [off |-> Tell(c, s), n |-> 1] ELSE [t.cur EXCEPT !.n = @ + 1],
                      !.durs = IF t.sizes = <<>> THEN <<>> ELSE Append(@, Sub8(ts, t.prev)),
                      !.prev = ts, !.sizes = Append(@, n), !.keys = IF key = 1 /\ IsVideo(c.tracks[i]) THEN Append(@, Len(t.sizes) + 1) ELSE @]
  IN [s EXCEPT !.trk[i] = t2, !.data = Add8(@, n)]
RECURSIVE AddBlobs(_, _, _, _, _)
AddBlobs(c, s, op, bl, j) == IF j > Len(bl) THEN s ELSE AddBlobs(c, AddSample(c, s, op.t, op.ts, op.key, bl[j].n), op, bl, j + 1)
Sets(old, us, ty) == LET RECURSIVE R(_, _)
                         R(acc, j) == IF j > Len(us) THEN acc ELSE R(IF NalType(us[j]) = ty THEN AddNew(acc, us[j].nal) ELSE acc, j + 1)
                     IN R(old, 1)
EndChunk(t) == IF t.cur.n = 0 THEN t ELSE [t EXCEPT !.chunks = Append(@, t.cur), !.cur = NoChunk]
Do(c, s, op) ==
  CASE op.o = "id" -> [s EXCEPT !.next = @ + 1, !.ids = Append(@, s.next)]
    [] op.o = "track" ->
         IF op.next = 1 THEN [s EXCEPT !.next = @ + 1, !.ids = Append(@, s.next), !.refused = Append(@, 0),
                                       !.trk[op.t] = [Track0 EXCEPT !.made = TRUE, !.id = Be(s.next, 4), !.mt = Param(c.tracks[op.t], "mt")]]
         ELSE IF op.id = 0 THEN [s EXCEPT !.refused = Append(@, 1)]
         ELSE [s EXCEPT !.refused = Append(@, 0), !.trk[op.t] = [Track0 EXCEPT !.made = TRUE, !.id = Be(op.id, 4), !.mt = Param(c.tracks[op.t], "mt")]]
    [] op.o = "add" ->
         LET p == c.tracks[op.t]
             s2 == AddBlobs(c, s, op, BlobsOf(p, op), 1)
         IN IF p.kind # "h264" THEN s2
            ELSE [s2 EXCEPT !.trk[op.t].sps = Sets(@, op.units, 7), !.trk[op.t].pps = Sets(@, op.units, 8)]
    [] op.o = "end" -> [s EXCEPT !.trk[op.t] = EndChunk(@)]
    [] op.o = "raw" -> [s EXCEPT !.data = Add8(@, op.data.n)]
    [] op.o = "mt" -> [s EXCEPT !.trk[op.t].mt = op.mt]
    [] OTHER -> s
RECURSIVE RunOps(_, _, _, _)
RunOps(c, s, ops, j) == IF j > Len(ops) THEN s ELSE RunOps(c, Do(c, s, ops[j]), ops, j + 1)
Made(s) == SelectSeq([i \in 1..Len(s.trk) |-> i], LAMBDA i : s.trk[i].made)
Unmade(s) == SelectSeq([i \in 1..Len(s.trk) |-> i], LAMBDA i : ~s.trk[i].made)
OpenTrk(s) == LET o == SelectSeq(Made(s), LAMBDA i : s.trk[i].cur.n > 0) IN IF o = <<>> THEN 0 ELSE o[1]

\* ---- the file the machine writes --------------------------------------------------------------------
CodeOfKind == [n \in {TypeTable[i][2] : i \in 1..Len(TypeTable)} |-> LET i == CHOOSE i \in 1..Len(TypeTable) : TypeTable[i][2] = n IN TypeTable[i][1]]
BoxC(code, kind, e, kids) == LET b == Encode(kind, Gen(kind, e, 0, 1)) \o Cat(kids) IN Be(8 + Len(b), 4) \o code \o b
Bx(kind, e, kids) == BoxC(CodeOfKind[kind], kind, e, kids)
FV(v, fl) == ("version" :> <<v>>) @@ ("flags" :> <<0, 0, fl>>)
F00 == FV(0, 0)
\* the time of day when the writer is made: the real one, or one around the end of 32 bits and beyond
NowOf(c) == IF c.now = <<>> THEN <<0, 0, 0, 0, 230, 17, 5, 9>> ELSE c.now
Big(b) == LessB(Max32, b)
W48(v, b) == IF v = 1 THEN b ELSE SubSeq(b, 5, 8)
VerOf(c, d) == IF Big(d) \/ Big(NowOf(c)) THEN 1 ELSE 0
Stamp(c, v) == ("creation_time" :> W48(v, NowOf(c))) @@ ("modification_time" :> W48(v, NowOf(c)))
One16 == <<0, 1, 0, 0>>
Unity == [i \in 1..9 |-> "v" :> (IF i \in {1, 5} THEN One16 ELSE IF i = 9 THEN <<64, 0, 0, 0>> ELSE Zeros(4))]
L4(l) == [i \in 1..Len(l) |-> "v" :> Be(l[i], 4)]
Runs(d) == H!Runs(d, 1, <<>>)
Durs(c, s, i) == LET t == s.trk[i] IN
  IF t.sizes = <<>> THEN <<>> ELSE Append(t.durs, Sub8(InScale(TsOf(c.tracks[i]), c.tracks[i].dur), t.prev))
EntryBox(c, s, i) ==
  LET p == c.tracks[i] t == s.trk[i]
      v(kids) == BoxC(Codes[p.kind], "VisualSampleEntry", ("data_reference_index" :> <<0, 1>>) @@ ("width" :> B2(p.width)) @@ ("height" :> B2(p.height)), kids)
      a(kids) == BoxC(Codes[p.kind], "AudioSampleEntry", ("data_reference_index" :> <<0, 1>>) @@ ("entry_version" :> <<0, 0>>) @@ ("channel_count" :> <<0, 2>>)
                   @@ ("sample_size" :> <<0, 16>>) @@ ("sample_rate" :> SubSeq(TsOf(p), 3, 4) \o <<0, 0>>), kids)
      btrt == Bx("Btrt", ("max_bitrate" :> Param(p, "maxb")) @@ ("avg_bitrate" :> Param(p, "avgb")), <<>>)
      dsi == ("tag" :> <<5>>) @@ ("data" :> <<17, 144>>)  sl == ("tag" :> <<6>>) @@ ("data" :> <<2>>)
      dcd(n) == ("tag" :> <<4>>) @@ ("size" :> Be(13 + n, 4)) @@ ("object_type_indication" :> <<IF p.kind = "aac" THEN 64 ELSE 107>>)
                @@ ("stream_type" :> 5) @@ ("upstream" :> 0) @@ ("reserved" :> 1) @@ ("buffer_size_db" :> Tail(Param(p, "buf")))
                @@ ("max_bitrate" :> p.maxb) @@ ("avg_bitrate" :> p.avgb)
      es(n) == ("tag" :> <<3>>) @@ ("size" :> Be(3 + n, 4)) @@ ("ESID" :> IF p.kind = "aac" THEN SubSeq(t.id, 3, 4) ELSE <<0, 0>>)
               @@ ("stream_dependence_flag" :> 0) @@ ("url_flag" :> 0) @@ ("ocr_stream_flag" :> 0) @@ ("stream_priority" :> 0)
      avc == LET cfg == IF t.sps = <<>> THEN <<Param(p, "prof"), Param(p, "compat"), Param(p, "level")>> ELSE SubSeq(t.sps[1], 2, 4) IN
             ("configuration_version" :> <<Param(p, "cv")>>) @@ ("profile" :> <<cfg[1]>>) @@ ("profile_compatibility" :> <<cfg[2]>>) @@ ("level" :> <<cfg[3]>>)
             @@ ("length_size_minus_one" :> 3) @@ ("high_profile_fields_enabled" :> 0)
             @@ ("sequence_parameter_sets" :> [j \in 1..Len(t.sps) |-> "nal_unit" :> t.sps[j]])
             @@ ("picture_parameter_sets" :> [j \in 1..Len(t.pps) |-> "nal_unit" :> t.pps[j]])
  IN CASE p.kind = "aac" -> a(<<Bx("Esds", F00 @@ ("descriptors" :> <<es(29), dcd(7), dsi, sl>>), <<>>), btrt>>)
       [] p.kind = "mp3" -> a(<<Bx("Esds", F00 @@ ("descriptors" :> <<es(24), dcd(0), sl>>), <<>>)>>)
       [] p.kind = "opus" -> a(<<Bx("DOps", ("output_channel_count" :> <<2>>) @@ ("pre_skip" :> B2(p.pre)) @@ ("input_sample_rate" :> Be(48000, 4))
                                    @@ ("output_gain" :> <<0, 0>>) @@ ("channel_mapping_family" :> <<0>>), <<>>)>>)
       [] p.kind \in {"vp8", "vp9"} -> v(<<Bx("VPCodecConfiguration", FV(1, 0) @@ ("level" :> <<21>>) @@ ("bit_depth" :> 8), <<>>), Bx("Fiel", "field_count" :> <<1>>, <<>>),
                                           Bx("PixelAspectRatio", "h_spacing" :> Be(1, 4), <<>>), btrt>>)
       [] p.kind = "av1" -> v(<<Bx("AV1CodecConfiguration", ("marker" :> 1) @@ ("version" :> 1) @@ ("seq_profile" :> Param(p, "prof")) @@ ("seq_level_idx_0" :> Param(p, "level"))
                                  @@ ("seq_tier_0" :> Param(p, "tier")) @@ ("chroma_subsampling_x" :> Param(p, "cx")) @@ ("chroma_subsampling_y" :> Param(p, "cy"))
                                  @@ ("chroma_sample_position" :> Param(p, "csp")) @@ ("config_OBUs" :> Param(p, "obus")), <<>>)>>)
       [] p.kind = "h264" -> v(<<Bx("AVCDecoderConfiguration", avc, <<>>)>>)
S16B(n) == S16(n)
\* chunk offsets moved by sh; wide: 64-bit offsets
TrakBox(c, s, i, sh, wide) ==
  LET p == c.tracks[i]
      t == EndChunk(s.trk[i])
      vid == IsVideo(p)
      d == InScale(TsOf(p), p.dur)  dm == InScale(Mts(c), p.dur)
      vm == VerOf(c, d)  vt == VerOf(c, dm)
      mt == s.trk[i].mt
      ve == IF Big(dm) \/ SignExt(BitsOf(SubSeq(mt, 5, 8)), 64) # BitsOf(mt) THEN 1 ELSE 0
      offs == [j \in 1..Len(t.chunks) |-> AddB(t.chunks[j].off, sh)]
      cr == H!Runs([j \in 1..Len(t.chunks) |-> t.chunks[j].n], 1, <<>>)
      dr == Runs(Durs(c, s, i))
      RECURSIVE First(_)
      First(j) == IF j = 1 THEN 1 ELSE First(j - 1) + cr[j - 1][1]
      stbl == <<Bx("Stsd", F00 @@ ("entry_count" :> Be(1, 4)), <<EntryBox(c, s, i)>>),
                Bx("Stts", F00 @@ ("entries" :> [j \in 1..Len(dr) |-> ("sample_count" :> Be(dr[j][1], 4)) @@ ("sample_duration" :> SubSeq(dr[j][2], 5, 8))]), <<>>)>>
              \o (IF vid THEN <<Bx("Stss", F00 @@ ("sample_numbers" :> L4(t.keys)), <<>>)>> ELSE <<>>)
              \o <<Bx("Stsc", F00 @@ ("entries" :> [j \in 1..Len(cr) |-> ("first_chunk" :> Be(First(j), 4)) @@ ("samples_per_chunk" :> Be(cr[j][2], 4))
                                                       @@ ("sample_description_index" :> Be(1, 4))]), <<>>),
                   Bx("Stsz", F00 @@ ("sample_size" :> Zeros(4)) @@ ("entry_sizes" :> L4(t.sizes)), <<>>),
                   IF wide THEN Bx("Co64", F00 @@ ("chunk_offsets" :> [j \in 1..Len(offs) |-> "v" :> offs[j]]), <<>>)
                   ELSE Bx("Stco", F00 @@ ("chunk_offsets" :> [j \in 1..Len(offs) |-> "v" :> SubSeq(offs[j], 5, 8)]), <<>>)>>
              \o (IF p.kind \in {"aac", "opus"} THEN
                    <<Bx("Sgpd", FV(1, 0) @@ ("grouping_type" :> Roll) @@ ("default_length" :> Be(2, 4)) @@ ("roll_distances" :> <<"roll_distance" :> S16B(RollDistance(p))>>), <<>>),
                      Bx("Sbgp", F00 @@ ("grouping_type" :> Roll) @@ ("entries" :> <<("sample_count" :> Be(Len(t.sizes), 4)) @@ ("group_description_index" :> Be(1, 4))>>), <<>>)>>
                  ELSE <<>>)
      minf == <<IF vid THEN Bx("Vmhd", FV(0, 1), <<>>) ELSE Bx("Smhd", F00, <<>>),
                Bx("Dinf", EmptyEnv, <<Bx("Dref", F00 @@ ("entry_count" :> Be(1, 4)), <<Bx("Url", FV(0, 1), <<>>)>>)>>), Bx("Stbl", EmptyEnv, stbl)>>
      mdia == <<Bx("Mdhd", FV(vm, 0) @@ Stamp(c, vm) @@ ("timescale" :> TsOf(p)) @@ ("duration" :> W48(vm, d)) @@ ("language0" :> 21) @@ ("language1" :> 14) @@ ("language2" :> 4), <<>>),
                Bx("Hdlr", F00 @@ ("pre_defined" :> Zeros(4)) @@ ("handler_type" :> IF vid THEN CVide ELSE CSoun) @@ ("name" :> <<115>>), <<>>), Bx("Minf", EmptyEnv, minf)>>
  IN Bx("Trak", EmptyEnv,
       <<Bx("Tkhd", FV(vt, 3) @@ Stamp(c, vt) @@ ("track_id" :> t.id) @@ ("duration" :> W48(vt, dm)) @@ ("volume" :> IF vid THEN <<0, 0>> ELSE <<1, 0>>)
                @@ ("matrix" :> Unity) @@ ("width" :> IF vid THEN B2(p.width) \o <<0, 0>> ELSE Zeros(4)) @@ ("height" :> IF vid THEN B2(p.height) \o <<0, 0>> ELSE Zeros(4)), <<>>),
         Bx("Edts", EmptyEnv, <<Bx("Elst", FV(ve, 0) @@ ("entries" :> <<("track_duration" :> W48(ve, dm)) @@ ("media_time" :> W48(ve, mt)) @@ ("media_rate" :> One16)>>), <<>>)>>),
         Bx("Mdia", EmptyEnv, mdia)>>)
Too == <<169, 116, 111, 111>>
UdtaBox == Bx("Udta", EmptyEnv, <<Bx("Meta", F00, <<Bx("Hdlr", F00 @@ ("pre_defined" :> Zeros(4)) @@ ("handler_type" :> <<109,100,105,114>>), <<>>),
   Bx("Ilst", EmptyEnv, <<BoxC(Too, "IlstMeta", EmptyEnv, <<Bx("Data", ("data_type" :> Be(1, 4)) @@ ("data" :> <<115,104,105,103,117,114,101,100,111,58,58,109,112,52>>), <<>>)>>)>>)>>)>>)
\* next: id stored; wide: per position in order
MoovBox(c, s, order, next, sh, wide) ==
  LET d == InScale(Mts(c), c.dur) v == VerOf(c, d) IN
  Bx("Moov", EmptyEnv, <<Bx("Mvhd", FV(v, 0) @@ Stamp(c, v) @@ ("timescale" :> Mts(c)) @@ ("duration" :> W48(v, d)) @@ ("rate" :> One16) @@ ("volume" :> <<1, 0>>)
                            @@ ("matrix" :> Unity) @@ ("next_track_id" :> Be(next, 4)), <<>>)>>
     \o [j \in 1..Len(order) |-> TrakBox(c, s, order[j], sh, wide[j])] \o <<UdtaBox>>)
LastOff(s, i) == LET t == EndChunk(s.trk[i]) IN IF t.chunks = <<>> THEN Zeros(8) ELSE t.chunks[Len(t.chunks)].off
WideFor(s, order, sh) == [j \in 1..Len(order) |-> EndChunk(s.trk[order[j]]).chunks # <<>> /\ Big(AddB(LastOff(s, order[j]), sh))]
MdatHdr(n) == IF Big(Add8(n, 8)) THEN 16 ELSE 8
\* the layout of the fast-start writer: iterate from the narrow forms until the offsets fit
RECURSIVE Settle(_, _, _, _, _)
Settle(c, s, order, sh, n) ==
  LET wide == WideFor(s, order, sh)
      m == Len(MoovBox(c, s, order, 1, sh, wide))
      sh2 == N8(Len(FtypBox(c)) + m + MdatHdr(s.data))
  IN IF sh2 = sh \/ n = 0 THEN sh ELSE Settle(c, s, order, sh2, n - 1)
RECURSIVE MediaSegs(_, _, _)
MediaSegs(bl, j, pos) == IF j > Len(bl) THEN <<>>
  ELSE <<[o |-> pos, b |-> bl[j].b], [o |-> Add8(pos, bl[j].n - Len(bl[j].z)), b |-> bl[j].z]>> \o MediaSegs(bl, j + 1, Add8(pos, bl[j].n))
MdatHead(n) == IF MdatHdr(n) = 16 THEN <<0, 0, 0, 1>> \o CMdat \o Add8(n, 16) ELSE SubSeq(Add8(n, 8), 5, 8) \o CMdat
FileOf(c, s) ==
  LET order == Order(c)
      ft == FtypBox(c)
      F == Len(ft)
      sh == IF c.w = "simple" THEN Zeros(8) ELSE Settle(c, s, order, N8(0), 10)
      moov == MoovBox(c, s, order, s.next, sh, WideFor(s, order, sh))
      hd == MdatHead(s.data)
      segs == IF c.w = "simple" THEN
                <<[o |-> N8(0), b |-> ft], [o |-> N8(F), b |-> IF Len(hd) = 16 THEN hd ELSE <<0, 0, 0, 8>> \o CFree \o hd]>>
                \o MediaSegs(Media(c), 1, N8(F + 16)) \o <<[o |-> Add8(s.data, F + 16), b |-> moov]>>
              ELSE <<[o |-> N8(0), b |-> ft \o moov \o hd]>> \o MediaSegs(Media(c), 1, N8(F + Len(moov) + Len(hd)))
  IN [len |-> IF c.w = "simple" THEN Add8(s.data, F + 16 + Len(moov)) ELSE Add8(s.data, F + Len(moov) + Len(hd)),
      segs |-> SelectSeq(segs, LAMBDA g : g.b # <<>>), t0 |-> NowOf(c), t1 |-> NowOf(c), ids |-> s.ids, refused |-> s.refused,
      scales |-> [j \in 1..Len(order) |-> ToInt(TsOf(c.tracks[order[j]]))], err |-> ""]

\* ---- choosing operations ---------------------------------------------------------------------------------
Blob(n, x) == IF n <= 24 THEN [n |-> n, b |-> [i \in 1..n |-> Rnd2(x, i) % 256], z |-> <<>>]
  ELSE [n |-> n, b |-> [i \in 1..12 |-> Rnd2(x, i) % 256], z |-> [i \in 1..6 |-> 1 + (Rnd2(x, 20 + i) % 255)]]
SizeSeed(x) == LET z == PickR(x, 40) IN
  IF z < 29 THEN PickR(Rnd2(x, 1), 45) ELSE <<0, 0, 0, 0, 0, 1, 255, 256, 257, 65536, IF PickR(Rnd2(x, 2), 3) = 0 THEN 1100003 ELSE 70001>>[z - 28]
Max31 == 2147483647
\* next time stamp of track i, at most its duration
Later(c, s, i, x) ==
  LET D == LowDur(TsOf(c.tracks[i]), c.tracks[i].dur)
      first == s.trk[i].sizes = <<>>
      base == IF first THEN Zeros(8) ELSE s.trk[i].prev
      R == Sub8(D, base)                      \* room
      z == PickR(Rnd2(x, 1), 12)
      step == IF first /\ Big(D) THEN Sub8(D, <<<<0,0,0,0,255,255,255,255>>, N8(Max31), AddB(N8(Max31), N8(1)), N8(100000), N8(5), N8(0)>>[1 + PickR(Rnd2(x, 2), 6)])
              ELSE IF first THEN (IF z < 6 THEN Zeros(8) ELSE N8(PickR(Rnd2(x, 3), 3000)))
              ELSE IF z < 4 THEN N8(3000) ELSE IF z < 7 THEN N8(1024) ELSE IF z < 9 THEN N8(PickR(Rnd2(x, 4), 5000)) ELSE IF z = 9 THEN Zeros(8)
              ELSE IF z = 10 THEN SubSeq(Zeros(8) \o DivMod(R, 2)[1], Len(DivMod(R, 2)[1]) + 1, Len(DivMod(R, 2)[1]) + 8) ELSE N8(1)
  IN IF LessB(R, step) THEN (IF PickR(Rnd2(x, 5), 4) = 0 THEN D ELSE base) ELSE AddB(base, step)
AddOp(c, s, i, x) ==
  LET ts == Later(c, s, i, Rnd2(x, 1))  key == IF PickR(Rnd2(x, 2), 3) = 0 THEN 1 ELSE 0  ptr == PickR(Rnd2(x, 3), 2) IN
  IF c.tracks[i].kind = "h264" THEN
    LET t == s.trk[i]
        u0 == [j \in 1..(1 + PickR(Rnd2(x, 4), 4)) |-> H!MkUnit(Rnd3(x, 5, j))]
        \* not more different parameter sets than fit; some encoders repeat them with key frames
        u1 == IF Len(t.sps) < 24 THEN u0 ELSE SelectSeq(u0, LAMBDA u : NalType(u) # 7) \o <<[code |-> 3, nal |-> <<65, 7>>]>>
        us == IF key = 1 /\ t.sps # <<>> /\ PickR(Rnd2(x, 6), 2) = 0
              THEN <<[code |-> 4, nal |-> t.sps[Len(t.sps)]]>> \o (IF t.pps = <<>> THEN <<>> ELSE <<[code |-> 3, nal |-> t.pps[1]]>>) \o u1
              ELSE u1
    IN
    [o |-> "add", t |-> i, ts |-> ts, key |-> key, ptr |-> ptr, units |-> us, data |-> Whole(H!A!StreamOf(us))]
  ELSE [o |-> "add", t |-> i, ts |-> ts, key |-> key, ptr |-> ptr, data |-> Blob(SizeSeed(Rnd2(x, 4)), Rnd2(x, 5))]
TrackOp(i, x) == LET z == PickR(x, 8) IN
  [o |-> "track", t |-> i, next |-> IF z < 6 THEN 1 ELSE 0, id |-> IF z = 6 THEN 0 ELSE IF z = 7 THEN <<70000, 65536 + 300 * i, 90 + i, Max31 - i>>[1 + PickR(Rnd(x), 4)] ELSE 0]
EndOp(i) == [o |-> "end", t |-> i]
PickOp(c, s, x) ==
  LET z == PickR(x, 20)  y == Rnd2(x, 2)  made == Made(s)  un == Unmade(s)  o == OpenTrk(s)
      raw == [o |-> "raw", data |-> Blob(SizeSeed(y), Rnd(y))]
  IN IF un # <<>> /\ (made = <<>> \/ z = 0) THEN TrackOp(AnyOf(un, y), Rnd(y))
     ELSE IF z = 1 THEN [o |-> "id"]
     ELSE IF made = <<>> THEN raw
     ELSE IF z = 2 THEN [o |-> "mt", t |-> AnyOf(made, y), mt |-> AnyOf(MediaTimes, Rnd(y))]
     ELSE IF o # 0 THEN (IF z < 14 THEN AddOp(c, s, o, y) ELSE EndOp(o))
     ELSE IF z < 17 THEN AddOp(c, s, AnyOf(made, y), Rnd(y))
     ELSE IF z < 19 THEN raw ELSE EndOp(AnyOf(made, y))
\* all tracks or some, in any order
RECURSIVE Shuffle(_, _)
Shuffle(l, x) == IF l = <<>> THEN <<>> ELSE LET j == 1 + PickR(x, Len(l)) IN <<l[j]>> \o Shuffle(SubSeq(l, 1, j - 1) \o SubSeq(l, j + 1, Len(l)), Rnd(x))
OrderOf(s, x) == LET l == Shuffle(Made(s), Rnd2(x, 1)) IN IF l # <<>> /\ PickR(Rnd2(x, 2), 6) = 0 THEN Tail(l) ELSE l
Finale(c, order, late) ==
  <<[o |-> "append", order |-> order]>> \o [j \in 1..late |-> [o |-> "id"]]
  \o (IF c.w = "simple" THEN <<[o |-> "free"], [o |-> "moov"]>> ELSE <<[o |-> "moov"], [o |-> "mdat"], [o |-> "copy"]>>)
Opening == <<[o |-> "ctor"], [o |-> "ftyp"]>>

\* ---- plans: histories whose media data has a chosen length ----------------------------------------------------
Tracks0(c, x) == [i \in 1..Len(c.tracks) |-> [o |-> "track", t |-> i, next |-> 1, id |-> 0]]
\* chunks of a few small samples in turn
RECURSIVE Chunks(_, _, _, _)
Chunks(c, s, n, x) == IF n = 0 THEN <<>>
  ELSE LET i == 1 + PickR(Rnd2(x, 1), Len(c.tracks))
           a1 == AddOp(c, s, i, Rnd2(x, 2))  s1 == Do(c, s, a1)
           a2 == AddOp(c, s1, i, Rnd2(x, 3))
           l == IF PickR(Rnd2(x, 4), 2) = 0 THEN <<a1, EndOp(i)>> ELSE <<a1, a2, EndOp(i)>>
       IN l \o Chunks(c, RunOps(c, s, l, 1), n - 1, Rnd2(x, 5))
FillOp(c, s, i, n, x) == [o |-> "add", t |-> i, ts |-> Later(c, s, i, Rnd2(x, 1)), key |-> 0, ptr |-> 1, data |-> Blob(n, Rnd2(x, 2))]
\* opening, tracks, some chunks, filling of n bytes (two samples of about half each), more chunks
PlanOf(c, n1, n2, x) ==
  LET a == Opening \o Tracks0(c, x)
      s0 == RunOps(c, Writer0(c), a, 1)
      b == a \o Chunks(c, s0, PickR(Rnd2(x, 1), 4), Rnd2(x, 2))
      i == 1 + PickR(Rnd2(x, 3), Len(c.tracks))
      s1 == RunOps(c, Writer0(c), b, 1)
      f0 == FillOp(c, s1, i, 5000, Rnd2(x, 9))
      f1 == FillOp(c, Do(c, s1, f0), i, n1, Rnd2(x, 4))
      s2 == RunOps(c, s1, <<f0, f1>>, 1)
      f2 == FillOp(c, s2, i, n2, Rnd2(x, 5))
      tl == IF PickR(Rnd2(x, 10), 3) = 0 THEN <<>> ELSE <<EndOp(i)>>
      s3 == RunOps(c, Do(c, s2, f2), <<EndOp(i)>>, 1)
      last == Chunks(c, s3, PickR(Rnd2(x, 6), 7), Rnd2(x, 7))
      b2 == b \o <<f0, f1>> \o (IF PickR(Rnd2(x, 8), 2) = 0 THEN <<EndOp(i)>> ELSE <<>>) \o <<f2>> \o (IF last = <<>> THEN tl ELSE <<EndOp(i)>>) \o last
  IN b2
Limit32 == <<0, 0, 0, 1, 0, 0, 0, 0>>
\* the plan with its second filling adjusted so that Key(state) = target
BigPlan(c, x) ==
  LET n1 == Max31 - PickR(Rnd2(x, 31), 3000)
      n20 == Max31 - 200000
      tailsize == IF PickR(Rnd2(x, 30), 3) = 0 THEN 30000 ELSE 0     \* more media data behind everything
      Rawtail == IF tailsize = 0 THEN <<>> ELSE <<[o |-> "raw", data |-> Blob(tailsize, Rnd2(x, 32))]>>
      p0 == PlanOf(c, n1, n20, Rnd2(x, 33)) \o (IF OpenTrk(RunOps(c, Writer0(c), PlanOf(c, n1, n20, Rnd2(x, 33)), 1)) # 0 THEN <<>> ELSE Rawtail)
      s0 == RunOps(c, Writer0(c), p0, 1)
      order == OrderOf(s0, Rnd2(x, 34))
      F == Len(FtypBox(c))
      moov0 == Len(MoovBox(c, s0, order, 1, Zeros(8), [j \in 1..Len(order) |-> FALSE]))
      nch == LET RECURSIVE N(_) N(j) == IF j > Len(order) THEN 0 ELSE Len(EndChunk(s0.trk[order[j]]).chunks) + N(j + 1) IN N(1)
      base == Sub8(Limit32, N8(1))
      \* where the last chunk of track i is if all tables are narrow
      Now(i) == IF c.w = "simple" THEN LastOff(s0, i) ELSE Add8(LastOff(s0, i), F + moov0 + MdatHdr(s0.data) + (IF tailsize > 0 THEN 8 ELSE 0))
      Near(b) == IsSmall(b) /\ ToInt(b) <= 199000
      can == SelectSeq(order, LAMBDA i : EndChunk(s0.trk[i]).chunks # <<>> /\ Near(Sub8(base, Now(i))))
      \* what to place: the media data's length, or the last chunk of a track
      bytotal == PickR(Rnd2(x, 36), 4) = 0 \/ can = <<>>
      d == IF bytotal \/ c.w = "simple" THEN PickR(Rnd2(x, 37), 6) - 3 ELSE PickR(Rnd2(x, 37), 4 * nch + 6) - (4 * nch + 3)
      now == IF bytotal THEN s0.data ELSE Now(AnyOf(can, Rnd2(x, 35)))
      target == LET to == IF bytotal THEN Sub8(Limit32, N8(9)) ELSE base IN
                IF d < 0 THEN Sub8(to, N8(0 - d)) ELSE Add8(to, d)
      diff == Sub8(target, now)
  IN \* a filling that comes after the last chunk of i would not move it
     IF ~Near(diff) THEN
        p0 \o Finale(c, order, 0)
     ELSE LET p == PlanOf(c, n1, n20 + ToInt(diff), Rnd2(x, 33)) IN
          p \o (IF Len(p0) > Len(p) THEN Rawtail ELSE <<>>) \o Finale(c, order, 0)
\* A fast-start movie in which one table after the other has to become wide (Settle): the last
\* chunk of each track but the last is pushed to the limit, or just not, by the tables behind it.
ChainPlan(c, x) ==
  LET m == Len(c.tracks)
      ns == [j \in 1..m |-> 2 + PickR(Rnd3(x, 1, j), 3)]               \* chunks of the j-th in the file
      miss == [j \in 1..m |-> IF PickR(Rnd3(x, 2, j), 4) = 0 THEN 1 ELSE 0]
      res == PickR(Rnd2(x, 3), 2)
      RECURSIVE Pos(_)
      Pos(j) == LET RECURSIVE S(_) S(i) == IF i > m THEN 0 ELSE ns[i] + S(i + 1) IN 0 - S(j + 1) - miss[j]
      perm == Shuffle([i \in 1..m |-> i], Rnd2(x, 4))
      a == Opening \o Tracks0(c, x)
      small(s, j, y) == FillOp(c, s, perm[j], 1 + PickR(Rnd2(y, 1), 20), Rnd2(y, 2))
      RECURSIVE Early(_, _, _)
      Early(s, j, n) == IF j > m THEN <<>> ELSE IF n = ns[j] THEN Early(s, j + 1, 1)
                        ELSE LET l == <<small(s, j, Rnd3(x, 5 + j, n)), EndOp(perm[j])>> IN l \o Early(RunOps(c, s, l, 1), j, n + 1)
      RECURSIVE Lasts(_, _)
      Lasts(s, j) == IF j > m THEN <<>>
                     ELSE LET l == <<FillOp(c, s, perm[j], IF j = m THEN 4 ELSE 4 * (Pos(j + 1) - Pos(j)), Rnd3(x, 20, j)), EndOp(perm[j])>>
                          IN l \o Lasts(RunOps(c, s, l, 1), j + 1)
      tail == IF PickR(Rnd2(x, 6), 3) = 0 THEN <<[o |-> "raw", data |-> Blob(30000, Rnd2(x, 7))]>> ELSE <<>>
      n1 == Max31 - PickR(Rnd2(x, 8), 3000)
      s0 == RunOps(c, Writer0(c), a, 1)
      b == a \o Early(s0, 1, 1)
      Whole0(n2) == LET b2 == b \o <<[o |-> "raw", data |-> Blob(n1, Rnd2(x, 9))], [o |-> "raw", data |-> Blob(150000, Rnd2(x, 12))], [o |-> "raw", data |-> Blob(n2, Rnd2(x, 10))]>>
                    IN b2 \o Lasts(RunOps(c, Writer0(c), b2, 1), 1) \o tail
      n20 == Max31 - 200000
      s1 == RunOps(c, Writer0(c), Whole0(n20), 1)
      order == Shuffle([i \in 1..m |-> i], Rnd2(x, 11))
      moov0 == Len(MoovBox(c, s1, order, 1, Zeros(8), [j \in 1..m |-> FALSE]))
      now == Add8(LastOff(s1, perm[m]), Len(FtypBox(c)) + moov0 + 8 + (IF tail = <<>> THEN 0 ELSE 8))
      target == Sub8(Limit32, N8(4 * miss[m] + res))
  IN Whole0(n20 + ToInt(Sub8(target, now))) \o Finale(c, order, 0)
EdgePlan(c, x) ==
  LET base == 1048576 * (1 + PickR(Rnd2(x, 1), 3)) + PickR(Rnd2(x, 2), 5) - 2
      h0 == c.tracks[1].kind = "h264"
      a == Opening \o Tracks0(c, x)
      s0 == RunOps(c, Writer0(c), a, 1)
      pre == IF PickR(Rnd2(x, 3), 2) = 0 THEN <<>> ELSE <<AddOp(c, s0, 1, Rnd2(x, 4)), EndOp(1)>>
      s1 == RunOps(c, s0, pre, 1)
      n == base - ToInt(s1.data)
      n1 == PickR(Rnd2(x, 5), 20000) + 1
      f1 == IF h0 THEN <<[o |-> "raw", data |-> Blob(n1, Rnd2(x, 6))]>> ELSE <<FillOp(c, s1, 1, n1, Rnd2(x, 6)), EndOp(1)>>
      f2 == IF h0 THEN <<[o |-> "raw", data |-> Blob(n - n1, Rnd2(x, 7))]>> ELSE <<FillOp(c, RunOps(c, s1, f1, 1), 1, n - n1, Rnd2(x, 7))>>
      p == a \o pre \o f1 \o f2
  IN p \o Finale(c, OrderOf(RunOps(c, Writer0(c), p, 1), Rnd2(x, 8)), 0)
=============================================================================
