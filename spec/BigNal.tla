------------------------------- MODULE BigNal -------------------------------
(* Large H.264 byte streams (C17), described by runs <<byte, count>>: NAL units
   of up to 17 MiB, so that every byte of the length prefix of a sample and
   positions far into the data matter.  The scanner of AnnexB is lifted to runs
   (one step per run); Exact: it finds the units that were put in; Agree: on
   data small enough to be written out it does what the scanner of AnnexB does
   byte by byte.                                                             *)
EXTENDS Codec, Emit
A == INSTANCE AnnexB WITH k <- 0, ph <- "", units <- <<>>, bytes <- <<>>, sc <- <<>>

VARIABLES k, units, todo, sc, ph
vars == <<k, units, todo, sc, ph>>

\* ---- runs
RECURSIVE RunsOf(_, _)
AddRun(acc, b, n) == IF n = 0 THEN acc
  ELSE IF acc # <<>> /\ acc[Len(acc)][1] = b THEN [acc EXCEPT ![Len(acc)] = <<b, @[2] + n>>] ELSE Append(acc, <<b, n>>)
RunsOf(bs, acc) == IF bs = <<>> THEN acc ELSE RunsOf(Tail(bs), AddRun(acc, bs[1], 1))
JoinRuns(a, b) == FoldLeft(LAMBDA acc, x : AddRun(acc, x[1], x[2]), a, b)
RECURSIVE Total(_)
Total(r) == IF r = <<>> THEN 0 ELSE r[1][2] + Total(Tail(r))
Flat(r) == Cat([i \in 1..Len(r) |-> [j \in 1..r[i][2] |-> r[i][1]]])

\* ---- units: head, n filler bytes (none of them 0 or 1), tail
Nal(u) == JoinRuns(JoinRuns(RunsOf(u.head, <<>>), <<<<u.fill, u.n>>>>), RunsOf(u.tail, <<>>))
NalSize(u) == Len(u.head) + u.n + Len(u.tail)
Unit(u) == JoinRuns(RunsOf(A!Code(u.code), <<>>), Nal(u))
Stream(us) == FoldLeft(LAMBDA acc, u : JoinRuns(acc, Unit(u)), <<>>, us)
RECURSIVE Before(_, _)
Before(us, i) == IF i = 0 THEN 0 ELSE Before(us, i - 1) + us[i].code + NalSize(us[i])
Found(us) == [i \in 1..Len(us) |-> [code |-> us[i].code, start |-> Before(us, i - 1), stop |-> Before(us, i), header |-> us[i].head[1]]]

\* ---- the scanner over runs
Plain(s, b, n) == IF n = 0 \/ s.st # "run" THEN s
  ELSE IF s.cur = <<>> /\ b # 0 THEN [s EXCEPT !.st = "failed"]
  ELSE [s EXCEPT !.pos = @ + n, !.z = IF b = 0 THEN @ + n ELSE 0,
                 !.cur = IF s.cur # <<>> /\ s.cur[1].header = -1 THEN <<[s.cur[1] EXCEPT !.header = b]>> ELSE s.cur]
One(s) ==
  LET lead == IF s.z >= 3 THEN 3 ELSE 2
  IN IF s.z < 2 THEN Plain(s, 1, 1)
     ELSE IF s.cur = <<>> /\ s.pos # lead THEN [s EXCEPT !.st = "failed"]
     ELSE [s EXCEPT !.pos = @ + 1, !.z = 0, !.out = A!CloseAt(s, s.pos - lead),
                    !.cur = <<[code |-> lead + 1, start |-> s.pos - lead, stop |-> -1, header |-> -1]>>]
ScanRun(s, run) == IF run[1] = 1 THEN Plain(One(s), 1, run[2] - 1) ELSE Plain(s, run[1], run[2])
AtEnd(s) == IF s.st # "run" THEN s ELSE IF s.cur = <<>> THEN [s EXCEPT !.st = "failed"]
            ELSE [s EXCEPT !.st = "done", !.out = A!CloseAt(s, s.pos)]

\* ---- choices
Sizes == <<40, 250, 251, 252, 253, 254, 255, 256, 257, 258, 259, 300, 511, 512, 1000, 4095, 4096, 16380, 32767, 32768,
           65530, 65531, 65532, 65533, 65534, 65535, 65536, 65537, 65538, 66051, 131072, 200000, 1000000, 1048576,
           16777210, 16777212, 16777215, 16777216, 16777217, 16909060>>
Param(y) == PickR(y, 4) = 0
Header(y) == LET c == PickR(y, 8) IN IF c < 3 THEN 1 ELSE IF c < 5 THEN 5 ELSE IF c = 5 THEN 6 ELSE IF c = 6 THEN 7 ELSE 8
MkUnit(y, huge) ==
  LET ty == Header(Rnd2(y, 1))
      limit == IF ty \in {7, 8} THEN 15 ELSE IF huge THEN Len(Sizes) ELSE 34
      size == Sizes[1 + PickR(Rnd2(y, 2), limit)]
      head == A!NalBytes(ty + 32 * PickR(Rnd2(y, 3), 8), 3 + PickR(Rnd2(y, 4), 6), Rnd2(y, 5))
      tail == LET c == PickR(Rnd2(y, 6), 6) IN
              IF c = 0 THEN <<>> ELSE IF c = 1 THEN <<0, 0, 3, 1>> ELSE IF c = 2 THEN <<0, 1>> ELSE IF c = 3 THEN <<1>> ELSE A!NalBytes(9, 5, Rnd2(y, 7))
      fill == <<2, 3, 101, 128, 255, 7>>[1 + PickR(Rnd2(y, 8), 6)]
      n == size - Len(head) - Len(tail)
  IN [code |-> 3 + PickR(Rnd2(y, 9), 2), head |-> head, fill |-> fill, n |-> n, tail |-> tail]
\* a parameter set that no codec configuration can hold: its length has 16 bits there
TooBig(y) == [code |-> 4, head |-> <<7 + PickR(y, 2), 66, 1, 2, 31>>, fill |-> 9, n |-> 65536 - 5 + PickR(Rnd(y), 3), tail |-> <<>>]
\* every 13th case is small enough to be written out
SmallCase(kk) == kk % 13 = 0 /\ kk % 11 # 5
Units(kk) == LET x == Rnd3(SeedE, kk, 91)
                 us == [i \in 1..(1 + PickR(x, 5)) |-> LET u == MkUnit(Rnd2(x, i), kk % 6 = 0) IN
                         IF SmallCase(kk) THEN [u EXCEPT !.n = PickR(Rnd2(x, 20 + i), 50)] ELSE u]
             IN IF kk % 11 = 5 THEN Append(us, TooBig(x)) ELSE us

\* ---- the track: samples and parameter sets
Slices(us) == SelectSeq(us, LAMBDA u : u.head[1] % 32 \in 1..5)
Sample(u) == JoinRuns(RunsOf(Be(NalSize(u), 4), <<>>), Nal(u))
Params(us, ty) == LET all == SelectSeq(us, LAMBDA u : u.head[1] % 32 = ty)
                      own == FoldLeft(LAMBDA acc, u : IF \E i \in 1..Len(acc) : acc[i] = Nal(u) THEN acc ELSE Append(acc, Nal(u)), <<>>, all)
                  IN [i \in 1..Len(own) |-> Flat(own[i])]
Refused(us) == \E i \in 1..Len(us) : us[i].head[1] % 32 \in {7, 8} /\ NalSize(us[i]) > 65535
Cfg(sps) == IF sps = <<>> THEN <<66, 192, 31>> ELSE SubSeq(sps[1], 2, 4)
F0 == V1(0) @@ ("flags" :> <<0, 0, 0>>)
U32s(l) == [i \in 1..Len(l) |-> "v" :> Be(l[i], 4)]
Boxes(us) == LET sps == Params(us, 7) pps == Params(us, 8) s == Slices(us) IN [
  avcC |-> TextOf("AVCDecoderConfiguration",
     ("configuration_version" :> <<1>>) @@ ("profile" :> <<Cfg(sps)[1]>>) @@ ("profile_compatibility" :> <<Cfg(sps)[2]>>)
     @@ ("level" :> <<Cfg(sps)[3]>>) @@ ("length_size_minus_one" :> 3) @@ ("high_profile_fields_enabled" :> 0)
     @@ ("sequence_parameter_sets" :> [i \in 1..Len(sps) |-> "nal_unit" :> sps[i]])
     @@ ("picture_parameter_sets" :> [i \in 1..Len(pps) |-> "nal_unit" :> pps[i]])),
  stsz |-> TextOf("Stsz", F0 @@ ("sample_size" :> Zeros(4)) @@ ("entry_sizes" :> U32s([i \in 1..Len(s) |-> NalSize(s[i]) + 4])))]

Init == k \in 1..NumE /\ units = Units(k) /\ todo = Stream(Units(k)) /\ sc = A!Start /\ ph = "scan"
Scan == ph = "scan" /\ todo # <<>> /\ sc.st = "run" /\ sc' = ScanRun(sc, todo[1]) /\ todo' = Tail(todo) /\ UNCHANGED <<k, units, ph>>
Stop == ph = "scan" /\ (todo = <<>> \/ sc.st # "run") /\ sc' = AtEnd(sc) /\ ph' = "found" /\ UNCHANGED <<k, units, todo>>
Out == /\ ph = "found" /\ ph' = "end"
       /\ EmitCase([id |-> "big" \o ToString(k), op |-> "bignal", runs |-> Stream(units), found |-> sc.out,
                    samples |-> LET s == Slices(units) IN [i \in 1..Len(s) |-> Sample(s[i])],
                    refused |-> IF Refused(units) THEN 1 ELSE 0,
                    boxes |-> IF Refused(units) THEN <<>> ELSE Boxes(units)])
       /\ UNCHANGED <<k, units, todo, sc>>
Next == Scan \/ Stop \/ Out
Spec == Init /\ [][Next]_vars

Exact == ph # "scan" => sc.st = "done" /\ sc.out = Found(units)
RECURSIVE ByteWise(_, _)
ByteWise(s, b) == IF s.st # "run" THEN s ELSE ByteWise(A!ScanStep(s, b), b)
Agree == ph # "scan" /\ SmallCase(k) => ByteWise(A!Start, Flat(Stream(units))).out = sc.out
Sized == ph # "scan" => \A i \in 1..Len(Slices(units)) : LET s == Sample(Slices(units)[i]) IN
           Total(s) = NalSize(Slices(units)[i]) + 4
=============================================================================
