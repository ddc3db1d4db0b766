------------------------------ MODULE H264Track ------------------------------
(* A track fed with H.264 byte streams (C17): slices become length-prefixed
   samples, parameter sets go to the codec configuration (each once: encoders
   repeat them with every key frame; at most as many as its count fields can
   say), SEI is dropped, anything else is refused.  Every sixth history is
   made of parameter sets mostly, new and repeated ones.                    *)
EXTENDS Codec, Emit
A == INSTANCE AnnexB WITH k <- 0, ph <- "", units <- <<>>, bytes <- <<>>, sc <- <<>>

VARIABLES k, r, left, trk, log, st
vars == <<k, r, left, trk, log, st>>

Types == <<1, 5, 2, 3, 4, 6, 7, 8>>
Dur == 1000
NewTrack(x) == LET dflt == PickR(Rnd2(x, 4), 2) = 0 IN
  [samples |-> <<>>, sps |-> <<>>, pps |-> <<>>, dflt |-> dflt, full |-> FALSE,
   cfg |-> IF dflt THEN <<1, 66, 192, 31>>
           ELSE <<1 + PickR(x, 3), <<66, 77, 100, 244>>[1 + PickR(Rnd2(x, 1), 4)], PickR(Rnd2(x, 2), 256), PickR(Rnd2(x, 3), 60)>>]
MaxSps == 31
MaxPps == 255
Seen(l, x) == \E i \in 1..Len(l) : l[i] = x
\* a parameter set beyond what the configuration can hold
Fits(t, nal) == CASE nal[1] % 32 = 7 -> Seen(t.sps, nal) \/ Len(t.sps) < MaxSps
                  [] nal[1] % 32 = 8 -> Seen(t.pps, nal) \/ Len(t.pps) < MaxPps
                  [] OTHER -> TRUE
\* one unit
Feed(t, nal, ts, key) ==
  LET ty == nal[1] % 32 IN
  CASE ty \in 1..5 -> [t EXCEPT !.samples = Append(@, [ts |-> ts, key |-> key, data |-> Be(Len(nal), 4) \o nal])]
    [] ty = 6 -> t
    [] ty \in {7, 8} /\ ~Fits(t, nal) -> [t EXCEPT !.full = TRUE]
    [] ty \in {7, 8} /\ Seen(IF ty = 7 THEN t.sps ELSE t.pps, nal) -> t
    [] ty = 7 -> [t EXCEPT !.sps = Append(@, nal),
                           !.cfg = IF t.sps = <<>> THEN <<t.cfg[1], nal[2], nal[3], nal[4]>> ELSE @]
    [] ty = 8 -> [t EXCEPT !.pps = Append(@, nal)]
RECURSIVE FeedAll(_, _, _, _)
FeedAll(t, us, ts, key) == IF us = <<>> \/ t.full THEN t ELSE FeedAll(Feed(t, us[1].nal, ts, key), Tail(us), ts, key)

MkUnit(y) ==
  LET ty == IF PickR(y, 3) = 0 THEN 1 ELSE IF PickR(y, 3) = 1 THEN 5 ELSE Types[1 + PickR(Rnd2(y, 1), 8)]
      h == ty + 32 * PickR(Rnd2(y, 2), 8)
      n == A!NalLen(Rnd2(y, 3))
  IN [code |-> 3 + PickR(Rnd2(y, 4), 2), nal |-> A!NalBytes(h, IF ty = 7 THEN n + 4 ELSE n, Rnd2(y, 5))]
\* parameter sets: small new ones (few values, so that some repeat by chance), and repeats of those seen
Heavy(kk) == kk % 6 = 3
ParamUnit(t, y) ==
  LET old == t.sps \o t.pps
      ty == IF PickR(y, 5) < (IF k % 4 = 1 THEN 1 ELSE 3) THEN 7 ELSE 8
      h == ty + 32 * (1 + PickR(Rnd2(y, 2), 3))
      c == PickR(Rnd2(y, 1), 10)
  IN [code |-> 3 + PickR(Rnd2(y, 4), 2),
      nal |-> IF c < 3 /\ old # <<>> THEN old[1 + PickR(Rnd2(y, 3), Len(old))]
              ELSE IF ty = 7 THEN A!NalBytes(h, 4 + PickR(Rnd2(y, 3), 3), Rnd2(y, 5)) ELSE A!NalBytes(h, PickR(Rnd2(y, 3), 4), Rnd2(y, 5))]
MkUnits == [i \in 1..(IF Heavy(k) THEN 4 + PickR(Rnd2(r, 1), 20) ELSE 1 + PickR(Rnd2(r, 1), 5)) |->
              IF Heavy(k) /\ PickR(Rnd2(r, 500 + i), 5) > 0 THEN ParamUnit(trk, Rnd2(r, 10 + i)) ELSE MkUnit(Rnd2(r, 10 + i))]
BadTypes == <<0, 9, 10, 11, 12, 14, 19, 20, 21, 24, 28, 30, 31, 13>>
BadUnit(y) == [code |-> 3 + PickR(y, 2), nal |-> A!NalBytes(BadTypes[1 + PickR(Rnd(y), 14)] + 32 * PickR(Rnd2(y, 2), 8), A!NalLen(Rnd2(y, 3)), Rnd2(y, 4))]
Add ==
  /\ st = "run" /\ left > 0
  /\ LET us == MkUnits
         ts == (IF log = <<>> THEN PickR(r, 5) ELSE log[Len(log)].ts) + <<0, 1, 1, 40, 33>>[1 + PickR(Rnd2(r, 2), 5)]
         key == PickR(Rnd2(r, 3), 3) = 0
         last == left = 1 /\ k % 5 = 0
         at == 1 + PickR(Rnd2(r, 4), Len(us))
         wrong == IF k % 2 = 0 THEN A!StreamOf([us EXCEPT ![at] = BadUnit(Rnd2(r, 5))])
                  ELSE <<<<>>, <<0>>, <<0, 0>>, <<101>>, <<0, 0, 2>>, <<1>>, <<0, 1, 101, 7>>, <<101, 0, 0, 1, 65>>, <<3, 0, 0, 0, 1, 65, 66>>>>[1 + PickR(Rnd2(r, 6), 9)]
         new == IF last THEN trk ELSE FeedAll(trk, us, ts, key)
     IN /\ log' = Append(log, [ts |-> ts, key |-> key, ptr |-> PickR(Rnd2(r, 7), 2), hex |-> HexOfBytes(IF last THEN wrong ELSE A!StreamOf(us)),
                               err |-> IF last \/ new.full THEN 1 ELSE 0])
        /\ trk' = IF new.full THEN trk ELSE new
        /\ st' = IF last \/ new.full THEN "refused" ELSE "run"
        /\ left' = IF new.full THEN 0 ELSE left - 1
  /\ r' = Rnd2(r, 77) /\ UNCHANGED k

S == trk.samples
Durs == [i \in 1..Len(S) |-> (IF i = Len(S) THEN Dur ELSE S[i + 1].ts) - S[i].ts]
RECURSIVE Runs(_, _, _)
Runs(d, i, acc) == IF i > Len(d) THEN acc
  ELSE IF acc # <<>> /\ acc[Len(acc)][2] = d[i] THEN Runs(d, i + 1, [acc EXCEPT ![Len(acc)] = <<@[1] + 1, @[2]>>])
  ELSE Runs(d, i + 1, Append(acc, <<1, d[i]>>))
F0 == V1(0) @@ ("flags" :> <<0, 0, 0>>)
U32s(l) == [i \in 1..Len(l) |-> "v" :> Be(l[i], 4)]
Keys == SelectSeq([i \in 1..Len(S) |-> i], LAMBDA i : S[i].key)
Boxes == [
  avcC |-> TextOf("AVCDecoderConfiguration",
     ("configuration_version" :> <<trk.cfg[1]>>) @@ ("profile" :> <<trk.cfg[2]>>) @@ ("profile_compatibility" :> <<trk.cfg[3]>>)
     @@ ("level" :> <<trk.cfg[4]>>) @@ ("length_size_minus_one" :> 3) @@ ("high_profile_fields_enabled" :> 0)
     @@ ("sequence_parameter_sets" :> [i \in 1..Len(trk.sps) |-> "nal_unit" :> trk.sps[i]])
     @@ ("picture_parameter_sets" :> [i \in 1..Len(trk.pps) |-> "nal_unit" :> trk.pps[i]])),
  stsz |-> TextOf("Stsz", F0 @@ ("sample_size" :> Zeros(4)) @@ ("entry_sizes" :> U32s([i \in 1..Len(S) |-> Len(S[i].data)]))),
  stss |-> TextOf("Stss", F0 @@ ("sample_numbers" :> U32s(Keys))),
  stts |-> TextOf("Stts", F0 @@ ("entries" :> [i \in 1..Len(Runs(Durs, 1, <<>>)) |->
             ("sample_count" :> Be(Runs(Durs, 1, <<>>)[i][1], 4)) @@ ("sample_duration" :> Be(Runs(Durs, 1, <<>>)[i][2], 4))]))]

Finish == /\ left = 0 /\ st # "end"
        /\ EmitCase([id |-> "t" \o ToString(k), op |-> "h264", dflt |-> trk.dflt, cfg |-> NewTrack(Rnd3(SeedE, k, 5)).cfg, adds |-> log,
                     samples |-> [i \in 1..Len(S) |-> [ts |-> S[i].ts, hex |-> HexOfBytes(S[i].data)]],
                     refused |-> IF st = "refused" THEN 1 ELSE 0, boxes |-> Boxes])
        /\ st' = "end" /\ UNCHANGED <<k, r, left, trk, log>>
Init == /\ k \in 1..NumE /\ r = Rnd3(SeedE, k, 5) /\ left = (1 + PickR(Rnd3(SeedE, k, 6), 12)) * (IF Heavy(k) THEN 2 ELSE 1) /\ trk = NewTrack(Rnd3(SeedE, k, 5)) /\ log = <<>> /\ st = "run"
Next == Add \/ Finish
Spec == Init /\ [][Next]_vars

\* the samples are the slices that went in, in order, nothing lost or invented
Prefixed == \A i \in 1..Len(S) : ToInt(SubSeq(S[i].data, 1, 4)) = Len(S[i].data) - 4 /\ Len(S[i].data) > 4
                                 /\ A!IsNal(SubSeq(S[i].data, 5, Len(S[i].data))) /\ S[i].data[5] % 32 \in 1..5
Once(l) == \A i, j \in 1..Len(l) : l[i] = l[j] => i = j
Holdable == Once(trk.sps) /\ Once(trk.pps) /\ Len(trk.sps) <= MaxSps /\ Len(trk.pps) <= MaxPps
FirstSps == trk.sps # <<>> => SubSeq(trk.cfg, 2, 4) = SubSeq(trk.sps[1], 2, 4)
=============================================================================
