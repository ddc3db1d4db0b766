--------------------------------- MODULE Mux ---------------------------------
(* The writers and tracks as a state machine (C01 - C06).

   State: what the writer and its tracks have gathered so far (ids handed out,
   bytes of media data, per track sizes, durations, key samples, chunks).
   Operations: hand out an id, make a track, add a sample, end a chunk, add
   raw media data, set the media time; then the finishing sequence.  At the end
   the machine lays out its own file from the gathered tables - for the
   fast-start writer by iterating until the offsets fit the layout - and that
   file must satisfy every predicate of Movie for the history (Sound).  Every
   history is emitted to be run against the real writers.

   MODE: small (all histories up to DEPTH), walk (seeded), edge (media data
   around multiples of 2^20), big / bigfast (around 2^32),
   chain (tables that widen one another), long (many samples), tracks (many tracks),
   fault (short ones, for failing devices).                                    *)
EXTENDS MuxCore

VARIABLES k, ph, h, w, todo, r
vars == <<k, ph, h, w, todo, r>>

\* ---- transitions --------------------------------------------------------------------------------------------------
Init ==
  /\ k \in (IF Mode = "small" THEN 1..2 ELSE 1..NumE)
  /\ ph = "start" /\ h = [ops |-> <<>>] /\ w = <<>> /\ todo = <<>> /\ r = Rnd3(SeedE, k, 4200)
Setup ==
  /\ ph = "start"
  /\ LET c == ConfigOf(k) IN
       /\ h' = c /\ w' = Writer0(c)
       /\ todo' = CASE Mode = "small" -> Opening \o Tracks0(c, r)
                    [] Mode = "edge" \/ (Mode = "fault" /\ k % 6 = 5) -> EdgePlan(c, r)
                    [] Mode \in {"big", "bigfast"} -> BigPlan(c, r)
                    [] Mode = "chain" -> ChainPlan(c, r)
                    [] Mode = "tracks" -> Opening \o Tracks0(c, r)
                    [] OTHER -> Opening
       /\ ph' = "run" /\ UNCHANGED <<k, r>>
Apply(op) == w' = Do(h, w, op) /\ h' = [h EXCEPT !.ops = Append(@, op)]
Planned == ph = "run" /\ todo # <<>> /\ Apply(todo[1]) /\ todo' = Tail(todo) /\ UNCHANGED <<k, ph, r>>
Free0 == ph = "run" /\ todo = <<>> /\ ~(\E j \in 1..Len(h.ops) : h.ops[j].o = "append")
Steps == Len(h.ops) - 2
Limit0 == IF Mode = "long" THEN (IF Depth > 0 THEN Depth ELSE 330) ELSE IF Mode = "tracks" THEN Len(h.tracks) + 12 ELSE IF Mode = "fault" THEN <<2, 5, 9, 14, 3>>[1 + (k % 5)] ELSE IF Mode = "walk" THEN <<0, 3, 6, 10, 15, 25, 40>>[1 + (k % 7)] + PickR(Rnd2(SeedE, k), 10) ELSE 0
Walk == /\ Free0 /\ Mode \in {"walk", "long", "fault", "tracks"} /\ Steps < Limit0
        /\ Apply(PickOp(h, w, r)) /\ r' = Rnd2(r, 991) /\ UNCHANGED <<k, ph, todo>>
\* all operations of the exhaustive mode
SmallAdd(i, n, dt, key) == [o |-> "add", t |-> i, ts |-> IF w.trk[i].sizes = <<>> THEN N8(dt) ELSE Add8(w.trk[i].prev, dt), key |-> key, ptr |-> n % 2,
                            data |-> Blob(n, 100 * Len(h.ops) + n)]
Small == /\ Free0 /\ Mode = "small" /\ Len(h.ops) < 4 + Depth
         /\ \E op \in {SmallAdd(i, n, dt, key) : i \in {j \in 1..2 : OpenTrk(w) \in {0, j}}, n \in {1, 2}, dt \in {1, 2}, key \in {0, 1}}
                      \cup {EndOp(i) : i \in {OpenTrk(w)} \ {0}} :
              /\ (op.o = "add" => op.t = 1 \/ op.key = 0) /\ Apply(op)
         /\ UNCHANGED <<k, ph, todo, r>>
Finish == /\ Free0 /\ (Mode = "small" \/ (Mode \in {"walk", "long", "fault", "tracks"} /\ Steps >= Limit0))
          /\ todo' = Finale(h, IF Mode = "small" THEN <<1, 2>> ELSE OrderOf(w, Rnd2(r, 5)), IF Mode = "small" THEN 0 ELSE <<0, 0, 1, 0, 3, 0>>[1 + PickR(Rnd2(r, 6), 6)])
          /\ UNCHANGED <<k, ph, h, w, r>>
Name == IF Mode = "small" THEN "s" \o ToString(k) \o CatS([j \in 1..(Len(h.ops) - 4) |-> LET op == h.ops[j + 4] IN
          CASE op.o = "add" -> "_" \o ToString(op.t) \o ToString(op.data.n) \o ToString(op.key) \o ToString(op.ts[8])
            [] op.o = "end" -> "e" [] OTHER -> ""]) ELSE h.id
End == /\ ph = "run" /\ todo = <<>> /\ ~Free0
       /\ EmitCase([h EXCEPT !.id = Name]) /\ ph' = "end" /\ UNCHANGED <<k, h, w, todo, r>>
Next == Setup \/ Planned \/ Walk \/ Small \/ Finish \/ End
Spec == Init /\ [][Next]_vars

\* the machine's own file has every property
Sound == ph = "end" => LET bad == Check(IOEnv.PID, h, FileOf(h, w)) IN IF bad = {} THEN TRUE ELSE PrintT(<<h.id, bad>>) /\ FALSE
\* chunks of all tracks lie one behind the other and hold all samples
Accounted == ph = "run" /\ w # <<>> => \A i \in 1..Len(w.trk) : LET t == w.trk[i]
                 n(j) == t.chunks[j].n
                 RECURSIVE Total(_)
                 Total(j) == IF j > Len(t.chunks) THEN t.cur.n ELSE n(j) + Total(j + 1)
              IN Total(1) = Len(t.sizes) /\ Len(t.durs) = (IF t.sizes = <<>> THEN 0 ELSE Len(t.sizes) - 1)
                 /\ \A j \in 2..Len(t.chunks) : ~LessB(t.chunks[j].off, t.chunks[j - 1].off)

=============================================================================
