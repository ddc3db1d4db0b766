-------------------------------- MODULE Long --------------------------------
(* Movies of very many samples and chunks (C01, C02, C03).

   A history is a sequence of runs: n samples of track t, sizes sz + (j mod m),
   times ts + (j - 1) * dt + dd * (j mod 2), a chunk end behind every c-th
   sample (c = 0: none) and behind the run where e = 1, a key sample wherever
   q divides j (q = 0: none), contents from a formula.  The predicates say the
   same as those of Movie, but follow the tables run by run, so that more
   samples and chunks than 16 bits count can be looked at.

   SCALE small: short runs; the machine of MuxCore lays the file out, and it
   must satisfy these predicates and those of Movie; the file with any one
   table entry changed must not (Sharp).
   SCALE large: histories for the real writers; the recorded files are checked
   by LongTrace.                                                             *)
EXTENDS LongCore

VARIABLES k, ph, h, f, bent
vars == <<k, ph, h, f, bent>>
NoFile == [len |-> Zeros(8)]
Init == k \in 1..NumE /\ ph = "start" /\ h = [runs |-> <<>>] /\ f = NoFile /\ bent = 0
Choose == ph = "start" /\ h' = HistoryOf(k) /\ ph' = "chosen" /\ UNCHANGED <<k, f, bent>>
Emission == ph = "chosen" /\ Scale = "large" /\ EmitCase(h) /\ ph' = "end" /\ UNCHANGED <<k, h, f, bent>>
Run == /\ ph = "chosen" /\ Scale = "small" /\ ph' = "done"
       /\ f' = (LET x == Expanded(h) IN FileOf(x, RunOps(x, Writer0(x), x.ops, 1))) /\ UNCHANGED <<k, h, bent>>
\* one table entry of one track is altered: the bent-th, counting through all tables
Bend == /\ ph = "done" /\ h.w = "fast" /\ ph' = "bent" /\ bent' \in 1..Bends /\ UNCHANGED <<k, h>>
        /\ LET ws == Words(h, f)  at == ws[1 + ((13 * bent') % Len(ws))] IN f' = [f EXCEPT !.segs[1].b[at] = (@ + 1 + (bent' % 200)) % 256]
Next == Choose \/ Emission \/ Run \/ Bend
Spec == Init /\ [][Next]_vars
Complaints == UNION {LongCheck(p, h, f) : p \in {"C01", "C02", "C03"}}
Sound == ph = "done" => Complaints = {} /\ Check("all", Expanded(h), f) = {}
Sharp == ph = "bent" => Complaints # {}
=============================================================================
