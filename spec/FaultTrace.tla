------------------------------ MODULE FaultTrace ------------------------------
(* Recorded runs on failing devices (C19): DIR/k.json holds what happened to
   history k.  A run is [times, fired, err, complete, place]; equal runs in a
   row are given once.  The invariants are those of Faults, on the recording. *)
EXTENDS Emit, FiniteSets, SequencesExt
VARIABLES k, st
vars == <<k, st>>
Run(j) == JsonDeserialize(IOEnv.DIR \o "/" \o ToString(j) \o ".json")
Safe(x) == x[3] # 0 \/ x[4] = 1
Quiet(x) == x[2] # 0 \/ (x[3] = 0 /\ x[4] = 1)
Bad(r) == (IF r.err = "" THEN {} ELSE {"an error without a failure: " \o r.err})
  \cup UNION {{"plan " \o ToString(g) \o " at place " \o ToString(r.groups[g][i][5]) \o " and " \o ToString(r.groups[g][i][1] - 1) \o " more: " \o
                 (IF Safe(r.groups[g][i]) THEN "error without a failure" ELSE "bytes are missing and no error was reported")
               : i \in {i \in 1..Len(r.groups[g]) : ~(Safe(r.groups[g][i]) /\ Quiet(r.groups[g][i]))}} : g \in 1..Len(r.groups)}
RECURSIVE Sum(_, _)
Sum(l, i) == IF i > Len(l) THEN 0 ELSE l[i] + Sum(l, i + 1)
Count(r, P(_)) == Sum([g \in 1..Len(r.groups) |-> Sum([i \in 1..Len(r.groups[g]) |-> IF P(r.groups[g][i]) THEN r.groups[g][i][1] ELSE 0], 1)], 1)
Init == k \in 1..NumE /\ st = "recorded"
Next == /\ st = "recorded"
        /\ LET r == Run(k) IN
             EmitCase([id |-> r.id, bad |-> SetToSeq(Bad(r)), runs |-> Count(r, LAMBDA x : TRUE), fired |-> Count(r, LAMBDA x : x[2] # 0),
                       reported |-> Count(r, LAMBDA x : x[3] # 0)])
        /\ st' = "checked" /\ UNCHANGED k
Spec == Init /\ [][Next]_vars
===============================================================================
