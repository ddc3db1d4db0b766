------------------------------ MODULE MuxTrace ------------------------------
(* Recorded runs of the real writers, checked against the predicates of Movie.
   DIR/k.json holds history and file of run k (1 .. CASES).                   *)
EXTENDS Movie, Emit
VARIABLES k, st
vars == <<k, st>>
Run(j) == JsonDeserialize(IOEnv.DIR \o "/" \o ToString(j) \o ".json")
Init == k \in 1..NumE /\ st = "recorded"
Next == /\ st = "recorded"
        /\ LET r == Run(k) bad == Check(IOEnv.PID, r.h, r.f) IN
             EmitCase([id |-> r.h.id, bad |-> SetToSeq(bad)])
        /\ st' = "checked" /\ UNCHANGED k
Spec == Init /\ [][Next]_vars
=============================================================================
