----------------------------- MODULE LongTrace -----------------------------
(* Recorded runs of the real writers, checked against LongCheck.
   DIR/k.json holds history and file of run k (1 .. CASES).                  *)
EXTENDS LongCore
VARIABLES k, st
vars == <<k, st>>
Run(j) == JsonDeserialize(IOEnv.DIR \o "/" \o ToString(j) \o ".json")
Init == k \in 1..NumE /\ st = "recorded"
Next == /\ st = "recorded"
        /\ LET r == Run(k) bad == LongCheck(IOEnv.PID, r.h, r.f) IN EmitCase([id |-> r.h.id, bad |-> SetToSeq(bad)])
        /\ st' = "checked" /\ UNCHANGED k
Spec == Init /\ [][Next]_vars
=============================================================================
