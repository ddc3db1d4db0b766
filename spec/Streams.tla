------------------------------- MODULE Streams -------------------------------
(* Reading and writing boxes on streams that fail (C26).

   A job is a sequence of events on a stream, item by item (an item is a box):
   reading a file asks for positions, positions, takes the bytes of a header
   and the bytes of the box's fields; decoding takes fields only; encoding
   writes them; writing a tree positions and writes headers and fields;
   finding a box only positions; bits and bytes are taken and given.  At any event the environment may let the
   stream fail, up to FAULTS times, once or for good: no more data although
   the end is not reached ("eof"), nothing or not everything accepted
   ("refuse", "short"), an exception inside the stream buffer ("throw").

   A failed transfer or positioning leaves the stream unusable until somebody
   clears it, asking for the position does not.  The job ends with an error at
   the first failure it meets.

   Safe: a job that ends without an error has nothing missing or made up.
   Quiet: without a failure there is no error.
   LAX names one careless way of doing things; TLC must find Safe violated:
   "head"/"body": bytes are taken around the state of the stream (nobody sees
   that there was none), "pos": positioning unchecked and the state cleared,
   "tell": the answer to "where are you" unchecked, "wr": writing unchecked.

   Every schedule of failures is emitted and applied to the real code.        *)
EXTENDS Emit

VARIABLES job, e, bad, wrong, gone, st, log
vars == <<job, e, bad, wrong, gone, st, log>>
Budget == atoi(IOEnv.FAULTS)
Lax == IOEnv.LAX
Items == 3

Three(d, i, p) == <<[d |-> d, i |-> i, p |-> p, w |-> "first"], [d |-> d, i |-> i, p |-> p, w |-> "mid"], [d |-> d, i |-> i, p |-> p, w |-> "last"]>>
One(d, i, p) == <<[d |-> d, i |-> i, p |-> p, w |-> "last"]>>
Item(j, i) ==
  CASE j = "file" -> One("tell", i, "head") \o One("pos", i, "head") \o Three("rd", i, "head") \o One("pos", i, "body") \o Three("rd", i, "body")
    [] j = "decode" -> IF i > 1 THEN <<>> ELSE One("tell", i, "body") \o One("pos", i, "body") \o Three("rd", i, "body")
    [] j = "encode" -> IF i > 1 THEN <<>> ELSE Three("wr", i, "body")
    [] j = "tree" -> One("pos", i, "head") \o Three("wr", i, "head") \o Three("wr", i, "body")
    [] j = "take" -> (IF i = 2 THEN One("pos", i, "body") ELSE <<>>) \o Three("rd", i, "body")
    [] j = "give" -> Three("wr", i, "body")
    [] j = "find" -> One("pos", i, "head")
Jobs == {"file", "decode", "encode", "tree", "find", "take", "give"}
Ev(j) == Item(j, 1) \o Item(j, 2) \o Item(j, 3)
Over == st # "run"
Hows(d) == CASE d = "rd" -> {"eof", "throw"} [] d = "wr" -> {"refuse", "short", "throw"} [] OTHER -> {"refuse"}
Careless(v) == \/ v.d = "rd" /\ Lax = v.p
               \/ v.d = "wr" /\ Lax = "wr"
               \/ v.d = "pos" /\ Lax = "pos"
               \/ v.d = "tell" /\ Lax = "tell"
\* a careless read goes past the state of the stream
Blocked(v) == bad /\ ~(v.d = "rd" /\ Careless(v))
Move == e' = e + 1 /\ UNCHANGED <<job, log>>
Meet(v, f) ==
  IF ~f /\ ~Blocked(v) THEN Move /\ UNCHANGED <<bad, wrong, st>>
  ELSE /\ Move
       /\ wrong' = TRUE
       /\ bad' = (bad \/ (f /\ v.d # "tell" /\ ~(Careless(v) /\ v.d \in {"rd", "pos"})))
       /\ st' = IF Careless(v) THEN st ELSE "error"

Init == job \in Jobs /\ e = 1 /\ bad = FALSE /\ wrong = FALSE /\ gone = {} /\ st = "run" /\ log = <<>>
Fine == /\ ~Over /\ e <= Len(Ev(job)) /\ Ev(job)[e].d \notin gone
        /\ Meet(Ev(job)[e], FALSE) /\ UNCHANGED gone
Still == /\ ~Over /\ e <= Len(Ev(job)) /\ Ev(job)[e].d \in gone
         /\ Meet(Ev(job)[e], TRUE) /\ UNCHANGED gone
Fault == /\ ~Over /\ e <= Len(Ev(job)) /\ Len(log) < Budget
         /\ LET v == Ev(job)[e] IN
              /\ v.d \notin gone /\ ~Blocked(v)
              /\ \E how \in Hows(v.d), perm \in {0, 1} :
                   /\ wrong' = TRUE
                   /\ bad' = (bad \/ (v.d # "tell" /\ ~(Careless(v) /\ v.d \in {"rd", "pos"})))
                   /\ st' = IF Careless(v) THEN st ELSE "error"
                   /\ gone' = IF perm = 1 THEN gone \cup {v.d} ELSE gone
                   /\ log' = Append(log, [dev |-> v.d, item |-> v.i, part |-> v.p, where |-> v.w, how |-> how, perm |-> perm])
                   /\ e' = e + 1 /\ UNCHANGED job
End == /\ ~Over /\ e > Len(Ev(job)) /\ st' = "done" /\ UNCHANGED <<job, e, bad, wrong, gone, log>>
RECURSIVE Name(_)
Name(l) == IF l = <<>> THEN "" ELSE "." \o Head(l).dev \o ToString(Head(l).item) \o Head(l).part \o Head(l).where \o Head(l).how \o ToString(Head(l).perm) \o Name(Tail(l))
Tell == /\ Over /\ e # 0 /\ e' = 0
        /\ (Lax # "none" \/ EmitCase([id |-> job \o Name(log) \o "." \o st, job |-> job, faults |-> log]))
        /\ UNCHANGED <<job, bad, wrong, gone, st, log>>
Next == Fine \/ Still \/ Fault \/ End \/ Tell
Spec == Init /\ [][Next]_vars

Safe == st = "done" => ~wrong
Quiet == log = <<>> => (st # "error" /\ ~wrong)
===============================================================================
