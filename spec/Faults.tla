-------------------------------- MODULE Faults --------------------------------
(* Writers on devices that fail (C19).

   Operations are made of device events: writing to ("ow") and positioning
   ("ok") the output, opening ("fo"), writing ("fw"), positioning ("fs"),
   reading ("fr") and closing ("fc") the intermediate file, which is written
   through a buffer.  At any event the environment may let the device fail, up
   to FAULTS times, for once or for good.  An operation whose device failed
   reports an error; the caller stops there, or ignores it and goes on.

   Safe: all operations done and no error reported => nothing is missing.
   Quiet: nothing failed => no error.
   LAX names a check left out; TLC must then find Safe violated, so the model
   tells a careful writer from a careless one ("none": the writer as specified).

   Every schedule of failures is emitted and applied to the real writers.     *)
EXTENDS Emit

VARIABLES w,      \* "simple" | "fast"
          go,     \* the caller ignores errors
          pc, e,  \* operation, event of it
          bad,    \* state of the output stream, sticky
          lost,   \* bytes missing or misplaced in the output
          buf, disk, got,  \* intermediate file: buffered, written, copied
          gone,   \* devices that failed for good
          err, log
vars == <<w, go, pc, e, bad, lost, buf, disk, got, gone, err, log>>
Budget == atoi(IOEnv.FAULTS)
Lax == IOEnv.LAX

W3 == <<<<"ow", "first">>, <<"ow", "mid">>, <<"ow", "last">>>>
R3 == <<<<"fr", "first">>, <<"fr", "mid">>, <<"fr", "last">>>>
Ev(o) ==
  IF w = "simple" THEN
    CASE o = "ftyp" -> <<<<"ok", "first">>>> \o W3 \o <<<<"ok", "last">>>>
      [] o = "add" -> <<<<"ok", "first">>>> \o W3           \* where am I; write
      [] o = "free" -> <<<<"ok", "first">>>> \o W3 \o <<<<"ok", "last">>>>
      [] o = "moov" -> <<<<"ok", "first">>, <<"ok", "mid">>>> \o W3
      [] OTHER -> <<>>
  ELSE
    CASE o = "ctor" -> <<<<"fo", "first">>>>
      [] o = "ftyp" -> <<<<"ok", "first">>>> \o W3
      [] o = "add" -> <<<<"fs", "first">>, <<"put", "">>, <<"fw", "first">>, <<"fw", "mid">>, <<"fw", "last">>>>
      [] o = "moov" -> <<<<"ok", "first">>, <<"ok", "mid">>>> \o W3
      [] o = "mdat" -> <<<<"ok", "first">>>> \o W3
      [] o = "copy" -> <<<<"fw", "first">>, <<"fw", "mid">>, <<"fw", "last">>, <<"fs", "first">>, <<"fs", "last">>>> \o R3 \o W3
                       \o <<<<"count", "">>, <<"fc", "first">>>>
      [] OTHER -> <<>>
Plan == IF w = "simple" THEN <<"ctor", "ftyp", "add", "add", "append", "free", "moov">>
        ELSE <<"ctor", "ftyp", "add", "add", "append", "moov", "mdat", "copy">>
Op == Plan[pc]
Nth == Len(SelectSeq(SubSeq(Plan, 1, pc), LAMBDA o : o = Op))
Done == pc > Len(Plan)
\* does the event touch the device at all?
Touches(ev) == LET d == ev[1] IN
  CASE d \in {"put", "count"} -> FALSE
    [] d = "ow" -> ~bad /\ (Op = "copy" => got > 0)
    [] d = "ok" -> ~bad
    [] d = "fw" -> buf > 0 /\ (Op = "add" => buf >= 6)
    [] OTHER -> TRUE
Hows(d) == IF d = "ow" THEN {"refuse", "short", "throw"} ELSE IF d = "fw" THEN {"refuse", "short"}
           ELSE IF d = "fr" THEN {"refuse", "eof"} ELSE {"refuse"}
Advance == e' = e + 1 /\ UNCHANGED pc
\* the operation ends with an error
Fail == err' = TRUE /\ e' = 1 /\ pc' = IF go /\ pc > 2 THEN pc + 1 ELSE Len(Plan) + 1
\* f: the device fails here; eof: it pretends to be at its end
Effect(ev, f, eof) == LET d == ev[1] IN
  CASE d = "put" -> buf' = buf + 3 /\ Advance /\ UNCHANGED <<bad, lost, disk, got, err>>
    [] d = "ow" ->
         IF bad \/ f THEN
           /\ bad' = TRUE /\ lost' = TRUE /\ UNCHANGED <<buf, disk, got>>
           /\ IF Lax = "write" \/ (Lax = "lastwrite" /\ pc = Len(Plan)) THEN Advance /\ UNCHANGED err ELSE Fail
         ELSE Advance /\ UNCHANGED <<bad, lost, buf, disk, got, err>>
    [] d = "ok" ->
         \* asking for the position leaves the state of the stream alone
         IF f /\ Op = "add" THEN
           /\ UNCHANGED <<bad, buf, disk, got>>
           /\ IF Lax = "tell" THEN lost' = TRUE /\ Advance /\ UNCHANGED err ELSE UNCHANGED lost /\ Fail
         ELSE IF bad \/ f THEN
           /\ bad' = TRUE /\ lost' = TRUE /\ UNCHANGED <<buf, disk, got>> /\ Fail
         ELSE Advance /\ UNCHANGED <<bad, lost, buf, disk, got, err>>
    [] d = "fo" -> IF f THEN lost' = TRUE /\ Fail /\ UNCHANGED <<bad, buf, disk, got>>
                   ELSE Advance /\ UNCHANGED <<bad, lost, buf, disk, got, err>>
    [] d = "fw" ->
         IF f THEN /\ buf' = buf - 1 /\ lost' = TRUE /\ UNCHANGED <<bad, disk, got>>
                   /\ IF Lax = "flush" /\ Op = "copy" THEN Advance /\ UNCHANGED err ELSE Fail
         ELSE IF Touches(ev) THEN buf' = buf - 1 /\ disk' = disk + 1 /\ Advance /\ UNCHANGED <<bad, lost, got, err>>
         ELSE Advance /\ UNCHANGED <<bad, lost, buf, disk, got, err>>
    [] d = "fs" -> IF f THEN lost' = TRUE /\ Fail /\ UNCHANGED <<bad, buf, disk, got>>
                   ELSE /\ (IF Op = "copy" THEN disk' = disk + buf /\ buf' = 0 ELSE UNCHANGED <<disk, buf>>)
                        /\ Advance /\ UNCHANGED <<bad, lost, got, err>>
    [] d = "fr" ->
         \* after its end nothing more comes
         IF f /\ eof THEN lost' = TRUE /\ (e' = e + Len(SelectSeq(SubSeq(Ev(Op), e, Len(Ev(Op))), LAMBDA x : x[1] = "fr")) /\ UNCHANGED pc)
                          /\ UNCHANGED <<bad, buf, disk, got, err>>
         ELSE IF f THEN /\ lost' = TRUE /\ UNCHANGED <<bad, buf, disk, got>>
                        /\ IF Lax = "read" THEN Advance /\ UNCHANGED err ELSE Fail
         ELSE got' = got + 1 /\ Advance /\ UNCHANGED <<bad, lost, buf, disk, err>>
    [] d = "count" -> IF got < 3 /\ Lax # "count" THEN Fail /\ UNCHANGED <<bad, lost, buf, disk, got>>
                      ELSE Advance /\ UNCHANGED <<bad, lost, buf, disk, got, err>>
    [] d = "fc" -> IF f THEN Fail /\ UNCHANGED <<bad, lost, buf, disk, got>> ELSE Advance /\ UNCHANGED <<bad, lost, buf, disk, got, err>>

Init == /\ w \in {"simple", "fast"} /\ go \in {FALSE, TRUE} /\ pc = 1 /\ e = 1 /\ bad = FALSE /\ lost = FALSE
        /\ buf = 0 /\ disk = 0 /\ got = 0 /\ gone = {} /\ err = FALSE /\ log = <<>>
NextOp == /\ ~Done /\ e > Len(Ev(Op)) /\ pc' = pc + 1 /\ e' = 1 /\ UNCHANGED <<w, go, bad, lost, buf, disk, got, gone, err, log>>
Fine == /\ ~Done /\ e <= Len(Ev(Op))
        /\ LET ev == Ev(Op)[e] IN
             /\ ~(ev[1] \in gone /\ Touches(ev))
             /\ Effect(ev, FALSE, FALSE)
        /\ UNCHANGED <<w, go, gone, log>>
Again == /\ ~Done /\ e <= Len(Ev(Op))
         /\ LET ev == Ev(Op)[e] IN ev[1] \in gone /\ Touches(ev) /\ Effect(ev, TRUE, FALSE)
         /\ UNCHANGED <<w, go, gone, log>>
Fault == /\ ~Done /\ e <= Len(Ev(Op)) /\ Len(log) < Budget
         /\ LET ev == Ev(Op)[e] IN
              /\ Touches(ev) /\ ev[1] \notin gone
              /\ \E how \in Hows(ev[1]), perm \in {0, 1} :
                   /\ Effect(ev, TRUE, how = "eof")
                   /\ gone' = IF perm = 1 /\ how # "eof" THEN gone \cup {ev[1]} ELSE gone
                   /\ log' = Append(log, [dev |-> ev[1], op |-> Op, nth |-> Nth, where |-> ev[2], how |-> how, perm |-> perm])
         /\ UNCHANGED <<w, go>>
Id == w \o (IF go THEN "g" ELSE "s") \o ToString(Len(log)) \o
      (LET RECURSIVE N(_) N(j) == IF j > Len(log) THEN "" ELSE "." \o log[j].op \o ToString(log[j].nth) \o log[j].dev \o log[j].where \o log[j].how \o ToString(log[j].perm) \o N(j + 1)
       IN N(1)) \o (IF err THEN "E" ELSE "C")
End == /\ Done /\ e = 1 /\ e' = 0
       /\ (Lax # "none" \/ EmitCase([id |-> Id, w |-> w, go_on |-> IF go THEN 1 ELSE 0, faults |-> log, err |-> IF err THEN 1 ELSE 0]))
       /\ UNCHANGED <<w, go, pc, bad, lost, buf, disk, got, gone, err, log>>
Next == NextOp \/ Fine \/ Again \/ Fault \/ End
Spec == Init /\ [][Next]_vars

Safe == Done => (err \/ ~lost)
Quiet == log = <<>> => (~err /\ ~lost)
===============================================================================
