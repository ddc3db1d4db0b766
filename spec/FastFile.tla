------------------------------ MODULE FastFile ------------------------------
(* The intermediate files of fast-start writers (C18).  Several writers share a
   directory (and often a template); each step is one operation of one writer,
   or the environment removing a file.  After every step the directory must
   hold exactly the files of the model, each readable by its owner only, each
   holding a prefix of the bytes its writer was given; the other files stay.
   LEN > 0: all histories up to that length with two writers; otherwise
   seeded longer histories with three writers and large data.               *)
EXTENDS Num, Emit, IOUtils, FiniteSets

VARIABLES k, r, w, log, ph
vars == <<k, r, w, log, ph>>

Depth == atoi(IOEnv.LEN)
Ws == IF Depth > 0 THEN 1..2 ELSE 1..3
Good == <<"default", "mdatXXXXXX", "sub/aXXXXXX", "XXXXXX", "ABS/mdatXXXXXX", "long_name_with.dots-XXXXXX">>
Bad == <<"nodir/mdatXXXXXX", "mdat", "mdatXXXXXX.tmp", "", "mdatXXXXX", "ABS/no/such/mdatXXXXXX", "keep/mdatXXXXXX">>  \* keep is a file
None == [st |-> "none", file |-> "no", n |-> <<>>, tpl |-> ""]

\* ---- one operation: <<writer afterwards, is it an error>> --------------------------
Apply(s, op, arg) ==
  CASE op = "create" -> IF \E i \in 1..Len(Good) : Good[i] = arg
                        THEN <<[st |-> "open", file |-> "there", n |-> <<>>, tpl |-> arg], FALSE>> ELSE <<s, TRUE>>
    [] op = "add" -> <<[s EXCEPT !.n = Append(@, arg)], FALSE>>
    [] op = "finish" -> <<[s EXCEPT !.st = "head"], FALSE>>
    [] op = "copy" -> <<[s EXCEPT !.st = "copied", !.file = "gone"], s.file # "there">>
    [] op = "delete" -> <<[s EXCEPT !.file = "gone"], s.file # "there">>
    [] op = "vanish" -> <<[s EXCEPT !.file = "gone"], FALSE>>
    [] op = "drop" -> <<None, FALSE>>
Enabled(s, op) ==
  CASE op = "create" -> s.st = "none"
    [] op = "add" -> s.st = "open" /\ Len(s.n) < 6
    [] op = "finish" -> s.st = "open"
    [] op = "copy" -> s.st = "head"
    [] op = "delete" -> s.st \in {"open", "head", "copied"}
    [] op = "vanish" -> s.file = "there"
    [] op = "drop" -> s.st = "copied"
\* exactly the files that must be there: their writers
There(ws) == {i \in Ws : ws[i].file = "there"}
Step(i, op, arg) == LET a == Apply(w[i], op, arg) ws == [w EXCEPT ![i] = a[1]] IN
  /\ Enabled(w[i], op)
  /\ w' = ws
  /\ log' = Append(log, [w |-> i, op |-> op, arg |-> arg, err |-> IF a[2] THEN 1 ELSE 0,
                         files |-> SetToSortSeq(There(ws), <),
                         out |-> IF op = "copy" /\ ~a[2] THEN 1 ELSE 0])

\* ---- small scope: everything -----------------------------------------------------------
SmallStep == /\ ph = "all" /\ Len(log) < Depth
             /\ \E i \in Ws : \/ Step(i, "create", "default") \/ (i = 1 /\ Step(i, "create", "nodir/mdatXXXXXX"))
                              \/ Step(i, "add", 3) \/ (i = 1 /\ Step(i, "add", 0))
                              \/ \E op \in {"finish", "copy", "delete", "vanish", "drop"} : Step(i, op, 0)
             /\ UNCHANGED <<k, r, ph>>
\* ---- seeded -------------------------------------------------------------------------------
Sizes == <<0, 1, 5, 4095, 4096, 5000, 100000, 1048575, 1048576, 1048577, 2097152, 3000000>>
Options(x) == {<<i, op>> \in Ws \X {"create", "add", "finish", "copy", "delete", "vanish", "drop"} :
                 /\ Enabled(w[i], op) /\ (op \in {"delete", "vanish"} => PickR(Rnd2(x, i), 6) = 0 \/ w[i].st = "copied")
                 /\ (op = "finish" => PickR(Rnd2(x, i), 3) = 0 \/ Len(w[i].n) >= 5)}
SeedStep == /\ ph = "walk" /\ Len(log) < 16
            /\ LET c == SetToSortSeq(Options(r), LAMBDA a, b : a[1] < b[1] \/ (a[1] = b[1] /\ a[2] # b[2] /\
                         (CHOOSE q \in 1..7 : <<"create", "add", "finish", "copy", "delete", "vanish", "drop">>[q] = a[2]) <
                         (CHOOSE q \in 1..7 : <<"create", "add", "finish", "copy", "delete", "vanish", "drop">>[q] = b[2])))
                   p == c[1 + PickR(Rnd2(r, 9), Len(c))]
                   arg == IF p[2] = "create" THEN (IF PickR(Rnd2(r, 10), 4) = 0 THEN Bad[1 + PickR(Rnd2(r, 11), Len(Bad))]
                                                   ELSE IF k % 2 = 0 THEN Good[1 + (k % Len(Good))] ELSE Good[1 + PickR(Rnd2(r, 12), Len(Good))])
                          ELSE IF p[2] = "add" THEN Sizes[1 + PickR(Rnd2(r, 13), IF k % 3 = 0 THEN Len(Sizes) ELSE 6)] ELSE 0
               IN IF c = <<>> THEN FALSE ELSE Step(p[1], p[2], arg)
            /\ r' = Rnd2(r, 99) /\ UNCHANGED <<k, ph>>
Init == /\ w = [i \in Ws |-> None] /\ log = <<>>
        /\ IF Depth > 0 THEN k = 0 /\ r = 1 /\ ph = "all" ELSE k \in 1..NumE /\ r = Rnd3(SeedE, k, 61) /\ ph = "walk"
Name == IF Depth > 0 THEN "s" \o CatS([i \in 1..Len(log) |-> ToString(log[i].w) \o SubSeq(log[i].op, 1, 1)
                                        \o (IF log[i].op = "create" THEN ToString(Len(log[i].arg)) ELSE IF log[i].op = "add" THEN ToString(log[i].arg) ELSE "")])
        ELSE "w" \o ToString(k)
End == /\ (IF ph = "all" THEN Len(log) = Depth ELSE ph = "walk" /\ Len(log) = 16)
       /\ EmitCase([id |-> Name, op |-> "fastfile", steps |-> log]) /\ ph' = "end" /\ UNCHANGED <<k, r, w, log>>
Next == SmallStep \/ SeedStep \/ End
Spec == Init /\ [][Next]_vars

\* a writer that has copied leaves no file; an error never creates a file
Clean == \A i \in Ws : w[i].st \in {"none", "copied"} => w[i].file # "there"
Owned == \A i \in 1..Len(log) : log[i].err = 1 /\ log[i].op = "create" => \A j \in 1..Len(log[i].files) : log[i].files[j] # log[i].w
=============================================================================
