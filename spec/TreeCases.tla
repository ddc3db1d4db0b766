------------------------------ MODULE TreeCases ------------------------------
(* Trees of boxes with real sizes (C10): a seeded tree, sizes placed so that
   the content of some node lies at the 32-bit limit, laid out, changed,
   laid out again.  The expected offsets, sizes, header bytes and text are
   those of the closed form of Tree.tla.                                      *)
EXTENDS Num, Emit

VARIABLES k, ph, tree, round, log
vars == <<k, ph, tree, round, log>>

N8(n) == Be(n, 4)
W(n) == Widen(Be(n, 4), 8)
Plus(a, b) == AddB(a, b)
Minus(a, b) == AddB(a, Neg(b))
Limit == <<0, 0, 0, 0, 255, 255, 255, 247>>          \* 2^32 - 1 - 8
Codes == <<<<109,111,111,118>>, <<102,97,107,101>>, <<120,48,49,50>>, <<169,116,111,111>>, <<0,1,2,255>>, <<119,97,118,101>>, <<109,101,116,97>>>>
HdrFor(c) == IF LessB(Limit, c) THEN 16 ELSE 8

\* t: sequence of [par, own]
Kids(t, i) == SelectSeq([j \in 1..Len(t) |-> j], LAMBDA j : t[j].par = i)
RECURSIVE Content(_, _)
RECURSIVE SumKids(_, _, _)
Size(t, i) == LET c == Content(t, i) IN Plus(c, W(HdrFor(c)))
SumKids(t, ks, n) == IF n = 0 THEN Zeros(8) ELSE Plus(SumKids(t, ks, n - 1), Size(t, ks[n]))
Content(t, i) == LET ks == Kids(t, i) IN Plus(t[i].own, SumKids(t, ks, Len(ks)))
Hdr(t, i) == HdrFor(Content(t, i))
RECURSIVE Offset(_, _, _)
Offset(t, s, i) == IF i = 1 THEN s
  ELSE LET p == t[i].par ks == SelectSeq(Kids(t, p), LAMBDA j : j < i)
       IN Plus(Plus(Plus(Offset(t, s, p), W(Hdr(t, p))), t[p].own), SumKids(t, ks, Len(ks)))
RECURSIVE Depth(_, _)
Depth(t, i) == IF i = 1 THEN 0 ELSE 1 + Depth(t, t[i].par)
RECURSIVE Up(_, _, _)
Up(t, i, r) == IF i = 1 \/ r % 3 = 0 THEN i ELSE Up(t, t[i].par, r \div 3)     \* some ancestor or itself

\* ---- choosing a tree -------------------------------------------------------------
Shape(x, n) == [i \in 1..n |-> [par |-> IF i = 1 THEN 0 ELSE 1 + PickR(Rnd2(x, i), i - 1),
   code |-> Codes[1 + PickR(Rnd3(x, i, 1), Len(Codes))],
   own |-> W(<<0, 0, 1, 4, 30, 3, 0, 61>>[1 + PickR(Rnd3(x, i, 2), 8)]),
   pre |-> PickR(Rnd3(x, i, 3), 5)]]                                          \* 0: has a header already
Deltas == <<0, 1, 2, 8, 9, 16, 17, 24, 25, 40, 1000, 7, 10>>
Huge == <<<<0,0,0,1,0,0,0,0>>, <<0,0,0,2,0,0,0,1>>, <<0,0,1,0,0,0,0,0>>, <<0,0,0,0,128,0,0,0>>, <<0,0,0,0,255,255,255,255>>>>
\* the content of an ancestor of node p is put at the limit plus or minus a little
Place(t, x) ==
  LET p == 1 + PickR(Rnd2(x, 11), Len(t))
      a == Up(t, p, PickR(Rnd2(x, 12), 30))
      z == [t EXCEPT ![p].own = Zeros(8)]
      d == W(Deltas[1 + PickR(Rnd2(x, 13), Len(Deltas))])
      rest == Content(z, a)
      target == IF PickR(Rnd2(x, 14), 2) = 0 THEN Plus(Limit, d) ELSE Minus(Limit, d)
  IN CASE PickR(Rnd2(x, 15), 6) = 0 -> t
       [] PickR(Rnd2(x, 15), 6) = 1 -> [t EXCEPT ![p].own = Huge[1 + PickR(x, Len(Huge))]]
       [] OTHER -> IF Less(target, rest) THEN t ELSE [t EXCEPT ![p].own = Minus(target, rest)]
Starts == <<Zeros(8), W(1), W(24), <<0,0,0,0,255,255,255,250>>, <<0,0,1,0,0,0,0,0>>, W(1000)>>
Deltas8(x) == LET d == W(Deltas[1 + PickR(x, Len(Deltas))]) IN IF PickR(Rnd(x), 2) = 0 THEN Plus(Limit, d) ELSE Minus(Limit, d)
StartOf(x) == Starts[1 + PickR(Rnd2(x, 21), Len(Starts))]
\* many children side by side; one nested in the other many times
Wide(kk) == kk % 150 = 13
Chain(kk) == kk % 150 = 27
WideN(kk) == <<120, 130, 255, 256, 257, 258, 300, 600>>[1 + PickR(Rnd2(SeedE, kk), 8)]
ShapeW(x, n) == [i \in 1..n |-> [par |-> IF i = 1 THEN 0 ELSE 1, code |-> Codes[1 + PickR(Rnd3(x, i, 1), Len(Codes))],
   own |-> IF PickR(Rnd3(x, i, 2), 60) = 0 /\ i > 1 THEN Deltas8(Rnd3(x, i, 4)) ELSE W(PickR(Rnd3(x, i, 3), 40)), pre |-> PickR(Rnd3(x, i, 5), 5)]]
TreeOf(kk) == LET x == Rnd2(SeedE, kk) IN
  IF Wide(kk) THEN ShapeW(x, 1 + WideN(kk)) ELSE
  IF Chain(kk) THEN LET t == ShapeW(x, 20 + PickR(x, 40)) IN [i \in 1..Len(t) |-> [t[i] EXCEPT !.par = i - 1]] ELSE
  Place(Place(Shape(x, 1 + PickR(Rnd2(x, 5), IF kk % 10 = 0 THEN 14 ELSE 6)), Rnd2(x, 7)), Rnd2(x, 8))
\* between rounds: some node gets another size
Change(t, x) == IF PickR(x, 4) = 0 THEN Place(t, Rnd2(x, 3))
  ELSE LET p == 1 + PickR(Rnd2(x, 2), Len(t)) IN Place([t EXCEPT ![p].own = W(PickR(x, 50))], Rnd2(x, 4))

\* ---- what must be seen ---------------------------------------------------------------
TypeText(c) == IF \A i \in 1..4 : (c[i] >= 32 /\ c[i] <= 126) \/ c[i] = 169 THEN "" ELSE "0x" \o HexOfBytes(c)
\* all contents, bottom up, and all offsets, top down, in one pass each (the same as the closed form: Agree)
Contents(t) == FoldLeft(LAMBDA acc, j : LET i == Len(t) + 1 - j c == acc[i] IN
    IF i = 1 THEN acc ELSE [acc EXCEPT ![t[i].par] = Plus(@, Plus(c, W(HdrFor(c))))],
  [i \in 1..Len(t) |-> t[i].own], [j \in 1..Len(t) |-> j])
Offsets(t, cs, s) == FoldLeft(LAMBDA acc, i : LET o == IF i = 1 THEN s ELSE acc[2][t[i].par] h == W(HdrFor(cs[i])) IN
    << [acc[1] EXCEPT ![i] = o],
       [[acc[2] EXCEPT ![i] = Plus(Plus(o, h), t[i].own)] EXCEPT ![IF i = 1 THEN 1 ELSE t[i].par] = IF i = 1 THEN @ ELSE Plus(@, Plus(cs[i], h))] >>,
  << [i \in 1..Len(t) |-> Zeros(8)], [i \in 1..Len(t) |-> Zeros(8)] >>, [j \in 1..Len(t) |-> j])[1]
See(t, s) == LET cs == Contents(t) os == Offsets(t, cs, s) IN
  [start |-> Dec(s), boxes |-> [i \in 1..Len(t) |->
   LET o == os[i] c == cs[i] h == HdrFor(c) z == Plus(c, W(h)) IN
   [own |-> Dec(t[i].own), off |-> Dec(o), size |-> Dec(z), hdr |-> h,
    head |-> HexOfBytes(IF h = 8 THEN SubSeq(z, 5, 8) \o t[i].code ELSE <<0, 0, 0, 1>> \o t[i].code \o z)]]]

Init == k \in 1..NumE /\ ph = "start" /\ tree = <<>> /\ round = 0 /\ log = <<>>
Make == ph = "start" /\ ph' = "made" /\ tree' = TreeOf(k) /\ UNCHANGED <<k, round, log>>
Layout == /\ ph = "made" /\ round < 3
          /\ log' = Append(log, See(tree, StartOf(Rnd3(SeedE, k, round))))
          /\ round' = round + 1 /\ ph' = "laid" /\ UNCHANGED <<k, tree>>
Alter == /\ ph = "laid" /\ round < 3 /\ ph' = "made"
         /\ tree' = IF round = 2 THEN TreeOf(k) ELSE Change(tree, Rnd3(SeedE, k, 70 + round))
         /\ UNCHANGED <<k, round, log>>
End == /\ ph = "laid" /\ round = 3 /\ ph' = "end" /\ UNCHANGED <<k, tree, round, log>>
       /\ EmitCase([id |-> "t" \o ToString(k), op |-> "tree", rounds |-> log,
             nodes |-> [i \in 1..Len(tree) |-> [par |-> tree[i].par, code |-> HexOfBytes(tree[i].code), pre |-> tree[i].pre,
                                                depth |-> Depth(tree, i), text |-> TypeText(tree[i].code)]]])
Next == Make \/ Layout \/ Alter \/ End
Spec == Init /\ [][Next]_vars

\* the closed form tiles: children fill the parent exactly
Agree == ph = "made" /\ Len(tree) <= 15 => LET cs == Contents(tree) os == Offsets(tree, cs, W(5)) IN
  \A i \in 1..Len(tree) : cs[i] = Content(tree, i) /\ os[i] = Offset(tree, W(5), i)
Tiles == ph = "made" /\ Len(tree) <= 15 => \A i \in 1..Len(tree) :
  LET ks == Kids(tree, i) o == Offset(tree, Zeros(8), i) end == Plus(o, Size(tree, i)) IN
  IF ks = <<>> THEN end = Plus(Plus(o, W(Hdr(tree, i))), tree[i].own)
  ELSE /\ end = Plus(Offset(tree, Zeros(8), ks[Len(ks)]), Size(tree, ks[Len(ks)]))
       /\ \A n \in 2..Len(ks) : Offset(tree, Zeros(8), ks[n]) = Plus(Offset(tree, Zeros(8), ks[n - 1]), Size(tree, ks[n - 1]))
=============================================================================
