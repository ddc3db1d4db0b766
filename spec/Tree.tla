-------------------------------- MODULE Tree --------------------------------
(* Layout of a box tree at a small scale (C10), explored exhaustively.

   Every node has its own data and children; its header is short or long
   depending on its content.  Headers start out in any combination (an
   earlier layout may have left them so) and are corrected one at a time, in
   any order, until no header contradicts its content.  Whatever the order,
   the result must be the one layout that the closed form describes, it must
   be reached in a bounded number of corrections, and it must tile.          *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS MaxNodes, Owns, Limit, Short, Long

VARIABLES par, own, hdr, steps
vars == <<par, own, hdr, steps>>

Nodes == 1..Len(par)
Kids(i) == {j \in Nodes : par[j] = i}
RECURSIVE SumSet(_, _)
SumSet(f, s) == IF s = {} THEN 0 ELSE LET x == CHOOSE x \in s : TRUE IN f[x] + SumSet(f, s \ {x})
RECURSIVE SizeW(_, _)
ContentW(h, i) == own[i] + SumSet([j \in Kids(i) |-> SizeW(h, j)], Kids(i))
SizeW(h, i) == h[i] + ContentW(h, i)
Need(c) == IF c > Limit THEN Long ELSE Short

\* closed form
RECURSIVE Size(_)
Content(i) == own[i] + SumSet([j \in Kids(i) |-> Size(j)], Kids(i))
Size(i) == Need(Content(i)) + Content(i)

RECURSIVE Offset(_, _)
Offset(h, i) == IF i = 1 THEN 0
  ELSE LET p == par[i] IN Offset(h, p) + h[p] + own[p] + SumSet([j \in {j \in Kids(p) : j < i} |-> SizeW(h, j)], {j \in Kids(p) : j < i})

Init == \E n \in 1..MaxNodes :
  /\ par \in {p \in [1..n -> 0..(n - 1)] : p[1] = 0 /\ \A i \in 2..n : p[i] >= 1 /\ p[i] < i}
  /\ own \in [1..n -> Owns]
  /\ hdr \in [1..n -> {Short, Long}]
  /\ steps = 0
Wrong(i) == hdr[i] # Need(ContentW(hdr, i))
Fix(i) == Wrong(i) /\ hdr' = [hdr EXCEPT ![i] = Need(ContentW(hdr, i))] /\ steps' = steps + 1 /\ UNCHANGED <<par, own>>
Next == \E i \in Nodes : Fix(i)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Settled == \A i \in Nodes : ~Wrong(i)
Unique == Settled => \A i \in Nodes : SizeW(hdr, i) = Size(i)
Tiles == Settled => \A i \in Nodes : \A j \in Nodes : (i < j /\ par[i] = par[j]) =>
           /\ Offset(hdr, j) >= Offset(hdr, i) + SizeW(hdr, i)
           /\ (~\E k \in Nodes : i < k /\ k < j /\ par[k] = par[i]) => Offset(hdr, j) = Offset(hdr, i) + SizeW(hdr, i)
Bounded == steps <= 2 ^ Len(par)
Ends == <>Settled
=============================================================================
