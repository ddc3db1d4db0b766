-------------------------------- MODULE Settle --------------------------------
(* The layout of a fast-start movie at the 32-bit limit, by itself (C05).

   moov comes before the media data, so its size moves every chunk; a track
   whose last chunk passes the limit needs a wide chunk table, which makes moov
   grow by one unit per chunk of that track.  The writer starts with all tables
   narrow and repeats until nothing changes.

   ns[i]: chunks of track i; at[i]: how far the last chunk of track i is beyond
   the limit (in units, negative: before it) when all tables are narrow.
   Explored: all ns and at within MAXN and SPAN, all numbers of tracks up to
   TRACKS.  LAX: "none", or a writer that gives up after so many rounds; TLC
   must find that one wrong.                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, IOUtils

Tracks == atoi(IOEnv.TRACKS)
MaxN == atoi(IOEnv.MAXN)
Span == atoi(IOEnv.SPAN)
Lax == atoi(IOEnv.LAX)

VARIABLES ns, at, wide, rounds, done
vars == <<ns, at, wide, rounds, done>>

RECURSIVE Sum(_, _)
Sum(n, S) == IF S = {} THEN 0 ELSE LET i == CHOOSE i \in S : TRUE IN n[i] + Sum(n, S \ {i})
\* the tables that have to be wide when those of S are
Pushed(n, a, S) == {i \in DOMAIN n : a[i] + Sum(n, S) >= 0}

Init == /\ \E m \in 1..Tracks : ns \in [1..m -> 1..MaxN] /\ at \in [1..m -> (0 - Span)..1]
        /\ wide = {} /\ rounds = 0 /\ done = FALSE
Round == /\ ~done
         /\ LET p == Pushed(ns, at, wide) IN
              IF p = wide \/ rounds = Lax THEN done' = TRUE /\ UNCHANGED <<wide, rounds>>
              ELSE wide' = p /\ rounds' = rounds + 1 /\ UNCHANGED done
         /\ UNCHANGED <<ns, at>>
Next == Round \/ (done /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Round)

\* what is written fits the layout it is written for
Fits == done => wide = Pushed(ns, at, wide)
\* no table is wide without need
Least == done => \A S \in SUBSET DOMAIN ns : S = Pushed(ns, at, S) => wide \subseteq S
\* every round but the last makes at least one table wide
Bounded == rounds <= Cardinality(wide) /\ rounds <= Len(ns)
Grows == [][wide \subseteq wide']_vars
Ends == <>done
===============================================================================
