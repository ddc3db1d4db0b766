----------------------------- MODULE TimeEndian -----------------------------
(* Byte order and Mac-epoch dates (C22).  The calendar is stated by its rules
   (lengths of years and months from 1904 on).                              *)
EXTENDS Num

Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
YearLen(y) == IF Leap(y) THEN 366 ELSE 365
MonthLen(y, m) == CASE m \in {1, 3, 5, 7, 8, 10, 12} -> 31
                    [] m \in {4, 6, 9, 11} -> 30
                    [] m = 2 -> IF Leap(y) THEN 29 ELSE 28
RECURSIVE YearOf(_, _)
YearOf(d, y) == IF d < YearLen(y) THEN <<y, d>> ELSE YearOf(d - YearLen(y), y + 1)
RECURSIVE MonthOf(_, _, _)
MonthOf(d, y, m) == IF d < MonthLen(y, m) THEN <<m, d + 1>> ELSE MonthOf(d - MonthLen(y, m), y, m + 1)
\* days since 1904-01-01 -> <<year, month, day>>
Guess(d) == LET n == d \div 366 IN   \* a year that is not too late, to shorten the search
  <<1904 + n, d - (365 * n + ((n + 3) \div 4) - (IF 1904 + n > 2100 THEN 1 ELSE 0))>>
Civil(d) == LET g == Guess(d) y == YearOf(g[2], g[1]) m == MonthOf(y[2], y[1], 1) IN <<y[1], m[1], m[2]>>
\* seconds since 1904 as 8 bytes
EpochDiff == <<0, 0, 0, 0, 124, 37, 176, 128>>          \* 24107 days
LastShown == AddB(EpochDiff, <<0, 0, 0, 0, 255, 255, 255, 255>>)
TimeText(t) ==
  IF LessB(LastShown, t) THEN "0000-00-00T00:00:00Z"
  ELSE LET q == DivMod(t, 86400)
           c == Civil(ToInt(q[1]))
           s == q[2]
       IN ToString(c[1]) \o "-" \o PadInt(c[2], 2) \o "-" \o PadInt(c[3], 2) \o "T" \o
          PadInt(s \div 3600, 2) \o ":" \o PadInt((s \div 60) % 60, 2) \o ":" \o PadInt(s % 60, 2) \o "Z"
FromUnix(u) == AddB(u, EpochDiff)
=============================================================================
