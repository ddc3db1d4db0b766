------------------------------ MODULE TimeCases ------------------------------
(* Behaviours for TimeEndian: a clock that visits every month boundary from
   1904 to 2106 (one second before, at, after), the limits, and seeded times;
   byte patterns for the integer conversions.                               *)
EXTENDS TimeEndian, Emit
VARIABLES k, t, ph
vars == <<k, t, ph>>

\* seconds of day number d, second s as 8 bytes: d * 86400 + s
RECURSIVE MulAdd(_, _, _)
MulAdd(bs, m, c) == IF bs = <<>> THEN <<>>
  ELSE LET x == Last(bs) * m + c IN Append(MulAdd(Front(bs), m, x \div 256), x % 256)
At(d, s) == MulAdd(Widen(Be(d, 4), 8), 86400, s)
DaysBefore(y) == 365 * (y - 1904) + ((y - 1904 + 3) \div 4) - (IF y > 2100 THEN 1 ELSE 0)
ASSUME DaysBefore(1904) = 0 /\ \A y \in 1904..2110 : DaysBefore(y + 1) = DaysBefore(y) + YearLen(y)
RECURSIVE DaysInto(_, _, _)
DaysInto(y, m, acc) == IF m = 1 THEN acc ELSE DaysInto(y, m - 1, acc + MonthLen(y, m - 1))
NM == 203 * 12
MonthStart(i) == LET y == 1904 + i \div 12 m == 1 + (i % 12) IN DaysBefore(y) + DaysInto(y, m, 0)
Dec1(b) == AddB(b, <<255, 255, 255, 255, 255, 255, 255, 255>>)
Inc1(b) == AddB(b, <<0, 0, 0, 0, 0, 0, 0, 1>>)
Limits == <<Zeros(8), Inc1(Zeros(8)), EpochDiff, Dec1(EpochDiff), LastShown, Inc1(LastShown), Dec1(LastShown),
            <<0,0,0,0,255,255,255,255>>, <<0,0,0,1,0,0,0,0>>, <<255,255,255,255,255,255,255,255>>,
            <<127,255,255,255,255,255,255,255>>, <<128,0,0,0,0,0,0,0>>>>
Rand(i) == [j \in 1..8 |-> IF j < 5 THEN (IF j = 4 /\ i % 3 = 0 THEN 1 ELSE IF i % 7 = 0 THEN Rnd3(SeedE, i, j) % 256 ELSE 0)
                           ELSE Rnd3(SeedE, i, j) % 256]
Pat(i) == LET b == <<0, 1, 127, 128, 255>> IN
  [j \in 1..8 |-> IF j = 1 + (i % 8) THEN b[1 + ((i \div 8) % 5)] ELSE IF i < 40 THEN 0 ELSE IF i < 80 THEN 255 ELSE 10 * j]
NP == 120
Init == /\ ph = "run"
        /\ \/ \E i \in 1..(NM - 1) : k = i /\ t = (IF i % 3 = 0 THEN Dec1(At(MonthStart(i), 0))
                                             ELSE IF i % 3 = 1 THEN At(MonthStart(i), 0)
                                             ELSE At(MonthStart(i), 86399))
           \/ \E i \in 1..Len(Limits) : k = 10000 + i /\ t = Limits[i]
           \/ \E i \in 0..(NP - 1) : k = 20000 + i /\ t = Pat(i)
           \/ \E i \in 1..NumE : k = 30000 + i /\ t = Rand(i)
           \/ \E i \in 1..(NM - 1) : k = 40000 + i /\ t = Dec1(At(MonthStart(i), 0))
Emit == /\ ph = "run"
        /\ EmitCase([id |-> "t" \o ToString(k), op |-> "time", n |-> Dec(t), hex |-> HexOfBytes(t),
                     text |-> TimeText(t), unix |-> Dec(FromUnix(t)),
                     n32 |-> Dec(SubSeq(t, 5, 8)), hex32 |-> HexOfBytes(SubSeq(t, 5, 8))])
        /\ ph' = "end" /\ UNCHANGED <<k, t>>
Next == Emit
Spec == Init /\ [][Next]_vars
\* month starts are the first of the month at midnight
MonthOK == (k < NM /\ k % 3 = 1) =>
  TimeText(t) = ToString(1904 + k \div 12) \o "-" \o PadInt(1 + (k % 12), 2) \o "-01T00:00:00Z" \/ LessB(LastShown, t)
ShortEnough == (k \in 40001..(40000 + NM - 1)) => LessB(LastShown, t) \/ SubSeq(t, 1, 3) = <<0, 0, 0>>
EpochOK == TimeText(EpochDiff) = "1970-01-01T00:00:00Z" /\ TimeText(LastShown) = "2106-02-07T06:28:15Z"
=============================================================================
