------------------------------ MODULE Registry ------------------------------
(* The registry of box types (C21): a map from four-character codes to box
   kinds and supported versions.  Registering adds or replaces one entry;
   everything else only looks.  Behaviours: every registered code, every code
   that differs from a registered one in one bit, and walks on a registry that
   is filled by hand (later registrations replace earlier ones).
   Also BoxType values themselves: construction, equality, order, matching.  *)
EXTENDS Num, Emit, BoxTypes

VARIABLES k, mode, map, log, r, ph
vars == <<k, mode, map, log, r, ph>>

NT == Len(TypeTable)
Kinds == <<"Free", "Skip", "Btrt", "IlstMeta", "Stts", "PixelAspectRatio", "VisualSampleEntry", "Unsupported">>
Reports(kind) == kind \in {"IlstMeta", "PixelAspectRatio", "VisualSampleEntry"}  \* any-type boxes take the code asked for
EmptyMap == <<>>     \* function with empty domain
Vers(vs) == [i \in 1..Len(vs) |-> vs[i]]

\* ---- what the registry must answer -------------------------------------------
KindIn(m, c) == IF c \in DOMAIN m THEN m[c].kind ELSE "Unsupported"
SupportedIn(m, c) == c \in DOMAIN m
SupportsVersion(m, c, v) ==
  c \in DOMAIN m /\ (m[c].vers = <<>> \/ \E i \in 1..Len(m[c].vers) : m[c].vers[i] = v)
Answer(m, c) ==
  [code |-> HexOfBytes(c), kind |-> KindIn(m, c), sup |-> SupportedIn(m, c),
   vers |-> IF c \in DOMAIN m THEN m[c].vers ELSE <<-1>>,
   ok |-> IF \A v \in 0..255 : SupportsVersion(m, c, v) THEN <<-1>>
          ELSE SelectSeq([v \in 1..256 |-> v - 1], LAMBDA v : SupportsVersion(m, c, v))]

Standard == [c \in TypeCodes |-> [kind |-> KindOf(c), vers |-> VersionsOf(c)]]
FlipBit(c, b) ==   \* bit b (0..31) of the code flipped
  LET i == b \div 8 + 1 m == 2 ^ (b % 8)
  IN [c EXCEPT ![i] = IF (c[i] \div m) % 2 = 1 THEN c[i] - m ELSE c[i] + m]

\* ---- behaviours on the standard registry ------------------------------------------
StdCodes == LET c == TypeTable[k][1] IN
  <<c>> \o [b \in 1..32 |-> FlipBit(c, b - 1)] \o
  [i \in 1..8 |-> [j \in 1..4 |-> 32 + (Rnd3(SeedE, k + 200 * i, j) % 95)]]
Std ==
  /\ mode = "std" /\ ph = "run"
  /\ LET answers == [i \in 1..Len(StdCodes) |-> Answer(map, StdCodes[i])]
     IN EmitCase([id |-> "std" \o ToString(k), op |-> "registry", std |-> TRUE, steps |-> <<>>,
                  look |-> answers])
  /\ ph' = "end" /\ UNCHANGED <<k, mode, map, log, r>>

\* ---- walks on a registry filled by hand ------------------------------------------------
WCodes == <<<<97,98,99,100>>, <<97,98,99,101>>, <<98,97,99,100>>, <<0,0,0,0>>, <<255,1,2,3>>, <<169,97,98,99>>, <<102,114,101,101>>>>
Register ==
  /\ mode = "walk" /\ ph = "run" /\ Len(log) < 8
  /\ LET c == WCodes[1 + PickR(r, Len(WCodes))]
         kd == Kinds[1 + PickR(Rnd(r), Len(Kinds))]
         vs == SubSeq(<<0, 1, 2, 77, 16, 128, 255, 240, 33>>, 1 + PickR(Rnd2(r, 2), 9), PickR(Rnd2(r, 3), 10))
     IN /\ map' = [x \in DOMAIN map \cup {c} |-> IF x = c THEN [kind |-> kd, vers |-> vs] ELSE map[x]]
        /\ log' = Append(log, [code |-> HexOfBytes(c), kind |-> kd, vers |-> vs,
                               look |-> [i \in 1..Len(WCodes) |-> Answer(map', WCodes[i])]])
  /\ r' = Rnd2(r, Len(log)) /\ UNCHANGED <<k, mode, ph>>
WalkEnd ==
  /\ mode = "walk" /\ ph = "run" /\ Len(log) = 8
  /\ EmitCase([id |-> "walk" \o ToString(k), op |-> "registry", std |-> FALSE, steps |-> log,
               look |-> [i \in 1..Len(WCodes) |-> Answer(map, WCodes[i])]])
  /\ ph' = "end" /\ UNCHANGED <<k, mode, map, log, r>>

\* ---- BoxType values ------------------------------------------------------------------------
AnyCode == <<0, 0, 0, 0>>
CodePool == <<AnyCode, <<102,114,101,101>>, <<102,114,101,102>>, <<169,116,111,111>>, <<255,255,255,255>>,
              <<0,0,0,1>>, <<1,0,0,0>>, <<102,114,128,101>>, <<102,114,31,101>>, <<102,114,127,101>>, <<92,34,32,126>>>>
TypeText(c) ==
  IF \A i \in 1..4 : (c[i] >= 32 /\ c[i] <= 126) \/ c[i] = 169
  THEN [chars |-> Cat([i \in 1..4 |-> IF c[i] = 169 THEN <<194, 169>> ELSE <<c[i]>>])]
  ELSE [text |-> "0x" \o HexOfBytes(c)]
Cmp(a, b) == IF a = b THEN 0 ELSE IF LessB(a, b) THEN -1 ELSE 1
Matches(a, b) == a = AnyCode \/ b = AnyCode \/ a = b
Types ==
  /\ mode = "types" /\ ph = "run"
  /\ LET a == IF k <= Len(CodePool) THEN CodePool[k] ELSE [j \in 1..4 |-> Rnd3(SeedE, k, j) % 256]
         pool == CodePool \o <<a>> \o [b \in 1..32 |-> FlipBit(a, b - 1)]
     IN EmitCase([id |-> "types" \o ToString(k), op |-> "boxtype", code |-> HexOfBytes(a),
                  text |-> LET t == TypeText(a) IN IF "chars" \in DOMAIN t THEN HexOfBytes(t.chars) ELSE "",
                  raw |-> LET t == TypeText(a) IN IF "text" \in DOMAIN t THEN t.text ELSE "",
                  others |-> [i \in 1..Len(pool) |-> [code |-> HexOfBytes(pool[i]), cmp |-> Cmp(a, pool[i]),
                                                      match |-> Matches(a, pool[i])]],
                  lens |-> [n \in 1..9 |-> n - 1 = 4]])
  /\ ph' = "end" /\ UNCHANGED <<k, mode, map, log, r>>

Init ==
  /\ \/ mode = "std" /\ k \in 1..NT /\ map = Standard
     \/ mode = "walk" /\ k \in 1..NumE /\ map = EmptyMap
     \/ mode = "types" /\ k \in 1..(Len(CodePool) + 40) /\ map = EmptyMap
  /\ log = <<>> /\ ph = "run" /\ r = Rnd2(SeedE, k)
Next == Std \/ Register \/ WalkEnd \/ Types
Spec == Init /\ [][Next]_vars

\* a registration changes the answer for its own code only
OneAtATime == [][ mode = "walk" /\ map' # map =>
   \E c \in DOMAIN map' : \A x \in (DOMAIN map \cup DOMAIN map') \ {c} :
       x \in DOMAIN map /\ x \in DOMAIN map' /\ map'[x] = map[x] ]_vars
OneBitMatters == mode = "std" =>
   \A b \in 0..31 : FlipBit(TypeTable[k][1], b) # TypeTable[k][1]
=============================================================================
