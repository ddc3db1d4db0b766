-------------------------------- MODULE Flags --------------------------------
(* Version and flags of a box (C20): the flags are a subset of 0..23, the
   version a number below 256.  Arguments are subsets of 0..31; bits beyond 23
   have no effect.  Boxes without version and flags ignore everything.      *)
EXTENDS Num, Emit, BoxTypes, FiniteSets

VARIABLES k, mode, flags, ver, log, r, ph
vars == <<k, mode, flags, ver, log, r, ph>>

F24 == 0..23
BytesOfSet(s) ==   \* 4 bytes, bit 31 first
  [i \in 1..4 |-> IntOfBits([j \in 1..8 |-> IF (32 - 8 * (i - 1) - j) \in s THEN 1 ELSE 0])]
Num32(s) == Dec(BytesOfSet(s))
Text == "Version=" \o ToString(ver) \o " Flags=0x" \o HexOfBytes(Tail(BytesOfSet(flags)))
Wire == <<ver>> \o Tail(BytesOfSet(flags))

\* the box: a bare full box, or an instance made for a registered code
Code == IF mode = "type" THEN TypeTable[k][1] ELSE <<>>
Full == mode # "type" \/ IsFull(Code)

FSet(s) == IF Full THEN s \cap F24 ELSE {}
FAdd(s) == IF Full THEN (flags \cup s) \cap F24 ELSE {}
FRemove(s) == IF Full THEN flags \ s ELSE {}
Has(s) == flags \cap s # {}

Entry(op, arg, f, v) ==
  [op |-> op, arg |-> arg, flags |-> Num32(f), ver |-> v]
Observe(op, s, f) ==
  /\ flags' = f /\ ver' = ver
  /\ log' = Append(log, Entry(op, Num32(s), f, ver))

\* arguments
RandSet == {b \in 0..31 : Rnd2(r + 3 * b, 17) % 3 = 0}
Single == {PickR(r, 32)}
Arg == LET c == PickR(Rnd2(r, 8), 6) IN
  CASE c = 0 -> Single [] c = 1 -> 0..31 [] c = 2 -> {} [] c = 3 -> F24
    [] OTHER -> RandSet
\* systematic: set {a}, then add/remove {b}, check {a}, check {b}, remove {a}
SysA == (k - 1) % 32
SysB == ((k - 1) \div 32) % 32
SysOps == <<<<"set", {SysA}>>, <<"add", {SysB}>>, <<"check", {SysA}>>, <<"check", {SysB}>>,
            <<"remove", {SysA}>>, <<"check", {SysA}>>, <<"check", {SysB}>>, <<"remove", {SysA, SysB}>>,
            <<"set", (0..31) \ {SysA}>>, <<"remove", {SysA}>>, <<"remove", {SysB}>>, <<"add", {SysB}>>>>
Do(op, s) ==
  CASE op = "set" -> Observe(op, s, FSet(s))
    [] op = "add" -> Observe(op, s, FAdd(s))
    [] op = "remove" -> Observe(op, s, FRemove(s))
    [] op = "check" ->
         /\ UNCHANGED <<flags, ver>>
         /\ log' = Append(log, [op |-> "check", arg |-> Num32(s), flags |-> Num32(flags), ver |-> ver,
                                has |-> IF Full THEN (IF Has(s) THEN 1 ELSE 0) ELSE 2])
Sys ==
  /\ mode = "sys" /\ ph = "run" /\ Len(log) < Len(SysOps)
  /\ LET o == SysOps[Len(log) + 1] IN Do(o[1], o[2])
  /\ UNCHANGED <<k, mode, r, ph>>
WalkN == 8
Walk ==
  /\ mode \in {"walk", "type"} /\ ph = "run" /\ Len(log) < WalkN
  /\ LET c == PickR(Rnd2(r, 31), 9) IN
     CASE c < 2 -> Do("set", Arg)
       [] c \in {2, 3} -> Do("add", Arg)
       [] c \in {4, 5} -> Do("remove", Arg)
       [] c = 6 -> Do("check", Arg)
       [] c = 7 ->
            LET v == Rnd2(r, 4) % 256 IN
            /\ ver' = (IF Full THEN v ELSE 0) /\ flags' = flags
            /\ log' = Append(log, Entry("ver", ToString(v), flags, ver'))
       [] c = 8 ->    \* read version and flags from bytes
            LET v == Rnd2(r, 4) % 256
                s == Arg \cap F24
            IN IF mode = "type" THEN Do("set", s)
               ELSE /\ ver' = v /\ flags' = s
                    /\ log' = Append(log, Entry("read", HexOfBytes(<<v>> \o Tail(BytesOfSet(s))), s, v))
  /\ r' = Rnd2(r, Len(log)) /\ UNCHANGED <<k, mode, ph>>
Done ==
  /\ ph = "run" /\ Len(log) = (IF mode = "sys" THEN Len(SysOps) ELSE WalkN)
  /\ EmitCase([id |-> mode \o ToString(k) \o "." \o ToString(r), op |-> "flags", code |-> HexOfBytes(Code), full |-> Full,
               steps |-> log, text |-> Text, wire |-> HexOfBytes(Wire)])
  /\ ph' = "end" /\ UNCHANGED <<k, mode, flags, ver, log, r>>

Init ==
  /\ \/ mode = "sys" /\ k \in 1..1024 /\ r = 1
     \/ mode = "walk" /\ k \in 1..NumE /\ r = Rnd2(SeedE, k)
     \/ mode = "type" /\ k \in 1..Len(TypeTable) /\ \E i \in 1..4 : r = Rnd3(SeedE, k, i)
  /\ flags = {} /\ ver = 0 /\ log = <<>> /\ ph = "run"
Next == Sys \/ Walk \/ Done
Spec == Init /\ [][Next]_vars

TypeOK == flags \subseteq F24 /\ ver \in 0..255
\* the written form determines the state
WireInj == {b \in F24 : (Wire[4 - (b \div 8)] \div (2 ^ (b % 8))) % 2 = 1} = flags
NotFull == ~Full => flags = {} /\ ver = 0
=============================================================================
