------------------------------- MODULE Reader -------------------------------
(* Files as the reader sees them (C12 C13 C24).

   A file is a forest of boxes: each box has a header (32-bit size, 64-bit
   size, or reaching to the end of the file), the bytes of its own fields as
   its layout says (Codec), and its children.  QuickTime files use variants
   that are told apart only by their context.

   Phase 1 builds a forest and its bytes.  Phase 2 is the reader as a
   machine: it keeps a position and a stack of open boxes and appends one
   line per box.  On every built file the machine must report exactly the
   forest (Reports); on a file cut inside a box it must fail (CutFails).
   Each file is emitted with its report for replay into the real reader.     *)
EXTENDS Codec, Emit, IOUtils

VARIABLES k, ph, tree, bytes, rd
vars == <<k, ph, tree, bytes, rd>>

Mode == IOEnv.MODE                                  \* "iso", "qt", "hit", "io", "shape", "deep"

\* ---- four-character codes ------------------------------------------------------
Ch(c) == CHOOSE i \in 32..126 : CharText(i) = c
F4(a, b, c, d) == <<Ch(a), Ch(b), Ch(c), Ch(d)>>
Moov == F4("m","o","o","v")  TrakC == F4("t","r","a","k")  MetaC == F4("m","e","t","a")  WaveC == F4("w","a","v","e")
Stsd == F4("s","t","s","d")  HdlrC == F4("h","d","l","r")  Mp4a == F4("m","p","4","a")  Enca == F4("e","n","c","a")
FreeC == F4("f","r","e","e")  TrunC == F4("t","r","u","n")
Unknowns == <<F4("u","u","i","d"), F4("x","y","z"," "), <<1,2,3,4>>, <<255,254,128,7>>, F4("M","O","O","V"), F4("c","h","a","n"),
              <<169,120,121,122>>, F4("f","r","m","a"), F4("m","o","o","w"), F4("n","c","t","g")>>
TopCodes == <<F4("f","t","y","p"), Moov, F4("m","o","o","f"), F4("m","d","a","t"), FreeC, F4("s","k","i","p"), F4("s","t","y","p"),
              F4("s","i","d","x"), F4("m","f","r","a"), MetaC, F4("p","s","s","h"), F4("e","m","s","g")>>
IlstCodes == {TypeTable[i][1] : i \in {i \in 1..Len(TypeTable) : TypeTable[i][2] = "IlstMeta"}}
IlstList == SetToSeq(IlstCodes)
KidCodes(kind) ==
  CASE kind = "Moov" -> <<F4("m","v","h","d"), TrakC, F4("m","v","e","x"), F4("u","d","t","a"), F4("i","o","d","s"), MetaC>>
    [] kind = "Trak" -> <<F4("t","k","h","d"), F4("e","d","t","s"), F4("m","d","i","a"), MetaC, F4("u","d","t","a")>>
    [] kind = "Edts" -> <<F4("e","l","s","t")>>
    [] kind = "Mdia" -> <<F4("m","d","h","d"), HdlrC, F4("m","i","n","f")>>
    [] kind = "Minf" -> <<F4("v","m","h","d"), F4("s","m","h","d"), F4("d","i","n","f"), F4("s","t","b","l")>>
    [] kind = "Dinf" -> <<F4("d","r","e","f")>>
    [] kind = "Dref" -> <<F4("u","r","l"," "), F4("u","r","n"," ")>>
    [] kind = "Stbl" -> <<Stsd, F4("s","t","t","s"), F4("c","t","t","s"), F4("s","t","s","s"), F4("s","t","s","c"), F4("s","t","s","z"),
                          F4("s","t","c","o"), F4("c","o","6","4"), F4("s","g","p","d"), F4("s","b","g","p"), F4("s","d","t","p")>>
    [] kind = "Stsd" -> <<F4("a","v","c","1"), F4("v","p","0","9"), F4("a","v","0","1"), Mp4a, F4("O","p","u","s"), Enca, F4("e","n","c","v")>>
    [] kind = "VisualSampleEntry" -> <<F4("a","v","c","C"), F4("c","o","l","r"), F4("p","a","s","p"), F4("b","t","r","t"),
                                       F4("f","i","e","l"), F4("v","p","c","C"), F4("a","v","1","C"), F4("s","i","n","f")>>
    [] kind = "AudioSampleEntry" -> <<F4("e","s","d","s"), F4("d","O","p","s"), WaveC, F4("b","t","r","t"), F4("s","i","n","f")>>
    [] kind = "Wave" -> <<Mp4a, F4("e","s","d","s"), Enca, F4("f","r","m","a"), F4("O","p","u","s")>>
    [] kind = "Meta" -> <<HdlrC, F4("i","l","s","t"), F4("d","i","n","f")>>
    [] kind = "Udta" -> <<MetaC, HdlrC>>
    [] kind = "Ilst" -> IlstList
    [] kind = "IlstMeta" -> <<F4("d","a","t","a")>>
    [] kind = "Moof" -> <<F4("m","f","h","d"), F4("t","r","a","f")>>
    [] kind = "Traf" -> <<F4("t","f","h","d"), TrunC, F4("t","f","d","t"), F4("s","b","g","p")>>
    [] kind = "Mfra" -> <<F4("t","f","r","a"), F4("m","f","r","o")>>
    [] kind = "Mvex" -> <<F4("m","e","h","d"), F4("t","r","e","x")>>
    [] OTHER -> <<FreeC>>

\* ---- building a forest ----------------------------------------------------------------
\* node: [par (0: top), code, kind, qt (QuickTime variant), env, data, form ("short" "long" "end")]
Parents == Containers \cup {"Meta", "Dref", "Stsd", "VisualSampleEntry"}
CanParent(n) == \/ n.kind \in Parents
                \/ n.kind = "AudioSampleEntry" /\ Val(n.env, "under_wave", 0) = 0
                   /\ (EqN(n.env["entry_version"], <<0>>) \/ n.code = Opus
                       \/ (Val(n.env, "is_quick_time_compatible", 0) = 1 /\ NumOf(n.env, "entry_version") \in {1, 2}))
\* preset of the fields that decide the layout
Ctl(code, kind, qt, wave, x) ==
  LET cs == Controls(kind, code) c == cs[1 + PickR(x, Len(cs))] IN
  IF kind = "AudioSampleEntry" /\ wave THEN ("under_wave" :> 1) @@ ("code" :> code)
  ELSE IF kind = "AudioSampleEntry" THEN
    IF qt THEN ("code" :> code) @@ ("entry_version" :> Be(1 + PickR(x, 2), 2)) @@ ("is_quick_time_compatible" :> 1)
    ELSE ("code" :> code) @@ ("entry_version" :> <<0, 0>>)
  ELSE IF kind = "Hdlr" THEN V1(0) @@ (IF qt THEN "pre_defined" :> F4("m","h","l","r") ELSE "pre_defined" :> Zeros(4)) @@
                             (IF qt THEN "padding" :> <<>> ELSE EmptyEnv)
  ELSE c
MkNode(par, code, qt, wave, x) ==
  LET kind == KindOf(code)
      q == qt /\ (kind \in {"Meta", "Hdlr"} \/ (kind = "AudioSampleEntry" /\ ~wave /\ code # Opus))
      e0 == Gen(kind, Ctl(code, kind, q, wave, Rnd2(x, 1)), IF PickR(Rnd2(x, 2), 4) = 0 THEN 8 ELSE 6, Rnd2(x, 3))
      \* now and then: a longer object descriptor, a descriptor nobody knows
      more == IF kind \notin {"Iods", "Esds"} \/ PickR(Rnd2(x, 6), 3) # 0 THEN <<>>
              ELSE IF kind = "Iods" THEN [i \in 1..<<1, 6, 12, 130>>[1 + PickR(Rnd2(x, 7), 4)] |-> Rnd2(x, i) % 256]
              ELSE <<<<14, 1, 129, 0, 7, 255>>[1 + PickR(Rnd2(x, 7), 6)]>> \o [i \in 1..PickR(Rnd2(x, 8), 9) |-> Rnd2(x, i) % 256]
      e == IF kind = "Iods" /\ more # <<>> THEN [e0 EXCEPT !["descriptor_length"] = Be(7 + Len(more), 4)] ELSE e0
      w == Encode(kind, e) \o more
  IN [par |-> par, code |-> code, kind |-> kind, qt |-> q, env |-> e, form |-> IF PickR(Rnd2(x, 4), 8) = 0 THEN "long" ELSE "short",
      data |-> IF q /\ kind = "Meta" THEN <<>>
               ELSE IF q /\ kind = "Hdlr" THEN SubSeq(w, 1, 24) \o <<Len(e["name"])>> \o e["name"] ELSE w]
\* next node: the parent is one of the last that can have children, or none
RECURSIVE Opens(_, _)
Opens(t, i) == IF i = 0 THEN <<>> ELSE IF CanParent(t[i]) /\ ~(t[i].kind = "Wave" /\ t[i].par = 0) THEN <<i>> \o Opens(t, i - 1) ELSE Opens(t, i - 1)
PickCode(t, p, qt, x) ==
  LET known == IF p = 0 THEN TopCodes ELSE KidCodes(t[p].kind)
      z == PickR(Rnd2(x, 1), 20)
  IN IF z < 14 THEN known[1 + PickR(Rnd2(x, 2), Len(known))]
     ELSE IF z < 17 THEN TypeTable[1 + PickR(Rnd2(x, 3), Len(TypeTable))][1]
     ELSE IF z < 19 THEN Unknowns[1 + PickR(Rnd2(x, 4), Len(Unknowns))] ELSE FreeC
RECURSIVE Grow(_, _, _, _)
Grow(t, n, qt, x) ==
  IF Len(t) >= n THEN t
  ELSE LET y == Rnd2(x, Len(t)) o == Opens(t, Len(t))
           p == IF o = <<>> \/ PickR(y, 7) = 0 THEN 0 ELSE o[1 + PickR(Rnd(y), IF PickR(Rnd2(y, 5), 3) = 0 THEN Len(o) ELSE IF Len(o) > 2 THEN 2 ELSE Len(o))]
           c == IF Len(t) = 0 /\ PickR(Rnd2(y, 6), 4) # 0 THEN Moov ELSE PickCode(t, p, qt, Rnd2(y, 7))
       IN Grow(Append(t, MkNode(p, c, qt /\ PickR(Rnd2(y, 9), 4) # 0, p > 0 /\ t[p].kind = "Wave", Rnd2(y, 8))), n, qt, x)
Kids(t, i) == SelectSeq([j \in 1..Len(t) |-> j], LAMBDA j : t[j].par = i)
\* a QuickTime meta box is told by its first child: without one it is an ISO one
Settle(t) == [i \in 1..Len(t) |-> IF t[i].kind = "Meta" /\ t[i].qt /\ Kids(t, i) = <<>>
                                  THEN [t[i] EXCEPT !.qt = FALSE, !.data = Zeros(4)] ELSE t[i]]
EndLast(t, x) == LET tops == Kids(t, 0) IN
  IF PickR(x, 3) # 0 THEN t ELSE [t EXCEPT ![tops[Len(tops)]].form = "end"]
\* a path that leads to QuickTime variants quickly
QtSpine(x) ==
  LET a == MkNode(0, Moov, FALSE, FALSE, Rnd2(x, 1))
      st == MkNode(1, Stsd, FALSE, FALSE, Rnd2(x, 2))
      se == MkNode(2, IF PickR(x, 3) = 0 THEN Enca ELSE Mp4a, TRUE, FALSE, Rnd2(x, 3))
      wv == MkNode(3, WaveC, FALSE, FALSE, Rnd2(x, 4))
      raw == MkNode(4, IF PickR(Rnd(x), 3) = 0 THEN Enca ELSE Mp4a, FALSE, TRUE, Rnd2(x, 5))
      me == MkNode(1, MetaC, TRUE, FALSE, Rnd2(x, 6))
      hd == MkNode(6, HdlrC, TRUE, FALSE, Rnd2(x, 7))
  IN <<a, st, se, wv, raw, me, hd>>
\* files of unusual shape: many boxes side by side, deep nesting, long contents
PlainNode(par, code, data) == LET kind == KindOf(code) IN
  [par |-> par, code |-> code, kind |-> kind, qt |-> FALSE, form |-> "short", data |-> data,
   env |-> IF kind \in Containers THEN EmptyEnv ELSE "data" :> data]
Nested == <<Moov, TrakC, F4("m","d","i","a"), F4("m","i","n","f"), F4("u","d","t","a"), F4("t","r","a","f"), F4("m","o","o","f")>>
Inner(i, x) == Nested[1 + PickR(Rnd2(x, i), Len(Nested))]
Small(i, x) == <<FreeC, F4("s","k","i","p"), F4("m","d","a","t"), F4("x","y","z"," "), Moov>>[1 + PickR(Rnd2(x, i), 5)]
Side(par, n, x) == [i \in 1..n |-> LET c == Small(i, x) IN
  PlainNode(par, c, IF c = Moov THEN <<>> ELSE [j \in 1..PickR(Rnd2(x, i), 3) |-> Rnd3(x, i, j) % 256])]
Chain(n, x) == [i \in 1..n |-> PlainNode(i - 1, Inner(i, x), <<>>)]
Longs(n, x) == [i \in 1..n |-> (i * 7 + (i \div 256) * 31 + x) % 256]
Wides == <<257, 300, 1025>>  Deeps == <<17, 33, 65, 100>>  Lengths == <<65536, 65537, 70001, 32769>>
ShapeOf(kk) == LET x == Rnd3(SeedE, kk, 4711) r == kk \div 5 IN
  CASE kk % 5 = 0 -> Side(0, Wides[1 + (r % 3)], x)
    [] kk % 5 = 1 -> LET n == Deeps[1 + (r % 4)] IN Chain(n, x) \o <<PlainNode(n, FreeC, <<1, 2, 3>>), PlainNode(n - 1, FreeC, <<4>>), MkNode(n \div 2, F4("m","v","h","d"), FALSE, FALSE, x)>>
    [] kk % 5 = 2 -> Chain(1 + PickR(x, 4), x) \o Side(1 + PickR(x, 4), Wides[1 + (r % 3)], Rnd2(x, 1))
    [] kk % 5 = 3 -> LET n == Lengths[1 + (r % 4)] IN <<PlainNode(0, FreeC, <<>>), PlainNode(0, Small(1 + PickR(x, 1), x), <<>>)>> \o Chain(0, x)
                     \o <<PlainNode(0, <<FreeC, F4("m","d","a","t"), F4("x","y","z"," ")>>[1 + PickR(x, 3)], Longs(n, PickR(x, 256))), PlainNode(0, Moov, <<>>)>>
    [] OTHER -> LET n == Lengths[1 + (r % 4)] IN Chain(3, x) \o <<PlainNode(3, FreeC, Longs(n, PickR(x, 256))), PlainNode(2, FreeC, <<7>>), PlainNode(0, Moov, <<>>)>>
TreeOf(kk) ==
  LET x == Rnd3(SeedE, kk, 900)
      qt == Mode = "qt" \/ (Mode \in {"hit", "io"} /\ PickR(Rnd2(x, 1), 3) = 0)
      n == IF Mode \in {"hit", "io"} THEN 4 + PickR(Rnd2(x, 2), 8) ELSE IF kk % 8 = 0 THEN 40 ELSE IF kk % 40 = 7 THEN 0 ELSE 3 + PickR(Rnd2(x, 2), 20)
      spine == IF qt THEN SubSeq(QtSpine(Rnd2(x, 3)), 1, <<7, 7, 5, 3, 7>>[1 + PickR(Rnd2(x, 4), 5)]) ELSE <<>>
      t == Settle(Grow(spine, n + (IF qt THEN Len(spine) ELSE 0), qt, Rnd2(x, 5)))
      \* every registered code appears somewhere
      u == IF Mode # "iso" \/ n = 0 THEN t ELSE Append(t, MkNode(0, TypeTable[1 + (kk % Len(TypeTable))][1], FALSE, FALSE, Rnd2(x, 6)))
  IN IF Mode = "shape" THEN ShapeOf(kk) ELSE IF Mode = "hit" /\ kk = 1      \* a run without fields per sample
     THEN LET c == V1(0) @@ ("flags" :> <<0, 0, 1>>) @@ ("sample_count" :> Be(2, 4)) e == Gen("Trun", c, 6, x)
          IN << [par |-> 0, code |-> TrunC, kind |-> "Trun", qt |-> FALSE, env |-> e, form |-> "short", data |-> Encode("Trun", e)] >>
     ELSE IF u = <<>> THEN u ELSE EndLast(u, Rnd2(x, 7))

RECURSIVE Bytes(_, _)
Content(t, i) == LET ks == Kids(t, i) IN t[i].data \o Cat([n \in 1..Len(ks) |-> Bytes(t, ks[n])])
Bytes(t, i) == LET c == Content(t, i) f == t[i].form IN
  (CASE f = "short" -> Be(8 + Len(c), 4) \o t[i].code
     [] f = "end" -> Zeros(4) \o t[i].code
     [] f = "long" -> Be(1, 4) \o t[i].code \o Be(16 + Len(c), 8)) \o c
FileOf(t) == LET ks == Kids(t, 0) IN Cat([n \in 1..Len(ks) |-> Bytes(t, ks[n])])

\* ---- what must be reported: lines in file order -------------------------------------------
Pad(d) == CatS([i \in 1..d |-> "  "])
Line(d, code, off, size, text) ==
  Pad(d) \o "[" \o CodeText(code) \o "] Offset=" \o ToString(off) \o " Size=" \o ToString(size) \o (IF text = "" THEN "" ELSE " " \o text)
NodeText(kind, qt, e) == IF kind = "Meta" /\ qt THEN TextOf("Meta", V1(0) @@ ("flags" :> <<0,0,0>>)) ELSE TextOf(kind, e)
HdrLen(f) == IF f = "long" THEN 16 ELSE 8
RECURSIVE SizeN(_, _)
SizeN(t, i) == LET ks == Kids(t, i) IN HdrLen(t[i].form) + Len(t[i].data) + SumS([n \in 1..Len(ks) |-> SizeN(t, ks[n])], 1)
RECURSIVE Walk(_, _, _, _)
RECURSIVE WalkAll(_, _, _, _)
Walk(t, i, d, off) == <<Line(d, t[i].code, off, SizeN(t, i), NodeText(t[i].kind, t[i].qt, t[i].env))>>
                      \o WalkAll(t, Kids(t, i), d + 1, off + HdrLen(t[i].form) + Len(t[i].data))
WalkAll(t, ks, d, off) == IF ks = <<>> THEN <<>> ELSE Walk(t, ks[1], d, off) \o WalkAll(t, Tail(ks), d, off + SizeN(t, ks[1]))
Report(t) == WalkAll(t, Kids(t, 0), 0, 0)
\* where top-level boxes end
RECURSIVE Ends(_, _, _)
Ends(t, ks, off) == IF ks = <<>> THEN <<>> ELSE LET e == off + SizeN(t, ks[1]) IN <<e>> \o Ends(t, Tail(ks), e)

\* ---- the reader --------------------------------------------------------------------------------
\* rd: [pos, stack of [end, code], lines, st ("run" "done" "failed")]
Start == [pos |-> 1, stack |-> <<>>, lines |-> <<>>, st |-> "run"]
Fail(r) == [r EXCEPT !.st = "failed"]
StepR(r, bs) ==
  LET top == IF r.stack = <<>> THEN [end |-> Len(bs), code |-> <<>>] ELSE r.stack[Len(r.stack)]
  IN IF r.stack # <<>> /\ r.pos > top.end THEN [r EXCEPT !.stack = Front(@)]
     ELSE IF r.pos > Len(bs) THEN [r EXCEPT !.st = IF r.stack = <<>> THEN "done" ELSE "failed"]
     ELSE IF Len(bs) - r.pos + 1 < 8 THEN Fail(r)
     ELSE LET n == SubSeq(bs, r.pos, r.pos + 3)
              code == SubSeq(bs, r.pos + 4, r.pos + 7)
              long == EqN(n, <<1>>)
              hl == IF long THEN 16 ELSE 8
              room == Len(bs) - r.pos + 1
          IN IF room < hl THEN Fail(r)
             ELSE LET sz == IF EqN(n, <<0>>) THEN Be(room, 4) ELSE IF long THEN SubSeq(bs, r.pos + 8, r.pos + 15) ELSE n IN
               IF ~IsSmall(sz) \/ ToInt(sz) > room \/ ToInt(sz) < hl THEN Fail(r)
               ELSE LET size == ToInt(sz)
                        p == r.pos + hl
                        q == r.pos + size - 1
                        kind == KindOf(code)
                        wave == top.code = WaveC
                        ctx == IF kind = "AudioSampleEntry" THEN ("code" :> code) @@ (IF wave THEN "under_wave" :> 1 ELSE EmptyEnv) ELSE EmptyEnv
                        qm == kind = "Meta" /\ size >= hl + 4 /\ ~EqN(SubSeq(bs, p, p + 3), <<0>>)
                        d == IF qm THEN [ok |-> TRUE, e |-> EmptyEnv, p |-> p, q |-> q] ELSE DecodeAt(kind, ctx, bs, p, q)
                    IN IF ~d.ok THEN Fail(r)
                       ELSE [r EXCEPT !.pos = d.p, !.stack = Append(@, [end |-> q, code |-> code]),
                             !.lines = Append(@, Line(Len(r.stack), code, r.pos - 1, size, NodeText(kind, qm, d.e)))]
RECURSIVE Run(_, _)
Run(r, bs) == IF r.st # "run" THEN r ELSE Run(StepR(r, bs), bs)

\* ---- emission -------------------------------------------------------------------------------------
Text(lines) == CatS([i \in 1..Len(lines) |-> lines[i] \o "\\x0a"])
HasEnd == tree # <<>> /\ LET ts == Kids(tree, 0) IN tree[ts[Len(ts)]].form = "end"
RECURSIVE Offs(_, _, _)
Offs(t, ks, off) == IF ks = <<>> THEN <<>> ELSE
  <<[i |-> ks[1], off |-> off]>> \o Offs(t, Kids(t, ks[1]), off + HdrLen(t[ks[1]].form) + Len(t[ks[1]].data))
  \o Offs(t, Tail(ks), off + SizeN(t, ks[1]))
\* known finding KF1: sample counts of trun boxes without fields per sample
Bare(n) == n.kind = "Trun" /\ ~Flag(n.env, 8) /\ ~Flag(n.env, 9) /\ ~Flag(n.env, 10) /\ ~Flag(n.env, 11)
CountsOf(P(_)) ==
       LET os == SelectSeq(Offs(tree, Kids(tree, 0), 0), LAMBDA o : P(tree[o.i]))
       IN [j \in 1..Len(os) |-> os[j].off + HdrLen(tree[os[j].i].form) + 4]
Raws == SelectSeq([i \in 1..Len(tree) |-> i], LAMBDA i : Val(tree[i].env, "under_wave", 0) = 1 /\ tree[i].kind = "AudioSampleEntry")
EmitFile ==
  EmitCase([id |-> "f" \o ToString(k), op |-> IF Mode = "hit" THEN "damage" ELSE IF Mode = "io" THEN "sfile" ELSE "read", hex |-> HexOfBytes(bytes),
            text |-> Text(rd.lines), boxes |-> Len(tree)] @@
           (IF Mode = "hit" THEN
              [ends |-> Ends(tree, Kids(tree, 0), 0), to_end |-> HasEnd, kf1 |-> CountsOf(Bare), runs |-> CountsOf(LAMBDA n : n.kind = "Trun"),
               at_ends |-> [n \in 1..Len(Kids(tree, 0)) |-> Text(Run(Start, SubSeq(bytes, 1, Ends(tree, Kids(tree, 0), 0)[n])).lines)]]
            ELSE IF Mode = "io" THEN
              [heads |-> LET os == Offs(tree, Kids(tree, 0), 0) IN
                         [j \in 1..Len(os) |-> <<os[j].off, HdrLen(tree[os[j].i].form), Len(tree[os[j].i].data)>>]]
            ELSE [raws |-> [j \in 1..Len(Raws) |-> [code |-> HexOfBytes(tree[Raws[j]].code), hex |-> HexOfBytes(tree[Raws[j]].data)]]]))

\* boxes nested so deeply that a reader may refuse them, but has to come to an end
Pits == <<129, 300, 1000, 3000, 12000, 30000, 60000>>
PitBytes(n, x) == LET c == Inner(n, x) tail == Be(8 + PickR(x, 3), 4) \o FreeC \o [i \in 1..PickR(x, 3) |-> 7] m == Len(tail) IN
  [i \in 1..(8 * n) |-> LET lev == (i - 1) \div 8  b == ((i - 1) % 8) + 1 IN IF b <= 4 THEN Be(8 * (n - lev) + m, 4)[b] ELSE c[b - 4]] \o tail
EmitPit == LET n == Pits[1 + ((k - 1) % Len(Pits))] IN
  EmitCase([id |-> "d" \o ToString(k), op |-> "damage", hex |-> HexOfBytes(PitBytes(n, Rnd2(SeedE, k))), boxes |-> n + 1,
            only |-> [pos |-> 0, hex |-> ""]])

Init == k \in 1..NumE /\ ph = "start" /\ tree = <<>> /\ bytes = <<>> /\ rd = Start
Pit == ph = "start" /\ Mode = "deep" /\ ph' = "end" /\ EmitPit /\ UNCHANGED <<k, tree, bytes, rd>>
\* files made elsewhere (finished movies): the machine says what the reader has to report
GivenFile(j) == JsonDeserialize(IOEnv.DIR \o "/" \o ToString(j) \o ".json")
Load == ph = "start" /\ Mode = "given" /\ ph' = "read" /\ bytes' = GivenFile(k).b /\ UNCHANGED <<k, tree, rd>>
Told == ph = "read" /\ Mode = "given" /\ rd.st # "run" /\ ph' = "end" /\ UNCHANGED <<k, tree, bytes, rd>>
        /\ EmitCase([id |-> GivenFile(k).id, done |-> rd.st = "done", text |-> Text(rd.lines), boxes |-> Len(rd.lines)])
Build == ph = "start" /\ Mode \notin {"deep", "given"} /\ ph' = "built" /\ tree' = TreeOf(k) /\ UNCHANGED <<k, bytes, rd>>
Write == ph = "built" /\ ph' = "read" /\ bytes' = FileOf(tree) /\ UNCHANGED <<k, tree, rd>>
ReadStep == ph = "read" /\ rd.st = "run" /\ rd' = StepR(rd, bytes) /\ UNCHANGED <<k, ph, tree, bytes>>
End == ph = "read" /\ Mode # "given" /\ rd.st # "run" /\ ph' = "end" /\ EmitFile /\ UNCHANGED <<k, tree, bytes, rd>>
Next == Load \/ Told \/ Pit \/ Build \/ Write \/ ReadStep \/ End
Spec == Init /\ [][Next]_vars

\* the report is the forest
Reports == ph = "read" /\ Mode # "given" /\ rd.st # "run" => rd.st = "done" /\ rd.lines = Report(tree)
\* and grows line by line as a prefix of it
Prefix == ph = "read" /\ Mode # "given" => Len(rd.lines) <= Len(tree) /\ rd.pos <= Len(bytes) + 1
\* a cut inside a box is an error
CutAt(c) == LET es == Ends(tree, Kids(tree, 0), 0) IN
  IF c = 0 \/ \E i \in 1..Len(es) : es[i] = c THEN TRUE ELSE Run(Start, SubSeq(bytes, 1, c)).st = "failed"
CutFails == ph = "read" /\ Mode # "given" /\ rd.st = "done" /\ ~HasEnd /\ bytes # <<>> =>
  \A i \in 1..6 : CutAt((Rnd3(SeedE, k, i) * 31 + i) % Len(bytes))
=============================================================================
