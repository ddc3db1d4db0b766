-------------------------------- MODULE Codec --------------------------------
(* Interpreters of the layouts: Encode, SizeOf, Decode, TextOf, and the
   generator of field values (Gen).                                          *)
EXTENDS Layout

\* ---- encoding ---------------------------------------------------------------
\* 28-bit number as 7-bit groups: four, or (others write them so) g or as many as it takes
GroupsG(bs, g) == LET n == ToInt(bs)
                     need == IF n >= 2097152 THEN 4 ELSE IF n >= 16384 THEN 3 ELSE IF n >= 128 THEN 2 ELSE 1
                     m == IF g > need THEN g ELSE need
                 IN [i \in 1..m |-> (IF i < m THEN 128 ELSE 0) + ((n \div (128 ^ (m - i))) % 128)]
RECURSIVE BitsR(_, _, _)
BitsR(fs, e, i) == IF i > Len(fs) THEN <<>>
  ELSE BitsOfInt(IF fs[i][1] = "" THEN fs[i][3] ELSE e[fs[i][1]], fs[i][2]) \o BitsR(fs, e, i + 1)
EncD(d, e, Enc(_, _)) ==
  CASE d.k \in {"U", "Rest", "Fix"} -> e[d.n]
    [] d.k = "C" -> d.x
    [] d.k = "V" -> GroupsG(e[d.n], Val(e, "_g", 4))
    [] d.k = "B" -> BytesOfBits(BitsR(d.x, e, 1))
    [] d.k \in {"Str", "Pascal"} -> Append(e[d.n], 0)
    [] d.k = "LenB" -> (IF d.w = 0 THEN GroupsG(Be(Len(e[d.n]), 4), Val(e, "_g", 4)) ELSE Be(Len(e[d.n]), d.w)) \o e[d.n]
    [] d.k = "List" -> LET l == e[d.n] IN
         (IF d.x.cw = 0 THEN <<>> ELSE Be(Len(l) + d.x.or, d.x.cw)) \o Cat([i \in 1..Len(l) |-> Enc(d.x.item, l[i])])
    [] d.k \in {"T", "X", "Probe", "Skip"} -> <<>>
\* items of items have no lists of their own kind below depth 2
EncItem2(item, p, it) == LET L == ItemLayout(item, p, it) IN
  Cat([i \in 1..Len(L) |-> EncD(L[i], it, LAMBDA x, y : <<>>)])
EncItem(item, p, it) == LET L == ItemLayout(item, p, it) IN
  Cat([i \in 1..Len(L) |-> EncD(L[i], it, LAMBDA x, y : EncItem2(x, it, y))])
Encode(kind, e) == LET L == LayoutOf(kind, e) IN
  Cat([i \in 1..Len(L) |-> EncD(L[i], e, LAMBDA x, y : EncItem(x, e, y))])

\* size without building the bytes (stated separately from Encode)
RECURSIVE SumW(_, _)
SumW(fs, i) == IF i > Len(fs) THEN 0 ELSE fs[i][2] + SumW(fs, i + 1)
RECURSIVE SumS(_, _)
SumS(s, i) == IF i > Len(s) THEN 0 ELSE s[i] + SumS(s, i + 1)
SizeD(d, e, Sz(_, _)) ==
  CASE d.k \in {"U", "C", "V", "Fix"} -> d.w
    [] d.k = "Rest" -> Len(e[d.n])
    [] d.k = "B" -> SumW(d.x, 1) \div 8
    [] d.k \in {"Str", "Pascal"} -> Len(e[d.n]) + 1
    [] d.k = "LenB" -> Len(e[d.n]) + (IF d.w = 0 THEN 4 ELSE d.w)
    [] d.k = "List" -> d.x.cw + SumS([i \in 1..Len(e[d.n]) |-> Sz(d.x.item, e[d.n][i])], 1)
    [] OTHER -> 0
SizeItem2(item, p, it) == LET L == ItemLayout(item, p, it) IN SumS([i \in 1..Len(L) |-> SizeD(L[i], it, LAMBDA x, y : 0)], 1)
SizeItem(item, p, it) == LET L == ItemLayout(item, p, it) IN
  SumS([i \in 1..Len(L) |-> SizeD(L[i], it, LAMBDA x, y : SizeItem2(x, it, y))], 1)
SizeOf(kind, e) == LET L == LayoutOf(kind, e) IN
  SumS([i \in 1..Len(L) |-> SizeD(L[i], e, LAMBDA x, y : SizeItem(x, e, y))], 1)

\* ---- text ---------------------------------------------------------------------
HexInt(n) == HexNum(Be(n, 4))
SgnInt(n, w) == IF n >= 2 ^ (w - 1) THEN ToString(n - 2 ^ w) ELSE ToString(n)
FmtInt(f, n) == CASE f = "d" -> ToString(n) [] f = "x" -> HexInt(n)
                  [] f = "b" -> (IF n = 1 THEN "true" ELSE "false")
                  [] f = "c5" -> CharText(n + 96) [] f = "s5" -> SgnInt(n, 5) [] f = "s6" -> SgnInt(n, 6)
                  [] f \in {"h", "none"} -> ""
\* n / 2^sh with dg digits, ties to even (sh = 16, dg = 4 or sh = 8, dg = 2)
Fixed(bs, sh, dg) ==
  LET k == sh \div 8
      ip == SubSeq(bs, 1, Len(bs) - k)
      fr == ToIntR(SubSeq(bs, Len(bs) - k + 1, Len(bs)))
      p == IF dg = 4 THEN 10000 ELSE 100
      d == 2 ^ sh
      q == (fr * p) \div d
      rm == (fr * p) % d
      up == 2 * rm > d \/ (2 * rm = d /\ q % 2 = 1)
      q2 == IF up THEN q + 1 ELSE q
  IN (IF q2 = p THEN Dec(AddB(Widen(ip, 4), <<0, 0, 0, 1>>)) ELSE Dec(ip)) \o "." \o PadInt(IF q2 = p THEN 0 ELSE q2, dg)
SFixed(bs, sh, dg) == IF IsNeg(bs) THEN "-" \o Fixed(Neg(bs), sh, dg) ELSE Fixed(bs, sh, dg)
FmtB(f, b) ==
  CASE f = "d" -> Dec(b) [] f = "sd" -> SDec(b) [] f = "x" -> HexNum(b) [] f = "sx" -> SHexNum(b)
    [] f = "fx4" -> Fixed(b, 16, 4) [] f = "sfx4" -> SFixed(b, 16, 4) [] f = "sfx2" -> SFixed(b, 8, 2)
    [] f = "time" -> TimeText(Widen(b, 8)) [] f = "hx" -> HexOfBytes(b) [] f = "s" -> Esc(b)
    [] f = "xl" -> Join([i \in 1..Len(b) |-> HexInt(b[i])], ", ")
    [] f = "dots" -> CatS([i \in 1..Len(b) |-> IF Printable(b[i]) THEN CharText(b[i]) ELSE "."])
    [] f = "pas" -> Esc(SubSeq(b, 2, 1 + (IF b[1] > 31 THEN 31 ELSE b[1])))
    [] f = "dt" -> DataName(b)
    [] f = "h" -> ""
FmtCount(f, n) == IF f = "d" THEN ToString(n) ELSE IF f = "x" THEN HexInt(n) ELSE ""
TextD(d, e, Tx(_, _)) ==
  CASE d.k = "B" -> CatS([i \in 1..Len(d.x) |->
         IF d.x[i][1] = "" \/ d.x[i][4] = "none" THEN "" ELSE d.x[i][3] \o FmtInt(d.x[i][4], e[d.x[i][1]])])
    [] d.k \in {"C", "Probe", "Skip"} -> ""
    [] d.k = "T" -> d.pre
    [] d.k = "LenB" -> d.x.pre \o FmtCount(d.x.f, Len(e[d.n])) \o d.pre \o FmtB(d.f, e[d.n]) \o d.post
    [] d.k = "List" -> LET l == e[d.n] IN
         d.x.cpre \o FmtCount(d.x.cf, Len(l)) \o d.pre \o Join([i \in 1..Len(l) |-> Tx(d.x.item, l[i])], d.x.sep) \o d.post
    [] OTHER -> d.pre \o FmtB(d.f, e[d.n]) \o d.post
TextItem2(item, p, it) == LET L == ItemLayout(item, p, it) IN CatS([i \in 1..Len(L) |-> TextD(L[i], it, LAMBDA x, y : "")])
TextItem(item, p, it) == LET L == ItemLayout(item, p, it) IN
  CatS([i \in 1..Len(L) |-> TextD(L[i], it, LAMBDA x, y : TextItem2(x, it, y))])
TextOf(kind, e) == LET L == LayoutOf(kind, e) IN
  CatS([i \in 1..Len(L) |-> TextD(L[i], e, LAMBDA x, y : TextItem(x, e, y))])

\* ---- decoding -------------------------------------------------------------------
\* state: [ok, e, p (next byte), q (last byte)] over one byte sequence bs
Bad(s) == [s EXCEPT !.ok = FALSE]
Left(s) == s.q - s.p + 1
Put(e, n, v) == (n :> v) @@ e
Take(s, n, bs) == SubSeq(bs, s.p, s.p + n - 1)
RECURSIVE BitEnv(_, _, _, _)
BitEnv(fs, i, bits, e) == IF i > Len(fs) THEN e
  ELSE BitEnv(fs, i + 1, SubSeq(bits, fs[i][2] + 1, Len(bits)),
              IF fs[i][1] = "" THEN e ELSE Put(e, fs[i][1], IntOfBits(SubSeq(bits, 1, fs[i][2]))))
RECURSIVE NulAt(_, _, _)
NulAt(bs, i, q) == IF i > q THEN 0 ELSE IF bs[i] = 0 THEN i ELSE NulAt(bs, i + 1, q)
\* 7-bit groups: <<value bytes (4), length>> or <<>>
RECURSIVE GroupsLen(_, _, _)
GroupsLen(bs, i, q) == IF i > q THEN 0 ELSE IF bs[i] < 128 THEN 1 ELSE
   LET r == GroupsLen(bs, i + 1, q) IN IF r = 0 THEN 0 ELSE r + 1
RECURSIVE GroupsVal(_, _, _, _)
GroupsVal(bs, i, n, acc) == IF n = 0 THEN acc ELSE GroupsVal(bs, i + 1, n - 1, acc * 128 + (bs[i] % 128))
ReadStr(d, s, bs) == LET z == NulAt(bs, s.p, s.q) IN
  IF z = 0 THEN Bad(s) ELSE [s EXCEPT !.e = Put(s.e, d.n, SubSeq(bs, s.p, z - 1)), !.p = z + 1]
DecD(d, s, bs, Dl(_, _, _)) ==   \* Dl(item, n, s): n items (-1: to the end) -> <<items, state>>
  CASE d.k \in {"U", "Fix", "C"} ->
         IF Left(s) < d.w THEN Bad(s)
         ELSE [s EXCEPT !.e = IF d.k = "C" THEN s.e ELSE Put(s.e, d.n, Take(s, d.w, bs)), !.p = s.p + d.w]
    [] d.k = "Rest" -> [s EXCEPT !.e = Put(s.e, d.n, SubSeq(bs, s.p, s.q)), !.p = s.q + 1]
    [] d.k = "V" -> LET n == GroupsLen(bs, s.p, s.q) IN
         IF n = 0 \/ n > 4 THEN Bad(s)
         ELSE [s EXCEPT !.e = Put(s.e, d.n, Be(GroupsVal(bs, s.p, n, 0), 4)), !.p = s.p + n]
    [] d.k = "B" -> LET n == SumW(d.x, 1) \div 8 IN
         IF Left(s) < n THEN Bad(s)
         ELSE [s EXCEPT !.e = BitEnv(d.x, 1, BitsOf(Take(s, n, bs)), s.e), !.p = s.p + n]
    [] d.k = "Str" -> ReadStr(d, s, bs)
    [] d.k = "Pascal" -> IF Left(s) > 0 /\ bs[s.p] = Left(s) - 1
         THEN [s EXCEPT !.e = Put(s.e, d.n, SubSeq(bs, s.p + 1, s.q)), !.p = s.q + 1]
         ELSE ReadStr(d, s, bs)
    [] d.k = "LenB" ->
         LET g == IF d.w = 0 THEN GroupsLen(bs, s.p, s.q) ELSE d.w
             lb == IF d.w = 0 THEN Be(GroupsVal(bs, s.p, g, 0), 4) ELSE Take(s, g, bs)
         IN IF g = 0 \/ g > 4 \/ Left(s) < g THEN Bad(s)
            ELSE IF ~IsSmall(lb) \/ ToInt(lb) > Left(s) - g THEN Bad(s)
            ELSE LET n == ToInt(lb) IN
              [s EXCEPT !.e = Put(s.e, d.n, SubSeq(bs, s.p + g, s.p + g + n - 1)), !.p = s.p + g + n]
    [] d.k = "List" ->
         IF Left(s) < d.x.cw THEN Bad(s)
         ELSE LET cb == Take(s, d.x.cw, bs)
                  n == IF d.x.cw = 0 THEN d.x.num
                       ELSE IF ~IsSmall(cb) THEN 1000000000 ELSE IF d.x.or > 0 THEN ToInt(cb) % (256 - d.x.or) ELSE ToInt(cb)
              IN IF n = -2 \/ n > Left(s) + 64 THEN Bad(s)
                 ELSE LET r == Dl(d.x.item, n, [s EXCEPT !.p = s.p + d.x.cw]) IN
                      IF ~r[2].ok THEN Bad(s) ELSE [r[2] EXCEPT !.e = Put(s.e, d.n, r[1])]
    [] d.k \in {"T", "X"} -> s
    [] d.k = "Skip" -> LET n == NumOf(s.e, d.n) - d.x IN IF n < 0 \/ n > Left(s) THEN Bad(s) ELSE [s EXCEPT !.p = s.p + n]
    [] d.k = "Probe" -> [s EXCEPT !.e = Put(s.e, d.n, IF Left(s) >= d.x THEN 1 ELSE 0)]
EmptyEnv == <<>>
Done(n, s) == ~s.ok \/ n = 0 \/ (n = -1 /\ Left(s) = 0)
Less1(n) == IF n = -1 THEN -1 ELSE n - 1
RECURSIVE DecItem2R(_, _, _, _, _)
DecItem2R(item, p, i, s, bs) == LET L == ItemLayout(item, p, s.e) IN
  IF ~s.ok \/ i > Len(L) THEN s ELSE DecItem2R(item, p, i + 1, DecD(L[i], s, bs, LAMBDA x, y, z : <<<<>>, Bad(z)>>), bs)
RECURSIVE DecN2(_, _, _, _, _, _)
DecN2(item, p, n, acc, s, bs) ==
  IF Done(n, s) THEN <<acc, s>>
  ELSE LET r == DecItem2R(item, p, 1, [s EXCEPT !.e = EmptyEnv], bs)
       IN DecN2(item, p, Less1(n), Append(acc, r.e), [s EXCEPT !.p = r.p, !.ok = r.ok], bs)
RECURSIVE DecItemR(_, _, _, _, _)
DecItemR(item, p, i, s, bs) == LET L == ItemLayout(item, p, s.e) IN
  IF ~s.ok \/ i > Len(L) THEN s
  ELSE DecItemR(item, p, i + 1, DecD(L[i], s, bs, LAMBDA x, y, z : DecN2(x, s.e, y, <<>>, z, bs)), bs)
RECURSIVE DecN1(_, _, _, _, _, _)
DecN1(item, p, n, acc, s, bs) ==
  IF Done(n, s) THEN <<acc, s>>
  \* descriptors end at the first one that is not known
  ELSE IF item = "desc" /\ bs[s.p] \notin 3..6 THEN <<acc, [s EXCEPT !.p = s.q + 1]>>
  ELSE LET r == DecItemR(item, p, 1, [s EXCEPT !.e = EmptyEnv], bs)
       IN DecN1(item, p, Less1(n), Append(acc, r.e), [s EXCEPT !.p = r.p, !.ok = r.ok], bs)
RECURSIVE DecodeR(_, _, _, _)
DecodeR(kind, i, s, bs) == LET L == LayoutOf(kind, s.e) IN
  IF ~s.ok \/ i > Len(L) THEN s
  ELSE DecodeR(kind, i + 1, DecD(L[i], s, bs, LAMBDA x, y, z : DecN1(x, s.e, y, <<>>, z, bs)), bs)
\* bytes p..q of bs; ctx is what is known beforehand (type code, inside a wave box)
DecodeAt(kind, ctx, bs, p, q) == DecodeR(kind, 1, [ok |-> TRUE, e |-> ctx, p |-> p, q |-> q], bs)
Decode(kind, ctx, bs) == DecodeAt(kind, ctx, bs, 1, Len(bs))
\* does the layout take everything to the end of the box
Greedy(kind, e) == LET L == LayoutOf(kind, e) IN
  \E i \in 1..Len(L) : L[i].k \in {"Rest", "Probe", "Pascal"} \/ (L[i].k = "List" /\ L[i].x.cw = 0 /\ L[i].x.num = -1)

\* ---- generating field values --------------------------------------------------------
\* m: 0 all zero, 1 all ones, 2 only the highest bit, 3 one, 4 all bits but the highest, >= 5 mixed
GenBytes(w, m, r) ==
  LET mm == IF m >= 5 THEN PickR(r, 14) ELSE m IN
  [i \in 1..w |->
     CASE mm = 0 -> 0
       [] mm = 1 -> 255
       [] mm = 2 -> IF i = 1 THEN 128 ELSE 0
       [] mm = 3 -> IF i = w THEN 1 ELSE 0
       [] mm = 4 -> IF i = 1 THEN 127 ELSE 255
       [] mm \in {5, 6} -> IF i <= w \div 2 THEN 0 ELSE Rnd2(r, i) % 256
       [] mm = 7 -> IF i = w - 1 THEN 1 ELSE 0
       [] OTHER -> 1 + (Rnd2(r, i) % 255)]
GenBits(w, m, r) ==
  LET mm == IF m >= 5 THEN PickR(r, 8) ELSE m
      full == IF w = 31 THEN 2147483647 ELSE 2 ^ w - 1
  IN CASE mm = 0 -> 0 [] mm = 1 -> full [] mm = 2 -> 2 ^ (w - 1) [] mm = 3 -> 1
       [] mm = 4 -> full - (IF w = 31 THEN 1073741824 ELSE 2 ^ (w - 1))
       [] OTHER -> IntOfBits(SubSeq(BitsOf([i \in 1..4 |-> Rnd2(r, i) % 256]), 1, w))
GenLen(m, r, big) == CASE m = 0 -> 0 [] m = 1 -> 3 [] m = 2 -> 1 [] m = 3 -> 2
   [] OTHER -> IF m > 9 /\ PickR(r, 8) = 0 THEN big ELSE PickR(Rnd(r), 4)
GenStr(m, r) ==
  LET n == IF m = 0 THEN 0 ELSE IF m > 9 /\ PickR(r, 12) = 0 THEN <<40, 40, 255, 256, 300>>[1 + PickR(Rnd2(r, 77), 5)] ELSE PickR(r, 13) IN
  [i \in 1..n |-> IF PickR(Rnd(r), 3) = 0 THEN 1 + (Rnd2(r, i) % 255) ELSE 33 + (Rnd2(r, i) % 94)]
GenRest(m, r) == LET n == IF m = 0 THEN 0 ELSE IF m = 3 THEN 1 ELSE IF m > 9 /\ PickR(r, 16) = 0 THEN 300 ELSE PickR(r, 20) IN
  [i \in 1..n |-> IF m = 1 THEN 255 ELSE Rnd2(r, i) % 256]
GenD(d, e, m, r, Gi(_, _)) ==   \* e is the env so far; fields that are there stay
  IF d.k = "B" THEN [n \in {d.x[i][1] : i \in 1..Len(d.x)} \ (DOMAIN e \cup {""}) |->
                        LET i == CHOOSE i \in 1..Len(d.x) : d.x[i][1] = n IN GenBits(d.x[i][2], m, Rnd2(r, i))] @@ e
  ELSE IF d.n = "" \/ d.n \in DOMAIN e THEN e
  ELSE Put(e, d.n,
    CASE d.k = "U" -> IF d.x >= 0 THEN Be(PickR(r, d.x + 1), d.w) ELSE GenBytes(d.w, m, r)
      [] d.k = "Fix" -> IF d.f = "s" /\ PickR(Rnd(r), 4) # 0 THEN [i \in 1..d.w |-> 33 + (Rnd2(r, i) % 94)] ELSE GenBytes(d.w, m, r)
      [] d.k = "Rest" -> GenRest(m, r)
      [] d.k = "V" -> Be(7, 4)
      [] d.k = "Str" -> GenStr(m, r)
      [] d.k = "Pascal" -> [i \in 1..(IF m > 9 /\ PickR(r, 5) = 0 THEN <<128, 200, 254, 255>>[1 + PickR(Rnd2(r, 77), 4)] ELSE PickR(r, 13)) |-> 65 + (Rnd2(r, i) % 58)]
      [] d.k = "LenB" -> IF d.w # 1 /\ m > 9 /\ PickR(r, 10) = 0 THEN [i \in 1..270 |-> i % 256] ELSE
                         IF d.w = 1 /\ m > 9 /\ PickR(r, 4) = 0 THEN [i \in 1..255 |-> (7 * i) % 256] ELSE GenRest(IF m > 9 THEN 9 ELSE m, r)
      [] d.k = "List" ->
           LET n == IF d.x.cw = 0 /\ d.x.num >= 0 THEN d.x.num
                    ELSE GenLen(m, r, IF d.x.item = "nal" THEN (IF d.x.or = 224 THEN 31 ELSE 7) ELSE IF d.x.cw = 1 THEN 5 ELSE 300)
           IN [i \in 1..n |-> Gi(d.x.item, Rnd2(r, i))]
      [] d.k = "Probe" -> 0)
ItemPreset(item, e, r) ==
  CASE item = "flags" ->
     LET f == [n \in {"stream_dependence_flag", "url_flag", "ocr_stream_flag"} |->
                  PickR(Rnd2(r, IF n = "url_flag" THEN 1 ELSE IF n = "ocr_stream_flag" THEN 2 ELSE 3), 2)]
     IN IF f["url_flag"] = 1 THEN f @@ ("url_string" :> [i \in 1..PickR(Rnd2(r, 5), 200) |-> 32 + (Rnd2(r, i) % 95)]) ELSE f
    [] item = "desc" ->
     LET tag == 3 + PickR(r, 4)
         sub == <<0, 0, 1, 127, 128, 300, 20000, 3000000>>[1 + PickR(Rnd2(r, 9), 8)]
         f == [n \in {"stream_dependence_flag", "url_flag", "ocr_stream_flag"} |->
                  PickR(Rnd2(r, IF n = "url_flag" THEN 1 ELSE IF n = "ocr_stream_flag" THEN 2 ELSE 3), 2)]
         u == "url_string" :> (IF PickR(Rnd2(r, 4), 3) = 0 THEN <<>> ELSE [i \in 1..(1 + PickR(Rnd2(r, 5), 20)) |-> 32 + (Rnd2(r, i) % 95)])
         es == IF f["url_flag"] = 1 THEN f @@ u ELSE f
     IN IF tag = 3 THEN ("tag" :> <<3>>) @@ ("size" :> Be(ESOwn(es) + sub, 4)) @@ es
        ELSE IF tag = 4 THEN ("tag" :> <<4>>) @@ ("size" :> Be(13 + sub, 4))
        ELSE ("tag" :> <<tag>>)
    [] item = "alst" -> IF NoDefLen(e) THEN "description_length" :> Be(4 * (IF PickR(Rnd2(r, 2), 12) = 0 THEN <<257, 300, 2051, 270>>[1 + PickR(r, 4)] ELSE 1 + PickR(r, 6)), 4) ELSE EmptyEnv
    [] item \in {"roll", "rap", "tele"} -> IF NoDefLen(e) THEN "description_length" :> Be(IF item = "roll" THEN 2 ELSE 1, 4) ELSE EmptyEnv
    [] OTHER -> EmptyEnv
RECURSIVE GenItem2R(_, _, _, _, _, _)
GenItem2R(item, p, i, e, m, r) == LET L == ItemLayout(item, p, e) IN
  IF i > Len(L) THEN e ELSE GenItem2R(item, p, i + 1, GenD(L[i], e, m, Rnd2(r, i), LAMBDA x, y : EmptyEnv), m, r)
RECURSIVE GenItemR(_, _, _, _, _, _)
GenItemR(item, p, i, e, m, r) == LET L == ItemLayout(item, p, e) IN
  IF i > Len(L) THEN e
  ELSE GenItemR(item, p, i + 1, GenD(L[i], e, m, Rnd2(r, i), LAMBDA x, y : GenItem2R(x, e, 1, EmptyEnv, m, y)), m, r)
RECURSIVE GenR(_, _, _, _, _)
GenR(kind, i, e, m, r) == LET L == LayoutOf(kind, e) IN
  IF i > Len(L) THEN e
  ELSE GenR(kind, i + 1, GenD(L[i], e, m, Rnd2(r, i), LAMBDA x, y : GenItemR(x, e, 1, ItemPreset(x, e, y), m, y)), m, r)
Gen(kind, preset, m, r) == GenR(kind, 1, preset, m, r)

\* ES descriptor, decoder configuration in it, decoder specific info in that, SL configuration
NestedDescs(m, r) ==
  LET es == GenItemR("desc", EmptyEnv, 1, ("tag" :> <<3>>) @@ ItemPreset("flags", EmptyEnv, r), m, Rnd2(r, 1))
      dsis == [i \in 1..(PickR(Rnd2(r, 6), 3)) |-> GenItemR("desc", EmptyEnv, 1, "tag" :> <<5>>, m, Rnd2(r, 10 + i))]
      sls == [i \in 1..(PickR(Rnd2(r, 7), 3)) |-> GenItemR("desc", EmptyEnv, 1, "tag" :> <<6>>, m, Rnd2(r, 20 + i))]
      Own(l) == SumS([i \in 1..Len(l) |-> 5 + Len(l[i]["data"])], 1)
      dcds == [i \in 1..(1 + PickR(Rnd2(r, 8), 2)) |->
                 [GenItemR("desc", EmptyEnv, 1, ("tag" :> <<4>>) @@ ("size" :> Be(13, 4)), m, Rnd2(r, 30 + i))
                    EXCEPT !["size"] = Be(13 + (IF i = 1 THEN Own(dsis) ELSE 0), 4)]]
  IN [es |-> [es EXCEPT !["size"] = Be(ESOwn(es) + Own(sls) + SumS([i \in 1..Len(dcds) |-> 5 + ToInt(dcds[i]["size"])], 1), 4)],
      dcds |-> dcds, dsis |-> dsis, sls |-> sls]
NestedFlat(n) == <<n.es, n.dcds[1]>> \o n.dsis \o SubSeq(n.dcds, 2, Len(n.dcds)) \o n.sls
Subs(e, l) == ("subs" :> l) @@ e
NestedApi(n) == LET d1 == Subs(n.dcds[1], n.dsis) IN
  <<Subs(n.es, <<d1>> \o SubSeq(n.dcds, 2, Len(n.dcds)) \o n.sls), d1>> \o n.dsis \o SubSeq(n.dcds, 2, Len(n.dcds)) \o n.sls

\* ---- controls: what the layout of a kind depends on ----------------------------------------
Bits24(n) == Be(n, 3)
V1(v) == "version" :> <<v>>
Versions(code) == IF ~Known(code) THEN <<0>> ELSE IF VersionsOf(code) = <<>> THEN <<0, 1>> ELSE VersionsOf(code)
SpreadBits(n, bits) ==   \* bit i of n to position bits[i + 1]
  LET RECURSIVE S(_) S(i) == IF i > Len(bits) THEN 0 ELSE ((n \div (2 ^ (i - 1))) % 2) * (2 ^ bits[i]) + S(i + 1) IN S(1)
Cross(vs, fs) == [i \in 1..(Len(vs) * Len(fs)) |-> V1(vs[1 + ((i - 1) % Len(vs))]) @@ fs[1 + ((i - 1) \div Len(vs))]]
\* any 24 bits: the flags that announce fields among ones that mean nothing to the layout (or, 0x20000 and 0x10000 in
\* tfhd, something else)
AnyFlags(n, hi) == [i \in 1..n |-> "flags" :> <<(IF i % 2 = 0 THEN hi + PickR(Rnd2(8101, i), 2) ELSE PickR(Rnd2(8102, i), 256)),
                                               PickR(Rnd2(8103, i), 256), PickR(Rnd2(8104, i), 256)>>]
SgpdNat(g) == IF g \in {Roll, Prol} THEN 2 ELSE IF g = Alst THEN 12 ELSE 1
SgpdCtl(v, g, dl) == V1(v) @@ ("grouping_type" :> g) @@ (IF v = 1 THEN "default_length" :> Be(dl, 4) ELSE EmptyEnv)
Controls(kind, code) ==
  CASE kind = "Trun" -> Cross(<<0, 1>>, [n \in 1..64 |-> "flags" :> Bits24(SpreadBits(n - 1, <<0, 2, 8, 9, 10, 11>>))] \o AnyFlags(16, 0))
    [] kind = "Tfhd" -> Cross(<<0>>, [n \in 1..64 |-> "flags" :> Bits24(SpreadBits(n - 1, <<0, 1, 3, 4, 5, 16>>))] \o AnyFlags(40, 2))
    [] kind = "Meta" -> <<V1(0) @@ ("flags" :> <<0, 0, 0>>)>>   \* anything else reads as a QuickTime meta
    [] kind \in {"Url", "Urn"} -> [n \in 1..6 |-> V1(0) @@ ("flags" :> <<<<0,0,0>>, <<0,0,1>>, <<255,255,254>>, <<255,255,255>>, <<0,1,0>>, <<1,0,1>>>>[n])]
    [] kind = "Tfra" -> Cross(<<0, 1>>, [n \in 1..64 |-> ("length_size_of_traf_num" :> ((n - 1) \div 16)) @@
                            ("length_size_of_trun_num" :> (((n - 1) \div 4) % 4)) @@ ("length_size_of_sample_num" :> ((n - 1) % 4))])
    [] kind = "Sgpd" -> <<SgpdCtl(1, Roll, 2), SgpdCtl(1, Roll, 0), SgpdCtl(2, Roll, 0), SgpdCtl(1, Prol, 2), SgpdCtl(1, Prol, 0),
                          SgpdCtl(2, Prol, 0), SgpdCtl(1, Alst, 12), SgpdCtl(1, Alst, 0), SgpdCtl(1, Alst, 4), SgpdCtl(1, Alst, 20), SgpdCtl(1, Alst, 1200),
                          SgpdCtl(1, RapG, 1), SgpdCtl(1, RapG, 0), SgpdCtl(2, RapG, 0), SgpdCtl(1, Tele, 1), SgpdCtl(1, Tele, 0),
                          SgpdCtl(2, Tele, 0), SgpdCtl(1, <<115,121,110,99>>, 7), SgpdCtl(2, <<0,0,0,0>>, 0), SgpdCtl(1, <<114,111,108,109>>, 0)>>
    [] kind = "Colr" -> [n \in 1..6 |-> "colour_type" :> <<Nclx, RIcc, Prof, <<110,99,108,99>>, <<1,2,254,255>>, <<110,99,108,121>>>>[n]]
    [] kind = "DOps" -> [n \in 1..9 |-> ("channel_mapping_family" :> <<<<0, 0, 0, 1, 1, 1, 255, 2, 1>>[n]>>) @@
                            ("output_channel_count" :> <<<<0, 2, 255, 0, 1, 8, 3, 255, 2>>[n]>>)]
    [] kind = "AVCDecoderConfiguration" ->
         [n \in 1..18 |-> ("profile" :> <<<<86, 100, 110, 118, 122, 128, 138, 144, 244>>[1 + ((n - 1) % 9)]>>) @@
                          ("high_profile_fields_enabled" :> ((n - 1) \div 9))]
         \o [n \in 1..9 |-> "profile" :> <<<<66, 77, 83, 88, 44, 0, 255, 101, 99>>[n]>>]
    [] kind = "AudioSampleEntry" ->
         IF code = Opus THEN [n \in 1..6 |-> ("code" :> code) @@ ("entry_version" :> Be(<<0, 1, 2, 3, 256, 65535>>[n], 2))]
         ELSE [n \in 1..9 |-> ("code" :> code) @@ ("entry_version" :> Be(<<0, 1, 2, 3, 1, 2, 3, 256, 65535>>[n], 2)) @@
                  (IF n > 1 THEN "is_quick_time_compatible" :> (IF n < 5 THEN 0 ELSE 1) ELSE EmptyEnv) @@
                  (IF n \in {7, 8, 9} THEN "quick_time_data" :> [i \in 1..(<<1, 20, 300>>[n - 6]) |-> (37 * i) % 256] ELSE EmptyEnv)]
    [] kind = "Stsz" -> <<V1(0) @@ ("sample_size" :> Zeros(4)), V1(0)>>
    [] kind = "Hdlr" -> <<V1(0) @@ ("pre_defined" :> Zeros(4)), V1(0), V1(0) @@ ("pre_defined" :> Zeros(4))>>
    [] kind = "Data" -> [n \in 1..12 |-> "data_type" :> Be(<<0, 1, 1, 2, 3, 13, 14, 21, 22, 23, 24, 257>>[n], 4)] \o
                        <<"data_type" :> <<255,255,255,255>>, "data_type" :> <<1,0,0,0>>>>
    [] kind = "Esds" -> [n \in 1..4 |-> V1(0)]
    [] IsFull(code) -> LET vs == Versions(code) IN [i \in 1..Len(vs) |-> V1(vs[i])]
    [] OTHER -> <<EmptyEnv>>
=============================================================================
