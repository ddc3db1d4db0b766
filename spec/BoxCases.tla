------------------------------ MODULE BoxCases ------------------------------
(* Life of one box (C07 C08 C09 C14): field values are chosen, encoded,
   decoded again (with or without other bytes behind) and re-encoded.  The
   layouts must make this a round trip (checked here); every behaviour is
   emitted for replay.  A second field assignment of the same kind is emitted
   with it: the box object that decodes held those values before.            *)
EXTENDS Codec, Emit

VARIABLES t, k, ph, env, wire, dec
vars == <<t, k, ph, env, wire, dec>>

NT == Len(TypeTable)
CodeT(i) == IF i <= NT THEN TypeTable[i][1] ELSE <<117, 107, 110, 111>>
KindT(i) == KindOf(CodeT(i))
First(i) == KindT(i) # "IlstMeta" \/ \A j \in 1..(i - 1) : KindT(j) # "IlstMeta"
Mode(i, kk, nc) == LET q == (kk - 1) \div nc IN
  IF nc <= 20 /\ q < 5 THEN q ELSE IF kk % 3 = 0 THEN PickR(Rnd2(i, kk), 5) ELSE IF kk % 3 = 1 THEN 10 ELSE 6
Nested(i, kk) == KindT(i) = "Esds" /\ kk % 3 = 0
NestedOf(i, kk) == NestedDescs(Mode(i, kk, 4), Rnd3(SeedE, i + 5000, kk))
Count(i) == IF KindT(i) \in Containers THEN 2
            ELSE IF KindT(i) = "VisualSampleEntry" THEN 4 + (NumE \div 4)
            ELSE LET nc == Len(Controls(KindT(i), CodeT(i))) IN nc + NumE
GenT0(i, kk, salt) ==
  LET cs == Controls(KindT(i), CodeT(i)) nc == Len(cs) IN
  Gen(KindT(i), cs[1 + ((kk - 1) % nc)], Mode(i, kk, nc), Rnd3(SeedE, i + (1000 * salt), kk))
GenT(i, kk, salt) == IF Nested(i, kk) THEN ("descriptors" :> NestedFlat(NestedOf(i, kk))) @@ GenT0(i, kk, salt) ELSE GenT0(i, kk, salt)
Drop(e) == [n \in DOMAIN e \ {"code"} |-> e[n]]
\* which assignment the decoding object held before
Before(i, kk) == 1 + PickR(Rnd3(SeedE, i + 7000, kk), Count(i))
\* descriptors are handed over either flat with explicit sizes, or nested
Api(i, kk, e) == IF Nested(i, kk) THEN ("descriptors" :> NestedApi(NestedOf(i, kk))) @@ Drop(e) ELSE Drop(e)
\* the same values in another form that must be read as well (or <<>>)
RECURSIVE WithG(_, _)
WithG(l, g) == [j \in 1..Len(l) |-> ("_g" :> (1 + ((g + j) % 4))) @@ l[j]]
Variant(i, kk, e) ==
  CASE KindT(i) = "Esds" -> Encode("Esds", ("descriptors" :> WithG(e["descriptors"], kk)) @@ e)
    [] KindT(i) = "Iods" -> Encode("Iods", ("_g" :> (1 + (kk % 3))) @@ e)
    [] KindT(i) = "Hdlr" /\ ~EqN(e["pre_defined"], <<0>>) ->   \* QuickTime: name with its length in front
         LET w == Encode("Hdlr", e) IN SubSeq(w, 1, 24) \o <<Len(e["name"])>> \o e["name"]
    [] OTHER -> <<>>
VarEnv(i, e) == IF KindT(i) = "Hdlr" THEN ("padding" :> <<>>) @@ e ELSE e
\* zero bytes inside strings: no reader gets such a string back, but what is announced is still what is written
StrFields(kind, e) == LET L == LayoutOf(kind, e) IN {L[i].n : i \in {j \in 1..Len(L) : L[j].k \in {"Str", "Pascal"}}}
Holed(s, r) == CASE r % 4 = 0 -> s \o <<0>> [] r % 4 = 1 -> s \o <<0, 0, 0>> [] r % 4 = 2 -> <<0>> \o s
                 [] OTHER -> SubSeq(s, 1, Len(s) \div 2) \o <<0>> \o SubSeq(s, 1 + (Len(s) \div 2), Len(s))
WithHoles(i, kk, e) == [n \in StrFields(KindT(i), e) |-> Holed(e[n], kk + Cardinality(StrFields(KindT(i), e)))] @@ e
\* tables with more entries than 16 bits can count: bytes before, one entry, bytes behind
BigKinds == {"Stts", "Ctts", "Stsc", "Stss", "Stsz", "Stco", "Co64", "Elst", "Sbgp", "Sgpd", "Trun", "Tfra", "Sidx", "Pssh", "Sdtp", "Ftyp", "Styp"}
BigList(kind, e) == LET L == LayoutOf(kind, e) IN {j \in 1..Len(L) : L[j].k = "List" /\ (L[j].x.cw \in {2, 4} \/ kind \in {"Trun", "Sdtp", "Ftyp", "Styp"}) /\ e[L[j].n] # <<>>}
BigOf(i, kk, e0) ==
  LET kind == KindT(i) j == CHOOSE j \in BigList(kind, e0) : TRUE
      d0 == LayoutOf(kind, e0)[j]
      n == IF d0.x.cw = 2 THEN 65535 ELSE 65536 + (kk % 3)
      e == IF kind = "Trun" THEN ("sample_count" :> Be(n, 4)) @@ e0 ELSE e0
      L == LayoutOf(kind, e)
      One(a, b) == Cat([m \in 1..(b - a + 1) |-> EncD(L[a + m - 1], e, LAMBDA x, y : EncItem(x, e, y))])
  IN [list |-> d0.n, n |-> n, item |-> e[d0.n][1],
      head |-> HexOfBytes(One(1, j - 1) \o (IF d0.x.cw = 0 THEN <<>> ELSE Be(n, d0.x.cw))),
      each |-> HexOfBytes(EncItem(d0.x.item, e, e[d0.n][1])), tail |-> HexOfBytes(One(j + 1, Len(L)))]
Big(i, kk, e) == KindT(i) \in BigKinds /\ kk % (IF NumE > 100 THEN 5 ELSE IF KindT(i) \in {"Pssh", "Sgpd", "Stsz", "Ftyp", "Styp"} THEN 4 ELSE 11) = 2 /\ BigList(KindT(i), e) # {}
\* no encoding exists: an address longer than its length can say ...
TooLong(i, kk, e) == KindT(i) = "Esds" /\ kk < 8
\* ... or more elements than a count of one or two bytes can say.  Narrow: the lists and blocks of bytes with such a
\* count, each as [list, inner, n, item]; inner is the block inside an element of a list (or "").  n still fits.
Narrow(kind, e) ==
  LET L == LayoutOf(kind, e)
      Of(d) == IF d.k = "List" /\ d.x.cw \in {1, 2} /\ Val(e, d.n, <<>>) # <<>>
               THEN {[list |-> d.n, inner |-> "", n |-> (IF d.x.cw = 1 THEN 255 - d.x.or ELSE 65535), item |-> e[d.n][1], cw |-> d.x.cw, or |-> d.x.or]}
                    \cup {[list |-> d.n, inner |-> f.n, n |-> 65535, item |-> e[d.n][1], cw |-> d.x.cw, or |-> d.x.or]
                             : f \in {g \in Range(ItemLayout(d.x.item, e, e[d.n][1])) : g.k = "LenB" /\ g.w = 2}}
               ELSE IF d.k = "LenB" /\ d.w = 2 THEN {[list |-> d.n, inner |-> "", n |-> 65535, item |-> 90, cw |-> 2, or |-> 0]}
               ELSE {}
  IN UNION {Of(L[j]) : j \in 1..Len(L)}
\* blocks of bytes of more than 2^16 bytes
Blocks(kind, e, m) ==
  LET L == LayoutOf(kind, e)
  IN {[list |-> L[j].n, inner |-> "", n |-> m, item |-> 90, cw |-> 4, or |-> 0] : j \in {x \in 1..Len(L) : L[x].k \in {"Rest", "Str"} \/ (L[x].k = "LenB" /\ L[x].w = 4)}}
Long(i, kk, e) == KindT(i) # "Esds" /\ kk % (IF NumE > 100 THEN 9 ELSE 13) = 4
\* bytes of the box with q.n elements, in three parts
FullBox3(kind, e, q) ==
  LET L == LayoutOf(kind, e) j == CHOOSE x \in 1..Len(L) : L[x].n = q.list /\ L[x].k \in {"List", "LenB", "Rest", "Str"}
      One(a, b) == Cat([m \in 1..(b - a + 1) |-> EncD(L[a + m - 1], e, LAMBDA x, y : EncItem(x, e, y))])
      cnt(m) == IF q.cw = 1 THEN <<m + q.or>> ELSE Be(m, q.cw)
  IN [list |-> q.list, inner |-> q.inner, n |-> q.n, item |-> q.item,
      head |-> HexOfBytes(One(1, j - 1) \o (IF L[j].k \in {"Rest", "Str"} THEN <<>> ELSE IF q.inner = "" THEN cnt(q.n) ELSE cnt(1) \o Be(q.n, 2))),
      each |-> HexOfBytes(IF q.inner # "" \/ L[j].k # "List" THEN <<90>> ELSE EncItem(L[j].x.item, e, q.item)),
      tail |-> HexOfBytes((IF L[j].k = "Str" THEN <<0>> ELSE <<>>) \o One(j + 1, Len(L)))]
Limit(i, kk, e) == KindT(i) \in {"AVCDecoderConfiguration", "VPCodecConfiguration", "Sidx"} /\ Narrow(KindT(i), e) # {}
                   /\ kk % (IF NumE > 100 THEN 5 ELSE 7) = 1
Trail(i, kk, e) == IF Greedy(KindT(i), e) THEN <<>> ELSE [j \in 1..((kk * 7) % 13) |-> (kk + 29 * j) % 256]
\* the constructor of AudioSampleEntry insists on QuickTime data in versions 1 and 2
Buildable(kind, e) == kind # "AudioSampleEntry" \/ ~\E v \in 1..2 : NumOf(e, "entry_version") = v /\ ~Has(e, "quick_time_data")
Ctx(i) == IF KindT(i) = "AudioSampleEntry" THEN "code" :> CodeT(i) ELSE EmptyEnv

Init == /\ t \in {i \in 1..(NT + 1) : TRUE} /\ k \in 1..Count(t) /\ (First(t) \/ k = 1)
        /\ ph = "start" /\ env = EmptyEnv /\ wire = <<>> /\ dec = EmptyEnv
Choose == /\ ph = "start" /\ ph' = "fresh" /\ env' = GenT(t, k, 0) /\ UNCHANGED <<t, k, wire, dec>>
DoEncode == /\ ph = "fresh" /\ ph' = "encoded" /\ wire' = Encode(KindT(t), env) /\ UNCHANGED <<t, k, env, dec>>
DoDecode == /\ ph = "encoded" /\ ph' = "decoded"
            /\ dec' = Decode(KindT(t), Ctx(t), wire \o Trail(t, k, env)) /\ UNCHANGED <<t, k, env, wire>>
Emission ==
  /\ ph = "decoded" /\ ph' = "end" /\ UNCHANGED <<t, k, env, wire, dec>>
  /\ LET v == Variant(t, k, env) e == VarEnv(t, env) IN IF v = <<>> THEN TRUE ELSE
       EmitCase([id |-> "v" \o ToString(t) \o "x" \o ToString(k), op |-> "box", code |-> HexOfBytes(CodeT(t)), kind |-> KindT(t),
                 prev |-> Drop(GenT(t, Before(t, k), 1)), build |-> FALSE, dirty |-> TRUE, fields |-> EmptyEnv,
                 hex |-> HexOfBytes(v), canon |-> HexOfBytes(Encode(KindT(t), e)), trail |-> HexOfBytes(Trail(t, k, env)),
                 text |-> TextOf(KindT(t), e), size |-> SizeOf(KindT(t), e)])
  /\ IF StrFields(KindT(t), env) = {} THEN TRUE ELSE
       EmitCase([id |-> "n" \o ToString(t) \o "x" \o ToString(k), op |-> "boxnul", code |-> HexOfBytes(CodeT(t)), kind |-> KindT(t),
                 fields |-> Drop(WithHoles(t, k, env)), size |-> SizeOf(KindT(t), WithHoles(t, k, env))])
  \* a version no format is defined for: what is announced is what is written, whatever that is
  /\ IF ~IsFull(CodeT(t)) \/ k % 4 # 1 THEN TRUE ELSE
       EmitCase([id |-> "o" \o ToString(t) \o "x" \o ToString(k), op |-> "boxodd", code |-> HexOfBytes(CodeT(t)), kind |-> KindT(t),
                 fields |-> Drop(("version" :> <<<<2, 3, 127, 128, 254, 255>>[1 + PickR(Rnd3(SeedE, t + 9000, k), 6)]>>) @@ env)])
  /\ IF ~Big(t, k, env) THEN TRUE ELSE
       EmitCase([id |-> "g" \o ToString(t) \o "x" \o ToString(k), op |-> "boxbig", code |-> HexOfBytes(CodeT(t)), kind |-> KindT(t),
                 fields |-> Drop(env), big |-> BigOf(t, k, env)])
  /\ IF ~Long(t, k, env) \/ ~Buildable(KindT(t), env) THEN TRUE ELSE
       \A q \in Blocks(KindT(t), env, 65536 + (k % 3)) :
       EmitCase([id |-> "w" \o ToString(t) \o "x" \o ToString(k) \o q.list, op |-> "boxbig", code |-> HexOfBytes(CodeT(t)), kind |-> KindT(t),
                 fields |-> Drop(env), big |-> FullBox3(KindT(t), env, q)])
  /\ IF ~Limit(t, k, env) THEN TRUE ELSE
       \A q \in Narrow(KindT(t), env) :
       /\ EmitCase([id |-> "f" \o ToString(t) \o "x" \o ToString(k) \o q.list \o q.inner, op |-> "boxbig", code |-> HexOfBytes(CodeT(t)), kind |-> KindT(t),
                 fields |-> Drop(env), big |-> FullBox3(KindT(t), env, q)])
       /\ EmitCase([id |-> "c" \o ToString(t) \o "x" \o ToString(k) \o q.list \o q.inner, op |-> "boxrefuse", code |-> HexOfBytes(CodeT(t)), kind |-> KindT(t),
                 fields |-> Drop(env), big |-> [list |-> q.list, inner |-> q.inner, n |-> q.n + 1 + (k % 3), item |-> q.item]])
  /\ IF ~TooLong(t, k, env) THEN TRUE ELSE
       EmitCase([id |-> "l" \o ToString(k), op |-> "boxrefuse", code |-> HexOfBytes(CodeT(t)), kind |-> KindT(t),
                 fields |-> Drop(("descriptors" :> <<("tag" :> <<3>>) @@ ("size" :> Be(5000, 4)) @@ ("url_flag" :> 1) @@
                     ("stream_dependence_flag" :> 0) @@ ("ocr_stream_flag" :> 0) @@ ("stream_priority" :> 0) @@ ("ESID" :> <<0, 1>>) @@
                     ("url_string" :> [i \in 1..(255 + k) |-> 97 + (i % 26)])>>) @@ env)])
  /\ EmitCase([id |-> "b" \o ToString(t) \o "x" \o ToString(k), op |-> "box", code |-> HexOfBytes(CodeT(t)), kind |-> KindT(t),
               fields |-> Api(t, k, env), prev |-> Drop(GenT(t, Before(t, k), 1)),
               hex |-> HexOfBytes(wire), trail |-> HexOfBytes(Trail(t, k, env)),
               text |-> TextOf(KindT(t), env), size |-> Len(wire),
               build |-> Buildable(KindT(t), env), dirty |-> Buildable(KindT(t), GenT(t, Before(t, k), 1)),
               freshtext |-> ~(KindT(t) = "Stsz" /\ "sample_count" \in DOMAIN env)])
Next == Choose \/ DoEncode \/ DoDecode \/ Emission
Spec == Init /\ [][Next]_vars

SizeRight == ph = "encoded" => Len(wire) = SizeOf(KindT(t), env)
RoundTrip == ph = "decoded" =>
  /\ dec.ok
  /\ dec.e = env
  /\ dec.p = Len(wire) + 1
  /\ Encode(KindT(t), dec.e) = wire
  /\ LET v == Variant(t, k, env) d == Decode(KindT(t), Ctx(t), v) IN
       v # <<>> => d.ok /\ d.e = VarEnv(t, env) /\ d.p = Len(v) + 1
=============================================================================
