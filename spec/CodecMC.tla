------------------------------- MODULE CodecMC -------------------------------
EXTENDS Codec, Json
CONSTANTS Mode, Deep
VARIABLES pick, hist
vars == <<pick, hist>>
Types == {"u8", "chr", "bool", "i16", "i32", "f32", "f64"}
SmallSet(t) == CASE t \in {"u8", "chr"} -> 0..255
                 [] t = "bool" -> {0, 1}
                 [] t = "i16" -> {0, 1, -1, 2, 127, 128, 129, 255, 256, 257, -127, -128, -129, -255, -256, -257, 4660, 8224, -8224, 32767, -32768, 2570, 2313, 12345, -12345} \cup {Pow2(k) : k \in 0..14} \cup {0 - Pow2(k) : k \in 0..14}
                 [] t = "i32" -> {0, 1, -1, 255, 256, -256, 65535, 65536, -65536, 16777215, 16777216, 19088743, -19088743, 538976288, 151587081, 2147483647, -2147483647} \cup {Pow2(k) : k \in 0..30} \cup {0 - Pow2(k) : k \in 0..30}
                 [] t \in {"f32", "f64"} -> (-9..9) \cup {Pow2(k) : k \in 0..19} \cup {0 - Pow2(k) : k \in 0..19} \cup {1234, -4321, 99999, 524287, -524287, 26214}
Vals(t) == {Num(t, q) : q \in SmallSet(t)} \cup Extremes(t)
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
Pairs(t) == LET few == {Num(t, q) : q \in (IF t \in {"f32", "f64"} THEN {0, 1, -6, 4096} ELSE {0, 1, -2, 32767, -32768})} \cup Extremes(t) IN {<<a, b>> : a \in few, b \in few}
(* vectors: everything at once, and short ones of every length *)
Vecs(t) == LET all == SeqOf(Vals(t)) IN {SubSeq(all, k, k + n - 1) : n \in 0..4, k \in {1, 2, 3, 7, 11}} \cup {all}
VecOK(v, t) == t # "bool" \/ Len(v) <= 2
(* shape: s one element, v a vector, c a complex, vc a vector of complex, p a pair of descriptors, vp *)
Codings == {[sh |-> "s", t |-> t, v |-> <<x>>] : t \in Types, x \in UNION {Vals(u) : u \in {"u8"}}}
Singles == UNION {{[sh |-> "s", t |-> t, v |-> <<x>>] : x \in Vals(t)} : t \in Types}
Multi == UNION {{[sh |-> "v", t |-> t, v |-> x] : x \in Vecs(t)} : t \in Types \ {"bool"}}
    \cup {[sh |-> "v", t |-> "bool", v |-> [i \in 1..Len(x) |-> Num("bool", x[i])]] : x \in {<<>>, <<1>>, <<0>>, <<1, 0>>, <<0, 1, 1>>, <<1, 1, 0, 0, 1, 0, 1, 1, 0>>}}
Complex == UNION {{[sh |-> "c", t |-> t, v |-> x] : x \in Pairs(t)} : t \in {"f32", "f64"}} \cup {[sh |-> "p", t |-> "i32", v |-> x] : x \in Pairs("i32")}
VComplex == UNION {{[sh |-> k, t |-> t, v |-> x] : x \in {<<>>} \cup {a \o b : a \in Pairs(t), b \in {<<Num(t, 1), Num(t, 2)>>}} \cup {a \o a \o <<Num(t, 3), Num(t, -4)>> : a \in Pairs(t)}} : <<k, t>> \in {<<"vc", "f32">>, <<"vc", "f64">>, <<"vp", "i32">>}}
(* a logical may be undefined, a zero byte: what it reads as is left open, its neighbours are not touched *)
Undef == [text |-> UNSPEC, bytes |-> <<0>>]
Lacking == {[sh |-> "v", t |-> "bool", v |-> v] : v \in UNION {[1..n -> {Num("bool", 0), Num("bool", 1), Undef}] : n \in 1..4}}
Cases == Singles \cup Multi \cup Complex \cup VComplex
CodeScript(c) == <<[op |-> "enc", sh |-> c.sh, t |-> c.t, v |-> c.v], [op |-> "dec", sh |-> c.sh, t |-> c.t, v |-> c.v]>>
                 \o (IF c.v = <<>> \/ c.t = "bool" THEN <<>> ELSE <<[op |-> "less", sh |-> c.sh, t |-> c.t, v |-> c.v, by |-> 1], [op |-> "less", sh |-> c.sh, t |-> c.t, v |-> c.v, by |-> Len(Bytes(c.v))]>>)

Shapes == {<<1, 1>>, <<5, 1>>, <<1, 5>>, <<4, 3>>, <<3, 4>>, <<2, 2>>, <<7, 2>>, <<2, 3, 2>>, <<6>>, <<9>>, <<8, 8>>} \cup (IF Deep THEN {<<16, 16>>, <<3, 3, 3>>, <<31, 7>>, <<400>>, <<20, 20>>, <<1, 100>>} ELSE {})
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
Fill(bp, n, p) == [i \in 1..n |-> CASE p = "ramp" -> (IF bp = 8 THEN (7 * i) % 256 ELSE 7 * i - 20) [] p = "down" -> (IF bp = 8 THEN 255 - (i % 256) ELSE 3 - 5 * i)
                                    [] p = "peak" -> (IF i = (n \div 2) + 1 THEN 100 ELSE 1) [] p = "mix" -> ((i * 37) % 101) + (IF bp = 8 THEN 0 ELSE -50) [] p = "same" -> 32 [] p = "low" -> (IF i < 3 THEN 0 ELSE IF bp = 8 THEN 5 ELSE -5 - (i % 3)) [] p = "high" -> (IF i < 3 THEN 0 ELSE 5 + (i % 3)) [] p = "below" -> (IF bp = 8 THEN 200 + (i % 3) ELSE -100 - (i % 3)) [] p = "two" -> (IF i % 2 = 0 THEN 9 ELSE 10)]
(* numbers stay below 2^31 *)
Images == {c \in [bp : {8, 16, 32, -32, -64}, axes : Shapes, p : {"ramp", "down", "peak", "mix", "same", "two", "low", "high", "below"}, via : {"primary", "ext"}] : c.p \in {"ramp", "down"} => Prod(c.axes) <= 64}
PixAll(w, n) == LET h == n \div w IN [k \in 1..n |-> [op |-> "pix", x |-> (k - 1) \div w, y |-> (k - 1) % w]]
Others(bp) == LET bs == <<8, 16, 32, -32, -64>> IN [i \in 1..5 |-> IF bs[i] = bp THEN [op |-> "out"] ELSE [op |-> "other", bp |-> bs[i]]]
ImageScript(c) == LET n == Prod(c.axes)  q == Fill(c.bp, n, c.p)  v == [i \in 1..n |-> Num(PixType(c.bp), q[i])]
                  IN <<[op |-> "image", bp |-> c.bp, axes |-> c.axes, v |-> v, via |-> c.via], [op |-> "stat", q |-> q, base |-> "0"]>> \o PixAll(c.axes[1], n)
                     \o <<[op |-> "out"], [op |-> "copy"], [op |-> "stat", q |-> q, base |-> "0"], [op |-> "out"], [op |-> "hduout"], [op |-> "pix", x |-> 0, y |-> c.axes[1] - 1]>> \o Others(c.bp)
(* large pixels: a base and small differences *)
BigImages == {<<16, "32700", <<67, 67, -65, 0>>>>, <<16, "-32760", <<-8, -8, -8, 0>>>>, <<32, "2147483600", <<47, 47, 47, 40>>>>, <<32, "-2147483600", <<-47, -47, -47, -47, 0>>>>, <<32, "2147483600", <<47>>>>, <<32, "0", <<1073741823, -1073741823>>>>}
BigNum(bp, base, d) == LET k == IntVal(base) + d IN Num(PixType(bp), k)
BigScript(c) == LET v == [i \in DOMAIN c[3] |-> BigNum(c[1], c[2], c[3][i])]
                IN <<[op |-> "image", bp |-> c[1], axes |-> <<Len(v)>>, v |-> v, via |-> "primary"]>>
                   \o (IF c[2] = "0" THEN <<>> ELSE <<[op |-> "stat", q |-> c[3], base |-> c[2]]>>)
                   \o <<[op |-> "minmax", max |-> (v[CHOOSE i \in DOMAIN v : \A j \in DOMAIN v : c[3][j] <= c[3][i]]).text, min |-> (v[CHOOSE i \in DOMAIN v : \A j \in DOMAIN v : c[3][j] >= c[3][i]]).text], [op |-> "out"]>>
ExtremeScript(bp) == LET v == SeqOf({x \in Extremes(PixType(bp)) : x.text # "nan"})
                     IN <<[op |-> "image", bp |-> bp, axes |-> <<Len(v)>>, v |-> v, via |-> "ext"]>> \o PixAll(Len(v), Len(v)) \o <<[op |-> "out"]>>
(* more pixels than 16 bits count, and vectors of more bytes *)
HugeFill(i) == (<<3, 0, 7, 3, 200>>)[1 + ((i + i \div 251) % 5)]
HugeImages == {<<8, <<300, 250>>, "primary">>, <<16, <<257, 259>>, "ext">>}
HugeScript(c) == LET n == Prod(c[2])  q == [i \in 1..n |-> HugeFill(i)]  v == [i \in 1..n |-> Num(PixType(c[1]), q[i])]  w == c[2][1]  h == n \div w
                     st == [op |-> "stat", q |-> q, base |-> "0", novar |-> TRUE]
                     At == <<<<0, 0>>, <<0, w - 1>>, <<1, 0>>, <<127, 128>>, <<128, 127>>, <<h \div 2, w \div 2>>, <<218, 135>>, <<218, 136>>, <<h - 5, 255>>, <<h - 32, 254>>, <<h - 1, 0>>, <<h - 1, w - 1>>>>
                 IN <<[op |-> "image", bp |-> c[1], axes |-> c[2], v |-> v, via |-> c[3]], st>> \o [k \in DOMAIN At |-> [op |-> "pix", x |-> At[k][1], y |-> At[k][2]]] \o <<[op |-> "out"], [op |-> "hduout"]>>
HugeVec(t) == LET n == (CASE t = "u8" -> 70000 [] t = "i16" -> 33000 [] t = "f32" -> 17000 [] t = "f64" -> 8300 [] t = "bool" -> 66000)
              IN [sh |-> "v", t |-> t, v |-> [i \in 1..n |-> Num(t, IF t = "bool" THEN (IF HugeFill(i) = 3 THEN 1 ELSE 0) ELSE HugeFill(i))]]
HugeVecs == {"u8", "i16", "f32", "f64", "bool"}
AsciiVals == {<<"ll", x>> : x \in {"0", "-1", "7", "9223372036854775807", "-9223372036854775808"}} \cup {<<"int", x>> : x \in {"0", "-1", "2147483647", "-2147483648"}}
        \cup {<<t, x>> : t \in {"dbl", "flt"}, x \in {"0", "1.5", "-2.25", "1e+20", "123456", "1e-05", "-0.0001", "0.1"}} \cup {<<"str", x>> : x \in {"", "a", "a b", "it's", "12"}}
FlagScript(s, e) == <<[op |-> "flags", simple |-> s = "T", extend |-> e, raw |-> s]>>
(* Given: bytes (of vectors of every shape) and images (their numbers, less a base) drawn at random; what they are is worked out here. *)
(* no pixels: no axes, or an axis of length zero *)
EmptyScript(c) == <<[op |-> "image", bp |-> c.bp, axes |-> c.axes, v |-> <<>>, via |-> c.via], [op |-> "nostat"], [op |-> "out"], [op |-> "hduout"], [op |-> "copy"], [op |-> "out"], [op |-> "nostat"]>> \o Others(c.bp)
Empties == [bp : {8, 16, 32, -32, -64}, axes : {<<>>, <<0>>, <<0, 5>>, <<5, 0>>, <<3, 0, 2>>}, via : {"primary", "ext"}]
Given == IF Mode = "given" THEN ndJsonDeserialize("given.ndjson") ELSE <<>>
BytesScript(g) == LET v == [i \in DOMAIN g.b |-> Value(g.t, g.b[i])]  nan == \E i \in DOMAIN v : v[i].text = "nan"
                      Op(o) == [op |-> o, sh |-> g.sh, t |-> g.t, v |-> v]
                  IN <<Op("dec"), Op("trip")>> \o (IF nan THEN <<>> ELSE <<Op("enc"), Op("dec")>>)
DrawnScript(g) == LET n == Prod(g.axes)  v == [i \in 1..n |-> Num(PixType(g.bp), g.base * Unit(g.bp) + g.q[i])]  st == [op |-> "stat", q |-> g.q, base |-> Dec(g.base)]
                      P == [k \in DOMAIN g.at |-> [op |-> "pix", x |-> g.at[k][1], y |-> g.at[k][2]]]
                  IN <<[op |-> "image", bp |-> g.bp, axes |-> g.axes, v |-> v, via |-> g.via], st>> \o P \o <<[op |-> "out"], [op |-> "hduout"], st, [op |-> "copy"]>> \o P \o <<[op |-> "out"], st>>
Picks == CASE Mode = "given" -> {<<"given", k>> : k \in DOMAIN Given}
           [] Mode = "code" -> {<<"code", c>> : c \in Cases} \cup {<<"lack", c>> : c \in Lacking} \cup {<<"ascii", c>> : c \in AsciiVals} \cup {<<"hugev", t>> : t \in HugeVecs}
           [] Mode = "image" -> {<<"image", c>> : c \in Images} \cup {<<"empty", c>> : c \in Empties} \cup {<<"big", c>> : c \in BigImages} \cup {<<"huge", c>> : c \in HugeImages} \cup {<<"extreme", bp>> : bp \in {16, 32, -32, -64}}
                                \cup {<<"flags", s, e>> : s \in {"T", "F"}, e \in {"T", "F", ""}}
Script(p) == CASE p[1] = "given" -> (IF Given[p[2]].what = "bytes" THEN BytesScript(Given[p[2]]) ELSE DrawnScript(Given[p[2]])) [] p[1] = "code" -> CodeScript(p[2]) [] p[1] = "lack" -> SubSeq(CodeScript(p[2]), 2, 2) [] p[1] = "image" -> ImageScript(p[2]) [] p[1] = "big" -> BigScript(p[2]) [] p[1] = "huge" -> HugeScript(p[2]) [] p[1] = "hugev" -> CodeScript(HugeVec(p[2])) [] p[1] = "extreme" -> ExtremeScript(p[2])
               [] p[1] = "empty" -> EmptyScript(p[2]) [] p[1] = "flags" -> FlagScript(p[2], p[3]) [] p[1] = "ascii" -> <<[op |-> "aenc", t |-> p[2][1], v |-> p[2][2]]>>
Run(ops) == LET RECURSIVE Go(_, _, _)
                Go(st, i, h) == IF i > Len(ops) THEN h ELSE LET a == CodecStep(st, ops[i]) IN Go(a.st, i + 1, Append(h, [op |-> ops[i], exp |-> a.obs]))
            IN Go(NoImage, 1, <<>>)
Init == pick \in Picks /\ hist = <<>>
Next == hist = <<>> /\ pick' = pick /\ hist' = Run(Script(pick))
Spec == Init /\ [][Next]_vars
Emit == PrintT("@@" \o ToJson(hist'))
view == <<pick, Len(hist)>>

(* ---- properties of the specification itself ---- *)
(* one value, one encoding; bytes are bytes; sizes are the types' *)
Size(t) == CASE t \in {"u8", "chr", "bool"} -> 1 [] t = "i16" -> 2 [] t \in {"i32", "f32"} -> 4 [] t = "f64" -> 8
ASSUME Mode = "code" => \A t \in Types : \A a \in Vals(t) : Len(a.bytes) = Size(t) /\ \A i \in DOMAIN a.bytes : a.bytes[i] \in 0..255
ASSUME Mode = "code" => \A t \in {"i16", "i32", "u8"} : \A a, b \in Vals(t) : (a.text = b.text) <=> (a.bytes = b.bytes)
ASSUME F32(4) = <<63, 128, 0, 0>> /\ F32(-10) = <<192, 32, 0, 0>> /\ F64(4) = <<63, 240, 0, 0, 0, 0, 0, 0>> /\ F64(-13) = <<192, 10, 0, 0, 0, 0, 0, 0>> /\ I16(-2) = <<255, 254>> /\ I32(-2) = <<255, 255, 255, 254>>
ASSUME Mode = "code" => \A t \in {"i16", "i32", "u8", "chr", "bool"} : \A a \in Vals(t) : TextOf(t, a.bytes) = a.text
ASSUME TextOf("f32", F32(4)) = "0x1.000000p0" /\ TextOf("f32", F32(-10)) = "-0x1.400000p1" /\ TextOf("f64", F64(7)) = "0x1.c000000000000p0" /\ TextOf("f64", <<127, 240, 0, 0, 0, 0, 0, 0>>) = "inf"
       /\ TextOf("f32", <<0, 0, 0, 1>>) = "0x0.000002p-126" /\ TextOf("f64", F64(2000000003)) = "0x1.dcd6500c00000p28"
InvMedian == \A i \in DOMAIN hist : hist[i].op.op = "stat" => Cardinality(Medians(hist[i].op.q)) \in {1, 2} /\ (Len(hist[i].op.q) % 2 = 1 => Cardinality(Medians(hist[i].op.q)) = 1)
InvVar == \A i \in DOMAIN hist : hist[i].op.op = "stat" /\ "var" \in DOMAIN hist[i].exp => hist[i].exp.var.q[1] >= 0
=============================================================================
