-------------------------------- MODULE Codec --------------------------------
(* What numbers look like as FITS data: big-endian two's complement integers and IEEE floats, one after another; and    *)
(* what an image's pixels, read from such data, are.                                                                     *)
EXTENDS Text, TLC, FiniteSets
UNSPEC == "*"
FAIL == "!"
Ok(o) == [res |-> "ok"] @@ o

(* --------------------------------- numbers ------------------------------- *)
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
Abs(x) == IF x < 0 THEN 0 - x ELSE x
B(x, k) == (x \div Pow2(8 * k)) % 256                                \* byte k of x >= 0, the lowest is byte 0
I16(k) == LET u == IF k < 0 THEN k + 65536 ELSE k IN <<B(u, 1), B(u, 0)>>
(* two's complement by complementing, as TLC's integers are 32 bits wide *)
I32(k) == IF k >= 0 THEN <<B(k, 3), B(k, 2), B(k, 1), B(k, 0)>> ELSE LET u == 0 - (k + 1) IN <<255 - B(u, 3), 255 - B(u, 2), 255 - B(u, 1), 255 - B(u, 0)>>
Log2(n) == CHOOSE e \in 0..30 : Pow2(e) <= n /\ (e = 30 \/ n < Pow2(e + 1))
(* q quarters as IEEE numbers; |q| < 2^20 *)
F32(q) == IF q = 0 THEN <<0, 0, 0, 0>>
          ELSE LET a == Abs(q)  e == Log2(a)  x == e - 2 + 127  m == (a - Pow2(e)) * Pow2(23 - e)
               IN <<(IF q < 0 THEN 128 ELSE 0) + x \div 2, (x % 2) * 128 + B(m, 2), B(m, 1), B(m, 0)>>
(* ... and |q| < 2^31: what does not fit into the upper 20 bits of the fraction goes into the next 16 *)
F64(q) == IF q = 0 THEN <<0, 0, 0, 0, 0, 0, 0, 0>>
          ELSE LET a == Abs(q)  e == Log2(a)  x == e - 2 + 1023  f == a - Pow2(e)
                   m == IF e <= 20 THEN f * Pow2(20 - e) ELSE f \div Pow2(e - 20)
                   r == IF e <= 20 THEN 0 ELSE (f % Pow2(e - 20)) * Pow2(36 - e)
               IN <<(IF q < 0 THEN 128 ELSE 0) + x \div 16, (x % 16) * 16 + B(m, 2), B(m, 1), B(m, 0), B(r, 1), B(r, 0), 0, 0>>
QuarterText(q) == LET a == Abs(q) IN (IF q < 0 THEN "-" ELSE "") \o Dec(a \div 4) \o (<<"", ".25", ".5", ".75">>)[1 + (a % 4)]
(* Values as [text, bytes].  The extremes are written out. *)
Num(t, q) == CASE t = "i16" -> [text |-> Dec(q), bytes |-> I16(q)] [] t = "i32" -> [text |-> Dec(q), bytes |-> I32(q)] [] t = "u8" -> [text |-> Dec(q), bytes |-> <<q>>]
               [] t = "f32" -> [text |-> QuarterText(q), bytes |-> F32(q)] [] t = "f64" -> [text |-> QuarterText(q), bytes |-> F64(q)]
               [] t = "chr" -> [text |-> Dec(q), bytes |-> <<q>>] [] t = "bool" -> [text |-> IF q = 1 THEN "T" ELSE "F", bytes |-> <<IF q = 1 THEN 84 ELSE 70>>]
Extremes(t) == CASE t = "i16" -> {[text |-> "32767", bytes |-> <<127, 255>>], [text |-> "-32768", bytes |-> <<128, 0>>]}
                 [] t = "i32" -> {[text |-> "2147483647", bytes |-> <<127, 255, 255, 255>>], [text |-> "-2147483648", bytes |-> <<128, 0, 0, 0>>], [text |-> "305419896", bytes |-> <<18, 52, 86, 120>>]}
                 [] t = "f32" -> {[text |-> "inf", bytes |-> <<127, 128, 0, 0>>], [text |-> "-inf", bytes |-> <<255, 128, 0, 0>>], [text |-> "1.17549435e-38", bytes |-> <<0, 128, 0, 0>>], [text |-> "1.40129846e-45", bytes |-> <<0, 0, 0, 1>>],
                                  [text |-> "3.40282347e+38", bytes |-> <<127, 127, 255, 255>>], [text |-> "0.1", bytes |-> <<61, 204, 204, 205>>], [text |-> "nan", bytes |-> <<127, 192, 0, 0>>], [text |-> "-0", bytes |-> <<128, 0, 0, 0>>]}
                 [] t = "f64" -> {[text |-> "inf", bytes |-> <<127, 240, 0, 0, 0, 0, 0, 0>>], [text |-> "-inf", bytes |-> <<255, 240, 0, 0, 0, 0, 0, 0>>], [text |-> "0.1", bytes |-> <<63, 185, 153, 153, 153, 153, 153, 154>>],
                                  [text |-> "1.7976931348623157e+308", bytes |-> <<127, 239, 255, 255, 255, 255, 255, 255>>], [text |-> "5e-324", bytes |-> <<0, 0, 0, 0, 0, 0, 0, 1>>],
                                  [text |-> "2.2250738585072014e-308", bytes |-> <<0, 16, 0, 0, 0, 0, 0, 0>>], [text |-> "nan", bytes |-> <<127, 248, 0, 0, 0, 0, 0, 0>>], [text |-> "-0", bytes |-> <<128, 0, 0, 0, 0, 0, 0, 0>>]}
                 [] OTHER -> {}

(* The other way: the number that given bytes are.  Reals are written with a hexadecimal fraction, digit for digit.      *)
Hex == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>
HexByte(b) == Hex[1 + (b \div 16)] \o Hex[1 + (b % 16)]
IeeeText(neg, x, top, bias, frac, zero) ==
    (IF neg THEN "-" ELSE "") \o (IF x = top THEN (IF zero THEN "inf" ELSE "nan")
                                  ELSE IF x = 0 THEN "0x0." \o frac \o "p" \o Dec(1 - bias) ELSE "0x1." \o frac \o "p" \o Dec(x - bias))
IsNan(t, b) == CASE t = "f32" -> b[1] % 128 = 127 /\ b[2] >= 128 /\ (b[2] # 128 \/ b[3] # 0 \/ b[4] # 0)
                 [] t = "f64" -> b[1] % 128 = 127 /\ b[2] >= 240 /\ (b[2] # 240 \/ \E i \in 3..8 : b[i] # 0)
                 [] OTHER -> FALSE
TextOf(t, b) ==
    CASE t \in {"u8", "chr"} -> Dec(b[1])
      [] t = "bool" -> IF b[1] = 84 THEN "T" ELSE "F"
      [] t = "i16" -> Dec(IF b[1] < 128 THEN b[1] * 256 + b[2] ELSE (b[1] - 256) * 256 + b[2])
      [] t = "i32" -> IF b = <<128, 0, 0, 0>> THEN "-2147483648"
                      ELSE IF b[1] < 128 THEN Dec(((b[1] * 256 + b[2]) * 256 + b[3]) * 256 + b[4])
                      ELSE Dec(0 - (((255 - b[1]) * 256 + 255 - b[2]) * 256 + 255 - b[3]) * 256 - (255 - b[4]) - 1)
      [] t = "f32" -> IF IsNan(t, b) THEN "nan"
                      ELSE LET m == 2 * (((b[2] % 128) * 256 + b[3]) * 256 + b[4])
                           IN IeeeText(b[1] >= 128, (b[1] % 128) * 2 + b[2] \div 128, 255, 127, HexByte(B(m, 2)) \o HexByte(B(m, 1)) \o HexByte(B(m, 0)), m = 0)
      [] t = "f64" -> IF IsNan(t, b) THEN "nan"
                      ELSE IeeeText(b[1] >= 128, (b[1] % 128) * 16 + b[2] \div 16, 2047, 1023,
                                    Hex[1 + (b[2] % 16)] \o HexByte(b[3]) \o HexByte(b[4]) \o HexByte(b[5]) \o HexByte(b[6]) \o HexByte(b[7]) \o HexByte(b[8]),
                                    b[2] % 16 = 0 /\ \A i \in 3..8 : b[i] = 0)
Value(t, b) == [text |-> TextOf(t, b), bytes |-> b]
RECURSIVE Join(_, _, _)
Join(ss, i, j) == IF i > j THEN <<>> ELSE IF i = j THEN ss[i] ELSE LET m == (i + j) \div 2 IN Join(ss, i, m) \o Join(ss, m + 1, j)
Bytes(vs) == LET b == [i \in DOMAIN vs |-> vs[i].bytes] IN Join(b, 1, Len(vs))
Texts(vs) == [i \in DOMAIN vs |-> vs[i].text]

(* ---------------------------------- images ------------------------------- *)
PixType(bp) == CASE bp = 8 -> "u8" [] bp = 16 -> "i16" [] bp = 32 -> "i32" [] bp = -32 -> "f32" [] bp = -64 -> "f64"
NoImage == [bp |-> 0, w |-> 0, pix |-> <<>>]
(* Statistics over pixels known as numbers: q in quarters for floats, whole for the others, less a base (so that large  *)
(* pixels can be averaged with small numbers).                                                                          *)
Unit(bp) == IF bp < 0 THEN 4 ELSE 1
Sum(s, n) == LET RECURSIVE Of(_, _)
                 Of(i, j) == IF i > j THEN 0 ELSE IF i = j THEN s[i] ELSE LET m == (i + j) \div 2 IN Of(i, m) + Of(m + 1, j)
             IN Of(1, n)
MaxOf(s) == CHOOSE x \in {s[i] : i \in DOMAIN s} : \A i \in DOMAIN s : s[i] <= x
MinOf(s) == CHOOSE x \in {s[i] : i \in DOMAIN s} : \A i \in DOMAIN s : s[i] >= x
(* how many are below, and how many below or equal *)
Mid(s, x) == LET lo == Cardinality({i \in DOMAIN s : s[i] < x})  le == Cardinality({i \in DOMAIN s : s[i] <= x}) IN 2 * lo <= Len(s) /\ 2 * le >= Len(s)
Medians(s) == {x \in {s[i] : i \in DOMAIN s} : Mid(s, x)}
Mean(q, u) == [q |-> <<Sum(q, Len(q)), u * Len(q)>>]
Var(q, u) == LET n == Len(q)  sq == [i \in DOMAIN q |-> q[i] * q[i]]  a == Sum(q, n)
             IN [q |-> <<n * Sum(sq, n) - a * a, u * u * n * (n - 1)>>]

(* ------------------------------- the system ------------------------------ *)
CodecStep(s, op) ==
    LET Same(o) == [st |-> s, obs |-> o]
        im == s
    IN CASE op.op = "enc" -> Same(Ok([bytes |-> Bytes(op.v)]))
         [] op.op = "dec" -> Same(Ok([vals |-> Texts(op.v)]))
         [] op.op = "trip" -> Same(Ok([bytes |-> Bytes(op.v)]))                                                  \* decoded and encoded again
         [] op.op = "less" -> Same([res |-> FAIL])                                                                \* some of the bytes missing
         [] op.op = "hduout" -> Same(Ok([data |-> Bytes(im.pix), whole |-> TRUE]))                               \* written to a file as an HDU
         [] op.op = "aenc" -> Same(Ok([text |-> op.v]))
         [] op.op = "image" -> [st |-> [bp |-> op.bp, w |-> IF op.axes = <<>> THEN Len(op.v) ELSE op.axes[1], pix |-> op.v], obs |-> Ok([size |-> Len(op.v)])]
         [] op.op = "pix" -> Same(Ok([val |-> im.pix[op.x * im.w + op.y + 1].text]))                             \* row x, column y, from 0
         [] op.op = "out" -> Same(Ok([bytes |-> Bytes(im.pix)]))
         [] op.op = "copy" -> Same(Ok([size |-> Len(im.pix)]))
         [] op.op = "stat" -> Same(Ok(LET q == op.q  u == Unit(im.bp)  T(x) == Num(PixType(im.bp), IntVal(op.base) * u + x).text
                                      IN [mean |-> Mean(q, u), base |-> op.base, max |-> T(MaxOf(q)), min |-> T(MinOf(q)), median |-> [in |-> {T(x) : x \in Medians(q)}]]
                                         @@ (IF Len(q) > 1 /\ "novar" \notin DOMAIN op THEN [var |-> Var(q, u)] ELSE [base |-> op.base])))
         [] op.op = "nostat" -> Same(Ok([zero |-> TRUE]))                                                            \* of no pixels, all are 0
         [] op.op = "other" -> Same([res |-> FAIL])                                                               \* asked for pixels of another type than it has
         [] op.op = "minmax" -> Same(Ok([max |-> op.max, min |-> op.min]))
         [] op.op = "flags" -> Same(Ok([simple |-> op.simple, extend |-> op.extend = "T"]))
=============================================================================
