--------------------------------- MODULE Terms ---------------------------------
(* Exact real numbers as terms.  TLC's integers have 32 bits and it has no fractions, so a number that is not a small
   integer is written down as the term that defines it; tools/vf.py evaluates terms exactly (rationals) or to double
   precision (roots, angles) when it compares them with what the code returned.  A term is an integer or [f, a]. *)
EXTENDS Integers, Sequences
Fn(f, a) == [f |-> f, a |-> a]
Rat(n, d) == Fn("div", <<n, d>>)                      \* n / d
Dec(n, k) == Fn("dec", <<n, k>>)                      \* n * 10^-k
Plus(a, b) == Fn("add", <<a, b>>)
Minus(a, b) == Fn("sub", <<a, b>>)
Times(a, b) == Fn("mul", <<a, b>>)
Over(a, b) == Fn("div", <<a, b>>)
Sqrt(a) == Fn("sqrt", <<a>>)
Norm(a) == Fn("norm", a)                              \* the root of the sum of squares of a sequence of terms
Atan2(y, x) == Fn("atan2", <<y, x>>)
Pi == Fn("pi", <<>>)
Cos(a) == Fn("cos", <<a>>)                            \* of radians
Sin(a) == Fn("sin", <<a>>)
Clamp(a) == Fn("clamp", <<a>>)                        \* a, or the end of -1..1 it lies beyond
Degrees(a) == Times(a, Over(Pi, 180))                 \* in radians
Most(a) == Fn("max", a)                                \* the largest magnitude of a sequence of terms
(* A term an observation has to agree with: to 10^-k of its magnitude or of the scale s, whichever is larger. *)
About(e, k) == [e |-> e, t |-> k]
AboutTo(e, k, s) == [e |-> e, t |-> k, s |-> s]
(* The same on a circle of length m, the observation being reduced to lo <= x < lo + m. *)
Around(e, k, m, lo) == [e |-> e, t |-> k, m |-> m, lo |-> lo]
================================================================================
