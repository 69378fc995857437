----------------------------------- MODULE Vec -----------------------------------
(* Vectors: positions ("representations") and motions ("differentials") in Cartesian (C), spherical (S), spherical
   equatorial (E) and, for motions, spherical with the cosine of the latitude in the second angle (D), in any units.
   A register holds the type, the components as they were set (thousandths of their units; <<>> after a conversion or a
   calculation), the vector itself as three terms in SI units, the scale s of the numbers it was calculated from (what its
   rounding errors are relative to), whether its angles are known to be in their principal range, whether its distance was
   given as negative (the opposite direction; what its magnitude is then is left open), and an identity that copies share. *)
EXTENDS Terms, FiniteSets, TLC
R(st, obs) == [st |-> st, obs |-> obs]
T(k, u) == [kind |-> k, u |-> u]
Types == [Cm |-> T("C", <<"m", "m", "m">>), Cx |-> T("C", <<"m", "cm", "km">>), Cf |-> T("C", <<"m", "m", "m">>),
          Sd |-> T("S", <<"deg", "deg", "m">>), Sx |-> T("S", <<"rad", "deg", "km">>), Sf |-> T("S", <<"rad", "rad", "m">>),
          Ed |-> T("E", <<"deg", "deg", "m">>), Ex |-> T("E", <<"deg", "rad", "km">>), Ef |-> T("E", <<"rad", "deg", "m">>),
          Dd |-> T("D", <<"deg", "deg", "m">>), Dx |-> T("D", <<"rad", "deg", "km">>), Df |-> T("D", <<"rad", "rad", "m">>)]
Single(t) == t \in {"Cf", "Sf", "Ef", "Df"}
Kind(t) == Types[t].kind
Value(n) == Rat(n, 1000)
(* n in SI units, given in the unit u *)
SI(u, x) == CASE u \in {"m", "rad"} -> x [] u = "cm" -> Times(x, Rat(1, 100)) [] u = "km" -> Times(x, 1000) [] u = "deg" -> Degrees(x)
InUnit(u, x) == CASE u \in {"m", "rad"} -> x [] u = "cm" -> Times(x, 100) [] u = "km" -> Over(x, 1000)
(* Where components in SI units point to: azimuth, then the angle from the z axis (S, D) or from the xy plane (E). *)
Polar(a, b, r) == <<Times(r, Times(Cos(a), Sin(b))), Times(r, Times(Sin(a), Sin(b))), Times(r, Cos(b))>>
Elev(a, b, r) == <<Times(r, Times(Cos(a), Cos(b))), Times(r, Times(Sin(a), Cos(b))), Times(r, Sin(b))>>
Geo(kind, x) == CASE kind = "C" -> x
                  [] kind = "S" -> Polar(x[1], x[2], x[3])
                  [] kind = "E" -> Elev(x[1], x[2], x[3])
                  [] kind = "D" -> Polar(x[1], Over(x[2], Cos(x[1])), x[3])
InSI(t, c) == [i \in 1..3 |-> SI(Types[t].u[i], Value(c[i]))]
Size(kind, x) == IF kind = "C" THEN Norm(x) ELSE Most(<<x[3]>>)
Set(t, c, id) == LET x == InSI(t, c) IN [type |-> t, c |-> c, v |-> Geo(Kind(t), x), s |-> Size(Kind(t), x), normal |-> FALSE, neg |-> Kind(t) # "C" /\ c[3] < 0, id |-> id]
(* The same vector in another type.  Where the azimuth is near a right angle D keeps little of the second angle. *)
Lossy(v, s) == Over(Times(s, Norm(<<v[1], v[2]>>)), Most(<<v[1], Times(s, Dec(1, 9)), Dec(1, 30)>>))
Family(t) == IF Kind(t) = "D" THEN "S" ELSE Kind(t)
As(t, f, id) == [type |-> t, c |-> <<>>, v |-> f.v, s |-> IF Kind(t) = "D" THEN Most(<<f.s, Lossy(f.v, f.s)>>) ELSE f.s,
                 normal |-> IF Family(t) = Family(f.type) THEN f.normal ELSE TRUE, neg |-> Family(t) = Family(f.type) /\ f.neg, id |-> id]
Calc(t, v, s, id) == [type |-> t, c |-> <<>>, v |-> v, s |-> IF Kind(t) = "D" THEN Most(<<s, Lossy(v, s)>>) ELSE s, normal |-> TRUE, neg |-> FALSE, id |-> id]
(* A point of Boost.Geometry: its numbers are the components in the unit of the third one, angles as its system has them. *)
Systems == [C |-> <<"C", "rad">>, Sr |-> <<"S", "rad">>, Sd |-> <<"S", "deg">>, Er |-> <<"E", "rad">>, Ed |-> <<"E", "deg">>]
FromPoint(t, sys, c, id) ==
    LET k == Systems[sys][1] a == Systems[sys][2] u == Types[t].u
        x == IF k = "C" THEN [i \in 1..3 |-> SI(IF Kind(t) = "C" THEN u[i] ELSE u[3], Value(c[i]))] ELSE <<SI(a, Value(c[1])), SI(a, Value(c[2])), SI(u[3], Value(c[3]))>>
    IN [type |-> t, c |-> <<>>, v |-> Geo(k, x), s |-> Size(k, x), normal |-> TRUE, neg |-> FALSE, id |-> id]

(* The algebra, over any kind of numbers: A adds, S subtracts, M multiplies. *)
DotOf(A(_, _), M(_, _), u, v) == A(A(M(u[1], v[1]), M(u[2], v[2])), M(u[3], v[3]))
CrossOf(S(_, _), M(_, _), u, v) == <<S(M(u[2], v[3]), M(u[3], v[2])), S(M(u[3], v[1]), M(u[1], v[3])), S(M(u[1], v[2]), M(u[2], v[1]))>>
SumOf(A(_, _), u, v) == [i \in 1..3 |-> A(u[i], v[i])]

(* Decimals kept: angles near an axis are only good to the root of the precision of the numbers. *)
Tol(f) == IF f.c # <<>> THEN IF Single(f.type) THEN 5 ELSE 10 ELSE IF Single(f.type) THEN 2 ELSE 6
Near(x, f) == AboutTo(x, Tol(f), f.s)
Tol2(f, g) == IF Tol(f) < Tol(g) THEN Tol(f) ELSE Tol(g)
Rough(f) == IF Single(f.type) THEN 2 ELSE 6
Near2(x, f, g) == AboutTo(x, Tol2(f, g), Times(f.s, g.s))
Digits(t) == IF Single(t) THEN 5 ELSE 11
Named == [C |-> "Cartesian Representation", S |-> "Spherical Representation", E |-> "Spherical Equatorial Representation"]
Sym == [m |-> "m", cm |-> "cm", km |-> "km", rad |-> "rad", deg |-> "deg"]
Text(f) == LET u == Types[f.type].u IN Named[Kind(f.type)] \o " ( # " \o Sym[u[1]] \o " , # " \o Sym[u[2]] \o " , # " \o Sym[u[3]] \o " )"
Comps(f) == IF f.c = <<>> THEN "*" ELSE [i \in 1..3 |-> About(Value(f.c[i]), Digits(f.type))]
Stored(f) == IF f.c = <<>> THEN "*" ELSE [i \in 1..3 |-> About(IF Types[f.type].u[i] = "deg" THEN Degrees(Value(f.c[i])) ELSE Value(f.c[i]), Digits(f.type))]
Look(f, text) ==
    LET o == [c |-> Comps(f), tuple |-> TRUE, geo |-> [i \in 1..3 |-> Near(f.v[i], f)], range |-> IF f.normal THEN TRUE ELSE "*"]
    IN IF text THEN o @@ [text |-> Text(f), nums |-> Comps(f), point |-> Stored(f)] ELSE o
(* Known to be nonzero *)
Nonzero(f) == f.c # <<>> /\ (IF Kind(f.type) = "C" THEN f.c # <<0, 0, 0>> ELSE f.c[3] > 0)
Direction(f, n) == IF Nonzero(f) THEN [i \in 1..3 |-> AboutTo(Over(f.v[i], Norm(f.v)), n, 1)] ELSE "*"
(* Equality of one type: of the same components, not of different ones with angles strictly inside their range. *)
Inside(t, c) ==
    LET u == Types[t].u w == [i \in 1..2 |-> IF u[i] = "deg" THEN 179999 ELSE 3140]
    IN /\ c[3] > 0 /\ -w[1] < c[1] /\ c[1] < w[1]
       /\ IF Kind(t) = "E" THEN -w[2] < 2 * c[2] /\ 2 * c[2] < w[2] ELSE 0 < c[2] /\ c[2] < w[2]
Equal(f, g) ==
    IF f.id = g.id THEN TRUE
    ELSE IF f.c = <<>> \/ g.c = <<>> THEN "*"
    ELSE IF f.c = g.c THEN TRUE
    ELSE IF Kind(f.type) = "C" THEN FALSE
    ELSE IF Single(f.type) \/ Kind(f.type) = "D" THEN "*"
    ELSE IF Inside(f.type, f.c) /\ Inside(f.type, g.c) THEN FALSE ELSE "*"
(* The unit of a differential's plain numbers, when it has one. *)
Uniform(t) == Kind(t) \in {"S", "E"} \/ t \in {"Cm", "Cf"}

(* st: [reg, n]; Text: whether looking prints (positions) or not (motions). *)
VecStep(st, op, text) ==
    LET id == st.n + 1
        f == st.reg[op.r]
        To(q, x) == R([reg |-> [st.reg EXCEPT ![q] = x], n |-> id], [res |-> "ok"])
        See(o) == R(st, o)
    IN CASE op.op = "new" -> To(op.r, Set(op.type, op.c, id))
         [] op.op = "point" -> To(op.r, FromPoint(op.type, op.sys, op.c, id))
         [] op.op = "put" -> IF f.c # <<>> THEN To(op.r, Set(f.type, [f.c EXCEPT ![op.k] = op.v], id))
                             ELSE LET x == SI(Types[f.type].u[op.k], Value(op.v)) IN To(op.r, [f EXCEPT !.v[op.k] = x, !.s = Plus(f.s, Most(<<x>>)), !.id = id])   \* C only
         [] op.op = "putall" -> To(op.r, Set(f.type, op.c, id))
         [] op.op = "copy" -> R([st EXCEPT !.reg[op.q] = f], [res |-> "ok"])
         [] op.op = "conv" -> To(op.q, IF op.how = "to" THEN [As(op.type, f, id) EXCEPT !.normal = (Kind(op.type) # "C" \/ @)] ELSE As(op.type, f, id))
         [] op.op \in {"sum", "plus"} -> LET g == st.reg[op.q] IN To(op.p, Calc(f.type, SumOf(Plus, f.v, g.v), Plus(f.s, g.s), id))
         [] op.op = "mean" -> LET g == st.reg[op.q] IN To(op.p, Calc(f.type, [i \in 1..3 |-> Over(Plus(f.v[i], g.v[i]), 2)], Plus(f.s, g.s), id))
         [] op.op = "look" -> See(Look(f, text))
         [] op.op = "see" -> See([geo |-> [i \in 1..3 |-> Near(f.v[i], f)]])
         [] op.op = "eq" -> See([eq |-> Equal(f, st.reg[op.q])])
         [] op.op = "dot" -> LET g == st.reg[op.q] IN See([dot |-> Near2(DotOf(Plus, Times, f.v, g.v), f, g)])
         [] op.op = "cross" -> LET g == st.reg[op.q] x == CrossOf(Minus, Times, f.v, g.v) IN See([cross |-> [i \in 1..3 |-> AboutTo(x[i], Rough(f), Times(f.s, g.s))]])
         [] op.op = "mag" -> See([mag |-> IF f.neg THEN "*" ELSE Near(Norm(f.v), f)])
         [] op.op = "unit" -> See([unit |-> Direction(f, Tol(f))])
         [] op.op = "times" -> See([geo |-> [i \in 1..3 |-> AboutTo(Times(f.v[i], Value(op.t)), Rough(f), Times(f.s, Most(<<Value(op.t)>>)))]])
         [] op.op = "speed" -> See([mag |-> IF Uniform(f.type) /\ ~f.neg THEN AboutTo(InUnit(Types[f.type].u[3], Norm(f.v)), Tol(f), InUnit(Types[f.type].u[3], f.s)) ELSE "*"])
         [] op.op = "heading" -> See([unit |-> IF Uniform(f.type) /\ Kind(op.type) # "D" THEN Direction(f, Rough(f)) ELSE "*"])
==================================================================================
