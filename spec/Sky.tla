----------------------------------- MODULE Sky -----------------------------------
(* Positions on the sky: the pairs of angles a position has in a coordinate system (horizon, hour angle, right ascension,
   ecliptic, galactic), and the rotations that carry it from one system to another. *)
EXTENDS Terms, FiniteSets, TLC
R(st, obs) == [st |-> st, obs |-> obs]

(* ---- coordinates: a register holds two angles, each in the unit of its type, in thousandths ---- *)
Kinds == [horizon |-> <<"Horizon Coordinate", "Altitude", "Azimuth">>,
          ha |-> <<"Equatorial Coordinate", "Hour Angle", "Declination">>,
          ra |-> <<"Equatorial Coordinate", "Right Ascension", "Declination">>,
          ecliptic |-> <<"Ecliptic Coordinate", "Ecliptic Latitude", "Ecliptic Longitude">>,
          galactic |-> <<"Galactic Coordinate", "Galactic Latitude", "Galactic Longitude">>]
(* Units of the two angles and the number of decimals they keep. *)
Types == [rr |-> <<"rad", "rad", 11>>, dd |-> <<"deg", "deg", 11>>, rd |-> <<"rad", "deg", 11>>, dr |-> <<"deg", "rad", 11>>,
          fr |-> <<"rad", "rad", 5>>, fd |-> <<"deg", "deg", 5>>]
Value(n) == Rat(n, 1000)
InRadians(u, n) == IF u = "deg" THEN Degrees(Value(n)) ELSE Value(n)
Shown(g) ==
    LET k == Kinds[g.kind] t == Types[g.type]
    IN k[1] \o " (" \o k[2] \o ": # " \o t[1] \o ", " \o k[3] \o ": # " \o t[2] \o ")"
Look(g) ==
    LET t == Types[g.type]
    IN [v |-> <<About(Value(g.v[1]), t[3]), About(Value(g.v[2]), t[3])>>,
        pair |-> <<About(Value(g.v[1]), t[3]), About(Value(g.v[2]), t[3])>>,
        point |-> <<About(InRadians(t[1], g.v[1]), t[3]), About(InRadians(t[2], g.v[2]), t[3])>>,
        text |-> Shown(g), nums |-> <<About(Value(g.v[1]), 5), About(Value(g.v[2]), 5)>>]
CoordStep(regs, op) ==
    CASE op.op = "coord" -> LET g == [kind |-> op.kind, type |-> op.type, v |-> <<op.a, op.b>>] IN R([regs EXCEPT ![op.r] = g], [res |-> "ok"])
      [] op.op = "set1" -> R([regs EXCEPT ![op.r].v[1] = op.a], [res |-> "ok"])
      [] op.op = "set2" -> R([regs EXCEPT ![op.r].v[2] = op.a], [res |-> "ok"])
      [] op.op = "setboth" -> R([regs EXCEPT ![op.r].v = <<op.a, op.b>>], [res |-> "ok"])
      [] op.op = "copy" -> R([regs EXCEPT ![op.q] = regs[op.r]], [res |-> "ok"])
      [] op.op = "look" -> R(regs, Look(regs[op.r]))

(* ---- rotations ---- *)
(* What each conversion does to the direction v, given the cosine c and the sine s of its angle.  The operators are
   parameters, so that the same definition is used with terms (for the code) and with integers (for the laws). *)
Rot(k, c, s, one, v, Add(_, _), Sub(_, _), Mul(_, _)) ==
    LET x == v[1] y == v[2] z == v[3]
    IN CASE k = "hh" -> <<Sub(Mul(c, z), Mul(s, x)), Sub(0, Mul(one, y)), Add(Mul(c, x), Mul(s, z))>>
         [] k = "hr" -> <<Add(Mul(c, x), Mul(s, y)), Sub(Mul(s, x), Mul(c, y)), Mul(one, z)>>
         [] k = "er" -> <<Mul(one, x), Sub(Mul(c, y), Mul(s, z)), Add(Mul(s, y), Mul(c, z))>>
         [] k = "re" -> <<Mul(one, x), Add(Mul(c, y), Mul(s, z)), Sub(Mul(c, z), Mul(s, y))>>
(* The galactic system: rows are the axes of the equatorial system (1950.0) in galactic coordinates. *)
Gal == << <<-669887, 4927285, -8676008>>, <<-8727558, -4503470, -1883746>>, <<-4835389, 7445846, 4601998>> >>
Row(m, i, v) == Plus(Plus(Times(Dec(m[i][1], 7), v[1]), Times(Dec(m[i][2], 7), v[2])), Times(Dec(m[i][3], 7), v[3]))
Col(m, i, v) == Plus(Plus(Times(Dec(m[1][i], 7), v[1]), Times(Dec(m[2][i], 7), v[2])), Times(Dec(m[3][i], 7), v[3]))
Angled == {"hh", "hr", "er", "re"}
Names == [hh |-> "Equatorial Coordinate Hour Angle to and from Horizon",
          hr |-> "Equatorial Coordinate Hour Angle to and from Equatorial Coordinate Right Ascension",
          er |-> "Ecliptic to Equatorial Coordinate Right Ascension", re |-> "Equatorial Coordinate Right Ascension to Ecliptic",
          gr |-> "Galactic to Equatorial Coordinate Right Ascension", rg |-> "Equatorial Coordinate Right Ascension to Galactic"]
Turn(k, a, v) == IF k = "gr" THEN [i \in 1..3 |-> Row(Gal, i, v)]
                 ELSE IF k = "rg" THEN [i \in 1..3 |-> Col(Gal, i, v)]
                 ELSE Rot(k, Cos(a), Sin(a), 1, v, Plus, Minus, Times)
Unit(u, v) == <<Times(Cos(u), Cos(v)), Times(Sin(u), Cos(v)), Sin(v)>>
E3 == << <<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>> >>
(* Angles are [u, n]: n thousandths of u. *)
Angle(a) == InRadians(a.u, a.n)
Near(v, t) == [i \in 1..3 |-> AboutTo(v[i], t, 1)]
(* Of a direction: its components, and the two angles extract_coordinates finds, given as the sine of the second and as
   the projection on the first two axes in the direction of the first.  ok: the angles are within -pi..pi and -pi/2..pi/2. *)
Dir(d) == [vec |-> Near(d.v, d.t), z |-> AboutTo(Clamp(d.v[3]), 6, 1), xy |-> <<AboutTo(d.v[1], d.t, 1), AboutTo(d.v[2], d.t, 1)>>, ok |-> TRUE]
(* mat: the three columns of the conversion.  A conversion in single precision (f) is only looked at, not applied. *)
DirStep(d, op) ==
    CASE op.op = "dir" -> LET n == [v |-> Unit(Angle(op.a), Angle(op.b)), t |-> IF op.f THEN 6 ELSE 10] IN R(n, Dir(n))
      [] op.op = "rot" -> LET n == [v |-> Turn(op.k, Angle(op.a), d.v), t |-> IF d.t = 10 THEN 9 ELSE d.t] IN R(n, Dir(n))
      [] op.op = "mat" -> LET t == IF op.f THEN 6 ELSE 10
                          IN R(d, [cols |-> [i \in 1..3 |-> Near(Turn(op.k, Angle(op.a), E3[i]), t)], name |-> Names[op.k]])
      [] op.op = "again" -> LET n == [d EXCEPT !.t = 6] IN R(n, Dir(n))

(* ---- laws, on integers: angles with rational cosine and sine ---- *)
Triples == {<<3, 4, 5>>, <<-3, 4, 5>>, <<4, -3, 5>>, <<5, 12, 13>>, <<-12, -5, 13>>, <<1, 0, 1>>, <<0, 1, 1>>, <<-1, 0, 1>>, <<0, -1, 1>>, <<20, 21, 29>>}
IRot(k, p, v) == Rot(k, p[1], p[2], p[3], v, LAMBDA a, b : a + b, LAMBDA a, b : a - b, LAMBDA a, b : a * b)
Scaled(n, v) == [i \in 1..3 |-> n * v[i]]
Sq(v) == v[1] * v[1] + v[2] * v[2] + v[3] * v[3]
Inverse == [hh |-> "hh", hr |-> "hr", er |-> "re", re |-> "er"]
Laws(v) == \A k \in Angled, p \in Triples :
               /\ IRot(Inverse[k], p, IRot(k, p, v)) = Scaled(p[3] * p[3], v)       \* and back
               /\ Sq(IRot(k, p, v)) = p[3] * p[3] * Sq(v)                           \* lengths are kept
(* The galactic axes are orthonormal, to the digits that are given. *)
K(i, j) == Gal[i][j] \div 1000
GalDot(i, j) == K(i, 1) * K(j, 1) + K(i, 2) * K(j, 2) + K(i, 3) * K(j, 3)
Within(x, lo, hi) == lo <= x /\ x <= hi
ASSUME \A i, j \in 1..3 : IF i = j THEN Within(GalDot(i, j), 99950000, 100050000) ELSE Within(GalDot(i, j), -50000, 50000)
==================================================================================
