---------------------------------- MODULE Frame ----------------------------------
(* Frames: a position (two angles and a distance) and its motion (two angles, the second including the cosine of the
   latitude, and a radial velocity) in one of seven systems, with the parameters some of them have; and the angles between
   two positions.  Numbers are in thousandths of the unit of their type; "none": nothing was set, so nothing is specified. *)
EXTENDS Terms, FiniteSets, TLC
R(st, obs) == [st |-> st, obs |-> obs]
None == <<>>
Ecl == {"heliocentric", "geocentric"}
Kinds == {"alt_az", "galactic", "supergalactic", "icrs", "cirs"} \cup Ecl
(* Units of the angles, decimals kept. *)
Types == [dd |-> <<"deg", "deg", 11>>, rd |-> <<"rad", "deg", 11>>, f |-> <<"rad", "rad", 5>>]
Value(n) == Rat(n, 1000)
InRadians(u, n) == IF u = "deg" THEN Degrees(Value(n)) ELSE Value(n)
Blank(kind, type) == [kind |-> kind, type |-> type, c |-> <<None, None, None>>, m |-> <<None, None, None>>,
                      par |-> [loc |-> None, time |-> None,
                               pressure |-> IF kind = "alt_az" THEN <<0>> ELSE None, temperature |-> IF kind = "alt_az" THEN <<0>> ELSE None,
                               humidity |-> IF kind = "alt_az" THEN <<0>> ELSE None]]
Put(v) == [i \in 1..3 |-> <<v[i]>>]
(* Which parameters a frame has. *)
HasTime(k) == k \in Ecl \cup {"alt_az", "cirs"}
(* A component is <<>> or <<n>>. *)
Shown(x, t) == IF x = None THEN "*" ELSE About(Value(x[1]), t)
All(v, t) == [i \in 1..3 |-> Shown(v[i], t)]
Look(f) ==
    LET t == Types[f.type][3] c == All(f.c, t) m == All(f.m, t)
    IN [c |-> c, tuple |-> c, data |-> c, m |-> m, mtuple |-> m, diff |-> m, pm |-> <<m[1], m[2]>>, rv |-> m[3],
        par |-> IF f.kind = "alt_az"
                THEN [loc |-> IF f.par.loc = None THEN "*" ELSE [i \in 1..3 |-> About(Value(f.par.loc[i]), 11)],
                      pressure |-> Shown(f.par.pressure, 11), temperature |-> Shown(f.par.temperature, 11), humidity |-> Shown(f.par.humidity, 11),
                      time |-> IF f.par.time = None THEN "*" ELSE f.par.time[1], together |-> TRUE]
                ELSE IF HasTime(f.kind) THEN [time |-> IF f.par.time = None THEN "*" ELSE f.par.time[1]] ELSE [none |-> TRUE]]
(* Angles between the directions of two positions of one type: the separation, and the position angle of the second seen
   from the first as the two legs it is the angle of, which have the length of the sine of the separation. *)
Lat(f) == InRadians(Types[f.type][1], f.c[1][1])
Lon(f) == InRadians(Types[f.type][2], f.c[2][1])
Legs(f, g) ==
    LET a == Lat(f) b == Lat(g) d == Minus(Lon(g), Lon(f))
    IN <<Minus(Times(Sin(b), Cos(a)), Times(Times(Cos(b), Sin(a)), Cos(d))), Times(Sin(d), Cos(b))>>
CosSep(f, g) == LET a == Lat(f) b == Lat(g) d == Minus(Lon(g), Lon(f)) IN Plus(Times(Sin(a), Sin(b)), Times(Times(Cos(a), Cos(b)), Cos(d)))
Tol(f) == IF f.type = "f" THEN 5 ELSE 8
Sep(f, g) == LET l == Legs(f, g) IN [sep |-> AboutTo(Atan2(Norm(l), CosSep(f, g)), Tol(f), 1), legs |-> <<AboutTo(l[1], Tol(f), 1), AboutTo(l[2], Tol(f), 1)>>, ok |-> TRUE]

(* frame: how it was made.  ctor3, rep: only the position is given; the others give the motion too. *)
Positional == {"ctor3", "rep", "orep", "sky3"}
FrameStep(st, op) ==
    CASE op.op = "frame" -> LET b == Blank(op.kind, op.type) n == [b EXCEPT !.c = Put(op.c), !.m = IF op.how \in Positional THEN b.m ELSE Put(op.m)]
                            IN R([st EXCEPT ![op.r] = n], [res |-> "ok"])
      [] op.op = "setc" -> R([st EXCEPT ![op.r].c[op.k] = <<op.v>>], [res |-> "ok"])
      [] op.op = "setm" -> R([st EXCEPT ![op.r].m[op.k] = <<op.v>>], [res |-> "ok"])
      [] op.op = "setall" -> R([st EXCEPT ![op.r].c = Put(op.v)], [res |-> "ok"])
      [] op.op = "setallm" -> R([st EXCEPT ![op.r].m = Put(op.v)], [res |-> "ok"])
      [] op.op = "time" -> R([st EXCEPT ![op.r].par.time = <<op.v>>], [res |-> "ok"])
      [] op.op = "loc" -> R([st EXCEPT ![op.r].par.loc = op.v], [res |-> "ok"])
      [] op.op = "pressure" -> R([st EXCEPT ![op.r].par.pressure = <<op.v>>], [res |-> "ok"])
      [] op.op = "temperature" -> R([st EXCEPT ![op.r].par.temperature = <<op.v>>], [res |-> "ok"])
      [] op.op = "humidity" -> R([st EXCEPT ![op.r].par.humidity = <<op.v>>], [res |-> "ok"])
      [] op.op = "params" -> R([st EXCEPT ![op.r].par = [loc |-> op.loc, time |-> <<op.time>>, pressure |-> <<op.p>>, temperature |-> <<op.t>>, humidity |-> <<op.h>>]], [res |-> "ok"])
      [] op.op = "copy" -> R([st EXCEPT ![op.q] = st[op.r]], [res |-> "ok"])
      [] op.op = "look" -> R(st, Look(st[op.r]))
      [] op.op = "sep" -> R(st, Sep(st[op.r], st[op.q]))
      [] op.op = "equiv" -> R(st, [same |-> (st[op.r].kind = st[op.q].kind /\ st[op.r].type = st[op.q].type)])
==================================================================================
