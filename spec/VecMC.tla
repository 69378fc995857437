---------------------------------- MODULE VecMC ----------------------------------
EXTENDS Vec, Json, SequencesExt
CONSTANTS Mode, Motion
VARIABLES st, hist, pick
vars == <<st, hist, pick>>
view == <<st, Len(hist), pick>>
Given == IF Mode = "given" THEN ndJsonDeserialize("given.ndjson") ELSE <<>>
(* Laws of the algebra, of which the terms are an instance. *)
IDot(u, v) == DotOf(LAMBDA a, b : a + b, LAMBDA a, b : a * b, u, v)
ICross(u, v) == CrossOf(LAMBDA a, b : a - b, LAMBDA a, b : a * b, u, v)
ISum(u, v) == SumOf(LAMBDA a, b : a + b, u, v)
Small == [1..3 -> -2..2]
Tiny == [1..3 -> -1..1]
ASSUME Mode # "algebra" \/ \A u, v \in Small :
    /\ IDot(u, v) = IDot(v, u) /\ IDot(u, u) >= 0 /\ (IDot(u, u) = 0) = (u = [i \in 1..3 |-> 0])
    /\ IDot(ICross(u, v), u) = 0 /\ IDot(ICross(u, v), v) = 0
    /\ ICross(u, v) = [i \in 1..3 |-> -ICross(v, u)[i]]
    /\ IDot(ICross(u, v), ICross(u, v)) = IDot(u, u) * IDot(v, v) - IDot(u, v) * IDot(u, v)
ASSUME Mode # "algebra" \/ \A u, v, w \in Tiny :
    /\ ICross(u, ISum(v, w)) = ISum(ICross(u, v), ICross(u, w)) /\ IDot(u, ISum(v, w)) = IDot(u, v) + IDot(u, w)
    /\ ISum(u, v) = ISum(v, u) /\ ISum(u, ISum(v, w)) = ISum(ISum(u, v), w)

Used == {t \in DOMAIN Types : Motion \/ Kind(t) # "D"}
Mates(t) == {u \in Used : Single(u) = Single(t)}
(* Components of a type, from a list of directions in degrees or of Cartesian triples *)
Angle(u, n) == IF u = "deg" THEN n * 1000 ELSE (n * 349) \div 20          \* about n degrees, in thousandths of u
DirS == {<<30, 60, 5000>>, <<-120, 135, 250>>, <<180, 90, 1000>>, <<0, 0, 3000>>, <<45, 180, 2000>>, <<370, 45, 700>>, <<-30, 90, 4000>>, <<0, 90, 1000>>, <<90, 30, 60>>, <<30, 60, -5000>>, <<-100, 125, -40>>, <<725, 100, 300>>, <<-500, 20, 80>>, <<30, 400, 1000>>}
DirD == {<<30, 60, 5000>>, <<-120, 35, 250>>, <<180, 90, 1000>>, <<0, 0, 3000>>, <<45, 100, 2000>>, <<20, -45, 700>>, <<30, 60, -5000>>, <<-120, 35, -250>>}
DirE == {<<30, 60, 5000>>, <<-120, -35, 250>>, <<180, 0, 1000>>, <<0, 90, 3000>>, <<45, -90, 2000>>, <<370, 45, 700>>, <<100, 120, 4000>>, <<90, 0, 60>>, <<30, 60, -5000>>, <<-120, -35, -250>>, <<725, 10, 300>>, <<-500, -20, 80>>, <<30, 400, 1000>>}
Carts == {<<3000, -4000, 12000>>, <<0, 0, 5000>>, <<0, -7000, 0>>, <<-2500, 0, 0>>, <<1, 1, -1>>, <<-700, -800, 900>>, <<0, 0, -1>>}
Values(t) ==
    LET u == Types[t].u IN
    CASE Kind(t) = "C" -> Carts
      [] Kind(t) = "S" -> {<<Angle(u[1], d[1]), Angle(u[2], d[2]), d[3]>> : d \in DirS}
      [] Kind(t) = "E" -> {<<Angle(u[1], d[1]), Angle(u[2], d[2]), d[3]>> : d \in DirE}
      [] Kind(t) = "D" -> {<<Angle(u[1], d[1]), Angle(u[2], d[2]), d[3]>> : d \in DirD}
Few(t) ==
    LET u == Types[t].u IN
    IF Kind(t) = "C" THEN {<<3000, -4000, 12000>>, <<0, 0, 5000>>, <<-700, -800, 900>>}
    ELSE {<<Angle(u[1], 30), Angle(u[2], 60), 5000>>, <<Angle(u[1], -120), Angle(u[2], 35), 250>>, <<Angle(u[1], 20), Angle(u[2], 80), 700>>}
Hows == {"ctor", "make", "set", "each"}
New(r, t, h, c) == [op |-> "new", r |-> r, type |-> t, how |-> h, c |-> c]
LookAt(r) == [op |-> "look", r |-> r]
See3 == [op |-> "see", r |-> 3]
Made == UNION {{<<New(1, t, h, c), LookAt(1), [op |-> "put", r |-> 1, k |-> k, v |-> 321], LookAt(1)>> : h \in Hows, c \in Values(t), k \in 1..3} : t \in Used}
(* A conversion that keeps the components' units, so that the raw numbers may be passed on *)
Group(t) == IF t = "Cx" THEN "x" ELSE Types[t].u[3]
Ways(t, u) == {"ctor", "make"} \cup (IF t # u /\ Kind(t) = Kind(u) THEN {"units"} ELSE {}) \cup (IF Group(t) = Group(u) /\ Kind(t) # "D" /\ Kind(u) # "D" THEN {"to"} ELSE {})
Conv(r, q, t, w) == [op |-> "conv", r |-> r, q |-> q, type |-> t, how |-> w]
Converted(t) == UNION {{<<New(1, t, "ctor", c), Conv(1, 2, u, w), LookAt(2), LookAt(1), Conv(2, 3, t, "ctor"), LookAt(3)>> : w \in Ways(t, u), c \in Values(t)} : u \in Mates(t)}
Pointed(t) == {<<[op |-> "point", r |-> 1, type |-> t, sys |-> y, how |-> h, c |-> c], LookAt(1)>> :
               y \in (IF t = "Cx" THEN {"C"} ELSE IF Kind(t) = "D" THEN {} ELSE DOMAIN Systems), h \in {"ctor", "make"}, c \in Carts \cup {<<500, 1200, 3000>>, <<-2000, 700, 1000>>, <<120000, 50000, 2000>>}}
(* From a spherical point the angle from the axis and the distance are taken as they are meant: not negative. *)
Meant(h) == h[1].sys = "C" \/ (h[1].c[3] >= 0)
Points == {h \in UNION {Pointed(t) : t \in Used} : Meant(h)}
Pairs == UNION {{<<New(1, t, "ctor", c), New(2, u, "ctor", d)>> : c \in Few(t), d \in Few(u)} : <<t, u>> \in {p \in Used \X Used : Single(p[1]) = Single(p[2])}}
Two(o) == [op |-> o, r |-> 1, q |-> 2, p |-> 3]
Algebra == {p \o s : p \in Pairs, s \in IF Motion THEN {<<Two("plus"), LookAt(3), LookAt(1), LookAt(2)>>}
                                        ELSE {<<Two("dot"), Two("cross"), Two("sum"), See3, Two("mean"), See3, Two("plus"), See3>>}}
Units == UNION {{<<New(1, t, "ctor", c), [op |-> "mag", r |-> 1], [op |-> "unit", r |-> 1]>> : c \in Values(t)} : t \in Used}
Motions == UNION {{<<New(1, t, "ctor", c), [op |-> "times", r |-> 1, t |-> 2500], [op |-> "times", r |-> 1, t |-> -1], [op |-> "speed", r |-> 1]>>
                   \o SetToSeq({[op |-> "heading", r |-> 1, type |-> u] : u \in (IF Uniform(t) THEN {x \in Mates(t) : Kind(x) # "D"} ELSE {})}) : c \in Values(t)} : t \in Used}
Equals == UNION {{<<New(1, t, "ctor", c), New(2, t, "set", d), [op |-> "eq", r |-> 1, q |-> 2], [op |-> "eq", r |-> 2, q |-> 1],
                    [op |-> "copy", r |-> 2, q |-> 3, how |-> h], LookAt(3), [op |-> "eq", r |-> 2, q |-> 3], [op |-> "put", r |-> 3, k |-> k, v |-> 55], LookAt(2), LookAt(3), [op |-> "eq", r |-> 2, q |-> 3]>> :
                  c \in Few(t), d \in Few(t), h \in {"copy", "assign", "make"}, k \in 1..3} : t \in Used}
Starts == CASE Mode = "made" -> Made \cup Equals
            [] Mode = "conv" -> UNION {Converted(t) : t \in Used}
            [] Mode = "points" -> Points
            [] Mode = "algebra" -> Algebra \cup (IF Motion THEN Motions ELSE Units)
            [] Mode = "given" -> {Given[k] : k \in 1..Len(Given)}
Init == pick \in Starts /\ st = [reg |-> [r \in 1..3 |-> Set("Cm", <<0, 0, 0>>, 0)], n |-> 0] /\ hist = <<>>
Next == /\ Len(hist) < Len(pick)
        /\ LET op == pick[Len(hist) + 1] a == VecStep(st, op, ~Motion) IN st' = a.st /\ hist' = Append(hist, [op |-> op, exp |-> a.obs])
        /\ UNCHANGED pick
Spec == Init /\ [][Next]_vars
Emit == Len(hist') < Len(pick) \/ PrintT("@@" \o ToJson(hist'))
(* Only the register an operation stores into changes; a conversion or a copy keeps the vector. *)
Independent == [][ LET op == hist'[Len(hist')].op
                       into == IF op.op \in {"new", "point", "put", "putall"} THEN {op.r} ELSE IF op.op \in {"copy", "conv"} THEN {op.q} ELSE IF op.op \in {"sum", "mean", "plus"} THEN {op.p} ELSE {}
                   IN /\ \A r \in 1..3 : st'.reg[r].id # st.reg[r].id => r \in into
                      /\ op.op \in {"copy", "conv"} => st'.reg[op.q].v = st.reg[op.r].v ]_vars
==================================================================================
