---------------------------------- MODULE SkyMC ----------------------------------
EXTENDS Sky, Json, SequencesExt
CONSTANTS Mode
VARIABLES regs, d, hist, pick
vars == <<regs, d, hist, pick>>
view == <<regs, d, Len(hist), pick>>
Given == IF Mode = "given" THEN ndJsonDeserialize("given.ndjson") ELSE <<>>
Zero == [kind |-> "horizon", type |-> "rr", v |-> <<0, 0>>]
Hows == {"ctor", "make", "set", "each"}
Ends == {0, 1, 90000, -90000, 180000, 359999, -45123, 12500}
(* coordinates *)
Coords(ks, ts) == {<<[op |-> "coord", r |-> 1, kind |-> k, type |-> t, how |-> h, a |-> a, b |-> b], [op |-> "look", r |-> 1],
                     [op |-> "copy", r |-> 1, q |-> 2, how |-> w], [op |-> s, r |-> 1, a |-> b + 7, b |-> a], [op |-> "look", r |-> 1], [op |-> "look", r |-> 2],
                     [op |-> s, r |-> 2, a |-> a - 11, b |-> a], [op |-> "look", r |-> 1], [op |-> "look", r |-> 2]>> :
                   k \in ks, t \in ts, h \in Hows, w \in {"copy", "assign"}, a \in {0, 12500, -90000}, b \in {1, -45123, 359999}, s \in {"set1", "set2", "setboth"}}
(* rotations: every pair of two conversions, there and back *)
A(u, n) == [u |-> u, n |-> n]
Angles == {A("deg", 0), A("deg", 51500), A("deg", 90000), A("deg", -33000), A("rad", 409), A("deg", 180000), A("rad", -3000), A("deg", 3), A("rad", -1)}
Dirs == {<<A("deg", 0), A("deg", 0)>>, <<A("deg", 45000), A("deg", 20000)>>, <<A("deg", -120000), A("deg", -60000)>>, <<A("rad", 3141), A("rad", 1570)>>,
         <<A("deg", 17000), A("deg", 90000)>>, <<A("deg", 200000), A("deg", -90000)>>, <<A("rad", -1500), A("rad", 100)>>,
         <<A("deg", 20), A("deg", -1)>>, <<A("rad", 1), A("rad", 3)>>, <<A("deg", 179999), A("deg", 5)>>}
AllRot == Angled \cup {"gr", "rg"}
Rots == {<<[op |-> "dir", a |-> x[1], b |-> x[2], f |-> FALSE]>> \o (IF k \in Angled THEN <<[op |-> "again"]>> ELSE <<>>)
         \o <<[op |-> "mat", k |-> k, a |-> a, f |-> FALSE], [op |-> "mat", k |-> k, a |-> a, f |-> TRUE], [op |-> "rot", k |-> k, a |-> a], [op |-> "rot", k |-> m, a |-> a]>> :
         x \in Dirs, k \in AllRot, m \in AllRot, a \in Angles}
Starts == CASE Mode = "coords" -> Coords(DOMAIN Kinds, DOMAIN Types)
            [] Mode = "rots" -> Rots
            [] Mode = "given" -> {Given[k] : k \in 1..Len(Given)}
            [] Mode = "laws" -> {<<[op |-> "law", v |-> <<x, y, z>>]>> : x \in -3..3, y \in -3..3, z \in -3..3}
Init == pick \in Starts /\ regs = [r \in 1..3 |-> Zero] /\ d = [v |-> <<1, 0, 0>>, t |-> 10] /\ hist = <<>>
Step == /\ Len(hist) < Len(pick)
        /\ LET op == pick[Len(hist) + 1]
           IN IF op.op \in {"dir", "rot", "mat", "again"}
              THEN LET a == DirStep(d, op) IN d' = a.st /\ hist' = Append(hist, [op |-> op, exp |-> a.obs]) /\ UNCHANGED regs
              ELSE LET a == CoordStep(regs, op) IN regs' = a.st /\ hist' = Append(hist, [op |-> op, exp |-> a.obs]) /\ UNCHANGED d
        /\ UNCHANGED pick
Next == Mode # "laws" /\ Step
Spec == Init /\ [][Next]_vars
Emit == Len(hist') < Len(pick) \/ PrintT("@@" \o ToJson(hist'))
InvLaws == Mode # "laws" \/ Laws(pick[1].v)
(* A coordinate is what was put into it last, component by component: what the history says, whatever else was done. *)
Touch(h, i, r, c) == \/ h[i].op.op \in {"coord", "setboth"} /\ h[i].op.r = r
                     \/ h[i].op.op = "set" \o ToString(c) /\ h[i].op.r = r
                     \/ h[i].op.op = "copy" /\ h[i].op.q = r
RECURSIVE LastPut(_, _, _, _)
LastPut(h, i, r, c) == IF i = 0 THEN 0 ELSE IF Touch(h, i, r, c)
                    THEN (IF h[i].op.op = "copy" THEN LastPut(h, i - 1, h[i].op.r, c) ELSE IF h[i].op.op \in {"set1", "set2"} \/ c = 1 THEN h[i].op.a ELSE h[i].op.b)
                    ELSE LastPut(h, i - 1, r, c)
InvLast == Mode # "coords" \/ \A r \in 1..2, c \in 1..2 : regs[r].v[c] = LastPut(hist, Len(hist), r, c)
==================================================================================
