--------------------------------- MODULE FrameMC ---------------------------------
EXTENDS Frame, Json, SequencesExt
CONSTANTS Mode
VARIABLES st, hist, pick
vars == <<st, hist, pick>>
view == <<st, Len(hist), pick>>
Given == IF Mode = "given" THEN ndJsonDeserialize("given.ndjson") ELSE <<>>
Hows == {"ctor3", "ctor6", "rep", "orep", "repdiff", "orepdiff", "set", "each", "sky3", "sky6", "skyrep"}
C1 == <<1250, -2500, 3125>>
C2 == <<-500, 700, 12000>>
M1 == <<11, -22, 33000>>
F(r, k, t, h, c, m) == [op |-> "frame", r |-> r, kind |-> k, type |-> t, how |-> h, c |-> c, m |-> m]
Look1 == [op |-> "look", r |-> 1]
Look2 == [op |-> "look", r |-> 2]
Copies == {"copy", "assign", "point", "setpoint"}
Edits(k) == {[op |-> "setc", r |-> 1, k |-> i, v |-> 77] : i \in 1..3} \cup {[op |-> "setm", r |-> 1, k |-> i, v |-> -55] : i \in 1..3}
            \cup {[op |-> "setall", r |-> 1, v |-> C2], [op |-> "setallm", r |-> 1, v |-> <<5, 6, 7>>, how |-> "parts"], [op |-> "setallm", r |-> 1, v |-> <<5, 6, 7>>, how |-> "whole"]}
            \cup (IF HasTime(k) THEN {[op |-> "time", r |-> 1, v |-> t] : t \in {86400, -1, -1500000001}} ELSE {})
            \cup (IF k = "alt_az" THEN {[op |-> "loc", r |-> 1, v |-> <<10000, -20000, 1500>>], [op |-> "pressure", r |-> 1, v |-> 101325], [op |-> "temperature", r |-> 1, v |-> -5500],
                                        [op |-> "humidity", r |-> 1, v |-> 250]} \cup {[op |-> "params", r |-> 1, loc |-> <<1000, 2000, 3000>>, time |-> t, p |-> 6000, t |-> 7000, h |-> 800] : t \in {5, -1}} ELSE {})
Made == {<<F(1, k, t, h, C1, M1), Look1>> : k \in Kinds, t \in DOMAIN Types, h \in Hows}
Edited(k, ts, ws) == {<<F(1, k, t, "ctor6", C1, M1), a, Look1, [op |-> "copy", r |-> 1, q |-> 2, how |-> w], b, Look1, Look2>> :
                      t \in ts, w \in ws, a \in Edits(k), b \in Edits(k)}
(* angles: in degrees; first latitude, second latitude, difference of longitude *)
LatD == {-90000, -60000, -1, 0, 30000, 89999, 90000}
LonD == {0, 1, 45000, 90000, 179999, 180000, 270000, 359999}
Rad(n) == (n * 17) \div 1000
ToType(t, la, lo) == CASE t = "dd" -> <<la, lo>> [] t = "rd" -> <<Rad(la), lo>> [] t = "f" -> <<Rad(la), Rad(lo)>>
Angles == {LET p == ToType(t, a, 20000) q == ToType(t, b, 20000 + d)
           IN <<F(1, k, t, "ctor3", <<p[1], p[2], 1000>>, M1), F(2, k, t, "ctor3", <<q[1], q[2], 5000>>, M1),
                [op |-> "sep", r |-> 1, q |-> 2], [op |-> "sep", r |-> 2, q |-> 1], [op |-> "sep", r |-> 1, q |-> 1]>> :
           k \in {"alt_az", "galactic", "icrs", "geocentric"}, t \in DOMAIN Types, a \in LatD, b \in LatD, d \in LonD}
Same == {<<F(1, k, t, "ctor6", C1, M1), F(2, j, u, "ctor6", C1, M1), [op |-> "equiv", r |-> 1, q |-> 2]>> : k \in Kinds, j \in Kinds, t \in DOMAIN Types, u \in DOMAIN Types}
Starts == CASE Mode = "made" -> Made \cup Same
            [] Mode = "edited" -> UNION {Edited(k, {"dd"}, {"copy"}) \cup Edited(k, {"rd"}, {"setpoint"}) : k \in Kinds}
            [] Mode = "editedall" -> UNION {Edited(k, DOMAIN Types, Copies) : k \in Kinds}
            [] Mode = "angles" -> Angles
            [] Mode = "given" -> {Given[k] : k \in 1..Len(Given)}
Init == pick \in Starts /\ st = [r \in 1..3 |-> Blank("icrs", "dd")] /\ hist = <<>>
Next == /\ Len(hist) < Len(pick)
        /\ LET op == pick[Len(hist) + 1] a == FrameStep(st, op) IN st' = a.st /\ hist' = Append(hist, [op |-> op, exp |-> a.obs])
        /\ UNCHANGED pick
Spec == Init /\ [][Next]_vars
Emit == Len(hist') < Len(pick) \/ PrintT("@@" \o ToJson(hist'))
(* An edit changes one register, and of that one only the part it is meant for. *)
Independent == [][ LET op == hist'[Len(hist')].op IN
    /\ \A r \in 1..3 : (st'[r] # st[r]) => (IF op.op = "copy" THEN r = op.q ELSE r = op.r)
    /\ op.op \in {"setc", "setall"} => st'[op.r].m = st[op.r].m /\ st'[op.r].par = st[op.r].par
    /\ op.op \in {"setm", "setallm"} => st'[op.r].c = st[op.r].c /\ st'[op.r].par = st[op.r].par
    /\ op.op \in {"time", "loc", "pressure", "temperature", "humidity", "params"} => st'[op.r].c = st[op.r].c /\ st'[op.r].m = st[op.r].m
    /\ op.op \in {"look", "sep", "equiv"} => st' = st ]_vars
==================================================================================
