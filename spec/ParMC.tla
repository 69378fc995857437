--------------------------------- MODULE ParMC ---------------------------------
EXTENDS Par, TLC, Json
L22 == <<2, 2>>
L33 == <<3, 3>>
L44 == <<4, 4>>
L55 == <<5, 5>>
L222 == <<2, 2, 2>>
L333 == <<3, 3, 3>>
L2222 == <<2, 2, 2, 2>>
view == <<pc, ver, seen, clk, wr, rd, turn, race, sched>>
Emit == ~Done' \/ PrintT("@@" \o ToJson(sched'))
================================================================================
