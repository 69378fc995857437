------------------------------ MODULE CardTrace ------------------------------
(* Is a recorded run of the real card a behaviour of Card?                                                            *)
EXTENDS Card, Json
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES rec, l
E(i) == Trace[i]
(* A numeral of the record in canonical form, as logged: 1.50 and 1.5 are one number. *)
Num(e, x) == IF "num" \in DOMAIN e /\ \E j \in DOMAIN e.num : e.num[j][1] = x
             THEN (e.num[CHOOSE j \in DOMAIN e.num : e.num[j][1] = x])[2] ELSE x
ExpVal(e, v) == IF e.op.op # "read" THEN v
                ELSE CASE e.op.t \in {"dbl", "flt"} -> Num(e, v)
                       [] e.op.t \in {"cdbl", "cflt"} -> <<Num(e, v[1]), Num(e, v[2])>>
                       [] OTHER -> v
Match(exp, e) == \A k \in DOMAIN exp : \/ k = "res" /\ exp[k] = UNSPEC
                                       \/ k \in DOMAIN e.obs /\ e.obs[k] = (IF k = "val" THEN ExpVal(e, exp[k]) ELSE exp[k])
Init == rec = NoRec /\ l = 1
Step == /\ l <= Len(Trace)
        /\ IF E(l).op.op = "new" THEN rec' = NoRec
           ELSE LET a == CardStep(rec, E(l).op) IN /\ Match(a.obs, E(l))
                                                /\ TypeOK(a.st)
                                                /\ (E(l).op.op = "create" /\ a.obs.res = "ok" => CreatedWell(E(l).op, a.st))
                                                /\ rec' = a.st
        /\ l' = l + 1
Spec == Init /\ [][Step]_<<rec, l>>
Accepted == LET n == TLCGet("stats").diameter - 1 IN n = Len(Trace) \/ PrintT("@@" \o ToJson([reached |-> n, len |-> Len(Trace)]))
=============================================================================
