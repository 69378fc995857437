------------------------------ MODULE TableTrace ------------------------------
(* Is a recorded run of the real tables and column views a behaviour of Table?                                         *)
EXTENDS Table, Json
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES sys, l
E(i) == Trace[i]
Sys0 == [table |-> [k \in {0, 1} |-> NoTable], view |-> [h \in {0, 1} |-> NoView]]
Match(exp, o) == \A k \in DOMAIN exp :
    CASE k = "res" -> exp.res = UNSPEC \/ (exp.res = FAIL /\ o.res \notin {"ok", "CRASH", "HANG"}) \/ o.res = exp.res
      [] k = "meta" -> "meta" \in DOMAIN o /\ \A j \in DOMAIN exp.meta : (j = "disp" /\ exp.meta[j] = UNSPEC) \/ (j \in DOMAIN o.meta /\ exp.meta[j] = o.meta[j])
      [] OTHER -> k \in DOMAIN o /\ o[k] = exp[k]
Init == sys = Sys0 /\ l = 1
Step == /\ l <= Len(Trace)
        /\ IF E(l).op.op = "new" THEN sys' = Sys0
           ELSE LET a == TableStep(sys, E(l).op)
                IN /\ Match(a.obs, E(l).obs)
                   /\ \A k \in {0, 1} : CutFits(a.st.table[k]) /\ Rereads(a.st.table[k])
                   /\ sys' = a.st
        /\ l' = l + 1
Spec == Init /\ [][Step]_<<sys, l>>
Accepted == LET n == TLCGet("stats").diameter - 1 IN n = Len(Trace) \/ PrintT("@@" \o ToJson([reached |-> n, len |-> Len(Trace)]))
=============================================================================
