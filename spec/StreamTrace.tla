------------------------------ MODULE StreamTrace ------------------------------
(* Is a recorded run of fits_stream a behaviour of Stream?  Calls the specification gives no meaning to are not in the   *)
(* trace: the recorder leaves them out (it follows Meant).                                                               *)
EXTENDS Stream, Json
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES sys, l
E(i) == Trace[i]
Paths == {"a", "b", "c"}
Match(exp, o) == \A k \in DOMAIN exp : k \in DOMAIN o /\ o[k] = exp[k]
Init == sys = Fresh(Paths) /\ l = 1
Step == /\ l <= Len(Trace)
        /\ IF E(l).op.op = "new" /\ "start" \notin DOMAIN E(l).op THEN sys' = Fresh(Paths)
           ELSE IF ~Meant(sys, E(l).op) THEN sys' = [sys EXCEPT !.mode = "off"]               \* nothing more is said of this run
           ELSE IF sys.mode = "off" THEN sys' = sys
           ELSE LET a == StreamStep(sys, E(l).op) IN Match(a.obs, E(l).obs) /\ Sane(a.st) /\ ReadsOnly(sys, E(l).op, a.st) /\ sys' = a.st
        /\ l' = l + 1
Spec == Init /\ [][Step]_<<sys, l>>
Accepted == LET n == TLCGet("stats").diameter - 1 IN n = Len(Trace) \/ PrintT("@@" \o ToJson([reached |-> n, len |-> Len(Trace)]))
=============================================================================
