------------------------------ MODULE FileTrace ------------------------------
(* Is a recorded run of the real readers and headers a behaviour of File?  The trace gives each file's cards and data   *)
(* rule; what the header says is worked out here.                                                                       *)
EXTENDS File, Json
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES sys, l
E(i) == Trace[i]
Slots == {"a", "b", "c", "w"}
Sys0 == [disk |-> [s \in Slots |-> NoFile], reader |-> [r \in {0, 1} |-> None]]
Op(e) == IF e.op.op = "file" THEN [e.op EXCEPT !.hdus = [i \in DOMAIN @ |-> Hdu(@[i].cards, @[i].data)]] ELSE e.op
RuleText(d) == d.k \o ":" \o Dec(d.a) \o ":" \o Dec(d.b) \o ":" \o Dec(d.n)
MatchHdu(x, o) == IF x.kind = UNSPEC THEN TRUE
                  ELSE \A k \in DOMAIN x : /\ k \in DOMAIN o
                                           /\ IF k # "data" THEN o[k] = x[k]
                                              ELSE IF x.data = UNSPEC THEN TRUE ELSE o.data = x.data
Match(exp, o) == \A k \in DOMAIN exp :
    CASE k = "res" -> exp.res = UNSPEC \/ (exp.res = FAIL /\ o.res \notin {"ok", "CRASH", "HANG"}) \/ o.res = exp.res
      [] k = "hdus" -> "hdus" \in DOMAIN o /\ Len(o.hdus) = Len(exp.hdus) /\ \A i \in DOMAIN exp.hdus : MatchHdu(exp.hdus[i], o.hdus[i])
      [] k = "hdu" -> "hdu" \in DOMAIN o /\ MatchHdu(exp.hdu, o.hdu)
      [] OTHER -> k \in DOMAIN o /\ o[k] = exp[k]
(* Data rules as text, so that TLC compares like with like; headers-only readings leave the data open. *)
Plain(exp, mode) == LET P(x) == IF x.kind = UNSPEC THEN x ELSE IF mode = "all" THEN [x EXCEPT !.data = RuleText(@)] ELSE [x EXCEPT !.data = UNSPEC]
                    IN IF "hdus" \in DOMAIN exp THEN [exp EXCEPT !.hdus = [i \in DOMAIN @ |-> P(@[i])]]
                       ELSE IF "hdu" \in DOMAIN exp THEN [exp EXCEPT !.hdu = P(@)] ELSE exp
ModeOf(s, op) == IF op.op = "open" THEN op.mode ELSE IF op.op \in {"show", "named", "at"} THEN s.reader[op.r].mode ELSE ""
Init == sys = Sys0 /\ l = 1
Step == /\ l <= Len(Trace)
        /\ IF E(l).op.op = "new" THEN sys' = Sys0
           ELSE LET op == Op(E(l))  a == FileStep(sys, op)
                IN /\ Match(Plain(a.obs, ModeOf(sys, op)), E(l).obs)
                   /\ (op.op = "file" /\ op.cut < 0 => Aligned(op.hdus) /\ \A i \in DOMAIN op.hdus : Honest(op.hdus[i]))
                   /\ \A s \in Slots : SameHdus(a.st.disk[s]) /\ Persist(a.st.disk[s])
                   /\ sys' = a.st
        /\ l' = l + 1
Spec == Init /\ [][Step]_<<sys, l>>
Accepted == LET n == TLCGet("stats").diameter - 1 IN n = Len(Trace) \/ PrintT("@@" \o ToJson([reached |-> n, len |-> Len(Trace)]))
=============================================================================
