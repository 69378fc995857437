------------------------------- MODULE StreamMC -------------------------------
EXTENDS Stream, Json
CONSTANTS MaxLen, Wide
VARIABLES sys, hist
vars == <<sys, hist>>
view == <<sys, Len(hist)>>
Paths == {"a", "b"}
Start == <<[op |-> "disk", path |-> "a", data |-> <<<<65, 2879>>, <<10, 1>>, <<32, 3>>, <<255, 1>>, <<0, 2876>>>>]>>
Ns == IF Wide THEN {1, 2, 80, 2879, 2880, 2881, 5760, 5761} ELSE {1, 2880, 5760}
Ps == IF Wide THEN {0, 1, 80, 2879, 2880, 2881, 5759, 5760, 5761} ELSE {0, 2879, 5760}
Ds == {<<<<88, 3>>>>, <<<<10, 2880>>>>} \cup (IF Wide THEN {<<<<26, 1>>>>, <<<<13, 1>>, <<10, 1>>, <<0, 2879>>>>} ELSE {})
All == {[op |-> o] : o \in {"is_open", "close", "pos", "unit_end", "to_unit_end", "getc", "at_end"}}
    \cup {[op |-> "set_file", path |-> p] : p \in Paths \cup {"missing"}} \cup {[op |-> "create", path |-> p] : p \in {"b", "no/such"}}
    \cup {[op |-> "seek", p |-> p] : p \in Ps} \cup {[op |-> "read", n |-> n] : n \in Ns}
    \cup {[op |-> "write", data |-> d] : d \in Ds} \cup {[op |-> "write_at", p |-> p, data |-> d] : p \in {0, 2, 2880}, d \in Ds}
    \cup {[op |-> "bytes", path |-> p] : p \in Paths}
Init == sys = [Fresh(Paths) EXCEPT !.disk["a"] = Norm(Start[1].data)] /\ hist = <<[op |-> Start[1], exp |-> [res |-> "ok"]]>>
Next == /\ Len(hist) < MaxLen + 1
        /\ \E op \in All : /\ Meant(sys, op)
                           /\ LET a == StreamStep(sys, op) IN sys' = a.st /\ hist' = Append(hist, [op |-> op, exp |-> a.obs])
Spec == Init /\ [][Next]_vars
Emit == PrintT("@@" \o ToJson(hist'))
EmitEnd == Len(hist) < MaxLen + 1 \/ PrintT("@@" \o ToJson(hist))
InvSane == Sane(sys) /\ Aligned(sys)
Quiet == [][ ReadsOnly(sys, hist'[Len(hist')].op, sys') ]_vars
=============================================================================
