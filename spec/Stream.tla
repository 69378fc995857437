-------------------------------- MODULE Stream --------------------------------
(* fits_stream: a cursor over a file of bytes, in 2880-byte units.  Bytes are runs <<value, count>>, normalised.          *)
EXTENDS Naturals, Integers, Sequences, TLC, FiniteSets
UNSPEC == "*"
FAIL == "!"
Unit == 2880
Up(n) == ((n + Unit - 1) \div Unit) * Unit
RECURSIVE Size(_)
Size(r) == IF r = <<>> THEN 0 ELSE Head(r)[2] + Size(Tail(r))
RECURSIVE Norm(_)
Norm(r) == IF r = <<>> THEN <<>>
           ELSE IF Head(r)[2] = 0 THEN Norm(Tail(r))
           ELSE LET t == Norm(Tail(r)) IN IF t # <<>> /\ t[1][1] = Head(r)[1] THEN <<<<Head(r)[1], Head(r)[2] + t[1][2]>>>> \o Tail(t) ELSE <<Head(r)>> \o t
RECURSIVE Take(_, _)
Take(r, n) == IF r = <<>> \/ n <= 0 THEN <<>> ELSE IF Head(r)[2] >= n THEN <<<<Head(r)[1], n>>>> ELSE <<Head(r)>> \o Take(Tail(r), n - Head(r)[2])
RECURSIVE Skip(_, _)
Skip(r, n) == IF r = <<>> \/ n <= 0 THEN r ELSE IF Head(r)[2] > n THEN <<<<Head(r)[1], Head(r)[2] - n>>>> \o Tail(r) ELSE Skip(Tail(r), n - Head(r)[2])
Zeros(n) == IF n > 0 THEN <<<<0, n>>>> ELSE <<>>
Splice(r, p, d) == Norm(Take(r, p) \o Zeros(p - Size(r)) \o d \o Skip(r, p + Size(d)))

NoFile == <<<<-1, 0>>>>
Closed == [mode |-> "no", path |-> "", pos |-> 0, cond |-> "good", dir |-> "n"]
Ok(o) == [res |-> "ok"] @@ o
(* cond: good; eof, after the end was looked past; bad, after a failure: only opening a file helps.                       *)
StreamStep(s, op) ==
    LET f == IF s.mode = "no" THEN <<>> ELSE s.disk[s.path]
        n == Size(f)
        Same(o) == [st |-> s, obs |-> o]
        To(st, o) == [st |-> st, obs |-> o]
        Bad == [s EXCEPT !.cond = "bad"]
        Put(p, d) == To([s EXCEPT !.disk[s.path] = Splice(f, p, d), !.pos = p + Size(d), !.dir = "w"], Ok([val |-> TRUE]))
    IN CASE op.op = "disk" -> To([s EXCEPT !.disk[op.path] = Norm(op.data)], [res |-> "ok"])
         [] op.op = "new" -> To(Closed @@ [disk |-> s.disk], [res |-> "ok"])
         [] op.op = "set_file" -> IF op.path \in DOMAIN s.disk /\ s.disk[op.path] # NoFile
                                  THEN To([s EXCEPT !.mode = "read", !.path = op.path, !.pos = 0, !.cond = "good", !.dir = "n"], [res |-> "ok"])
                                  ELSE To([s EXCEPT !.mode = "no", !.cond = "bad"], [res |-> "file_reading_exception"])
         [] op.op = "create" -> IF op.path \in DOMAIN s.disk
                                THEN To([s EXCEPT !.mode = "write", !.path = op.path, !.pos = 0, !.cond = "good", !.dir = "n", !.disk[op.path] = <<>>], Ok([val |-> TRUE]))
                                ELSE To([s EXCEPT !.mode = "no", !.cond = "bad"], Ok([val |-> FALSE]))
         [] op.op = "is_open" -> Same(Ok([val |-> s.mode # "no"]))
         [] op.op = "close" -> To([s EXCEPT !.mode = "no"], [res |-> "ok"])
         [] op.op = "seek" -> To([s EXCEPT !.pos = op.p, !.cond = "good", !.dir = "n"], [res |-> "ok"])
         [] op.op = "to_unit_end" -> To([s EXCEPT !.pos = Up(s.pos), !.dir = "n"], [res |-> "ok"])
         [] op.op = "pos" -> Same(Ok([val |-> s.pos]))
         [] op.op = "unit_end" -> Same(Ok([val |-> Up(s.pos)]))
         [] op.op = "getc" -> IF s.cond = "good" /\ s.pos < n THEN To([s EXCEPT !.pos = @ + 1, !.dir = "r"], Ok([val |-> Skip(f, s.pos)[1][1]]))
                              ELSE To(Bad, Ok([val |-> 0]))
         [] op.op = "read" -> IF s.mode # "no" /\ s.cond = "good" /\ s.pos + op.n <= n THEN To([s EXCEPT !.pos = @ + op.n, !.dir = "r"], Ok([val |-> Norm(Take(Skip(f, s.pos), op.n))]))
                              ELSE To(Bad, [res |-> "file_reading_exception"])
         [] op.op = "at_end" -> IF s.cond = "eof" \/ s.pos >= n THEN To([s EXCEPT !.cond = "eof", !.dir = "r"], Ok([val |-> TRUE])) ELSE To([s EXCEPT !.dir = "r"], Ok([val |-> FALSE]))
         [] op.op = "write" -> IF s.mode = "write" /\ s.cond = "good" THEN Put(s.pos, op.data) ELSE To(Bad, Ok([val |-> FALSE]))
         [] op.op = "write_at" -> IF s.mode = "write" /\ s.cond = "good" THEN Put(op.p, op.data) ELSE To(Bad, Ok([val |-> FALSE]))
         [] op.op = "bytes" -> Same(Ok([val |-> s.disk[op.path]]))
(* Which calls are given a meaning in a state: the others are left open.                                                  *)
Meant(s, op) ==
    CASE op.op \in {"disk"} -> ~(s.mode # "no" /\ s.path = op.path)
      [] op.op \in {"set_file", "create", "is_open", "close", "new"} -> TRUE
      [] op.op \in {"seek"} -> s.mode # "no" /\ s.cond # "bad"
      [] op.op \in {"pos", "unit_end", "to_unit_end"} -> s.mode # "no" /\ s.cond = "good"
      [] op.op = "getc" -> s.mode # "no" /\ s.cond # "bad" /\ s.dir # "w"
      [] op.op = "at_end" -> s.mode # "no" /\ s.cond # "bad" /\ s.dir # "w"
      [] op.op = "read" -> op.n > 0 /\ s.dir # "w"
      [] op.op = "write" -> Size(op.data) > 0 /\ (s.mode # "write" \/ s.cond = "bad" \/ (s.cond = "good" /\ s.dir # "r"))
      [] op.op = "write_at" -> Size(op.data) > 0 /\ (s.mode # "write" \/ s.cond # "eof")
      [] op.op = "bytes" -> s.disk[op.path] # NoFile /\ ~(s.mode = "write" /\ s.path = op.path)
Fresh(paths) == Closed @@ [disk |-> [p \in paths |-> NoFile]]

(* ------------------------------- properties ------------------------------ *)
Sane(s) == s.cond \in {"good", "eof", "bad"} /\ s.pos >= 0 /\ \A p \in DOMAIN s.disk : s.disk[p] = NoFile \/ Norm(s.disk[p]) = s.disk[p]
(* Reading moves only the cursor; nothing written is lost. *)
ReadsOnly(s, op, t) == op.op \in {"read", "getc", "at_end", "pos", "unit_end", "to_unit_end", "seek", "is_open", "set_file", "bytes", "close"} => t.disk = s.disk
Aligned(s) == Up(s.pos) % Unit = 0 /\ Up(s.pos) >= s.pos /\ Up(s.pos) < s.pos + Unit
=============================================================================
