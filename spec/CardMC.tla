------------------------------- MODULE CardMC -------------------------------
(* Behaviours of a card, bounded: the specification's properties are checked on all of them and every transition is   *)
(* printed as a test for the real card.  hist is the path to a state; `last` stands for the hidden state an           *)
(* implementation may keep (what was read last), so that transitions are covered for each of its values.              *)
EXTENDS Card, Json
CONSTANTS Mode, MaxLen
VARIABLES rec, last, hist
vars == <<rec, last, hist>>
view == <<rec, last, Len(hist)>>

Ks == {"", "A", "K-_9", "SIMPLE", "ABCDEFGH", "ABCDEFGHI"}
N(n) == Rep("v", n)
Strs == {"", "x", "a b", "a/b", "/", "/ c", "it's", "'", "''", "'q'", "a''b", "x'/y", "' /", "TABLE   ", " lead", "  ", "=", "= 5",
         "T", "12", "END", "a\\b", "say \"hi\"", N(20), N(67), N(68), N(69), N(70), N(66) \o Quote, N(67) \o Quote, N(65) \o "/z"}
Cmts == {"", "c", "a/b", "it's", " lead", "'q'", "= x"}
Ints  == {"0", "1", "-1", "7", "2880", "2147483647", "-2147483648"}
Uints == {"0", "4294967295"}
LLs   == {"0", "-5", "2147483648", "9223372036854775807", "-9223372036854775808"}
Sizes == {"0", "42", "18446744073709551615"}
Reals == {"0", "1.5", "-2.25", "141.618", "1e+20", "-3.5e-07", "123456", "1.23457e+06", "0.0001", "1e-05"}
CInts == {<<"1", "2">>, <<"-3", "0">>, <<"2147483647", "-2147483648">>}
CReals == {<<"1.5", "-2.25">>, <<"0", "1e+20">>}
CSizes == {<<"7", "0">>, <<"18446744073709551615", "18446744073709551615">>}

Mk(ts, vs, ks, cs) == [op : {"create"}, t : ts, v : vs, key : ks, c : cs]
Numbers(ks, cs) == Mk({"int"}, Ints, ks, cs) \cup Mk({"uint"}, Uints, ks, cs) \cup Mk({"ll"}, LLs, ks, cs)
    \cup Mk({"size"}, Sizes, ks, cs) \cup Mk({"dbl", "flt"}, Reals, ks, cs) \cup Mk({"bool"}, {"T", "F"}, ks, cs)
    \cup Mk({"cint"}, CInts, ks, cs) \cup Mk({"cdbl", "cflt"}, CReals, ks, cs) \cup Mk({"csize"}, CSizes, ks, cs)

(* lengths at the limits: value + comment *)
Ctors == [op : {"ctor"}, key : {"A", "ABCDEFGH", "ABCDEFGHI"}, v : {"", "x", "a/b", "it's", N(68), N(69), N(65)}, c : {"", "c", "cc"}]
Limits == UNION {Mk({"str"}, {N(n)}, {"LIMIT"}, {Rep("k", m)}) : n \in {0, 1, 30, 64, 65, 66, 67}, m \in {1, 2, 36, 37, 66, 67}}
     \cup Mk({"int"}, {"5"}, {"LIMIT"}, {Rep("k", 47), Rep("k", 48), Rep("k", 49)})
     \cup Mk({"cint"}, {<<"1", "2">>}, {"LIMIT"}, {Rep("k", 27), Rep("k", 28), Rep("k", 29)})

Texts == {"", "x", "plain text", "a/b", "it's = 5", "  two leading", "'q' / c", N(70), N(71), N(72), N(80)}
Cs == [op : {"commentary"}, key : {"COMMENT", "HISTORY", "", "END", "A", "TOOLONGKY"}, text : Texts]

RawBase == {"SIMPLE  =                    T / file does conform to FITS standard",
            "A       = 12", "A       = 12/c", "A       = 12 /c/d", "A       =12", "A        12", "AB= 5", "A      = 12",
            "A       = 'x'", "A       = 'x/y' / c", "A       = 'it''s' /'c'", "A       = 'x''' / c", "A       = ''", "A       = '' / c",
            "A       =    'padded   '   /c", "A       = 'a''''b'", "A       = '/'/", "A       =", "A       = ", "A       = /", "A       = / only comment",
            "A       = 1.5E3", "A       = -.5", "A       = +7", "A       = 007", "A       = 1 2", "A       = 1.5   -2.5 / z", "A       = T", "A       = TRUE", "A       = 1e5",
            "A       = 99999999999999999999", "A       = 2147483648", "A       = -2147483649", "A       = 4294967296", "A       = 0x10", "A       = 12abc", "A       = abc", "A       = F/",
            "END", "END     ", "END     x", "COMMENT ", "COMMENT", "COMMENTtext", "COMMENT text from column 9", "COMMENT = text", "COMMENT   a/b 'c'", "HISTORY /", "HISTORYtext",
            "        blank keyword", "        = 5", "         ", "       x", "        ", "", "X", "SIMPLE", "SIMPLE  T", "SIMPLE  =T", "simple  = 1", "CONTINUE  'x'",
            "A       = 'unclosed", "A       = 'a' junk", "A       = '", "COMMENT 'x", Rep("A", 81), "A       = " \o Rep("1", 71), "COMMENT " \o Rep("t", 73), "        " \o Rep("t", 73),
            "A       = '" \o Rep("w", 69), "A       = '" \o Rep("w", 68) \o Quote}
Raws == {r \in RawBase \cup {PadRight(x, 80) : x \in {y \in RawBase : Len(y) < 80}} : MustAccept(r) \/ ~MayAccept(r)}
Ps == [op : {"parse"}, raw : Raws]

Types == {"str", "bool", "int", "uint", "ll", "size", "dbl", "flt", "cint", "cdbl", "cflt", "csize"}
Reads(r) == IF r = NoRec THEN {} ELSE [op : {"read"}, t : Types] \cup (IF IsValueRec(r) THEN {[op |-> "vwc"]} ELSE {})
            \cup {[op |-> "copy"], [op |-> "eq", raw |-> r], [op |-> "eq", raw |-> PadRight("OTHER   = 1", 80)]}
SetOps(r) == IF r = NoRec \/ Len(r) < 8 THEN {}
             ELSE [op : {"set"}, t : {"str"}, v : {"new", "it's / x", N(68), N(69)}] \cup {[op |-> "set", t |-> "int", v |-> "-17"]}
             \cup {[op |-> "set", t |-> "dbl", v |-> "45.6"], [op |-> "set", t |-> "bool", v |-> "F"], [op |-> "set", t |-> "cint", v |-> <<"3", "-4">>]}

WideStart == Mk({"str"}, Strs, Ks, Cmts) \cup Numbers({"NAXIS", "ABCDEFGHI"}, {"", "c /d"}) \cup Limits \cup Ctors \cup Cs \cup Ps
DeepStart == Mk({"str"}, {"a/b", "12", "it's"}, {"A"}, {"", "c"}) \cup Mk({"int"}, {"12", "7"}, {"A"}, {""})
        \cup Mk({"dbl"}, {"1.5"}, {"B"}, {""}) \cup Mk({"bool"}, {"T"}, {"A"}, {""}) \cup Mk({"cint"}, {<<"1", "2">>}, {"A"}, {""})
        \cup Mk({"str"}, {N(69)}, {"A"}, {""}) \cup Mk({"int"}, {"5"}, {"ABCDEFGHI"}, {""})
        \cup [op : {"commentary"}, key : {"COMMENT"}, text : {"a/b", N(71)}]
        \cup [op : {"parse"}, raw : {"A       = 'it''s' /'c'", "AB= 5"}]
DeepSet(r) == {o \in SetOps(r) : ~(o.t = "str" /\ o.v = N(68))}

Ops(r) == IF Mode = "wide" THEN (IF r = NoRec THEN WideStart ELSE Reads(r) \cup SetOps(r))
          ELSE DeepStart \cup Reads(r) \cup DeepSet(r)

Tag(op) == IF op.op = "read" THEN op.t ELSE op.op
Init == rec = NoRec /\ last = "new" /\ hist = <<>>
Next == /\ Len(hist) < MaxLen
        /\ \E op \in Ops(rec) :
             LET a == CardStep(rec, op)
             IN /\ rec' = a.st
                /\ last' = (IF op.op \in {"read", "vwc", "copy", "eq"} THEN Tag(op) ELSE IF Mode = "wide" THEN Tag(op) ELSE "write")
                /\ hist' = Append(hist, [op |-> op, exp |-> a.obs])
Spec == Init /\ [][Next]_vars

Emit == PrintT("@@" \o ToJson(hist'))                                     \* ACTION_CONSTRAINT: one test a transition
EmitEnd == Len(hist) < MaxLen \/ PrintT("@@" \o ToJson(hist))             \* CONSTRAINT under -simulate: one test a walk

(* ---- properties of the specification itself ---- *)
LastOp == hist[Len(hist)].op
LastObs == hist[Len(hist)].exp
InvType == TypeOK(rec)
InvCreate == hist # <<>> /\ LastOp.op = "create" /\ LastObs.res = "ok" => CreatedWell(LastOp, rec)
InvCommentary == hist # <<>> /\ LastOp.op = "commentary" /\ LastObs.res = "ok"
                 => Len(rec) = RecLen /\ MustAccept(rec) = (Trim(LastOp.key) \in Commentary \cup {""})
                    /\ Trim(Keyword(rec)) = LastOp.key
InvSet == hist # <<>> /\ LastOp.op = "set" /\ FitsRecord("", Serial(LastOp.t, LastOp.v), "")
          => MustAccept(rec) /\ Len(rec) = RecLen /\ ReadAs(rec, LastOp.t) = Val_(LastOp.v)
(* A refused call changes nothing; a read changes nothing. *)
Unchanged == [][ LET n == Len(hist') IN hist'[n].op.op \in {"read", "vwc", "copy", "eq"} \/ hist'[n].exp.res = "invalid_card" => rec' = rec ]_vars
=============================================================================
