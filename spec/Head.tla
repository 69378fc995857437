-------------------------------- MODULE Head --------------------------------
(* Header objects: what one says is a function of the cards last read into it, up to and with END, whatever it held     *)
(* before.  Axes may be longer than TLC can multiply: their product is a term.                                          *)
EXTENDS File
T == INSTANCE Terms

(* All cards of what is being read, up to the first END; no END: there is no header. *)
Ends(cs) == {i \in DOMAIN cs : SubSeq(cs[i], 1, 8) = "END     "}
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
Taken(cs) == IF Ends(cs) = {} THEN <<>> ELSE SubSeq(cs, 1, MinOf(Ends(cs)))
RECURSIVE Many(_)
Many(s) == IF s = <<>> THEN 1 ELSE T!Times(Head(s), Many(Tail(s)))
Nothing == [st |-> "none", cs |-> <<>>, axes |-> <<>>, bitpix |-> ""]
Undefined == [Nothing EXCEPT !.st = "undefined"]
Reads(cards) ==
    LET cs == Taken([i \in DOMAIN cards |-> Raw80(cards[i])])
        b == ValueOf(cs, "BITPIX", "int")
        n == Count(ValueOf(cs, "NAXIS", "ll"))
        ax == [i \in 1..IntVal(n.val) |-> Count(ValueOf(cs, "NAXIS" \o Dec(i), "ll"))]
    IN IF cs = <<>> THEN Undefined
       ELSE IF (\E i \in DOMAIN cs : ~MustAccept(cs[i])) \/ b.res # "ok" \/ n.res # "ok" THEN Undefined
       ELSE IF b.val \notin BitpixOK \/ \E i \in DOMAIN ax : ax[i].res # "ok" THEN Undefined
       ELSE [st |-> "ok", cs |-> cs, axes |-> [i \in DOMAIN ax |-> ax[i].val], bitpix |-> b.val]
(* An extension has the name XTENSION gives it, any other header has to be a primary one. *)
NameOf(cs) == LET x == ValueOf(cs, "XTENSION", "str") IN IF x.res = "ok" THEN Ok([val |-> x.val]) ELSE IF ValueOf(cs, "SIMPLE", "bool").res = "ok" THEN Ok([val |-> "primary_hdu"]) ELSE [res |-> FAIL]
HeadStep(s, op) ==
    LET h == s[op.h]
        Same(o) == [st |-> s, obs |-> o]
    IN CASE op.op = "hread" -> LET r == Reads(op.cards) IN [st |-> [s EXCEPT ![op.h] = r], obs |-> IF r.st = "ok" THEN [res |-> "ok"] ELSE [res |-> FAIL]]
         [] op.op = "hcopy" -> [st |-> [s EXCEPT ![op.h] = s[op.from]], obs |-> [res |-> "ok"]]
         [] op.op = "hshow" -> Same(Ok([bitpix |-> h.bitpix, axes |-> h.axes, dims |-> Len(h.axes), cards |-> Len(h.cs) - 1,
                                        elements |-> IF h.axes = <<>> THEN 0 ELSE Many([i \in DOMAIN h.axes |-> IntVal(h.axes[i])])]))
         [] op.op = "hname" -> Same(NameOf(h.cs))
         [] op.op = "hval" -> Same(ValueOf(h.cs, op.key, op.t))
         [] op.op = "hhas" -> Same(Ok([val |-> Has(h.cs, op.key)]))
         [] op.op = "haxis" -> Same(IF op.k \in DOMAIN h.axes THEN Ok([val |-> h.axes[op.k]]) ELSE [res |-> "out_of_range"])
         [] op.op = "hsame" -> Same(Ok([val |-> h.cs = s[op.with].cs]))
         [] op.op = "hout" -> Same(Ok([cards |-> h.cs, pad |-> Up(80 * Len(h.cs)) - 80 * Len(h.cs)]))                \* written: the cards, and blanks to the end of the block
Meant(s, op) == op.op = "hread" \/ (s[IF op.op = "hcopy" THEN op.from ELSE op.h].st = "ok" /\ (op.op = "hsame" => s[op.with].st = "ok"))
(* a header that was read ends with its END, and has it nowhere else *)
HeadOK(h) == h.st = "ok" => Ends(h.cs) = {Len(h.cs)} /\ Len(h.axes) = IntOf(h.cs, "NAXIS")
=============================================================================
