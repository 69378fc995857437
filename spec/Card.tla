-------------------------------- MODULE Card --------------------------------
(* A FITS card (boost::astronomy::io::card with the default card_policy): an object holding one header record.        *)
(*                                                                                                                    *)
(* State: the record.  Operations: the public calls.  What a call returns is a function of the record alone - the      *)
(* implementation keeps a cache of the last value read, the specification has none, so any behaviour in which the     *)
(* cache shows is rejected.                                                                                           *)
(* "*" as an expected result means: this specification leaves it open (malformed quoting, unsigned minus, ...).       *)
EXTENDS Text, TLC, FiniteSets

NoRec == ""                      \* a default constructed card
RecLen == 80
UNSPEC == "*"

Commentary == {"COMMENT", "HISTORY", "END"}

(* ------------------------------ writing ---------------------------------- *)
KeyOK(k) == Len(k) <= 8

Serial(t, v) ==                  \* the value field of a value v of type t, FITS fixed format
    CASE t = "str" -> Quote \o DoubleQ(v) \o Quote
      [] t \in {"cint", "cdbl", "cflt", "csize"} -> PadLeft(v[1], 20) \o (IF Len(v[2]) < 20 THEN PadLeft(v[2], 20) ELSE " " \o v[2])
      [] OTHER -> PadLeft(v, 20)

FitsRecord(k, field, c) == KeyOK(k) /\ IF c = "" THEN Len(field) <= 70 ELSE Len(field) + Len(c) <= 68

Record(k, field, c) == PadRight(PadRight(k, 8) \o "= " \o field \o (IF c = "" THEN "" ELSE " /" \o c), RecLen)

CommentaryRecord(k, text) == PadRight(PadRight(k, 8) \o " " \o text, RecLen)

(* ------------------------------ parsing ---------------------------------- *)
IsValueRec(r) == Slice(r, 9, 10) = "= " /\ Len(r) >= 10
MustAccept(r) == /\ Len(r) \in 8..RecLen
                 /\ \/ IsValueRec(r)
                    \/ Trim(Upto(r, 8)) \in Commentary
                    \/ Upto(r, 8) = Rep(" ", 8)
MayAccept(r)  == \/ MustAccept(r)
                 \/ Len(r) \in 8..RecLen /\ Trim(Upto(r, 7)) \in Commentary      \* a mark in column 8: left open

Keyword(r) == Upto(r, 8)

(* ------------------------------ reading ---------------------------------- *)
RECURSIVE CloseQuote(_, _)       \* position of the quote that ends a string which starts before i; Len+1 if none
CloseQuote(r, i) == LET q == FirstOf(r, Quote, i)
                    IN IF q > Len(r) THEN Len(r) + 1
                       ELSE IF q < Len(r) /\ Ch(r, q + 1) = Quote THEN CloseQuote(r, q + 2) ELSE q

Begin(r) == FirstNot(r, " ", 11)                     \* where the value starts
Quoted(r) == Begin(r) <= Len(r) /\ Ch(r, Begin(r)) = Quote
(* A quoted value is well formed if its quote is closed and nothing but a comment follows. *)
WellQuoted(r) == LET q == CloseQuote(r, Begin(r) + 1)
                     z == FirstNot(r, " ", q + 1)
                 IN q <= Len(r) /\ (z > Len(r) \/ Ch(r, z) = "/")
(* The text of the value: up to the comment slash, trimmed; of a commentary card: all of the text. *)
ValueText(r) ==
    IF ~IsValueRec(r) THEN Trim(From(r, 9))
    ELSE IF Quoted(r) THEN Slice(r, Begin(r), CloseQuote(r, Begin(r) + 1))
    ELSE Trim(Slice(r, 11, FirstOf(r, "/", 11) - 1))

Val_(v)   == [res |-> "ok", val |-> v]
BadCast   == [res |-> "invalid_cast"]
Open      == [res |-> UNSPEC]

AsStr(r) == IF IsValueRec(r) /\ Quoted(r)
            THEN LET q == CloseQuote(r, Begin(r) + 1)
                 IN IF WellQuoted(r) THEN Val_(Trim(UndoubleQ(Slice(r, Begin(r) + 1, q - 1)))) ELSE Open
            ELSE IF ~IsValueRec(r) /\ Len(ValueText(r)) > 1 /\ Ch(ValueText(r), 1) = Quote THEN Open
            ELSE Val_(ValueText(r))

AsInt(x, lo, hi) == IF ~IsInt(x) THEN BadCast
                    ELSE IF lo = "0" /\ Ch(x, 1) = "-" THEN Open
                    ELSE IF IntInRange(x, lo, hi) THEN Val_(NormInt(x)) ELSE BadCast
AsReal(x) == IF IsReal(x) THEN Val_(x)
             ELSE IF x = "" \/ Ch(x, 1) \notin (DigitChars \union {"+", "-", "."}) THEN
                  (IF x \in {"inf", "nan", "INF", "NAN", "infinity", "Infinity"} THEN Open ELSE BadCast)
             ELSE Open
OneOf(t, x) ==
    CASE t = "bool"  -> IF x \in {"T", "F"} THEN Val_(x) ELSE BadCast
      [] t = "int"   -> AsInt(x, "2147483648", "2147483647")
      [] t = "uint"  -> AsInt(x, "0", "4294967295")
      [] t = "ll"    -> AsInt(x, "9223372036854775808", "9223372036854775807")
      [] t = "size"  -> AsInt(x, "0", "18446744073709551615")
      [] t \in {"dbl", "flt"} -> AsReal(x)

Part(t) == CASE t = "cint" -> "int" [] t = "cdbl" -> "dbl" [] t = "cflt" -> "flt" [] t = "csize" -> "size"
AsComplex(t, x) ==
    LET sp == FirstOf(x, " ", 1)
    IN IF sp > Len(x) THEN BadCast
       ELSE LET a == OneOf(Part(t), Upto(x, sp - 1))  b == OneOf(Part(t), Trim(From(x, sp)))
            IN IF a.res = "invalid_cast" \/ b.res = "invalid_cast" THEN BadCast
               ELSE IF a.res = UNSPEC \/ b.res = UNSPEC THEN Open
               ELSE Val_(<<a.val, b.val>>)

ReadAs(r, t) == IF t = "str" THEN AsStr(r)
                ELSE IF IsValueRec(r) /\ Quoted(r) /\ ~WellQuoted(r) THEN Open
                ELSE IF t \in {"cint", "cdbl", "cflt", "csize"} THEN AsComplex(t, ValueText(r))
                ELSE OneOf(t, ValueText(r))

(* ------------------------------ the object ------------------------------- *)
See(o, r) == o @@ [raw |-> r, key |-> Trim(Keyword(r)), wkey |-> Keyword(r)]
Done(r) == [st |-> r, obs |-> See([res |-> "ok"], r)]
Refuse(r) == [st |-> r, obs |-> See([res |-> "invalid_card"], r)]

CardStep(r, op) ==
    CASE op.op = "parse" -> IF MustAccept(op.raw) THEN Done(op.raw)
                            ELSE IF MayAccept(op.raw) THEN [st |-> r, obs |-> Open] ELSE Refuse(r)
      [] op.op = "create" -> IF FitsRecord(op.key, Serial(op.t, op.v), op.c)
                             THEN Done(Record(op.key, Serial(op.t, op.v), op.c)) ELSE Refuse(r)
      [] op.op = "ctor" -> IF FitsRecord(op.key, Serial("str", op.v), op.c)
                           THEN Done(Record(op.key, Serial("str", op.v), op.c)) ELSE Refuse(r)
      [] op.op = "copy" -> Done(r)                                                  \* and the original is then overwritten
      [] op.op = "eq" -> IF ~MustAccept(op.raw) THEN [st |-> r, obs |-> See(Open, r)] ELSE [st |-> r, obs |-> See(Val_(IF r = op.raw THEN "T" ELSE "F"), r)]
      [] op.op = "commentary" -> IF KeyOK(op.key) /\ Len(op.text) <= 70
                                 THEN Done(CommentaryRecord(op.key, op.text)) ELSE Refuse(r)
      [] op.op = "set" -> IF FitsRecord(Trim(Keyword(r)), Serial(op.t, op.v), "")
                          THEN Done(PadRight(PadRight(Keyword(r), 8) \o "= " \o Serial(op.t, op.v), RecLen))
                          ELSE [st |-> r, obs |-> See([res |-> "ok"], r)]           \* does not fit: nothing happens
      [] op.op = "read" -> [st |-> r, obs |-> See(ReadAs(r, op.t), r)]
      [] op.op = "vwc"  -> [st |-> r, obs |-> See(Val_(Trim(From(r, 11))), r)]

(* ------------------------------ properties ------------------------------- *)
TypeOK(r) == r = NoRec \/ Len(r) \in 8..RecLen
(* What is created is a whole record, the keyword in its field, and reads back as what was put in. *)
CreatedWell(op, r) ==
    /\ Len(r) = RecLen /\ MustAccept(r) /\ Trim(Keyword(r)) = Trim(op.key)
    /\ LET got == ReadAs(r, op.t)
       IN got.res = "ok" /\ got.val = (IF op.t = "str" THEN Trim(op.v) ELSE op.v)
=============================================================================
