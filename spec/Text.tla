-------------------------------- MODULE Text --------------------------------
(* Text as TLC strings: the operators the FITS specifications share.          *)
EXTENDS Naturals, Integers, Sequences

Ch(s, i) == SubSeq(s, i, i)

RECURSIVE Rep(_, _)
Rep(c, n) == IF n <= 0 THEN ""
             ELSE IF n = 1 THEN c
             ELSE LET h == Rep(c, n \div 2) IN IF n % 2 = 0 THEN h \o h ELSE h \o h \o c

PadRight(s, n) == s \o Rep(" ", n - Len(s))
PadLeft(s, n)  == Rep(" ", n - Len(s)) \o s

From(s, i) == IF i > Len(s) THEN "" ELSE SubSeq(s, i, Len(s))
Upto(s, i) == IF i < 1 THEN "" ELSE SubSeq(s, 1, IF i > Len(s) THEN Len(s) ELSE i)
Slice(s, i, j) == IF i > j \/ i > Len(s) THEN "" ELSE SubSeq(s, i, IF j > Len(s) THEN Len(s) ELSE j)

(* Searching; runs of eight blanks are skipped at once, for TLC's sake. *)
Blanks8 == "        "
RECURSIVE FirstNot(_, _, _)      \* first position >= i whose character is not c, Len+1 if none
FirstNot(s, c, i) == IF i > Len(s) THEN Len(s) + 1
                     ELSE IF c = " " /\ i + 7 <= Len(s) /\ SubSeq(s, i, i + 7) = Blanks8 THEN FirstNot(s, c, i + 8)
                     ELSE IF Ch(s, i) # c THEN i ELSE FirstNot(s, c, i + 1)

RECURSIVE FirstOf(_, _, _)       \* first position >= i whose character is c, Len+1 if none
FirstOf(s, c, i) == IF i > Len(s) THEN Len(s) + 1
                    ELSE IF c # " " /\ i + 7 <= Len(s) /\ SubSeq(s, i, i + 7) = Blanks8 THEN FirstOf(s, c, i + 8)
                    ELSE IF Ch(s, i) = c THEN i ELSE FirstOf(s, c, i + 1)

RECURSIVE LastNot(_, _, _)       \* last position <= i whose character is not c, 0 if none
LastNot(s, c, i) == IF i < 1 THEN 0
                    ELSE IF c = " " /\ i >= 8 /\ SubSeq(s, i - 7, i) = Blanks8 THEN LastNot(s, c, i - 8)
                    ELSE IF Ch(s, i) # c THEN i ELSE LastNot(s, c, i - 1)

TrimL(s) == From(s, FirstNot(s, " ", 1))
TrimR(s) == Upto(s, LastNot(s, " ", Len(s)))
Trim(s)  == TrimR(TrimL(s))

RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN "" ELSE Head(ss) \o Concat(Tail(ss))

Quote == "'"
RECURSIVE DoubleQ(_)             \* every quote written twice
DoubleQ(s) == IF s = "" THEN "" ELSE (IF Ch(s, 1) = Quote THEN "''" ELSE Ch(s, 1)) \o DoubleQ(From(s, 2))
RECURSIVE UndoubleQ(_)           \* every pair of quotes written once
UndoubleQ(s) == IF s = "" THEN ""
                ELSE IF Len(s) >= 2 /\ SubSeq(s, 1, 2) = "''" THEN Quote \o UndoubleQ(From(s, 3))
                ELSE Ch(s, 1) \o UndoubleQ(From(s, 2))

(* ------------------------------- numerals -------------------------------- *)
DigitChars == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
RECURSIVE DigitsFrom(_, _)       \* the first position >= i that is not a digit
DigitsFrom(s, i) == IF i > Len(s) THEN i ELSE IF Ch(s, i) \in DigitChars THEN DigitsFrom(s, i + 1) ELSE i
AllDigits(s) == s # "" /\ DigitsFrom(s, 1) > Len(s)
Signed(s)    == s # "" /\ Ch(s, 1) \in {"+", "-"}
Unsign(s)    == IF Signed(s) THEN From(s, 2) ELSE s
IsInt(s)     == AllDigits(Unsign(s))
StripZ(s)    == LET i == FirstNot(s, "0", 1) IN IF i > Len(s) THEN "0" ELSE From(s, i)
NormInt(s)   == LET d == StripZ(Unsign(s)) IN IF d # "0" /\ Ch(s, 1) = "-" THEN "-" \o d ELSE d

DigitVal(c) == CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4
                 [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8 [] c = "9" -> 9
RECURSIVE DigitsLE(_, _)         \* a <= b for digit strings of one length
DigitsLE(a, b) == IF a = "" THEN TRUE
                  ELSE LET x == DigitVal(Ch(a, 1))  y == DigitVal(Ch(b, 1))
                       IN x < y \/ (x = y /\ DigitsLE(From(a, 2), From(b, 2)))
NumLE(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ DigitsLE(a, b))      \* stripped digit strings
IntInRange(s, lo, hi) ==         \* lo: digits of the largest magnitude below zero, hi: of the largest value
    LET d == StripZ(Unsign(s)) IN IF Ch(s, 1) = "-" THEN NumLE(d, lo) ELSE NumLE(d, hi)

RECURSIVE Val(_, _)
ValAux(s, acc) == acc * 10 + DigitVal(Ch(s, 1))
Val(s, acc) == IF s = "" THEN acc ELSE Val(From(s, 2), ValAux(s, acc))
IntVal(s) == LET v == Val(Unsign(s), 0) IN IF Ch(s, 1) = "-" THEN 0 - v ELSE v       \* small numerals only

(* [sign] digits [ . [digits] ] [ (e|E) [sign] digits ]  with a digit before the point *)
IsReal(s) ==
    LET u == Unsign(s)
        p == DigitsFrom(u, 1)
        q == IF p <= Len(u) /\ Ch(u, p) = "." THEN DigitsFrom(u, p + 1) ELSE p
        e == From(u, q)
    IN /\ p > 1
       /\ (e = "" \/ (Ch(e, 1) \in {"e", "E"} /\ IsInt(From(e, 2))))

(* numbers as decimal text *)
Digit(n) == SubSeq("0123456789", n + 1, n + 1)
RECURSIVE Dec(_)
Dec(n) == IF n < 0 THEN "-" \o Dec(0 - n) ELSE IF n < 10 THEN Digit(n) ELSE Dec(n \div 10) \o Digit(n % 10)
=============================================================================
