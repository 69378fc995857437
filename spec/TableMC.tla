------------------------------- MODULE TableMC -------------------------------
(* Behaviours of tables, bounded.  Mode "bin"/"asc": one script a table, over a library of table descriptions;          *)
(* "refuse": descriptions that do not hold together; "hist": all short histories of edits, views and copies.            *)
EXTENDS Table, Json
CONSTANTS Mode, MaxLen, Deep
VARIABLES pick, sys, mem, hist
vars == <<pick, sys, mem, hist>>

Col(name, form) == [name |-> name, form |-> form, tbcol |-> 0, unit |-> "", scal |-> "", zero |-> "", disp |-> "", dim |-> ""]
ACol(name, form, at) == [Col(name, form) EXCEPT !.tbcol = at]

(* ------------------------------ binary tables ---------------------------- *)
Pat(p, n) == [i \in 1..n |-> CASE p = "ramp" -> (37 * i + 5) % 256
                               [] p = "tf" -> IF i % 3 = 1 \/ i % 7 = 2 THEN 84 ELSE 70
                               [] p = "space" -> IF i % 5 = 0 THEN 9 + (i % 5) ELSE 32
                               [] p = "zero" -> 0
                               [] p = "ones" -> 255
                               [] p = "high" -> (128 + 13 * i) % 256
                               [] p = "quote" -> <<39, 32, 84, 0, 255, 10, 47>>[1 + (i % 7)]]
Pats == {"ramp", "tf", "space", "zero", "ones", "high", "quote"}
Counts == {"", "1", "2", "3", "8", "9", "0", "17"}
Big == IF Deep THEN {"100", "1000"} ELSE {"100"}
(* every column with a description of its own *)
Described(cs) == [i \in DOMAIN cs |-> [cs[i] EXCEPT !.unit = "u" \o Dec(i), !.scal = Dec(i) \o ".5", !.zero = "-" \o Dec(10 * i), !.disp = "I" \o Dec(i), !.dim = "(" \o Dec(i) \o ",1)"]]
(* names that are not quite a column's *)
Near == <<"nosuch", "", "mi", "MID", "midd", "c", "C1", "c13", " mid", "mid ">>
BinCols == {<<Col("left", "B"), Col("mid", n \o t), Col("right", "I")>> : n \in Counts, t \in BinTypes}
      \cup {<<Col("mid", n \o t)>> : n \in {"", "2"} \cup Big, t \in BinTypes}
      \cup {<<Col("mid", "J"), [Col("z", "0A") EXCEPT !.unit = "km/s"], Col("right", t)>> : t \in {"L", "D"}}
      \cup {<<[Col("mid", "2E") EXCEPT !.unit = "deg", !.scal = "2.1", !.zero = "-32768", !.disp = "F8.3", !.dim = "(1,2)"],
              [Col("it's", "12X") EXCEPT !.scal = "0.001"], [Col("a/b c", "I") EXCEPT !.zero = "1.23456789e+200"]>>,
            Described(<<Col("c1", "L"), Col("c2", "X"), Col("c3", "B"), Col("c4", "I"), Col("c5", "J"), Col("c6", "A"), Col("c7", "E"), Col("mid", "D"), Col("c9", "C"), Col("c10", "M"), Col("c11", "P"), Col("c12", "3J")>>),
            <<Col("c1", "7A"), Col("c2", "2M"), Col("c3", "3L"), Col("mid", "11X"), Col("c5", "2P"), Col("c6", "2C"), Col("c7", "3D"), Col("c8", "4E"), Col("c9", "5J"), Col("c10", "6I"), Col("c11", "9B")>>}
BinTab(cols, rows, p) == LET w == SumTo(Widths("binary", cols), Len(cols))
                         IN [op |-> "make", t |-> 0, kind |-> "binary", cols |-> cols, width |-> w, rows |-> rows, data |-> Pat(p, rows * w)]
BinLib == IF Mode # "bin" THEN {} ELSE {BinTab(c, r, p) : c \in BinCols, r \in (IF Deep THEN {1, 2, 5} ELSE {2}), p \in (IF Deep THEN Pats ELSE {"ramp", "tf", "space"})}
     \cup {BinTab(c, r, p) : c \in {x \in BinCols : Len(x) # 3}, r \in {0, 1, 3}, p \in Pats}
Ty(f) == IF FormCount(f) = 1 /\ (FormType(f) # "X" \/ Len(f) = 1) THEN FormType(f) ELSE "v" \o FormType(f)
(* values to store, of the column's type *)
Elem(c, k) == IF c = "L" THEN <<(<<84, 70>>)[1 + (k % 2)]>> ELSE [i \in 1..ElemSize(c) |-> (<<32, 0, 255, 127, 128, 84, 1, 9>>)[1 + ((i + k) % 8)]]
BinVals(f) == {[i \in 1..BinElems(f) |-> Elem(FormType(f), k * i + k)] : k \in 0..3}
         \cup (IF FormType(f) = "L" THEN {} ELSE {[i \in 1..BinElems(f) |-> [j \in 1..ElemSize(FormType(f)) |-> b]] : b \in {0, 255}})
         \cup (IF FormType(f) \in {"I", "J", "P"} THEN {[i \in 1..BinElems(f) |-> [j \in 1..ElemSize(FormType(f)) |-> IF j = 1 THEN h ELSE 255 - b]] : h \in {127, 128}, b \in {0, 255}} ELSE {})
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
SortSeq_(S) == SortSeq(SeqOf(S), LAMBDA a, b : a < b)
At(m) == [c \in DOMAIN m.cols |-> <<Starts(m.kind, m.cols)[c], Widths(m.kind, m.cols)[c]>>]
WriteOp(m, k) == [op |-> "write", t |-> k] @@ (IF m.kind = "ascii" THEN [at |-> At(m)] ELSE [op |-> "write"])
CatN(F(_), n) == LET RECURSIVE G(_) G(i) == IF i > n THEN <<>> ELSE F(i) \o G(i + 1) IN G(1)
Twin(ty) == LET c == Ch(ty, Len(ty)) IN Upto(ty, Len(ty) - 1) \o (CASE c = "B" -> "A" [] c = "A" -> "B" [] c = "J" -> "E" [] c = "E" -> "J" [] OTHER -> c)
Hows == <<"update", "proxy", "iter", "late", "elem">>
BinScript(m) ==
    LET n == Len(m.cols)
        T(i) == Ty(m.cols[i].form)
        Edits(i) == LET vs == SeqOf(BinVals(m.cols[i].form))
                    IN CatN(LAMBDA k : <<[op |-> "edit", t |-> 0, col |-> m.cols[i].name, ty |-> T(i), row |-> 1 + (k % m.rows), v |-> vs[k], how |-> Hows[1 + (k % 5)]],
                                         [op |-> "get", t |-> 0, col |-> m.cols[i].name, ty |-> IF k % 2 = 0 THEN T(i) ELSE Twin(T(i)), row |-> 1 + (k % m.rows)]>>, Len(vs))
        Mid == CHOOSE i \in 1..n : m.cols[i].name = "mid"
        \* values alike in all but one byte, one after the other in one cell
        Alike(i, p, b) == LET t == FormType(m.cols[i].form)  e == BinElems(m.cols[i].form)  z == IF t = "L" THEN 70 ELSE 0
                          IN [k \in 1..e |-> [j \in 1..ElemSize(t) |-> IF (k - 1) * ElemSize(t) + j = p THEN b ELSE z]]
        Tails(i) == LET w == BinWidth(m.cols[i].form)  G == [op |-> "get", t |-> 0, col |-> m.cols[i].name, ty |-> T(i), row |-> 1]
                        E(p, k) == <<[op |-> "edit", t |-> 0, col |-> m.cols[i].name, ty |-> T(i), row |-> 1, v |-> Alike(i, p, 84), how |-> Hows[1 + (k % 5)]], G,
                                     [op |-> "poke", t |-> 0, c |-> i, row |-> 1, v |-> Alike(i, IF p > 1 THEN p - 1 ELSE w, 84)], G>>
                    IN IF w < 2 THEN <<>> ELSE CatN(LAMBDA k : E((<<1, w \div 2, w \div 2 + 1, w - 1, w>>)[k], k), 5)
    IN <<m, [op |-> "raw", t |-> 0]>>
       \o [i \in 1..n |-> [op |-> "meta", t |-> 0, col |-> m.cols[i].name]] \o [k \in DOMAIN Near |-> [op |-> "meta", t |-> 0, col |-> Near[k]]] \o <<[op |-> "get", t |-> 0, col |-> "nosuch", ty |-> "J", row |-> 1], [op |-> "get", t |-> 0, col |-> "MID", ty |-> "J", row |-> 1]>>
       \o [i \in 1..n |-> [op |-> "scan", t |-> 0, col |-> m.cols[i].name, ty |-> T(i)]]
       \o <<WriteOp(m, 0)>>
       \o (IF m.rows = 0 THEN <<>> ELSE
           CatN(LAMBDA r : CatN(LAMBDA i : <<[op |-> "get", t |-> 0, col |-> m.cols[i].name, ty |-> T(i), row |-> r]>>, n), m.rows)
           \* the same cells as another type of that size
           \o CatN(LAMBDA i : IF Twin(T(i)) = T(i) THEN <<>> ELSE <<[op |-> "get", t |-> 0, col |-> m.cols[i].name, ty |-> Twin(T(i)), row |-> 1], [op |-> "scan", t |-> 0, col |-> m.cols[i].name, ty |-> Twin(T(i))]>>, n)
           \o <<[op |-> "copy", t |-> 0, to |-> 1]>> \o Edits(Mid) \o Tails(Mid) \o (IF Deep THEN CatN(Edits, n) \o CatN(Tails, n) ELSE <<>>)
           \o <<[op |-> "raw", t |-> 0], [op |-> "raw", t |-> 1], WriteOp(m, 0), [op |-> "reload", t |-> 0, to |-> 1]>>
           \o [i \in 1..n |-> [op |-> "scan", t |-> 1, col |-> m.cols[i].name, ty |-> T(i)]]
           \* a value that does not fit the field is not written, and one that does is again
           \o (IF BinWidth(m.cols[Mid].form) = 0 THEN <<>> ELSE
               <<[op |-> "poke", t |-> 0, c |-> Mid, row |-> 1, v |-> <<Pat("ramp", BinWidth(m.cols[Mid].form) - 1)>>], [op |-> "get", t |-> 0, col |-> "mid", ty |-> T(Mid), row |-> 1], WriteOp(m, 0)>>)
           \o <<[op |-> "poke", t |-> 0, c |-> Mid, row |-> 1, v |-> Append(Elements(FormType(m.cols[Mid].form), Pat("zero", BinWidth(m.cols[Mid].form))), <<1>>)], WriteOp(m, 0),
                [op |-> "poke", t |-> 0, c |-> Mid, row |-> 1, v |-> CHOOSE v \in BinVals(m.cols[Mid].form) : TRUE], WriteOp(m, 0)>>)

(* -------------------------------- tall tables ---------------------------- *)
TallLib == IF Mode # "tall" THEN {} ELSE {BinTab(<<Col("mid", "B")>>, 66000, "ramp"), BinTab(<<Col("mid", "I"), Col("z", "B")>>, 33000, "high"),
                  [op |-> "make", t |-> 0, kind |-> "ascii", width |-> 2, rows |-> 33000, cols |-> <<ACol("mid", "A1", 1), ACol("z", "I1", 2)>>,
                   data |-> [r \in 1..33000 |-> (<<"a0", "b7", "/9", "x1", " 2">>)[1 + (r % 5)]]]}
TallRows(m) == {r \in {1, 2, 127, 128, 129, 255, 256, 257, 32766, 32767, 32768, 32769, 33000, 65534, 65535, 65536, 65537, 66000} : r <= m.rows}
TallScript(m) ==
    LET rs == SortSeq_(TallRows(m))
        T(i) == IF m.kind = "binary" THEN Ty(m.cols[i].form) ELSE (<<"str", "ll">>)[i]
        Gets == CatN(LAMBDA k : [i \in DOMAIN m.cols |-> [op |-> "get", t |-> 0, col |-> m.cols[i].name, ty |-> T(i), row |-> rs[k]]], Len(rs))
        New == IF m.kind = "binary" THEN CHOOSE v \in BinVals(m.cols[1].form) : TRUE ELSE "q"
    IN <<m>> \o Gets \o <<[op |-> "edit", t |-> 0, col |-> "mid", ty |-> T(1), row |-> m.rows, v |-> New, how |-> "update"],
                            [op |-> "edit", t |-> 0, col |-> "mid", ty |-> T(1), row |-> 32769, v |-> New, how |-> "proxy"]>> \o Gets \o <<WriteOp(m, 0)>>

(* ------------------------------- ASCII tables ---------------------------- *)
AscForms == <<"A5", "I6", "F8.3", "E12.5", "D14.7", "A1", "I3">>
(* a column's start positions: no gap, gaps, a margin, and the fields out of order *)
Layout(fs, how) == LET w == [i \in DOMAIN fs |-> AscWidth(fs[i])]  g == (CASE how = "tight" -> 0 [] how = "gap" -> 1 [] how = "wide" -> 4 [] how = "back" -> 1)
                       P(i) == IF how = "back" THEN 1 + g * (Len(fs) - i) + SumTo(w, Len(fs)) - SumTo(w, i)
                               ELSE 1 + (IF how = "wide" THEN 3 ELSE 0) + g * (i - 1) + SumTo(w, i - 1)
                   IN [i \in DOMAIN fs |-> P(i)]
RowWidth(fs, how) == LET w == [i \in DOMAIN fs |-> AscWidth(fs[i])]  p == Layout(fs, how)
                         e == [i \in DOMAIN fs |-> p[i] + w[i] - 1]
                     IN (IF how = "wide" THEN 5 ELSE 0) + (CHOOSE x \in {e[i] : i \in DOMAIN fs} : \A i \in DOMAIN fs : e[i] <= x)
Texts(f) == CASE AscType(f) = "A" /\ AscWidth(f) = 1 -> <<"x", "", "9", "/">> [] AscType(f) = "A" -> <<"ab c", "it's", "", "12.5", "/", "abcde", "a'b'c">>
              [] AscType(f) = "I" /\ AscWidth(f) = 3 -> <<"0", "-1", "12", "999", "-99">> [] AscType(f) = "I" -> <<"0", "-1", "12", "999999", "-99999", "7">>
              [] AscType(f) = "F" -> <<"1.5", "-2.25", "0", "123.456", "0.5">>
              [] AscType(f) = "E" -> <<"1e+20", "-1.5e-07", "2.5", "0.0001">> [] AscType(f) = "D" -> <<"1e+100", "-2.25", "123456", "1e-05">>
(* ... and others that are only read: signs, leading zeros, capitals *)
Also(f) == CASE AscType(f) = "A" -> <<>> [] AscType(f) = "I" /\ AscWidth(f) = 3 -> <<"+12", "007">> [] AscType(f) = "I" -> <<"+12345", "000012", "+7", "-00001">>
             [] AscType(f) = "F" -> <<"+1.5", "002.5", "-0.5", "+123.456", "1E+02">> [] OTHER -> <<"+1.5E+10", "1.25E-07", "-2.5e+3", "+00012.5">>
Nat_(f) == CASE AscType(f) = "A" -> "str" [] AscType(f) = "I" -> "ll" [] AscType(f) = "D" -> "dbl" [] OTHER -> "flt"
Field(f, x, j) == IF j = "r" THEN PadLeft(x, AscWidth(f)) ELSE PadRight(x, AscWidth(f))
RowText(fs, how, r, fill) ==
    LET p == Layout(fs, how)  n == RowWidth(fs, how)
        ord == IF how = "back" THEN [k \in DOMAIN fs |-> Len(fs) + 1 - k] ELSE [k \in DOMAIN fs |-> k]
        all == [i \in DOMAIN fs |-> Texts(fs[i]) \o Also(fs[i])]
        X(i) == all[i][1 + ((r + i + 5 * Len(fs) + (IF fill = " " THEN 0 ELSE 3)) % Len(all[i]))]
        RECURSIVE G(_, _)
        G(k, at) == IF k > Len(fs) THEN Rep(fill, n - at + 1)
                    ELSE Rep(fill, p[ord[k]] - at) \o Field(fs[ord[k]], X(ord[k]), IF (r + k) % 2 = 0 THEN "r" ELSE "l") \o G(k + 1, p[ord[k]] + AscWidth(fs[ord[k]]))
    IN G(1, 1)
AscTab(fs, how, rows, fill) ==
    [op |-> "make", t |-> 0, kind |-> "ascii", width |-> RowWidth(fs, how), rows |-> rows,
     cols |-> [i \in DOMAIN fs |-> [ACol(IF i = 1 THEN "mid" ELSE "C" \o Dec(i), fs[i], Layout(fs, how)[i]) EXCEPT !.unit = IF i = 2 THEN "mag" ELSE "", !.scal = (<<"", "0.5", "0.1", "1.23456789012", "1e+300">>)[1 + ((i + Len(fs) + rows + (IF fill = " " THEN 1 ELSE 0)) % 5)],
                                                  !.zero = (<<"-7", "", "0.3333333333", "123456789.125", "-1e-200">>)[1 + ((2 * i + AscWidth(fs[1])) % 5)]]],
     data |-> [r \in 1..rows |-> RowText(fs, how, r, fill)]]
AscSets == {<<AscForms[i]>> : i \in DOMAIN AscForms} \cup {<<AscForms[i], AscForms[j]>> : i, j \in DOMAIN AscForms} \cup {<<"A5", "I6", "F8.3", "E12.5", "D14.7">>, <<"I3", "A1", "A1", "I3">>}
AscLib == IF Mode # "asc" THEN {} ELSE {AscTab(fs, how, rows, fill) : fs \in AscSets, how \in {"tight", "gap", "wide", "back"}, rows \in (IF Deep THEN {1, 2, 7} ELSE {3}), fill \in {" ", "|"}}
AscScript(m) ==
    LET n == Len(m.cols)
        T(i) == Nat_(m.cols[i].form)
        Edits(i) == LET vs == Texts(m.cols[i].form)
                    IN CatN(LAMBDA k : <<[op |-> "edit", t |-> 0, col |-> m.cols[i].name, ty |-> T(i), row |-> 1 + (k % m.rows), v |-> vs[k], how |-> Hows[1 + (k % 5)]],
                                         [op |-> "get", t |-> 0, col |-> m.cols[i].name, ty |-> T(i), row |-> 1 + (k % m.rows)]>>, Len(vs))
        Over(i) == Rep("9", AscWidth(m.cols[i].form) + 1)
    IN <<m, [op |-> "raw", t |-> 0]>> \o [i \in 1..n |-> [op |-> "meta", t |-> 0, col |-> m.cols[i].name]] \o [k \in DOMAIN Near |-> [op |-> "meta", t |-> 0, col |-> Near[k]]]
       \o [i \in 1..n |-> [op |-> "scan", t |-> 0, col |-> m.cols[i].name, ty |-> T(i)]]
       \o <<WriteOp(m, 0), [op |-> "copy", t |-> 0, to |-> 1]>> \o CatN(Edits, n)
       \o <<[op |-> "raw", t |-> 1], WriteOp(m, 0), [op |-> "reload", t |-> 0, to |-> 1]>>
       \o [i \in 1..n |-> [op |-> "scan", t |-> 1, col |-> m.cols[i].name, ty |-> T(i)]]
       \* the text of a cell as other types
       \o <<m>> \o CatN(LAMBDA i : CatN(LAMBDA r : <<[op |-> "get", t |-> 0, col |-> m.cols[i].name, ty |-> (<<"ll", "dbl", "str", "flt">>)[1 + ((i + r + Len(m.cols)) % 4)], row |-> r]>>, m.rows), n)
       \o CatN(LAMBDA i : CatN(LAMBDA k : <<[op |-> "get", t |-> 0, col |-> m.cols[i].name, ty |-> (<<"ll", "dbl", "str", "flt">>)[k], row |-> 1]>>, 4), n)
       \o <<m, [op |-> "poke", t |-> 0, c |-> n, row |-> 1, v |-> Over(n)], [op |-> "raw", t |-> 0], WriteOp(m, 0), [op |-> "poke", t |-> 0, c |-> n, row |-> 1, v |-> From(Over(n), 2)], WriteOp(m, 0)>>

(* -------------------------------- refusals ------------------------------- *)
B2 == BinTab(<<Col("a", "J"), Col("b", "3I")>>, 2, "ramp")
A2 == AscTab(<<"A5", "I6">>, "gap", 2, " ")
SetForm(m, i, f) == [m EXCEPT !.cols[i].form = f]
Refusals ==
    {[B2 EXCEPT !.width = @ + d] : d \in {-1, 1, 10, 1000}} \cup {[B2 EXCEPT !.rows = 3], [B2 EXCEPT !.data = SubSeq(@, 1, Len(@) - 1)], [B2 EXCEPT !.data = SubSeq(@, 1, 1)]}
    \cup {SetForm(B2, i, f) : i \in {1, 2}, f \in {"Z", "3Z", "xJ", "J3", "1.5J", "3 J", "JJ", "4I", "2J", "j", "0J", "K", "1PE", ""}}
    \cup {[SetForm(B2, 1, f) EXCEPT !.width = w] : f \in {"-1X", "-7X", "4611686018427387904J", "9223372036854775808I", "2305843009213693952D", "1152921504606846976M"}, w \in {6, 10}}   \* nothing at all, in 64 bits
    \cup {SetForm(SetForm(B2, 1, f), 2, g) : f \in {"-1B", "-2I"}, g \in {"11B", "14B"}}
    \cup {[A2 EXCEPT !.cols[1].tbcol = p] : p \in {-4, -3, -1}} \cup {[SetForm(A2, 1, f) EXCEPT !.cols[1].tbcol = 2] : f \in {"A-1", "I-1"}}
    \cup {[A2 EXCEPT !.cols[i].tbcol = p] : i \in {1, 2}, p \in {0, 9, 100}} \cup {[A2 EXCEPT !.width = @ - 1], [A2 EXCEPT !.rows = 3], [A2 EXCEPT !.data = SubSeq(@, 1, 1)]}
    \cup {SetForm(A2, i, f) : i \in {1, 2}, f \in {"A", "Ax", "I7", "A99", "", "5A", "F.3"}}
    \cup {[B2 EXCEPT !.data = <<>>], [A2 EXCEPT !.data = <<>>], [B2 EXCEPT !.data = @ \o <<1, 2, 3>>], [B2 EXCEPT !.data = <<>>, !.width = 1]}
Forms == {[op |-> "form", kind |-> "binary", form |-> f] : f \in {x \o t : x \in {"", "0", "1", "2", "7", "8", "9", "16", "17", "100", "007", "1048576"}, t \in BinTypes} \cup {" 3J ", "J  ", "Z", "3Z", "xJ", "J3", "1.5J", "k", "3j"}}
    \cup {[op |-> "form", kind |-> "ascii", form |-> f] : f \in {"A1", "A10", "I6", "F8.3", "E12.5", "D20.10", "F10.", "I007", " A5 ", "A", "Ax", "F.3", "E1x.3"}}
Gone(m) == <<m, [op |-> "meta", t |-> 0, col |-> m.cols[1].name]>>
RefuseScript(o) == IF o.op = "form" THEN <<o>>
                   ELSE <<IF o.kind = "binary" THEN B2 ELSE A2, o, [op |-> "raw", t |-> 0]>>            \* the slot keeps the table it had, or has the new one
SetScript(m, d) == <<m, [op |-> "get", t |-> 0, col |-> m.cols[1].name, ty |-> IF m.kind = "binary" THEN Ty(m.cols[1].form) ELSE "str", row |-> 1], [op |-> "set", t |-> 0, data |-> d], [op |-> "raw", t |-> 0],
                     [op |-> "get", t |-> 0, col |-> m.cols[1].name, ty |-> IF m.kind = "binary" THEN Ty(m.cols[1].form) ELSE "str", row |-> 1], [op |-> "meta", t |-> 0, col |-> m.cols[2].name]>>
Sets == {<<m, d>> : m \in {B2}, d \in {Pat("ones", 20), Pat("ones", 19), Pat("space", 25)}}
   \cup {<<A2, [A2 EXCEPT !.data = <<@[2], @[1]>>].data>>, <<A2, SubSeq(A2.data, 1, 1)>>}

(* -------------------------------- histories ------------------------------ *)
HB(p) == [BinTab(<<Col("a", "J"), Col("b", "2I")>>, 2, p) EXCEPT !.t = IF p = "ramp" THEN 0 ELSE 1]
HA(k) == [AscTab(<<"A5", "I6">>, "gap", 2, " ") EXCEPT !.t = k, !.data = IF k = 0 THEN @ ELSE <<"zz        5 ", "yy        6 ">>]
HistStart == IF Mode = "hist-bin" THEN <<HB("ramp"), HB("high")>> ELSE <<HA(0), HA(1)>>
HTy(c) == IF Mode = "hist-bin" THEN (IF c = 1 THEN "J" ELSE "vI") ELSE (IF c = 1 THEN "str" ELSE "ll")
HName(c) == HistStart[1].cols[c].name
HVal(c, k) == IF Mode = "hist-bin" THEN (IF c = 1 THEN <<Elem("J", k)>> ELSE <<Elem("I", k), Elem("I", k + 2)>>)
              ELSE (IF c = 1 THEN <<"e1", "e2", "e3">>[1 + k] ELSE <<"41", "-42", "43">>[1 + k])
HData(k) == HistStart[k + 1].data
HistOps(s) ==
    {[op |-> "get", t |-> t, col |-> HName(c), ty |-> HTy(c), row |-> r] : t \in {0, 1}, c \in {1, 2}, r \in {1, 2}}
    \cup {[op |-> "edit", t |-> t, col |-> HName(c), ty |-> HTy(c), row |-> c, v |-> HVal(c, t), how |-> w] : t \in {0, 1}, c \in {1, 2}, w \in {"update", "proxy", "iter"}}
    \cup {[op |-> "hold", h |-> h, t |-> t, col |-> HName(c), ty |-> HTy(c), own |-> o] : h \in {0}, t \in {0, 1}, c \in {1, 2}, o \in {"ref", "own"}}
    \cup UNION {{[op |-> "hget", h |-> h, row |-> r] : r \in {1, 2}} \cup {[op |-> "hedit", h |-> h, row |-> s.view[h].c, v |-> HVal(s.view[h].c, 2), how |-> w] : w \in {"update", "proxy", "iter"}}
                : h \in {x \in DOMAIN s.view : s.view[x] # NoView}}
    \cup {[op |-> "poke", t |-> t, c |-> c, row |-> c, v |-> HVal(c, 1 - t)] : t \in {0, 1}, c \in {1, 2}}
    \cup {[op |-> o, t |-> t, to |-> u] : o \in {"copy", "assign", "reload"}, t \in {0, 1}, u \in {0, 1}}
    \cup {[op |-> "set", t |-> t, data |-> HData(1 - t)] : t \in {0, 1}}
    \cup {WriteOp(HistStart[1], t) : t \in {0, 1}} \cup {[op |-> "scan", t |-> t, col |-> HName(c), ty |-> HTy(c)] : t \in {0, 1}, c \in {1, 2}}
(* what an implementation may remember: the cells each column view has been read at *)
Reads(op) == CASE op.op = "get" -> {<<"t", op.t, op.col, op.row>>} [] op.op = "scan" -> {<<"t", op.t, op.col, 1>>, <<"t", op.t, op.col, 2>>}
               [] op.op = "hget" -> {<<"h", op.h, "", op.row>>} [] op.op = "edit" -> {<<"t", op.t, op.col, 0>>} [] OTHER -> {}

Sys0 == [table |-> [k \in {0, 1} |-> NoTable], view |-> [h \in {0} |-> NoView]]
Run(s, ops) == LET RECURSIVE Go(_, _, _)
                   Go(st, i, h) == IF i > Len(ops) THEN [st |-> st, hist |-> h]
                                   ELSE LET a == TableStep(st, ops[i]) IN Go(a.st, i + 1, Append(h, [op |-> ops[i], exp |-> a.obs]))
               IN Go(s, 1, <<>>)
IsHist == Mode \in {"hist-bin", "hist-asc"}
Picks == CASE Mode = "bin" -> BinLib [] Mode = "tall" -> TallLib [] Mode = "asc" -> AscLib [] Mode = "refuse" -> {<<"r", x>> : x \in Refusals} \cup {<<"r", x>> : x \in Forms} \cup {<<"s", x>> : x \in Sets} [] IsHist -> {0}
ScriptOf(p) == CASE Mode = "bin" -> BinScript(p) [] Mode = "tall" -> TallScript(p) [] Mode = "asc" -> AscScript(p)
                 [] Mode = "refuse" -> IF p[1] = "r" THEN RefuseScript(p[2]) ELSE SetScript(p[2][1], p[2][2])
Init == /\ pick \in Picks
        /\ mem = {}
        /\ IF IsHist THEN LET r == Run(Sys0, HistStart) IN sys = r.st /\ hist = r.hist ELSE sys = Sys0 /\ hist = <<>>
Next == /\ pick' = pick
        /\ IF ~IsHist THEN hist = <<>> /\ mem' = mem /\ LET r == Run(Sys0, ScriptOf(pick)) IN sys' = r.st /\ hist' = r.hist
           ELSE /\ Len(hist) < MaxLen + 2
                /\ \E op \in HistOps(sys) : LET a == TableStep(sys, op)
                                            IN sys' = a.st /\ hist' = Append(hist, [op |-> op, exp |-> a.obs]) /\ mem' = mem \cup Reads(op)
Spec == Init /\ [][Next]_vars
view == IF IsHist THEN <<sys, mem, Len(hist)>> ELSE <<pick, Len(hist)>>
Emit == PrintT("@@" \o ToJson(hist'))
EmitEnd == Len(hist) < MaxLen + 2 \/ PrintT("@@" \o ToJson(hist))

(* ---- properties of the specification itself ---- *)
Tables == {sys.table[k] : k \in {0, 1}}
InvFits == \A k \in {0, 1} : CutFits(sys.table[k])
InvRereads == \A k \in {0, 1} : Rereads(sys.table[k])
InvRefused == Mode = "refuse" /\ hist # <<>> /\ hist[1].op.op = "form" => hist[1].exp.res \in {"ok", FAIL}
ASSUME Mode = "bin" => \A m \in BinLib : DataOK(m.kind, m.cols, m.width, m.rows, m.data) /\ \A i \in DOMAIN m.cols : \A v \in BinVals(m.cols[i].form) : RoundTrip(m.cols[i].form, v)
ASSUME Mode = "asc" => \A m \in AscLib : DataOK(m.kind, m.cols, m.width, m.rows, m.data) /\ \A r \in DOMAIN m.data : Len(m.data[r]) = m.width
(* An edit changes the one cell; reading changes nothing; a copy and its original part ways. *)
EditsOne == [][ IsHist =>
    LET op == hist'[Len(hist')].op
        k == IF op.op = "hedit" THEN sys.view[op.h].t ELSE IF "t" \in DOMAIN op THEN op.t ELSE 0
        c == CASE op.op = "hedit" -> sys.view[op.h].c [] op.op = "edit" -> ColNo(sys.table[k], op.col) [] op.op = "poke" -> op.c [] OTHER -> 0
    IN CASE op.op \in {"edit", "hedit", "poke"} -> OneCell(sys.table[k], sys'.table[k], op.row, c) /\ sys'.table[1 - k] = sys.table[1 - k]
         [] op.op \in {"get", "hget", "scan", "write", "hold"} -> sys'.table = sys.table
         [] op.op \in {"copy", "assign", "reload"} -> sys'.table[op.to].cols = sys.table[op.t].cols /\ (op.to # op.t => sys'.table[op.t] = sys.table[op.t])
         [] OTHER -> TRUE ]_vars
=============================================================================
