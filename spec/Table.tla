-------------------------------- MODULE Table --------------------------------
(* Binary and ASCII tables (basic_binary_table_extension, basic_ascii_table) and the views of their columns.           *)
(*                                                                                                                     *)
(* State: table objects in slots, and column views held by the user.  A table is its columns and its cells; a cell of  *)
(* a binary table is its bytes, of an ASCII table its text.  A view has no value of its own: it shows the cells.       *)
(* Values cross the boundary as sequences of elements, an element as its bytes, the most significant first.            *)
EXTENDS Text, TLC, FiniteSets

UNSPEC == "*"
FAIL == "!"

(* ------------------------------- formats --------------------------------- *)
BinTypes == {"L", "X", "B", "I", "J", "A", "E", "D", "C", "M", "P"}
ElemSize(c) == CASE c \in {"L", "X", "B", "A"} -> 1 [] c = "I" -> 2 [] c \in {"J", "E"} -> 4 [] c \in {"D", "C", "P"} -> 8 [] c = "M" -> 16
FormType(f) == Ch(f, Len(f))
FormCount(f) == IF Len(f) = 1 THEN 1 ELSE IntVal(Upto(f, Len(f) - 1))
FormOK(f) == f # "" /\ Len(f) < 12 /\ FormType(f) \in BinTypes /\ (Len(f) = 1 \/ AllDigits(Upto(f, Len(f) - 1)))
BinWidth(f) == IF FormType(f) = "X" THEN (FormCount(f) + 7) \div 8 ELSE FormCount(f) * ElemSize(FormType(f))
BinElems(f) == IF FormType(f) = "X" THEN BinWidth(f) ELSE FormCount(f)

AscTypes == {"A", "I", "F", "E", "D"}
AscType(f) == Ch(f, 1)
AscDigits(f) == Slice(f, 2, FirstOf(f, ".", 1) - 1)
AscWidth(f) == IntVal(AscDigits(f))
AscFormOK(f) == f # "" /\ AllDigits(AscDigits(f))
FormsOK(kind, cols) == \A i \in DOMAIN cols : IF kind = "binary" THEN FormOK(cols[i].form) ELSE AscFormOK(cols[i].form)

(* -------------------------------- values --------------------------------- *)
Sub(s, i, j) == IF i > j THEN <<>> ELSE SubSeq(s, i, j)
Chunks(b, w) == [k \in 1..(Len(b) \div w) |-> SubSeq(b, (k - 1) * w + 1, k * w)]
RECURSIVE Join(_, _, _)
Join(ss, i, j) == IF i > j THEN <<>> ELSE IF i = j THEN ss[i] ELSE LET m == (i + j) \div 2 IN Join(ss, i, m) \o Join(ss, m + 1, j)
Flat(ss) == Join(ss, 1, Len(ss))
Logical(b) == IF b = 84 THEN 84 ELSE 70                              \* T or not
(* the elements of a cell of a field of type c *)
Elements(c, cell) == IF c = "L" THEN [i \in DOMAIN cell |-> <<Logical(cell[i])>>] ELSE Chunks(cell, ElemSize(c))
Cell(elems) == Flat(elems)

Expo(x) == LET e == FirstOf(x, "e", 1)  f == FirstOf(x, "E", 1)  at == IF e < f THEN e ELSE f IN IF at >= Len(x) THEN 0 ELSE IntVal(Unsign(From(x, at + 1)))
AscRead(t, x) == CASE t = "str" -> [res |-> "ok", val |-> x]
                   [] t = "ll" -> IF IsInt(x) /\ IntInRange(x, "9223372036854775808", "9223372036854775807") THEN [res |-> "ok", val |-> NormInt(x)] ELSE [res |-> "invalid_cast"]
                   [] t = "flt" /\ IsReal(x) /\ Expo(x) > 30 -> [res |-> UNSPEC]                           \* 1e+100: beyond a float
                   [] t \in {"dbl", "flt"} -> IF IsReal(x) THEN [res |-> "ok", val |-> x]
                                              ELSE IF x = "" \/ Ch(x, 1) \notin (DigitChars \cup {"+", "-", "."}) THEN [res |-> "invalid_cast"] ELSE [res |-> UNSPEC]

(* -------------------------------- tables --------------------------------- *)
NoTable == [kind |-> "none", cols |-> <<>>, cells |-> <<>>, width |-> 0, rows |-> 0]
Widths(kind, cols) == [i \in DOMAIN cols |-> IF kind = "binary" THEN BinWidth(cols[i].form) ELSE AscWidth(cols[i].form)]
RECURSIVE SumTo(_, _)
SumTo(ws, n) == IF n = 0 THEN 0 ELSE ws[n] + SumTo(ws, n - 1)
Starts(kind, cols) == LET w == Widths(kind, cols)                    \* 0-based position of a field in the row
                      IN [i \in DOMAIN cols |-> IF kind = "binary" THEN SumTo(w, i - 1) ELSE cols[i].tbcol - 1]
(* Does the row description hold together? *)
LayoutOK(kind, cols, width) ==
    LET w == Widths(kind, cols)  s == Starts(kind, cols)
    IN IF kind = "binary" THEN SumTo(w, Len(cols)) = width
       ELSE cols # <<>> /\ \A i \in DOMAIN cols : s[i] >= 0 /\ s[i] + w[i] <= width
(* data: a binary table's bytes, or an ASCII table's rows of text; empty: no cells *)
Cut(kind, cols, width, rows, data) ==
    LET w == Widths(kind, cols)  s == Starts(kind, cols)
    IN IF kind = "binary" THEN [r \in 1..rows |-> [c \in DOMAIN cols |-> Sub(data, (r - 1) * width + s[c] + 1, (r - 1) * width + s[c] + w[c])]]
       ELSE [r \in 1..rows |-> [c \in DOMAIN cols |-> Trim(Slice(data[r], s[c] + 1, s[c] + w[c]))]]
DataBytes(kind, data) == IF kind = "binary" THEN Len(data) ELSE IF data = <<>> THEN 0 ELSE Len(data) * Len(data[1])
DataOK(kind, cols, width, rows, data) == FormsOK(kind, cols) /\ LayoutOK(kind, cols, width) /\ DataBytes(kind, data) >= rows * width

ColNo(t, name) == LET I == {i \in DOMAIN t.cols : t.cols[i].name = name}
                  IN IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : i <= j
Ok(o) == [res |-> "ok"] @@ o
(* A cell that was given fewer bytes than its field has is no value of the field's type. *)
ReadCell(t, c, ty, r) == IF t.kind = "binary" /\ Len(t.cells[r][c]) < BinWidth(t.cols[c].form) THEN [res |-> IF FormType(t.cols[c].form) \in {"L", "A"} THEN UNSPEC ELSE FAIL]
                         ELSE IF t.kind = "binary" THEN Ok([val |-> Elements(FormType(t.cols[c].form), t.cells[r][c])]) ELSE AscRead(ty, t.cells[r][c])
Put(t, c, r, v) == [t EXCEPT !.cells[r][c] = IF t.kind = "binary" THEN Cell(v) ELSE v]

FitsRow(t, r) == \A c \in DOMAIN t.cols : IF t.kind = "binary" THEN Len(t.cells[r][c]) = Widths(t.kind, t.cols)[c] ELSE Len(t.cells[r][c]) <= Widths(t.kind, t.cols)[c]
Writable(t) == \A r \in DOMAIN t.cells : FitsRow(t, r)
Written(t) == IF t.kind = "binary" THEN Flat([r \in DOMAIN t.cells |-> Flat(t.cells[r])]) ELSE [r \in DOMAIN t.cells |-> [c \in DOMAIN t.cols |-> Trim(t.cells[r][c])]]

Reloaded(t) == IF t.kind = "binary" THEN t ELSE [t EXCEPT !.cells = Written(t)]

Dflt(x, d) == IF x = "" THEN d ELSE x
Meta(t, c) == [index |-> c, form |-> t.cols[c].form, name |-> t.cols[c].name, unit |-> t.cols[c].unit, scal |-> Dflt(t.cols[c].scal, "1"), zero |-> Dflt(t.cols[c].zero, "0"),
               start |-> IF t.kind = "binary" THEN Starts(t.kind, t.cols)[c] ELSE t.cols[c].tbcol]
              @@ (IF t.kind = "binary" THEN [disp |-> t.cols[c].disp, dim |-> t.cols[c].dim, elements |-> BinElems(t.cols[c].form)] ELSE [disp |-> UNSPEC])

(* ------------------------------- the system ------------------------------ *)
(* A view either lives in the table ("ref": what get_column returns, gone when the table's contents are replaced) or is *)
(* the user's own ("own": a copy; it follows the table object as long as that lives).                                   *)
NoView == [t |-> -1, c |-> 0, ty |-> "", own |-> ""]
SameCols(a, b) == a.kind = b.kind /\ a.cols = b.cols
TableStep(s, op) ==
    LET t == IF "t" \in DOMAIN op THEN s.table[op.t] ELSE NoTable
        c == IF "col" \in DOMAIN op THEN ColNo(t, op.col) ELSE 0
        v == IF "h" \in DOMAIN op THEN s.view[op.h] ELSE NoView
        Same(o) == [st |-> s, obs |-> o]
        Drop(st, k, all) == [st EXCEPT !.view = [h \in DOMAIN @ |-> IF @[h].t = k /\ (all \/ @[h].own = "ref") THEN NoView ELSE @[h]]]
        All(st) == [k \in 1..Cardinality(DOMAIN st.table) |-> st.table[k - 1].cells]
        To(st) == [st |-> st, obs |-> Ok([all |-> All(st)])]
        Took(st) == [st |-> st, obs |-> Ok([all |-> All(st), kept |-> TRUE])]                                   \* the element assigned to has the value, too
    IN CASE op.op = "make" -> IF FormsOK(op.kind, op.cols) /\ (op.data = <<>> \/ DataOK(op.kind, op.cols, op.width, op.rows, op.data))
                              THEN [st |-> Drop([s EXCEPT !.table[op.t] = [kind |-> op.kind, cols |-> op.cols, width |-> op.width, rows |-> op.rows,
                                                   cells |-> IF op.data = <<>> THEN <<>> ELSE Cut(op.kind, op.cols, op.width, op.rows, op.data)]], op.t, TRUE),
                                    obs |-> [res |-> "ok"]]
                              ELSE Same([res |-> FAIL])
         [] op.op = "set" -> IF DataOK(t.kind, t.cols, t.width, t.rows, op.data)
                             THEN To(Drop([s EXCEPT !.table[op.t].cells = Cut(t.kind, t.cols, t.width, t.rows, op.data)], op.t, FALSE))
                             ELSE [st |-> Drop(s, op.t, FALSE), obs |-> [res |-> FAIL]]
         [] op.op = "copy" -> To(Drop([s EXCEPT !.table[op.to] = t], op.to, TRUE))                               \* a new object, the old one gone
         [] op.op = "assign" -> To(Drop([s EXCEPT !.table[op.to] = t], op.to, ~SameCols(t, s.table[op.to])))
         [] op.op = "get" -> IF c = 0 THEN Same([res |-> FAIL]) ELSE Same(ReadCell(t, c, op.ty, op.row))
         [] op.op = "scan" -> Same(LET cs == [r \in DOMAIN t.cells |-> ReadCell(t, c, op.ty, r)]
                                   IN IF \E r \in DOMAIN cs : cs[r].res = UNSPEC THEN [res |-> UNSPEC]
                                      ELSE IF \E r \in DOMAIN cs : cs[r].res # "ok" THEN [res |-> FAIL]
                                      ELSE Ok([vals |-> [r \in DOMAIN cs |-> cs[r].val], rows |-> Len(t.cells), column |-> c]))
         [] op.op = "edit" -> Took([s EXCEPT !.table[op.t] = Put(t, c, op.row, op.v)])
         [] op.op = "hold" -> [st |-> [s EXCEPT !.view[op.h] = [t |-> op.t, c |-> c, ty |-> op.ty, own |-> op.own]], obs |-> Ok([rows |-> Len(t.cells), column |-> c])]
         [] op.op = "hget" -> Same(ReadCell(s.table[v.t], v.c, v.ty, op.row))
         [] op.op = "hedit" -> Took([s EXCEPT !.table[v.t] = Put(s.table[v.t], v.c, op.row, op.v)])
         [] op.op = "poke" -> To([s EXCEPT !.table[op.t] = Put(t, op.c, op.row, op.v)])
         [] op.op = "raw" -> Same(Ok([cells |-> t.cells]))
         [] op.op = "write" -> IF Writable(t) THEN Same(Ok([data |-> Written(t), blocks |-> (Len(t.cells) * t.width + 2879) \div 2880, fill |-> "blank"])) ELSE Same([res |-> FAIL])
         [] op.op = "reload" -> To(Drop([s EXCEPT !.table[op.to] = Reloaded(t)], op.to, TRUE))                   \* written, and read again
         [] op.op = "meta" -> IF c = 0 THEN Same([res |-> FAIL]) ELSE Same(Ok([meta |-> Meta(t, c)]))
         [] op.op = "form" -> LET f == Trim(op.form)
                              IN Same(IF op.kind = "ascii" THEN (IF AscFormOK(f) THEN Ok([size |-> AscWidth(f), type |-> AscType(f)]) ELSE [res |-> FAIL])
                                      ELSE IF ~FormOK(f) THEN [res |-> FAIL]
                                      ELSE Ok([size |-> BinWidth(f), count |-> FormCount(f), type |-> FormType(f)]))

(* ------------------------------- properties ------------------------------ *)
(* An edit changes one cell and nothing else. *)
OneCell(a, b, r, c) == /\ DOMAIN a.cells = DOMAIN b.cells /\ a.cols = b.cols
                       /\ \A i \in DOMAIN a.cells : \A j \in DOMAIN a.cols : (i # r \/ j # c) => a.cells[i][j] = b.cells[i][j]
(* What is written, read again, is the table. *)
Rereads(t) == t.kind = "binary" /\ Writable(t) /\ t.width > 0 => Cut(t.kind, t.cols, t.width, Len(t.cells), Written(t)) = t.cells
(* Cells fit the columns they were cut for. *)
CutFits(t) == t.kind # "none" => \A r \in DOMAIN t.cells : DOMAIN t.cells[r] = DOMAIN t.cols
(* Values survive a trip through a cell. *)
RoundTrip(f, v) == Elements(FormType(f), Cell(v)) = v
=============================================================================
