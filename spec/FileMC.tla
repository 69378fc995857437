------------------------------- MODULE FileMC -------------------------------
(* Bounded behaviours of File: shapes of files, files cut short, malformed files, and histories of calls.              *)
EXTENDS File, Json
CONSTANTS Mode, MaxLen, Deep
VARIABLES pick, sys, hist
vars == <<pick, sys, hist>>

(* ---------------------------- building blocks ---------------------------- *)
VC(k, v) == TrimR(Record(k, PadLeft(v, 20), ""))
SC(k, v) == TrimR(Record(k, Serial("str", v), ""))
Filler(i) == CASE i % 6 = 0 -> VC("KEY" \o Dec(i), Dec(i * 7))
               [] i % 6 = 1 -> "COMMENT a/b 'c' = " \o Dec(i)
               [] i % 6 = 2 -> SC("STR" \o Dec(i), "it's a/b")
               [] i % 6 = 3 -> ""
               [] i % 6 = 4 -> "HISTORY made by " \o Dec(i)
               [] i % 6 = 5 -> VC("ENDING" \o Dec(i % 10), "1.5") \o " / not the end"
Fill(cs, total) == cs \o [i \in 1..(total - 1 - Len(cs)) |-> IF Filler(i) = "" THEN Rep(" ", 8) ELSE Filler(i)]   \* END makes `total`
Rule(k, a, b, n) == [k |-> k, a |-> a, b |-> b, n |-> n, ed |-> {}]
AxisCards(ax) == <<VC("NAXIS", Dec(Len(ax)))>> \o [i \in DOMAIN ax |-> VC("NAXIS" \o Dec(i), Dec(ax[i]))]
BW(bp) == CASE bp = 8 -> 1 [] bp = 16 -> 2 [] bp \in {32, -32} -> 4 [] bp = -64 -> 8
Els(ax) == IF ax = <<>> THEN 0 ELSE Product(ax)
Prim(bp, ax, ext, total) ==
    LET base == <<VC("SIMPLE", "T"), VC("BITPIX", Dec(bp))>> \o AxisCards(ax) \o (IF ext = "" THEN <<>> ELSE <<VC("EXTEND", ext)>>)
    IN Hdu(Fill(base, total), Rule("bin", 7, 3, BW(bp) * Els(ax)))
Bin(w, rows, name, total) ==
    LET base == <<SC("XTENSION", "BINTABLE"), VC("BITPIX", "8")>> \o AxisCards(<<w, rows>>)
                \o <<VC("PCOUNT", "0"), VC("GCOUNT", "1"), VC("TFIELDS", "2"), SC("TTYPE1", "FIRST"), SC("TFORM1", "1B"), SC("TTYPE2", "REST"), SC("TFORM2", Dec(w - 1) \o "B")>>
                \o (IF name = "" THEN <<>> ELSE <<SC("EXTNAME", name)>>)
    IN Hdu(Fill(base, total), Rule("bin", 11, 32, w * rows))
Asc(w, rows, name, total) ==
    LET base == <<SC("XTENSION", "TABLE"), VC("BITPIX", "8")>> \o AxisCards(<<w, rows>>)
                \o <<VC("PCOUNT", "0"), VC("GCOUNT", "1"), VC("TFIELDS", "2"), SC("TTYPE1", "C1"), SC("TFORM1", "A2"), VC("TBCOL1", "1"), SC("TTYPE2", "C2"), SC("TFORM2", "A" \o Dec(w - 2)), VC("TBCOL2", "3")>>
                \o (IF name = "" THEN <<>> ELSE <<SC("EXTNAME", name)>>)
    IN Hdu(Fill(base, total), Rule("txt", 13, 5, w * rows))
Img(bp, ax, type, total) ==
    LET base == <<SC("XTENSION", type), VC("BITPIX", Dec(bp))>> \o AxisCards(ax) \o <<VC("PCOUNT", "0"), VC("GCOUNT", "1")>>
    IN Hdu(Fill(base, total), Rule("bin", 5, 1, BW(bp) * Els(ax)))

(* ------------------------------- the files ------------------------------- *)
Bps == {8, 16, 32, -32, -64}
AxesSet == {<<>>, <<0>>, <<1>>, <<5>>, <<360>>, <<720>>, <<1440>>, <<2880>>, <<2881>>, <<2879>>, <<3, 4>>, <<36, 80>>, <<2, 3, 4>>, <<0, 5>>, <<5, 0>>, <<2, 2, 2, 2>>}
Totals == {0, 35, 36, 37, 72, 73}
PrimFiles == {<<Prim(bp, ax, "T", 0)>> : bp \in Bps, ax \in AxesSet}
        \cup {<<Prim(bp, ax, "", t)>> : bp \in {8, -64}, ax \in {<<>>, <<1>>, <<2880>>, <<360>>}, t \in Totals}
        \cup {<<Prim(8, <<>>, e, t)>> : e \in {"T", "F", ""}, t \in Totals}
Bins == {Bin(w, rows, n, t) : w \in {2, 8, 80, 81}, rows \in {1, 36}, n \in {"EVENTS"}, t \in {0, 36}}
    \cup {Bin(2880, 1, "", 37), Bin(2881, 1, "X", 35), Bin(1440, 2, "A/B", 72), Bin(5, 0, "EMPTY", 0), Bin(9, 0, "EMPTY", 36)}
Ascs == {Asc(w, rows, n, t) : w \in {4, 80, 81}, rows \in {1, 36}, n \in {"TAB"}, t \in {0, 36}}
    \cup {Asc(2880, 1, "", 37), Asc(2881, 1, "", 35), Asc(7, 0, "NONE", 0), Asc(7, 0, "", 36)}
Imgs == {Img(16, <<3, 4>>, "IMAGE", 0), Img(8, <<2880>>, "IMAGE", 36), Img(-64, <<>>, "IMAGE", 37), Img(8, <<7>>, "A3DTABLE", 0)}
P0 == Prim(8, <<>>, "T", 0)
P1 == Prim(16, <<5>>, "T", 36)
P2 == Prim(-64, <<360>>, "T", 37)
ExtFiles == {<<p, e>> : p \in {P0, P1, P2}, e \in Bins \cup Ascs}
       \cup {<<p, e, a>> : p \in {P1}, e \in {Bin(8, 36, "E", 0), Bin(2880, 1, "", 37), Bin(5, 0, "EMPTY", 36)}, a \in Ascs}
       \cup {<<P0, a, e>> : a \in {Asc(4, 1, "T", 0), Asc(7, 0, "", 36)}, e \in Bins}
ImgFiles == {<<P1, i>> : i \in Imgs} \cup {<<P0, i, e>> : i \in Imgs, e \in {Bin(8, 36, "E", 0), Asc(81, 36, "T", 36)}}
       \cup {<<P2, Asc(4, 1, "T", 0), i, Bin(8, 3, "E", 0)>> : i \in Imgs}
(* several extensions of one type *)
TwinFiles == {<<P0, Bin(8, 36, "E", 0), Bin(2, 1, "F", 36)>>, <<P1, Bin(2880, 1, "E", 37), Bin(5, 0, "", 36), Bin(81, 36, "G", 0)>>, <<P0, Asc(4, 1, "T", 0), Asc(81, 36, "T", 36)>>,
              <<P2, Bin(8, 36, "E", 0), Asc(80, 36, "A", 36), Bin(8, 36, "E", 0), Asc(7, 0, "", 0)>>, <<P0, Bin(9, 3, "", 0), Bin(9, 3, "", 0)>>}
(* large: many blocks of data, of header, many axes, many HDUs *)
LargeFiles == {<<Prim(8, <<70000>>, "T", 0)>>, <<Prim(16, <<300, 301>>, "", 180)>>, <<Prim(-64, <<128, 129>>, "T", 181)>>, <<Prim(8, <<1, 2, 1, 1, 1, 3, 1, 1, 1, 2, 1, 5>>, "T", 0)>>, <<Prim(-32, <<65536>>, "F", 0)>>,
               <<P0, Bin(100, 1003, "LONG", 0), Asc(133, 701, "LONGER", 145)>>, <<P1, Asc(20, 6001, "", 0), Bin(7001, 12, "WIDE", 36)>>,
               <<Prim(8, <<70000>>, "T", 0), Bin(65536, 2, "B", 0)>>, <<P0, Bin(1, 70001, "TALL", 0), Asc(2, 33001, "TALL2", 0)>>, <<Prim(8, <<>>, "T", 400), Bin(3, 5, "AFTER", 0)>>, <<P0, Asc(7, 2, "MANY", 500), Bin(3, 5, "AFTER", 0)>>,
               <<P0>> \o [i \in 1..12 |-> IF i % 2 = 0 THEN Bin(4 + i, 3 * i, "B" \o Dec(i), 30 + i) ELSE Asc(5 + i, 300 \div i, "A" \o Dec(i), 30 + i)]}
ShapeFiles == LargeFiles \cup PrimFiles \cup ExtFiles \cup ImgFiles \cup TwinFiles
HasImg(f) == \E i \in DOMAIN f : f[i].says.kind \in {"image", "other"}

CutBase == {<<Prim(16, <<5>>, "T", 0), Bin(8, 5, "E", 0), Asc(10, 3, "A", 0)>>, <<Prim(8, <<2880>>, "T", 36), Bin(2881, 1, "E", 37)>>, <<P0, Asc(80, 36, "A", 36)>>,
            <<Prim(-32, <<3, 3>>, "", 0)>>, <<P0>>, <<P0, Bin(8, 5, "E", 0), Bin(3, 2, "F", 0)>>}
CutsOf(hs) == UNION { LET s == StartOf(hs, i)  he == s + HeaderLen(hs[i])  d == DataAt(hs, i)  de == d + hs[i].data.n
                     IN {s, s + 1, s + 79, s + 80, s + 81, s + 400, s + 479, he - 81, he - 80, he - 79, he - 1, he, he + 1, d - 1, d, d + 1, de - 1, de, de + 1, d + Up(hs[i].data.n) - 1, d + Up(hs[i].data.n)}
                        \cup (IF Deep THEN {s + 40 * k : k \in 0..(Span(hs[i]) \div 40)} ELSE {}) : i \in DOMAIN hs }

(* malformed: one card dropped, or replaced *)
Drop(cs, i) == SubSeq(cs, 1, i - 1) \o SubSeq(cs, i + 1, Len(cs))
MalBase == {<<Prim(16, <<5, 2>>, "T", 0), Bin(8, 5, "E", 0)>>, <<P0, Asc(10, 3, "A", 0)>>}
Swaps == {VC("BITPIX", "64"), VC("BITPIX", "7"), VC("BITPIX", "T"), SC("BITPIX", "8"), VC("BITPIX", "8.0"), VC("BITPIX", "-16"), VC("BITPIX", "0"), VC("NAXIS", "T"), VC("NAXIS", "1.5"), VC("NAXIS", "9"), SC("NAXIS", "none"),
          VC("NAXIS1", "T"), VC("NAXIS2", ""), VC("NAXIS", "-1"), VC("NAXIS", "-18446744073709551615"), VC("NAXIS1", "-1"), VC("NAXIS1", "-5"), VC("NAXIS2", "-1"), VC("NAXIS2", "-18446744073709551614"),
          \* counted in 64 bits as nothing, or as a few bytes
          VC("NAXIS1", "4611686018427387904"), VC("NAXIS1", "4611686018427387905"), VC("NAXIS1", "9223372036854775807"), VC("NAXIS1", "3689348814741910324"), VC("NAXIS1", "6148914691236517206"),
          VC("NAXIS2", "2305843009213693952"), VC("NAXIS2", "5534023222112865485"), VC("NAXIS2", "1844674407370955162"), VC("NAXIS2", "9223372036854775808"),
          VC("SIMPLE", "1"), SC("SIMPLE", "T"), VC("GCOUNT", "x"), SC("PCOUNT", "none"), VC("TFIELDS", "T"), VC("TFIELDS", "3")}
BadCards == {"not a card", "bitpix  =8", "A=1", "lower   x"}
SetKey(cs, c) == [i \in DOMAIN cs |-> IF Upto(cs[i], 8) = Upto(c, 8) THEN c ELSE cs[i]]
PutAt(hs, n, cs) == [hs EXCEPT ![n] = Hdu(cs, @.data)]
Own(h) == SubSeq(h.cards, 1, Len(h.cards) - 1)                       \* without END
Malformed == {f \in UNION { LET cs == Own(h[n])
                            IN {PutAt(h, n, Drop(cs, i)) : i \in 1..Len(cs)} \cup {PutAt(h, n, SetKey(cs, c)) : c \in Swaps}
                               \cup {PutAt(h, n, SubSeq(cs, 1, k) \o <<c>> \o SubSeq(cs, k + 1, Len(cs))) : c \in BadCards, k \in {0, 1, 3, Len(cs)}}
                          : h \in MalBase, n \in 1..2 } : \E n \in DOMAIN f : f[n].says.bad}

EditLib == {<<P1, Bin(8, 5, "E", 0), Asc(10, 3, "A", 0)>>, <<P0, Asc(80, 36, "A", 36), Bin(3, 700, "E", 37)>>, <<P2, Bin(4, 1, "E", 0), Asc(5, 1, "A", 0), Bin(9, 320, "F", 36)>>,
            <<P0, Bin(2880, 1, "E", 0)>>, <<P1, Asc(1440, 2, "A", 0)>>}
HistLib == {<<Prim(16, <<5>>, "T", 0), Bin(8, 2, "E", 0)>>, <<Prim(8, <<2880>>, "", 36), Asc(10, 3, "A", 0)>>, <<Prim(-64, <<2, 2>>, "F", 0)>>}

(* The library: every file has a number; behaviours name files by number.  The definitions are printed once. *)
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
Lib == SeqOf(CASE Mode = "shape" -> ShapeFiles [] Mode = "cut" -> CutBase [] Mode = "bad" -> Malformed [] Mode = "hist" -> HistLib [] Mode \in {"edit", "edits"} -> EditLib)
ASSUME \A k \in DOMAIN Lib : PrintT("@@" \o ToJson([def |-> k, hdus |-> Lib[k], parts |-> Parts(Lib[k]), size |-> Size(Lib[k])]))
ASSUME Mode \in {"shape", "cut", "hist", "edit", "edits"} => \A k \in DOMAIN Lib : Aligned(Lib[k]) /\ \A i \in DOMAIN Lib[k] : Honest(Lib[k][i])

(* ------------------------------- behaviours ------------------------------ *)
FileOp(slot, k, cut) == [op |-> "file", slot |-> slot, id |-> k, hdus |-> Lib[k], cut |-> cut]
Opens(r, slot, mode, how) == [op |-> "open", r |-> r, slot |-> slot, mode |-> mode, how |-> how]
(* Shape: one script a file. *)
(* what a file is written over: another one, or one longer than any *)
Longer(k) == IF k % 3 = 0 THEN 1 + (k % Len(Lib)) ELSE CHOOSE j \in DOMAIN Lib : Len(Lib[j]) > 10
Probe(k) == LET h == Lib[k]  n == Len(h)
                Keys(i) == <<"BITPIX", "NAXIS1", "EXTNAME", "TFORM2", "KEY6", "STR2", "ENDING5", "NOSUCH", "NAXI", "END">>
                Ask(i) == IF h[i].says.kind \in {"image", "other"} THEN <<>>
                        ELSE <<[op |-> "axis", r |-> 0, i |-> i - 1, k |-> 1], [op |-> "axis", r |-> 1, i |-> i - 1, k |-> 2], [op |-> "axis", r |-> 0, i |-> i - 1, k |-> 0], [op |-> "axis", r |-> 0, i |-> i - 1, k |-> Len(h[i].says.axes) + 1]>>
                             \o [j \in 1..10 |-> [op |-> "val", r |-> 0, i |-> i - 1, key |-> Keys(i)[j], t |-> "str"]]
                             \o [j \in 1..3 |-> [op |-> "val", r |-> 1, i |-> i - 1, key |-> <<"BITPIX", "KEY6", "NAXIS">>[j], t |-> "int"]]
                             \o [j \in 1..10 |-> [op |-> "has", r |-> 1, i |-> i - 1, key |-> Keys(i)[j]]]
                             \o <<[op |-> "same", r |-> 0, i |-> i - 1, q |-> 1, j |-> i - 1]>>
                             \o (IF i > 1 /\ h[1].says.kind = "primary" THEN <<[op |-> "same", r |-> 0, i |-> i - 1, q |-> 1, j |-> 0]>> ELSE <<>>)
                RECURSIVE Cat(_)
                Cat(i) == IF i > n THEN <<>> ELSE Ask(i) \o Cat(i + 1)
            IN <<FileOp("a", k, -1), Opens(0, "a", "all", "new"), Opens(1, "a", "headers", "new"), FileOp("b", Longer(k), -1)>> \o Cat(1)
               \o [i \in 1..(n + 3) |-> [op |-> "at", r |-> i % 2, i |-> IF i > n + 1 THEN n + 1 - i ELSE i - 1]]
               \o <<[op |-> "named", r |-> 0, name |-> "primary_hdu"], [op |-> "named", r |-> 0, name |-> "TABLE"], [op |-> "named", r |-> 1, name |-> "BINTABLE"], [op |-> "named", r |-> 0, name |-> "NOSUCH"]>>
               \o (IF HasImg(h) THEN <<>>
                   ELSE <<[op |-> "write", r |-> 0, slot |-> "no/such/place"], [op |-> "write", r |-> 0, slot |-> "/dev/full"], [op |-> "write", r |-> 0, slot |-> "b"], [op |-> "bytes", slot |-> "b"], Opens(1, "b", "all", "re"), [op |-> "show", r |-> 0],
                          [op |-> "write", r |-> 1, slot |-> "a"], [op |-> "bytes", slot |-> "a"], [op |-> "bytes", slot |-> "b"]>>)
Script(k) == CASE Mode = "shape" -> Probe(k)
               [] Mode = "bad" -> <<FileOp("a", k, -1), Opens(0, "a", "all", "new"), Opens(0, "a", "headers", "new"), Opens(0, "a", "all", "re"), Opens(1, "b", "all", "new"), Opens(1, "b", "headers", "re"), Opens(0, "no/such/place", "all", "new")>>
CutScript(k, c) == <<FileOp("a", k, c), Opens(0, "a", "all", "new"), Opens(1, "a", "headers", "new"), Opens(0, "a", "all", "re")>>

(* Read, edit, write, read again: cells at the ends and in the middle of every table, by every way of editing. *)
Tables(h) == {i \in DOMAIN h : h[i].says.kind \in {"binary", "ascii"}}
Cells(h, i) == {0, h[i].says.axes[2] \div 2, h[i].says.axes[2] - 1} \X {1, 2}
EditOp(r, i, x, b, how) == [op |-> "edit", r |-> r, i |-> i - 1, row |-> x[1], col |-> x[2], b |-> b, how |-> how]
EditHows == {"proxy", "update", "iter", "named"}
EditScript(k, i, x, how) ==
    LET h == Lib[k]  b == IF h[i].says.kind = "ascii" THEN 65 + (x[1] % 26) ELSE (200 + x[1] + x[2]) % 256
        y == <<0, 3 - x[2]>>
        All(r) == [j \in 1..3 |-> [op |-> "as", r |-> r, i |-> i - 1, kind |-> <<"primary", "binary", "ascii">>[j]]] \o <<[op |-> "as", r |-> r, i |-> 0, kind |-> "primary"], [op |-> "as", r |-> r, i |-> 0, kind |-> "binary"]>>
    IN <<FileOp("a", k, -1), Opens(0, "a", "all", "new"), Opens(1, "a", "all", "re"), EditOp(0, i, x, b, how), [op |-> "show", r |-> 0], [op |-> "show", r |-> 1], EditOp(1, i, x, 66, "copy"), [op |-> "show", r |-> 1]>>
       \o All(0) \o <<[op |-> "write", r |-> 1, slot |-> "c"], [op |-> "bytes", slot |-> "c"], [op |-> "write", r |-> 0, slot |-> "b"], [op |-> "bytes", slot |-> "b"], [op |-> "bytes", slot |-> "a"],
             Opens(1, "b", "all", "re"), EditOp(1, i, y, 67, "proxy"), EditOp(1, i, x, 68, how), EditOp(1, i, x, b, "update"), [op |-> "show", r |-> 0], [op |-> "write", r |-> 1, slot |-> "a"], [op |-> "bytes", slot |-> "a"],
             Opens(0, "a", "all", "new"), [op |-> "refill", r |-> 0, i |-> i - 1, data |-> [h[i].data EXCEPT !.a = 17, !.b = 1]], [op |-> "show", r |-> 0], EditOp(0, i, y, 69, how), [op |-> "show", r |-> 0],
             [op |-> "write", r |-> 0, slot |-> "b"], [op |-> "bytes", slot |-> "b"], Opens(1, "b", "headers", "re"), Opens(1, "b", "all", "re")>>
Slots == {"a", "b", "c", "w"}
Sys0 == [disk |-> [s \in Slots |-> NoFile], reader |-> [r \in {0, 1} |-> None]]
Run(s, ops) == LET RECURSIVE Go(_, _, _)
                   Go(st, i, h) == IF i > Len(ops) THEN [st |-> st, hist |-> h]
                                   ELSE LET a == FileStep(st, ops[i]) IN Go(a.st, i + 1, Append(h, [op |-> ops[i], exp |-> a.obs]))
               IN Go(s, 1, <<>>)
Slim(h) == [i \in DOMAIN h |-> IF h[i].op.op = "file" THEN [h[i] EXCEPT !.op = [op |-> "file", slot |-> @.slot, id |-> @.id, cut |-> @.cut]] ELSE h[i]]
HistStart == LET f == <<FileOp("a", 1, -1), FileOp("b", 2, -1), FileOp("c", 3, IF Mode = "edits" THEN -1 ELSE 2890)>> IN Run(Sys0, f)
EditsOf(s) == UNION {UNION {{EditOp(r, i, x, b, w) : x \in Cells(s.reader[r].file.hdus, i), b \in {65, 90}, w \in {"proxy", "named", "copy"}}
                            \cup {[op |-> "refill", r |-> r, i |-> i - 1, data |-> [s.reader[r].file.hdus[i].data EXCEPT !.a = a, !.ed = {}]] : a \in {19, 23}}
                            : i \in Tables(s.reader[r].file.hdus)}
                     : r \in {q \in {0, 1} : s.reader[q].st = "open" /\ s.reader[q].mode = "all"}}
HistOps(s) ==
    {Opens(r, x, m, w) : r \in {0, 1}, x \in {y \in Slots : s.disk[y] # NoFile} \cup {"missing"}, m \in {"all", "headers"}, w \in {"new", "re"}}
    \cup {[op |-> "write", r |-> r, slot |-> x] : r \in {q \in {0, 1} : s.reader[q].st = "open" /\ s.reader[q].mode = "all"}, x \in {"w", "a", "no/such/place"}}
    \cup UNION {{[op |-> "show", r |-> r], [op |-> "named", r |-> r, name |-> "BINTABLE"], [op |-> "at", r |-> r, i |-> 1], [op |-> "val", r |-> r, i |-> 0, key |-> "BITPIX", t |-> "int"]} : r \in {q \in {0, 1} : s.reader[q].st = "open"}}
    \cup {[op |-> "bytes", slot |-> x] : x \in {y \in {"w", "a"} : s.disk[y] # NoFile}}
    \cup (IF Mode = "edits" THEN EditsOf(s) ELSE {})

Picks == CASE Mode \in {"shape", "bad"} -> {<<k, -1>> : k \in DOMAIN Lib}
           [] Mode = "cut" -> UNION {{<<k, c>> : c \in {x \in CutsOf(Lib[k]) : x > 0 /\ x < Size(Lib[k])}} : k \in DOMAIN Lib}
           [] Mode = "edit" -> UNION {{<<k, i, x, w>> : x \in Cells(Lib[k], i), w \in {v \in EditHows : v = "named" => \A j \in Tables(Lib[k]) : j # i => Lib[k][j].says.name # Lib[k][i].says.name}} : <<k, i>> \in {<<a, b>> \in (DOMAIN Lib) \X (1..5) : b \in Tables(Lib[a])}}
           [] Mode \in {"hist", "edits"} -> {<<0, 0>>}
Init == /\ pick \in Picks
        /\ IF Mode \in {"hist", "edits"} THEN sys = HistStart.st /\ hist = HistStart.hist ELSE sys = Sys0 /\ hist = <<>>
Next == /\ pick' = pick
        /\ IF Mode \notin {"hist", "edits"} THEN hist = <<>> /\ sys' = sys /\ hist' = Run(Sys0, IF Mode = "cut" THEN CutScript(pick[1], pick[2]) ELSE IF Mode = "edit" THEN EditScript(pick[1], pick[2], pick[3], pick[4]) ELSE Script(pick[1])).hist
           ELSE /\ Len(hist) < MaxLen + 3
                /\ \E op \in HistOps(sys) : LET a == FileStep(sys, op) IN sys' = a.st /\ hist' = Append(hist, [op |-> op, exp |-> a.obs])
Spec == Init /\ [][Next]_vars
view == IF Mode \in {"hist", "edits"} THEN <<sys, Len(hist)>> ELSE <<pick, Len(hist)>>
Emit == PrintT("@@" \o ToJson(Slim(hist')))
EmitEnd == Len(hist) < MaxLen + 3 \/ PrintT("@@" \o ToJson(Slim(hist)))

InvFile == \A s \in Slots : SameHdus(sys.disk[s]) /\ Persist(sys.disk[s])
InvRead == \A r \in {0, 1} : sys.reader[r].st = "open" => Readable(sys.reader[r].file, sys.reader[r].mode)
(* Malformed files are never read; a shape always is. *)
InvBad == Mode = "bad" /\ hist # <<>> => \A i \in 2..7 : hist[i].exp.res = FAIL
InvShape == Mode = "shape" /\ hist # <<>> => hist[2].exp.res = "ok" /\ hist[3].exp.res = "ok" /\ hist[2].exp.n = Len(Lib[hist[1].op.id])
(* A cut file is read only if no header and no data is missing from it. *)
InvCut == Mode = "cut" /\ hist # <<>> => (hist[2].exp.res = "ok" => hist[3].exp.res = "ok")
=============================================================================
