-------------------------------- MODULE File --------------------------------
(* FITS files on disk and the objects that read and write them (fits, fits_io, header, the HDU types).                 *)
(*                                                                                                                     *)
(* A file is symbolic: a sequence of HDUs, each with its cards and the rule that gives its data bytes, and the length  *)
(* it is cut to.  The disk maps slots to files; a reader holds the HDUs it read.  What a reader shows is a function of *)
(* the file alone.                                                                                                     *)
EXTENDS Card, Integers

Block == 2880
Up(n) == ((n + Block - 1) \div Block) * Block
FAIL == "!"                                     \* some exception; which one is left open
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x

(* -------------------------------- headers -------------------------------- *)
(* A header is its cards, each 80 characters, the last one END. *)
Raw80(c) == PadRight(c, 80)
EndCard == Raw80("END")
Where(cs, k) == LET k8 == PadRight(k, 8) IN {i \in DOMAIN cs : SubSeq(cs[i], 1, 8) = k8}
Has(cs, k) == Where(cs, k) # {}
ValueOf(cs, k, t) == LET w == Where(cs, k) IN IF w = {} THEN [res |-> "out_of_range"] ELSE ReadAs(cs[MaxOf(w)], t)
IntOf(cs, k) == LET v == ValueOf(cs, k, "ll") IN IF v.res = "ok" THEN IntVal(v.val) ELSE -1

RECURSIVE Product(_)
Product(s) == IF s = <<>> THEN 1 ELSE Head(s) * Product(Tail(s))

BitpixOK == {"8", "16", "32", "-32", "-64"}
Width(b) == CASE b = "8" -> 1 [] b = "16" -> 2 [] b \in {"32", "-32"} -> 4 [] b = "-64" -> 8
Group(cs, k, dflt) == LET v == ValueOf(cs, k, "int") IN IF v.res = "ok" THEN IntVal(v.val) ELSE dflt

KindOf(cs) == IF Has(cs, "SIMPLE") THEN "primary"
              ELSE LET x == ValueOf(cs, "XTENSION", "str")
                   IN IF x.res # "ok" THEN FAIL
                      ELSE CASE x.val = "TABLE" -> "ascii" [] x.val = "BINTABLE" -> "binary" [] x.val = "IMAGE" -> "image" [] OTHER -> "other"
(* What an extension cannot do without. *)
Needs(cs, kind) == LET nf == LET v == ValueOf(cs, "TFIELDS", "size") IN IF v.res = "ok" THEN IntVal(v.val) ELSE 0
                   IN CASE kind \in {"binary", "ascii"} -> {"GCOUNT", "PCOUNT", "TFIELDS"} \cup {"TFORM" \o Dec(i) : i \in 1..nf}
                                                           \cup (IF kind = "ascii" THEN {"TBCOL" \o Dec(i) : i \in 1..nf} ELSE {})
                        [] OTHER -> {}
HduBad(cs, kind) == \/ kind = FAIL
                    \/ kind = "primary" /\ ValueOf(cs, "SIMPLE", "bool").res # "ok"
                    \/ \E k \in Needs(cs, kind) : ~Has(cs, k)
                    \/ \E k \in Needs(cs, kind) \cap {"GCOUNT", "PCOUNT", "TFIELDS"} : ValueOf(cs, k, "int").res # "ok"

(* An axis is not negative, and all of them together are no more bytes than a file can have.  What the axes multiply   *)
(* to is beyond TLC: no less than their first two digits and as many zeros as digits follow those.  Nothing between what   *)
(* TLC can count and what this refuses is made here.                                                                  *)
Count(v) == IF v.res = "ok" THEN (IF Ch(v.val, 1) = "-" THEN BadCast ELSE v) ELSE v
RECURSIVE Leads(_), Follow(_)
Leads(s) == IF s = <<>> THEN 1 ELSE IntVal(Upto(Head(s), IF Len(Head(s)) > 1 THEN 2 ELSE 1)) * Leads(Tail(s))
Follow(s) == IF s = <<>> THEN 0 ELSE (IF Len(Head(s)) > 1 THEN Len(Head(s)) - 2 ELSE 0) + Follow(Tail(s))
Zeros == <<1, 10, 100, 1000, 10000, 100000, 1000000, 10000000>>
TooMuch(s, w) == LET f == Follow(s) IN f > 11 /\ Leads(s) > 0 /\ (f > 18 \/ Leads(s) * w >= Zeros[20 - f])

(* Everything a header says, or that it is no header: [bad |-> TRUE]. *)
NotAHeader == [bad |-> TRUE, kind |-> "", name |-> "", bitpix |-> "", axes |-> <<>>, elements |-> 0, bytes |-> 0]
Look(cs) ==
    LET b == ValueOf(cs, "BITPIX", "int")
        n == Count(ValueOf(cs, "NAXIS", "ll"))
        ax == [i \in 1..IntVal(n.val) |-> Count(ValueOf(cs, "NAXIS" \o Dec(i), "ll"))]
        axes == [i \in DOMAIN ax |-> IntVal(ax[i].val)]
        els == IF axes = <<>> THEN 0 ELSE Product(axes)
        kind == KindOf(cs)
        x == ValueOf(cs, "XTENSION", "str")
    IN IF \/ \E i \in DOMAIN cs : ~MustAccept(cs[i])
          \/ b.res # "ok" \/ n.res # "ok"
       THEN NotAHeader
       ELSE IF b.val \notin BitpixOK \/ (\E i \in DOMAIN ax : ax[i].res # "ok") \/ HduBad(cs, kind)
       THEN NotAHeader
       ELSE IF TooMuch([i \in DOMAIN ax |-> ax[i].val], Width(b.val))
       THEN NotAHeader
       ELSE [bad |-> FALSE, kind |-> kind, name |-> IF x.res = "ok" THEN x.val ELSE "primary_hdu", bitpix |-> b.val, axes |-> axes, elements |-> els,
             bytes |-> Width(b.val) * Group(cs, "GCOUNT", 1) * (Group(cs, "PCOUNT", 0) + els)]

(* --------------------------------- files --------------------------------- *)
(* An HDU in a file: its cards, what they say, and the rule of its data bytes. *)
Hdu(cards, data) == LET cs == [i \in 1..(Len(cards) + 1) |-> IF i > Len(cards) THEN EndCard ELSE Raw80(cards[i])]
                    IN [cards |-> cs, says |-> Look(cs), data |-> data]
HeaderLen(h) == 80 * Len(h.cards)
Span(h) == Up(HeaderLen(h)) + Up(h.data.n)
RECURSIVE StartOf(_, _)
StartOf(hs, i) == IF i = 1 THEN 0 ELSE StartOf(hs, i - 1) + Span(hs[i - 1])
Size(hs) == IF hs = <<>> THEN 0 ELSE StartOf(hs, Len(hs)) + Span(hs[Len(hs)])
DataAt(hs, i) == StartOf(hs, i) + Up(HeaderLen(hs[i]))
Length(f) == IF f.cut < 0 THEN Size(f.hdus) ELSE f.cut

(* Reading stops at the end of the file and fails where a card or the data is not all there.  HDUs written in a file   *)
(* agree with their headers (the data rule gives as many bytes as the header says); `cut` may remove some.             *)
Seen(f) == {i \in DOMAIN f.hdus : StartOf(f.hdus, i) < Length(f)}
HeaderThere(f, i) == StartOf(f.hdus, i) + HeaderLen(f.hdus[i]) <= Length(f)
DataThere(f, i) == f.hdus[i].data.n = 0 \/ DataAt(f.hdus, i) + f.hdus[i].data.n <= Length(f)
Readable(f, mode) == \A i \in Seen(f) : HeaderThere(f, i) /\ ~f.hdus[i].says.bad /\ (mode = "all" => DataThere(f, i))
Shown(f, i, mode) ==
    LET h == f.hdus[i]  s == h.says
    IN IF s.kind \in {"image", "other"} THEN [kind |-> UNSPEC]        \* see the known findings
       ELSE [kind |-> s.kind, name |-> s.name, bitpix |-> s.bitpix, axes |-> s.axes, dims |-> Len(s.axes), elements |-> s.elements,
             cards |-> Len(h.cards) - 1]
            @@ (IF s.kind = "primary" THEN [simple |-> ValueOf(h.cards, "SIMPLE", "bool").val = "T",
                                            extend |-> ValueOf(h.cards, "EXTEND", "bool") = Val_("T")] ELSE [kind |-> s.kind])
            @@ (IF mode = "all" THEN [data |-> h.data] ELSE [data |-> UNSPEC])
Listing(f) == [i \in 1..Cardinality(Seen(f)) |-> [name |-> f.hdus[i].says.name, header |-> StartOf(f.hdus, i), data |-> DataAt(f.hdus, i), index |-> i - 1]]

(* ------------------------------- the system ------------------------------ *)
(* Names are to tell HDUs apart; what the listing of a file with a name used twice holds is left open (known findings).  *)
Dups(f) == \E i, j \in Seen(f) : i # j /\ f.hdus[i].says.name = f.hdus[j].says.name
Shows(f, mode) == [n |-> Cardinality(Seen(f)), hdus |-> [i \in 1..Cardinality(Seen(f)) |-> Shown(f, i, mode)]]
                  @@ (IF Dups(f) THEN [n |-> Cardinality(Seen(f))] ELSE [list |-> Listing(f)])
NoFile == [id |-> "", hdus |-> <<>>, cut |-> 0]
None == [st |-> "none", mode |-> "", file |-> NoFile]
Ok(o) == [res |-> "ok"] @@ o
(* Where no file can be made, and where none can be filled *)
Nowhere == {"no/such/place", "/dev/full"}
Open_(s, op) ==
    LET f == IF op.slot \in DOMAIN s.disk THEN s.disk[op.slot] ELSE NoFile
    IN IF f # NoFile /\ Readable(f, op.mode)
       THEN [st |-> [s EXCEPT !.reader[op.r] = [st |-> "open", mode |-> op.mode, file |-> f]],
             obs |-> Ok(Shows(f, op.mode) @@ [path |-> op.slot] @@ (IF Dups(f) THEN [path |-> op.slot] ELSE [total |-> Cardinality(Seen(f))]))]
       ELSE [st |-> [s EXCEPT !.reader[op.r] = IF op.how = "new" THEN @ ELSE [None EXCEPT !.st = "undefined"]], obs |-> [res |-> FAIL]]

Parts(hs) == LET P(i) == <<[off |-> StartOf(hs, i), len |-> HeaderLen(hs[i]), cards |-> hs[i].cards],
                           [off |-> StartOf(hs, i) + HeaderLen(hs[i]), len |-> Up(HeaderLen(hs[i])) - HeaderLen(hs[i]), blank |-> TRUE],
                           [off |-> DataAt(hs, i), len |-> hs[i].data.n, data |-> hs[i].data]>>
                 RECURSIVE Cat(_)
                 Cat(i) == IF i > Len(hs) THEN <<>> ELSE P(i) \o Cat(i + 1)
             IN Cat(1)

H(s, op) == s.reader[op.r].file.hdus[op.i + 1]
(* Cells of the tables of an open file.  `ed` of a data rule holds the bytes that are no longer what the rule says.     *)
(* The tables that are edited have two columns, the first of one byte (binary) or two characters (ASCII).               *)
CellBytes(h, row, col) == LET w == h.says.axes[1]  c == IF h.says.kind = "ascii" THEN 2 ELSE 1
                          IN {row * w + x : x \in (IF col = 1 THEN 0..(c - 1) ELSE c..(w - 1))}
Put(d, P, b) == [d EXCEPT !.ed = {e \in @ : e[1] \notin P} \cup {<<p, b>> : p \in P}]
FileStep(s, op) ==
    CASE op.op = "file" -> [st |-> [s EXCEPT !.disk[op.slot] = [id |-> op.id, hdus |-> op.hdus, cut |-> op.cut]],
                            obs |-> Ok([size |-> Length([hdus |-> op.hdus, cut |-> op.cut])])]
      [] op.op = "open" -> Open_(s, op)
      [] op.op = "show" -> [st |-> s, obs |-> Ok(Shows(s.reader[op.r].file, s.reader[op.r].mode))]
      (* a file is written whole, or the caller is told *)
      [] op.op = "write" /\ op.slot \in Nowhere -> [st |-> s, obs |-> [res |-> FAIL]]
      [] op.op = "write" -> [st |-> [s EXCEPT !.disk[op.slot] = [s.reader[op.r].file EXCEPT !.cut = -1]], obs |-> [res |-> "ok"]]
      [] op.op = "bytes" -> [st |-> s, obs |-> Ok([size |-> Size(s.disk[op.slot].hdus), file |-> s.disk[op.slot].id, data |-> [i \in DOMAIN s.disk[op.slot].hdus |-> s.disk[op.slot].hdus[i].data]])]   \* the Parts of that file
      [] op.op = "val" -> [st |-> s, obs |-> ValueOf(H(s, op).cards, op.key, op.t)]
      [] op.op = "has" -> [st |-> s, obs |-> Ok([val |-> Has(H(s, op).cards, op.key)])]
      [] op.op = "axis" -> [st |-> s, obs |-> IF op.k \in DOMAIN H(s, op).says.axes THEN Ok([val |-> H(s, op).says.axes[op.k]]) ELSE [res |-> "out_of_range"]]
      [] op.op = "at" -> [st |-> s, obs |-> LET f == s.reader[op.r].file
                                            IN IF op.i + 1 \in Seen(f) THEN Ok([hdu |-> Shown(f, op.i + 1, s.reader[op.r].mode)]) ELSE [res |-> "out_of_range"]]
      [] op.op = "named" -> [st |-> s, obs |-> LET f == s.reader[op.r].file  I == {i \in Seen(f) : f.hdus[i].says.name = op.name}
                                               IN IF I = {} THEN [res |-> "out_of_range"] ELSE IF Cardinality(I) > 1 THEN [res |-> UNSPEC]
                                                  ELSE LET i == CHOOSE x \in I : TRUE IN Ok([hdu |-> Shown(f, i, s.reader[op.r].mode)])]
      (* a copy of the HDUs is not the reader *)
      [] op.op = "edit" -> [st |-> IF op.how = "copy" THEN s ELSE [s EXCEPT !.reader[op.r].file.hdus[op.i + 1].data = Put(@, CellBytes(H(s, op), op.row, op.col), op.b)], obs |-> [res |-> "ok"]]
      [] op.op = "refill" -> [st |-> [s EXCEPT !.reader[op.r].file.hdus[op.i + 1].data = op.data], obs |-> [res |-> "ok"]]
      (* an HDU is taken for what it is, and for nothing else *)
      [] op.op = "as" -> [st |-> s, obs |-> IF H(s, op).says.kind = op.kind THEN Ok([hdu |-> Shown(s.reader[op.r].file, op.i + 1, s.reader[op.r].mode)]) ELSE [res |-> FAIL]]
      [] op.op = "same" -> [st |-> s, obs |-> Ok([val |-> H(s, op).cards = s.reader[op.q].file.hdus[op.j + 1].cards])]

(* -------------------------------- properties ------------------------------ *)
(* A file cut nowhere is laid out in whole blocks, one HDU after another, and its listing is what the layout says. *)
Aligned(hs) == /\ Size(hs) % Block = 0
               /\ \A i \in DOMAIN hs : StartOf(hs, i) % Block = 0 /\ DataAt(hs, i) % Block = 0
               /\ \A i \in DOMAIN hs : i > 1 => StartOf(hs, i) >= DataAt(hs, i - 1) + hs[i - 1].data.n
(* The data rule of an HDU gives as many bytes as its header announces. *)
Honest(h) == h.says.bad \/ h.data.n = h.says.bytes
(* Both ways of reading show the same HDUs. *)
SameHdus(f) == Readable(f, "all") => Readable(f, "headers")
(* What was written is read back. *)
Persist(f) == Readable(f, "all") /\ f.cut < 0 => Readable([f EXCEPT !.cut = -1], "all")
=============================================================================
