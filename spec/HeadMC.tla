------------------------------- MODULE HeadMC -------------------------------
EXTENDS Head, Json
CONSTANTS Mode, MaxLen
VARIABLES pick, heads, hist
vars == <<pick, heads, hist>>
Heads0 == [h \in {0, 1} |-> Nothing]
VC(k, v) == TrimR(Record(k, PadLeft(v, 20), ""))
SC(k, v) == TrimR(Record(k, Serial("str", v), ""))
Axes(ax) == <<VC("NAXIS", Dec(Len(ax)))>> \o [i \in DOMAIN ax |-> VC("NAXIS" \o Dec(i), ax[i])]
Base(bp, ax) == <<VC("SIMPLE", "T"), VC("BITPIX", bp)>> \o Axes(ax)
Ext(x, bp, ax) == <<SC("XTENSION", x), VC("BITPIX", bp)>> \o Axes(ax)
End == <<"END">>
Like(n) == [i \in 1..n |-> CASE i % 4 = 0 -> VC("KEY" \o Dec(i), Dec(i)) [] i % 4 = 1 -> "COMMENT NAXIS1  = " \o Dec(i) [] i % 4 = 2 -> SC("EXTNAM" \o Dec(i % 10), "x" \o Dec(i)) [] i % 4 = 3 -> "HISTORY END"]
(* Header texts, some of which are none. *)
Lib == << Base("8", <<>>) \o End,
          Base("16", <<"5">>) \o <<VC("EXTEND", "T")>> \o End,
          Base("-64", <<"2147483647", "2147483647">>) \o End,                                    \* more than 32 bits of elements
          Base("32", <<"65536", "65536">>) \o End,
          Base("8", <<"70000", "1", "70000">>) \o <<VC("EXTEND", "F")>> \o End,
          Base("-32", <<"2", "1", "3", "1", "1", "1", "1", "1", "4", "5", "1", "6">>) \o End,     \* axes of two digits
          Base("8", <<"3", "0", "7">>) \o End,
          Ext("BINTABLE", "8", <<"8", "3">>) \o <<VC("PCOUNT", "0"), VC("GCOUNT", "1"), VC("TFIELDS", "0"), SC("EXTNAME", "A")>> \o End,
          Ext("IMAGE", "16", <<"4">>) \o <<VC("PCOUNT", "0"), VC("GCOUNT", "1")>> \o End,
          Ext("TABLE   ", "8", <<"8", "3">>) \o <<SC("EXTNAME", "A/B"), SC("EXTNAMES", "C")>> \o End,
          Base("8", [i \in 1..105 |-> IF i \in {1, 99, 100, 105} THEN "2" ELSE "1"]) \o End,                  \* axes of three digits
          Ext("BINTABLEX", "8", <<"8", "3">>) \o <<SC("EXTNAME", "A LONG NAME / OF MORE THAN EIGHT")>> \o End,
          Ext("A3DTABLE 2", "8", <<"8", "3">>) \o End,
          Base("16", <<"5">>) \o Like(31) \o End,                                                 \* 36 cards
          Base("16", <<"5">>) \o Like(32) \o End,
          Base("16", <<"5">>) \o Like(120) \o End,
          Base("16", <<"5">>) \o <<VC("EXTEND", "T")>> \o End \o <<VC("AFTER", "1"), VC("BITPIX", "8")>> \o End,   \* nothing behind END counts
          <<VC("BITPIX", "8"), VC("SIMPLE", "T")>> \o Axes(<<"9">>) \o End,                      \* in another order
          Base("16", <<"5">>) \o <<VC("EXTEND", "F")>> \o End,                                   \* one card different
          Base("16", <<"5">>) \o <<VC("EXTEND", "T") \o " / c">> \o End,                          \* a comment different
          <<VC("EXTEND", "T")>> \o Base("16", <<"5">>) \o End,                                   \* the same in another order
          Base("16", <<"5">>),                                                                     \* no END
          <<VC("SIMPLE", "T")>> \o Axes(<<"5">>) \o End,                                         \* no BITPIX
          <<VC("SIMPLE", "T"), VC("BITPIX", "8")>> \o End,
          Base("8", <<"5", "T">>) \o End,
          Base("8", <<"-1">>) \o End,
          Base("8", <<"5", "-18446744073709551611">>) \o End,                                     \* 5, less 2^64
          <<VC("SIMPLE", "T"), VC("BITPIX", "8"), VC("NAXIS", "-1")>> \o End,
          <<VC("SIMPLE", "T"), VC("BITPIX", "8"), VC("NAXIS", "-18446744073709551615"), VC("NAXIS1", "5")>> \o End,
          <<VC("SIMPLE", "T"), VC("BITPIX", "24")>> \o Axes(<<"5">>) \o End,
          <<VC("SIMPLE", "T"), VC("BITPIX", "8"), VC("NAXIS", "3"), VC("NAXIS1", "1"), VC("NAXIS3", "1")>> \o End >>
Keys == <<"SIMPLE", "XTENSION", "BITPIX", "NAXIS", "NAXIS1", "NAXIS2", "NAXIS12", "EXTEND", "EXTNAME", "EXTNAMES", "KEY4", "KEY40", "KEY120", "NAXIS99", "NAXIS100", "NAXIS105", "EXTNAMES9", "EXTNAMEX", "KEY", "AFTER", "END", "COMMENT", "naxis">>
Types == <<"str", "int", "size", "bool">>
Ask(h) == <<[op |-> "hshow", h |-> h], [op |-> "hname", h |-> h]>>
          \o [i \in 1..(4 * Len(Keys)) |-> [op |-> "hval", h |-> h, key |-> Keys[1 + ((i - 1) \div 4)], t |-> Types[1 + ((i - 1) % 4)]]]
          \o [i \in DOMAIN Keys |-> [op |-> "hhas", h |-> h, key |-> Keys[i]]]
          \o [k \in 1..18 |-> [op |-> "haxis", h |-> h, k |-> IF k > 14 THEN k + 84 + (IF k = 18 THEN 4 ELSE 0) ELSE k - 1]] \o <<[op |-> "hout", h |-> h]>>
Brief(h) == <<[op |-> "hshow", h |-> h], [op |-> "hname", h |-> h], [op |-> "hval", h |-> h, key |-> "BITPIX", t |-> "int"], [op |-> "hval", h |-> h, key |-> "EXTEND", t |-> "bool"], [op |-> "hhas", h |-> h, key |-> "EXTNAME"], [op |-> "haxis", h |-> h, k |-> 1], [op |-> "hout", h |-> h]>>
(* One text alone; and every ordered pair of texts read into one object, with another kept beside it. *)
Read(h, k) == [op |-> "hread", h |-> h, cards |-> Lib[k]]
One(k) == <<Read(0, k)>> \o Ask(0)
Two(a, b) == <<Read(0, a), Read(1, a)>> \o Brief(0) \o <<[op |-> "hsame", h |-> 0, with |-> 1], Read(0, b)>> \o Brief(0) \o <<[op |-> "hsame", h |-> 0, with |-> 1], [op |-> "hsame", h |-> 1, with |-> 0]>>
             \o Brief(1) \o <<[op |-> "hcopy", h |-> 1, from |-> 0]>> \o Brief(1) \o <<[op |-> "hsame", h |-> 1, with |-> 0], Read(0, a)>> \o Brief(1) \o Brief(0)
Given == IF Mode = "given" THEN ndJsonDeserialize("given.ndjson") ELSE <<>>
Picks == CASE Mode = "one" -> {<<k, k>> : k \in DOMAIN Lib} [] Mode = "two" -> {p \in (DOMAIN Lib) \X (DOMAIN Lib) : p[1] # p[2]} [] Mode = "given" -> {<<k, k>> : k \in DOMAIN Given}
Script(p) == CASE Mode = "one" -> One(p[1]) [] Mode = "two" -> Two(p[1], p[2]) [] Mode = "given" -> Given[p[1]]
Run(ops) == LET RECURSIVE Go(_, _, _)
                Go(st, i, h) == IF i > Len(ops) THEN [st |-> st, hist |-> h]
                                ELSE IF ~Meant(st, ops[i]) THEN Go(st, i + 1, h)
                                ELSE LET a == HeadStep(st, ops[i]) IN Go(a.st, i + 1, Append(h, [op |-> ops[i], exp |-> a.obs]))
            IN Go(Heads0, 1, <<>>)
Init == pick \in Picks /\ heads = Heads0 /\ hist = <<>>
Next == hist = <<>> /\ pick' = pick /\ LET r == Run(Script(pick)) IN heads' = r.st /\ hist' = r.hist
Spec == Init /\ [][Next]_vars
view == <<pick, Len(hist)>>
Emit == PrintT("@@" \o ToJson(hist'))
InvHead == \A h \in {0, 1} : HeadOK(heads[h])
=============================================================================
