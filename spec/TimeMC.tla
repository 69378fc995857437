--------------------------------- MODULE TimeMC ---------------------------------
EXTENDS Time, Json, SequencesExt
CONSTANTS Mode, From, To
VARIABLES c, hist, pick
vars == <<c, hist, pick>>
view == <<c, Len(hist), pick>>
Given == IF Mode = "given" THEN ndJsonDeserialize("given.ndjson") ELSE <<>>
Ops == [jd |-> <<[op |-> "jd"]>>,
        gst |-> <<[op |-> "gst"], [op |-> "lst", lon |-> 0, dir |-> "E"], [op |-> "lst", lon |-> 64000, dir |-> "W"], [op |-> "lst", lon |-> 64000, dir |-> "E"],
                  [op |-> "lst", lon |-> 180000, dir |-> "E"], [op |-> "lst", lon |-> 179999, dir |-> "W"], [op |-> "lst", lon |-> 1, dir |-> "W"],
                  [op |-> "lst", lon |-> 359999, dir |-> "E"], [op |-> "lst", lon |-> 540000, dir |-> "E"], [op |-> "lst", lon |-> 1000000, dir |-> "W"], [op |-> "lst", lon |-> -725500, dir |-> "E"], [op |-> "meridian"]>>,
        eps |-> <<[op |-> "eps"]>>]
KeyYears == {1400, 1401, 1404, 1500, 1581, 1582, 1583, 1600, 1699, 1700, 1858, 1899, 1900, 1904, 1970, 1979, 1980, 1999, 2000, 2001, 2020, 2024, 2038, 2099, 2100, 2400, 4000, 9998, 9999}
KeyDays == {<<1, 1>>, <<1, 31>>, <<2, 28>>, <<2, 29>>, <<3, 1>>, <<6, 30>>, <<10, 4>>, <<10, 5>>, <<10, 14>>, <<10, 15>>, <<12, 31>>}
KeyTods == {<<0, 0>>, <<0, 1>>, <<1, 0>>, <<43200, 0>>, <<52611, 670000>>, <<86399, 999999>>}
KeyInstants == {[date |-> <<y, md[1], md[2]>>, tod |-> t] : y \in {yy \in KeyYears : yy >= From /\ yy <= To}, md \in KeyDays, t \in KeyTods}
HourTests == {<<[op |-> "dh", n |-> n, d |-> d]>> : n \in {0, 1, 2, 3, 5, 7, 11, 23, 59, 60, 61, 100, 997, 1023, 1440, 2399, -1, -3, -100, 65537, 2000003, 9999991}, d \in {1, 2, 4, 7, 10, 16, 60, 64, 100, 256, 1000}}
    \cup {<<[op |-> "hms", h |-> h, m |-> m, ms |-> s]>> : h \in {0, 1, 4, 12, 23, 24, 100, 32769, 99999}, m \in {0, 1, 6, 29, 30, 59}, s \in {0, 1, 1000, 5230, 30000, 59000, 59999}}
    \cup {<<[op |-> "sum", h |-> h, m |-> m, ms |-> s]>> : h \in {0, 500, 1250, 7333, 23999, -1500, 200000500}, m \in {0, 250, 30500, 59999, 90000, 1}, s \in {0, 125, 59999, 61500, 100000}}
LengthTests == {<<[op |-> "length", n |-> n, from |-> a, to |-> b]>> : n \in {1, 7, -3, 1000000}, a \in LengthUnits, b \in LengthUnits}
Script(p) == [k \in 1..Len(p) |-> p[k]]
Starts == CASE Mode = "years" -> {<<[op |-> "jdyear", y |-> y]>> : y \in From..To}
            [] Mode \in {"jd", "gst", "eps"} -> {<<[op |-> "at", date |-> i.date, tod |-> i.tod]>> \o Ops[Mode] : i \in {j \in KeyInstants : Valid(j.date[1], j.date[2], j.date[3])}}
            [] Mode = "hours" -> HourTests
            [] Mode = "length" -> LengthTests
            [] Mode = "given" -> {Given[k] : k \in 1..Len(Given)}
            [] OTHER -> {<<>>}
Init == pick \in Starts /\ c = Start /\ hist = <<>>
Apply(op) == IF op.op \in {"dh", "hms", "sum"} THEN [st |-> c, obs |-> HourStep(op)] ELSE IF op.op = "length" THEN [st |-> c, obs |-> LengthObs(op)] ELSE ClockStep(c, op)
Step == /\ Len(hist) < Len(pick)
        /\ LET op == pick[Len(hist) + 1] a == Apply(op) IN c' = a.st /\ hist' = Append(hist, [op |-> op, exp |-> a.obs])
        /\ UNCHANGED pick
Next == Mode # "days" /\ Step
Spec == Init /\ [][Next]_vars
Emit == Len(hist') < Len(pick) \/ PrintT("@@" \o ToJson(hist'))
InvRuns == Len(hist) = 0 \/ hist[Len(hist)].op.op # "jdyear" \/ SumLen(hist[Len(hist)].exp.runs) = YearLen(hist[Len(hist)].op.y)
(* The civil calendar, one day after another: the day that follows has the next Julian date; the day after 4 October 1582 is
   the 15th; the 29th of February of a Julian leap year that is none of the Gregorian calendar cannot be written. *)
CInit == c = [date |-> <<From, 1, 1>>, tod |-> <<0, 0>>] /\ hist = <<>> /\ pick = <<>>
CNext == c.date[1] <= To /\ c' = [c EXCEPT !.date = IF c.date = <<1582, 10, 4>> THEN <<1582, 10, 15>> ELSE NextDate(c.date)] /\ UNCHANGED <<hist, pick>>
CSpec == CInit /\ [][CNext]_vars
OneDay == [][ LET a == c.date b == c'.date gap == IF a[2] = 2 /\ a[3] = 28 /\ JulLeap(a[1]) /\ ~GregLeap(a[1]) /\ ~Reformed(a[1], 2, 28) THEN 2 ELSE 1
              IN JD2(b[1], b[2], b[3]) = JD2(a[1], a[2], a[3]) + 2 * gap ]_vars
=================================================================================
