---------------------------------- MODULE Time ----------------------------------
(* The clock of the library: an instant of universal time, a civil date and the microseconds since its midnight, and what
   the library tells about it: the Julian date, the sidereal time at Greenwich and elsewhere, the obliquity of the
   ecliptic; hours as decimal numbers; units of length. *)
EXTENDS Terms, FiniteSets, TLC
(* ---- calendars ---- *)
GregLeap(y) == /\ y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
JulLeap(y) == y % 4 = 0
Len0 == <<31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31>>
Cum == <<0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334>>
MonthLen(leap, m) == IF m = 2 /\ leap THEN 29 ELSE Len0[m]
Before(leap, m) == Cum[m] + (IF m > 2 /\ leap THEN 1 ELSE 0)
(* Day numbers: the Julian day that begins at noon of the civil day. *)
GregDay(y, m, d) == 365 * (y - 1) + ((y - 1) \div 4) - ((y - 1) \div 100) + ((y - 1) \div 400) + Before(GregLeap(y), m) + d + 1721425
JulDay(y, m, d) == 365 * (y - 1) + ((y - 1) \div 4) + Before(JulLeap(y), m) + d + 1721423
(* The calendar was changed after 4 October 1582; dates up to 14 October 1582 are dates of the Julian calendar. *)
Reformed(y, m, d) == 10000 * y + 100 * m + d > 15821014
DayNumber(y, m, d) == IF Reformed(y, m, d) THEN GregDay(y, m, d) ELSE JulDay(y, m, d)
ASSUME DayNumber(2000, 1, 1) = 2451545 /\ DayNumber(1582, 10, 4) = 2299160 /\ DayNumber(1582, 10, 15) = 2299161
ASSUME DayNumber(1858, 11, 17) = 2400001 /\ DayNumber(1492, 10, 12) = 2266296
(* The dates that can be written: those of the Gregorian calendar, extended backwards to 1400. *)
Valid(y, m, d) == y \in 1400..9999 /\ m \in 1..12 /\ d \in 1..MonthLen(GregLeap(y), m)
(* Twice the Julian date of the midnight the civil day begins with: half a day before the noon. *)
JD2(y, m, d) == 2 * DayNumber(y, m, d) - 1

(* All days of a year as runs <<twice the Julian date of the first, number of days>> of days that follow each other. *)
YearLen(y) == IF GregLeap(y) THEN 366 ELSE 365
MonthRuns(y, m) ==
    LET n == MonthLen(GregLeap(y), m)
    IN IF y = 1582 /\ m = 10 THEN << <<JD2(y, m, 1), 14>>, <<JD2(y, m, 15), n - 14>> >> ELSE << <<JD2(y, m, 1), n>> >>
RECURSIVE Join(_)
Join(runs) == IF Len(runs) < 2 THEN runs
              ELSE LET r == Join(Tail(runs)) h == Head(runs)
                   IN IF r[1][1] = h[1] + 2 * h[2] THEN << <<h[1], h[2] + r[1][2]>> >> \o Tail(r) ELSE <<h>> \o r
RECURSIVE Months(_, _)
Months(y, m) == IF m > 12 THEN <<>> ELSE MonthRuns(y, m) \o Months(y, m + 1)
YearRuns(y) == Join(Months(y, 1))
RECURSIVE SumLen(_)
SumLen(runs) == IF runs = <<>> THEN 0 ELSE Head(runs)[2] + SumLen(Tail(runs))

(* ---- sidereal time ---- *)
(* The time of day is <<seconds, microseconds>>. *)
UT(s) == Plus(Rat(s[1], 3600), Times(Dec(s[2], 6), Rat(1, 3600)))   \* hours since midnight
Centuries(date) == Rat(JD2(date[1], date[2], date[3]) - 2 * 2451545, 2 * 36525)
GSTTerm(i) ==
    LET T == Centuries(i.date)
    IN Plus(Plus(Plus(6, Dec(697374558, 9)), Times(Plus(2400, Dec(51336, 6)), T)),
            Plus(Times(Dec(25862, 9), Times(T, T)), Times(Plus(1, Dec(2737909, 9)), UT(i.tod))))
(* Longitudes in thousandths of a degree. *)
LSTTerm(i, lon, dir) == LET h == Rat(lon, 15000) IN IF dir = "E" THEN Plus(GSTTerm(i), h) ELSE Minus(GSTTerm(i), h)
Hours(term) == Around(term, 8, 24, 0)

(* ---- obliquity: degrees at the noon of the civil day, in radians ---- *)
Obliquity(date) ==
    LET T == Rat(GregDay(date[1], date[2], date[3]) - 2451545, 36525)
        secs == Plus(Times(Dec(46815, 3), T), Times(Minus(Dec(6, 4), Times(Dec(181, 5), T)), Times(T, T)))
    IN Times(Minus(Plus(23, Dec(439292, 6)), Over(secs, 3600)), Over(Pi, 180))

(* ---- the clock ---- *)
Instants(dates, tods) == [date : dates, tod : tods]
R(st, obs) == [st |-> st, obs |-> obs]
Start == [date |-> <<2000, 1, 1>>, tod |-> <<0, 0>>]
NextDate(dt) ==
    LET y == dt[1] m == dt[2] d == dt[3]
    IN IF d < MonthLen(GregLeap(y), m) THEN <<y, m, d + 1>> ELSE IF m < 12 THEN <<y, m + 1, 1>> ELSE <<y + 1, 1, 1>>
ClockStep(c, op) ==
    CASE op.op = "at" -> R([date |-> op.date, tod |-> op.tod], [res |-> "ok"])
      [] op.op = "next_day" -> R([c EXCEPT !.date = NextDate(c.date)], [res |-> "ok"])
      [] op.op = "tick" -> R([c EXCEPT !.tod = <<c.tod[1] + op.n, c.tod[2]>>], [res |-> "ok"])
      [] op.op = "jd" -> R(c, [jd2 |-> JD2(c.date[1], c.date[2], c.date[3])])
      [] op.op = "gst" -> R(c, [h |-> Hours(GSTTerm(c))])
      [] op.op = "lst" -> R(c, [h |-> Hours(LSTTerm(c, op.lon, op.dir))])
      [] op.op = "meridian" -> R(c, [within |-> TRUE, round |-> TRUE])    \* where the local sidereal time is 0, or as good as
      [] op.op = "eps" -> R(c, [rad |-> About(Obliquity(c.date), 10)])
      [] op.op = "jdyear" -> R(c, [runs |-> YearRuns(op.y)])

(* ---- hours, minutes, seconds ---- *)
(* A decimal hour of n/d hours, or of given parts (seconds in thousandths).  Its parts are whole hours and minutes and
   the seconds that remain; they always add up to the value (whole) and are what is printed (shown).  Where the value is a whole minute or hour to the precision
   of a double, the last part may come out as 0 or as just under 60. *)
Abs(x) == IF x < 0 THEN -x ELSE x
Trunc(n, d) == IF n < 0 THEN -(Abs(n) \div d) ELSE n \div d
Split(n, d) ==                                         \* of n/d hours: <<h, m, s in 1/d of a second>>
    LET a == Abs(n) h == a \div d m == ((a - h * d) * 60) \div d s == ((a - h * d) * 60 - m * d) * 60
        g == IF n < 0 THEN -1 ELSE 1
    IN <<g * h, g * m, g * s>>
Carry(h, m) == IF m = 0 THEN <<h - 1, 59>> ELSE <<h, m - 1>>
HmsObs(h, m, sterm, zero, exact, value) ==
    LET one == [h |-> h, m |-> m, s |-> AboutTo(sterm, 7, 60)]
    IN [value |-> About(value, 12), whole |-> TRUE, shown |-> TRUE,
        parts |-> IF zero /\ ~exact /\ (h > 0 \/ m > 0)
                  THEN [in |-> <<one, LET c == Carry(h, m) IN [h |-> c[1], m |-> c[2], s |-> AboutTo(60, 7, 60)]>>] ELSE [in |-> <<one>>]]
PowerOfTwo(d) == d \in {1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024}
HourStep(op) ==
    CASE op.op = "dh" -> LET p == Split(op.n, op.d)    \* one number
                         IN IF op.n >= 0 \/ PowerOfTwo(op.d) THEN HmsObs(p[1], p[2], Rat(p[3], op.d), p[3] = 0, PowerOfTwo(op.d), Rat(op.n, op.d))
                            ELSE [value |-> About(Rat(op.n, op.d), 12), whole |-> TRUE, shown |-> TRUE]
      [] op.op = "hms" -> HmsObs(op.h, op.m, Dec(op.ms, 3), op.ms = 0, op.m = 0 /\ op.ms = 0,
                                 Plus(op.h, Plus(Rat(op.m, 60), Rat(op.ms, 3600000))))
      [] op.op = "sum" -> [value |-> About(Plus(Rat(op.h, 1000), Plus(Rat(op.m, 60000), Rat(op.ms, 3600000))), 12), whole |-> TRUE, shown |-> TRUE]   \* any parts, in thousandths

(* ---- units of length, in metres ---- *)
C == 299792458
Metres == [m |-> 1, cm |-> Dec(1, 2), light_second |-> C, light_minute |-> Times(60, C), light_hour |-> Times(3600, C),
           light_day |-> Times(86400, C), light_year |-> Times(31557600, C),
           au |-> Plus(Times(149597, Fn("dec", <<1, -6>>)), 870691), pc |-> Fn("mul", <<Plus(308567, Dec(75813, 5)), Fn("dec", <<1, -11>>)>>)]
LengthUnits == DOMAIN Metres
LengthObs(op) == [v |-> About(Over(Times(op.n, Metres[op.from]), Metres[op.to]), 12)]
=================================================================================
