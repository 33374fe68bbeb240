------------------------------- MODULE Clock -------------------------------
(***************************************************************************)
(* UTC and GPS time.  A UTC time is a POSIX timestamp: seconds since 1970  *)
(* without leap seconds.  GPS time counts every second since 6 January     *)
(* 1980, so it gains one second at each insertion below.                   *)
(***************************************************************************)
EXTENDS Rat, Integers, Sequences

\* days from 1 January 1970 to a date of the Gregorian calendar (years from 1970 to 2099)
LeapYear(y) == y % 4 = 0
RECURSIVE DaysToYear(_)
DaysToYear(y) == IF y = 1970 THEN 0 ELSE DaysToYear(y - 1) + (IF LeapYear(y - 1) THEN 366 ELSE 365)
MonthLengths(y) == <<31, IF LeapYear(y) THEN 29 ELSE 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31>>
RECURSIVE DaysToMonth(_, _)
DaysToMonth(y, m) == IF m = 1 THEN 0 ELSE DaysToMonth(y, m - 1) + MonthLengths(y)[m - 1]
Midnight(y, m, d) == RMul(86400, DaysToYear(y) + DaysToMonth(y, m) + d - 1)

Epoch == Midnight(1980, 1, 6)
\* a leap second has been inserted just before these days (IERS Bulletin C) after the GPS epoch
Insertions == << <<1981, 7>>, <<1982, 7>>, <<1983, 7>>, <<1985, 7>>, <<1988, 1>>, <<1990, 1>>, <<1991, 1>>, <<1992, 7>>, <<1993, 7>>, <<1994, 7>>,
                 <<1996, 1>>, <<1997, 7>>, <<1999, 1>>, <<2006, 1>>, <<2009, 1>>, <<2012, 7>>, <<2015, 7>>, <<2017, 1>> >>
Instants == [k \in 1..Len(Insertions) |-> Midnight(Insertions[k][1], Insertions[k][2], 1)] \o <<>>
RECURSIVE Inserted(_, _)
Inserted(u, k) == IF k = 0 THEN 0 ELSE IF RLe(Instants[k], u) THEN k ELSE Inserted(u, k - 1)
Leap(u) == Inserted(u, Len(Insertions))

ToGps(u) == RAdd(RSub(u, Epoch), Leap(u))
\* the number of leap seconds up to a GPS time: the last insertion whose first instant of UTC is not later
RECURSIVE InsertedGps(_, _)
InsertedGps(g, k) == IF k = 0 THEN 0 ELSE IF RLe(RAdd(RSub(Instants[k], Epoch), k), g) THEN k ELSE InsertedGps(g, k - 1)
ToUtc(g) == RSub(RAdd(g, Epoch), InsertedGps(g, Len(Insertions)))
\* g lies in an inserted second, which no timestamp names
InLeapSecond(g) == \E k \in 1..Len(Insertions) : LET z == RAdd(RSub(Instants[k], Epoch), k) IN RLe(RSub(z, 1), g) /\ RLt(g, z)

WeekSeconds == 604800
Week(g) == RFloor(RDiv(g, WeekSeconds))
SecondOfWeek(g) == RSub(g, RMul(WeekSeconds, Week(g)))
===========================================================================
