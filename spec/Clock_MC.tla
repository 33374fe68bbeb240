----------------------------- MODULE Clock_MC -----------------------------
(***************************************************************************)
(* A clock that ticks in half seconds across every insertion (and across   *)
(* week and day boundaries): GPS time never stands still or jumps by more  *)
(* than the inserted second, the two scales convert back and forth, the    *)
(* week and second of week are those of a count of seconds.                *)
(***************************************************************************)
EXTENDS Clock, TLC, Json
CONSTANT Ticks
VARIABLES u, from, n
vars == <<u, from, n>>
Starts == {"leap"} \X (1..Len(Insertions)) \cup {"week"} \X (52..55) \cup {"epoch"} \X {1} \cup {"late"} \X {1}
StartOf(s) == CASE s[1] = "leap" -> RSub(Instants[s[2]], 3)
                [] s[1] = "week" -> RSub(RAdd(Epoch, RMul(s[2] * 7, 86400)), 3)
                [] s[1] = "epoch" -> Midnight(1981, 1, 1)
                [] s[1] = "late" -> Midnight(2031, 12, 31)
Init == from \in Starts /\ u = StartOf(from) /\ n = 0
Next == n < Ticks /\ n' = n + 1 /\ u' = RAdd(u, "1/2") /\ UNCHANGED from
Spec == Init /\ [][Next]_vars
Inverse == REq(ToUtc(ToGps(u)), u)
NamedOnly == ~ InLeapSecond(ToGps(u))
Whole == REq(RSub(ToGps(u), RSub(u, Epoch)), Leap(u)) /\ Leap(u) \in 0..Len(Insertions)
WeekCount == LET g == ToGps(u) IN REq(g, RAdd(RMul(WeekSeconds, Week(g)), SecondOfWeek(g))) /\ RLe(0, SecondOfWeek(g)) /\ RLt(SecondOfWeek(g), WeekSeconds)
\* between two ticks GPS time advances by half a second, or by one and a half across an insertion
Advance == [][LET d == RSub(ToGps(u'), ToGps(u)) IN REq(d, IF Leap(u') = Leap(u) THEN "1/2" ELSE "3/2")]_vars
Known == /\ REq(Epoch, "315964800") /\ REq(ToGps(Midnight(2017, 1, 1)), RAdd(RMul(1930, 604800), 18)) /\ Leap(Midnight(2000, 1, 1)) = 13
Emit == PrintT("@@BEH " \o ToJson([u |-> u]))
===========================================================================
