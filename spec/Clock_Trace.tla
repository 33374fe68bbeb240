--------------------------- MODULE Clock_Trace ----------------------------
(* Judges recorded time conversions. *)
EXTENDS Clock, Judge
TInit(case) == 0
TStep(case, st, e) ==
  [st |-> st,
   ck |->
    IF e.err # "" THEN [no_error |-> FALSE]
    ELSE
    CASE e.op = "gps" -> [gps_time |-> RClose(e.r, ToGps(e.u), "1/1000000")]
      [] e.op = "utc" -> [utc_time |-> InLeapSecond(e.g) \/ RClose(e.r, ToUtc(e.g), "1/1000000")]
      [] e.op = "back" -> [same_time_again |-> RClose(e.r, e.u, "1/1000000")]
      [] e.op = "week" -> LET g == ToGps(e.u)
                          IN [week |-> REq(e.w, Week(g)), second_of_week |-> RClose(e.s, SecondOfWeek(g), "1/100000")]]
===========================================================================
