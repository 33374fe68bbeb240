-------------------------------- MODULE Nav --------------------------------
(***************************************************************************)
(* A navigation recording: a sequence of records [t, v] in order of time,  *)
(* v the recorded quantities (position, attitude, ...).  A query for the   *)
(* time q gives each quantity on the line between the records around q,    *)
(* and nothing when a time asked for lies outside the recording.           *)
(***************************************************************************)
EXTENDS Lin, Shape

Covers(rec, q) == RLe(rec[1].t, q) /\ RLe(q, rec[Len(rec)].t)
\* the first record not before q
RECURSIVE FirstFrom(_, _, _)
FirstFrom(rec, q, k) == IF RLe(q, rec[k].t) THEN k ELSE FirstFrom(rec, q, k + 1)
At(rec, q, j) ==
  LET k == FirstFrom(rec, q, 1)
  IN IF REq(rec[k].t, q) THEN rec[k].v[j]
     ELSE LET a == rec[k - 1]
              w == RDiv(RSub(q, a.t), RSub(rec[k].t, a.t))
          IN RAdd(a.v[j], RMul(w, RSub(rec[k].v[j], a.v[j])))
Answer(rec, qs, j) == IF \A i \in 1..Len(qs) : Covers(rec, qs[i]) THEN [i \in 1..Len(qs) |-> At(rec, qs[i], j)] \o <<>> ELSE <<>>

\* ---- text records: an identifier, then time, easting, northing, height, omega, phi, kappa, latitude, longitude
Columns == 9
WellFormed(line) == Len(line) >= Columns + 1 /\ \A k \in 2..(Columns + 1) : line[k].n
Loaded(lines) ==
  LET good == SelectSeq(lines, WellFormed)
  IN [i \in 1..Len(good) |-> [t |-> good[i][2].x, v |-> [k \in 1..Columns |-> good[i][k + 1].x] \o <<>>]] \o <<>>
===========================================================================
