---------------------------- MODULE SensorModel ----------------------------
(***************************************************************************)
(* A multi-band sensor: a sequence of calculators, one per band.  State:   *)
(* calcs, a sequence of calculator identities.  A query for a band is      *)
(* answered by that band's calculator.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences
SetCalcs(s, ids) == ids
AddCalc(s, id)   == Append(s, id)
UpdCalc(s, k, id) == [s EXCEPT ![k] = id]
Answers(s, k)    == s[k]
===========================================================================
