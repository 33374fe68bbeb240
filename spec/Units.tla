------------------------------ MODULE Units ------------------------------
(* Length units by name, in metres. *)
EXTENDS Rat
Metres(u) ==
  CASE u \in {"meters", "meter", "m"} -> 1
    [] u \in {"centimeters", "cm"} -> "1/100"
    [] u \in {"millimeters", "mm"} -> "1/1000"
    [] u \in {"micrometers", "microns", "um"} -> "1/1000000"
    [] u \in {"kilometers", "km"} -> 1000
    [] u \in {"feet", "foot", "ft"} -> "381/1250"
    [] u \in {"inches", "inch"} -> "127/5000"
ToMetres(x, u) == RMul(x, Metres(u))
==========================================================================
