------------------------------- MODULE Shape -------------------------------
(* Arrays as a shape and a flat sequence in row order; flattening,         *)
(* unflattening and pointwise maps.                                        *)
EXTENDS Integers, Sequences
RECURSIVE SizeOf(_)
SizeOf(sh) == IF sh = <<>> THEN 1 ELSE Head(sh) * SizeOf(Tail(sh))
\* flat position (from 1) of index <<y, x>> (from 0) in an ny-by-nx array
At2(nx, y, x) == y * nx + x + 1
\* flat position of <<y, x, b>> in an ny-by-nx-by-nb cube
At3(nx, nb, y, x, b) == (y * nx + x) * nb + b + 1
RowOf(nx, k) == (k - 1) \div nx
ColOf(nx, k) == (k - 1) % nx
Lift(f(_), v) == [k \in 1..Len(v) |-> f(v[k])]
===========================================================================
