----------------------------- MODULE Shape_MC -----------------------------
EXTENDS Shape
CONSTANT Max
VARIABLES nx, ny, v
Init == nx \in 1..Max /\ ny \in 1..Max /\ v = [k \in 1..(nx * ny) |-> <<RowOf(nx, k), ColOf(nx, k)>>]
\* a step maps every element; places stay
Next == v' = Lift(LAMBDA e : <<e[1], e[2]>>, v) /\ UNCHANGED <<nx, ny>>
Spec == Init /\ [][Next]_<<nx, ny, v>>
Places == \A y \in 0..(ny - 1), x \in 0..(nx - 1) : v[At2(nx, y, x)] = <<y, x>>
Onto == {At2(nx, y, x) : y \in 0..(ny - 1), x \in 0..(nx - 1)} = 1..SizeOf(<<ny, nx>>)
Cubes == \A nb \in 1..3 : {At3(nx, nb, y, x, b) : y \in 0..(ny - 1), x \in 0..(nx - 1), b \in 0..(nb - 1)} = 1..SizeOf(<<ny, nx, nb>>)
===========================================================================
