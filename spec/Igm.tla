-------------------------------- MODULE Igm --------------------------------
(***************************************************************************)
(* An image whose pixels carry stored positions: [nx, ny, nb, lon, lat,    *)
(* alt, px] with flat grids in row order and px in (row, column, band)     *)
(* order.                                                                  *)
(***************************************************************************)
EXTENDS Lin, Shape

Pos(g, x, y)  == <<g.lon[At2(g.nx, y, x)], g.lat[At2(g.nx, y, x)]>>
\* a single altitude stands for every pixel
AltGrid(g)    == IF Len(g.alt) = 1 THEN [k \in 1..(g.nx * g.ny) |-> g.alt[1]] ELSE g.alt
Positions(g, qs) == [i \in 1..Len(qs) |-> Pos(g, qs[i][1], qs[i][2])]

\* inverse-distance weighting of the pixels nearest a position gives a mean of their coordinates; at a stored
\* position the pixel stored there outweighs all others
RECURSIVE WSum(_, _)
WSum(w, z) == IF w = <<>> THEN 0 ELSE RAdd(RMul(Head(w), Head(z)), WSum(Tail(w), Tail(z)))
Weighted(w, z) == RDiv(WSum(w, z), RSum(w))
===========================================================================
