------------------------------- MODULE Lin -------------------------------
(* Exact vectors (sequences of rationals) and 3x3 matrices (sequences of rows). *)
EXTENDS Rat, Integers, Sequences

VAdd(u, v)   == [i \in 1..Len(u) |-> RAdd(u[i], v[i])]
VSub(u, v)   == [i \in 1..Len(u) |-> RSub(u[i], v[i])]
VScale(a, u) == [i \in 1..Len(u) |-> RMul(a, u[i])]
Col(m, j)    == [i \in 1..Len(m) |-> m[i][j]]
Transpose(m) == [j \in 1..Len(m[1]) |-> Col(m, j)]
MVec(m, v)   == [i \in 1..Len(m) |-> RDot(m[i], v)]
VMat(v, m)   == [j \in 1..Len(m[1]) |-> RDot(v, Col(m, j))]
MMul(a, b)   == [i \in 1..Len(a) |-> [j \in 1..Len(b[1]) |-> RDot(a[i], Col(b, j))]]
Ident(n)     == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN 1 ELSE 0]]
Det3(m) ==
  RAdd(RSub(RMul(m[1][1], RSub(RMul(m[2][2], m[3][3]), RMul(m[2][3], m[3][2]))),
            RMul(m[1][2], RSub(RMul(m[2][1], m[3][3]), RMul(m[2][3], m[3][1])))),
            RMul(m[1][3], RSub(RMul(m[2][1], m[3][2]), RMul(m[2][2], m[3][1]))))

SameNum(a, b)      == IF RFin(a) /\ RFin(b) THEN REq(a, b) ELSE (~ RFin(a) /\ ~ RFin(b) /\ a = b)
SameSeq(s, t)      == Len(s) = Len(t) /\ \A i \in 1..Len(s) : SameNum(s[i], t[i])
NearSeq(s, t, tol) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : RNear(s[i], t[i], tol)
CloseSeq(s, t, tol) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : RClose(s[i], t[i], tol)
NearMat(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : NearSeq(a[i], b[i], tol)
EqMat(a, b)        == Len(a) = Len(b) /\ \A i \in 1..Len(a) : SameSeq(a[i], b[i])
\* an n-by-m matrix from its values in row order
MatOf(v, n, m)     == [i \in 1..n |-> [j \in 1..m |-> v[(i - 1) * m + j]]]
Flat(m)            == [k \in 1..(Len(m) * Len(m[1])) |-> m[((k - 1) \div Len(m[1])) + 1][((k - 1) % Len(m[1])) + 1]]
==========================================================================
