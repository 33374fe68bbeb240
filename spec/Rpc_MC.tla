------------------------------ MODULE Rpc_MC ------------------------------
(* The RPC00B polynomial: every monomial of degree <= 3 in (L, P, H) once; *)
(* the coefficient vector picking one term gives that term.                *)
EXTENDS Camera, FiniteSets, TLC
\* exponents of L, P, H in the published order
Exps == << <<0,0,0>>, <<1,0,0>>, <<0,1,0>>, <<0,0,1>>, <<1,1,0>>, <<1,0,1>>, <<0,1,1>>, <<2,0,0>>, <<0,2,0>>, <<0,0,2>>,
           <<1,1,1>>, <<3,0,0>>, <<1,2,0>>, <<1,0,2>>, <<2,1,0>>, <<0,3,0>>, <<0,1,2>>, <<2,0,1>>, <<0,2,1>>, <<0,0,3>> >>
RECURSIVE Pow(_, _)
Pow(x, n) == IF n = 0 THEN 1 ELSE RMul(x, Pow(x, n - 1))
Unit(j) == [i \in 1..20 |-> IF i = j THEN 1 ELSE 0]
VARIABLES L, P, H, j
Grid == {"0", "1/2", "-2/3", "1"}
Init == L \in Grid /\ P \in Grid /\ H \in Grid /\ j = 1
Next == j < 20 /\ j' = j + 1 /\ UNCHANGED <<L, P, H>>
Spec == Init /\ [][Next]_<<L, P, H, j>>
AllMonomials == Cardinality({Exps[i] : i \in 1..20}) = 20 /\ \A i \in 1..20 : Exps[i][1] + Exps[i][2] + Exps[i][3] <= 3
Term == REq(RpcTerms(L, P, H)[j], RMul(Pow(L, Exps[j][1]), RMul(Pow(P, Exps[j][2]), Pow(H, Exps[j][3]))))
Cam == [k |-> "rpc", sn |-> Unit(j), sd |-> Unit(1), ln |-> Unit(21 - j), ld |-> Unit(1), sscale |-> 100, soff |-> 7, lscale |-> 50,
        loff |-> -3, latscale |-> "1/2", latoff |-> 40, lonscale |-> "1/4", lonoff |-> -75, hscale |-> 500, hoff |-> 100]
\* a camera with a single numerator coefficient images a ground point at that term, scaled, offset, plus half a pixel
Images ==
  LET p == <<RAdd(-75, RMul(L, "1/4")), RAdd(40, RMul(P, "1/2")), RAdd(100, RMul(H, 500))>>
      t == RpcTerms(L, P, H)
  IN SameSeq(Px(Cam, p), <<RAdd(RAdd(RMul(100, t[j]), 7), "1/2"), RAdd(RAdd(RMul(50, t[21 - j]), -3), "1/2")>>)
===========================================================================
