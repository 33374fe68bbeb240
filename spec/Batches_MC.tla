---------------------------- MODULE Batches_MC ----------------------------
(***************************************************************************)
(* Numbers of items and sizes of blocks.  Every fault that answers wrongly *)
(* anywhere does so at a probe; every fault is given away by some number   *)
(* of items.  Emitted are the numbers of items relative to the block.      *)
(***************************************************************************)
EXTENDS Batches, TLC, Json
CONSTANTS MaxN, MaxB
VARIABLES n, b
Init == n = 1 /\ b \in 2..MaxB
Next == n < MaxN /\ n' = n + 1 /\ UNCHANGED b
Spec == Init /\ [][Next]_<<n, b>>
ProbesSuffice == \A f \in Faults : Wrong(f, n, b) # {} => Seen(f, n, b)
FewAreSafe == n <= b => \A f \in Faults \ {"rest"} : Wrong(f, n, b) = {}
\* one item after two whole blocks gives away every fault
TwoAndOne == n = 2 * b + 1 => \A f \in Faults : Seen(f, n, b)
Emit == (b = MaxB /\ n >= b - 1) => PrintT("@@BEH " \o ToJson([k |-> n \div b, rem |-> IF n % b = b - 1 THEN -1 ELSE n % b, b |-> b, f |-> {f \in Faults : Seen(f, n, b)}]))
===========================================================================
