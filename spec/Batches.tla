------------------------------ MODULE Batches ------------------------------
(***************************************************************************)
(* Many items are asked about at once.  The right answer at position i is  *)
(* that to the item at position i asked alone, however many there are.     *)
(*                                                                         *)
(* An implementation may work through the items in blocks.  Faults are     *)
(* ways in which that goes wrong; the answer at a position is then that to *)
(* the item of another position, or Blank:                                 *)
(*   rest     the last, partial block is left out                          *)
(*   tail     the last, partial block gets the answers of the block before *)
(*   edge     the first item of each later block is taken from the block   *)
(*            before                                                       *)
(*   first    every block gets the answers of the first                    *)
(*   swapped  the blocks come back in reverse order                        *)
(*   wrapped  positions are counted in numbers that are too narrow         *)
(*   capped   positions are counted no further than the size of a block    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Blank == 0
Faults == {"rest", "tail", "edge", "first", "swapped", "wrapped", "capped"}
Full(n, b) == (n \div b) * b          \* positions in whole blocks
\* the position whose item answers for position i (1..n) with blocks of b
Source(f, n, b, i) ==
  LET blk == (i - 1) \div b
      at == (i - 1) % b
      nb == (n + b - 1) \div b
  IN CASE f = "rest" -> IF i > Full(n, b) THEN Blank ELSE i
       [] f = "tail" -> IF i > Full(n, b) /\ i > b THEN i - b ELSE i
       [] f = "edge" -> IF at = 0 /\ blk > 0 THEN i - 1 ELSE i
       [] f = "first" -> at + 1
       [] f = "swapped" -> IF i <= Full(n, b) THEN (n \div b - 1 - blk) * b + at + 1 ELSE i
       [] f = "wrapped" -> ((i - 1) % b) + 1
       [] f = "capped" -> IF i > b THEN b ELSE i
Wrong(f, n, b) == {i \in 1..n : Source(f, n, b, i) # i}
\* where to look: both ends, and both sides of the ends of the first and of the last block
Probes(n, b) == {i \in {1, 2, b, b + 1, b + 2, Full(n, b) - b, Full(n, b) - b + 1, Full(n, b), Full(n, b) + 1, n - 1, n} : i >= 1 /\ i <= n}
Seen(f, n, b) == Wrong(f, n, b) \cap Probes(n, b) # {}
============================================================================
