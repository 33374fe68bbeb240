------------------------------ MODULE Answers ------------------------------
(***************************************************************************)
(* Objects hold a state; questions are asked of them with arguments.  The  *)
(* right answer depends on the state last given to the object asked, the   *)
(* question and its arguments, and on nothing else: not on what was asked  *)
(* before, of which object, or how often.                                  *)
(*                                                                         *)
(* A step is [op, o, s, q, a]:                                             *)
(*   make  slot o holds a new object in state s                            *)
(*   move  the object in slot o is given state s                           *)
(*   ask   question q with arguments a                                     *)
(*                                                                         *)
(* Faults are ways of answering that do depend on the history:             *)
(*   kept    answers are remembered and survive a move                     *)
(*   shared  answers are remembered for all objects together               *)
(*   blind   remembered whatever the arguments                             *)
(*   mixed   remembered whatever the question                              *)
(*   worn    answering a question changes the next answer to it            *)
(*   leaky   moving one object moves the others                            *)
(*   settled an object that was asked once does not move any more          *)
(*   echoed  an answer is that to the question asked just before           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Faults == {"kept", "shared", "blind", "mixed", "worn", "leaky", "settled", "echoed"}
Asked(h) == {k \in 1..Len(h) : h[k].op = "ask"}
\* the state of the object in slot o just before step k: that of the last make or move
LastGiven(h, k, o) == LET S == {j \in 1..(k - 1) : h[j].op # "ask" /\ h[j].o = o}
                      IN CHOOSE j \in S : \A i \in S : i <= j
StateAt(h, k, o) == h[LastGiven(h, k, o)].s
Right(h, k) == <<StateAt(h, k, h[k].o), h[k].q, h[k].a>>

First(h, S, k) == IF S = {} THEN Right(h, k) ELSE Right(h, CHOOSE j \in S : \A i \in S : j <= i)
MadeAt(h, k, o) == LET S == {j \in 1..(k - 1) : h[j].op = "make" /\ h[j].o = o} IN CHOOSE j \in S : \A i \in S : i <= j
\* what an implementation with fault f answers at step k
Given(f, h, k) ==
  LET e == h[k]
      since == MadeAt(h, k, e.o)
      own == {j \in Asked(h) : j < k /\ j > since /\ h[j].o = e.o}
      right == Right(h, k)
      fresh == LastGiven(h, k, e.o)
  IN CASE f = "kept" -> First(h, {j \in own : h[j].q = e.q /\ h[j].a = e.a}, k)
       [] f = "shared" -> First(h, {j \in Asked(h) : j < k /\ h[j].q = e.q /\ h[j].a = e.a}, k)
       [] f = "blind" -> First(h, {j \in own : j > fresh /\ h[j].q = e.q}, k)
       [] f = "mixed" -> First(h, {j \in own : j > fresh /\ h[j].a = e.a}, k)
       [] f = "worn" -> IF \E j \in own : j > fresh /\ h[j].q = e.q /\ h[j].a = e.a THEN <<"worn">> ELSE right
       [] f = "leaky" -> LET M == {j \in 1..(k - 1) : h[j].op = "move"}
                             last == CHOOSE j \in M : \A i \in M : i <= j
                         IN IF M = {} \/ last < since THEN right ELSE <<h[last].s, e.q, e.a>>
       [] f = "settled" -> IF own = {} THEN right
                           ELSE LET j == CHOOSE i \in own : \A m \in own : i <= m IN <<StateAt(h, j, e.o), e.q, e.a>>
       [] f = "echoed" -> LET P == {j \in own : j > fresh} IN
                          IF P = {} THEN right ELSE Right(h, CHOOSE j \in P : \A i \in P : i <= j)
\* the faults some answer of the history gives away
Exposed(h) == {f \in Faults : \E k \in Asked(h) : Given(f, h, k) # Right(h, k)}
============================================================================
