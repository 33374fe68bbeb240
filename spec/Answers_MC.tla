---------------------------- MODULE Answers_MC -----------------------------
(***************************************************************************)
(* Histories of two objects, their states, questions and arguments.  Those *)
(* that give away Enough ways of answering wrongly are emitted.            *)
(***************************************************************************)
EXTENDS Answers, TLC, Json
CONSTANTS MaxLen, Enough
VARIABLES h
Step(op, o, s, q, a) == [op |-> op, o |-> o, s |-> s, q |-> q, a |-> a]
Init == \E s \in 1..2 : h = <<Step("make", 1, 1, 0, 0), Step("make", 2, s, 0, 0)>>
Now(o) == StateAt(h, Len(h) + 1, o)
\* questions and arguments are interchangeable: the first asked are the first
Least(f) == IF Asked(h) = {} THEN 1 ELSE 2
Next == /\ Len(h) < MaxLen + 2
        /\ \/ \E o \in 1..2, q \in 1..Least("q"), a \in 1..Least("a") : h' = Append(h, Step("ask", o, 0, q, a))
           \/ \E o \in 1..2 : /\ h[Len(h)].op = "ask" /\ h' = Append(h, Step("move", o, 3 - Now(o), 0, 0))
           \/ \E o \in 1..2 : /\ h[Len(h)].op = "ask" /\ h' = Append(h, Step("make", o, 3 - Now(o), 0, 0))
Spec == Init /\ [][Next]_h
\* a fault that no other fault's history gives away would be missed: each fault is given away by some short history,
\* and an answer that is right is never taken for a fault
Sound == \A k \in Asked(h) : Right(h, k)[1] \in 1..2 /\ (Len(h) = 3 => Exposed(h) = {})
Alone == (Cardinality(Asked(h)) <= 1) => Exposed(h) \subseteq {"leaky"}
Emit == (Len(h) = MaxLen + 2 /\ h[Len(h)].op = "ask" /\ Cardinality(Exposed(h)) >= Enough) => PrintT("@@BEH " \o ToJson([h |-> h, f |-> Exposed(h)]))
============================================================================
