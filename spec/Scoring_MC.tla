----------------------------- MODULE Scoring_MC -----------------------------
(***************************************************************************)
(* Chips shown one after the other to a network, and training sessions of  *)
(* up to MaxOps operations.                                                *)
(***************************************************************************)
EXTENDS Scoring, TLC, Json
CONSTANTS MaxN, MaxOps
VARIABLES mode, at, answers, classes, s, ops
vars == <<mode, at, answers, classes, s, ops>>
Classes == {<<[name |-> "a", at |-> 0], [name |-> "b", at |-> 1]>>, <<[name |-> "a", at |-> 1], [name |-> "b", at |-> 0]>>}
Answer(x) == <<x, 100 - x>>
Sorted(S) == CHOOSE q \in [1..Cardinality(S) -> S] : \A i \in 1..(Cardinality(S) - 1) : q[i] < q[i + 1]
Init == /\ answers = <<>> /\ classes \in Classes /\ s = Session(2) /\ ops = <<>>
        /\ \/ mode = "train" /\ at = <<>>
           \/ /\ mode = "score"
              /\ \E n \in 1..MaxN : \E c \in 1..n : \E v \in 0..(c - 1) : at = Sorted(Starts(n, c, v))
Show == /\ mode = "score" /\ Len(answers) < Len(at) /\ answers' = Append(answers, Answer(at[Len(answers) + 1]))
        /\ UNCHANGED <<mode, at, classes, s, ops>>
Op(name, t) == /\ mode = "train" /\ Len(ops) < MaxOps /\ ops' = Append(ops, name) /\ s' = t
               /\ UNCHANGED <<mode, at, answers, classes>>
Next == \/ Show
        \/ Op("freeze", SetAll(s, FALSE)) \/ Op("unfreeze", SetAll(s, TRUE)) \/ Op("top", MakeTop(s))
        \/ \E w \in {"none", "w1", "w2"} : \/ Op("train " \o w, Trained(s, FALSE, w))
                                           \/ s.top /\ Op("train top " \o w, Trained(s, TRUE, w))
Spec == Init /\ [][Next]_vars
Shown == mode = "score" /\ Len(answers) = Len(at)
EveryChipItsAnswer == Shown => \A i \in 1..Len(at) : answers[i] = Answer(at[i])
NamedClass == Shown => \A f \in {"a", "b"} :
  LET k == (CHOOSE c \in {classes[1], classes[2]} : c.name = f).at + 1
  IN Reported(answers, LabelsOf(classes), <<f>>) = [i \in 1..Len(at) |-> <<Answer(at[i])[k]>>]
LabelsNameClasses == \A i \in 1..2 : LabelsOf(classes)[classes[i].at + 1] = classes[i].name
FittedIsCompiled == s.net.fitted > 0 => s.net.compiled /\ (s.net.of = "body and top" => s.top)
AllAlike == \A k \in DOMAIN s.body : s.body[k] = s.body[1]
Emit == (mode = "train" /\ ops # <<>> /\ classes[1].at = 0 /\ (Len(ops) = MaxOps)) => PrintT("@@BEH " \o ToJson([ops |-> ops]))
=============================================================================
