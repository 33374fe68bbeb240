------------------------------ MODULE Scoring ------------------------------
(***************************************************************************)
(* Scoring an image chip by chip with a trained network, and training one. *)
(*                                                                         *)
(*   Seen       what the network is shown of a chip: its colours without   *)
(*              the opacity band, normalised as asked                      *)
(*   Walk       chips are shown one after the other; the answers are kept  *)
(*              in the order of the chips                                  *)
(*   Label      answer k of the network belongs to the class whose index   *)
(*              is k - 1; the labels file names the classes in that order  *)
(*   Session    a network's layers are frozen and released, a classifier   *)
(*              is put on top, weights are loaded, and it is trained: what *)
(*              is fitted has been compiled, with the weights asked for    *)
(***************************************************************************)
EXTENDS Chips

Colours(nb) == [b \in 1..(IF nb = 4 THEN 3 ELSE nb) |-> b - 1]
Normalised(v, how) ==
  CASE how = "divide_by_255" -> [k \in 1..Len(v) |-> RDiv(v[k], 255)]
    [] how = "min_max_per_chip" -> LET lo == RMinOf(v)
                                       hi == RMaxOf(v)
                                   IN [k \in 1..Len(v) |-> RDiv(RSub(v[k], lo), RSub(hi, lo))]
    [] OTHER -> v

\* classes: a sequence of [name, at], in any order
LabelsOf(classes) == [k \in 1..Len(classes) |-> (CHOOSE c \in {classes[i] : i \in 1..Len(classes)} : c.at = k - 1).name]
IndexOf(labels, name) == CHOOSE i \in 1..Len(labels) : labels[i] = name
\* the answers reported: every class of every chip, or one class
Reported(answers, labels, find) == IF find = <<>> THEN answers ELSE [i \in 1..Len(answers) |-> <<answers[i][IndexOf(labels, find[1])]>>]

\* ---- a training session: s.body the layers' trainable flags, s.top whether a classifier was made,
\*      s.weights the weights in the layers, s.net the network trained last: what it is built of,
\*      whether it is compiled, how often it was fitted
NoNet == [of |-> "none", compiled |-> FALSE, fitted |-> 0]
Session(n) == [body |-> [k \in 1..n |-> TRUE], top |-> FALSE, weights |-> "none", net |-> NoNet]
SetAll(s, f) == [s EXCEPT !.body = [k \in DOMAIN @ |-> f]]
MakeTop(s) == [s EXCEPT !.top = TRUE]
Build(s, useTop) == [s EXCEPT !.net = [NoNet EXCEPT !.of = IF useTop THEN "body and top" ELSE "body"]]
Load(s, w) == IF w = "none" THEN s ELSE [s EXCEPT !.weights = w]
Compile(s) == [s EXCEPT !.net.compiled = TRUE]
Fitted(s) == [s EXCEPT !.net.fitted = @ + 1]
Trained(s, useTop, w) == Fitted(Compile(Load(Build(s, useTop), w)))
===========================================================================
