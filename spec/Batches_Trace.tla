---------------------------- MODULE Batches_Trace ----------------------------
(* Judges answers about many items by those about each item alone. *)
EXTENDS Batches, Lin, Judge
Agree(s, t, tol) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : IF RFin(s[i]) /\ RFin(t[i]) THEN RClose(s[i], t[i], tol) ELSE SameNum(s[i], t[i])
TInit(case) == <<>>       \* the answers about each item alone
TStep(case, st, e) ==
  IF e.err # "" THEN [st |-> st, ck |-> [no_error |-> FALSE]]
  ELSE CASE e.op = "alone" -> [st |-> e.v, ck |-> [answered |-> Len(e.v) = e.n]]
         [] e.op = "many" ->
              [st |-> st,
               ck |-> [one_answer_each |-> e.osh = e.sh,
                       looked_where_it_shows |-> LET at == {e.at[k] : k \in 1..Len(e.at)} IN \A i \in Probes(e.n, e.b) : i \in at,
                       as_if_alone |-> Len(e.got) = Len(e.at) /\ \A k \in 1..Len(e.at) : Agree(e.got[k], st[e.item[k]], case.tol)]]
         [] e.op = "total" -> [st |-> st, ck |-> [same_for_copies |-> Agree(e.got, e.few, case.tol)]]
===============================================================================
