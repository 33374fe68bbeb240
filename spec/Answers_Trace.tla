---------------------------- MODULE Answers_Trace ----------------------------
(* Judges recorded answers: those of a process in which nothing had been asked before are the reference for each state, question and arguments. *)
EXTENDS Answers, Lin, Judge
\* what was given to the objects so far and the reference answers
Alike(s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : IF RFin(s[i]) /\ RFin(t[i]) THEN RNear(s[i], t[i], "1/1000000000") ELSE SameNum(s[i], t[i])
TInit(case) == [h |-> <<>>, ref |-> <<>>]
TStep(case, st, e) ==
  IF e.op = "ref" THEN [st |-> [st EXCEPT !.ref = Append(@, e)], ck |-> [answered |-> e.err = ""]]
  ELSE LET h == Append(st.h, e)
           k == Len(h)
       IN [st |-> [st EXCEPT !.h = h],
           ck |-> IF e.err # "" THEN [no_error |-> FALSE]
                  ELSE IF e.op # "ask" THEN [done |-> TRUE]
                  ELSE LET w == Right(h, k)
                           S == {i \in 1..Len(st.ref) : <<st.ref[i].s, st.ref[i].q, st.ref[i].a>> = w}
                       IN [answer_of_its_state |-> \E i \in S : e.t = st.ref[i].t /\ Alike(e.v, st.ref[i].v),
                           arguments_unchanged |-> e.same]]
===============================================================================
