--------------------------- MODULE Requests_Trace ---------------------------
(* Judges recorded requests: answered exactly when they can be, and refusals leave the world as it was. *)
EXTENDS Requests, Judge
TInit(case) == <<>>
SetOf(s) == {s[i] : i \in 1..Len(s)}
Asked(e) == [x \in DOMAIN e.q |-> IF x \in {"files", "known"} THEN SetOf(e.q[x]) ELSE e.q[x]]
Others(w, names) == SelectSeq(w, LAMBDA p : p[1] \notin names)
Names(w) == {w[i][1] : i \in 1..Len(w)}
TStep(case, st, e) ==
  [st |-> <<e.after>>,
   ck |->
    IF e.op = "spoil" THEN [undisturbed |-> st # <<>> => e.before = st[1]]
    ELSE LET q == Asked(e)
             can == Answerable(q)
         IN [undisturbed |-> st # <<>> => e.before = st[1],
             answered |-> can => e.err = "" /\ e.out = "answer",
             refused |-> ~ can => e.err # "" \/ e.out = "nothing",
             nothing_else_touched |-> Others(e.after, Touches(q)) = Others(e.before, Touches(q)),
             written |-> Touches(q) \subseteq Names(e.after)]]
=============================================================================
