------------------------------ MODULE Judge ------------------------------
(***************************************************************************)
(* Trace validation engine shared by every *_Trace module.                 *)
(*                                                                         *)
(* VF_TRACE names an ndjson file, one history ("case") per line:           *)
(*    {"tag": ..., "ev": [event, event, ...], ...constants of the case}    *)
(* recorded from the real code: one event per public call, written at the  *)
(* call's return (error path included).                                    *)
(*                                                                         *)
(* A *_Trace module supplies                                               *)
(*    SInit(case)       the specification state the history starts in      *)
(*    SStep(case,st,e)  [st |-> the specification's next state,            *)
(*                       ck |-> [clause name |-> BOOLEAN]]                 *)
(* where the clauses compare what the event observed with what the         *)
(* specification action produces, and evaluate the invariants.             *)
(*                                                                         *)
(* The verdict is total: every event of every case is judged, a rejected   *)
(* event is reported with the names of the failing clauses (@@FAIL), and   *)
(* every completed case is reported with the clauses it exercised (@@END), *)
(* so that a run which judged less than it was given is visible.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, FiniteSets

CONSTANTS SInit(_), SStep(_, _, _)

Cases == ndJsonDeserialize(IOEnv.VF_TRACE)

VARIABLES jcase,      \* index of the case
          jpos,      \* next event of the case
          jst,     \* specification state
          jok,     \* no clause has failed so far in this case
          jseen    \* clauses evaluated so far in this case

jvars == <<jcase, jpos, jst, jok, jseen>>

JInit ==
  /\ jcase \in 1..Len(Cases)
  /\ jpos = 1
  /\ jst = SInit(Cases[jcase])
  /\ jok = TRUE
  /\ jseen = {}

Consume ==
  /\ jpos <= Len(Cases[jcase].ev)
  /\ LET e   == Cases[jcase].ev[jpos]
         r   == SStep(Cases[jcase], jst, e)
         bad == {k \in DOMAIN r.ck : ~ r.ck[k]}
     IN /\ jst' = r.st
        /\ jok' = (jok /\ bad = {})
        /\ jseen' = jseen \cup DOMAIN r.ck
        /\ IF jok /\ bad # {}
             THEN PrintT("@@FAIL " \o ToJson([c |-> jcase, l |-> jpos, op |-> e.op, bad |-> bad]))
             ELSE TRUE
  /\ jpos' = jpos + 1
  /\ UNCHANGED jcase

Finish ==
  /\ jpos = Len(Cases[jcase].ev) + 1
  /\ PrintT("@@END " \o ToJson([c |-> jcase, seen |-> jseen]))
  /\ jpos' = jpos + 1
  /\ UNCHANGED <<jcase, jst, jok, jseen>>

JNext == Consume \/ Finish
JSpec == JInit /\ [][JNext]_jvars
==========================================================================
