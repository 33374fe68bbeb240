------------------------------ MODULE Nav_MC ------------------------------
(***************************************************************************)
(* A recording that grows line by line from a text file (well-formed and   *)
(* other lines in any order) and is asked about times on a half grid.      *)
(***************************************************************************)
EXTENDS Nav, FiniteSets, TLC, Json
CONSTANTS Steps, MaxLines
VARIABLES lines, last
vars == <<lines, last>>
Kinds == {"good", "short", "title", "word", "wide"}
Num(k) == [n |-> TRUE, x |-> k]
Word(s) == [n |-> FALSE, x |-> s]
Row(t, v, cnt) == [k \in 1..cnt |-> IF k = 1 THEN Word("id") ELSE IF k = 2 THEN Num(t) ELSE Num(v * k - 10 * t)] \o <<>>
LineOf(kind, t, v) ==
  CASE kind = "good" -> Row(t, v, 10)
    [] kind = "short" -> Row(t, v, 8)
    [] kind = "wide" -> Row(t, v, 11)
    [] kind = "title" -> << Word("ID"), Word("TIME") >>
    [] kind = "word" -> [Row(t, v, 10) EXCEPT ![5] = Word("x")]
Init == lines = <<>> /\ last = 0
Next == /\ Len(lines) < MaxLines
        /\ \E kind \in Kinds, dt \in Steps, v \in {-1, 2} :
              /\ lines' = Append(lines, LineOf(kind, last + dt, v))
              /\ last' = last + dt
Spec == Init /\ [][Next]_vars
Rec == Loaded(lines)
Enough == Len(Rec) >= 2
EveryGoodLineOnce == Len(Rec) = Cardinality({i \in 1..Len(lines) : Len(lines[i]) >= 10 /\ lines[i][5].n /\ lines[i][2].n})
InOrder == \A i \in 1..(Len(Rec) - 1) : RLt(Rec[i].t, Rec[i + 1].t)
RecordedThere == Enough => \A i \in 1..Len(Rec), j \in 1..Columns : REq(Answer(Rec, <<Rec[i].t>>, j)[1], Rec[i].v[j])
TimeIsTime == Enough => \A k \in 0..(2 * last + 2) : LET q == RDiv(k, 2) a == Answer(Rec, <<q>>, 1) IN a # <<>> => REq(a[1], q)
Between == Enough => \A i \in 1..(Len(Rec) - 1), j \in {2, 6} :
   LET m == Answer(Rec, <<RDiv(RAdd(Rec[i].t, Rec[i + 1].t), 2)>>, j)[1]
   IN REq(RMul(2, m), RAdd(Rec[i].v[j], Rec[i + 1].v[j]))
NothingOutside == Enough => /\ Answer(Rec, <<RSub(Rec[1].t, "1/2")>>, 2) = <<>>
                            /\ Answer(Rec, <<Rec[1].t, RAdd(Rec[Len(Rec)].t, "1/2")>>, 2) = <<>>
Emit == (Enough /\ Len(lines) = MaxLines) => PrintT("@@BEH " \o ToJson([lines |-> lines]))
===========================================================================
