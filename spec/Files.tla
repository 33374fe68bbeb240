------------------------------- MODULE Files -------------------------------
(***************************************************************************)
(* Texts (sequences of character codes), text lists and tables in files,   *)
(* and folders: sets of entries [name, dir].                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

LF == 10
CR == 13
Newline(c) == c = LF \/ c = CR
Upper(c) == c \in 65..90
Lower(c) == c \in 97..122
Digit(c) == c \in 48..57
Low(c) == IF Upper(c) THEN c + 32 ELSE c

\* every line end (CR LF, CR or LF) becomes one LF
RECURSIVE Cleaned(_, _)
Cleaned(t, k) ==
  IF k > Len(t) THEN <<>>
  ELSE IF t[k] = CR THEN <<LF>> \o Cleaned(t, IF k < Len(t) /\ t[k + 1] = LF THEN k + 2 ELSE k + 1)
  ELSE <<t[k]>> \o Cleaned(t, k + 1)
Without(t) == SelectSeq(t, LAMBDA c : ~ Newline(c))

\* words of a camel case name: a capital begins one after a small letter or digit, or before a small letter
Begins(t, k) == k > 1 /\ Upper(t[k]) /\ (Lower(t[k - 1]) \/ Digit(t[k - 1]) \/ (k < Len(t) /\ Lower(t[k + 1])))
RECURSIVE Snake(_, _)
Snake(t, k) == IF k > Len(t) THEN <<>> ELSE (IF Begins(t, k) THEN <<95>> ELSE <<>>) \o <<Low(t[k])>> \o Snake(t, k + 1)

\* ---- names in folders
StartsWith(n, p) == Len(n) >= Len(p) /\ SubSeq(n, 1, Len(p)) = p
EndsWith(n, s) == Len(n) >= Len(s) /\ SubSeq(n, Len(n) - Len(s) + 1, Len(n)) = s
Dot == 46
Hidden(n) == n[1] = Dot
\* exts: <<>> for any
HasExt(n, exts) == exts = <<>> \/ \E i \in 1..Len(exts) : EndsWith(n, <<Dot>> \o exts[i])
HasPrefix(n, pre) == pre = <<>> \/ \E i \in 1..Len(pre) : StartsWith(n, pre[i])
FilesOf(folder, exts, pre) == {e.name : e \in {x \in folder : ~ x.dir /\ ~ Hidden(x.name) /\ HasExt(x.name, exts) /\ HasPrefix(x.name, pre)}}
FoldersOf(folder) == {e.name : e \in {x \in folder : x.dir}}
SetOf(s) == {s[i] : i \in 1..Len(s)}
Once(s, S) == SetOf(s) = S /\ Len(s) = Cardinality(S)

\* ---- lists
Rows(cols) == [i \in 1..Len(cols[1]) |-> [j \in 1..Len(cols) |-> cols[j][i]] \o <<>>] \o <<>>
=============================================================================
