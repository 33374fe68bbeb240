----------------------------- MODULE Files_MC -----------------------------
(***************************************************************************)
(* Every short text over a few characters; every folder of some entries;   *)
(* every history of text lists written to one file.                        *)
(***************************************************************************)
EXTENDS Files, TLC, Json
CONSTANTS Chars, MaxLen, MaxWrites
VARIABLES kind, text, folder, writes
vars == <<kind, text, folder, writes>>
N(s) == CASE s = "a.tif" -> <<97, 46, 116, 105, 102>> [] s = "ab.tif" -> <<97, 98, 46, 116, 105, 102>> [] s = "atif" -> <<97, 116, 105, 102>>
          [] s = "b.TIF" -> <<98, 46, 84, 73, 70>> [] s = ".a.tif" -> <<46, 97, 46, 116, 105, 102>> [] s = "b.txt" -> <<98, 46, 116, 120, 116>>
          [] s = "d.tif" -> <<100, 46, 116, 105, 102>> [] s = "a[1].txt" -> <<97, 91, 49, 93, 46, 116, 120, 116>>
Entries == {[name |-> N(s), dir |-> FALSE] : s \in {"a.tif", "ab.tif", "atif", "b.TIF", ".a.tif", "b.txt", "a[1].txt"}} \cup {[name |-> N("d.tif"), dir |-> TRUE]}
Tif == <<116, 105, 102>>
Txt == <<116, 120, 116>>
Lists == {<<>>, <<<<>>>>, <<<<>>, <<97>>>>, <<<<97>>, <<>>>>, <<<<32, 97>>, <<98, 32>>>>, <<<<>>, <<>>, <<>>>>}
Init == kind \in {"text", "folder", "file"} /\ text = <<>> /\ folder = {} /\ writes = <<>>
Next == \/ kind = "text" /\ Len(text) < MaxLen /\ \E c \in Chars : text' = Append(text, c) /\ UNCHANGED <<kind, folder, writes>>
        \/ kind = "folder" /\ \E e \in Entries \ folder : folder' = folder \cup {e} /\ UNCHANGED <<kind, text, writes>>
        \/ kind = "file" /\ Len(writes) < MaxWrites /\ \E l \in Lists : writes' = Append(writes, l) /\ UNCHANGED <<kind, text, folder>>
Spec == Init /\ [][Next]_vars
NoReturnsLeft == \A i \in 1..Len(Cleaned(text, 1)) : Cleaned(text, 1)[i] # CR
CleanOnce == Cleaned(Cleaned(text, 1), 1) = Cleaned(text, 1)
CleanKeepsText == Without(Cleaned(text, 1)) = Without(text)
SnakeKeepsLetters == SelectSeq(Snake(text, 1), LAMBDA c : c # 95) = [i \in 1..Len(text) |-> Low(text[i])] \o <<>>
SnakeIsLow == \A i \in 1..Len(Snake(text, 1)) : ~ Upper(Snake(text, 1)[i])
ExtsSplit == FilesOf(folder, <<Tif, Txt>>, <<>>) = FilesOf(folder, <<Tif>>, <<>>) \cup FilesOf(folder, <<Txt>>, <<>>)
OnlyFiles == FilesOf(folder, <<>>, <<>>) \cap FoldersOf(folder) = {}
Emit == \/ kind = "text" /\ PrintT("@@BEH " \o ToJson([kind |-> kind, text |-> text]))
        \/ kind = "folder" /\ PrintT("@@BEH " \o ToJson([kind |-> kind, folder |-> folder]))
        \/ kind = "file" /\ PrintT("@@BEH " \o ToJson([kind |-> kind, writes |-> writes]))
============================================================================
