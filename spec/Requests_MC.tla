---------------------------- MODULE Requests_MC ----------------------------
(***************************************************************************)
(* A folder of two files, written, read and spoilt, and pure questions with *)
(* options in and out of the vocabularies.  `last` is the last write that  *)
(* was served for each file since it was spoilt (ghost).                   *)
(***************************************************************************)
EXTENDS Requests, TLC, Json
CONSTANTS Depth
VARIABLES disk, last, done, q, got
vars == <<disk, last, done, q, got>>
Files == 1..2
Void == [k |-> "void", opt |-> "", f |-> 0]
None == [there |-> "nothing", il |-> "", stamp |-> 0]
Ils == {"bil", "bip", "BIL", "cube"}
Types == {"float32", "uint8", "bool"}
Options == <<<<"warp", "nearest">>, <<"warp", "bicubic">>, <<"warp", "Nearest">>, <<"turn", "rpy">>, <<"turn", "ypr">>, <<"turn", "xyz">>, <<"list", "list">>, <<"list", "number">>>>
Init == disk = [f \in Files |-> None] /\ last = [f \in Files |-> 0] /\ done = 0 /\ q = <<Void>> /\ got = <<>>
Room == done < Depth
Serve(r, disk1, last1) ==
  /\ done' = done + 1 /\ q' = Append(q, r)
  /\ got' = Append(got, IF Answerable(r) THEN "answer" ELSE "refused")
  /\ disk' = IF Answerable(r) THEN disk1 ELSE disk
  /\ last' = IF Answerable(r) THEN last1 ELSE last
WriteIt == Room /\ \E f \in Files, il \in Ils, ty \in Types, rank \in {2, 3} : (rank = 2 => il = "bil" /\ ty = "float32") /\
  LET r == [k |-> "envi write", opt |-> il, type |-> ty, rank |-> rank, room |-> TRUE, f |-> f, files |-> {f}]
  IN Serve(r, [disk EXCEPT ![f] = [there |-> "image", il |-> il, stamp |-> done + 1]], [last EXCEPT ![f] = done + 1])
ReadIt == Room /\ \E f \in Files :
  Serve([k |-> "envi read", opt |-> disk[f].il, f |-> f, there |-> disk[f].there, header |-> TRUE, lacks |-> <<>>, code |-> 4,
         dims |-> <<2, 3, 2>>, bytes |-> IF disk[f].there = "image" THEN 48 ELSE 5], disk, last)
Spoil == Room /\ \E f \in Files : /\ disk[f].there = "image" /\ disk' = [disk EXCEPT ![f] = [@ EXCEPT !.there = "text", !.stamp = 0]]
   /\ last' = [last EXCEPT ![f] = 0] /\ done' = done + 1 /\ q' = Append(q, [k |-> "spoil", opt |-> "", f |-> f]) /\ got' = Append(got, "")
Ask == Room /\ \E i \in 1..Len(Options) : Serve([k |-> Options[i][1], opt |-> Options[i][2], f |-> 0], disk, last)
Next == WriteIt \/ ReadIt \/ Spoil \/ Ask
Spec == Init /\ [][Next]_vars
LastWriteStands == \A f \in Files : disk[f].stamp = last[f]
ImagesCameFromWrites == \A f \in Files : disk[f].there = "image" => disk[f].il \in Interleaves /\ last[f] > 0
NothingFromNothing == \A i \in 1..done : q[i + 1].k = "envi read" /\ got[i] = "answer" =>
   \E j \in 1..(i - 1) : q[j + 1].k = "envi write" /\ q[j + 1].f = q[i + 1].f /\ got[j] = "answer" /\ \A l \in (j + 1)..(i - 1) : ~ (q[l + 1].k = "spoil" /\ q[l + 1].f = q[i + 1].f)
RefusedLeavesNoTrace == [][(q' # q /\ got'[Len(got')] = "refused") => disk' = disk]_vars
Emit == (done = Depth) => PrintT("@@BEH " \o ToJson([q |-> [i \in 1..done |-> <<q[i + 1].k, q[i + 1].opt, q[i + 1].f, IF q[i + 1].k = "envi write" THEN q[i + 1].type ELSE "", IF q[i + 1].k = "envi write" THEN q[i + 1].rank ELSE 0>>]]))
=============================================================================
