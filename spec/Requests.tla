------------------------------ MODULE Requests ------------------------------
(***************************************************************************)
(* What can be asked of the library, and what cannot.  Options come from   *)
(* closed vocabularies; files are there or not and hold what is needed or  *)
(* not; bands, cameras and names exist or not.  A request that can be      *)
(* answered is answered.  One that cannot is refused: it brings an error,  *)
(* or nothing, and never an answer, and the world is as it was before.     *)
(***************************************************************************)
EXTENDS Integers, Sequences

Interleaves == {"bil", "bip", "bsq"}
\* a header may say it in capitals
HeaderInterleaves == Interleaves \cup {"BIL", "BIP", "BSQ", "Bil", "Bip", "Bsq"}
EnviTypes == {"uint8", "int16", "int32", "float32", "float64", "complex64", "complex128", "uint16", "uint32", "int64", "uint64"}
Warps == {"nearest", "bilinear", "biquadratic", "bicubic", "biquartic", "biquintic"}
Heights == {"nearest", "bilinear"}
Turns == {"rpy", "ryp", "pry", "pyr", "yrp", "ypr"}
Endings == {"text", "list", "nothing"}      \* kinds of value that say which files to list
HeaderKeys == {"samples", "lines", "bands", "data type", "interleave"}
HeaderCodes == {1, 2, 3, 4, 5, 6, 9, 12, 13, 14, 15}
Unit(code) == CASE code = 1 -> 1 [] code \in {2, 12} -> 2 [] code \in {3, 4, 13} -> 4 [] code \in {5, 6, 14, 15} -> 8 [] code = 9 -> 16

\* q.k: the kind of request; the other fields are what it depends on
Answerable(q) ==
  CASE q.k = "envi write" -> q.opt \in Interleaves /\ q.type \in EnviTypes /\ q.rank = 3 /\ q.room
    [] q.k = "envi read"  -> /\ q.there = "image" /\ q.header /\ q.lacks = <<>> /\ q.opt \in HeaderInterleaves /\ q.code \in HeaderCodes
                             /\ q.bytes = q.dims[1] * q.dims[2] * q.dims[3] * Unit(q.code)
    [] q.k = "image write" -> q.room
    [] q.k \in {"open", "read text", "read spectrum"} -> q.there = "image"
    [] q.k = "band"   -> 0 <= q.b /\ q.b < q.n
    [] q.k = "warp"   -> q.opt \in Warps
    [] q.k = "heights" -> q.opt \in Heights /\ q.there = "image"
    [] q.k = "turn"   -> q.opt \in Turns
    [] q.k = "list"   -> q.opt \in Endings
    [] q.k = "folders" -> q.there = "image"
    [] q.k = "camera" -> q.opt \in q.known
    [] q.k = "project" -> q.there = "image" /\ q.digits = 1
\* the files a request may write
Touches(q) == IF q.k \in {"envi write", "image write"} /\ Answerable(q) THEN q.files ELSE {}
=============================================================================
