------------------------------ MODULE Envi_MC ------------------------------
(***************************************************************************)
(* Every small cube shape and interleave; headers written entry by entry   *)
(* in every style: spacing, blank lines, values over several lines, with   *)
(* and without the last newline.                                           *)
(***************************************************************************)
EXTENDS Envi, TLC, Json
CONSTANTS MaxSide, MaxEntries, SepKinds
VARIABLES kind, text, entries, shape, inter, done, blank
vars == <<kind, text, entries, shape, inter, done, blank>>
K == [a |-> <<97, 32, 98>>, samples |-> <<115, 97, 109, 112, 108, 101, 115>>, Lines |-> <<76, 105, 110, 101, 115>>,
      fwhm |-> <<102, 119, 104, 109>>, dem |-> <<100>>]
\* plain values: word, value with "=", number, nothing
Plain == [a |-> {<<120, 32, 121>>, <<120, 61, 121>>, <<>>}, samples |-> {<<49, 50>>}, Lines |-> {<<51>>}, fwhm |-> {}, dem |-> {<<45, 49, 46, 53>>}]
\* braced: text with "=" over lines; numbers
Braced == [a |-> {<<120, 61, 49, 44, 10, 121, 32, 61>>, <<113>>}, samples |-> {}, Lines |-> {}, fwhm |-> {<<49, 46, 53, 44, 32, 50, 101, 49>>, <<55, 44, 10, 32, 46, 53>>}, dem |-> {<<112, 44, 113>>}]
Keys == DOMAIN K
Seps == {<<<<61>>, <<32, 61, 32>>, <<32, 32, 61>>>>[i] : i \in 1..SepKinds}
Pads == {<<>>, <<32>>}
Breaks == {<<>>, <<10>>, <<10, 32>>}
Used == {entries[i].key : i \in 1..Len(entries)}
Init == /\ kind \in {"cube", "header"} /\ text = <<69, 78, 86, 73, 10>> /\ entries = <<>> /\ done = FALSE /\ blank = FALSE
        /\ shape \in (IF kind = "cube" THEN (1..MaxSide) \X (1..MaxSide) \X (1..MaxSide) ELSE {<<1, 1, 1>>}) /\ inter \in (IF kind = "cube" THEN {"bil", "bip", "bsq"} ELSE {"bil"})
Open1 == kind = "header" /\ ~ done /\ UNCHANGED <<kind, shape, inter>>
AddPlain == /\ Open1 /\ Len(entries) < MaxEntries
            /\ \E k \in Keys, s \in Seps, p \in Pads : \E v \in Plain[k] :
                 /\ K[k] \notin Used
                 /\ entries' = Append(entries, [key |-> K[k], braced |-> FALSE, val |-> v])
                 /\ text' = text \o p \o K[k] \o s \o v \o p \o <<10>>
            /\ UNCHANGED done /\ blank' = FALSE
AddBraced == /\ Open1 /\ Len(entries) < MaxEntries
             /\ \E k \in Keys, s \in Seps, br \in Breaks : \E v \in Braced[k] :
                  /\ K[k] \notin Used
                  /\ entries' = Append(entries, [key |-> K[k], braced |-> TRUE, val |-> v])
                  /\ text' = text \o K[k] \o s \o <<123>> \o br \o v \o br \o <<125>> \o <<10>>
             /\ UNCHANGED done /\ blank' = FALSE
AddBlank == /\ Open1 /\ ~ blank /\ blank' = TRUE /\ \E p \in Pads : text' = text \o p \o <<10>> /\ UNCHANGED <<entries, done>>
End == /\ Open1 /\ entries # <<>> /\ done' = TRUE /\ text' \in {text, SubSeq(text, 1, Len(text) - 1)} /\ UNCHANGED <<entries, blank>>
Next == AddPlain \/ AddBraced \/ AddBlank \/ End
Spec == Init /\ [][Next]_vars
ny == shape[1]
nx == shape[2]
nb == shape[3]
N == ny * nx * nb
Cube == [k \in 1..N |-> k] \o <<>>
EveryPlaceOnce == {Place(inter, ny, nx, nb, c[1], c[2], c[3]) : c \in Cells(ny, nx, nb)} = 0..(N - 1)
ReadsBack == CubeOf(inter, ny, nx, nb, FileOf(inter, ny, nx, nb, Cube)) = Cube
Types == {"uint8", "int16", "float32", "float64", "complex64", "complex128"}
Spans(a, b) == \A t \in Types, order \in {0, 1}, offset \in {0, 7} :
  {BytePlace(t, order, offset, k, i) : k \in a..b, i \in 0..(TypeSize(t) - 1)} = (offset + a * TypeSize(t))..(offset + (b + 1) * TypeSize(t) - 1)
EveryByteOnce == kind = "cube" => Spans(0, N - 1) /\ Spans(N - 1, N - 1)
OneByteHasNoOrder == kind = "cube" => \A k \in 0..(N - 1) : BytePlace("uint8", 0, 3, k, 0) = BytePlace("uint8", 1, 3, k, 0)
\* one band: line and band order agree; one sample: as band by pixel
OneBand == nb = 1 => FileOf(inter, ny, nx, nb, Cube) = Cube
ParsesBack == kind = "header" => Parsed(text) = entries
Emit == done => PrintT("@@BEH " \o ToJson([text |-> text]))
============================================================================
