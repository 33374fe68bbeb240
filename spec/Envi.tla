-------------------------------- MODULE Envi --------------------------------
(***************************************************************************)
(* ENVI images: the place of a sample in the file for each interleave, and *)
(* header texts (sequences of character codes) as entries key = value or   *)
(* key = {value over several lines}.                                       *)
(***************************************************************************)
EXTENDS Lin

\* ---- layout: zero-based place of (line, sample, band) in the file
Place(inter, ny, nx, nb, y, x, b) ==
  CASE inter = "bil" -> (y * nb + b) * nx + x
    [] inter = "bip" -> (y * nx + x) * nb + b
    [] inter = "bsq" -> (b * ny + y) * nx + x
\* the file of a cube given row by row, sample by sample, band by band
Cells(ny, nx, nb) == {<<y, x, b>> : y \in 0..(ny - 1), x \in 0..(nx - 1), b \in 0..(nb - 1)}
Stored(inter, ny, nx, nb, cube, k) ==
  LET c == CHOOSE c \in Cells(ny, nx, nb) : Place(inter, ny, nx, nb, c[1], c[2], c[3]) = k
  IN cube[Place("bip", ny, nx, nb, c[1], c[2], c[3]) + 1]
FileOf(inter, ny, nx, nb, cube) == [k \in 1..(ny * nx * nb) |-> Stored(inter, ny, nx, nb, cube, k - 1)] \o <<>>
CubeOf(inter, ny, nx, nb, file) ==
  [k \in 1..(ny * nx * nb) |->
     LET b == (k - 1) % nb x == ((k - 1) \div nb) % nx y == (k - 1) \div (nb * nx)
     IN file[Place(inter, ny, nx, nb, y, x, b) + 1]] \o <<>>
\* ENVI codes of the sample types, and their bytes
TypeCode(t) == CASE t = "uint8" -> 1 [] t = "int16" -> 2 [] t = "int32" -> 3 [] t = "float32" -> 4 [] t = "float64" -> 5 [] t = "complex64" -> 6
                 [] t = "complex128" -> 9 [] t = "uint16" -> 12 [] t = "uint32" -> 13 [] t = "int64" -> 14 [] t = "uint64" -> 15
TypeSize(t) == CASE t = "uint8" -> 1 [] t \in {"int16", "uint16"} -> 2 [] t \in {"int32", "uint32", "float32"} -> 4
                 [] t \in {"int64", "uint64", "float64", "complex64"} -> 8 [] t = "complex128" -> 16
\* a complex sample is two numbers; the numbers of a file are little endian (0) or big endian (1) and begin after the header offset
PartSize(t) == IF t \in {"complex64", "complex128"} THEN TypeSize(t) \div 2 ELSE TypeSize(t)
\* place in the file of byte i (from the least of each number) of the sample stored at place k
BytePlace(t, order, offset, k, i) ==
  LET ps == PartSize(t) low == i % ps
  IN offset + k * TypeSize(t) + (i \div ps) * ps + (IF order = 1 THEN ps - 1 - low ELSE low)

\* ---- headers
LF == 10
Blank(c) == c \in {9, 10, 11, 12, 13, 32}
Eq == 61
Open == 123
Close == 125
RECURSIVE Find(_, _, _)      \* first place of c at or after k, or one past the end
Find(t, k, c) == IF k > Len(t) THEN k ELSE IF t[k] = c THEN k ELSE Find(t, k + 1, c)
RECURSIVE LStrip(_)
LStrip(t) == IF t # <<>> /\ Blank(t[1]) THEN LStrip(Tail(t)) ELSE t
RECURSIVE RStrip(_)
RStrip(t) == IF t # <<>> /\ Blank(t[Len(t)]) THEN RStrip(SubSeq(t, 1, Len(t) - 1)) ELSE t
Strip(t) == LStrip(RStrip(t))
RECURSIVE Entries(_, _)
Entries(t, k) ==
  IF k > Len(t) THEN <<>>
  ELSE LET nl == Find(t, k, LF)
           eq == Find(t, k, Eq)
           op == Find(t, eq, Open)
       IN IF eq >= nl THEN Entries(t, nl + 1)                       \* no entry on this line
          ELSE IF op < nl
          THEN LET cl == Find(t, op, Close)
               IN <<[key |-> Strip(SubSeq(t, k, eq - 1)), braced |-> TRUE, val |-> Strip(SubSeq(t, op + 1, cl - 1))]>> \o Entries(t, cl + 1)
          ELSE <<[key |-> Strip(SubSeq(t, k, eq - 1)), braced |-> FALSE, val |-> Strip(SubSeq(t, eq + 1, nl - 1))]>> \o Entries(t, nl + 1)
Parsed(t) == Entries(t, 1)

\* ---- numbers in texts
Digit(c) == c \in 48..57
RECURSIVE Digits(_, _, _)    \* value so far, continued over the digits from k
Digits(t, k, v) == IF k > Len(t) \/ ~ Digit(t[k]) THEN v ELSE Digits(t, k + 1, RAdd(RMul(v, 10), t[k] - 48))
RECURSIVE NotDigit(_, _)
NotDigit(t, k) == IF k <= Len(t) /\ Digit(t[k]) THEN NotDigit(t, k + 1) ELSE k
RECURSIVE Ten(_)
Ten(n) == IF n = 0 THEN 1 ELSE RMul(10, Ten(n - 1))
RECURSIVE Small(_, _, _)
Small(t, k, v) == IF k > Len(t) \/ ~ Digit(t[k]) THEN v ELSE Small(t, k + 1, 10 * v + t[k] - 48)
Number(t) ==
  LET s == IF t[1] \in {43, 45} THEN 2 ELSE 1
      dot == NotDigit(t, s)
      hasdot == dot <= Len(t) /\ t[dot] = 46
      e == IF hasdot THEN NotDigit(t, dot + 1) ELSE dot
      whole == Digits(t, s, 0)
      part == IF hasdot THEN RDiv(Digits(t, dot + 1, 0), Ten(e - dot - 1)) ELSE 0
      hasexp == e <= Len(t) /\ t[e] \in {69, 101}
      es == IF hasexp /\ t[e + 1] \in {43, 45} THEN e + 2 ELSE e + 1
      ex == IF hasexp THEN Small(t, es, 0) ELSE 0
      m == RAdd(whole, part)
      v == IF hasexp /\ t[e + 1] = 45 THEN RDiv(m, Ten(ex)) ELSE RMul(m, Ten(ex))
  IN IF t[1] = 45 THEN RNeg(v) ELSE v
RECURSIVE Parts(_, _)
Parts(t, k) == LET c == Find(t, k, 44) IN <<Strip(SubSeq(t, k, c - 1))>> \o (IF c > Len(t) THEN <<>> ELSE Parts(t, c + 1))
Numbers(t) == LET p == Parts(t, 1) IN [i \in 1..Len(p) |-> Number(p[i])] \o <<>>

\* how a key's value is given: number, numbers or text
Low(c) == IF c \in 65..90 THEN c + 32 ELSE c
Lowered(t) == [i \in 1..Len(t) |-> Low(t[i])] \o <<>>
\* "samples" "lines" "bands" "header offset" "data type" "byte order" "x start" "y start"
IntKeys == {<<115, 97, 109, 112, 108, 101, 115>>, <<108, 105, 110, 101, 115>>, <<98, 97, 110, 100, 115>>,
            <<104, 101, 97, 100, 101, 114, 32, 111, 102, 102, 115, 101, 116>>, <<100, 97, 116, 97, 32, 116, 121, 112, 101>>,
            <<98, 121, 116, 101, 32, 111, 114, 100, 101, 114>>, <<120, 32, 115, 116, 97, 114, 116>>, <<121, 32, 115, 116, 97, 114, 116>>}
\* "wavelength" "fwhm"
ArrayKeys == {<<119, 97, 118, 101, 108, 101, 110, 103, 116, 104>>, <<102, 119, 104, 109>>}
KindOf(key) == IF Lowered(key) \in IntKeys THEN "number" ELSE IF Lowered(key) \in ArrayKeys THEN "numbers" ELSE "text"
=============================================================================
