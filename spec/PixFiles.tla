------------------------------ MODULE PixFiles ------------------------------
(***************************************************************************)
(* The parameter files of a Pix4D project, line by line.                   *)
(*   external    one title line, then lines <<image, x y z omega phi kappa>>*)
(*   calibrated  eight title lines, then ten lines an image: size; three   *)
(*               rows K; radial; tangential; position; three rows R        *)
(*   internal    blocks, one a camera, each begun by a line naming Pix4D;  *)
(*               a line with the sensor size, and lines <<key, value>>     *)
(* A line is [kind, key, v]; blank lines mean nothing at the end of a file *)
(* and anywhere in the external and internal ones.                         *)
(***************************************************************************)
EXTENDS Lin
Row(line) == line.kind = "row"
External(lines) ==
  LET rows == SelectSeq(SubSeq(lines, 2, Len(lines)), Row)
  IN [i \in 1..Len(rows) |-> [key |-> rows[i].key, v |-> rows[i].v]] \o <<>>
\* blocks of ten lines after the titles
Calibrated(lines) ==
  LET d == SelectSeq(SubSeq(lines, 9, Len(lines)), Row)
  IN [i \in 1..(Len(d) \div 10) |->
       LET L(k) == d[10 * (i - 1) + k]
       IN [key |-> L(1).key, cam |-> L(1).cam, size |-> L(1).v, k |-> L(2).v \o L(3).v \o L(4).v, radial |-> L(5).v, tangential |-> L(6).v,
           t |-> L(7).v, r |-> L(8).v \o L(9).v \o L(10).v]] \o <<>>
\* blocks: each line belongs to the last start before it
RECURSIVE Blocks(_, _, _)
Blocks(lines, k, acc) ==
  IF k > Len(lines) THEN acc
  ELSE LET l == lines[k]
           n == Len(acc)
           b == CASE l.kind = "start" -> Append(acc, [size |-> <<>>, vals |-> <<>>])
                  [] n > 0 /\ l.kind = "size" -> [acc EXCEPT ![n].size = l.v]
                  [] n > 0 /\ l.kind = "row" -> [acc EXCEPT ![n].vals = Append(@, [key |-> l.key, x |-> l.v[1]])]
                  [] OTHER -> acc
       IN Blocks(lines, k + 1, b)
Internal(lines) == Blocks(lines, 1, <<>>)
KeyOf(b, key) == LET i == CHOOSE j \in 1..Len(b.vals) : b.vals[j].key = key IN b.vals[i].x

\* everything known of each calibrated image, in the order of that file
Of(rows, key) == rows[CHOOSE i \in 1..Len(rows) : rows[i].key = key]
Master(f) ==
  LET c == Calibrated(f.cal)
      e == External(f.ext)
      n == Internal(f.int)
  IN [i \in 1..Len(c) |-> [cal |-> c[i], ext |-> Of(e, c[i].key).v, int |-> n[c[i].cam]]] \o <<>>

\* the camera of an entry, in the terms of Camera; rev: whether columns and rows run the other way than the sensor's axes
CameraOf(m, model, rev) ==
  [k |-> "pix4d", xyz |-> SubSeq(m.ext, 1, 3), m |-> m.cal.r, nx |-> m.cal.size[1], fpaw |-> m.int.size[1], f |-> KeyOf(m.int, "F"),
   px |-> KeyOf(m.int, "Px"), py |-> KeyOf(m.int, "Py"), model |-> model, rd |-> m.cal.radial, td |-> m.cal.tangential, revx |-> rev[1], revy |-> rev[2]]
=============================================================================
