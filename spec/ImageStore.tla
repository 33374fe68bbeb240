---------------------------- MODULE ImageStore ----------------------------
(***************************************************************************)
(* Image objects and the files behind them.                                *)
(*                                                                         *)
(* An image object holds metadata (size, bands, sample type, nodata,       *)
(* geotransform, reference system) and either pixels in memory or none     *)
(* yet (opened from a file, nothing loaded).  A file holds metadata and    *)
(* pixels.  Pixels are a flat sequence in (row, column, band) order.       *)
(*                                                                         *)
(*   NewImg    an object from an array: memory only                        *)
(*   OpenImg   an object from a file: no memory, reads go to the file      *)
(*   SetAll    replace the pixels in memory                                *)
(*   SetBand   replace one band in memory                                  *)
(*   Reref     give the object another geotransform and reference system   *)
(*   Write     store memory (loading it first if nothing is loaded) in a   *)
(*             file                                                        *)
(* Reads (memory, one band of memory, file, one band of the file) do not   *)
(* change anything.                                                        *)
(*                                                                         *)
(* A file that is rewritten under an object which has it open makes later  *)
(* file reads of that object unspecified (the file library keeps its own   *)
(* handle): such objects are not fresh and ReadFile is not enabled.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

NoPx == <<>>          \* no pixels loaded
NoFile == "none"

\* ---- pixels
PxIndex(m, y, x, b) == (y * m.nx + x) * m.nb + b + 1
NPx(m) == m.nx * m.ny * m.nb
Band(m, px, b) == [k \in 1..(m.nx * m.ny) |-> px[(k - 1) * m.nb + b + 1]]
PutBand(m, px, b, plane) ==
  [k \in 1..NPx(m) |-> IF (k - 1) % m.nb = b THEN plane[((k - 1) \div m.nb) + 1] ELSE px[k]]

\* ---- objects
Absent == [meta |-> [nx |-> 0, ny |-> 0, nb |-> 0], mem |-> NoPx, src |-> NoFile, fresh |-> FALSE, live |-> FALSE]
Fresh(meta, px) == [meta |-> meta, mem |-> px, src |-> NoFile, fresh |-> FALSE, live |-> TRUE]
Opened(file, p) == [meta |-> file.meta, mem |-> NoPx, src |-> p, fresh |-> TRUE, live |-> TRUE]
Loaded(o) == o.live /\ o.mem # NoPx
Readable(o) == o.live /\ o.src # NoFile /\ o.fresh
Writable(o) == Loaded(o) \/ Readable(o)

\* ---- effects on (objs, disk)
NewImgEff(s, h, meta, px) == [s EXCEPT !.objs[h] = Fresh(meta, px)]
OpenEff(s, h, p)          == [s EXCEPT !.objs[h] = Opened(s.disk[p], p)]
SetAllEff(s, h, px)       == [s EXCEPT !.objs[h].mem = px]
SetBandEff(s, h, b, pl)   == [s EXCEPT !.objs[h].mem = PutBand(s.objs[h].meta, s.objs[h].mem, b, pl)]
RerefEff(s, h, geot, crs) == [s EXCEPT !.objs[h].meta = [@ EXCEPT !.geot = geot, !.crs = crs]]
Content(s, h)             == IF Loaded(s.objs[h]) THEN s.objs[h].mem ELSE s.disk[s.objs[h].src].px
WriteEff(s, h, p) ==
  LET px == Content(s, h)
  IN  [disk |-> [s.disk EXCEPT ![p] = [meta |-> s.objs[h].meta, px |-> px]],
       objs |-> [k \in DOMAIN s.objs |->
                   LET o == IF k = h THEN [s.objs[k] EXCEPT !.mem = px] ELSE s.objs[k]
                   IN  IF o.src = p THEN [o EXCEPT !.fresh = FALSE] ELSE o]]

\* ---- observations
MemObs(s, h)        == s.objs[h].mem
MemBandObs(s, h, b) == Band(s.objs[h].meta, s.objs[h].mem, b)
FileObs(s, h)       == s.disk[s.objs[h].src].px
FileBandObs(s, h, b) == Band(s.objs[h].meta, FileObs(s, h), b)
===========================================================================
