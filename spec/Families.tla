------------------------------ MODULE Families ------------------------------
(***************************************************************************)
(* The image kinds beside GeoTIFF: frame-camera images over one file or an *)
(* array, view-ready stereo files, five-camera images over one file per    *)
(* band (gathered, or written from an array) and geolocation grids.        *)
(*                                                                         *)
(* disk maps a file to its planes.  An object names, per band, the file    *)
(* and plane it shows (bands), and holds what it was last given (mem, one  *)
(* sequence of planes, none when empty).  Files are read when asked.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

Kinds == {"camera", "stereo", "five", "stored", "array", "grid"}
OnFiles(kind) == kind \in {"camera", "stereo", "five", "stored"}
OneFile(kind) == kind \in {"camera", "stereo"}
Nobody == [kind |-> "none", bands |-> <<>>, mem |-> <<>>]

\* one object over one file with nb planes
OpenEff(s, h, kind, f) ==
  [s EXCEPT !.objs[h] = [kind |-> kind, bands |-> [b \in 1..Len(s.disk[f]) |-> [f |-> f, k |-> b]] \o <<>>, mem |-> <<>>]]
\* one file per band, in the order given
GatherEff(s, h, fs) ==
  [s EXCEPT !.objs[h] = [kind |-> "five", bands |-> [b \in 1..Len(fs) |-> [f |-> fs[b], k |-> 1]] \o <<>>, mem |-> <<>>]]
\* an array written to one file per band, which the object then shows
StoreEff(s, h, fs, planes) ==
  [objs |-> [s.objs EXCEPT ![h] = [kind |-> "stored", bands |-> [b \in 1..Len(fs) |-> [f |-> fs[b], k |-> 1]] \o <<>>, mem |-> <<>>]],
   disk |-> [f \in DOMAIN s.disk \cup {fs[b] : b \in 1..Len(fs)} |->
               IF \E b \in 1..Len(fs) : fs[b] = f THEN <<planes[CHOOSE b \in 1..Len(fs) : fs[b] = f]>> ELSE s.disk[f]]]
HoldEff(s, h, kind, planes) == [s EXCEPT !.objs[h] = [kind |-> kind, bands |-> <<>>, mem |-> planes]]
SetAllEff(s, h, planes) == [s EXCEPT !.objs[h].mem = planes]
SetBandEff(s, h, b, plane) == [s EXCEPT !.objs[h].mem[b + 1] = plane]
\* another program puts a new plane into a one-band file
RewriteEff(s, f, plane) == [s EXCEPT !.disk[f] = <<plane>>]

Loaded(o) == o.mem # <<>>
DiskBand(s, o, b) == s.disk[o.bands[b].f][o.bands[b].k]
DiskObs(s, h) == LET o == s.objs[h] IN [b \in 1..Len(o.bands) |-> DiskBand(s, o, b)] \o <<>>
\* a frame camera answers for a band with what it holds, when it holds something: left open
BandFromFile(o) == OnFiles(o.kind) /\ ~ (o.kind = "camera" /\ Loaded(o))
=============================================================================
