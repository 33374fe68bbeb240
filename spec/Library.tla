------------------------------ MODULE Library ------------------------------
(***************************************************************************)
(* Spectral library files as lines [start, f]: how the line starts and the *)
(* numbers on it.  Which lines and numbers are the spectrum, by format:    *)
(*   csv    after the given number of header lines, two given columns      *)
(*   svc    after the line that starts with "data": first column, and the  *)
(*          fourth in percent                                              *)
(*   envi   after three header lines: two columns                          *)
(*   usgs   values after one header line, wavelengths and widths likewise  *)
(*          from the files of the folder above named for them              *)
(***************************************************************************)
EXTENDS Lin
Drop(s, n) == SubSeq(s, n + 1, Len(s))
Column(lines, k) == [i \in 1..Len(lines) |-> lines[i].f[k]] \o <<>>
DataLine(lines) == CHOOSE i \in 1..Len(lines) : lines[i].start = "data" /\ \A j \in 1..(i - 1) : lines[j].start # "data"
Percent(v) == [i \in 1..Len(v) |-> RDiv(v[i], 100)] \o <<>>
Named(dir, kind) == CHOOSE i \in 1..Len(dir) : dir[i].kind = kind
Read(file) ==
  CASE file.fmt = "csv" -> LET d == Drop(file.lines, file.nheader)
                           IN [waves |-> Column(d, file.wi + 1), vals |-> Column(d, file.ri + 1), fwhm |-> <<>>]
    [] file.fmt = "svc" -> LET d == Drop(file.lines, DataLine(file.lines))
                           IN [waves |-> Column(d, 1), vals |-> Percent(Column(d, 4)), fwhm |-> <<>>]
    [] file.fmt = "envi" -> LET d == Drop(file.lines, 3)
                            IN [waves |-> Column(d, 1), vals |-> Column(d, 2), fwhm |-> <<>>]
    [] file.fmt = "usgs" -> [waves |-> Column(Drop(file.dir[Named(file.dir, "waves")].lines, 1), 1),
                             vals |-> Column(Drop(file.lines, 1), 1),
                             fwhm |-> Column(Drop(file.dir[Named(file.dir, "widths")].lines, 1), 1)]
\* nodata value of the format
Nodata(fmt) == IF fmt = "usgs" THEN <<"-12300000000000000000000000000000000">> ELSE <<>>
ValueUnit(fmt) == IF fmt = "usgs" THEN "reflectance_zero_to_one" ELSE "reflectance_0-1"
WaveUnit(fmt) == IF fmt = "usgs" THEN "micron" ELSE "nanometers"
============================================================================
