---------------------------- MODULE Library_Trace ----------------------------
(* Judges spectra read from recorded library files. *)
EXTENDS Library, Judge
TInit(case) == 0
TStep(case, st, e) ==
  [st |-> st,
   ck |->
    IF e.err # "" THEN [no_error |-> FALSE]
    ELSE LET w == Read(e.file)
             close(a, b) == NearSeq(a, b, "1/1000000000000")
         IN [every_wavelength_in_order |-> close(e.waves, w.waves),
             every_value_in_order |-> close(e.vals, w.vals),
             widths |-> close(e.fwhm, w.fwhm),
             nodata_of_the_format |-> CloseSeq(e.nodata, Nodata(e.file.fmt), "1000000000000000000000"),
             value_units |-> e.vunit = ValueUnit(e.file.fmt),
             knows_its_file |-> e.of = IF e.file.fmt = "usgs" THEN <<e.name>> ELSE <<>>,
             in_nanometres |-> e.nm # <<>> =>
                LET nm(s) == [i \in 1..Len(s) |-> RMul(s[i], 1000)] \o <<>>
                IN e.file.fmt = "usgs" /\ close(e.nm[1], nm(w.waves)) /\ close(e.nm[2], nm(w.fwhm)),
             wavelength_units |-> e.wunit = WaveUnit(e.file.fmt),
             nodata_is_not_a_number |-> Len(e.marked) = Len(w.vals) /\ \A i \in 1..Len(w.vals) :
                (~ RFin(e.marked[i])) <=> (e.nodata # <<>> /\ RNear(w.vals[i], Nodata(e.file.fmt)[1], "1/1000000000000"))]]
===============================================================================
