--------------------------- MODULE Spectrum_Trace ---------------------------
(***************************************************************************)
(* Judges recorded histories of spectra.                                   *)
(*   vals .. fname   what the spectrum was given                           *)
(*   see             everything it returns                                 *)
(*   scribble copy   what was returned, or a copy, was overwritten         *)
(*   resample        by a list of band responses                           *)
(***************************************************************************)
EXTENDS Spectrum, Judge
Reads(s, e) ==
  [values_given |-> SameSeq(e.plain, s.vals),
   nodata_is_not_a_number |-> SameSeq(e.marked, Marked(s, TRUE)),
   wavelengths_given |-> SameSeq(e.waves, s.waves),
   widths_given |-> SameSeq(e.fwhm, s.fwhm),
   nodata_given |-> SameSeq(e.nodata, s.nodata),
   units_given |-> e.sunit = s.sunit /\ e.wunit = s.wunit,
   name_given |-> e.fname = s.fname,
   values_with_units |-> e.uvals = <<>> \/ (SameSeq(e.uvals[1].v, Marked(s, TRUE)) /\ e.uvals[1].u = s.sunit),
   wavelengths_with_units |-> e.uwaves = <<>> \/ (SameSeq(e.uwaves[1].v, s.waves) /\ e.uwaves[1].u = s.wunit),
   widths_with_units |-> e.ufwhm = <<>> \/ (SameSeq(e.ufwhm[1].v, s.fwhm) /\ e.ufwhm[1].u = s.wunit)]
TInit(case) == Empty
TStep(case, s, e) ==
  [st |-> Step(s, e),
   ck |->
    IF e.err # "" THEN [no_error |-> FALSE]
    ELSE
    CASE e.op = "see" -> Reads(s, e)
      [] e.op = "resample" ->
           [band_positions |-> SameSeq(e.waves, e.centers),
            weighted_mean_of_each_band |-> CloseSeq(e.vals, Resampled(s, e.bands), "1/1000000000"),
            values_keep_their_units |-> e.sunit = s.sunit]
      [] OTHER -> [done |-> TRUE]]
=============================================================================
