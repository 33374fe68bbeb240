--------------------------- MODULE Families_Trace ---------------------------
(***************************************************************************)
(* Judges histories of the other image kinds against Families.  Arrays are *)
(* recorded as [k, sh, dt, v] with v in row, column, band order; a plane   *)
(* is its values row by row.  A case names its files (disk) and the size   *)
(* and sample type of all its images.                                      *)
(*                                                                         *)
(* when: the time and place in the header of a five-camera image.          *)
(***************************************************************************)
EXTENDS Families, Clock, Judge

TInit(case) == [objs |-> [h \in {"A", "B"} |-> Nobody], disk |-> case.disk]

SameNum(a, b) == IF RFin(a) /\ RFin(b) THEN REq(a, b) ELSE (~ RFin(a) /\ ~ RFin(b) /\ a = b)
SameSeq(s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : SameNum(s[i], t[i])
\* value of pixel i and band b (from one) of a recorded cube
Cube(case, planes, e) ==
  [shape |-> e.o.sh = <<case.ny, case.nx, Len(planes)>>, sample_type |-> e.o.dt = case.dt,
   pixels |-> Len(e.o.v) = case.nx * case.ny * Len(planes)
              /\ \A b \in 1..Len(planes), i \in 1..(case.nx * case.ny) : SameNum(e.o.v[(i - 1) * Len(planes) + b], planes[b][i])]
Plane(case, plane, e) ==
  [shape |-> e.o.sh = <<case.ny, case.nx>>, sample_type |-> e.o.dt = case.dt, pixels |-> SameSeq(e.o.v, plane)]
NoErr(e) == [no_error |-> e.err = ""]
Nothing(e) == [no_data_reported |-> e.err = "" /\ e.o.k = "None"]
Told(case, e, nb) ==
  IF e.err # "" THEN <<>>
  ELSE [size_told |-> e.told.nx = case.nx /\ e.told.ny = case.ny /\ e.told.nb = nb, by_property_too |-> e.told.same]
FileTold(case, e) == IF e.err # "" THEN <<>> ELSE [type_told |-> e.told.dt = case.dt, nodata_told |-> SameNum(e.told.nodata, case.nodata), named_after_file |-> e.told.name \o ".tif" = e.path]

\* degrees, minutes and seconds of a header, as a signed angle
Degrees(d, ref) ==
  RMul(IF ref \in {"S", "W"} THEN -1 ELSE 1, RAdd(d[1], RAdd(RDiv(d[2], 60), RDiv(d[3], 3600))))
\* a fraction of a second by its decimal digits
RECURSIVE Tail10(_, _)
Tail10(digits, k) == IF k > Len(digits) THEN 0 ELSE RDiv(RAdd(digits[k], Tail10(digits, k + 1)), 10)
ASSUME /\ REq(Tail10(<<0, 1, 2>>, 1), "3/250") /\ REq(Tail10(<<5>>, 1), Tail10(<<5, 0, 0>>, 1))
       /\ REq(Degrees(<<10, "61/2", 36>>, "S"), RSub(0, RAdd(10, RDiv(1866, 3600))))

TStep(case, s, e) ==
  LET o == IF "h" \in DOMAIN e THEN s.objs[e.h] ELSE Nobody
  IN
  CASE e.op = "open" ->
         [st |-> OpenEff(s, e.h, e.kind, e.f), ck |-> NoErr(e) @@ Told(case, e, Len(s.disk[e.f])) @@ FileTold(case, e)]
    [] e.op = "gather" ->
         [st |-> GatherEff(s, e.h, e.fs),
          ck |-> NoErr(e) @@ (IF e.err # "" THEN <<>> ELSE
                 [bands_told |-> e.told.nb = 5, nodata_told |-> SameNum(e.told.nodata, 0), named_after_files |-> e.told.name \o "_1.tif" = e.path, by_property_too |-> e.told.same])]
    [] e.op = "store" ->
         [st |-> StoreEff(s, e.h, e.fs, e.planes), ck |-> NoErr(e) @@ (IF e.err # "" THEN <<>> ELSE [own_metadata |-> e.told.own, by_property_too |-> e.told.same])]
    [] e.op = "hold" -> [st |-> HoldEff(s, e.h, e.kind, e.planes), ck |-> NoErr(e) @@ Told(case, e, Len(e.planes))]
    [] e.op = "setall" -> [st |-> SetAllEff(s, e.h, e.planes), ck |-> NoErr(e)]
    [] e.op = "setband" -> [st |-> SetBandEff(s, e.h, e.b, e.plane), ck |-> NoErr(e)]
    [] e.op = "rewrite" -> [st |-> RewriteEff(s, e.f, e.plane), ck |-> [driven |-> TRUE]]
    [] e.op = "mem" ->
         [st |-> s, ck |-> IF ~ Loaded(o) THEN Nothing(e) ELSE IF e.err # "" THEN NoErr(e) ELSE Cube(case, o.mem, e)]
    [] e.op = "memband" ->
         [st |-> s, ck |-> IF ~ Loaded(o) THEN Nothing(e) ELSE IF e.err # "" THEN NoErr(e) ELSE Plane(case, o.mem[e.b + 1], e)]
    [] e.op = "file" ->
         [st |-> s, ck |-> IF o.kind = "grid" THEN Nothing(e) ELSE IF ~ OnFiles(o.kind) THEN [left_open |-> TRUE]
                           ELSE IF e.err # "" THEN NoErr(e) ELSE Cube(case, DiskObs(s, e.h), e)]
    [] e.op = "fileband" ->
         [st |-> s, ck |-> IF o.kind = "grid" THEN Nothing(e) ELSE IF ~ BandFromFile(o) THEN [left_open |-> TRUE]
                           ELSE IF e.err # "" THEN NoErr(e) ELSE Plane(case, DiskBand(s, o, e.b + 1), e)]
    [] e.op = "when" ->
         [st |-> s,
          ck |-> IF e.err # "" THEN NoErr(e)
                 ELSE [second_of_the_gps_week |->
                         RClose(e.gps, RAdd(SecondOfWeek(ToGps(RAdd(Midnight(e.date[1], e.date[2], e.date[3]), e.date[4] * 3600 + e.date[5] * 60 + e.date[6]))),
                                            Tail10(e.digits, 1)), "1/1000000"),
                       longitude |-> RClose(e.lon, Degrees(e.dlon, e.rlon), "1/1000000000"),
                       latitude |-> RClose(e.lat, Degrees(e.dlat, e.rlat), "1/1000000000")]]
=============================================================================
