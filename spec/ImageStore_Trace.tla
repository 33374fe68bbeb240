------------------------- MODULE ImageStore_Trace -------------------------
(***************************************************************************)
(* Judges recorded histories of real image objects against ImageStore.     *)
(*                                                                         *)
(* Every event carries err ("" or the exception's name).  Observations of  *)
(* arrays are [k, sh, dt, v]: kind, shape, sample type, flat values;       *)
(* observations of metadata are [nx, ny, nb, dt, nodata, geot, crs], crs   *)
(* being the images of reference positions under the object's projection.  *)
(***************************************************************************)
EXTENDS ImageStore, Rat, Judge

TInit(case) == [objs |-> [h \in {"A", "B", "C"} |-> Absent],
                disk |-> [p \in {"p", "q", "r"} |-> [meta |-> Absent.meta, px |-> NoPx]]]

SameNum(a, b) == IF RFin(a) /\ RFin(b) THEN REq(a, b) ELSE (~ RFin(a) /\ ~ RFin(b) /\ a = b)
SameSeq(s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : SameNum(s[i], t[i])
NearSeq(s, t, tol) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : RNear(s[i], t[i], tol)

MetaCk(m, e) ==
  [size        |-> e.m.nx = m.nx /\ e.m.ny = m.ny /\ e.m.nb = m.nb,
   sample_type |-> e.m.dt = m.dt,
   nodata      |-> SameNum(e.m.nodata, m.nodata),
   geotransform|-> NearSeq(e.m.geot, m.geot, "1/1000000000000"),
   crs         |-> NearSeq(e.m.crs, m.crs, "1/1000000000")]

\* complex samples are recorded as consecutive (re, im) numbers
Wide(m) == IF m.cplx THEN 2 ELSE 1
ArrCk(m, e, sh, px) ==
  IF e.err # "" THEN [no_error |-> FALSE]
  ELSE [no_error |-> TRUE,
        shape    |-> e.o.sh = sh,
        dtype    |-> e.o.dt = m.dt,
        pixels   |-> IF Len(e.o.v) = Len(px) * Wide(m)
                     THEN \A k \in 1..Len(px) :
                            IF m.cplx THEN SameNum(e.o.v[2*k-1], px[k][1]) /\ SameNum(e.o.v[2*k], px[k][2])
                                      ELSE SameNum(e.o.v[k], px[k])
                     ELSE FALSE]
Cube(m) == <<m.ny, m.nx, m.nb>>
Plane(m) == <<m.ny, m.nx>>
Unspecified(s) == [st |-> s, ck |-> [unspecified |-> TRUE]]
NoErr(e) == [no_error |-> e.err = ""]

TStep(case, s, e) ==
  LET o == IF "h" \in DOMAIN e THEN s.objs[e.h] ELSE Absent
  IN
  CASE e.op = "new" ->
         [st |-> NewImgEff(s, e.h, e.meta, e.px), ck |-> NoErr(e) @@ (IF e.err = "" THEN MetaCk(e.meta, e) ELSE <<>>)]
    [] e.op = "open" ->
         [st |-> OpenEff(s, e.h, e.p),
          ck |-> NoErr(e) @@ (IF e.err = "" THEN MetaCk(s.disk[e.p].meta, e) @@ [knows_its_file |-> e.name \o e.ext = e.file] ELSE <<>>)]
    [] e.op = "setall"  -> [st |-> SetAllEff(s, e.h, e.px), ck |-> NoErr(e)]
    [] e.op = "setband" -> [st |-> SetBandEff(s, e.h, e.b, e.plane), ck |-> NoErr(e)]
    [] e.op = "reref"   -> [st |-> RerefEff(s, e.h, e.geot, e.crs), ck |-> NoErr(e) @@ (IF e.err = "" THEN MetaCk([o.meta EXCEPT !.geot = e.geot, !.crs = e.crs], e) ELSE <<>>)]
    [] e.op = "write"   -> [st |-> WriteEff(s, e.h, e.p), ck |-> NoErr(e)]
    [] e.op = "mem" ->        \* get_image_data
         [st |-> s,
          ck |-> IF Loaded(o) THEN ArrCk(o.meta, e, Cube(o.meta), MemObs(s, e.h))
                 ELSE [no_data_reported |-> e.err = "" /\ e.o.k = "None"]]
    [] e.op = "memband" ->    \* get_image_band
         [st |-> s,
          ck |-> IF Loaded(o) THEN ArrCk(o.meta, e, Plane(o.meta), MemBandObs(s, e.h, e.b))
                 ELSE [no_data_reported |-> e.err = "" /\ e.o.k = "None"]]
    [] e.op = "file" ->       \* read_all_image_data_from_disk
         IF Readable(o) THEN [st |-> s, ck |-> ArrCk(o.meta, e, Cube(o.meta), FileObs(s, e.h))] ELSE Unspecified(s)
    [] e.op = "fileband" ->   \* read_band_from_disk
         IF Readable(o) THEN [st |-> s, ck |-> ArrCk(o.meta, e, Plane(o.meta), FileBandObs(s, e.h, e.b))] ELSE Unspecified(s)
    [] e.op = "memds" ->      \* in-memory GDAL dataset: loads the pixels, holds everything
         LET px == Content(s, e.h)
         IN  [st |-> [s EXCEPT !.objs[e.h].mem = px],
              ck |-> IF e.err # "" THEN [no_error |-> FALSE]
                     ELSE ArrCk(o.meta, e, Cube(o.meta), px) @@ MetaCk(o.meta, e)]
    [] e.op = "meta" -> [st |-> s, ck |-> MetaCk(o.meta, e)]
===========================================================================
