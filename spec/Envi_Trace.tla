---------------------------- MODULE Envi_Trace ----------------------------
(***************************************************************************)
(* Judges recorded ENVI writes, reads and headers.  Samples are recorded   *)
(* as their bits; st[name] is what the named image file holds.             *)
(***************************************************************************)
EXTENDS Envi, Judge
TInit(case) == [n \in {case.names[i] : i \in 1..Len(case.names)} |-> <<>>]
InterText(i) == CASE i = "bil" -> <<98, 105, 108>> [] i = "bip" -> <<98, 105, 112>> [] i = "bsq" -> <<98, 115, 113>>
DataType == <<100, 97, 116, 97, 32, 116, 121, 112, 101>>
Samples == <<115, 97, 109, 112, 108, 101, 115>>
Lines == <<108, 105, 110, 101, 115>>
Bands == <<98, 97, 110, 100, 115>>
Interleave == <<105, 110, 116, 101, 114, 108, 101, 97, 118, 101>>
Says(es, key, v) == \E i \in 1..Len(es) : es[i].key = key /\ es[i].val # <<>> /\ REq(Number(es[i].val), v)
SaysText(es, key, v) == \E i \in 1..Len(es) : es[i].key = key /\ es[i].val = v
InPlace(e, file, cube) ==
  /\ Len(file) = e.ny * e.nx * e.nb /\ Len(cube) = Len(file)
  /\ \A c \in Cells(e.ny, e.nx, e.nb) : file[Place(e.inter, e.ny, e.nx, e.nb, c[1], c[2], c[3]) + 1] = cube[Place("bip", e.ny, e.nx, e.nb, c[1], c[2], c[3]) + 1]
Band(w, b) == [k \in 1..(w.ny * w.nx) |-> w.cube[(k - 1) * w.nb + b + 1]] \o <<>>
Held(e) == [ny |-> e.ny, nx |-> e.nx, nb |-> e.nb, dtype |-> e.dtype, cube |-> e.cube, inter |-> e.inter]
TStep(case, st, e) ==
  [st |-> IF e.op \in {"write", "given"} THEN [st EXCEPT ![e.name] = Held(e)] ELSE st,
   ck |->
    IF e.err # "" THEN [no_error |-> FALSE]
    ELSE
    CASE e.op = "write" ->
           LET es == Parsed(e.header)
           IN [samples_in_the_interleave |-> InPlace(e, e.file, e.cube),
               header_gives_the_shape |-> Says(es, Samples, e.nx) /\ Says(es, Lines, e.ny) /\ Says(es, Bands, e.nb),
               header_gives_the_type |-> Says(es, DataType, TypeCode(e.dtype)),
               header_gives_the_interleave |-> SaysText(es, Interleave, InterText(e.inter)),
               starts_with_envi |-> SubSeq(e.header, 1, 5) = <<69, 78, 86, 73, 10>>,
               cube_unchanged |-> e.after = e.cube]
      [] e.op = "given" ->
           LET n == e.ny * e.nx * e.nb ts == TypeSize(e.dtype)
           IN [whole_file |-> Len(e.file) = e.offset + n * ts /\ Len(e.bytes) = n * ts,
               file_is_the_cube |-> \A c \in Cells(e.ny, e.nx, e.nb), i \in 0..(ts - 1) :
                  e.file[BytePlace(e.dtype, e.order, e.offset, Place(e.inter, e.ny, e.nx, e.nb, c[1], c[2], c[3]), i) + 1]
                    = e.bytes[BytePlace(e.dtype, 0, 0, Place("bip", e.ny, e.nx, e.nb, c[1], c[2], c[3]), i) + 1]]
      [] e.op = "read" ->
           LET w == st[e.name]
           IN [same_shape |-> e.shape = <<w.ny, w.nx, w.nb>>, same_type |-> e.dtype = w.dtype, same_samples |-> e.vals = w.cube]
      [] e.op = "image" ->
           LET w == st[e.name]
           IN [size_of_the_header |-> e.size = <<w.ny, w.nx, w.nb>>,
               same_shape |-> e.shape = <<w.ny, w.nx, w.nb>>, same_type |-> e.dtype = w.dtype, same_samples |-> e.vals = w.cube,
               every_band |-> Len(e.bands) = w.nb /\ \A b \in 1..w.nb : e.bands[b] = Band(w, b - 1),
               bands_of_the_set_data |-> Len(e.set) = w.nb /\ \A b \in 1..w.nb : e.set[b] = Band(w, b - 1)]
      [] e.op = "header" ->
           LET es == Parsed(e.text)
           IN [exactly_the_keys |-> Len(e.r) = Len(es) /\ \A i \in 1..Len(es) : \E j \in 1..Len(e.r) : e.r[j].key = es[i].key,
               texts |-> \A i \in 1..Len(es) : KindOf(es[i].key) = "text" => \A j \in 1..Len(e.r) : e.r[j].key = es[i].key => e.r[j].kind = "text" /\ e.r[j].val = es[i].val,
               whole_numbers |-> \A i \in 1..Len(es) : KindOf(es[i].key) = "number" =>
                  \A j \in 1..Len(e.r) : e.r[j].key = es[i].key => e.r[j].kind = "number" /\ REq(e.r[j].num, Number(es[i].val)),
               number_arrays |-> \A i \in 1..Len(es) : KindOf(es[i].key) = "numbers" =>
                  \A j \in 1..Len(e.r) : e.r[j].key = es[i].key => e.r[j].kind = "numbers" /\ NearSeq(e.r[j].nums, Numbers(es[i].val), "1/1000000000000000")]]
=============================================================================
