---------------------------- MODULE Scoring_Trace ---------------------------
(***************************************************************************)
(* Judges recorded scorings of images and training sessions; the network   *)
(* is a stand-in that records what it is shown and what is done to it.     *)
(*   score       case.img, ny, nx, nb; e.cs, e.ts chip and shown sizes     *)
(*               <<rows, columns>>, e.ov shares of overlap; e.shown what   *)
(*               the network was shown, e.answers what it answered         *)
(*   usual       the same with no size or overlap asked for: 224, one half *)
(*   freeze, unfreeze, top, train   one step of a session                  *)
(*   pictures    the pictures to train with are set up                     *)
(***************************************************************************)
EXTENDS Scoring, Lin, Judge
TInit(case) == IF case.kind = "train" THEN Session(case.layers) ELSE [none |-> 0]
CeilDiv(a, b) == (a + (b - 1)) \div b
RCeil(x) == RNeg(RFloor(RNeg(x)))

ScoreCk(case, e) ==
  LET bands == Colours(case.nb)
      n == Len(e.ul)
      ov == [k \in 1..2 |-> RFloor(RMul(e.cs[k], e.ov[k]))]
      grid == {<<y, x>> : y \in Starts(case.ny, e.cs[1], ov[1]), x \in Starts(case.nx, e.cs[2], ov[2])}
      Chip(i) == Content(case.img, case.nx, case.nb, e.ul[i], e.cs[1], e.cs[2], bands)
      Even(v) == RMinOf(v) = RMaxOf(v)
      same == e.cs = e.ts
      on == {e.ul[i] : i \in 1..n} \subseteq grid
      fits == Len(e.shown) = n /\ \A i \in 1..n : e.shsh[i] = <<e.ts[1], e.ts[2], Len(bands)>> /\ Len(e.shown[i]) = e.ts[1] * e.ts[2] * Len(bands)
      classes == Len(e.labels)
      want == Reported(e.answers, e.labels, e.find)
      wide == IF e.find = <<>> THEN classes ELSE 1
  IN [every_place_once |-> on /\ n = Cardinality(grid) /\ Cardinality({e.ul[i] : i \in 1..n}) = n,
      every_chip_shown_at_the_size_asked |-> fits,
      shown_in_order_without_opacity |-> (on /\ fits /\ same) => \A i \in 1..n :
         (e.how = "min_max_per_chip" /\ Even(Chip(i))) \/ NearSeq(e.shown[i], Normalised(Chip(i), e.how), "1/1000000"),
      resized_within_its_colours |-> (on /\ fits /\ ~ same /\ e.how # "min_max_per_chip") => \A i \in 1..n :
         LET v == Normalised(Chip(i), e.how)
             lo == RSub(RMinOf(v), "1/1000000")
             hi == RAdd(RMaxOf(v), "1/1000000")
         IN \A k \in 1..Len(e.shown[i]) : RLe(lo, e.shown[i][k]) /\ RLe(e.shown[i][k], hi),
      resized_to_the_unit_range |-> (on /\ fits /\ ~ same /\ e.how = "min_max_per_chip") => \A i \in 1..n :
         Even(Chip(i)) \/ Even(e.raw[i]) \/ (REq(RMinOf(e.shown[i]), 0) /\ REq(RMaxOf(e.shown[i]), 1)),
      a_score_per_chip |-> Len(e.r) = n * wide /\ (e.find # <<>> => e.rsh = <<n>>),
      scores_are_the_answers |-> Len(e.r) = n * wide /\ Len(e.answers) = n => \A i \in 1..n : \A k \in 1..wide :
         SameNum(e.r[((i - 1) * wide) + k], want[i][k]),
      image_unchanged |-> e.same,
      progress_told |-> \A i \in 1..Len(e.told) : RLe(0, e.told[i]) /\ RLe(e.told[i], 100) /\ (i > 1 => RLe(e.told[i - 1], e.told[i]))]

TStep(case, st, e) ==
  IF e.err # "" THEN [st |-> st, ck |-> [no_error |-> FALSE]]
  ELSE CASE e.op = "score" -> [st |-> st, ck |-> ScoreCk(case, e)]
    [] e.op = "usual" ->
         LET half(k) == RFloor(RDiv(e.cs[k], 2))
             grid == {<<y, x>> : y \in Starts(case.ny, e.cs[1], half(1)), x \in Starts(case.nx, e.cs[2], half(2))}
             n == Len(e.ul)
         IN [st |-> st,
             ck |-> [every_place_once |-> {e.ul[i] : i \in 1..n} = grid /\ n = Cardinality(grid),
                     every_chip_shown_at_the_usual_size |-> e.seen = [i \in 1..n |-> <<1, e.ts[1], e.ts[2], 3>>]]]
    [] e.op \in {"freeze", "unfreeze"} ->
         LET t == SetAll(st, e.op = "unfreeze") IN [st |-> t, ck |-> [every_layer |-> e.body = t.body]]
    [] e.op = "top" ->
         LET last == e.made[Len(e.made)]
             At(k) == {i \in 1..Len(e.made) : e.made[i].k = k}
         IN [st |-> MakeTop(st),
             ck |-> [body_unchanged |-> e.body = st.body,
                     one_probability_per_class |-> last.k = "dense" /\ last.n = e.classes /\ last.act = "softmax" /\ e.whole,
                     grows_on_the_network |-> e.on_body,
                     pooled_over_the_picture |-> Cardinality(At("pool")) = 1,
                     drops_what_was_asked |-> Cardinality(At("drop")) = 1 /\ \A i \in At("drop") : REq(e.made[i].n, e.dropout),
                     connections_as_asked |-> \E i \in At("dense") : i # Len(e.made) /\ e.made[i].n = e.dense]]
    [] e.op = "train" ->
         LET t == Trained(st, e.useTop, e.w)
         IN [st |-> t,
             ck |-> [trained_once |-> e.fits = 1 /\ t.net.fitted = 1,
                     the_network_asked_for |-> e.of = t.net.of,
                     compiled_before |-> e.compiled = t.net.compiled,
                     weights_before |-> e.weights = t.weights,
                     frozen_stays_frozen |-> e.body = t.body,
                     every_picture_each_epoch |-> /\ e.epochs = e.wepochs
                        /\ RCeil(e.steps) = CeilDiv(e.n[1], e.batch[1]) /\ RCeil(e.vsteps) = CeilDiv(e.n[2], e.batch[2]),
                     pictures_not_swapped |-> e.given = <<"training", "validation">>,
                     as_asked |-> e.comp = e.wcomp,
                     best_network_kept_where_asked |-> e.kept = <<e.wfile, TRUE, "val_loss">>,
                     labels_name_the_answers |-> e.labels = LabelsOf(e.classes)]]
    [] e.op = "pictures" ->
         [st |-> st,
          ck |-> [from_their_folders |-> e.dirs = e.wdirs,
                  same_scale |-> \A k \in 1..2 : REq(e.scale[k], e.wscale),
                  same_size_and_batch |-> \A k \in 1..2 : e.size[k] = <<e.wsize, e.wsize>> /\ e.batch[k] = e.wbatch,
                  one_class_per_folder |-> e.mode = <<"categorical", "categorical">>,
                  only_training_is_mirrored |-> e.flips = <<e.wflips, <<FALSE, FALSE>>>>,
                  class_numbers |-> e.idx = e.widx]]
===========================================================================
