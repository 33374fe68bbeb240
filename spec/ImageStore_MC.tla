--------------------------- MODULE ImageStore_MC ---------------------------
(***************************************************************************)
(* Bounded model of ImageStore: two objects, two files, one-row images.    *)
(* Every set uses a fresh value, so every pixel names the action that put  *)
(* it there.  Ghost variables restate the intended meaning independently:  *)
(*   last[h][b]  the value last set or loaded for band b of object h       *)
(*   filed[p][b] the value of band b when p was last written               *)
(* Complete behaviours (mutators only) are emitted for replay.             *)
(***************************************************************************)
EXTENDS ImageStore, TLC, Json
CONSTANTS H, P, NB, Depth

VARIABLES s, n, last, filed, hist
vars == <<s, n, last, filed, hist>>

Meta == [nx |-> 1, ny |-> 1, nb |-> NB]
Bands == 0..(NB - 1)
None == -1
NoBands == [b \in Bands |-> None]

Init ==
  /\ s = [objs |-> [h \in H |-> Absent], disk |-> [p \in P |-> [meta |-> Meta, px |-> NoPx]]]
  /\ n = 1
  /\ last = [h \in H |-> NoBands]
  /\ filed = [p \in P |-> NoBands]
  /\ hist = <<>>

Log(a) == hist' = Append(hist, a)
OnDisk(p) == s.disk[p].px # NoPx
Go == Len(hist) < Depth

NewImg(h) ==
  /\ Go
  /\ s' = NewImgEff(s, h, Meta, [k \in 1..NB |-> n])
  /\ n' = n + 1
  /\ last' = [last EXCEPT ![h] = [b \in Bands |-> n]]
  /\ UNCHANGED filed
  /\ Log([a |-> "new", h |-> h])
OpenImg(h, p) ==
  /\ Go /\ OnDisk(p)
  /\ s' = OpenEff(s, h, p)
  /\ last' = [last EXCEPT ![h] = NoBands]
  /\ UNCHANGED <<n, filed>>
  /\ Log([a |-> "open", h |-> h, p |-> p])
SetAll(h) ==
  /\ Go /\ s.objs[h].live
  /\ s' = SetAllEff(s, h, [k \in 1..NB |-> n])
  /\ n' = n + 1
  /\ last' = [last EXCEPT ![h] = [b \in Bands |-> n]]
  /\ UNCHANGED filed
  /\ Log([a |-> "setall", h |-> h])
SetBand(h, b) ==
  /\ Go /\ Loaded(s.objs[h])
  /\ s' = SetBandEff(s, h, b, <<n>>)
  /\ n' = n + 1
  /\ last' = [last EXCEPT ![h][b] = n]
  /\ UNCHANGED filed
  /\ Log([a |-> "setband", h |-> h, b |-> b])
Write(h, p) ==
  /\ Go /\ Writable(s.objs[h])
  /\ LET v == IF last[h] = NoBands THEN filed[s.objs[h].src] ELSE last[h]
     IN last' = [last EXCEPT ![h] = v] /\ filed' = [filed EXCEPT ![p] = v]
  /\ s' = WriteEff(s, h, p)
  /\ UNCHANGED n
  /\ Log([a |-> "write", h |-> h, p |-> p])

Next == \/ \E h \in H : NewImg(h) \/ SetAll(h)
        \/ \E h \in H, b \in Bands : SetBand(h, b)
        \/ \E h \in H, p \in P : OpenImg(h, p) \/ Write(h, p)
Spec == Init /\ [][Next]_vars

\* ---- properties
LastSetWins == \A h \in H : Loaded(s.objs[h]) => \A b \in Bands : MemBandObs(s, h, b) = <<last[h][b]>>
NothingLoaded == \A h \in H : (s.objs[h].live /\ ~ Loaded(s.objs[h])) => last[h] = NoBands
FileIsLastWrite == \A p \in P : OnDisk(p) => \A b \in Bands : Band(Meta, s.disk[p].px, b) = <<filed[p][b]>>
ReadableMeansFile == \A h \in H : Readable(s.objs[h]) => OnDisk(s.objs[h].src) /\ \A b \in Bands : FileBandObs(s, h, b) = <<filed[s.objs[h].src][b]>>
DiskOnlyByWrite == [][s'.disk # s.disk => hist'[Len(hist')].a = "write"]_vars
OneObjectAtATime ==
  [][\A h \in H : h # hist'[Len(hist')].h => (s'.objs[h].mem = s.objs[h].mem /\ s'.objs[h].meta = s.objs[h].meta)]_vars
OneBandAtATime ==
  [][hist'[Len(hist')].a = "setband" =>
       \A h \in H, b \in Bands : (h # hist'[Len(hist')].h \/ b # hist'[Len(hist')].b) => last'[h][b] = last[h][b]]_vars

Emit == Len(hist) = Depth => PrintT("@@BEH " \o ToJson(hist))
===========================================================================
