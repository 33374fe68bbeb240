----------------------------- MODULE Families_MC -----------------------------
(* Histories of up to Depth actions over two objects, a five-band file m,    *)
(* one-band files s1..s5 and the files w1..w5 that stored images write.      *)
(* Every plane is a fresh number; ghosts restate what must be seen:          *)
(*   put[h]  what was last put into the object (none: <<>>)                  *)
(*   now[f]  what each file was last given                                   *)
EXTENDS Families, Json, FiniteSets
CONSTANTS H, Depth
VARIABLES s, n, put, now, hist
vars == <<s, n, put, now, hist>>

NB == 5
S1 == <<"s1", "s2", "s3", "s4", "s5">>
W1 == <<"w1", "w2", "w3", "w4", "w5">>
Turned == [b \in 1..NB |-> S1[NB + 1 - b]] \o <<>>
Fresh(k) == [b \in 1..NB |-> 10 * k + b] \o <<>>
Index(f, q) == CHOOSE b \in 1..NB : q[b] = f
In(f, q) == \E b \in 1..NB : q[b] = f

Init ==
  /\ s = [objs |-> [h \in H |-> Nobody],
          disk |-> [f \in {"m"} \cup {S1[b] : b \in 1..NB} |-> IF f = "m" THEN Fresh(1) ELSE <<20 + Index(f, S1)>>]]
  /\ now = s.disk
  /\ n = 3 /\ put = [h \in H |-> <<>>] /\ hist = <<>>
Log(a) == hist' = Append(hist, a)
Go == Len(hist) < Depth

Open(h, kind) == Go /\ s' = OpenEff(s, h, kind, "m") /\ put' = [put EXCEPT ![h] = <<>>] /\ UNCHANGED <<n, now>> /\ Log([a |-> "open", h |-> h, kind |-> kind])
Gather(h, fs) == Go /\ s' = GatherEff(s, h, fs) /\ put' = [put EXCEPT ![h] = <<>>] /\ UNCHANGED <<n, now>> /\ Log([a |-> "gather", h |-> h, fs |-> fs])
Store(h) ==
  /\ Go /\ s' = StoreEff(s, h, W1, Fresh(n)) /\ n' = n + 1 /\ put' = [put EXCEPT ![h] = <<>>]
  /\ now' = [f \in DOMAIN now \cup {W1[b] : b \in 1..NB} |-> IF In(f, W1) THEN <<10 * n + Index(f, W1)>> ELSE now[f]]
  /\ Log([a |-> "store", h |-> h])
Hold(h, kind) == Go /\ s' = HoldEff(s, h, kind, Fresh(n)) /\ n' = n + 1 /\ put' = [put EXCEPT ![h] = Fresh(n)] /\ UNCHANGED now /\ Log([a |-> "hold", h |-> h, kind |-> kind])
SetAll(h) == Go /\ s.objs[h].kind # "none" /\ s' = SetAllEff(s, h, Fresh(n)) /\ n' = n + 1 /\ put' = [put EXCEPT ![h] = Fresh(n)] /\ UNCHANGED now /\ Log([a |-> "setall", h |-> h])
SetBand(h, b) == Go /\ Loaded(s.objs[h]) /\ s' = SetBandEff(s, h, b, 10 * n) /\ n' = n + 1 /\ put' = [put EXCEPT ![h][b + 1] = 10 * n] /\ UNCHANGED now
                 /\ Log([a |-> "setband", h |-> h, b |-> b])
Rewrite(f) == Go /\ s' = RewriteEff(s, f, 10 * n) /\ n' = n + 1 /\ now' = [now EXCEPT ![f] = <<10 * n>>] /\ UNCHANGED put /\ Log([a |-> "rewrite", f |-> f])

Next == \/ \E h \in H : Open(h, "camera") \/ Open(h, "stereo") \/ Gather(h, S1) \/ Gather(h, Turned) \/ Store(h) \/ Hold(h, "array") \/ Hold(h, "grid") \/ SetAll(h)
        \/ \E h \in H, b \in {0, 4} : SetBand(h, b)
        \/ \E f \in {"s1", "s5"} : Rewrite(f)
Spec == Init /\ [][Next]_vars

MemoryIsLastPut == \A h \in H : s.objs[h].mem = put[h]
FilesAreLastGiven == s.disk = now
FileBandsShowTheirFiles ==
  \A h \in H : LET o == s.objs[h] IN
     OnFiles(o.kind) => /\ Len(DiskObs(s, h)) = NB
                        /\ \A b \in 1..NB : DiskObs(s, h)[b] = (IF OneFile(o.kind) THEN now["m"][b] ELSE now[o.bands[b].f][1])
PuttingDoesNotWrite == [][hist'[Len(hist')].a \in {"setall", "setband", "hold", "open", "gather"} => s'.disk = s.disk]_vars
OneAtATime == [][\A h \in H : (hist'[Len(hist')].a = "rewrite" \/ hist'[Len(hist')].h # h) => s'.objs[h] = s.objs[h]]_vars
Emit == Len(hist) = Depth => PrintT("@@BEH " \o ToJson(hist))
=============================================================================
