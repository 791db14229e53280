(* ClusWisard: a cluster per class and one without class; no two clusters share a discriminator *)
(*@ *)
  predicate cdisj (a b: c_cluster) = forall i j [omap_get a.clu_discriminators i, omap_get b.clu_discriminators j]. 0 <= i < clu_n a /\ 0 <= j < clu_n b -> clu_p a i <> clu_p b j
(*@ *)
  predicate cw_limits (s: fl) (t l: int) = not (fl_nan s) /\ fl_rk (fl_of_int 0) <= fl_rk s <= fl_rk (fl_of_int 1) /\ t >= 1 /\ l >= 1
(* the settings of the clusters are those of the classifier *)
(*@ *)
  predicate cw_sets (w: c_cluswisard) (c: c_cluster) = c.clu_addressSize = to_u32 w.cw_addressSize /\ c.clu_minScore = w.cw_minScore /\ c.clu_threshold = to_u32 w.cw_threshold /\ c.clu_discriminatorsLimit = w.cw_discriminatorsLimit
     /\ c.clu_completeAddressing = w.cw_completeAddressing /\ c.clu_ignoreZero = w.cw_ignoreZero /\ c.clu_base = w.cw_base
(*@ *)
  predicate cw_ok (h: heapmap) (nx:int) (w: c_cluswisard) = clu_ok h nx w.cw_unsupervisedCluster /\ cw_limits w.cw_minScore w.cw_threshold w.cw_discriminatorsLimit /\ (clu_n w.cw_unsupervisedCluster > 0 -> cw_sets w w.cw_unsupervisedCluster)
     /\ (forall l [omap_get w.cw_clusters l]. omap_mem w.cw_clusters l -> clu_ok h nx (omap_get w.cw_clusters l) /\ cw_sets w (omap_get w.cw_clusters l) /\ cdisj (omap_get w.cw_clusters l) w.cw_unsupervisedCluster)
     /\ (forall l k [omap_get w.cw_clusters l, omap_get w.cw_clusters k]. omap_mem w.cw_clusters l /\ omap_mem w.cw_clusters k /\ l <> k -> cdisj (omap_get w.cw_clusters l) (omap_get w.cw_clusters k))
(*@ *)
  predicate cwsame_config (a b: c_cluswisard) = a.cw_addressSize = b.cw_addressSize /\ a.cw_minScore = b.cw_minScore /\ a.cw_threshold = b.cw_threshold /\ a.cw_discriminatorsLimit = b.cw_discriminatorsLimit
     /\ a.cw_bleachingActivated = b.cw_bleachingActivated /\ a.cw_verbose = b.cw_verbose /\ a.cw_completeAddressing = b.cw_completeAddressing /\ a.cw_ignoreZero = b.cw_ignoreZero /\ a.cw_base = b.cw_base
     /\ a.cw_searchBestConfidence = b.cw_searchBestConfidence /\ a.cw_returnConfidence = b.cw_returnConfidence /\ a.cw_returnActivationDegree = b.cw_returnActivationDegree
     /\ a.cw_returnClassesDegrees = b.cw_returnClassesDegrees /\ a.cw_confidence = b.cw_confidence
(* the discriminators of a cluster are the same objects with the same values *)
(*@ *)
  predicate csame (h1 h2: heapmap) (a b: c_cluster) = a = b /\ ckept h1 h2 a 0
(* the clusters of all classes but l are the same *)
(*@ *)
  predicate cwothers (h1 h2: heapmap) (a b: c_cluswisard) (l: seq int) = forall k [omap_mem b.cw_clusters k | omap_get b.cw_clusters k]. k <> l ->
     (omap_mem b.cw_clusters k <-> omap_mem a.cw_clusters k) /\ (omap_mem a.cw_clusters k -> csame h1 h2 (omap_get a.cw_clusters k) (omap_get b.cw_clusters k))
(* an empty cluster with the model's settings, for images of n values *)
(*@ *)
  predicate cw_fresh (w: c_cluswisard) (n:int) (c: c_cluster) = clu_n c = 0 /\ c.clu_entrySize = to_u32 n /\ c.clu_addressSize = to_u32 w.cw_addressSize /\ c.clu_minScore = w.cw_minScore
     /\ c.clu_threshold = to_u32 w.cw_threshold /\ c.clu_discriminatorsLimit = w.cw_discriminatorsLimit /\ c.clu_completeAddressing = w.cw_completeAddressing /\ c.clu_ignoreZero = w.cw_ignoreZero /\ c.clu_base = w.cw_base
(* one image trained in the cluster of l *)
(*@ *)
  predicate cwgrow (h1 h2: heapmap) (a b: c_cluswisard) (x l: seq int) = omap_mem b.cw_clusters l /\
     (if omap_mem a.cw_clusters l /\ clu_n (omap_get a.cw_clusters l) > 0 then ctrained h1 h2 (omap_get a.cw_clusters l) (omap_get b.cw_clusters l) x
      else exists c [ctrained h1 h2 c (omap_get b.cw_clusters l) x]. cw_fresh a (length x) c /\ ctrained h1 h2 c (omap_get b.cw_clusters l) x)
(*@ *)
  predicate cwstep (h1 h2: heapmap) (a b: c_cluswisard) (x l: seq int) = cwsame_config a b /\ cwothers h1 h2 a b l /\ csame h1 h2 a.cw_unsupervisedCluster b.cw_unsupervisedCluster
     /\ cwgrow h1 h2 a b x l
(* the cluster of l changes, nothing else *)
(*@ *)
  predicate cwput (h1 h2: heapmap) (nx1 nx2:int) (w1 w2: c_cluswisard) (l: seq int) = omap_mem w1.cw_clusters l /\ heap_frame h1 h2 nx1 nx2 (omap_get w1.cw_clusters l) /\ clu_ok h2 nx2 (omap_get w2.cw_clusters l)
     /\ cprefix (omap_get w1.cw_clusters l) (omap_get w2.cw_clusters l) /\ clu_n (omap_get w1.cw_clusters l) <= clu_n (omap_get w2.cw_clusters l)
     /\ (forall i [omap_get (omap_get w2.cw_clusters l).clu_discriminators i]. clu_n (omap_get w1.cw_clusters l) <= i < clu_n (omap_get w2.cw_clusters l) -> clu_p (omap_get w2.cw_clusters l) i >= nx1)
     /\ (forall k [omap_mem w2.cw_clusters k]. omap_mem w2.cw_clusters k <-> omap_mem w1.cw_clusters k) /\ (forall k [omap_get w2.cw_clusters k]. k <> l -> omap_get w2.cw_clusters k = omap_get w1.cw_clusters k)
     /\ w2.cw_unsupervisedCluster = w1.cw_unsupervisedCluster /\ csame_config (omap_get w1.cw_clusters l) (omap_get w2.cw_clusters l) /\ cwsame_config w1 w2
(*@ ghost *)
  let ghost cdisj_owns (a b: c_cluster) requires { cdisj a b } ensures { forall i [omap_get a.clu_discriminators i]. 0 <= i < clu_n a -> not (clu_owns b (clu_p a i)) } ensures { forall i [omap_get b.clu_discriminators i]. 0 <= i < clu_n b -> not (clu_owns a (clu_p b i)) }
(*proof*)
  = ()
(*@ ghost *)
  let ghost cw_ok_put (h1 h2: heapmap) (nx1 nx2:int) (w1 w2: c_cluswisard) (l: seq int) requires { cw_ok h1 nx1 w1 } requires { cwput h1 h2 nx1 nx2 w1 w2 l }
    ensures { cw_ok h2 nx2 w2 } ensures { cwothers h1 h2 w1 w2 l } ensures { csame h1 h2 w1.cw_unsupervisedCluster w2.cw_unsupervisedCluster }
(*proof*)
  = let lemma one (k: seq int) : unit requires { omap_mem w1.cw_clusters k /\ k <> l } ensures { clu_ok h2 nx2 (omap_get w2.cw_clusters k) } ensures { ckept h1 h2 (omap_get w1.cw_clusters k) 0 }
      ensures { cdisj (omap_get w2.cw_clusters k) (omap_get w2.cw_clusters l) } ensures { cdisj (omap_get w2.cw_clusters l) (omap_get w2.cw_clusters k) }
      = cdisj_owns (pure { omap_get w1.cw_clusters k }) (pure { omap_get w1.cw_clusters l }) in
    cdisj_owns (pure { w1.cw_unsupervisedCluster }) (pure { omap_get w1.cw_clusters l });
    assert { clu_ok h2 nx2 w2.cw_unsupervisedCluster };
    assert { cdisj (omap_get w2.cw_clusters l) w2.cw_unsupervisedCluster };
    assert { forall k. omap_mem w2.cw_clusters k /\ k <> l -> cdisj (omap_get w2.cw_clusters k) w2.cw_unsupervisedCluster }
(* after the first n labelled images *)
(*@ *)
  predicate cwreach (h0: heapmap) (w0: c_cluswisard) (vs ls: seq (seq int)) (n:int) (h: heapmap) (w: c_cluswisard)
  axiom cwreach_0 : forall h0 w0 vs ls n h w. n <= 0 -> (cwreach h0 w0 vs ls n h w <-> h = h0 /\ w = w0)
(*@ *)
  val ghost cwreach_s (h0: heapmap) (w0: c_cluswisard) (vs ls: seq (seq int)) (n:int) : unit requires { n > 0 }
    ensures { forall h w. cwreach h0 w0 vs ls n h w <-> exists h1 w1. cwreach h0 w0 vs ls (n - 1) h1 w1 /\ cwstep h1 h w1 w vs[n - 1] ls[n - 1] }
(*@ ghost *)
  let ghost cwreach_step (h0: heapmap) (w0: c_cluswisard) (vs ls: seq (seq int)) (n:int) (h1 h2: heapmap) (w1 w2: c_cluswisard) requires { 0 <= n } requires { cwreach h0 w0 vs ls n h1 w1 }
    requires { cwstep h1 h2 w1 w2 vs[n] ls[n] } ensures { cwreach h0 w0 vs ls (n + 1) h2 w2 }
(*proof*)
  = cwreach_s h0 w0 vs ls (n + 1)
(* some class has a discriminator *)
(*@ *)
  predicate cw_some (w: c_cluswisard) = exists l. omap_mem w.cw_clusters l /\ clu_n (omap_get w.cw_clusters l) > 0
(*@ ghost *)
  let ghost cwstep_some (h1 h2: heapmap) (w1 w2: c_cluswisard) (x l: seq int) requires { cwstep h1 h2 w1 w2 x l } ensures { cw_some w2 } ensures { clu_n (omap_get w2.cw_clusters l) > 0 }
(*proof*)
  = assert { forall c d. ctrained h1 h2 c d x -> clu_n d > 0 }
(* the classes' discriminators under the names the bleaching sees: class::number *)
(*@ *)
  val constant colons : seq int
  axiom colons_def : length colons = 2 /\ colons[0] = 58 /\ colons[1] = 58
(*@ *)
  val function ckey (l: seq int) (j:int) : seq int
  axiom ckey_def : forall l j. ckey l j = (l ++ colons) ++ i2s j
(*@ lemma ckey *)
  let lemma ckey_cut (l: seq int) (j:int) ensures { length (ckey l j) = length l + 2 + length (i2s j) } ensures { (ckey l j)[0 .. length l] = l } ensures { occurs_at (ckey l j) colons (length l) }
    ensures { forall k. 0 <= k < length l -> (ckey l j)[k] = l[k] } ensures { forall k. length l + 2 <= k < length (ckey l j) -> (ckey l j)[k] = (i2s j)[k - length l - 2] }
(*proof*)
  = assert { length (l ++ colons) = length l + 2 };
    assert { forall k. 0 <= k < length l + 2 -> (ckey l j)[k] = (l ++ colons)[k] };
    assert { forall k. 0 <= k < length l -> (l ++ colons)[k] = l[k] };
    assert { (l ++ colons)[length l] = colons[0] /\ (l ++ colons)[length l + 1] = colons[1] };
    assert { forall k. length l + 2 <= k < length (ckey l j) -> (ckey l j)[k] = (i2s j)[k - length l - 2] };
    assert { (ckey l j)[0 .. length l] == l }
(*@ lemma ckey *)
  let lemma ckey_last (l: seq int) (j k:int) requires { occurs_at (ckey l j) colons k } ensures { k <= length l }
(*proof*)
  = assert { (ckey l j)[k + 1] = colons[1] }; assert { k > length l -> k + 1 >= length l + 2 /\ (ckey l j)[k + 1] = (i2s j)[k + 1 - length l - 2] }
(*@ lemma ckey *)
  let lemma ckey_inj (l1 l2: seq int) (j1 j2:int) requires { ckey l1 j1 = ckey l2 j2 } ensures { l1 = l2 /\ j1 = j2 }
(*proof*)
  = assert { occurs_at (ckey l1 j1) colons (length l2) }; assert { occurs_at (ckey l2 j2) colons (length l1) }; assert { length l1 = length l2 };
    assert { forall k. 0 <= k < length l1 -> l1[k] = (ckey l1 j1)[k] /\ l2[k] = (ckey l2 j2)[k] }; assert { l1 == l2 };
    assert { length (i2s j1) = length (i2s j2) }; assert { forall k. 0 <= k < length (i2s j1) -> (i2s j1)[k] = (ckey l1 j1)[k + length l1 + 2] /\ (i2s j2)[k] = (ckey l2 j2)[k + length l1 + 2] }; assert { i2s j1 == i2s j2 }
(*@ *)
  predicate cwvotes (h: heapmap) (w: c_cluswisard) (x: seq int) (m: omap (seq int) (seq int)) =
    (forall l j [ckey l j]. omap_mem w.cw_clusters l /\ 0 <= j < clu_n (omap_get w.cw_clusters l) -> omap_mem m (ckey l j) /\ ddigits (clu_d h (omap_get w.cw_clusters l) j) x /\ omap_get m (ckey l j) = dballot (clu_d h (omap_get w.cw_clusters l) j) x)
    /\ (forall k [omap_mem m k]. omap_mem m k -> exists l j. omap_mem w.cw_clusters l /\ 0 <= j < clu_n (omap_get w.cw_clusters l) /\ k = ckey l j)
(*@ *)
  predicate cwdegrees (h: heapmap) (w: c_cluswisard) (x: seq int) (d: omap (seq int) int) = exists m. cwvotes h w x m /\ bleached m w.cw_bleachingActivated w.cw_confidence d
(*@ *)
  predicate cwclass (w: c_cluswisard) (k a: seq int) = (length k = 0 /\ length a = 0) \/ exists j. omap_mem w.cw_clusters a /\ 0 <= j < clu_n (omap_get w.cw_clusters a) /\ k = ckey a j
(* a: the class of the discriminator that wins (nothing if there is none) *)
(*@ *)
  predicate cwanswer (h: heapmap) (w: c_cluswisard) (x a: seq int) = exists d k. cwdegrees h w x d /\ winner d k /\ cwclass w k a
(*@ *)
  predicate cwanswers_n (h: heapmap) (w: c_cluswisard) (vs out: seq (seq int)) (n:int) = forall i [out[i]]. 0 <= i < n -> cwanswer h w vs[i] out[i]
(* every image fits every discriminator *)
(*@ *)
  predicate cwfits (h: heapmap) (w: c_cluswisard) (x: seq int) = forall l [omap_get w.cw_clusters l]. omap_mem w.cw_clusters l -> call_digits h (omap_get w.cw_clusters l) x

(* semi-supervised training: first the labelled images, in order, then the others, each under the class the model answers for it *)
(*@ *)
  function missing (ls: omap int (seq int)) (n:int) : seq int
  axiom missing_0 : forall ls n. n <= 0 -> missing ls n = empty
  axiom missing_s : forall ls n. n > 0 -> missing ls n = if omap_mem ls (n - 1) then missing ls (n - 1) else snoc (missing ls (n - 1)) (n - 1)
(*@ ghost *)
  let rec ghost missing_in (ls: omap int (seq int)) (n:int) : unit requires { 0 <= n } variant { n } ensures { length (missing ls n) <= n } ensures { forall i [(missing ls n)[i]]. 0 <= i < length (missing ls n) -> 0 <= (missing ls n)[i] < n /\ not (omap_mem ls (missing ls n)[i]) }
(*proof*)
  = if n > 0 then begin missing_in ls (n - 1);
    assert { not (omap_mem ls (n - 1)) -> length (missing ls n) = length (missing ls (n - 1)) + 1 /\ forall i. 0 <= i < length (missing ls n) -> (missing ls n)[i] = if i < length (missing ls (n - 1)) then (missing ls (n - 1))[i] else n - 1 } end
(*@ ghost *)
  let rec ghost missing_has (ls: omap int (seq int)) (k n:int) : unit requires { 0 <= k < n } requires { omap_mem ls k } variant { n } ensures { length (missing ls n) < n }
(*proof*)
  = if n > k + 1 then missing_has ls k (n - 1) else missing_in ls (n - 1)
(*@ *)
  predicate cwlab (h0: heapmap) (w0: c_cluswisard) (vs: seq (seq int)) (ls: omap int (seq int)) (n:int) (h: heapmap) (w: c_cluswisard)
  axiom cwlab_0 : forall h0 w0 vs ls n h w. n <= 0 -> (cwlab h0 w0 vs ls n h w <-> h = h0 /\ w = w0)
(*@ *)
  val ghost cwlab_s (h0: heapmap) (w0: c_cluswisard) (vs: seq (seq int)) (ls: omap int (seq int)) (n:int) : unit requires { n > 0 }
    ensures { forall h w. cwlab h0 w0 vs ls n h w <-> if omap_mem ls (n - 1) then exists h1 w1. cwlab h0 w0 vs ls (n - 1) h1 w1 /\ cwstep h1 h w1 w vs[n - 1] (omap_get ls (n - 1)) else cwlab h0 w0 vs ls (n - 1) h w }
(*@ ghost *)
  let ghost cwlab_step (h0: heapmap) (w0: c_cluswisard) (vs: seq (seq int)) (ls: omap int (seq int)) (n:int) (h1 h2: heapmap) (w1 w2: c_cluswisard) requires { 0 <= n } requires { cwlab h0 w0 vs ls n h1 w1 }
    requires { if omap_mem ls n then cwstep h1 h2 w1 w2 vs[n] (omap_get ls n) else h2 = h1 /\ w2 = w1 } ensures { cwlab h0 w0 vs ls (n + 1) h2 w2 } ensures { omap_mem ls n -> cw_some w2 }
(*proof*)
  = cwlab_s h0 w0 vs ls (n + 1); if pure { omap_mem ls n } then cwstep_some h1 h2 w1 w2 (pure { vs[n] }) (pure { omap_get ls n })
(*@ *)
  predicate cwunl (h0: heapmap) (w0: c_cluswisard) (vs: seq (seq int)) (ix: seq int) (n:int) (h: heapmap) (w: c_cluswisard)
  axiom cwunl_0 : forall h0 w0 vs ix n h w. n <= 0 -> (cwunl h0 w0 vs ix n h w <-> h = h0 /\ w = w0)
(*@ *)
  predicate cwself (h1 h2: heapmap) (w1 w2: c_cluswisard) (x: seq int) = exists l. cwanswer h1 w1 x l /\ cwstep h1 h2 w1 w2 x l
(*@ *)
  val ghost cwunl_s (h0: heapmap) (w0: c_cluswisard) (vs: seq (seq int)) (ix: seq int) (n:int) : unit requires { n > 0 }
    ensures { forall h w. cwunl h0 w0 vs ix n h w <-> exists h1 w1. cwunl h0 w0 vs ix (n - 1) h1 w1 /\ cwself h1 h w1 w vs[ix[n - 1]] }
(*@ ghost *)
  let ghost cwunl_step (h0: heapmap) (w0: c_cluswisard) (vs: seq (seq int)) (ix: seq int) (n:int) (h1 h2: heapmap) (w1 w2: c_cluswisard) requires { 0 <= n } requires { cwunl h0 w0 vs ix n h1 w1 }
    requires { cwself h1 h2 w1 w2 vs[ix[n]] } ensures { cwunl h0 w0 vs ix (n + 1) h2 w2 } ensures { cw_some w2 }
(*proof*)
  = cwunl_s h0 w0 vs ix (n + 1); let lemma one (l: seq int) : unit requires { cwstep h1 h2 w1 w2 vs[ix[n]] l } ensures { cw_some w2 } = cwstep_some h1 h2 w1 w2 (pure { vs[ix[n]] }) l in ()

(*@ *)
  predicate cwsemi (h0: heapmap) (w0: c_cluswisard) (vs: seq (seq int)) (ls: omap int (seq int)) (n:int) (h: heapmap) (w: c_cluswisard) =
     exists h1 w1. cwlab h0 w0 vs ls n h1 w1 /\ cwunl h1 w1 vs (missing ls n) (length (missing ls n)) h w
(* the unsupervised cluster *)
(*@ *)
  predicate cunsup_n (h0: heapmap) (c0: c_cluster) (vs: seq (seq int)) (n:int) (h: heapmap) (c: c_cluster)
  axiom cunsup_0 : forall h0 c0 vs n h c. n <= 0 -> (cunsup_n h0 c0 vs n h c <-> h = h0 /\ c = c0)
(*@ *)
  val ghost cunsup_s (h0: heapmap) (c0: c_cluster) (vs: seq (seq int)) (n:int) : unit requires { n > 0 }
    ensures { forall h c. cunsup_n h0 c0 vs n h c <-> exists h1 c1. cunsup_n h0 c0 vs (n - 1) h1 c1 /\ ctrained h1 h c1 c vs[n - 1] }
(*@ ghost *)
  let ghost cunsup_step (h0: heapmap) (c0: c_cluster) (vs: seq (seq int)) (n:int) (h1 h2: heapmap) (c1 c2: c_cluster) requires { 0 <= n } requires { cunsup_n h0 c0 vs n h1 c1 }
    requires { ctrained h1 h2 c1 c2 vs[n] } ensures { cunsup_n h0 c0 vs (n + 1) h2 c2 }
(*proof*)
  = cunsup_s h0 c0 vs (n + 1)
(*@ *)
  predicate cunsup (h0: heapmap) (w: c_cluswisard) (vs: seq (seq int)) (h: heapmap) (c: c_cluster) =
     if clu_n w.cw_unsupervisedCluster > 0 then cunsup_n h0 w.cw_unsupervisedCluster vs (length vs) h c else exists c0. cw_fresh w (length vs[0]) c0 /\ cunsup_n h0 c0 vs (length vs) h c
(* the clusters of the classes are the same *)
(*@ *)
  predicate cwkept (h1 h2: heapmap) (a b: c_cluswisard) = b.cw_clusters = a.cw_clusters /\ forall k [omap_get a.cw_clusters k]. omap_mem a.cw_clusters k -> csame h1 h2 (omap_get a.cw_clusters k) (omap_get b.cw_clusters k)
(* the unsupervised cluster changes, nothing else *)
(*@ ghost *)
  let ghost cw_ok_unsup (h1 h2: heapmap) (nx1 nx2:int) (w1 w2: c_cluswisard) requires { cw_ok h1 nx1 w1 } requires { w2.cw_clusters = w1.cw_clusters }
    requires { heap_frame h1 h2 nx1 nx2 w1.cw_unsupervisedCluster /\ clu_ok h2 nx2 w2.cw_unsupervisedCluster /\ cprefix w1.cw_unsupervisedCluster w2.cw_unsupervisedCluster /\ clu_n w1.cw_unsupervisedCluster <= clu_n w2.cw_unsupervisedCluster }
    requires { forall i [omap_get w2.cw_unsupervisedCluster.clu_discriminators i]. clu_n w1.cw_unsupervisedCluster <= i < clu_n w2.cw_unsupervisedCluster -> clu_p w2.cw_unsupervisedCluster i >= nx1 }
    requires { cwsame_config w1 w2 } requires { csame_config w1.cw_unsupervisedCluster w2.cw_unsupervisedCluster } requires { cw_sets w1 w1.cw_unsupervisedCluster }
    ensures { cw_ok h2 nx2 w2 } ensures { cwkept h1 h2 w1 w2 }
(*proof*)
  = let lemma one (k: seq int) : unit requires { omap_mem w1.cw_clusters k } ensures { clu_ok h2 nx2 (omap_get w2.cw_clusters k) } ensures { ckept h1 h2 (omap_get w1.cw_clusters k) 0 }
      ensures { cdisj (omap_get w2.cw_clusters k) w2.cw_unsupervisedCluster }
      = cdisj_owns (pure { omap_get w1.cw_clusters k }) (pure { w1.cw_unsupervisedCluster }) in
    ()
(*@ ghost *)
  let ghost plain_name (k: seq int) requires { length k = 0 \/ exists j. k = i2s j } ensures { forall i. not (occurs_at k colons i) } ensures { k[0 .. length k] = k }
(*proof*)
  = assert { forall i. occurs_at k colons i -> k[i] = colons[0] && k[i] = 58 }; assert { k[0 .. length k] == k }
(* the names of the discriminators of the unsupervised cluster: their numbers *)
(*@ *)
  predicate cuvotes (h: heapmap) (c: c_cluster) (x: seq int) (m: omap (seq int) (seq int)) =
    (forall j [i2s j]. 0 <= j < clu_n c -> omap_mem m (i2s j) /\ ddigits (clu_d h c j) x /\ omap_get m (i2s j) = dballot (clu_d h c j) x)
    /\ (forall k [omap_mem m k]. omap_mem m k -> exists j. 0 <= j < clu_n c /\ k = i2s j)
(*@ *)
  predicate cudegrees (h: heapmap) (w: c_cluswisard) (x: seq int) (d: omap (seq int) int) = exists m. cuvotes h w.cw_unsupervisedCluster x m /\ bleached m w.cw_bleachingActivated 1 d
(*@ *)
  predicate cuanswer (h: heapmap) (w: c_cluswisard) (x a: seq int) = exists d. cudegrees h w x d /\ winner d a
(*@ *)
  predicate cuanswers_n (h: heapmap) (w: c_cluswisard) (vs out: seq (seq int)) (n:int) = forall i [out[i]]. 0 <= i < n -> cuanswer h w vs[i] out[i]
(* mental images of every class *)
(*@ *)
  predicate cwmental (h: heapmap) (w: c_cluswisard) (l: seq int) (out: seq (seq int)) = length out = clu_n (omap_get w.cw_clusters l) /\ cmental_n h (omap_get w.cw_clusters l) out (length out)
(* a ClusWisard with the options given *)
(*@ *)
  predicate cwoptions (w: c_cluswisard) (o: json) = w.cw_bleachingActivated = jopt_bool o str_bleachingActivated True /\ w.cw_verbose = jopt_bool o str_verbose False
     /\ w.cw_ignoreZero = jopt_bool o str_ignoreZero False /\ w.cw_completeAddressing = jopt_bool o str_completeAddressing True
     /\ w.cw_base = jopt_int o str_base 2 /\ w.cw_confidence = jopt_int o str_confidence 1 /\ w.cw_searchBestConfidence = jopt_bool o str_searchBestConfidence False
     /\ w.cw_returnConfidence = jopt_bool o str_returnConfidence False /\ w.cw_returnActivationDegree = jopt_bool o str_returnActivationDegree False /\ w.cw_returnClassesDegrees = jopt_bool o str_returnClassesDegrees False
(*@ *)
  predicate cwmade (w: c_cluswisard) (a: int) (s: fl) (t l: int) (o: json) = w.cw_addressSize = a /\ w.cw_minScore = s /\ w.cw_threshold = t /\ w.cw_discriminatorsLimit = l /\ cwoptions w o
(*@ *)
  predicate cwunmade (o: json) = jbad o \/ jbad_bool o str_bleachingActivated \/ jbad_bool o str_verbose \/ jbad_bool o str_ignoreZero \/ jbad_bool o str_completeAddressing
     \/ jbad_int o str_base \/ jbad_int o str_confidence \/ jbad_bool o str_searchBestConfidence \/ jbad_bool o str_returnConfidence \/ jbad_bool o str_returnActivationDegree \/ jbad_bool o str_returnClassesDegrees
