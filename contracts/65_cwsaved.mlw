(* saved and restored ClusWisards *)
(*@ *)
  predicate cwconf (c: json) (w: c_cluswisard) = j_obj c /\ j_get c str_addressSize = j_of_int w.cw_addressSize /\ j_get c str_minScore = j_of_f32 w.cw_minScore /\ j_get c str_threshold = j_of_int w.cw_threshold
     /\ j_get c str_discriminatorsLimit = j_of_int w.cw_discriminatorsLimit /\ j_get c str_bleachingActivated = j_of_bool w.cw_bleachingActivated /\ j_get c str_verbose = j_of_bool w.cw_verbose
     /\ j_get c str_ignoreZero = j_of_bool w.cw_ignoreZero /\ j_get c str_completeAddressing = j_of_bool w.cw_completeAddressing /\ j_get c str_base = j_of_int w.cw_base /\ j_get c str_confidence = j_of_int w.cw_confidence
     /\ j_get c str_returnConfidence = j_of_bool w.cw_returnConfidence /\ j_get c str_returnActivationDegree = j_of_bool w.cw_returnActivationDegree /\ j_get c str_returnClassesDegrees = j_of_bool w.cw_returnClassesDegrees
     /\ (j_null (j_get c str_searchBestConfidence) \/ j_get c str_searchBestConfidence = j_of_bool w.cw_searchBestConfidence)
(*@ *)
  predicate cwclusters (f: fsmap) (h: heapmap) (w: c_cluswisard) (c: json) = (j_null c \/ j_obj c) /\ (forall l. j_has c l <-> omap_mem w.cw_clusters l)
     /\ forall l [j_get c l]. omap_mem w.cw_clusters l -> csaved f h (omap_get w.cw_clusters l) (j_get c l)
(*@ *)
  predicate cwsaved (f: fsmap) (h: heapmap) (w: c_cluswisard) (c: json) = cwconf c w /\ cwclusters f h w (j_get c str_clusters)
     /\ if clu_n w.cw_unsupervisedCluster > 0 then csaved f h w.cw_unsupervisedCluster (j_get c str_unsupervisedCluster) else j_null (j_get c str_unsupervisedCluster)
(*@ *)
  predicate cwtextual (w: c_cluswisard) = forall l [omap_mem w.cw_clusters l]. omap_mem w.cw_clusters l -> s_utf8 l
(*@ *)
  predicate cwbig (h: heapmap) (w: c_cluswisard) = cbig h w.cw_unsupervisedCluster \/ exists l. omap_mem w.cw_clusters l /\ cbig h (omap_get w.cw_clusters l)
(* a cluster as a configuration and the settings of w say *)
(*@ *)
  predicate cwload1 (f: fsmap) (h: heapmap) (w: c_cluswisard) (j: json) (c: c_cluster) = cw_sets w c /\ c.clu_entrySize = to_u32 (jopt_int j str_entrySize 2) /\ clu_n c = j_size (j_get j str_discriminators)
     /\ forall i [clu_d h c i]. 0 <= i < clu_n c -> dloaded_as f (j_at (j_get j str_discriminators) i) (j_of_bool w.cw_ignoreZero) (j_of_int w.cw_base) (clu_d h c i)
(*@ *)
  predicate cwloadable1 (f: fsmap) (j: json) (iz: bool) (base: int) = not (jbad_int j str_entrySize)
     /\ forall i [j_at (j_get j str_discriminators) i]. 0 <= i < j_size (j_get j str_discriminators) -> dloadable_as f (j_at (j_get j str_discriminators) i) (j_of_bool iz) (j_of_int base)
(*@ *)
  predicate cwpatch (w: c_cluswisard) (p: json) = j_obj p /\ (forall k. j_has p k -> k = str_addressSize \/ k = str_minScore \/ k = str_threshold \/ k = str_discriminatorsLimit \/ k = str_completeAddressing \/ k = str_ignoreZero \/ k = str_base)
     /\ j_get p str_addressSize = j_of_int w.cw_addressSize /\ j_get p str_minScore = j_of_f32 w.cw_minScore /\ j_get p str_threshold = j_of_int w.cw_threshold /\ j_get p str_discriminatorsLimit = j_of_int w.cw_discriminatorsLimit
     /\ j_get p str_completeAddressing = j_of_bool w.cw_completeAddressing /\ j_get p str_ignoreZero = j_of_bool w.cw_ignoreZero /\ j_get p str_base = j_of_int w.cw_base
(*@ *)
  predicate cwtyped1 (w: c_cluswisard) = in_s32 w.cw_addressSize /\ in_s32 w.cw_threshold /\ in_s32 w.cw_discriminatorsLimit /\ in_s32 w.cw_base /\ w.cw_threshold >= 1
(*@ ghost *)
  let ghost cmerged (f: fsmap) (w: c_cluswisard) (j p: json) requires { cwpatch w p } requires { cwtyped1 w }
    ensures { cloadable f (j_merge j p) <-> cwloadable1 f j w.cw_ignoreZero w.cw_base } ensures { forall h c [cloaded f h (j_merge j p) c]. cloaded f h (j_merge j p) c -> cwload1 f h w j c }
(*proof*)
  = let q = pure { j_merge j p } in
    assert { j_obj q };
    assert { j_get q str_addressSize = j_of_int w.cw_addressSize /\ j_get q str_minScore = j_of_f32 w.cw_minScore /\ j_get q str_threshold = j_of_int w.cw_threshold /\ j_get q str_discriminatorsLimit = j_of_int w.cw_discriminatorsLimit };
    assert { j_get q str_completeAddressing = j_of_bool w.cw_completeAddressing /\ j_get q str_ignoreZero = j_of_bool w.cw_ignoreZero /\ j_get q str_base = j_of_int w.cw_base };
    assert { j_get q str_entrySize = j_get j str_entrySize /\ j_get q str_discriminators = j_get j str_discriminators };
    assert { jopt_bool q str_ignoreZero False = w.cw_ignoreZero /\ jopt_int q str_base 2 = w.cw_base };
    assert { jopt_int q str_entrySize 2 = jopt_int j str_entrySize 2 };
    let lemma l (h: heapmap) (c: c_cluster) : unit requires { cloaded f h q c } ensures { cwload1 f h w j c } = assert { cset q c }; assert { cw_sets w c } in ()
(*@ *)
  predicate cwloaded (f: fsmap) (h: heapmap) (c: json) (w: c_cluswisard) = cwmade w (j_to_int (j_get c str_addressSize)) (j_to_f32 (j_get c str_minScore)) (j_to_int (j_get c str_threshold)) (j_to_int (j_get c str_discriminatorsLimit)) c
     /\ (forall l. omap_mem w.cw_clusters l <-> j_has (j_get c str_clusters) l)
     /\ (forall l [omap_get w.cw_clusters l]. omap_mem w.cw_clusters l -> cwload1 f h w (j_get (j_get c str_clusters) l) (omap_get w.cw_clusters l))
     /\ if j_null (j_get c str_unsupervisedCluster) then clu_n w.cw_unsupervisedCluster = 0 else cwload1 f h w (j_get c str_unsupervisedCluster) w.cw_unsupervisedCluster
(*@ *)
  predicate cwloadable (f: fsmap) (c: json) = not (cwunmade c) /\ j_is_int (j_get c str_addressSize) /\ j_is_int (j_get c str_minScore) /\ j_is_int (j_get c str_threshold) /\ j_is_int (j_get c str_discriminatorsLimit)
     /\ cw_limits (j_to_f32 (j_get c str_minScore)) (j_to_int (j_get c str_threshold)) (j_to_int (j_get c str_discriminatorsLimit)) /\ (j_size (j_get c str_clusters) = 0 \/ j_obj (j_get c str_clusters))
     /\ (forall l [j_get (j_get c str_clusters) l]. j_has (j_get c str_clusters) l -> cwloadable1 f (j_get (j_get c str_clusters) l) (jopt_bool c str_ignoreZero False) (jopt_int c str_base 2))
     /\ (j_null (j_get c str_unsupervisedCluster) \/ cwloadable1 f (j_get c str_unsupervisedCluster) (jopt_bool c str_ignoreZero False) (jopt_int c str_base 2))
(* a cluster of new discriminators for a class that had none *)
(*@ *)
  predicate chold (h1 h2: heapmap) (nx1 nx2: int) = nx1 <= nx2 /\ forall p. 0 < p < nx1 -> hget h2 p = hget h1 p
(*@ *)
  predicate cnewer (c: c_cluster) (nx: int) = forall i. 0 <= i < clu_n c -> clu_p c i >= nx
(*@ ghost *)
  let ghost cw_ok_new (h1 h2: heapmap) (nx1 nx2: int) (w1 w2: c_cluswisard) (l: seq int) requires { cw_ok h1 nx1 w1 } requires { chold h1 h2 nx1 nx2 } requires { cwsame_config w1 w2 }
    requires { w2.cw_unsupervisedCluster = w1.cw_unsupervisedCluster } requires { omap_mem w2.cw_clusters l } requires { clu_ok h2 nx2 (omap_get w2.cw_clusters l) /\ cw_sets w2 (omap_get w2.cw_clusters l) /\ cnewer (omap_get w2.cw_clusters l) nx1 }
    requires { forall k. k <> l -> (omap_mem w2.cw_clusters k <-> omap_mem w1.cw_clusters k) /\ omap_get w2.cw_clusters k = omap_get w1.cw_clusters k }
    ensures { cw_ok h2 nx2 w2 } ensures { forall k f j. omap_mem w1.cw_clusters k /\ k <> l /\ cwload1 f h1 w1 j (omap_get w1.cw_clusters k) -> cwload1 f h2 w2 j (omap_get w2.cw_clusters k) }
(*proof*)
  = let lemma one (k: seq int) : unit requires { omap_mem w1.cw_clusters k /\ k <> l } ensures { clu_ok h2 nx2 (omap_get w2.cw_clusters k) } ensures { forall i. 0 <= i < clu_n (omap_get w1.cw_clusters k) -> clu_d h2 (omap_get w2.cw_clusters k) i = clu_d h1 (omap_get w1.cw_clusters k) i }
      ensures { cdisj (omap_get w2.cw_clusters k) (omap_get w2.cw_clusters l) } ensures { cdisj (omap_get w2.cw_clusters l) (omap_get w2.cw_clusters k) } = () in
    assert { clu_ok h2 nx2 w2.cw_unsupervisedCluster };
    assert { cdisj (omap_get w2.cw_clusters l) w2.cw_unsupervisedCluster }
(*@ ghost *)
  let ghost cw_ok_unew (h1 h2: heapmap) (nx1 nx2: int) (w1 w2: c_cluswisard) requires { cw_ok h1 nx1 w1 } requires { chold h1 h2 nx1 nx2 } requires { cwsame_config w1 w2 }
    requires { w2.cw_clusters = w1.cw_clusters } requires { clu_ok h2 nx2 w2.cw_unsupervisedCluster /\ cw_sets w2 w2.cw_unsupervisedCluster /\ cnewer w2.cw_unsupervisedCluster nx1 }
    ensures { cw_ok h2 nx2 w2 } ensures { forall k f j. omap_mem w1.cw_clusters k /\ cwload1 f h1 w1 j (omap_get w1.cw_clusters k) -> cwload1 f h2 w2 j (omap_get w2.cw_clusters k) }
(*proof*)
  = let lemma one (k: seq int) : unit requires { omap_mem w1.cw_clusters k } ensures { clu_ok h2 nx2 (omap_get w2.cw_clusters k) } ensures { forall i. 0 <= i < clu_n (omap_get w1.cw_clusters k) -> clu_d h2 (omap_get w2.cw_clusters k) i = clu_d h1 (omap_get w1.cw_clusters k) i }
      ensures { cdisj (omap_get w2.cw_clusters k) w2.cw_unsupervisedCluster } = () in ()
(* the same settings, classes and discriminators *)
(*@ *)
  predicate cequal (h1: heapmap) (c: c_cluster) (h2: heapmap) (e: c_cluster) = clu_n e = clu_n c /\ forall i [clu_d h2 e i]. 0 <= i < clu_n c -> dequal (clu_d h1 c i) (clu_d h2 e i)
(*@ *)
  predicate ctyped (h: heapmap) (c: c_cluster) = in_s32 c.clu_entrySize /\ forall i [clu_d h c i]. 0 <= i < clu_n c -> dtyped (clu_d h c i)
(*@ *)
  predicate cwtyped (h: heapmap) (w: c_cluswisard) = in_s32 w.cw_addressSize /\ in_s32 w.cw_threshold /\ in_s32 w.cw_discriminatorsLimit /\ in_s32 w.cw_base /\ in_s32 w.cw_confidence /\ ctyped h w.cw_unsupervisedCluster
     /\ forall l [omap_get w.cw_clusters l]. omap_mem w.cw_clusters l -> ctyped h (omap_get w.cw_clusters l)
(*@ *)
  predicate cwsame_saved (a b: c_cluswisard) = a.cw_addressSize = b.cw_addressSize /\ a.cw_minScore = b.cw_minScore /\ a.cw_threshold = b.cw_threshold /\ a.cw_discriminatorsLimit = b.cw_discriminatorsLimit
     /\ a.cw_bleachingActivated = b.cw_bleachingActivated /\ a.cw_verbose = b.cw_verbose /\ a.cw_completeAddressing = b.cw_completeAddressing /\ a.cw_ignoreZero = b.cw_ignoreZero /\ a.cw_base = b.cw_base
     /\ a.cw_returnConfidence = b.cw_returnConfidence /\ a.cw_returnActivationDegree = b.cw_returnActivationDegree /\ a.cw_returnClassesDegrees = b.cw_returnClassesDegrees /\ a.cw_confidence = b.cw_confidence
(*@ *)
  predicate cwequal (h1: heapmap) (w: c_cluswisard) (h2: heapmap) (e: c_cluswisard) = cwsame_saved w e /\ (forall l. omap_mem e.cw_clusters l <-> omap_mem w.cw_clusters l)
     /\ (forall l [omap_get e.cw_clusters l]. omap_mem w.cw_clusters l -> cequal h1 (omap_get w.cw_clusters l) h2 (omap_get e.cw_clusters l)) /\ cequal h1 w.cw_unsupervisedCluster h2 e.cw_unsupervisedCluster
(*@ *)
  predicate cwempty (w e: c_cluswisard) = cwsame_saved w e /\ (forall l. not (omap_mem e.cw_clusters l)) /\ clu_n e.cw_unsupervisedCluster = 0
(*@ ghost *)
  let ghost cwconf_loads (f: fsmap) (w: c_cluswisard) (c: json) requires { cwconf c w } requires { cw_limits w.cw_minScore w.cw_threshold w.cw_discriminatorsLimit }
    requires { in_s32 w.cw_addressSize /\ in_s32 w.cw_threshold /\ in_s32 w.cw_discriminatorsLimit /\ in_s32 w.cw_base /\ in_s32 w.cw_confidence }
    ensures { not (cwunmade c) } ensures { j_is_int (j_get c str_addressSize) /\ j_is_int (j_get c str_minScore) /\ j_is_int (j_get c str_threshold) /\ j_is_int (j_get c str_discriminatorsLimit) }
    ensures { cw_limits (j_to_f32 (j_get c str_minScore)) (j_to_int (j_get c str_threshold)) (j_to_int (j_get c str_discriminatorsLimit)) } ensures { jopt_bool c str_ignoreZero False = w.cw_ignoreZero } ensures { jopt_int c str_base 2 = w.cw_base }
    ensures { forall h e [cwloaded f h c e]. cwloaded f h c e -> cwsame_saved w e }
(*proof*)
  = let lemma l (h: heapmap) (e: c_cluswisard) : unit requires { cwloaded f h c e } ensures { cwsame_saved w e } = assert { e.cw_minScore = w.cw_minScore } in ()
(*@ ghost *)
  let ghost cluster_loads (f: fsmap) (h: heapmap) (nx: int) (c: c_cluster) (j: json) (iz: bool) (base: int) requires { csaved f h c j } requires { clu_ok h nx c } requires { c.clu_ignoreZero = iz /\ c.clu_base = base } requires { ctyped h c } requires { in_s32 base }
    ensures { cwloadable1 f j iz base } ensures { forall h2 w e [cwload1 f h2 w j e]. w.cw_ignoreZero = iz /\ w.cw_base = base /\ cwload1 f h2 w j e -> cequal h c h2 e }
(*proof*)
  = let lemma l (i: int) : unit requires { 0 <= i < clu_n c } ensures { dloadable_as f (j_at (j_get j str_discriminators) i) (j_of_bool iz) (j_of_int base) }
        ensures { forall e. dloaded_as f (j_at (j_get j str_discriminators) i) (j_of_bool iz) (j_of_int base) e -> dequal (clu_d h c i) e }
      = class_loads f (pure { clu_d h c i }) (pure { j_at (j_get j str_discriminators) i }) iz base true in
    assert { not (jbad_int j str_entrySize) }; assert { j_size (j_get j str_discriminators) = clu_n c }; assert { cwloadable1 f j iz base };
    let lemma g (h2: heapmap) (w: c_cluswisard) (e: c_cluster) : unit requires { w.cw_ignoreZero = iz /\ w.cw_base = base /\ cwload1 f h2 w j e } ensures { cequal h c h2 e }
      = assert { forall i. 0 <= i < clu_n c -> dloaded_as f (j_at (j_get j str_discriminators) i) (j_of_bool iz) (j_of_int base) (clu_d h2 e i) } in ()
(* what is saved can be restored, and restores to an equal classifier *)
(*@ ghost *)
  let ghost cwsaved_loads (f: fsmap) (h: heapmap) (nx: int) (w: c_cluswisard) (c: json) requires { cwsaved f h w c } requires { cw_ok h nx w } requires { cwtyped h w } ensures { cwloadable f c } ensures { forall h2 e [cwloaded f h2 c e]. cwloaded f h2 c e -> cwequal h w h2 e }
(*proof*)
  = cwconf_loads f w c; let u = pure { w.cw_unsupervisedCluster } in
    let lemma l (k: seq int) : unit requires { omap_mem w.cw_clusters k } ensures { cwloadable1 f (j_get (j_get c str_clusters) k) w.cw_ignoreZero w.cw_base }
        ensures { forall h2 v e. v.cw_ignoreZero = w.cw_ignoreZero /\ v.cw_base = w.cw_base /\ cwload1 f h2 v (j_get (j_get c str_clusters) k) e -> cequal h (omap_get w.cw_clusters k) h2 e }
      = cluster_loads f h nx (pure { omap_get w.cw_clusters k }) (pure { j_get (j_get c str_clusters) k }) (pure { w.cw_ignoreZero }) (pure { w.cw_base }) in
    if pure { clu_n u > 0 } then cluster_loads f h nx u (pure { j_get c str_unsupervisedCluster }) (pure { w.cw_ignoreZero }) (pure { w.cw_base });
    assert { j_size (j_get c str_clusters) = 0 \/ j_obj (j_get c str_clusters) };
    let lemma g (h2: heapmap) (e: c_cluswisard) : unit requires { cwloaded f h2 c e } ensures { cwequal h w h2 e } = assert { cwsame_saved w e }; assert { forall l. omap_mem e.cw_clusters l <-> omap_mem w.cw_clusters l }; assert { cequal h u h2 e.cw_unsupervisedCluster } in ()
(*@ ghost *)
  let ghost cwconfig_loads (f: fsmap) (h: heapmap) (nx: int) (w: c_cluswisard) (c: json) requires { cwconf c w } requires { j_null (j_get c str_clusters) /\ j_null (j_get c str_unsupervisedCluster) } requires { cw_ok h nx w } requires { cwtyped h w }
    ensures { cwloadable f c } ensures { forall h2 e [cwloaded f h2 c e]. cwloaded f h2 c e -> cwempty w e }
(*proof*)
  = cwconf_loads f w c; assert { j_size (j_get c str_clusters) = 0 };
    let lemma g (h2: heapmap) (e: c_cluswisard) : unit requires { cwloaded f h2 c e } ensures { cwempty w e } = assert { cwsame_saved w e }; assert { forall l. not (omap_mem e.cw_clusters l) } in ()
