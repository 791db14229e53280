(* saved and restored classifiers *)
(*@ *)
  predicate wconf (c: json) (w: c_wisard) = j_obj c /\ j_get c str_addressSize = j_of_int w.wis_addressSize /\ j_get c str_bleachingActivated = j_of_bool w.wis_bleachingActivated /\ j_get c str_verbose = j_of_bool w.wis_verbose
     /\ j_get c str_ignoreZero = j_of_bool w.wis_ignoreZero /\ j_get c str_completeAddressing = j_of_bool w.wis_completeAddressing /\ j_get c str_mapping = j_of_mvv w.wis_mapping /\ j_get c str_indexes = j_of_vi w.wis_indexes
     /\ j_get c str_base = j_of_int w.wis_base /\ j_get c str_confidence = j_of_int w.wis_confidence /\ j_get c str_returnConfidence = j_of_bool w.wis_returnConfidence
     /\ j_get c str_returnActivationDegree = j_of_bool w.wis_returnActivationDegree /\ j_get c str_returnClassesDegrees = j_of_bool w.wis_returnClassesDegrees
     /\ (j_null (j_get c str_searchBestConfidence) \/ j_get c str_searchBestConfidence = j_of_bool w.wis_searchBestConfidence)
(*@ *)
  predicate wclasses (f: fsmap) (w: c_wisard) (c: json) = (j_null c \/ j_obj c) /\ (forall l. j_has c l <-> omap_mem w.wis_discriminators l)
     /\ forall l [j_get c l]. omap_mem w.wis_discriminators l -> dsaved f (omap_get w.wis_discriminators l) (j_get c l)
(*@ *)
  predicate wclassconfs (w: c_wisard) (c: json) = (j_null c \/ j_obj c) /\ (forall l. j_has c l <-> omap_mem w.wis_discriminators l)
     /\ forall l [j_get c l]. omap_mem w.wis_discriminators l -> dconf (j_get c l) (omap_get w.wis_discriminators l) false /\ j_null (j_get (j_get c l) str_data)
(*@ *)
  predicate wsaved (f: fsmap) (w: c_wisard) (c: json) = wconf c w /\ wclasses f w (j_get c str_classes)
(* what can fail to be written: texts that are not UTF-8 or too long *)
(*@ *)
  predicate wtextual (w: c_wisard) = (forall l [omap_mem w.wis_discriminators l]. omap_mem w.wis_discriminators l -> s_utf8 l) /\ forall l. omap_mem w.wis_mapping l -> s_utf8 l
(*@ *)
  predicate wbig (w: c_wisard) = exists l. omap_mem w.wis_discriminators l /\ dbig (omap_get w.wis_discriminators l)
(*@ *)
  predicate wloaded (f: fsmap) (c: json) (w: c_wisard) = wmade w (j_to_int (j_get c str_addressSize)) c /\ (forall l. omap_mem w.wis_discriminators l <-> j_has (j_get c str_classes) l)
     /\ forall l [omap_get w.wis_discriminators l]. omap_mem w.wis_discriminators l -> dloaded_as f (j_get (j_get c str_classes) l) (j_of_bool w.wis_ignoreZero) (j_of_int w.wis_base) (omap_get w.wis_discriminators l)
(*@ *)
  predicate wloadable (f: fsmap) (c: json) = not (wunmade c) /\ j_is_int (j_get c str_addressSize) /\ (j_size (j_get c str_classes) = 0 \/ j_obj (j_get c str_classes))
     /\ forall l [j_get (j_get c str_classes) l]. j_has (j_get c str_classes) l -> dloadable_as f (j_get (j_get c str_classes) l) (j_of_bool (jopt_bool c str_ignoreZero False)) (j_of_int (jopt_int c str_base 2))
(* the same settings and classes *)
(*@ *)
  predicate wsame_saved (a b: c_wisard) = a.wis_addressSize = b.wis_addressSize /\ a.wis_bleachingActivated = b.wis_bleachingActivated /\ a.wis_verbose = b.wis_verbose /\ a.wis_mapping = b.wis_mapping
     /\ a.wis_ignoreZero = b.wis_ignoreZero /\ a.wis_completeAddressing = b.wis_completeAddressing /\ a.wis_indexes == b.wis_indexes /\ a.wis_base = b.wis_base /\ a.wis_confidence = b.wis_confidence
     /\ a.wis_returnConfidence = b.wis_returnConfidence /\ a.wis_returnActivationDegree = b.wis_returnActivationDegree /\ a.wis_returnClassesDegrees = b.wis_returnClassesDegrees
(*@ *)
  predicate wsettings (w e: c_wisard) = wsame_saved w e /\ forall l. omap_mem e.wis_discriminators l <-> omap_mem w.wis_discriminators l
(*@ *)
  predicate wequal (w e: c_wisard) = wsettings w e /\ forall l. omap_mem w.wis_discriminators l -> dequal (omap_get w.wis_discriminators l) (omap_get e.wis_discriminators l)
(*@ *)
  predicate wblank (w e: c_wisard) = wsettings w e /\ forall l. omap_mem w.wis_discriminators l -> dblank (omap_get w.wis_discriminators l) (omap_get e.wis_discriminators l)
(* machine integers *)
(*@ *)
  predicate wtyped (w: c_wisard) = in_s32 w.wis_addressSize /\ in_s32 w.wis_base /\ in_s32 w.wis_confidence /\ forall l [omap_mem w.wis_discriminators l]. omap_mem w.wis_discriminators l -> dtyped (omap_get w.wis_discriminators l)
(*@ ghost *)
  let ghost wconf_loads (f: fsmap) (w: c_wisard) (c: json) requires { wconf c w } requires { wtyped w }
    ensures { not (wunmade c) } ensures { j_is_int (j_get c str_addressSize) } ensures { jopt_bool c str_ignoreZero False = w.wis_ignoreZero } ensures { jopt_int c str_base 2 = w.wis_base }
    ensures { forall e [wloaded f c e]. wloaded f c e -> wsame_saved w e }
(*proof*)
  = let lemma l (e: c_wisard) : unit requires { wmade e (j_to_int (j_get c str_addressSize)) c } ensures { wsame_saved w e } = assert { e.wis_mapping = w.wis_mapping } in ()
(*@ ghost *)
  let ghost class_loads (f: fsmap) (d: c_discriminator) (c: json) (iz: bool) (base: int) (all: bool) requires { if all then dsaved f d c else dconf c d false /\ j_null (j_get c str_data) }
    requires { disc_as d iz base } requires { dtyped d } requires { in_s32 base }
    ensures { dloadable_as f c (j_of_bool iz) (j_of_int base) } ensures { forall e [dloaded_as f c (j_of_bool iz) (j_of_int base) e]. dloaded_as f c (j_of_bool iz) (j_of_int base) e -> if all then dequal d e else dblank d e }
(*proof*)
  = let p = pure { j_set (j_set jnull str_ignoreZero (j_of_bool iz)) str_base (j_of_int base) } in
    assert { jpatch p /\ j_get p str_ignoreZero = j_of_bool iz /\ j_get p str_base = j_of_int base }; as_merged f c p; let q = pure { j_merge c p } in
    assert { length d.disc_rams > 0 -> d.disc_rams[0].ram_ignoreZero = iz /\ d.disc_rams[0].ram_base = base };
    assert { dconf q d all }; assert { j_get q str_data = j_get c str_data };
    if all then (assert { dsaved f d q }; saved_loads f d q) else config_loads f d q
(* what is saved can be restored, and restores to an equal classifier *)
(*@ ghost *)
  let ghost wsaved_loads (f: fsmap) (w: c_wisard) (c: json) requires { wsaved f w c } requires { wis_ok w } requires { wtyped w } ensures { wloadable f c } ensures { forall e [wloaded f c e]. wloaded f c e -> wequal w e }
(*proof*)
  = wconf_loads f w c;
    let lemma l (k: seq int) : unit requires { omap_mem w.wis_discriminators k } ensures { dloadable_as f (j_get (j_get c str_classes) k) (j_of_bool w.wis_ignoreZero) (j_of_int w.wis_base) }
        ensures { forall e. dloaded_as f (j_get (j_get c str_classes) k) (j_of_bool w.wis_ignoreZero) (j_of_int w.wis_base) e -> dequal (omap_get w.wis_discriminators k) e }
      = class_loads f (pure { omap_get w.wis_discriminators k }) (pure { j_get (j_get c str_classes) k }) (pure { w.wis_ignoreZero }) (pure { w.wis_base }) true in
    assert { j_size (j_get c str_classes) = 0 \/ j_obj (j_get c str_classes) };
    let lemma g (e: c_wisard) : unit requires { wloaded f c e } ensures { wequal w e } = assert { wsame_saved w e }; assert { forall l. omap_mem e.wis_discriminators l <-> omap_mem w.wis_discriminators l } in ()
(*@ ghost *)
  let ghost wconfig_loads (f: fsmap) (w: c_wisard) (c: json) requires { wconf c w } requires { wclassconfs w (j_get c str_classes) } requires { wis_ok w } requires { wtyped w } ensures { wloadable f c } ensures { forall e [wloaded f c e]. wloaded f c e -> wblank w e }
(*proof*)
  = wconf_loads f w c;
    let lemma l (k: seq int) : unit requires { omap_mem w.wis_discriminators k } ensures { dloadable_as f (j_get (j_get c str_classes) k) (j_of_bool w.wis_ignoreZero) (j_of_int w.wis_base) }
        ensures { forall e. dloaded_as f (j_get (j_get c str_classes) k) (j_of_bool w.wis_ignoreZero) (j_of_int w.wis_base) e -> dblank (omap_get w.wis_discriminators k) e }
      = class_loads f (pure { omap_get w.wis_discriminators k }) (pure { j_get (j_get c str_classes) k }) (pure { w.wis_ignoreZero }) (pure { w.wis_base }) false in
    assert { j_size (j_get c str_classes) = 0 \/ j_obj (j_get c str_classes) };
    let lemma g (e: c_wisard) : unit requires { wloaded f c e } ensures { wblank w e } = assert { wsame_saved w e }; assert { forall l. omap_mem e.wis_discriminators l <-> omap_mem w.wis_discriminators l } in ()
