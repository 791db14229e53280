(* Wisard: one discriminator per label *)
(*@ *)
  predicate wis_ok (w: c_wisard) = forall l [omap_get w.wis_discriminators l]. omap_mem w.wis_discriminators l -> disc_ok (omap_get w.wis_discriminators l) /\ disc_as (omap_get w.wis_discriminators l) w.wis_ignoreZero w.wis_base
(*@ *)
  predicate wsame_config (a b: c_wisard) = a.wis_addressSize = b.wis_addressSize /\ a.wis_bleachingActivated = b.wis_bleachingActivated /\ a.wis_verbose = b.wis_verbose /\ a.wis_mapping = b.wis_mapping
     /\ a.wis_indexes = b.wis_indexes /\ a.wis_ignoreZero = b.wis_ignoreZero /\ a.wis_completeAddressing = b.wis_completeAddressing /\ a.wis_base = b.wis_base /\ a.wis_searchBestConfidence = b.wis_searchBestConfidence
     /\ a.wis_returnConfidence = b.wis_returnConfidence /\ a.wis_returnActivationDegree = b.wis_returnActivationDegree /\ a.wis_returnClassesDegrees = b.wis_returnClassesDegrees /\ a.wis_confidence = b.wis_confidence
(* the models of all labels but l are the same *)
(*@ *)
  predicate wothers (a b: c_wisard) (l: seq int) = forall k [omap_mem b.wis_discriminators k | omap_get b.wis_discriminators k]. k <> l ->
     (omap_mem b.wis_discriminators k <-> omap_mem a.wis_discriminators k) /\ omap_get b.wis_discriminators k = omap_get a.wis_discriminators k
(* a new model for a label, for images of n values *)
(*@ *)
  predicate wnew (w: c_wisard) (l: seq int) (n:int) (d: c_discriminator) = disc_ok d /\ disc_new d n w.wis_base w.wis_ignoreZero /\
    (if omap_mem w.wis_mapping l then length d.disc_rams = length (omap_get w.wis_mapping l) /\ (forall i. 0 <= i < length d.disc_rams -> d.disc_rams[i].ram_addresses = (omap_get w.wis_mapping l)[i])
     else if length w.wis_indexes <> 0 then length d.disc_rams = ED.div n w.wis_addressSize /\ cut d w.wis_indexes w.wis_addressSize
     else length d.disc_rams = ED.div n w.wis_addressSize + (if w.wis_completeAddressing /\ ED.mod n w.wis_addressSize > 0 then 1 else 0)
       /\ (forall i. 0 <= i < length d.disc_rams -> length d.disc_rams[i].ram_addresses = w.wis_addressSize) /\ (w.wis_completeAddressing -> covers d w.wis_addressSize))
(* one image trained with its label *)
(*@ *)
  predicate wstep (a b: c_wisard) (v l: seq int) = wsame_config a b /\ wothers a b l /\ omap_mem b.wis_discriminators l /\
    exists d. (if omap_mem a.wis_discriminators l then d = omap_get a.wis_discriminators l else wnew a l (length v) d) /\ ddigits d v /\ dtrained d (omap_get b.wis_discriminators l) v
(* d is the model of l after the first n pairs, starting from w *)
(*@ *)
  predicate labelled (ls: seq (seq int)) (l: seq int) (n:int) = exists j. 0 <= j < n /\ ls[j] = l
(*@ *)
  predicate wline (w: c_wisard) (vs ls: seq (seq int)) (l: seq int) (n:int) (d: c_discriminator)
  axiom wline_0 : forall w vs ls l n d. n <= 0 -> (wline w vs ls l n d <-> omap_mem w.wis_discriminators l /\ d = omap_get w.wis_discriminators l)
(*@ *)
  predicate wline_from (w: c_wisard) (vs ls: seq (seq int)) (l: seq int) (n:int) (d: c_discriminator) = wline w vs ls l n d \/ (not (omap_mem w.wis_discriminators l) /\ not (labelled ls l n) /\ wnew w l (length vs[n]) d)
(*@ *)
  val ghost wline_s (w: c_wisard) (vs ls: seq (seq int)) (n:int) : unit requires { n > 0 }
    ensures { forall l d. wline w vs ls l n d <-> (if ls[n - 1] <> l then wline w vs ls l (n - 1) d else exists d1. wline_from w vs ls l (n - 1) d1 /\ ddigits d1 vs[n - 1] /\ dtrained d1 d vs[n - 1]) }
(* the state after the first n pairs *)
(*@ *)
  predicate wtrained (w0 w: c_wisard) (vs ls: seq (seq int)) (n:int) = wsame_config w0 w /\ forall l [omap_mem w.wis_discriminators l | omap_get w.wis_discriminators l].
    (omap_mem w.wis_discriminators l <-> omap_mem w0.wis_discriminators l \/ labelled ls l n) /\ (omap_mem w.wis_discriminators l -> wline w0 vs ls l n (omap_get w.wis_discriminators l))
(*@ ghost *)
  let ghost wtrained_step (w0 w1 w2: c_wisard) (vs ls: seq (seq int)) (n:int) requires { 0 <= n } requires { wtrained w0 w1 vs ls n } requires { wstep w1 w2 vs[n] ls[n] } ensures { wtrained w0 w2 vs ls (n + 1) }
(*proof*)
  = wline_s w0 vs ls (n + 1);
    assert { labelled ls ls[n] (n + 1) };
    assert { forall l. l <> ls[n] -> (labelled ls l (n + 1) <-> labelled ls l n) };
    assert { forall l. l <> ls[n] /\ omap_mem w2.wis_discriminators l -> wline w0 vs ls l (n + 1) (omap_get w2.wis_discriminators l) };
    assert { forall d. (if omap_mem w1.wis_discriminators ls[n] then d = omap_get w1.wis_discriminators ls[n] else wnew w1 ls[n] (length vs[n]) d) -> wline_from w0 vs ls ls[n] n d };
    assert { wline w0 vs ls ls[n] (n + 1) (omap_get w2.wis_discriminators ls[n]) }
(* an image no model can take: some ram's values outside of the base, or another size *)
(*@ *)
  predicate wvotes (w: c_wisard) (v: seq int) (m: omap (seq int) (seq int)) = forall l [omap_mem m l | omap_get m l]. (omap_mem m l <-> omap_mem w.wis_discriminators l) /\
     (omap_mem m l -> ddigits (omap_get w.wis_discriminators l) v /\ dvotes (omap_get w.wis_discriminators l) v (omap_get m l))
(*@ *)
  predicate wdegrees (w: c_wisard) (v: seq int) (d: omap (seq int) int) = exists m. wvotes w v m /\ bleached m w.wis_bleachingActivated w.wis_confidence d
(*@ *)
  predicate wanswer (w: c_wisard) (v: seq int) (l: seq int) = exists d. wdegrees w v d /\ winner d l
(*@ *)
  predicate wanswers_n (w: c_wisard) (vs out: seq (seq int)) (n:int) = forall i [out[i]]. 0 <= i < n -> wanswer w vs[i] out[i]
(* leaving out pairs *)
(*@ *)
  predicate wleft (a b: c_wisard) (v l: seq int) = wsame_config a b /\ wothers a b l /\ (omap_mem b.wis_discriminators l <-> omap_mem a.wis_discriminators l) /\
    (omap_mem a.wis_discriminators l -> ddigits (omap_get a.wis_discriminators l) v /\ duntrained (omap_get a.wis_discriminators l) (omap_get b.wis_discriminators l) v)
(* d is the model of l after the first n pairs were left out of w *)
(*@ *)
  predicate wuline (w: c_wisard) (vs ls: seq (seq int)) (l: seq int) (n:int) (d: c_discriminator)
  axiom wuline_0 : forall w vs ls l n d. n <= 0 -> (wuline w vs ls l n d <-> omap_mem w.wis_discriminators l /\ d = omap_get w.wis_discriminators l)
(*@ *)
  val ghost wuline_s (w: c_wisard) (vs ls: seq (seq int)) (n:int) : unit requires { n > 0 }
    ensures { forall l d. wuline w vs ls l n d <-> (if ls[n - 1] <> l then wuline w vs ls l (n - 1) d else exists d1. wuline w vs ls l (n - 1) d1 /\ ddigits d1 vs[n - 1] /\ duntrained d1 d vs[n - 1]) }
(*@ *)
  predicate wleftout (w0 w: c_wisard) (vs ls: seq (seq int)) (n:int) = wsame_config w0 w /\ forall l [omap_mem w.wis_discriminators l | omap_get w.wis_discriminators l].
    (omap_mem w.wis_discriminators l <-> omap_mem w0.wis_discriminators l) /\ (omap_mem w.wis_discriminators l -> wuline w0 vs ls l n (omap_get w.wis_discriminators l))
(*@ ghost *)
  let ghost wleftout_step (w0 w1 w2: c_wisard) (vs ls: seq (seq int)) (n:int) requires { 0 <= n } requires { wleftout w0 w1 vs ls n } requires { wleft w1 w2 vs[n] ls[n] } ensures { wleftout w0 w2 vs ls (n + 1) }
(*proof*)
  = wuline_s w0 vs ls (n + 1);
    assert { forall l. l <> ls[n] /\ omap_mem w2.wis_discriminators l -> wuline w0 vs ls l (n + 1) (omap_get w2.wis_discriminators l) };
    assert { omap_mem w1.wis_discriminators ls[n] -> wuline w0 vs ls ls[n] (n + 1) (omap_get w2.wis_discriminators ls[n]) }
(*@ *)
  predicate same_ballots (m1 m2: omap (seq int) (seq int)) = forall k [omap_mem m1 k]. (omap_mem m1 k <-> omap_mem m2 k) /\ (omap_mem m1 k -> omap_get m1 k == omap_get m2 k)
(* a label that is not among the labels keeps its model *)
(*@ ghost *)
  let rec lemma wline_other (w: c_wisard) (vs ls: seq (seq int)) (l: seq int) (n:int) requires { not (labelled ls l n) } variant { n }
    ensures { forall d. wline w vs ls l n d <-> omap_mem w.wis_discriminators l /\ d = omap_get w.wis_discriminators l }
(*proof*)
  = if n > 0 then begin wline_s w vs ls n; wline_other w vs ls l (n - 1) end
(* the answer for an image is determined by the models alone *)
(*@ ghost *)
  let lemma bleached_unique (m1 m2: omap (seq int) (seq int)) (act:bool) (conf:int) (d1 d2: omap (seq int) int) requires { same_ballots m1 m2 }
    requires { bleached m1 act conf d1 } requires { bleached m2 act conf d2 } ensures { same_degrees d1 d2 }
(*proof*)
  = assert { forall k b. omap_mem m1 k -> degc m1 k b = degc m2 k b };
    assert { forall b d. degrees_at m1 b d <-> degrees_at m2 b d };
    assert { forall b. undecided m1 b conf <-> undecided m2 b conf };
    assert { forall b1 b2. degrees_at m1 b1 d1 /\ degrees_at m1 b2 d2 /\ b1 = b2 -> same_degrees d1 d2 };
    assert { forall b. degrees_at m1 b d1 /\ not (close_top d1 conf /\ some_above_1 d1) -> not (undecided m1 b conf) };
    assert { forall b. degrees_at m1 b d2 /\ not (close_top d2 conf /\ some_above_1 d2) -> not (undecided m1 b conf) }
(*@ ghost *)
  let lemma winner_unique (d1 d2: omap (seq int) int) (l1 l2: seq int) requires { same_degrees d1 d2 } requires { winner d1 l1 } requires { winner d2 l2 } ensures { l1 = l2 }
(*proof*)
  = if length (omap_keys d1) > 0 then begin
      assert { omap_mem d1 l1 }; assert { omap_mem d2 l1 }; assert { length (omap_keys d2) > 0 }; assert { omap_mem d1 l2 };
      assert { omap_get d1 l1 = omap_get d1 l2 }; assert { omap_get d2 l1 = omap_get d2 l2 };
      assert { l1 = l2 \/ (klt l1 l2 /\ klt l2 l1) }; assert { klt l1 l2 /\ klt l2 l1 -> klt l1 l1 }
    end else begin
      assert { forall k. not (omap_mem d2 k) }; 
      assert { length (omap_keys d2) > 0 -> omap_mem d2 (omap_keys d2)[0] };
      assert { length (omap_keys d2) = 0 }; assert { l1 == l2 }
    end
(*@ ghost *)
  let lemma wanswer_unique (w: c_wisard) (v l1 l2: seq int) requires { wanswer w v l1 } requires { wanswer w v l2 } ensures { l1 = l2 }
(*proof*)
  = let lemma votes (d: c_discriminator) (a b: seq int) : unit requires { dvotes d v a } requires { dvotes d v b } ensures { a == b } = () in
    let lemma ballots (m1 m2: omap (seq int) (seq int)) : unit requires { wvotes w v m1 } requires { wvotes w v m2 } ensures { same_ballots m1 m2 } = () in
    let lemma degs (m1 m2: omap (seq int) (seq int)) (d1 d2: omap (seq int) int) : unit requires { wvotes w v m1 } requires { wvotes w v m2 }
      requires { bleached m1 w.wis_bleachingActivated w.wis_confidence d1 } requires { bleached m2 w.wis_bleachingActivated w.wis_confidence d2 } requires { winner d1 l1 } requires { winner d2 l2 } ensures { l1 = l2 }
      = ballots m1 m2; bleached_unique m1 m2 w.wis_bleachingActivated w.wis_confidence d1 d2; winner_unique d1 d2 l1 l2 in
    assert { exists d1 m1. wvotes w v m1 /\ bleached m1 w.wis_bleachingActivated w.wis_confidence d1 /\ winner d1 l1 };
    assert { exists d2 m2. wvotes w v m2 /\ bleached m2 w.wis_bleachingActivated w.wis_confidence d2 /\ winner d2 l2 }
(* a Wisard with the options given *)
(*@ *)
  predicate wmapped (m: omap (seq int) (seq (seq int))) (v: json) = (j_null v -> forall k. not (omap_mem m k)) /\ (not (j_null v) -> m = j_to_mvv v)
(*@ *)
  predicate wmade (w: c_wisard) (a: int) (o: json) = w.wis_addressSize = a /\ w.wis_bleachingActivated = jopt_bool o str_bleachingActivated True /\ w.wis_verbose = jopt_bool o str_verbose False
     /\ w.wis_ignoreZero = jopt_bool o str_ignoreZero False /\ w.wis_completeAddressing = jopt_bool o str_completeAddressing True /\ w.wis_indexes == jopt_vi o str_indexes
     /\ wmapped w.wis_mapping (j_get o str_mapping)
     /\ w.wis_base = jopt_int o str_base 2 /\ w.wis_confidence = jopt_int o str_confidence 1 /\ w.wis_searchBestConfidence = jopt_bool o str_searchBestConfidence False
     /\ w.wis_returnConfidence = jopt_bool o str_returnConfidence False /\ w.wis_returnActivationDegree = jopt_bool o str_returnActivationDegree False /\ w.wis_returnClassesDegrees = jopt_bool o str_returnClassesDegrees False
(*@ *)
  predicate wunmade (o: json) = jbad o \/ jbad_bool o str_bleachingActivated \/ jbad_bool o str_verbose \/ jbad_bool o str_ignoreZero \/ jbad_bool o str_completeAddressing \/ jbad_mvv o str_mapping
     \/ jbad_vi o str_indexes \/ jbad_int o str_base \/ jbad_int o str_confidence \/ jbad_bool o str_searchBestConfidence \/ jbad_bool o str_returnConfidence \/ jbad_bool o str_returnActivationDegree \/ jbad_bool o str_returnClassesDegrees
