(* Cluster: discriminators numbered 0 .. n-1, objects of their own on the heap *)
(*@ *)
  function clu_n (c: c_cluster) : int = length (omap_keys c.clu_discriminators)
(*@ *)
  function clu_p (c: c_cluster) (i:int) : int = omap_get c.clu_discriminators i
(*@ *)
  function clu_d (h: heapmap) (c: c_cluster) (i:int) : c_discriminator = hget h (omap_get c.clu_discriminators i)
(*@ *)
  predicate clu_keys (c: c_cluster) = forall k [omap_mem c.clu_discriminators k]. omap_mem c.clu_discriminators k <-> 0 <= k < length (omap_keys c.clu_discriminators)
(*@ *)
  predicate clu_ok (h: heapmap) (nx:int) (c: c_cluster) = clu_keys c
     /\ (forall i [omap_get c.clu_discriminators i]. 0 <= i < clu_n c -> 0 < clu_p c i < nx /\ disc_ok (clu_d h c i) /\ disc_as (clu_d h c i) c.clu_ignoreZero c.clu_base)
     /\ (forall i j [omap_get c.clu_discriminators i, omap_get c.clu_discriminators j]. 0 <= i < clu_n c /\ 0 <= j < clu_n c /\ i <> j -> clu_p c i <> clu_p c j)
(*@ *)
  predicate clu_owns (c: c_cluster) (p:int) = exists i. 0 <= i < clu_n c /\ clu_p c i = p
(* objects that are not c's are left alone *)
(*@ *)
  predicate heap_frame (h1 h2: heapmap) (nx1 nx2:int) (c: c_cluster) = nx1 <= nx2 /\ forall p [hget h2 p]. 0 < p < nx1 /\ not (clu_owns c p) -> hget h2 p = hget h1 p
(*@ *)
  predicate csame_config (a b: c_cluster) = a.clu_addressSize = b.clu_addressSize /\ a.clu_entrySize = b.clu_entrySize /\ a.clu_minScore = b.clu_minScore /\ a.clu_threshold = b.clu_threshold
     /\ a.clu_discriminatorsLimit = b.clu_discriminatorsLimit /\ a.clu_completeAddressing = b.clu_completeAddressing /\ a.clu_ignoreZero = b.clu_ignoreZero /\ a.clu_base = b.clu_base
(* a new discriminator with the cluster's settings *)
(*@ *)
  predicate clu_new (c: c_cluster) (d: c_discriminator) = disc_ok d /\ disc_new d (to_s32 c.clu_entrySize) c.clu_base c.clu_ignoreZero
     /\ length d.disc_rams = ED.div (to_s32 c.clu_entrySize) (to_s32 c.clu_addressSize) + (if c.clu_completeAddressing /\ ED.mod (to_s32 c.clu_entrySize) (to_s32 c.clu_addressSize) > 0 then 1 else 0)
     /\ (forall i [d.disc_rams[i]]. 0 <= i < length d.disc_rams -> length d.disc_rams[i].ram_addresses = to_s32 c.clu_addressSize) /\ (c.clu_completeAddressing -> covers d (to_s32 c.clu_addressSize))
(*@ ghost *)
  let ghost new_as () ensures { forall c d [clu_new c d]. clu_new c d -> disc_as d c.clu_ignoreZero c.clu_base }
(*proof*)
  = ()
(* the score of a list of votes *)
(*@ ghost *)
  let ghost mul_le (a b c:int) requires { 0 <= a <= b /\ 0 <= c } ensures { 0 <= a * c <= b * c }
(*proof*)
  = ()
(*@ *)
  function vsum32 (v: seq int) (n:int) : fl
  axiom vsum32_0 : forall v n. n <= 0 -> vsum32 v n = fl_of_int32 0
  axiom vsum32_s : forall v n. n > 0 -> vsum32 v n = fl_add32 (vsum32 v (n - 1)) (fl_of_int32 v[n - 1])
(*@ *)
  function vtop (v: seq int) (n:int) : int
  axiom vtop_0 : forall v n. n <= 0 -> vtop v n = 0
  axiom vtop_s : forall v n. n > 0 -> vtop v n = if v[n - 1] > vtop v (n - 1) then v[n - 1] else vtop v (n - 1)
(*@ *)
  function score (v: seq int) : fl = if vtop v (length v) = 0 then fl_of_int32 0 else fl_div32 (vsum32 v (length v)) (fl_of_int32 (imul (vtop v (length v)) (length v)))
(*@ *)
  function dscore (d: c_discriminator) (x: seq int) : fl = score (dballot d x)
(*@ *)
  function climit (c: c_cluster) (n:int) : fl = let l = fl_add32 c.clu_minScore (fl_div32 (fl_of_int32 n) (fl_of_int32 c.clu_threshold)) in if fl_gt l (fl_of_int 1) then fl_of_int 1 else l
(* the score of d reaches the limit for the times it was trained *)
(*@ *)
  predicate ctaken (c: c_cluster) (d: c_discriminator) (x: seq int) = fl_ge (dscore d x) (climit c d.disc_count)
(*@ *)
  predicate ctakes (h: heapmap) (c: c_cluster) (x: seq int) (n:int) = exists i. 0 <= i < n /\ ctaken c (clu_d h c i) x
(*@ *)
  predicate cpolicy_n (h1 h2: heapmap) (c: c_cluster) (x: seq int) (n:int) = forall i [omap_get c.clu_discriminators i]. 0 <= i < n ->
     ddigits (clu_d h1 c i) x /\ (if ctaken c (clu_d h1 c i) x then dtrained (clu_d h1 c i) (clu_d h2 c i) x else clu_d h2 c i = clu_d h1 c i)
(*@ *)
  predicate ckept (h1 h2: heapmap) (c: c_cluster) (n:int) = forall i [omap_get c.clu_discriminators i]. n <= i < clu_n c -> clu_d h2 c i = clu_d h1 c i
(*@ *)
  predicate cbest_n (h: heapmap) (c: c_cluster) (x: seq int) (n b:int) = 0 <= b < n /\ fl_ge (dscore (clu_d h c b) x) (fl_of_int 0) /\ forall i [omap_get c.clu_discriminators i]. 0 <= i < n -> not (fl_gt (dscore (clu_d h c i) x) (dscore (clu_d h c b) x))
(*@ *)
  predicate cnone_n (h: heapmap) (c: c_cluster) (x: seq int) (n:int) = forall i [omap_get c.clu_discriminators i]. 0 <= i < n -> not (fl_ge (dscore (clu_d h c i) x) (fl_of_int 0))
(*@ ghost *)
  let ghost cbest_take (h: heapmap) (c: c_cluster) (x: seq int) (n:int) (s:fl) requires { 0 <= n < clu_n c } requires { (cnone_n h c x n /\ s = fl_of_int 0) \/ (exists b. cbest_n h c x n b /\ s = dscore (clu_d h c b) x) }
    ensures { fl_ge (dscore (clu_d h c n) x) s -> cbest_n h c x (n + 1) n } ensures { forall b [cbest_n h c x n b]. cbest_n h c x n b /\ s = dscore (clu_d h c b) x /\ not (fl_ge (dscore (clu_d h c n) x) s) -> cbest_n h c x (n + 1) b }
(*proof*)
  = let v = pure { dscore (clu_d h c n) x } in
    let lemma one (b:int) : unit requires { cbest_n h c x n b /\ s = dscore (clu_d h c b) x } requires { fl_ge v s } ensures { cbest_n h c x (n + 1) n }
      = assert { forall i [omap_get c.clu_discriminators i]. 0 <= i < n -> not (fl_gt (dscore (clu_d h c i) x) v) } in
    let lemma two () : unit requires { cnone_n h c x n /\ s = fl_of_int 0 } requires { fl_ge v s } ensures { cbest_n h c x (n + 1) n }
      = assert { forall i [omap_get c.clu_discriminators i]. 0 <= i < n -> not (fl_gt (dscore (clu_d h c i) x) v) } in
    let lemma three (b:int) : unit requires { cbest_n h c x n b /\ s = dscore (clu_d h c b) x } requires { not (fl_ge v s) } ensures { cbest_n h c x (n + 1) b }
      = assert { not (fl_gt v s) } in
    ()
(* the pointers of c1 are the first ones of c2 *)
(*@ *)
  predicate cprefix (c1 c2: c_cluster) = forall i [omap_get c2.clu_discriminators i]. 0 <= i < clu_n c1 -> clu_p c2 i = clu_p c1 i
(* one more discriminator, trained with x *)
(*@ *)
  predicate cgrown (h2: heapmap) (c1 c2: c_cluster) (x: seq int) = clu_n c2 = clu_n c1 + 1 /\ exists d [dtrained d (clu_d h2 c2 (clu_n c1)) x]. clu_new c1 d /\ ddigits d x /\ dtrained d (clu_d h2 c2 (clu_n c1)) x
(* what training c1 with x does: every one that takes it; else a new one while there is room; else the best one *)
(*@ *)
  predicate croom (c: c_cluster) = clu_n c = 0 \/ clu_n c < c.clu_discriminatorsLimit
(*@ *)
  predicate cbest_one (h1 h2: heapmap) (c: c_cluster) (x: seq int) = exists b [cbest_n h1 c x (clu_n c) b]. cbest_n h1 c x (clu_n c) b /\ dtrained (clu_d h1 c b) (clu_d h2 c b) x /\ (forall i [omap_get c.clu_discriminators i]. 0 <= i < clu_n c /\ i <> b -> clu_d h2 c i = clu_d h1 c i)
(*@ *)
  predicate cbest_at (h: heapmap) (c: c_cluster) (x: seq int) (p:int) = exists b [cbest_n h c x (clu_n c) b]. cbest_n h c x (clu_n c) b /\ clu_p c b = p /\ forall i [omap_get c.clu_discriminators i]. 0 <= i < clu_n c /\ i <> b -> clu_p c i <> p
(*@ lemma cbest_at cbest_one *)
  let lemma cbest_one_at (h1 h2: heapmap) (c: c_cluster) (x: seq int) (p:int) requires { cbest_at h1 c x p } requires { cbest_one h1 h2 c x \/ dtrained (hget h1 p) (hget h2 p) x }
    requires { forall q [hget h2 q]. q <> p -> hget h2 q = hget h1 q } ensures { cbest_one h1 h2 c x }
(*proof*)
  = ()
(*@ *)
  predicate cbest_trained (h1 h2: heapmap) (c: c_cluster) (x: seq int) = if cnone_n h1 c x (clu_n c) then ckept h1 h2 c 0 else cbest_one h1 h2 c x
(*@ *)
  predicate call_digits (h: heapmap) (c: c_cluster) (x: seq int) = forall i [omap_get c.clu_discriminators i]. 0 <= i < clu_n c -> ddigits (clu_d h c i) x
(*@ *)
  predicate ctrained (h1 h2: heapmap) (c1 c2: c_cluster) (x: seq int) = csame_config c1 c2 /\ cprefix c1 c2 /\ call_digits h1 c1 x
     /\ (ctakes h1 c1 x (clu_n c1) -> clu_n c2 = clu_n c1 /\ cpolicy_n h1 h2 c1 x (clu_n c1))
     /\ (not (ctakes h1 c1 x (clu_n c1)) /\ croom c1 -> ckept h1 h2 c1 0 /\ cgrown h2 c1 c2 x)
     /\ (not (ctakes h1 c1 x (clu_n c1)) /\ not (croom c1) -> clu_n c2 = clu_n c1 /\ cbest_trained h1 h2 c1 x)
(*@ *)
  predicate coutput_n (h: heapmap) (c: c_cluster) (x: seq int) (out: seq (seq int)) (n:int) = forall i [out[i]]. 0 <= i < n -> ddigits (clu_d h c i) x /\ dvotes (clu_d h c i) x out[i] /\ out[i] = dballot (clu_d h c i) x
(*@ *)
  predicate cmental_n (h: heapmap) (c: c_cluster) (out: seq (seq int)) (n:int) = forall i [out[i]]. 0 <= i < n -> dmental (clu_d h c i) out[i]
