(* Discriminator *)
(*@ *)
  predicate disc_ok (d: c_discriminator) = forall i [d.disc_rams[i]]. 0 <= i < length d.disc_rams -> ram_ok d.disc_rams[i] /\ within d.disc_rams[i].ram_addresses d.disc_entrySize
     /\ d.disc_rams[i].ram_base = d.disc_rams[0].ram_base /\ d.disc_rams[i].ram_ignoreZero = d.disc_rams[0].ram_ignoreZero
(*@ *)
  predicate ddigits_n (d: c_discriminator) (v: seq int) (n:int) = forall i [d.disc_rams[i]]. 0 <= i < n -> digits d.disc_rams[i] v
(*@ *)
  predicate ddigits (d: c_discriminator) (v: seq int) = length v = d.disc_entrySize /\ ddigits_n d v (length d.disc_rams)
(* one more training of each ram *)
(*@ *)
  predicate dtrained_n (r1 r2: seq c_ram) (v: seq int) (n:int) = forall i [r2[i]]. 0 <= i < n -> digits r1[i] v /\ trained r1[i] r2[i] v
(*@ *)
  predicate dtrained (d1 d2: c_discriminator) (v: seq int) = d2.disc_entrySize = d1.disc_entrySize /\ d2.disc_count = d1.disc_count + 1
     /\ length d2.disc_rams = length d1.disc_rams /\ dtrained_n d1.disc_rams d2.disc_rams v (length d1.disc_rams)
(* training that ends with an exception: which RAMs have the input already *)
(*@ *)
  predicate dpartial (d1 d2: c_discriminator) (v: seq int) = (length v <> d1.disc_entrySize /\ d2 = d1)
     \/ (length v = d1.disc_entrySize = d2.disc_entrySize /\ d2.disc_count = d1.disc_count + 1 /\ length d2.disc_rams = length d1.disc_rams
         /\ exists f. 0 <= f < length d1.disc_rams /\ not (digits d1.disc_rams[f] v) /\ dtrained_n d1.disc_rams d2.disc_rams v f /\ forall i [d2.disc_rams[i]]. f <= i < length d2.disc_rams -> d2.disc_rams[i] = d1.disc_rams[i])
(*@ *)
  predicate duntrained_n (r1 r2: seq c_ram) (v: seq int) (n:int) = forall i [r2[i]]. 0 <= i < n -> digits r1[i] v /\ untrained r1[i] r2[i] v
(*@ *)
  predicate duntrained (d1 d2: c_discriminator) (v: seq int) = d2.disc_entrySize = d1.disc_entrySize /\ d2.disc_count = d1.disc_count - 1
     /\ length d2.disc_rams = length d1.disc_rams /\ duntrained_n d1.disc_rams d2.disc_rams v (length d1.disc_rams)
(* the settings and the mapping are the same *)
(*@ *)
  predicate dsame_config (d1 d2: c_discriminator) = d2.disc_entrySize = d1.disc_entrySize /\ length d2.disc_rams = length d1.disc_rams
     /\ forall i [d2.disc_rams[i]]. 0 <= i < length d1.disc_rams -> same_config d1.disc_rams[i] d2.disc_rams[i]
(*@ *)
  predicate dvotes_n (d: c_discriminator) (v w: seq int) (n:int) = forall i [w[i]]. 0 <= i < n -> w[i] = rvote d.disc_rams[i] v
(*@ *)
  predicate dvotes (d: c_discriminator) (v w: seq int) = length w = length d.disc_rams /\ dvotes_n d v w (length d.disc_rams)
(* the list of votes of a discriminator *)
(*@ *)
  function dballot (d: c_discriminator) (x: seq int) : seq int
  axiom dballot_len : forall d x. length (dballot d x) = length d.disc_rams
  axiom dballot_get : forall d x i [(dballot d x)[i]]. 0 <= i < length d.disc_rams -> (dballot d x)[i] = rvote d.disc_rams[i] x
(*@ ghost *)
  let ghost dballot_is (d: c_discriminator) (x w: seq int) requires { dvotes d x w } ensures { w = dballot d x }
(*proof*)
  = assert { w == dballot d x }
(* the contents are those of the history h of trainings *)
(*@ *)
  predicate dcounts (d: c_discriminator) (h: seq (seq int)) = d.disc_count = length h /\ forall i [d.disc_rams[i]]. 0 <= i < length d.disc_rams -> counts d.disc_rams[i] h
(*@ ghost *)
  let ghost dcounts_train_all (d1 d2: c_discriminator) (x: seq int)
    requires { disc_ok d1 } requires { dtrained d1 d2 x }
    ensures { forall h. dcounts d1 h -> dcounts d2 (snoc h x) }
(*proof*)
  = let lemma one (i:int) (h: seq (seq int)) : unit requires { 0 <= i < length d1.disc_rams } requires { counts d1.disc_rams[i] h } ensures { counts d2.disc_rams[i] (snoc h x) }
      = assert { digits d1.disc_rams[i] x /\ trained d1.disc_rams[i] d2.disc_rams[i] x }; assert { ram_ok d1.disc_rams[i] }; counts_train (pure { d1.disc_rams[i] }) (pure { d2.disc_rams[i] }) h x in
    assert { forall h. dcounts d1 h -> forall i. 0 <= i < length d2.disc_rams -> counts d1.disc_rams[i] h }
(*@ ghost *)
  let ghost dcounts_vote_all (d: c_discriminator) (x: seq int)
    requires { disc_ok d } requires { ddigits d x }
    ensures { forall h i. dcounts d h -> 0 <= i < length d.disc_rams -> rvote d.disc_rams[i] x = cvote d.disc_rams[i] h x }
(*proof*)
  = let lemma one (i:int) (h: seq (seq int)) : unit requires { 0 <= i < length d.disc_rams } requires { counts d.disc_rams[i] h } ensures { rvote d.disc_rams[i] x = cvote d.disc_rams[i] h x }
      = counts_vote_all (pure { d.disc_rams[i] }) x in ()
(* training and then untraining gives back every vote and the number of trainings *)
(*@ ghost *)
  let lemma untrain_train (d1 d2 d3: c_discriminator) (x: seq int)
    requires { disc_ok d1 } requires { dtrained d1 d2 x } requires { duntrained d2 d3 x }
    ensures { d3.disc_count = d1.disc_count } ensures { dsame_config d1 d3 }
    ensures { forall i k. 0 <= i < length d1.disc_rams -> content d3.disc_rams[i].ram_positions k = content d1.disc_rams[i].ram_positions k }
    ensures { forall v w. dvotes d1 v w <-> dvotes d3 v w }
(*proof*)
  = let lemma one (i k:int) : unit requires { 0 <= i < length d1.disc_rams }
      ensures { content d3.disc_rams[i].ram_positions k = content d1.disc_rams[i].ram_positions k }
      = assert { trained d1.disc_rams[i] d2.disc_rams[i] x }; assert { untrained d2.disc_rams[i] d3.disc_rams[i] x }; () in
    let lemma two (i:int) (v: seq int) : unit requires { 0 <= i < length d1.disc_rams } ensures { rvote d3.disc_rams[i] v = rvote d1.disc_rams[i] v }
      = () in
    assert { forall i. 0 <= i < length d1.disc_rams -> same_config d1.disc_rams[i] d3.disc_rams[i] };
    assert { forall v w. dvotes d1 v w -> dvotes d3 v w };
    assert { forall v w. dvotes d3 v w -> dvotes d1 v w }
(* untraining an input no ram knows changes no vote *)
(*@ ghost *)
  let lemma untrain_unknown (d1 d2: c_discriminator) (x: seq int)
    requires { duntrained d1 d2 x } requires { forall i. 0 <= i < length d1.disc_rams -> not (umap_mem d1.disc_rams[i].ram_positions (raddr d1.disc_rams[i] x)) }
    ensures { forall v w. dvotes d1 v w <-> dvotes d2 v w }
(*proof*)
  = let lemma one (i:int) (v: seq int) : unit requires { 0 <= i < length d1.disc_rams } ensures { rvote d2.disc_rams[i] v = rvote d1.disc_rams[i] v }
      = assert { untrained d1.disc_rams[i] d2.disc_rams[i] x } in
    assert { forall v w. dvotes d1 v w -> dvotes d2 v w };
    assert { forall v w. dvotes d2 v w -> dvotes d1 v w }
(* mappings *)
(*@ *)
  predicate in_entry (a: seq int) (n:int) = forall j. 0 <= j < length a -> 0 <= a[j] < n
(*@ *)
  predicate distinct (a: seq int) = forall i j. 0 <= i < j < length a -> a[i] <> a[j]
(*@ *)
  predicate disc_new (d: c_discriminator) (entry base:int) (iz:bool) = d.disc_entrySize = entry /\ d.disc_count = 0
     /\ forall i [d.disc_rams[i]]. 0 <= i < length d.disc_rams -> d.disc_rams[i].ram_base = base /\ d.disc_rams[i].ram_ignoreZero = iz /\ (forall k. not (umap_mem d.disc_rams[i].ram_positions k))
(*@ *)
  predicate disc_untrained (d: c_discriminator) = d.disc_count = 0 /\ forall i k [umap_mem d.disc_rams[i].ram_positions k]. 0 <= i < length d.disc_rams -> not (umap_mem d.disc_rams[i].ram_positions k)
(* ram number i has the positions s[i*n .. (i+1)*n[ *)
(*@ *)
  predicate cut_n (d: c_discriminator) (s: seq int) (n m:int) = forall i [d.disc_rams[i]]. 0 <= i < m -> length d.disc_rams[i].ram_addresses = n
     /\ forall j. 0 <= j < n -> d.disc_rams[i].ram_addresses[j] = s[i * n + j]
(*@ *)
  predicate cut (d: c_discriminator) (s: seq int) (n:int) = cut_n d s n (length d.disc_rams)
(*@ ghost *)
  let ghost cut_fits (i m n l:int) requires { 0 <= i < m } requires { n >= 1 } requires { m * n <= l }
    ensures { 0 <= i * n } ensures { i * n + n <= l } ensures { (i + 1) * n = i * n + n } ensures { (i + 1) * n <= l }
(*proof*)
  = assert { (i + 1) * n <= m * n }
(*@ ghost *)
  let ghost cut_step (d1 d2: c_discriminator) (s: seq int) (n m:int) requires { 0 <= m < length d1.disc_rams } requires { n >= 1 } requires { 0 <= m * n } requires { m * n + n <= length s } requires { cut_n d1 s n m }
    requires { forall i. 0 <= i < m -> d2.disc_rams[i] = d1.disc_rams[i] } requires { d2.disc_rams[m].ram_addresses = s[m * n .. m * n + n] }
    ensures { cut_n d2 s n (m + 1) }
(*proof*)
  = assert { length d2.disc_rams[m].ram_addresses = n }; assert { forall j. 0 <= j < n -> d2.disc_rams[m].ram_addresses[j] = s[m * n + j] };
    assert { forall i. 0 <= i < m -> length d2.disc_rams[i].ram_addresses = n /\ forall j. 0 <= j < n -> d2.disc_rams[i].ram_addresses[j] = s[i * n + j] }
(* every position of the entry is used (the complete addressing) *)
(*@ *)
  predicate in_some (d: c_discriminator) (n p:int) = exists i j. 0 <= i < length d.disc_rams /\ 0 <= j < n /\ d.disc_rams[i].ram_addresses[j] = p
(*@ *)
  predicate covers (d: c_discriminator) (n:int) = forall p. 0 <= p < d.disc_entrySize -> in_some d n p
(* the cut of a permutation-like list covers: every position of the list falls in one ram *)
(*@ ghost *)
  let ghost cut_index (n m k:int) : (int, int) requires { n >= 1 } requires { 0 <= k < m * n }
    returns { (i, j) -> 0 <= i < m /\ 0 <= j < n /\ k = i * n + j }
(*proof*)
  = let i = ED.div k n in let j = ED.mod k n in assert { k = n * i + j }; assert { i < m by not (i >= m) by i >= m -> n * i >= n * m }; (i, j)
(*@ *)
  predicate shuffled_ids (r: seq int) (e:int) = exists s: seq int [permuted s r]. permuted s r /\ e <= length s /\ forall p [s[p]]. 0 <= p < e -> s[p] = p
(*@ ghost *)
  let ghost cut_covers (d: c_discriminator) (r: seq int) (n:int) requires { n >= 1 } requires { cut_n d r n (length d.disc_rams) } requires { length d.disc_rams * n >= length r }
    requires { shuffled_ids r d.disc_entrySize }
    ensures { covers d n }
(*proof*)
  = let lemma one (k:int) : unit requires { 0 <= k < length r }
      ensures { in_some d n r[k] }
      = let (i, j) = cut_index n (length d.disc_rams) k in assert { d.disc_rams[i].ram_addresses[j] = r[i * n + j] } in
    let lemma two (s: seq int) (p:int) : unit requires { permuted s r } requires { forall p. 0 <= p < d.disc_entrySize -> s[p] = p } requires { d.disc_entrySize <= length s } requires { 0 <= p < d.disc_entrySize }
      ensures { in_some d n p }
      = assert { s[p] = p }; one (perm_b s r p) in
    ()
(* no position is used twice *)
(*@ *)
  predicate nodup (d: c_discriminator) (n:int) = forall i j k l. 0 <= i < length d.disc_rams /\ 0 <= k < length d.disc_rams /\ 0 <= j < n /\ 0 <= l < n /\ (i <> k \/ j <> l) ->
     d.disc_rams[i].ram_addresses[j] <> d.disc_rams[k].ram_addresses[l]
(*@ ghost *)
  let ghost cut_nodup (d: c_discriminator) (r: seq int) (n:int) requires { n >= 1 } requires { cut_n d r n (length d.disc_rams) } requires { length d.disc_rams * n <= length r }
    requires { length r = d.disc_entrySize } requires { shuffled_ids r d.disc_entrySize }
    ensures { nodup d n }
(*proof*)
  = let lemma dis (s: seq int) : unit requires { permuted s r } requires { forall p [s[p]]. 0 <= p < d.disc_entrySize -> s[p] = p } requires { d.disc_entrySize <= length s }
      ensures { forall a b [r[a], r[b]]. 0 <= a < length r /\ 0 <= b < length r /\ a <> b -> r[a] <> r[b] }
      = assert { forall a [r[a]]. 0 <= a < length r -> r[a] = perm_f s r a /\ perm_b s r (perm_f s r a) = a } in
    assert { forall a b [r[a], r[b]]. 0 <= a < length r /\ 0 <= b < length r /\ a <> b -> r[a] <> r[b] };
    let lemma two (i j k l:int) : unit requires { 0 <= i < length d.disc_rams /\ 0 <= k < length d.disc_rams /\ 0 <= j < n /\ 0 <= l < n /\ (i <> k \/ j <> l) }
      ensures { d.disc_rams[i].ram_addresses[j] <> d.disc_rams[k].ram_addresses[l] }
      = cut_fits i (length d.disc_rams) n (length r); cut_fits k (length d.disc_rams) n (length r);
        assert { i < k -> (i + 1) * n <= k * n by (k - i - 1) * n >= 0 }; assert { k < i -> (k + 1) * n <= i * n by (i - k - 1) * n >= 0 };
        assert { i * n + j <> k * n + l };
        assert { 0 <= i * n + j < length r /\ 0 <= k * n + l < length r };
        assert { d.disc_rams[i].ram_addresses[j] = r[i * n + j] }; assert { d.disc_rams[k].ram_addresses[l] = r[k * n + l] } in
    ()
(*@ ghost *)
  let ghost ddigits_config (d1 d2: c_discriminator) requires { dsame_config d1 d2 } ensures { forall v. ddigits d1 v <-> ddigits d2 v }
(*proof*)
  = assert { forall v. ddigits d1 v -> ddigits d2 v }; assert { forall v. ddigits d2 v -> ddigits d1 v }
(*@ ghost *)
  let ghost snoc_cut (s: seq (seq int)) (i:int) requires { 0 <= i < length s } ensures { forall h. snoc (h ++ s[0 .. i]) s[i] == h ++ s[0 .. i + 1] }
(*proof*)
  = ()
(* mental image: what the first n places of ram r add to position p, and the first n rams *)
(*@ *)
  function rsum (r: c_ram) (p n:int) : int
  axiom rsum_0 : forall r p n. n <= 0 -> rsum r p n = 0
  axiom rsum_s : forall r p n. n > 0 -> rsum r p n = rsum r p (n - 1) + (if r.ram_addresses[n - 1] = p then mass r.ram_positions r.ram_base (n - 1) (length (umap_keys r.ram_positions)) else 0)
(*@ *)
  function dsum (rs: seq c_ram) (p n:int) : int
  axiom dsum_0 : forall rs p n. n <= 0 -> dsum rs p n = 0
  axiom dsum_s : forall rs p n. n > 0 -> dsum rs p n = dsum rs p (n - 1) + rsum rs[n - 1] p (length rs[n - 1].ram_addresses)
(*@ *)
  predicate dmental (d: c_discriminator) (m: seq int) = length m = d.disc_entrySize /\ forall p. 0 <= p < length m -> m[p] = dsum d.disc_rams p (length d.disc_rams)
(* a new discriminator as the options say: the mapping given, the indexes given, or a random one *)
(*@ *)
  predicate dmade (d: c_discriminator) (a n: int) (o: json) = disc_new d n (jopt_int o str_base 2) (jopt_bool o str_ignoreZero False) /\
    (if length (jopt_vvi o str_mapping) <> 0 then length d.disc_rams = length (jopt_vvi o str_mapping) /\ (forall i. 0 <= i < length d.disc_rams -> d.disc_rams[i].ram_addresses = (jopt_vvi o str_mapping)[i])
     else if length (jopt_vi o str_indexes) <> 0 then length d.disc_rams = ED.div n a /\ cut d (jopt_vi o str_indexes) a
     else length d.disc_rams = ED.div n a + (if jopt_bool o str_completeAddressing True /\ ED.mod n a > 0 then 1 else 0)
       /\ (forall i. 0 <= i < length d.disc_rams -> length d.disc_rams[i].ram_addresses = a) /\ (jopt_bool o str_completeAddressing True -> covers d a) /\ (not (jopt_bool o str_completeAddressing True) \/ ED.mod n a = 0 -> nodup d a))
(* options that are rejected *)
(*@ *)
  predicate dwrong (a n: int) (o: json) = jbad o \/ jbad_bool o str_ignoreZero \/ jbad_bool o str_completeAddressing \/ jbad_vi o str_indexes \/ jbad_vvi o str_mapping \/ jbad_int o str_base \/ jopt_int o str_base 2 < 2 \/
    (if length (jopt_vvi o str_mapping) <> 0 then exists i. 0 <= i < length (jopt_vvi o str_mapping) /\ not (in_entry (jopt_vvi o str_mapping)[i] n)
     else a < 2 \/ n < 2 \/ n < a
       \/ (length (jopt_vi o str_indexes) <> 0 /\ (length (jopt_vi o str_indexes) <> n \/ not (in_entry (jopt_vi o str_indexes) n) \/ not (distinct (jopt_vi o str_indexes)))))
(*@ *)
  predicate dunmade (a n: int) (o: json) = dwrong a n o \/
    (if length (jopt_vvi o str_mapping) <> 0 then exists i. 0 <= i < length (jopt_vvi o str_mapping) /\ pow (jopt_int o str_base 2) (length (jopt_vvi o str_mapping)[i]) > 18446744073709551616
     else pow (jopt_int o str_base 2) a > 18446744073709551616 \/ (length (jopt_vi o str_indexes) = 0 /\ n + a > 2147483647))
(* all RAMs have the settings given *)
(*@ *)
  predicate disc_as (d: c_discriminator) (iz: bool) (base: int) = disc_ok d /\ forall i [d.disc_rams[i]]. 0 <= i < length d.disc_rams -> d.disc_rams[i].ram_ignoreZero = iz /\ d.disc_rams[i].ram_base = base
(*@ ghost *)
  let ghost as_trained () ensures { forall d d2 v iz b [dtrained d d2 v, disc_as d iz b]. disc_as d iz b /\ dtrained d d2 v -> disc_as d2 iz b }
    ensures { forall d d2 v iz b [dpartial d d2 v, disc_as d iz b]. disc_as d iz b /\ dpartial d d2 v -> disc_as d2 iz b }
(*proof*)
  = let lemma l (d d2: c_discriminator) (v: seq int) (iz: bool) (b: int) : unit requires { disc_as d iz b /\ dtrained d d2 v } ensures { disc_as d2 iz b }
      = assert { forall i [d2.disc_rams[i]]. 0 <= i < length d2.disc_rams -> same_config d.disc_rams[i] d2.disc_rams[i] by trained d.disc_rams[i] d2.disc_rams[i] v } in
    let lemma g (d d2: c_discriminator) (v: seq int) (iz: bool) (b: int) : unit requires { disc_as d iz b /\ dpartial d d2 v } ensures { disc_as d2 iz b }
      = assert { length d2.disc_rams = length d.disc_rams }; assert { forall i [d2.disc_rams[i]]. 0 <= i < length d2.disc_rams -> same_config d.disc_rams[i] d2.disc_rams[i] by trained d.disc_rams[i] d2.disc_rams[i] v \/ d2.disc_rams[i] = d.disc_rams[i] } in ()
