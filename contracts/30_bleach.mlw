(* Bleaching: degrees at a threshold, the search for the first threshold that separates the classes, the winner *)
(*@ *)
  function deg (v: seq int) (b n:int) : int
  axiom deg_0 : forall v b n. n <= 0 -> deg v b n = 0
  axiom deg_s : forall v b n. n > 0 -> deg v b n = deg v b (n - 1) + (if v[n - 1] >= b then 1 else 0)
(*@ *)
  function degc (m: omap (seq int) (seq int)) (k: seq int) (b:int) : int = deg (omap_get m k) b (length (omap_get m k))
(*@ lemma deg *)
  let rec lemma deg_bounds (v: seq int) (b n:int) : unit requires { 0 <= n } variant { n } ensures { 0 <= deg v b n <= n }
(*proof*)
  = if n > 0 then deg_bounds v b (n - 1)
(*@ lemma deg *)
  let rec lemma deg_pos (v: seq int) (b n:int) : unit requires { 0 <= n } requires { deg v b n > 0 } variant { n } ensures { exists j. 0 <= j < n /\ v[j] >= b }
(*proof*)
  = if n > 0 then if v[n - 1] < b then deg_pos v b (n - 1)
(* the degrees of the classes at threshold b *)
(*@ *)
  predicate degrees_at (m: omap (seq int) (seq int)) (b:int) (d: omap (seq int) int) =
    forall k. (omap_mem d k <-> omap_mem m k) /\ (omap_mem m k -> omap_get d k = degc m k b)
(* two classes have degrees that differ by less than the confidence, one of them the largest degree *)
(*@ *)
  predicate close_top (d: omap (seq int) int) (conf:int) = exists k l. omap_mem d k /\ omap_mem d l /\ k <> l
     /\ (forall x. omap_mem d x -> omap_get d x <= omap_get d k) /\ omap_get d k - omap_get d l < conf
(*@ *)
  predicate some_above_1 (d: omap (seq int) int) = exists k. omap_mem d k /\ omap_get d k > 1
(*@ *)
  predicate undecided (m: omap (seq int) (seq int)) (b conf:int) = exists d: omap (seq int) int. degrees_at m b d /\ close_top d conf /\ some_above_1 d
(*@ *)
  predicate same_degrees (d1 d2: omap (seq int) int) = forall k. (omap_mem d1 k <-> omap_mem d2 k) /\ (omap_mem d1 k -> omap_get d1 k = omap_get d2 k)
(*@ lemma *)
  let lemma same_close (d1 d2: omap (seq int) int) (conf:int) requires { same_degrees d1 d2 } requires { close_top d1 conf } ensures { close_top d2 conf }
(*proof*)
  = ()
(*@ lemma undecided *)
  let lemma undecided_at (m: omap (seq int) (seq int)) (b conf:int) (d: omap (seq int) int) requires { degrees_at m b d }
    ensures { undecided m b conf <-> (close_top d conf /\ some_above_1 d) }
(*proof*)
  = assert { forall e. degrees_at m b e -> same_degrees e d /\ same_degrees d e };
    assert { forall e. degrees_at m b e /\ close_top e conf /\ some_above_1 e -> close_top d conf /\ some_above_1 d }
(* the degrees Bleaching gives *)
(*@ *)
  predicate bleached (m: omap (seq int) (seq int)) (act:bool) (conf:int) (d: omap (seq int) int) =
    exists b. 1 <= b /\ degrees_at m b d /\ (if act then not (close_top d conf /\ some_above_1 d) /\ (forall c. 1 <= c < b -> undecided m c conf) else b = 1)
(*@ *)
  predicate votes_fit (m: omap (seq int) (seq int)) = forall k j. omap_mem m k /\ 0 <= j < length (omap_get m k) -> (omap_get m k)[j] < 2147483646
(* seen: among the first n keys *)
(*@ *)
  predicate seen (d: omap (seq int) 'v) (k: seq int) (n:int) = omap_mem d k /\ omap_pos d k < n
(*@ *)
  predicate close_top_n (d: omap (seq int) int) (conf n:int) = exists k l. seen d k n /\ seen d l n /\ k <> l
     /\ (forall x. seen d x n -> omap_get d x <= omap_get d k) /\ omap_get d k - omap_get d l < conf
(*@ *)
  predicate is_max_n (d: omap (seq int) int) (n big:int) = big >= 0 /\ (forall k. seen d k n -> omap_get d k <= big) /\ (n <= 0 -> big = 0) /\ (n > 0 -> exists k. seen d k n /\ omap_get d k = big)
(*@ *)
  predicate degrees (d: omap (seq int) int) = forall k. omap_mem d k -> omap_get d k >= 0
(* the winner: the last of the keys with the largest degree *)
(*@ *)
  predicate winner_n (d: omap (seq int) int) (n big:int) (w: seq int) = (n <= 0 -> length w = 0 /\ big = 0) /\
    (n > 0 -> seen d w n /\ omap_get d w = big /\ forall k. seen d k n -> omap_get d k < big \/ (omap_get d k = big /\ (k = w \/ omap_pos d k < omap_pos d w)))
(*@ *)
  predicate winner (d: omap (seq int) int) (w: seq int) = (length (omap_keys d) = 0 -> length w = 0) /\
    (length (omap_keys d) > 0 -> omap_mem d w /\ (forall k. omap_mem d k -> omap_get d k <= omap_get d w) /\ (forall k. omap_mem d k /\ omap_get d k = omap_get d w -> k = w \/ klt k w))
(*@ ghost *)
  let ghost seen_step (d: omap (seq int) 'v) (n:int) requires { 0 <= n < length (omap_keys d) }
    ensures { seen d (omap_keys d)[n] (n + 1) } ensures { not (seen d (omap_keys d)[n] n) }
    ensures { forall k [seen d k n | seen d k (n + 1)]. seen d k (n + 1) <-> (seen d k n \/ k = (omap_keys d)[n]) }
    ensures { n > 0 -> seen d (omap_keys d)[0] n }
(*proof*)
  = assert { forall k. omap_mem d k /\ omap_pos d k = n -> k = (omap_keys d)[n] }
(*@ ghost *)
  let ghost undecided_fit (m: omap (seq int) (seq int)) (b conf:int) requires { votes_fit m } requires { undecided m b conf } ensures { b < 2147483646 }
(*proof*)
  = assert { exists d: omap (seq int) int. degrees_at m b d /\ some_above_1 d };
    assert { exists k. omap_mem m k /\ degc m k b > 0 };
    assert { exists k j. omap_mem m k /\ 0 <= j < length (omap_get m k) /\ (omap_get m k)[j] >= b }

(*@ ghost *)
  let ghost ambiguity_step (d: omap (seq int) int) (conf n big:int) (amb:bool) (big1:int) (amb1:bool) requires { 0 <= n < length (omap_keys d) }
    requires { is_max_n d n big } requires { big >= 1 -> (amb <-> close_top_n d conf n) } requires { degrees d }
    requires { let v = omap_get d (omap_keys d)[n] in if v > big then big1 = v /\ (amb1 <-> n > 0 /\ v - big < conf) else big1 = big /\ (big >= 1 -> (amb1 <-> amb \/ big - v < conf)) }
    ensures { is_max_n d (n + 1) big1 } ensures { big1 >= 1 -> (amb1 <-> close_top_n d conf (n + 1)) }
(*proof*)
  = seen_step d n;
    let k0 = pure { (omap_keys d)[n] } in
    let v = pure { omap_get d k0 } in
    assert { seen d k0 (n + 1) };
    assert { is_max_n d (n + 1) big1 };
    if v > big then begin
      assert { n > 0 -> exists k. seen d k (n + 1) /\ k <> k0 /\ omap_get d k = big };
      assert { amb1 -> close_top_n d conf (n + 1) };
      assert { forall k. seen d k (n + 1) /\ omap_get d k >= v -> k = k0 };
      assert { forall k l. seen d k (n + 1) /\ seen d l (n + 1) /\ k <> l /\ (forall x. seen d x (n + 1) -> omap_get d x <= omap_get d k) /\ omap_get d k - omap_get d l < conf -> k = k0 /\ seen d l n /\ amb1 };
    end else if big >= 1 then begin
      assert { n > 0 };
      assert { exists k. seen d k n /\ omap_get d k = big };
      assert { big - v < conf -> close_top_n d conf (n + 1) };
      assert { amb -> close_top_n d conf (n + 1) };
      assert { forall k l. seen d k (n + 1) /\ seen d l (n + 1) /\ k <> l /\ (forall x. seen d x (n + 1) -> omap_get d x <= omap_get d k) /\ omap_get d k - omap_get d l < conf ->
         omap_get d k = big && (amb1 by (if l = k0 then big - v < conf else if k = k0 then v = big /\ big - v < conf else close_top_n d conf n)) }
    end

(* the largest degree below the best one (0 if there is none), as a float *)
(*@ *)
  predicate second_n (d: omap (seq int) int) (n best:int) (s:fl) = (s = fl_of_int32 0 /\ (forall k. seen d k n -> omap_get d k <= 0 \/ omap_get d k >= best)) \/
     (exists k. seen d k n /\ 0 < omap_get d k < best /\ s = fl_of_int32 (omap_get d k) /\ (forall x. seen d x n /\ omap_get d x < best -> fl_rk (fl_of_int32 (omap_get d x)) <= fl_rk s))
