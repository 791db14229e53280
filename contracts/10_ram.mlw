(* RAM: addresses and contents *)
(*@ *)
  function pow (b n:int) : int
  axiom pow_0 : forall b n. n <= 0 -> pow b n = 1
(*@ *)
  val ghost pow_s (b n:int) : unit requires { n > 0 } ensures { pow b n = b * pow b (n - 1) }
(*@ ghost *)
  let rec lemma pow_pos (b n:int) requires { b >= 1 } ensures { pow b n >= 1 } variant { n }
(*proof*)
  = if n > 0 then begin pow_pos b (n - 1); pow_s b n end
(*@ ghost *)
  let rec lemma pow_mono (b m n:int) requires { b >= 1 /\ m <= n } ensures { pow b m <= pow b n } variant { n - m }
(*proof*)
  = pow_pos b n; if n > m && n > 0 then begin pow_mono b m (n - 1); pow_pos b (n - 1); pow_s b n end

(* the address: sum of the values at the mapped positions times the powers of the base *)
(*@ *)
  function addr (a: seq int) (b:int) (v: seq int) (n:int) : int
  axiom addr_0 : forall a b v n. n <= 0 -> addr a b v n = 0
(*@ *)
  val ghost addr_s (a: seq int) (b:int) (v: seq int) (n:int) : unit requires { n > 0 } ensures { addr a b v n = addr a b v (n - 1) + v[a[n - 1]] * pow b (n - 1) }
(*@ *)
  predicate digits_n (a: seq int) (b:int) (v: seq int) (n:int) = forall j. 0 <= j < n -> 0 <= v[a[j]] < b
(*@ *)
  predicate same_n (a: seq int) (v w: seq int) (n:int) = forall j. 0 <= j < n -> v[a[j]] = w[a[j]]
(*@ *)
  predicate zero_n (a: seq int) (v: seq int) (n:int) = forall j. 0 <= j < n -> v[a[j]] = 0
(*@ ghost *)
  let rec lemma addr_bound (a: seq int) (b:int) (v: seq int) (n:int)
    requires { b >= 1 } requires { digits_n a b v n }
    ensures { 0 <= addr a b v n < pow b n } variant { n }
(*proof*)
  = if n > 0 then begin
      addr_bound a b v (n - 1); pow_pos b (n - 1); pow_s b n; addr_s a b v n;
      assert { v[a[n - 1]] * pow b (n - 1) <= (b - 1) * pow b (n - 1) };
      assert { 0 <= v[a[n - 1]] * pow b (n - 1) }
    end
(*@ ghost *)
  let rec lemma addr_mono (a: seq int) (b:int) (v: seq int) (m n:int)
    requires { b >= 1 } requires { digits_n a b v n } requires { m <= n }
    ensures { addr a b v m <= addr a b v n } variant { n - m }
(*proof*)
  = if n > m && n > 0 then begin addr_mono a b v m (n - 1); pow_pos b (n - 1); addr_s a b v n end
(* different values at a mapped position give different addresses *)
(*@ ghost *)
  let rec lemma addr_inj (a: seq int) (b:int) (v w: seq int) (n:int)
    requires { b >= 1 } requires { digits_n a b v n /\ digits_n a b w n }
    ensures { addr a b v n = addr a b w n <-> same_n a v w n } variant { n }
(*proof*)
  = if n > 0 then begin
      addr_inj a b v w (n - 1); addr_bound a b v (n - 1); addr_bound a b w (n - 1); pow_pos b (n - 1); addr_s a b v n; addr_s a b w n;
      if addr a b v n = addr a b w n then begin
        assert { (v[a[n - 1]] - w[a[n - 1]]) * pow b (n - 1) = addr a b w (n - 1) - addr a b v (n - 1) };
        assert { v[a[n - 1]] > w[a[n - 1]] -> (v[a[n - 1]] - w[a[n - 1]]) * pow b (n - 1) >= pow b (n - 1) };
        assert { v[a[n - 1]] < w[a[n - 1]] -> (w[a[n - 1]] - v[a[n - 1]]) * pow b (n - 1) >= pow b (n - 1) };
        assert { v[a[n - 1]] = w[a[n - 1]] };
        assert { addr a b v (n - 1) = addr a b w (n - 1) };
      end else begin
        if pure { same_n a v w n } then begin
          assert { same_n a v w (n - 1) };
          assert { v[a[n - 1]] = w[a[n - 1]] };
          assert { false }
        end
      end
    end
(*@ ghost *)
  let rec lemma addr_zero (a: seq int) (b:int) (v: seq int) (n:int)
    requires { b >= 1 } requires { digits_n a b v n }
    ensures { addr a b v n = 0 <-> zero_n a v n } variant { n }
(*proof*)
  = if n > 0 then begin
      addr_zero a b v (n - 1); addr_bound a b v (n - 1); pow_pos b (n - 1); addr_s a b v n;
      assert { v[a[n - 1]] > 0 -> v[a[n - 1]] * pow b (n - 1) >= pow b (n - 1) };
      assert { v[a[n - 1]] = 0 -> v[a[n - 1]] * pow b (n - 1) = 0 };
    end

(*@ *)
  predicate ram_ok (r: c_ram) = r.ram_base >= 2 /\ pow r.ram_base (length r.ram_addresses) <= 18446744073709551616
(* the mapped positions are positions of an input of size sz *)
(*@ *)
  predicate within (a: seq int) (sz:int) = forall j. 0 <= j < length a -> 0 <= a[j] < sz
(*@ *)
  predicate digits (r: c_ram) (v: seq int) = digits_n r.ram_addresses r.ram_base v (length r.ram_addresses)
(*@ *)
  function raddr (r: c_ram) (v: seq int) : int = addr r.ram_addresses r.ram_base v (length r.ram_addresses)
(*@ *)
  function content (m: umap int int) (k:int) : int = if umap_mem m k then umap_get m k else 0
(*@ *)
  function rvote (r: c_ram) (v: seq int) : int = if r.ram_ignoreZero /\ raddr r v = 0 then 0 else content r.ram_positions (raddr r v)
(*@ *)
  predicate same_map (m1 m2: umap int int) = forall k. (umap_mem m1 k <-> umap_mem m2 k) /\ (umap_mem m1 k -> umap_get m1 k = umap_get m2 k)
(*@ *)
  predicate bump (m1 m2: umap int int) (k:int) = umap_mem m2 k /\ umap_get m2 k = content m1 k + 1
    /\ forall x. x <> k -> (umap_mem m2 x <-> umap_mem m1 x) /\ umap_get m2 x = umap_get m1 x
(*@ *)
  predicate unbump (m1 m2: umap int int) (k:int) = (umap_mem m1 k -> umap_get m2 k = umap_get m1 k - 1)
    /\ forall x. (umap_mem m2 x <-> umap_mem m1 x) /\ (x <> k -> umap_get m2 x = umap_get m1 x)
(*@ *)
  predicate same_config (r1 r2: c_ram) = r1.ram_addresses = r2.ram_addresses /\ r1.ram_base = r2.ram_base /\ r1.ram_ignoreZero = r2.ram_ignoreZero
(*@ *)
  predicate trained (r1 r2: c_ram) (v: seq int) = same_config r1 r2 /\ bump r1.ram_positions r2.ram_positions (raddr r1 v)
(*@ *)
  predicate untrained (r1 r2: c_ram) (v: seq int) = same_config r1 r2 /\ unbump r1.ram_positions r2.ram_positions (raddr r1 v)
(*@ *)
  predicate same_votes (r1 r2: c_ram) = same_config r1 r2 /\ forall k. content r1.ram_positions k = content r2.ram_positions k

(* histories: number of the first n inputs of h that have the values of v at the mapped positions *)
(*@ *)
  function occ (a: seq int) (h: seq (seq int)) (v: seq int) (n:int) : int
  axiom occ_0 : forall a h v n. n <= 0 -> occ a h v n = 0
  axiom occ_s : forall a h v n. n > 0 -> occ a h v n = occ a h v (n - 1) + (if same_n a h[n - 1] v (length a) then 1 else 0)
(* the vote the history h gives *)
(*@ *)
  function cvote (r: c_ram) (h: seq (seq int)) (v: seq int) : int = if r.ram_ignoreZero /\ zero_n r.ram_addresses v (length r.ram_addresses) then 0 else occ r.ram_addresses h v (length h)
(*@ ghost *)
  let rec lemma occ_pos (a: seq int) (h: seq (seq int)) (v: seq int) (n:int)
    ensures { occ a h v n >= 0 } variant { n }
(*proof*)
  = if n > 0 then occ_pos a h v (n - 1)
(*@ ghost *)
  let rec lemma occ_ext (a: seq int) (h g: seq (seq int)) (v: seq int) (n:int)
    requires { forall i. 0 <= i < n -> h[i] = g[i] }
    ensures { occ a h v n = occ a g v n } variant { n }
(*proof*)
  = if n > 0 then occ_ext a h g v (n - 1)
(* the contents of a ram are those of the history h of its trainings *)
(*@ *)
  predicate counts (r: c_ram) (h: seq (seq int)) =
    (forall i. 0 <= i < length h -> digits r h[i])
    /\ (forall v. digits r v -> content r.ram_positions (raddr r v) = occ r.ram_addresses h v (length h))
    /\ (forall v. digits r v -> (umap_mem r.ram_positions (raddr r v) <-> occ r.ram_addresses h v (length h) > 0))
(*@ ghost *)
  let lemma counts_train (r1 r2: c_ram) (h: seq (seq int)) (x: seq int)
    requires { ram_ok r1 } requires { digits r1 x } requires { trained r1 r2 x } requires { counts r1 h }
    ensures { counts r2 (snoc h x) }
(*proof*)
  = let n = length h in
    let a = r1.ram_addresses in
    let ghost k = length a in
    let lemma inj (v: seq int) : unit
      requires { digits r1 v } ensures { raddr r1 v = raddr r1 x <-> same_n a x v k }
      = addr_inj a r1.ram_base v x k in
    let lemma ext (v: seq int) : unit
      ensures { occ a (snoc h x) v (n + 1) = occ a h v n + (if same_n a x v k then 1 else 0) } ensures { occ a h v n >= 0 }
      = occ_ext a h (snoc h x) v n; occ_pos a h v n in
    assert { forall i. 0 <= i < n + 1 -> digits r2 (snoc h x)[i] };
    assert { forall v. digits r2 v -> content r2.ram_positions (raddr r2 v) = content r1.ram_positions (raddr r1 v) + (if same_n a x v k then 1 else 0) }

(*@ ghost *)
  let ghost counts_train_all (r1 r2: c_ram) (x: seq int)
    requires { ram_ok r1 } requires { digits r1 x } requires { trained r1 r2 x }
    ensures { forall h. counts r1 h -> counts r2 (snoc h x) }
(*proof*)
  = let lemma l (h: seq (seq int)) : unit requires { counts r1 h } ensures { counts r2 (snoc h x) } = counts_train r1 r2 h x in ()
(*@ ghost *)
  let ghost counts_vote_all (r: c_ram) (x: seq int)
    requires { ram_ok r } requires { digits r x }
    ensures { raddr r x = 0 <-> zero_n r.ram_addresses x (length r.ram_addresses) }
    ensures { forall h. counts r h -> content r.ram_positions (raddr r x) = occ r.ram_addresses h x (length h) }
    ensures { forall h. counts r h -> rvote r x = cvote r h x }
(*proof*)
  = addr_zero r.ram_addresses r.ram_base x (pure { length r.ram_addresses })
(* mental image of a ram: digit i of an address, and the sum over the first n addresses in iteration order *)
(*@ *)
  function digit (b k i:int) : int = ED.mod (ED.div k (pow b i)) b
(*@ *)
  function mass (m: umap int int) (b i n:int) : int
  axiom mass_0 : forall m b i n. n <= 0 -> mass m b i n = 0
  axiom mass_s : forall m b i n. n > 0 -> mass m b i n = mass m b i (n - 1)
     + (let k = (umap_keys m)[n - 1] in if k <> 0 /\ digit b k i > 0 then umap_get m k else 0)
(*@ ghost *)
  let lemma div_div (n p b:int) requires { n >= 0 /\ p > 0 /\ b > 0 } ensures { ED.div (ED.div n p) b = ED.div n (b * p) }
(*proof*)
  = let q = ED.div n p in let r = ED.mod n p in let q2 = ED.div q b in let r2 = ED.mod q b in
    assert { n = p * q + r /\ 0 <= r < p }; assert { q = b * q2 + r2 /\ 0 <= r2 < b };
    assert { n = (b * p) * q2 + (p * r2 + r) };
    assert { 0 <= p * r2 <= p * (b - 1) };
    assert { p * (b - 1) = b * p - p };
    assert { 0 <= p * r2 + r < b * p };
    assert { b * p > 0 };
    let q3 = pure { ED.div n (b * p) } in
    let r3 = pure { ED.mod n (b * p) } in
    assert { n = (b * p) * q3 + r3 /\ 0 <= r3 < b * p };
    assert { (b * p) * (q3 - q2) = p * r2 + r - r3 };
    assert { q3 > q2 -> (b * p) * (q3 - q2) >= b * p };
    assert { q3 < q2 -> (b * p) * (q2 - q3) >= b * p };
    assert { q3 = q2 }
