(*@ *)
  predicate kc_before (x y: seq fl) = fl_lt x[1] y[1]
(*@ *)
  val vsort_kc_before (s: seq (seq fl)) : seq (seq fl)
    requires { [@expl:the elements can be compared] forall i [s[i]]. 0 <= i < length s -> length s[i] = 2 }
    requires { [@expl:the comparison is a strict weak order] (forall i [s[i]]. 0 <= i < length s -> not (fl_nan s[i][1])) \/ (forall i [s[i]]. 0 <= i < length s -> fl_nan s[i][1]) }
    ensures { permuted s result }
    ensures { forall i j [result[i], result[j]]. 0 <= i < j < length s -> not (kc_before result[j] result[i]) }
(*@ *)
  predicate kc_ok (k: c_kernelcanvas) = 1 <= length k.kc_kernels /\ 1 <= k.kc_dim /\ 1 <= k.kc_bitsByKernel
    /\ 0 <= k.kc_numberOfKernelsToActivate <= length k.kc_kernels
    /\ (k.kc_useDirection -> k.kc_dim <= 238609294 /\ k.kc_amplifyDim = 3 * k.kc_dim - 2)
    /\ (forall i [k.kc_kernels[i]]. 0 <= i < length k.kc_kernels -> length k.kc_kernels[i] = (if k.kc_useDirection then 3 * k.kc_amplifyDim else k.kc_dim))
    /\ (forall i d [k.kc_kernels[i][d]]. 0 <= i < length k.kc_kernels -> 0 <= d < length k.kc_kernels[i] -> not (fl_nan k.kc_kernels[i][d]) /\ not (fl_inf k.kc_kernels[i][d]))
(* how many kernels a point activates *)
(*@ *)
  function kc_active_number (degree: fl) (n:int) : int =
    if fl_lt (fl_round (fl_mul32 degree (fl_of_int32 n))) (fl_of_int n) then fl_to_int (fl_round (fl_mul32 degree (fl_of_int32 n))) else n
(*@ *)
  let lemma kc_active_fits (degree: fl) (n:int)
    requires { fl_le (fl_of_int 0) degree /\ fl_le degree (fl_of_int 1) /\ 1 <= n <= 2147483647 }
    ensures { 0 <= kc_active_number degree n <= n }
(*proof*)
  = let r = fl_round (fl_mul32 degree (fl_of_int32 n)) in
    assert { fl_le (fl_of_int 0) (fl_mul32 degree (fl_of_int32 n)) };
    assert { not (fl_nan r) /\ fl_rk r >= fl_rk (fl_of_int 0) };
    assert { 0 <= fl_to_int r /\ fl_rk (fl_of_int (fl_to_int r)) <= fl_rk r };
    assert { fl_to_int r > n -> fl_rk (fl_of_int n) <= fl_rk (fl_of_int (fl_to_int r)) }
(*@ *)
  predicate kc_sizes (data: seq (seq fl)) (n:int) = forall i [data[i]]. 0 <= i < length data -> length data[i] = n
(* sums over the first n points *)
(*@ *)
  function kc_msum (data: seq (seq fl)) (j n:int) : fl
  axiom kc_msum_0 : forall data j. kc_msum data j 0 = fl_of_int 0
  axiom kc_msum_s : forall data j n [kc_msum data j (n + 1)]. 0 <= n -> kc_msum data j (n + 1) = fl_add (kc_msum data j n) data[n][j]
(*@ *)
  function kc_mean (data: seq (seq fl)) (j:int) : fl = fl_div (kc_msum data j (length data)) (fl_of_int (length data))
(*@ *)
  function kc_diff (x y:fl) : fl = fl_mul (fl_sub x y) (fl_sub x y)
(*@ *)
  function kc_vsum (m: fl) (data: seq (seq fl)) (j n:int) : fl
  axiom kc_vsum_0 : forall m data j. kc_vsum m data j 0 = fl_of_int 0
  axiom kc_vsum_s : forall m data j n [kc_vsum m data j (n + 1)]. 0 <= n -> kc_vsum m data j (n + 1) = fl_add (kc_vsum m data j n) (kc_diff m data[n][j])
(*@ *)
  function kc_std (m: fl) (data: seq (seq fl)) (j:int) : fl = fl_sqrt (fl_div (kc_vsum m data j (length data)) (fl_of_int (length data)))
(* the point of position t without direction *)
(*@ *)
  predicate kc_norm (data: seq (seq fl)) (means stds: seq fl) (t dim:int) (p: seq fl) =
    forall j [p[j]]. 0 <= j < dim -> p[j] = fl_tanh (fl_div (fl_sub means[j] data[t][j]) stds[j])
(* the place of the point that place j of a kernel is compared with *)
(*@ *)
  predicate kc_thirds (ix: seq int) = length ix = 3 /\ forall k [ix[k]]. 0 <= k < 3 -> 0 <= ix[k] <= 2
(*@ *)
  function kc_place (k: c_kernelcanvas) (ix: seq int) (j:int) : int =
    if k.kc_useDirection then ix[if j >= k.kc_amplifyDim then 1 else 0] * k.kc_amplifyDim + ED.mod j k.kc_amplifyDim else j
(*@ *)
  function kc_sum (k: c_kernelcanvas) (p: seq fl) (ix: seq int) (i n:int) : fl
  axiom kc_sum_0 : forall k p ix i. kc_sum k p ix i 0 = fl_of_int 0
  axiom kc_sum_s : forall k p ix i n [kc_sum k p ix i (n + 1)]. 0 <= n -> kc_sum k p ix i (n + 1) = fl_add (kc_sum k p ix i n) (kc_diff p[kc_place k ix n] k.kc_kernels[i][n])
(*@ *)
  function kc_used (k: c_kernelcanvas) : int = if k.kc_useDirection then 3 * k.kc_amplifyDim else k.kc_dim
(* the distance of kernel i from the point *)
(*@ *)
  function kc_dist (k: c_kernelcanvas) (p: seq fl) (ix: seq int) (i:int) : fl = fl_sqrt (kc_sum k p ix i (kc_used k))
(*@ *)
  predicate kc_nanpoint (k: c_kernelcanvas) (p: seq fl) (ix: seq int) (n:int) = exists j. 0 <= j < n /\ fl_nan p[kc_place k ix j]
(*@ *)
  let lemma kc_sum_nan (k: c_kernelcanvas) (p: seq fl) (ix: seq int) (i n:int)
    requires { kc_ok k /\ 0 <= i < length k.kc_kernels /\ 0 <= n < kc_used k }
    requires { kc_nanpoint k p ix n -> fl_nan (kc_sum k p ix i n) }
    requires { not (kc_nanpoint k p ix n) -> fl_pos (kc_sum k p ix i n) }
    ensures { kc_sum k p ix i (n + 1) = fl_add (kc_sum k p ix i n) (kc_diff p[kc_place k ix n] k.kc_kernels[i][n]) }
    ensures { kc_nanpoint k p ix (n + 1) <-> (kc_nanpoint k p ix n \/ fl_nan p[kc_place k ix n]) }
    ensures { kc_nanpoint k p ix (n + 1) -> fl_nan (kc_sum k p ix i (n + 1)) }
    ensures { not (kc_nanpoint k p ix (n + 1)) -> fl_pos (kc_sum k p ix i (n + 1)) }
(*proof*)
  = assert { not (fl_nan k.kc_kernels[i][n]) /\ not (fl_inf k.kc_kernels[i][n]) };
    assert { kc_sum k p ix i (n + 1) = fl_add (kc_sum k p ix i n) (kc_diff p[kc_place k ix n] k.kc_kernels[i][n]) };
    assert { fl_nan (kc_diff p[kc_place k ix n] k.kc_kernels[i][n]) <-> fl_nan p[kc_place k ix n] };
    assert { fl_nan (kc_diff p[kc_place k ix n] k.kc_kernels[i][n]) \/ fl_pos (kc_diff p[kc_place k ix n] k.kc_kernels[i][n]) }
(* distances as the code keeps them: the number of the kernel and its distance *)
(*@ *)
  predicate kc_table (k: c_kernelcanvas) (p: seq fl) (ix: seq int) (ds: seq (seq fl)) (n:int) =
    forall i [ds[i]]. 0 <= i < n -> length ds[i] = 2 /\ ds[i][0] = fl_of_int i /\ ds[i][1] = kc_dist k p ix i
(*@ *)
  predicate kc_comparable (ds: seq (seq fl)) = (forall i [ds[i]]. 0 <= i < length ds -> not (fl_nan ds[i][1])) \/ (forall i [ds[i]]. 0 <= i < length ds -> fl_nan ds[i][1])
(* an order of the kernels by their distance *)
(*@ *)
  predicate kc_order (ds: seq (seq fl)) (o: seq int) = length o = length ds
    /\ (forall i [o[i]]. 0 <= i < length o -> 0 <= o[i] < length o) /\ (forall i j [o[i], o[j]]. 0 <= i < j < length o -> o[i] <> o[j])
    /\ (forall i j [o[i], o[j]]. 0 <= i < j < length o -> not (fl_lt ds[o[j]][1] ds[o[i]][1]))
(*@ *)
  predicate kc_among (o: seq int) (n g:int) = exists i. 0 <= i < n /\ o[i] = g
(*@ *)
  let lemma kc_groups (b:int) requires { b > 0 }
    ensures { forall p [ED.div p b]. ED.div p b * b <= p < ED.div p b * b + b }
    ensures { forall g k. 0 <= k < b -> ED.div (g * b + k) b = g }
(*proof*)
  = assert { forall p. p = b * ED.div p b + ED.mod p b /\ 0 <= ED.mod p b < b };
    assert { forall g k. 0 <= k < b -> ED.div (g * b + k) b = g
      by let q = ED.div (g * b + k) b in (q * b <= g * b + k < q * b + b) /\ not (q < g by q < g -> q + 1 <= g && (q + 1) * b <= g * b) /\ not (q > g by q > g -> q >= g + 1 && q * b >= (g + 1) * b) }
(*@ *)
  predicate kc_part (p g b n:int) = ED.div p b = g /\ p < g * b + n
(*@ *)
  let lemma kc_group_start (g b: int) requires { b > 0 } ensures { ED.div (g * b) b = g } ensures { forall p. not (kc_part p g b 0) } ensures { forall p. kc_part p g b b <-> ED.div p b = g }
(*proof*)
  = kc_groups b; assert { g * b = g * b + 0 }
(*@ *)
  let lemma kc_part_step (g b k: int) requires { 0 <= k < b } ensures { ED.div (g * b + k) b = g } ensures { forall p. kc_part p g b (k + 1) <-> (p = g * b + k \/ kc_part p g b k) }
(*proof*)
  = kc_groups b;
    assert { forall p. kc_part p g b (k + 1) -> p = g * b + k \/ kc_part p g b k by ED.div p b = g /\ p < g * b + k + 1 };
    assert { kc_part (g * b + k) g b (k + 1) };
    assert { forall p. kc_part p g b k -> kc_part p g b (k + 1) }
(* the kernels at the places of the sorted table *)
(*@ *)
  function kc_orderof (ds: seq (seq fl)) : seq int
  axiom kc_orderof_len : forall ds. length (kc_orderof ds) = length ds
  axiom kc_orderof_at : forall ds i [(kc_orderof ds)[i]]. 0 <= i < length ds -> (kc_orderof ds)[i] = fl_to_int ds[i][0]
(*@ *)
  predicate kc_tagged (ds: seq (seq fl)) = forall i [ds[i]]. 0 <= i < length ds -> length ds[i] = 2 /\ ds[i][0] = fl_of_int i
(*@ *)
  let lemma kc_sorted (ds r: seq (seq fl))
    requires { kc_tagged ds /\ permuted ds r /\ length ds < 2147483648 }
    requires { forall i j [r[i], r[j]]. 0 <= i < j < length ds -> not (kc_before r[j] r[i]) }
    ensures { kc_order ds (kc_orderof r) }
    ensures { forall i [r[i]]. 0 <= i < length r -> length r[i] = 2 /\ r[i][0] = fl_of_int (kc_orderof r)[i] }
(*proof*)
  = assert { forall i [r[i]]. 0 <= i < length r -> r[i][0] = fl_of_int (perm_f ds r i) /\ 0 <= perm_f ds r i < length ds };
    assert { forall i [r[i]]. 0 <= i < length r -> (kc_orderof r)[i] = perm_f ds r i };
    assert { forall i j [(kc_orderof r)[i], (kc_orderof r)[j]]. 0 <= i < j < length r -> (kc_orderof r)[i] <> (kc_orderof r)[j]
      by perm_b ds r (perm_f ds r i) = i /\ perm_b ds r (perm_f ds r j) = j };
    assert { forall i [(kc_orderof r)[i]]. 0 <= i < length r -> ds[(kc_orderof r)[i]] = r[i] }
(* equal bits within the groups *)
(*@ *)
  predicate kc_grouped (out: seq int) (b:int) = forall i j [out[i], out[j]]. 0 <= i < length out -> 0 <= j < length out -> ED.div i b = ED.div j b -> out[i] = out[j]
(*@ *)
  predicate kc_marked (a out: seq int) (b:int) (o: seq int) (n:int) = length out = length a
    /\ forall p [out[p]]. 0 <= p < length out -> out[p] = (if kc_among o n (ED.div p b) then 1 else a[p])
(*@ *)
  let lemma kc_marked_step (a out out2: seq int) (b:int) (o: seq int) (n:int)
    requires { b > 0 /\ 0 <= n < length o /\ kc_marked a out b o n /\ length out2 = length out }
    requires { forall p [out2[p]]. 0 <= p < length out -> out2[p] = (if ED.div p b = o[n] then 1 else out[p]) }
    ensures { kc_marked a out2 b o (n + 1) }
(*proof*)
  = assert { forall g. kc_among o (n + 1) g <-> (kc_among o n g \/ g = o[n]) }
(*@ *)
  let lemma kc_marked_grouped (a out: seq int) (b:int) (o: seq int) (n:int)
    requires { kc_marked a out b o n /\ kc_grouped a b } ensures { kc_grouped out b }
(*proof*)
  = ()
(*@ *)
  let lemma kc_thirds_fit (k: c_kernelcanvas) (x:int) requires { kc_ok k /\ k.kc_useDirection /\ 0 <= x <= 2 }
    ensures { imul x k.kc_amplifyDim = x * k.kc_amplifyDim } ensures { 0 <= x * k.kc_amplifyDim <= 2 * k.kc_amplifyDim }
(*proof*)
  = assert { x = 0 \/ x = 1 \/ x = 2 }
(* position t of the sequence: its point, and the kernels in the order of their distance from it *)
(*@ *)
  predicate kc_ranked (k: c_kernelcanvas) (p: seq fl) (ix o: seq int) = length o = length k.kc_kernels
    /\ (forall i [o[i]]. 0 <= i < length o -> 0 <= o[i] < length o) /\ (forall i j [o[i], o[j]]. 0 <= i < j < length o -> o[i] <> o[j])
    /\ (forall i j [o[i], o[j]]. 0 <= i < j < length o -> not (fl_lt (kc_dist k p ix o[j]) (kc_dist k p ix o[i])))
(*@ *)
  predicate kc_step (k: c_kernelcanvas) (data: seq (seq fl)) (p: seq fl) (ix o: seq int) (t:int) =
    length p = kc_used k /\ kc_thirds ix /\ kc_ranked k p ix o
    /\ (not k.kc_useDirection -> forall j [p[j]]. 0 <= j < k.kc_dim -> p[j] = fl_tanh (fl_div (fl_sub (kc_mean data j) data[t][j]) (kc_std (kc_mean data j) data j)))
(*@ *)
  predicate kc_touched (go: seq (seq int)) (n a g:int) = exists t. 0 <= t < n /\ kc_among go[t] a g
(*@ *)
  predicate kc_drawn (k: c_kernelcanvas) (data: seq (seq fl)) (gp: seq (seq fl)) (gx go: seq (seq int)) (out: seq int) (n:int) =
    length gp = n /\ length gx = n /\ length go = n /\ (forall t [gp[t] | gx[t] | go[t]]. 0 <= t < n -> kc_step k data gp[t] gx[t] go[t] t)
    /\ forall i [out[i]]. 0 <= i < length out -> out[i] = (if kc_touched go n k.kc_numberOfKernelsToActivate (ED.div i k.kc_bitsByKernel) then 1 else 0)
(*@ *)
  predicate kc_canvas (k: c_kernelcanvas) (data: seq (seq fl)) (out: seq int) = exists gp gx go. kc_drawn k data gp gx go out (length data)
(*@ *)
  let ghost kc_canvas_is (k: c_kernelcanvas) (data: seq (seq fl)) (out: seq int) (gp: seq (seq fl)) (gx go: seq (seq int))
    requires { kc_drawn k data gp gx go out (length data) } ensures { kc_canvas k data out } ensures { forall i [out[i]]. 0 <= i < length out -> 0 <= out[i] <= 1 }
(*proof*)
  = ()
(*@ *)
  let ghost kc_drawn_step (k: c_kernelcanvas) (data: seq (seq fl)) (means stds: seq fl) (gp: seq (seq fl)) (gx go: seq (seq int)) (a out: seq int) (p: seq fl) (ix: seq int) (o: seq int) (ds: seq (seq fl)) (n:int)
    requires { kc_ok k /\ 0 <= n < length data /\ kc_drawn k data gp gx go a n /\ kc_marked a out k.kc_bitsByKernel o k.kc_numberOfKernelsToActivate }
    requires { length p = kc_used k /\ kc_thirds ix /\ length ds = length k.kc_kernels /\ kc_table k p ix ds (length ds) /\ kc_order ds o }
    requires { not k.kc_useDirection -> kc_norm data means stds n k.kc_dim p }
    requires { forall j. 0 <= j < k.kc_dim -> means[j] = kc_mean data j } requires { forall j. 0 <= j < k.kc_dim -> stds[j] = kc_std means[j] data j }
    ensures { kc_drawn k data (snoc gp p) (snoc gx ix) (snoc go o) out (n + 1) }
(*proof*)
  = let gp2 = pure { snoc gp p } in let gx2 = pure { snoc gx ix } in let go2 = pure { snoc go o } in
    assert { kc_ranked k p ix o by forall i [o[i]]. 0 <= i < length o -> ds[o[i]][1] = kc_dist k p ix o[i] };
    assert { kc_step k data p ix o n };
    assert { forall t. 0 <= t < n -> gp2[t] = gp[t] /\ gx2[t] = gx[t] /\ go2[t] = go[t] };
    assert { forall g. kc_touched go2 (n + 1) k.kc_numberOfKernelsToActivate g <-> (kc_touched go n k.kc_numberOfKernelsToActivate g \/ kc_among o k.kc_numberOfKernelsToActivate g)
      by (forall t. 0 <= t < n -> kc_among go[t] k.kc_numberOfKernelsToActivate g -> kc_among go2[t] k.kc_numberOfKernelsToActivate g) /\ (kc_among o k.kc_numberOfKernelsToActivate g -> kc_among go2[n] k.kc_numberOfKernelsToActivate g)
         /\ (forall t. 0 <= t < n + 1 -> kc_among go2[t] k.kc_numberOfKernelsToActivate g -> if t = n then kc_among o k.kc_numberOfKernelsToActivate g else kc_among go[t] k.kc_numberOfKernelsToActivate g) }
(* the activation degree of the options *)
(*@ *)
  function kc_degree (c: json) : fl = jopt_f32 c str_activationDegree (fl_round32 fl_lit_0_07)
