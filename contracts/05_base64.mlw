(* RFC 4648 base64 *)
(*@ *)
  function b64_chr (i:int) : int = if i < 26 then 65 + i else if i < 52 then 71 + i else if i < 62 then i - 4 else if i = 62 then 43 else 47
(* the upper and lower bits of a byte (a char: signed) *)
(*@ *)
  function hi6 (x:int) : int
  function lo2 (x:int) : int
  function hi4 (x:int) : int
  function lo4 (x:int) : int
  function hi2 (x:int) : int
  function lo6 (x:int) : int
  val ghost byte_def (x:int) : unit ensures { hi6 x = ED.div (ED.mod x 256) 4 } ensures { lo2 x = ED.mod (ED.mod x 256) 4 } ensures { hi4 x = ED.div (ED.mod x 256) 16 }
    ensures { lo4 x = ED.mod (ED.mod x 256) 16 } ensures { hi2 x = ED.div (ED.mod x 256) 64 } ensures { lo6 x = ED.mod (ED.mod x 256) 64 }
(*@ *)
  predicate byte_ranges (x:int) = 0 <= hi6 x < 64 /\ 0 <= lo2 x < 4 /\ 0 <= hi4 x < 16 /\ 0 <= lo4 x < 16 /\ 0 <= hi2 x < 4 /\ 0 <= lo6 x < 64
(*@ *)
  function byte_at (s: seq int) (i:int) : int = if 0 <= i < length s then s[i] else 0
(*@ *)
  function sextet (s: seq int) (q r:int) : int = if r = 0 then hi6 (byte_at s (3 * q))
    else if r = 1 then 16 * lo2 (byte_at s (3 * q)) + hi4 (byte_at s (3 * q + 1))
    else if r = 2 then 4 * lo4 (byte_at s (3 * q + 1)) + hi2 (byte_at s (3 * q + 2))
    else lo6 (byte_at s (3 * q + 2))
(*@ *)
  predicate b64_group (s t: seq int) (q:int)
  axiom b64_group_def : forall s t q [b64_group s t q]. b64_group s t q <->
    t[4 * q] = b64_chr (sextet s q 0) /\ t[4 * q + 1] = b64_chr (sextet s q 1)
    /\ t[4 * q + 2] = (if 3 * q + 1 < length s then b64_chr (sextet s q 2) else 61)
    /\ t[4 * q + 3] = (if 3 * q + 2 < length s then b64_chr (sextet s q 3) else 61)
(*@ ghost *)
  let ghost b64_frame (s t1 t2: seq int) (n:int)
    requires { forall j. 0 <= j < 4 * n -> t2[j] = t1[j] } requires { forall q. 0 <= q < n -> b64_group s t1 q }
    ensures { forall q. 0 <= q < n -> b64_group s t2 q }
(*proof*)
  = assert { forall q. 0 <= q < n -> b64_group s t2 q by t2[4 * q] = t1[4 * q] /\ t2[4 * q + 1] = t1[4 * q + 1] /\ t2[4 * q + 2] = t1[4 * q + 2] /\ t2[4 * q + 3] = t1[4 * q + 3] /\ b64_group s t1 q }
(*@ *)
  predicate is_b64 (s t: seq int) = length t = 4 * ED.div (length s + 2) 3 /\ (forall q. 0 <= q < ED.div (length s + 2) 3 -> b64_group s t q)
(* the map from characters to their values *)
(*@ *)
  predicate b64_map (m: umap int int) = forall i. 0 <= i < 64 -> umap_mem m (b64_chr i) /\ umap_get m (b64_chr i) = i
(*@ *)
  val constant b64_index : umap int int
  axiom b64_index_def : b64_map b64_index
(*@ *)
  predicate in_bytes (s: seq int) = forall i. 0 <= i < length s -> in_s8 s[i]
(*@ ghost *)
  let ghost enc_bits (x:int) requires { in_s8 x }
    ensures { byte_ranges x } ensures { msk (ED.div x 4) 64 1 = hi6 x } ensures { msk (x * 16) 64 16 = 16 * lo2 x } ensures { msk (ED.div x 16) 16 1 = hi4 x }
    ensures { msk (x * 4) 64 4 = 4 * lo4 x } ensures { msk (ED.div x 64) 4 1 = hi2 x } ensures { msk x 64 1 = lo6 x }
    ensures { mult 16 (16 * lo2 x) } ensures { mult 4 (4 * lo4 x) }
(*proof*)
  = byte_def x; msk_def (ED.div x 4) 64 1; msk_def (x * 16) 64 16; msk_def (ED.div x 16) 16 1; msk_def (x * 4) 64 4; msk_def (ED.div x 64) 4 1; msk_def x 64 1;
    mult_def 16 (pure { 16 * lo2 x }); mult_def 4 (pure { 4 * lo4 x })
(*@ ghost *)
  let ghost zero_bits () ensures { hi6 0 = 0 /\ lo2 0 = 0 /\ hi4 0 = 0 /\ lo4 0 = 0 /\ hi2 0 = 0 /\ lo6 0 = 0 }
(*proof*)
  = byte_def 0
(*@ ghost *)
  let ghost dec_bits (a:int) requires { 0 <= a < 64 }
    ensures { msk (a * 4) 256 4 = 4 * a /\ mult 4 (4 * a) } ensures { msk (ED.div a 16) 4 1 = ED.div a 16 }
    ensures { msk (a * 16) 256 16 = 16 * ED.mod a 16 /\ mult 16 (16 * ED.mod a 16) } ensures { msk (ED.div a 4) 16 1 = ED.div a 4 }
    ensures { msk (a * 64) 256 64 = 64 * ED.mod a 4 /\ mult 64 (64 * ED.mod a 4) } ensures { msk a 64 1 = a }
(*proof*)
  = msk_def (a * 4) 256 4; msk_def (ED.div a 16) 4 1; msk_def (a * 16) 256 16; msk_def (ED.div a 4) 16 1; msk_def (a * 64) 256 64; msk_def a 64 1;
    mult_def 4 (4 * a); mult_def 16 (16 * ED.mod a 16); mult_def 64 (64 * ED.mod a 4)
(*@ ghost *)
  let ghost dec_bytes (x y:int) requires { in_s8 x /\ in_s8 y }
    ensures { byte_ranges x /\ byte_ranges y } ensures { ED.div (16 * lo2 x + hi4 y) 16 = lo2 x /\ ED.mod (16 * lo2 x + hi4 y) 16 = hi4 y }
    ensures { ED.div (4 * lo4 x + hi2 y) 4 = lo4 x /\ ED.mod (4 * lo4 x + hi2 y) 4 = hi2 y }
    ensures { to_s8 (4 * hi6 x + lo2 x) = x } ensures { to_s8 (16 * hi4 x + lo4 x) = x } ensures { to_s8 (64 * hi2 x + lo6 x) = x }
(*proof*)
  = byte_def x; byte_def y
(*@ *)
  function b64_val (t: seq int) (i:int) : int = umap_get_or0 b64_index t[i]
(*@ ghost *)
  let ghost b64_inv (i:int) requires { 0 <= i < 64 } ensures { b64_chr i <> 61 } ensures { umap_get_or0 b64_index (b64_chr i) = i }
(*proof*)
  = ()
(*@ ghost *)
  let ghost b64_size (s t: seq int) requires { is_b64 s t } requires { length t > 0 } requires { in_bytes s }
    ensures { let n = length t in length s = 3 * ED.div n 4 - (if t[n - 2] = 61 then 2 else if t[n - 1] = 61 then 1 else 0) }
(*proof*)
  = let q = pure { ED.div (length s + 2) 3 - 1 } in
    assert { b64_group s t q };
    zero_bits ();
    if pure { 3 * q + 1 < length s } then begin
      enc_bits (pure { s[3 * q + 1] });
      if pure { 3 * q + 2 < length s } then begin enc_bits (pure { s[3 * q + 2] }); b64_inv (pure { sextet s q 3 }) end;
      assert { 0 <= sextet s q 2 < 64 };
      b64_inv (pure { sextet s q 2 })
    end
(*@ ghost *)
  let ghost b64_dec (s t: seq int) (q:int) requires { is_b64 s t } requires { in_bytes s } requires { 0 <= q } requires { 4 * q < length t }
    ensures { 3 * q < length s } ensures { 0 <= b64_val t (4 * q) < 64 } ensures { 0 <= b64_val t (4 * q + 1) < 64 }
    ensures { 0 <= ED.div (b64_val t (4 * q + 1)) 16 < 4 }
    ensures { to_s8 (4 * b64_val t (4 * q) + ED.div (b64_val t (4 * q + 1)) 16) = s[3 * q] }
    ensures { t[4 * q + 2] = 61 <-> 3 * q + 1 >= length s }
    ensures { 3 * q + 1 < length s -> 0 <= b64_val t (4 * q + 2) < 64 /\ 0 <= ED.div (b64_val t (4 * q + 2)) 4 < 16
       /\ to_s8 (16 * ED.mod (b64_val t (4 * q + 1)) 16 + ED.div (b64_val t (4 * q + 2)) 4) = s[3 * q + 1] }
    ensures { 3 * q + 1 < length s -> (t[4 * q + 3] = 61 <-> 3 * q + 2 >= length s) }
    ensures { 3 * q + 2 < length s -> 0 <= b64_val t (4 * q + 3) < 64
       /\ to_s8 (64 * ED.mod (b64_val t (4 * q + 2)) 4 + b64_val t (4 * q + 3)) = s[3 * q + 2] }
(*proof*)
  = assert { b64_group s t q };
    let x0 = pure { s[3 * q] } in
    let x1 = pure { byte_at s (3 * q + 1) } in
    let x2 = pure { byte_at s (3 * q + 2) } in
    assert { 3 * q < length s };
    assert { in_s8 x0 /\ in_s8 x1 /\ in_s8 x2 };
    dec_bytes x0 x1; dec_bytes x1 x2; dec_bytes x2 x0;
    assert { sextet s q 0 = hi6 x0 /\ sextet s q 1 = 16 * lo2 x0 + hi4 x1 /\ sextet s q 2 = 4 * lo4 x1 + hi2 x2 /\ sextet s q 3 = lo6 x2 };
    b64_inv (pure { sextet s q 0 }); b64_inv (pure { sextet s q 1 }); b64_inv (pure { sextet s q 2 }); b64_inv (pure { sextet s q 3 });
    assert { b64_val t (4 * q) = hi6 x0 };
    assert { b64_val t (4 * q + 1) = 16 * lo2 x0 + hi4 x1 };
    assert { 3 * q + 1 < length s -> b64_val t (4 * q + 2) = 4 * lo4 x1 + hi2 x2 };
    assert { 3 * q + 2 < length s -> b64_val t (4 * q + 3) = lo6 x2 }
(* a text that decodes to bytes, if there is one *)
(*@ *)
  function b64_src (t: seq int) : seq int
  axiom b64_src_def : forall s t. in_bytes s /\ is_b64 s t -> in_bytes (b64_src t) /\ is_b64 (b64_src t) t
(*@ *)
  predicate b64_valid (t: seq int) = in_bytes (b64_src t) /\ is_b64 (b64_src t) t
(* the bytes the decoder writes *)
(*@ ghost *)
  let ghost b64_step (s t: seq int) (q:int) requires { is_b64 s t } requires { in_bytes s } requires { 0 <= q } requires { 4 * q < length t }
    ensures { let v0 = b64_val t (4 * q) in let v1 = b64_val t (4 * q + 1) in 0 <= v0 < 64 /\ 0 <= v1 < 64 /\ to_s8 (bor (msk (v0 * 4) 256 4) (msk (ED.div v1 16) 4 1)) = s[3 * q] }
    ensures { t[4 * q + 2] = 61 <-> 3 * q + 1 >= length s }
    ensures { let v1 = b64_val t (4 * q + 1) in let v2 = b64_val t (4 * q + 2) in 3 * q + 1 < length s -> 0 <= v2 < 64 /\ to_s8 (bor (msk (v1 * 16) 256 16) (msk (ED.div v2 4) 16 1)) = s[3 * q + 1] }
    ensures { 3 * q + 1 < length s -> (t[4 * q + 3] = 61 <-> 3 * q + 2 >= length s) }
    ensures { let v2 = b64_val t (4 * q + 2) in let v3 = b64_val t (4 * q + 3) in 3 * q + 2 < length s -> 0 <= v3 < 64 /\ to_s8 (bor (msk (v2 * 64) 256 64) (msk v3 64 1)) = s[3 * q + 2] }
(*proof*)
  = b64_dec s t q;
    let v0 = pure { b64_val t (4 * q) } in let v1 = pure { b64_val t (4 * q + 1) } in let v2 = pure { b64_val t (4 * q + 2) } in let v3 = pure { b64_val t (4 * q + 3) } in
    dec_bits v0; dec_bits v1;
    assert { bor (msk (v0 * 4) 256 4) (msk (ED.div v1 16) 4 1) = 4 * v0 + ED.div v1 16 };
    if pure { 3 * q + 1 < length s } then begin
      dec_bits v2;
      assert { bor (msk (v1 * 16) 256 16) (msk (ED.div v2 4) 16 1) = 16 * ED.mod v1 16 + ED.div v2 4 };
      if pure { 3 * q + 2 < length s } then begin
        dec_bits v3;
        assert { bor (msk (v2 * 64) 256 64) (msk v3 64 1) = 64 * ED.mod v2 4 + v3 }
      end
    end
(*@ ghost *)
  let ghost b64_uniq (s t: seq int) requires { in_bytes s /\ is_b64 s t } ensures { b64_valid t } ensures { s == b64_src t }
(*proof*)
  = let g = pure { b64_src t } in
    if pure { length t > 0 } then begin
      b64_size s t; b64_size g t;
      assert { length s = length g };
      let lemma atq (q:int) : unit requires { 0 <= q /\ 4 * q < length t }
        ensures { s[3 * q] = g[3 * q] } ensures { 3 * q + 1 < length s -> s[3 * q + 1] = g[3 * q + 1] } ensures { 3 * q + 2 < length s -> s[3 * q + 2] = g[3 * q + 2] }
        = b64_dec s t q; b64_dec g t q in
      let lemma each (j:int) : unit requires { 0 <= j < length s } ensures { s[j] = g[j] }
        = let q = pure { ED.div j 3 } in assert { j = 3 * q \/ j = 3 * q + 1 \/ j = 3 * q + 2 }; assert { 4 * q < length t }; atq q in
      assert { forall j. 0 <= j < length s -> s[j] = g[j] }
    end else begin assert { length s = 0 }; assert { length g = 0 } end
(*@ ghost *)
  let ghost b64_uniq_all (t: seq int) ensures { forall s [is_b64 s t]. in_bytes s /\ is_b64 s t -> b64_valid t /\ s == b64_src t }
(*proof*)
  = let lemma l (s: seq int) : unit requires { in_bytes s /\ is_b64 s t } ensures { b64_valid t /\ s == b64_src t } = b64_uniq s t in ()
