(* the texts of RAM contents (RAMDataHandle): per RAM the Base64 of blocks of 8 bytes of address and 4 bytes of value, the RAMs separated by dots *)
(*@ *)
  predicate ram_wt (m: umap int int) = forall k [umap_mem m k]. umap_mem m k -> in_u64 k /\ in_s32 (umap_get m k)
(*@ *)
  predicate ram_same (a b: umap int int) = forall k. (umap_mem a k <-> umap_mem b k) /\ (umap_mem a k -> umap_get a k = umap_get b k)
(*@ *)
  predicate ram_block (m: umap int int) (s: seq int) (i:int)
  axiom ram_block_def : forall m s i [ram_block m s i]. ram_block m s i <-> s[12 * i .. 12 * i + 8] = enc_u64 (umap_keys m)[i] /\ s[12 * i + 8 .. 12 * i + 12] = enc_s32 (umap_get m (umap_keys m)[i])
(*@ ghost *)
  let ghost ram_frame (m: umap int int) (s1 s2: seq int) (n:int)
    requires { 0 <= n } requires { length s1 >= 12 * n /\ length s2 >= 12 * n } requires { forall j. 0 <= j < 12 * n -> s2[j] = s1[j] } requires { forall i. 0 <= i < n -> ram_block m s1 i }
    ensures { forall i. 0 <= i < n -> ram_block m s2 i }
(*proof*)
  = let lemma l (i:int) : unit requires { 0 <= i < n } ensures { ram_block m s2 i }
      = assert { 0 <= 12 * i /\ 12 * i + 12 <= 12 * n }; assert { ram_block m s1 i };
        assert { s2[12 * i .. 12 * i + 8] == s1[12 * i .. 12 * i + 8] }; assert { s2[12 * i + 8 .. 12 * i + 12] == s1[12 * i + 8 .. 12 * i + 12] } in ()
(*@ *)
  predicate is_ram_bytes (m: umap int int) (s: seq int) = length s = 12 * length (umap_keys m) /\ forall i. 0 <= i < length (umap_keys m) -> ram_block m s i
(*@ *)
  predicate ram_text (m: umap int int) (t: seq int) = b64_valid t /\ is_ram_bytes m (b64_src t)
(*@ *)
  predicate umap_upd (a b: umap int int) (k v:int) = (forall x. umap_mem b x <-> umap_mem a x \/ x = k) /\ umap_get b k = v /\ (forall x. x <> k -> umap_get b x = umap_get a x)
(* what the first n blocks give *)
(*@ *)
  predicate ram_part (m r: umap int int) (n:int) = (forall j. 0 <= j < n -> umap_mem r (umap_keys m)[j] /\ umap_get r (umap_keys m)[j] = umap_get m (umap_keys m)[j])
    /\ (forall k. umap_mem r k -> umap_mem m k /\ umap_pos m k < n)
(*@ ghost *)
  let ghost ram_part_step (m r r2: umap int int) (s: seq int) (i a v:int)
    requires { ram_part m r i } requires { 0 <= i < length (umap_keys m) } requires { ram_wt m } requires { ram_block m s i } requires { a = dec_u64 s[12 * i .. 12 * i + 8] /\ v = dec_s32 s[12 * i + 8 .. 12 * i + 12] }
    requires { umap_upd r r2 a v } ensures { ram_part m r2 (i + 1) }
(*proof*)
  = assert { umap_mem m (umap_keys m)[i] }; assert { in_u64 (umap_keys m)[i] /\ in_s32 (umap_get m (umap_keys m)[i]) };
    assert { a = (umap_keys m)[i] }; assert { v = umap_get m (umap_keys m)[i] }; assert { umap_pos m a = i };
    assert { forall j. 0 <= j < i -> (umap_keys m)[j] <> a by umap_pos m (umap_keys m)[j] = j }
(*@ ghost *)
  let ghost ram_part_all (r r2: umap int int) (t: seq int) (i a v:int)
    requires { 0 <= i } requires { a = dec_u64 (b64_src t)[12 * i .. 12 * i + 8] /\ v = dec_s32 (b64_src t)[12 * i + 8 .. 12 * i + 12] } requires { 12 * i < length (b64_src t) }
    requires { forall m [ram_text m t]. ram_text m t /\ ram_wt m -> ram_part m r i } requires { umap_upd r r2 a v }
    ensures { forall m [ram_text m t]. ram_text m t /\ ram_wt m -> ram_part m r2 (i + 1) }
(*proof*)
  = let lemma l (m: umap int int) : unit requires { ram_text m t /\ ram_wt m } ensures { ram_part m r2 (i + 1) } = ram_part_step m r r2 (pure { b64_src t }) i a v in ()
(*@ ghost *)
  let ghost b64_plain (s t: seq int) requires { is_b64 s t } ensures { forall i [t[i]]. 0 <= i < length t -> t[i] <> 46 /\ t[i] <> 35 /\ 0 < t[i] < 128 }
(*proof*)
  = let lemma l (i:int) : unit requires { 0 <= i < length t } ensures { t[i] <> 46 /\ t[i] <> 35 /\ 0 < t[i] < 128 }
      = let q = ED.div i 4 in let r = ED.mod i 4 in
        byte_def (pure { byte_at s (3 * q) }); byte_def (pure { byte_at s (3 * q + 1) }); byte_def (pure { byte_at s (3 * q + 2) });
        assert { i = 4 * q + r /\ 0 <= r < 4 }; assert { 0 <= q < ED.div (length s + 2) 3 }; assert { b64_group s t q };
        assert { byte_ranges (byte_at s (3 * q)) /\ byte_ranges (byte_at s (3 * q + 1)) /\ byte_ranges (byte_at s (3 * q + 2)) };
        assert { 0 <= sextet s q 0 < 64 /\ 0 <= sextet s q 1 < 64 /\ 0 <= sextet s q 2 < 64 /\ 0 <= sextet s q 3 < 64 };
        assert { r = 0 \/ r = 1 \/ r = 2 \/ r = 3 };
        assert { forall c. 0 <= c < 64 -> b64_chr c <> 46 /\ b64_chr c <> 35 /\ 0 < b64_chr c < 128 } in ()
(* the text of n RAMs: RAM i is the text between cuts[i] and cuts[i + 1] - 1 *)
(*@ *)
  predicate ram_piece (m: umap int (umap int int)) (cuts t: seq int) (i:int) = 0 <= cuts[i] < cuts[i + 1] <= length t + 1 /\ ram_text (umap_get m i) t[cuts[i] .. cuts[i + 1] - 1]
    /\ (cuts[i + 1] <= length t -> t[cuts[i + 1] - 1] = 46)
(*@ *)
  predicate rset_text (m: umap int (umap int int)) (n:int) (cuts t: seq int) = n >= 1 /\ length cuts = n + 1 /\ cuts[0] = 0 /\ cuts[n] = length t + 1 /\ forall i [cuts[i]]. 0 <= i < n -> ram_piece m cuts t i
(*@ *)
  predicate rset_wt (m: umap int (umap int int)) = forall r [umap_mem m r]. umap_mem m r -> ram_wt (umap_get m r)
(*@ *)
  predicate rset_dense (m: umap int (umap int int)) (n:int) = forall r. umap_mem m r <-> 0 <= r < n
(*@ *)
  predicate rset_upto (a m: umap int (umap int int)) (k:int) = forall r [umap_get a r]. 0 <= r < k -> ram_same (umap_get a r) (umap_get m r)
(*@ *)
  predicate rset_same (a b: umap int (umap int int)) = forall r [umap_mem a r]. (umap_mem a r <-> umap_mem b r) /\ (umap_mem a r -> ram_same (umap_get a r) (umap_get b r))
(* a text is read as: any set written as it *)
(*@ *)
  predicate rset_read (t: seq int) (a: umap int (umap int int)) = forall m n cuts [rset_text m n cuts t]. rset_text m n cuts t /\ rset_dense m n /\ rset_wt m -> rset_same a m
(*@ *)
  predicate rset_reading (t: seq int) (a: umap int (umap int int)) (k p:int) (more:bool) = forall m n cuts [rset_text m n cuts t]. rset_text m n cuts t /\ rset_dense m n /\ rset_wt m ->
    rset_upto a m k /\ (if more then k < n /\ cuts[k] = p else k = n)
(* the piece that starts at p: it has no dot and ends at a dot or at the end *)
(*@ ghost *)
  let ghost rset_piece (m: umap int (umap int int)) (n:int) (cuts t: seq int) (k:int) requires { rset_text m n cuts t /\ 0 <= k < n }
    ensures { forall i [t[i]]. cuts[k] <= i < cuts[k + 1] - 1 -> t[i] <> 46 } ensures { ED.mod (cuts[k + 1] - 1 - cuts[k]) 4 = 0 } ensures { ram_piece m cuts t k }
    ensures { if k + 1 < n then cuts[k + 1] - 1 < length t /\ t[cuts[k + 1] - 1] = 46 else cuts[k + 1] - 1 = length t }
(*proof*)
  = assert { ram_piece m cuts t k }; let p = pure { t[cuts[k] .. cuts[k + 1] - 1] } in
    assert { b64_valid p }; b64_plain (pure { b64_src p }) p; assert { length p = cuts[k + 1] - 1 - cuts[k] };
    let lemma l (i:int) : unit requires { cuts[k] <= i < cuts[k + 1] - 1 } ensures { t[i] <> 46 } = let j = pure { i - cuts[k] } in assert { 0 <= j < length p }; assert { p[j] = t[i] } in
    if k + 1 < n then begin assert { ram_piece m cuts t (k + 1) } end
(*@ ghost *)
  let ghost rset_step (t: seq int) (a a2: umap int (umap int int)) (k p e:int) (piece: seq int) (r: umap int int)
    requires { rset_reading t a k p true } requires { 0 <= k } requires { 0 <= p <= e <= length t } requires { forall i [t[i]]. p <= i < e -> t[i] <> 46 } requires { e < length t -> t[e] = 46 }
    requires { piece == t[p .. e] } requires { forall m [ram_text m piece]. ram_text m piece /\ ram_wt m -> ram_same r m } requires { a2 = umap_put a k r }
    ensures { rset_reading t a2 (k + 1) (e + 1) (e < length t) }
(*proof*)
  = let lemma l (m: umap int (umap int int)) (n:int) (cuts: seq int) : unit requires { rset_text m n cuts t /\ rset_dense m n /\ rset_wt m }
      ensures { rset_upto a2 m (k + 1) /\ (if e < length t then k + 1 < n /\ cuts[k + 1] = e + 1 else k + 1 = n) }
      = assert { k < n /\ cuts[k] = p /\ rset_upto a m k }; rset_piece m n cuts t k;
        assert { cuts[k + 1] - 1 >= e by cuts[k + 1] - 1 >= p /\ (cuts[k + 1] - 1 < e -> cuts[k + 1] - 1 < length t /\ k + 1 < n) };
        assert { cuts[k + 1] - 1 = e };
        assert { piece = t[cuts[k] .. cuts[k + 1] - 1] }; assert { ram_text (umap_get m k) piece }; assert { umap_mem m k }; assert { ram_same r (umap_get m k) };
        assert { forall i. 0 <= i < k -> umap_get a2 i = umap_get a i };
        assert { k + 1 = n -> e = length t }; assert { k + 1 < n -> e < length t }
      in ()
(* a text of RAMs does not end like the name of a file: a dot and five other characters *)
(*@ ghost *)
  let ghost rset_no_suffix (t: seq int) requires { length t >= 6 } requires { t[length t - 6] = 46 /\ forall i. length t - 5 <= i < length t -> t[i] <> 46 }
    ensures { forall m n cuts. not (rset_text m n cuts t) }
(*proof*)
  = let lemma l (m: umap int (umap int int)) (n:int) (cuts: seq int) : unit requires { rset_text m n cuts t } ensures { false }
      = rset_piece m n cuts t (n - 1); let c = pure { cuts[n - 1] } in
        assert { c > length t - 6 };
        if n > 1 then begin rset_piece m n cuts t (n - 2); assert { t[c - 1] = 46 }; assert { c - 1 = length t - 6 } end
        else assert { c = 0 }
      in ()
(* n members 0 .. n - 1 of a map of n keys are all its members *)
(*@ ghost *)
  let rec ghost dense_all (m: umap int (umap int int)) (n:int) requires { n >= 0 } requires { forall i. 0 <= i < n -> umap_mem m i }
    ensures { length (umap_keys m) >= n } ensures { length (umap_keys m) = n -> forall k. umap_mem m k -> 0 <= k < n } variant { n }
(*proof*)
  = if n > 0 then begin let e = umap_erase m (n - 1) in assert { forall i. 0 <= i < n - 1 -> umap_mem e i }; dense_all e (n - 1);
      assert { length (umap_keys m) = n -> forall k. umap_mem m k -> 0 <= k < n by k = n - 1 \/ umap_mem e k } end
    else assert { length (umap_keys m) = 0 -> forall k. umap_mem m k -> false }
(*@ ghost *)
  let rec ghost keys_within (a: umap int 'v) (b: umap int 'w) (n:int) requires { n = length (umap_keys a) } requires { forall k. umap_mem a k -> umap_mem b k }
    ensures { length (umap_keys b) >= n } ensures { length (umap_keys b) = n -> forall k. umap_mem b k -> umap_mem a k } variant { n }
(*proof*)
  = if n > 0 then begin let k0 = pure { (umap_keys a)[0] } in let a2 = umap_erase a k0 in let b2 = umap_erase b k0 in
      assert { umap_mem a k0 }; assert { forall k. umap_mem a2 k -> umap_mem b2 k }; keys_within a2 b2 (n - 1);
      assert { length (umap_keys b) = n -> forall k. umap_mem b k -> umap_mem a k by k = k0 \/ umap_mem b2 k } end
    else assert { length (umap_keys b) = 0 -> forall k. umap_mem b k -> false }
(* writing the text: after n RAMs, without the final condition on the length *)
(*@ *)
  predicate rset_written (m: umap int (umap int int)) (n:int) (cuts t: seq int) = length cuts = n + 1 /\ cuts[0] = 0 /\ (n >= 1 -> cuts[n] = length t + 1) /\ (n = 0 -> length t = 0) /\ forall i [cuts[i]]. 0 <= i < n -> ram_piece m cuts t i
(*@ ghost *)
  let ghost rset_grow (m m2: umap int (umap int int)) (n:int) (cuts t t2 sep piece: seq int) : seq int
    requires { rset_written m n cuts t } requires { 0 <= n } requires { forall r. 0 <= r < n -> umap_get m2 r = umap_get m r } requires { ram_text (umap_get m2 n) piece }
    requires { length sep = (if n > 0 then 1 else 0) /\ (n > 0 -> sep[0] = 46) } requires { t2 == t ++ (sep ++ piece) }
    ensures { rset_written m2 (n + 1) result t2 }
(*proof*)
  = let c2 = pure { snoc cuts (length t2 + 1) } in
    let p = pure { cuts[n] } in
    assert { p = if n > 0 then length t + 1 else 0 };
    assert { t2[p .. length t2] == piece };
    assert { ram_piece m2 c2 t2 n by c2[n] = p /\ c2[n + 1] = length t2 + 1 };
    assert { forall j. 0 <= j < length t -> t2[j] = t[j] };
    assert { n > 0 -> t2[length t] = 46 };
    let lemma l (i:int) : unit requires { 0 <= i < n } ensures { ram_piece m2 c2 t2 i }
      = assert { ram_piece m cuts t i }; assert { c2[i] = cuts[i] /\ c2[i + 1] = cuts[i + 1] };
        assert { t2[cuts[i] .. cuts[i + 1] - 1] == t[cuts[i] .. cuts[i + 1] - 1] };
        assert { cuts[i + 1] = length t + 1 -> t2[cuts[i + 1] - 1] = 46 } in
    c2
(*@ *)
  predicate rdh_ok (h: c_ramdatahandle) = (forall r [umap_mem h.rdh_ramdata r]. umap_mem h.rdh_ramdata r -> 0 <= r < 2147483648 /\ ram_wt (umap_get h.rdh_ramdata r))
(* a text with the ending of the files of RAM contents *)
(*@ *)
  predicate ends_with (t s: seq int) = length t >= length s /\ forall i. 0 <= i < length s -> t[length t - length s + i] = s[i]
(*@ *)
  predicate rdh_touched (a b: umap int (umap int int)) (r:int) = umap_mem b r /\ (umap_mem a r -> b = a) /\ (not (umap_mem a r) -> (forall k. not (umap_mem (umap_get b r) k)) /\ (forall q. umap_mem b q <-> umap_mem a q \/ q = r)
    /\ (forall q. q <> r -> umap_get b q = umap_get a q) /\ length (umap_keys b) = length (umap_keys a) + 1)
(*@ *)
  predicate rdh_filled (a b: umap int (umap int int)) = forall q [umap_mem b q | umap_mem a q]. (umap_mem a q -> umap_mem b q /\ umap_get b q = umap_get a q) /\ (umap_mem b q /\ not (umap_mem a q) -> forall k. not (umap_mem (umap_get b q) k))
(*@ ghost *)
  let ghost ram_part_done (r: umap int int) (t: seq int) (n:int)
    requires { forall m [ram_text m t]. ram_text m t /\ ram_wt m -> ram_part m r n } requires { b64_valid t -> length (b64_src t) = 12 * n }
    ensures { forall m [ram_text m t]. ram_text m t /\ ram_wt m -> ram_same r m }
(*proof*)
  = let lemma l (m: umap int int) : unit requires { ram_text m t /\ ram_wt m } ensures { ram_same r m }
      = assert { ram_part m r n }; assert { n = length (umap_keys m) }; assert { forall k. umap_mem m k -> umap_mem r k /\ umap_get r k = umap_get m k by 0 <= umap_pos m k < n /\ (umap_keys m)[umap_pos m k] = k } in ()
(*@ ghost *)
  let ghost rset_done (t: seq int) (a: umap int (umap int int)) (k p:int) requires { rset_reading t a k p false } requires { rset_dense a k } ensures { rset_read t a }
(*proof*)
  = ()
(*@ ghost *)
  let ghost ram_same_len (a b: umap int int) ensures { ram_same a b -> length (umap_keys a) = length (umap_keys b) }
    ensures { length (umap_keys a) = length (umap_keys b) /\ (forall k. umap_mem a k -> umap_mem b k /\ umap_get a k = umap_get b k) -> ram_same a b }
(*proof*)
  = if pure { forall k. umap_mem a k -> umap_mem b k } then keys_within a b (length (umap_keys a)); if pure { forall k. umap_mem b k -> umap_mem a k } then keys_within b a (length (umap_keys b))
(*@ ghost *)
  let ghost rset_same_len (a b: umap int (umap int int)) ensures { rset_same a b -> length (umap_keys a) = length (umap_keys b) }
    ensures { length (umap_keys a) = length (umap_keys b) /\ (forall k. umap_mem a k -> umap_mem b k /\ ram_same (umap_get a k) (umap_get b k)) -> rset_same a b }
(*proof*)
  = if pure { forall k. umap_mem a k -> umap_mem b k } then keys_within a b (length (umap_keys a)); if pure { forall k. umap_mem b k -> umap_mem a k } then keys_within b a (length (umap_keys b))
(*@ *)
  predicate not_rset (t: seq int) = forall m n cuts [rset_text m n cuts t]. rset_text m n cuts t -> not (rset_dense m n /\ rset_wt m)
(* the length of the next piece *)
(*@ ghost *)
  let ghost rset_next (t: seq int) (a: umap int (umap int int)) (k p:int) requires { rset_reading t a k p true } requires { 0 <= k } requires { 0 <= p <= length t }
    ensures { forall e [t[p .. e]]. p <= e <= length t /\ (forall i. p <= i < e -> t[i] <> 46) /\ (e < length t -> t[e] = 46) -> ED.mod (e - p) 4 = 0 \/ not_rset t }
    ensures { forall e [t[e]]. p <= e < length t /\ (forall i. p <= i < e -> t[i] <> 46) /\ t[e] = 46 -> ED.mod (e - p) 4 = 0 \/ not_rset t }
    ensures { (forall i. p <= i < length t -> t[i] <> 46) -> ED.mod (length t - p) 4 = 0 \/ not_rset t }
(*proof*)
  = if pure { not (not_rset t) } then begin
      let lemma l (m: umap int (umap int int)) (n:int) (cuts: seq int) (e:int) : unit requires { rset_text m n cuts t /\ rset_dense m n /\ rset_wt m }
        requires { p <= e <= length t /\ (forall i. p <= i < e -> t[i] <> 46) /\ (e < length t -> t[e] = 46) } ensures { ED.mod (e - p) 4 = 0 }
        = assert { k < n /\ cuts[k] = p }; rset_piece m n cuts t k; assert { cuts[k + 1] - 1 = e } in ()
    end
(*@ ghost *)
  let ghost ends_slice (t s: seq int) ensures { ends_with t s <-> length t >= length s /\ t[length t - length s .. length t] = s }
(*proof*)
  = if pure { length t >= length s } then begin
      let u = pure { t[length t - length s .. length t] } in
      assert { length u = length s }; assert { forall i. 0 <= i < length s -> u[i] = t[length t - length s + i] };
      if pure { ends_with t s } then assert { u == s };
      if pure { u = s } then assert { forall i. 0 <= i < length s -> t[length t - length s + i] = s[i] }
    end
(*@ ghost *)
  let ghost rdh_fill_all (a b: umap int (umap int int)) (r:int) requires { rdh_filled a b } ensures { forall c [rdh_touched b c r]. rdh_touched b c r -> rdh_filled a c }
(*proof*)
  = let lemma l (c: umap int (umap int int)) : unit requires { rdh_touched b c r } ensures { rdh_filled a c }
      = if pure { not (umap_mem b r) } then begin assert { not (umap_mem a r) }; assert { forall q. q <> r -> umap_get c q = umap_get b q } end else assert { c = b } in ()
(* the text of a DataSet: per input the label, '#' and the input, in Base64, separated by dots. Input i is the text between cuts[i] and cuts[i + 1] - 1, its '#' at mids[i] *)
(*@ *)
  function ds_lab (d: c_dataset) (i:int) : seq int = if umap_mem d.ds_labels i then umap_get d.ds_labels i else empty
(*@ *)
  predicate ds_piece (d: c_dataset) (cuts mids t: seq int) (i:int) = 0 <= cuts[i] <= mids[i] /\ mids[i] < cuts[i + 1] - 1 <= length t /\ t[mids[i]] = 35 /\ is_b64 (ds_lab d i) t[cuts[i] .. mids[i]]
    /\ bin_text d.ds_data[i] t[mids[i] + 1 .. cuts[i + 1] - 1] /\ (cuts[i + 1] <= length t -> t[cuts[i + 1] - 1] = 46)
(*@ *)
  predicate ds_written (d: c_dataset) (n:int) (cuts mids t: seq int) = length cuts = n + 1 /\ length mids = n /\ cuts[0] = 0 /\ (n >= 1 -> cuts[n] = length t + 1) /\ (n = 0 -> length t = 0) /\ forall i [cuts[i]]. 0 <= i < n -> ds_piece d cuts mids t i
(*@ *)
  predicate ds_text (d: c_dataset) (cuts mids t: seq int) = ds_written d (length d.ds_data) cuts mids t
(*@ *)
  predicate ds_wt (d: c_dataset) = forall i [umap_get d.ds_labels i]. umap_mem d.ds_labels i -> in_bytes (umap_get d.ds_labels i)
(*@ *)
  predicate bin_same (a b: c_bininput) = a.bin_remain = b.bin_remain /\ a.bin_input == b.bin_input
(* d2 has the first k inputs of d *)
(*@ *)
  predicate ds_prefix (d d2: c_dataset) (k:int) = length d2.ds_data = k /\ (forall i [d2.ds_data[i]]. 0 <= i < k -> bin_same d2.ds_data[i] d.ds_data[i])
    /\ (forall i [umap_mem d2.ds_labels i]. 0 <= i < k -> (umap_mem d2.ds_labels i <-> length (ds_lab d i) > 0) /\ (umap_mem d2.ds_labels i -> umap_get d2.ds_labels i == ds_lab d i))
(*@ *)
  predicate ds_read (t: seq int) (d2: c_dataset) = forall d cuts mids [ds_text d cuts mids t]. ds_text d cuts mids t /\ ds_wt d -> ds_prefix d d2 (length d.ds_data)
(*@ *)
  predicate ds_reading (t: seq int) (d2: c_dataset) (p:int) (more:bool) = forall d cuts mids [ds_text d cuts mids t]. ds_text d cuts mids t /\ ds_wt d -> let k = length d2.ds_data in
    ds_prefix d d2 k /\ (if more then (k < length d.ds_data /\ cuts[k] = p \/ length d.ds_data = 0 /\ k = 0) else k = length d.ds_data)
(*@ *)
  predicate not_ds (t: seq int) = forall d cuts mids [ds_text d cuts mids t]. ds_text d cuts mids t -> not (ds_wt d)
(*@ ghost *)
  let ghost ds_plain (d: c_dataset) (cuts mids t: seq int) (k:int) requires { ds_piece d cuts mids t k } requires { 0 <= k }
    ensures { forall i [t[i]]. cuts[k] <= i < cuts[k + 1] - 1 -> t[i] <> 46 } ensures { forall i [t[i]]. cuts[k] <= i < cuts[k + 1] - 1 /\ i <> mids[k] -> t[i] <> 35 }
    ensures { ED.mod (mids[k] - cuts[k]) 4 = 0 }
(*proof*)
  = let a = pure { t[cuts[k] .. mids[k]] } in let b = pure { t[mids[k] + 1 .. cuts[k + 1] - 1] } in
    b64_plain (pure { ds_lab d k }) a; b64_plain (pure { enc_s8 d.ds_data[k].bin_remain ++ d.ds_data[k].bin_input }) b;
    assert { length a = mids[k] - cuts[k] }; assert { length b = cuts[k + 1] - 1 - (mids[k] + 1) };
    let lemma l (i:int) : unit requires { cuts[k] <= i < cuts[k + 1] - 1 } ensures { t[i] <> 46 } ensures { i <> mids[k] -> t[i] <> 35 }
      = if i < pure { mids[k] } then (let j = pure { i - cuts[k] } in assert { 0 <= j < length a }; assert { a[j] = t[i] })
        else if i > pure { mids[k] } then (let j = pure { i - (mids[k] + 1) } in assert { 0 <= j < length b }; assert { b[j] = t[i] }) in ()
(* the piece u of the text t that starts at p, with its first '#' at h *)
(*@ ghost *)
  let ghost ds_next (t: seq int) (d2: c_dataset) (p e h:int) (u: seq int) requires { ds_reading t d2 p true } requires { 0 <= p <= e <= length t } requires { forall i [t[i]]. p <= i < e -> t[i] <> 46 } requires { e < length t -> t[e] = 46 }
    requires { length u = e - p /\ length u > 0 } requires { forall i [u[i]]. 0 <= i < length u -> u[i] = t[p + i] }
    requires { (0 <= h < length u /\ u[h] = 35 /\ forall i [u[i]]. 0 <= i < h -> u[i] <> 35) \/ (h = -1 /\ forall i [u[i]]. 0 <= i < length u -> u[i] <> 35) }
    ensures { forall d cuts mids [ds_text d cuts mids t]. ds_text d cuts mids t /\ ds_wt d -> let k = length d2.ds_data in k < length d.ds_data /\ cuts[k] = p /\ cuts[k + 1] - 1 = e /\ h = mids[k] - p
        /\ h >= 0 /\ is_b64 (ds_lab d k) u[0 .. h] /\ bin_text d.ds_data[k] u[h + 1 .. length u] /\ ED.mod h 4 = 0 /\ (if e < length t then k + 1 < length d.ds_data else k + 1 = length d.ds_data) }
(*proof*)
  = let lemma l (d: c_dataset) (cuts mids: seq int) : unit requires { ds_text d cuts mids t /\ ds_wt d }
      ensures { let k = length d2.ds_data in k < length d.ds_data /\ cuts[k] = p /\ cuts[k + 1] - 1 = e /\ h = mids[k] - p
        /\ h >= 0 /\ is_b64 (ds_lab d k) u[0 .. h] /\ bin_text d.ds_data[k] u[h + 1 .. length u] /\ ED.mod h 4 = 0 /\ (if e < length t then k + 1 < length d.ds_data else k + 1 = length d.ds_data) }
      = let k = pure { length d2.ds_data } in let n = pure { length d.ds_data } in
        assert { k < n /\ cuts[k] = p }; assert { ds_piece d cuts mids t k }; ds_plain d cuts mids t k;
        let e2 = pure { cuts[k + 1] - 1 } in
        if k + 1 < n then assert { ds_piece d cuts mids t (k + 1) } else assert { e2 = length t };
        assert { k + 1 < n -> e2 < length t /\ t[e2] = 46 };
        assert { e2 >= e by (e2 < e -> t[e2] <> 46 /\ e2 < length t) };
        assert { e2 <= e by (e < e2 -> t[e] <> 46) };
        let m = pure { mids[k] - p } in
        assert { u[m] = 35 }; assert { 0 <= m < length u }; assert { h >= 0 }; assert { u[h] = t[p + h] }; assert { h = m by (h <> m -> t[p + h] <> 35) };
        assert { u[0 .. h] == t[cuts[k] .. mids[k]] }; assert { u[h + 1 .. length u] == t[mids[k] + 1 .. cuts[k + 1] - 1] }
      in ()
(*@ ghost *)
  let ghost ds_step (t: seq int) (d2 d3: c_dataset) (p e h:int) (u lab: seq int)
    requires { ds_added d2 d3 lab } requires { ds_reading t d2 p true }
    requires { forall d cuts mids [ds_text d cuts mids t]. ds_text d cuts mids t /\ ds_wt d -> let k = length d2.ds_data in k < length d.ds_data /\ cuts[k] = p /\ cuts[k + 1] - 1 = e /\ h = mids[k] - p
        /\ h >= 0 /\ is_b64 (ds_lab d k) u[0 .. h] /\ bin_text d.ds_data[k] u[h + 1 .. length u] /\ ED.mod h 4 = 0 /\ (if e < length t then k + 1 < length d.ds_data else k + 1 = length d.ds_data) }
    requires { h >= 0 -> forall s [is_b64 s u[0 .. h]]. in_bytes s /\ is_b64 s u[0 .. h] -> lab == s }
    requires { h >= 0 -> forall b [bin_text b u[h + 1 .. length u]]. bin_text b u[h + 1 .. length u] -> bin_same d3.ds_data[length d2.ds_data] b }
    ensures { ds_reading t d3 (e + 1) (e < length t) }
(*proof*)
  = let lemma l (d: c_dataset) (cuts mids: seq int) : unit requires { ds_text d cuts mids t /\ ds_wt d }
      ensures { let k = length d3.ds_data in ds_prefix d d3 k /\ (if e < length t then (k < length d.ds_data /\ cuts[k] = e + 1 \/ length d.ds_data = 0 /\ k = 0) else k = length d.ds_data) }
      = let k = pure { length d2.ds_data } in
        assert { length d3.ds_data = k + 1 }; assert { in_bytes (ds_lab d k) }; assert { lab == ds_lab d k }; assert { bin_same d3.ds_data[k] d.ds_data[k] };
        assert { ds_prefix d d2 k };
        assert { forall i. 0 <= i < k -> bin_same d3.ds_data[i] d.ds_data[i] by d3.ds_data[i] = d2.ds_data[i] };
        assert { umap_mem d3.ds_labels k <-> length (ds_lab d k) > 0 };
        assert { forall i. 0 <= i < k -> (umap_mem d3.ds_labels i <-> length (ds_lab d i) > 0) by (umap_mem d3.ds_labels i <-> umap_mem d2.ds_labels i) };
        assert { forall i. 0 <= i < k -> umap_mem d3.ds_labels i -> umap_get d3.ds_labels i == ds_lab d i by umap_get d3.ds_labels i = umap_get d2.ds_labels i };
        assert { ds_prefix d d3 (k + 1) }
      in ()
(*@ ghost *)
  let ghost ds_nothing (t: seq int) (d2: c_dataset) (p:int) requires { ds_reading t d2 p true } requires { 0 <= p <= length t } requires { p < length t -> t[p] = 46 } ensures { ds_reading t d2 p false }
(*proof*)
  = let lemma l (d: c_dataset) (cuts mids: seq int) : unit requires { ds_text d cuts mids t /\ ds_wt d } ensures { length d2.ds_data = length d.ds_data }
      = let k = pure { length d2.ds_data } in
        if k < pure { length d.ds_data } then begin assert { cuts[k] = p }; ds_plain d cuts mids t k; assert { p < length t }; assert { t[p] <> 46 } end in ()
(*@ ghost *)
  let ghost ds_done (t: seq int) (d2: c_dataset) (p:int) requires { ds_reading t d2 p false } ensures { ds_read t d2 }
(*proof*)
  = ()
(*@ ghost *)
  let ghost ds_grow (d: c_dataset) (n:int) (cuts mids t t2 sep lab sh bin: seq int)
    requires { ds_written d n cuts mids t } requires { 0 <= n } requires { is_b64 (ds_lab d n) lab } requires { bin_text d.ds_data[n] bin } requires { length sh = 1 /\ sh[0] = 35 }
    requires { length sep = (if n > 0 then 1 else 0) /\ (n > 0 -> sep[0] = 46) } requires { t2 == t ++ (((sep ++ lab) ++ sh) ++ bin) }
    ensures { ds_written d (n + 1) (snoc cuts (length t2 + 1)) (snoc mids (length t + length sep + length lab)) t2 }
(*proof*)
  = let c2 = pure { snoc cuts (length t2 + 1) } in let m2 = pure { snoc mids (length t + length sep + length lab) } in
    let p = pure { cuts[n] } in let q = pure { length t + length sep + length lab } in
    assert { p = if n > 0 then length t + 1 else 0 }; assert { p = length t + length sep };
    assert { length bin > 0 };
    assert { length t2 = q + 1 + length bin };
    let lemma l1 (j:int) : unit requires { 0 <= j < length lab } ensures { t2[p + j] = lab[j] } = assert { t2[p + j] = (((sep ++ lab) ++ sh) ++ bin)[p + j - length t] } in
    let lemma l2 (j:int) : unit requires { 0 <= j < length bin } ensures { t2[q + 1 + j] = bin[j] } = assert { t2[q + 1 + j] = (((sep ++ lab) ++ sh) ++ bin)[q + 1 + j - length t] } in
    assert { t2[p .. q] == lab }; assert { t2[q + 1 .. length t2] == bin }; assert { t2[q] = 35 by t2[q] = (((sep ++ lab) ++ sh) ++ bin)[q - length t] };
    assert { ds_piece d c2 m2 t2 n by c2[n] = p /\ c2[n + 1] = length t2 + 1 /\ m2[n] = q };
    assert { forall j. 0 <= j < length t -> t2[j] = t[j] };
    assert { n > 0 -> t2[length t] = 46 by t2[length t] = (((sep ++ lab) ++ sh) ++ bin)[0] };
    let lemma l (i:int) : unit requires { 0 <= i < n } ensures { ds_piece d c2 m2 t2 i }
      = assert { ds_piece d cuts mids t i }; assert { c2[i] = cuts[i] /\ c2[i + 1] = cuts[i + 1] /\ m2[i] = mids[i] };
        assert { t2[cuts[i] .. mids[i]] == t[cuts[i] .. mids[i]] }; assert { t2[mids[i] + 1 .. cuts[i + 1] - 1] == t[mids[i] + 1 .. cuts[i + 1] - 1] };
        assert { cuts[i + 1] = length t + 1 -> t2[cuts[i + 1] - 1] = 46 }
    in ()
