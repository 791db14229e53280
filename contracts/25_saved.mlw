(* saved and restored discriminators *)
(*@ *)
  predicate rconf (c: json) (r: c_ram) = j_obj c /\ (forall k. j_has c k <-> k = str_ignoreZero \/ k = str_base) /\ j_get c str_ignoreZero = j_of_bool r.ram_ignoreZero /\ j_get c str_base = j_of_int r.ram_base
(* the ending of the names of files of contents *)
(*@ *)
  constant wdpkg : seq int
  axiom wdpkg_def : length wdpkg = 6 /\ wdpkg[0] = 46 /\ wdpkg[1] = 119 /\ wdpkg[2] = 100 /\ wdpkg[3] = 112 /\ wdpkg[4] = 107 /\ wdpkg[5] = 103
(* the text a data member stands for: itself, or what the file it names has *)
(*@ *)
  predicate data_is (f: fsmap) (t x: seq int) = if ends_with t wdpkg then fs_has f (fs_cut t) /\ x = fs_get f (fs_cut t) else x = t
(*@ *)
  predicate fs_ext (f g: fsmap) = forall n [fs_has g n]. fs_has f n -> fs_has g n /\ fs_get g n = fs_get f n
(*@ *)
  predicate contents_n (rs: seq c_ram) (m: umap int (umap int int)) (n: int) = rset_dense m n /\ rset_wt m /\ forall i [umap_get m i]. 0 <= i < n -> umap_get m i = rs[i].ram_positions
(*@ *)
  predicate dtext (d: c_discriminator) (x: seq int) = exists m c. contents_n d.disc_rams m (length d.disc_rams) /\ rset_written m (length d.disc_rams) c x
(*@ *)
  predicate dmapping (d: c_discriminator) (m: seq (seq int)) = length m = length d.disc_rams /\ forall i [m[i]]. 0 <= i < length m -> m[i] = d.disc_rams[i].ram_addresses
(*@ *)
  predicate dconf (c: json) (d: c_discriminator) (all: bool) = j_obj c /\ j_get c str_entrySize = j_of_int d.disc_entrySize /\ j_get c str_count = (if all then j_of_int d.disc_count else jnull)
     /\ (exists m. dmapping d m /\ j_get c str_mapping = j_of_vvi m)
(*@ *)
  predicate rrestorable (c: json) = j_obj c /\ j_is_bool (j_get c str_ignoreZero) /\ j_is_int (j_get c str_base) /\ j_is_vi (j_get c str_addresses) /\ j_is_str (j_get c str_data) /\ j_to_int (j_get c str_base) >= 2
     /\ pow (j_to_int (j_get c str_base)) (length (j_to_vi (j_get c str_addresses))) <= 18446744073709551616 /\ exists m. ram_text m (j_to_str (j_get c str_data)) /\ ram_wt m
(*@ ghost *)
  let ghost one_piece (t: seq int) ensures { forall m [ram_text m t]. ram_text m t /\ ram_wt m -> exists s c. rset_text s 1 c t /\ rset_dense s 1 /\ rset_wt s /\ umap_get s 0 = m }
(*proof*)
  = let lemma l (m: umap int int) : unit requires { ram_text m t /\ ram_wt m } ensures { exists s c. rset_text s 1 c t /\ rset_dense s 1 /\ rset_wt s /\ umap_get s 0 = m }
      = let s = umap_put (umap_empty ()) 0 m in let c = pure { snoc (snoc empty 0) (length t + 1) } in
        assert { t[0 .. length t] == t }; assert { c[0] = 0 /\ c[1] = length t + 1 }; assert { umap_get s 0 = m }; assert { forall k. umap_mem s k <-> k = 0 }; assert { ram_piece s c t 0 }; assert { rset_text s 1 c t } in ()
(*@ ghost *)
  let ghost text_ascii (m: umap int int) (t: seq int) requires { ram_text m t } ensures { s_ascii t }
(*proof*)
  = b64_plain (pure { b64_src t }) t; assert { forall i [t[i]]. 0 <= i < length t -> 0 <= t[i] < 128 }
(* writing the RAMs of a discriminator one after the other *)
(*@ ghost *)
  let ghost contents_grow (rs: seq c_ram) (m: umap int (umap int int)) (n: int) : umap int (umap int int) requires { contents_n rs m n } requires { 0 <= n } requires { ram_wt rs[n].ram_positions }
    ensures { contents_n rs result (n + 1) } ensures { forall r. 0 <= r < n -> umap_get result r = umap_get m r } ensures { umap_get result n = rs[n].ram_positions }
(*proof*)
  = let s = umap_put m n (pure { rs[n].ram_positions }) in assert { forall r. r <> n -> umap_get s r = umap_get m r }; assert { forall r. umap_mem s r <-> 0 <= r < n + 1 };
    assert { forall r. umap_mem s r -> ram_wt (umap_get s r) by r = n \/ umap_mem m r }; s
(*@ ghost *)
  let ghost written_plain (m: umap int (umap int int)) (n: int) (c t: seq int) requires { rset_written m n c t } requires { 0 <= n } ensures { not (ends_with t wdpkg) } ensures { n >= 1 -> rset_text m n c t }
(*proof*)
  = assert { length wdpkg = 6 /\ wdpkg[0] = 46 /\ forall i. 1 <= i < 6 -> wdpkg[i] <> 46 };
    if pure { n >= 1 /\ ends_with t wdpkg } then begin assert { t[length t - 6] = 46 }; assert { forall i. length t - 5 <= i < length t -> t[i] <> 46 by let j = i - (length t - 6) in wdpkg[j] = t[i] }; assert { rset_text m n c t }; rset_no_suffix t; assert { false } end;
    assert { n >= 1 -> rset_text m n c t }; assert { n = 0 -> length t = 0 }
(* restoring RAMs from a mapping, settings and contents *)
(*@ *)
  predicate ram_set (r: c_ram) (addresses iz base: json) = ram_ok r /\ j_is_vi addresses /\ r.ram_addresses = j_to_vi addresses /\ j_is_bool iz /\ r.ram_ignoreZero = j_to_bool iz /\ j_is_int base /\ r.ram_base = j_to_int base
(*@ *)
  predicate rams_set (rs: seq c_ram) (mapping iz base: json) = forall i [rs[i]]. 0 <= i < length rs -> ram_set rs[i] (j_at mapping i) iz base
(*@ *)
  predicate rams_blank (rs: seq c_ram) = forall i k. 0 <= i < length rs -> not (umap_mem rs[i].ram_positions k)
(*@ *)
  predicate rams_hold (rs: seq c_ram) (n: int) (m: umap int (umap int int)) = length rs = n /\ forall i [rs[i]]. 0 <= i < n -> ram_same rs[i].ram_positions (umap_get m i)
(*@ *)
  predicate rams_written (m: umap int (umap int int)) (n: int) (x: seq int) = rset_dense m n /\ rset_wt m /\ exists c. rset_text m n c x
(*@ *)
  predicate rams_read (f: fsmap) (rs: seq c_ram) (mapping iz base: json) (data: seq int) = rams_set rs mapping iz base /\ length rs <= j_size mapping
     /\ (forall x m. data_is f data x /\ rams_written m (j_size mapping) x -> rams_hold rs (j_size mapping) m)
     /\ (length data = 0 -> length rs = j_size mapping /\ rams_blank rs)
(*@ *)
  predicate rams_readable (f: fsmap) (mapping iz base: json) (data: seq int) = j_size mapping = 0 \/ (j_is_bool iz /\ j_is_int base /\ j_to_int base >= 2
     /\ (forall i [j_at mapping i]. 0 <= i < j_size mapping -> j_is_vi (j_at mapping i) /\ pow (j_to_int base) (length (j_to_vi (j_at mapping i))) <= 18446744073709551616)
     /\ (length data = 0 \/ exists x m. data_is f data x /\ rams_written m (j_size mapping) x))
(*@ ghost *)
  let ghost no_text () : umap int int ensures { forall k. not (umap_mem result k) } ensures { ram_wt result } ensures { forall t. length t = 0 -> ram_text result t }
(*proof*)
  = let s = umap_empty () in
    let lemma l (t: seq int) : unit requires { length t = 0 } ensures { ram_text s t } = assert { b64_valid t }; assert { length (b64_src t) = 0 } in s
(* a piece of a written text can be read *)
(*@ ghost *)
  let ghost piece_readable (t: seq int) (n k p e: int) (a: umap int (umap int int)) (piece: seq int)
    requires { rset_reading t a k p true } requires { 0 <= k } requires { 0 <= p <= e <= length t } requires { forall i [t[i]]. p <= i < e -> t[i] <> 46 } requires { e < length t -> t[e] = 46 } requires { piece == t[p .. e] }
    ensures { forall m. rams_written m n t -> ram_text (umap_get m k) piece /\ ram_wt (umap_get m k) }
(*proof*)
  = let lemma l (m: umap int (umap int int)) (c: seq int) : unit requires { rset_text m n c t /\ rset_dense m n /\ rset_wt m } ensures { ram_text (umap_get m k) piece /\ ram_wt (umap_get m k) }
      = assert { k < n /\ c[k] = p }; rset_piece m n c t k;
        assert { c[k + 1] - 1 >= e by c[k + 1] - 1 >= p /\ (c[k + 1] - 1 < e -> c[k + 1] - 1 < length t /\ k + 1 < n) };
        assert { c[k + 1] - 1 = e }; assert { piece = t[c[k] .. c[k + 1] - 1] }; assert { umap_mem m k } in ()
(*@ ghost *)
  let ghost pieces_readable (t: seq int) (n k p: int) (a: umap int (umap int int)) requires { rset_reading t a k p true } requires { 0 <= k } requires { 0 <= p }
    ensures { forall e m [t[p .. e], rams_written m n t]. p <= e <= length t /\ (forall i [t[i]]. p <= i < e -> t[i] <> 46) /\ (e < length t -> t[e] = 46) /\ rams_written m n t -> ram_text (umap_get m k) t[p .. e] /\ ram_wt (umap_get m k) }
(*proof*)
  = let lemma l (e: int) : unit requires { p <= e <= length t /\ (forall i [t[i]]. p <= i < e -> t[i] <> 46) /\ (e < length t -> t[e] = 46) }
      ensures { forall m. rams_written m n t -> ram_text (umap_get m k) t[p .. e] /\ ram_wt (umap_get m k) } = piece_readable t n k p e a (pure { t[p .. e] }) in ()
(*@ ghost *)
  let ghost merged_get (p: json) requires { j_obj p }
    ensures { forall b k [j_get (j_merge b p) k]. j_obj b -> j_get b k = jnull -> j_get (j_merge b p) k = j_get p k \/ (j_obj (j_get (j_merge b p) k) /\ j_obj (j_get p k)) }
    ensures { forall b k [j_get (j_merge b p) k]. j_obj b -> not (j_has p k) -> j_get (j_merge b p) k = j_get b k }
(*proof*)
  = ()
(*@ ghost *)
  let ghost hold_all (t: seq int) (n k p: int) (a: umap int (umap int int)) (rs: seq c_ram) (more: bool)
    requires { rset_reading t a k p more } requires { 0 <= k <= n } requires { more -> k = n } requires { length rs = k \/ length rs = n } requires { forall i [umap_get a i]. 0 <= i < k -> umap_get a i = rs[i].ram_positions }
    ensures { forall m. rams_written m n t -> rams_hold rs n m }
(*proof*)
  = let lemma l (m: umap int (umap int int)) (c: seq int) : unit requires { rset_text m n c t /\ rset_dense m n /\ rset_wt m } ensures { rams_hold rs n m }
      = assert { not more /\ k = n }; assert { forall i [umap_get a i]. 0 <= i < k -> ram_same (umap_get a i) (umap_get m i) }; assert { forall i [rs[i]]. 0 <= i < k -> rs[i].ram_positions = umap_get a i }; assert { length rs = n }; assert { forall i [rs[i]]. 0 <= i < n -> ram_same rs[i].ram_positions (umap_get m i) by ram_same (umap_get a i) (umap_get m i) /\ rs[i].ram_positions = umap_get a i } in ()
(*@ ghost *)
  let ghost hold_none (t: seq int) (n k p: int) (a: umap int (umap int int)) requires { rset_reading t a k p false } requires { k < n } ensures { forall m. not (rams_written m n t) }
(*proof*)
  = let lemma l (m: umap int (umap int int)) (c: seq int) : unit requires { rset_text m n c t /\ rset_dense m n /\ rset_wt m } ensures { false } = assert { k = n } in ()
(* texts that are too long to be written *)
(*@ *)
  predicate dbig (d: c_discriminator) = exists i. 0 <= i < length d.disc_rams /\ 12 * length (umap_keys d.disc_rams[i].ram_positions) > 1600000000
(* a discriminator as a configuration says *)
(*@ *)
  predicate jmap_within (m: json) (n sz: int) = forall i [j_at m i]. 0 <= i < n -> j_is_vi (j_at m i) /\ in_entry (j_to_vi (j_at m i)) sz
(*@ *)
  predicate dloadable (f: fsmap) (c: json) = j_obj c /\ j_is_int (j_get c str_entrySize) /\ not (jbad_int c str_count) /\ not (jbad_str c str_data)
     /\ rams_readable f (j_get c str_mapping) (j_get c str_ignoreZero) (j_get c str_base) (jopt_str c str_data) /\ jmap_within (j_get c str_mapping) (j_size (j_get c str_mapping)) (j_to_int (j_get c str_entrySize))
(*@ *)
  predicate dloaded (f: fsmap) (c: json) (d: c_discriminator) = d.disc_entrySize = j_to_int (j_get c str_entrySize) /\ d.disc_count = jopt_int c str_count 0
     /\ rams_read f d.disc_rams (j_get c str_mapping) (j_get c str_ignoreZero) (j_get c str_base) (jopt_str c str_data)
(*@ *)
  predicate dsaved (f: fsmap) (d: c_discriminator) (c: json) = dconf c d true /\ exists t x. j_get c str_data = j_of_str t /\ data_is f t x /\ dtext d x
(*@ *)
  predicate dsettings (d: c_discriminator) (c: json) = length d.disc_rams > 0 -> j_get c str_ignoreZero = j_of_bool d.disc_rams[0].ram_ignoreZero /\ j_get c str_base = j_of_int d.disc_rams[0].ram_base
(* the same settings and contents *)
(*@ *)
  predicate dequal (d e: c_discriminator) = dsame_config d e /\ e.disc_count = d.disc_count /\ forall i [e.disc_rams[i]]. 0 <= i < length d.disc_rams -> ram_same e.disc_rams[i].ram_positions d.disc_rams[i].ram_positions
(*@ *)
  predicate dblank (d e: c_discriminator) = dsame_config d e /\ e.disc_count = 0 /\ rams_blank e.disc_rams
(* machine integers *)
(*@ *)
  predicate dtyped (d: c_discriminator) = in_s32 d.disc_entrySize /\ in_s32 d.disc_count /\ forall i [d.disc_rams[i]]. 0 <= i < length d.disc_rams -> in_s32 d.disc_rams[i].ram_base
(*@ ghost *)
  let ghost saved_texts (f: fsmap) (d: c_discriminator) (c: json) requires { dsaved f d c } requires { disc_ok d }
    ensures { length d.disc_rams > 0 -> exists x m. data_is f (jopt_str c str_data) x /\ rams_written m (length d.disc_rams) x /\ forall i. 0 <= i < length d.disc_rams -> umap_get m i = d.disc_rams[i].ram_positions }
    ensures { not (jbad_str c str_data) }
(*proof*)
  = assert { exists t x. j_get c str_data = j_of_str t /\ data_is f t x /\ dtext d x /\ jopt_str c str_data = t };
    let n = pure { length d.disc_rams } in
    let lemma l (x: seq int) (m: umap int (umap int int)) (cc: seq int) : unit requires { n > 0 } requires { contents_n d.disc_rams m n /\ rset_written m n cc x }
      ensures { rams_written m n x /\ forall i. 0 <= i < n -> umap_get m i = d.disc_rams[i].ram_positions } = assert { rset_text m n cc x } in
    assert { n > 0 -> forall x. dtext d x -> exists m. rams_written m n x /\ forall i. 0 <= i < n -> umap_get m i = d.disc_rams[i].ram_positions }
(*@ ghost *)
  let ghost saved_map (f: fsmap) (d: c_discriminator) (c: json) (all: bool) requires { dconf c d all } requires { dsettings d c } requires { disc_ok d } requires { dtyped d }
    ensures { j_obj c } ensures { j_is_int (j_get c str_entrySize) /\ j_to_int (j_get c str_entrySize) = d.disc_entrySize } ensures { jmap_within (j_get c str_mapping) (length d.disc_rams) d.disc_entrySize }
    ensures { not (jbad_int c str_count) /\ jopt_int c str_count 0 = if all then d.disc_count else 0 }
    ensures { j_size (j_get c str_mapping) = length d.disc_rams }
    ensures { length d.disc_rams > 0 -> j_is_bool (j_get c str_ignoreZero) /\ j_is_int (j_get c str_base) /\ j_to_int (j_get c str_base) >= 2 }
    ensures { forall i. 0 <= i < length d.disc_rams -> j_is_vi (j_at (j_get c str_mapping) i) /\ j_to_vi (j_at (j_get c str_mapping) i) = d.disc_rams[i].ram_addresses
       /\ j_to_bool (j_get c str_ignoreZero) = d.disc_rams[i].ram_ignoreZero /\ j_to_int (j_get c str_base) = d.disc_rams[i].ram_base /\ ram_ok d.disc_rams[i] }
(*proof*)
  = let lemma l (m: seq (seq int)) : unit requires { dmapping d m /\ j_get c str_mapping = j_of_vvi m } ensures { j_size (j_get c str_mapping) = length d.disc_rams }
       ensures { forall i. 0 <= i < length d.disc_rams -> j_at (j_get c str_mapping) i = j_of_vi d.disc_rams[i].ram_addresses } = () in
    assert { forall i. 0 <= i < length d.disc_rams -> j_at (j_get c str_mapping) i = j_of_vi d.disc_rams[i].ram_addresses };
    assert { forall i. 0 <= i < length d.disc_rams -> d.disc_rams[i].ram_base = d.disc_rams[0].ram_base /\ d.disc_rams[i].ram_ignoreZero = d.disc_rams[0].ram_ignoreZero /\ ram_ok d.disc_rams[i] }
(* what is saved can be restored, and restores to an equal discriminator *)
(*@ ghost *)
  let ghost saved_loads (f: fsmap) (d: c_discriminator) (c: json) requires { dsaved f d c } requires { dsettings d c } requires { disc_ok d } requires { dtyped d }
    ensures { dloadable f c } ensures { forall e [dloaded f c e]. dloaded f c e -> dequal d e }
(*proof*)
  = saved_texts f d c; saved_map f d c true;
    let lemma l (e: c_discriminator) : unit requires { dloaded f c e } ensures { dequal d e }
      = assert { length d.disc_rams > 0 -> exists x m. rams_hold e.disc_rams (length d.disc_rams) m /\ data_is f (jopt_str c str_data) x /\ forall i. 0 <= i < length d.disc_rams -> umap_get m i = d.disc_rams[i].ram_positions };
        assert { length e.disc_rams = length d.disc_rams }; assert { forall i. 0 <= i < length d.disc_rams -> ram_set e.disc_rams[i] (j_at (j_get c str_mapping) i) (j_get c str_ignoreZero) (j_get c str_base) };
        assert { dsame_config d e } in ()
(* a configuration restores to an untrained discriminator *)
(*@ ghost *)
  let ghost config_loads (f: fsmap) (d: c_discriminator) (c: json) requires { dconf c d false } requires { j_null (j_get c str_data) } requires { dsettings d c } requires { disc_ok d } requires { dtyped d }
    ensures { dloadable f c } ensures { forall e [dloaded f c e]. dloaded f c e -> dblank d e }
(*proof*)
  = saved_map f d c false;
    let lemma l (e: c_discriminator) : unit requires { dloaded f c e } ensures { dblank d e }
      = assert { length (jopt_str c str_data) = 0 }; assert { length e.disc_rams = length d.disc_rams /\ rams_blank e.disc_rams };
        assert { forall i. 0 <= i < length d.disc_rams -> ram_set e.disc_rams[i] (j_at (j_get c str_mapping) i) (j_get c str_ignoreZero) (j_get c str_base) };
        assert { dsame_config d e } in ()
(*@ ghost *)
  let ghost saved_ext (f g: fsmap) requires { fs_ext f g } ensures { forall d c [dsaved f d c | dsaved g d c]. dsaved f d c -> dsaved g d c }
(*proof*)
  = assert { forall t x. data_is f t x -> data_is g t x }
(* with the settings given from outside *)
(*@ *)
  predicate dloadable_as (f: fsmap) (c iz base: json) = j_is_int (j_get c str_entrySize) /\ not (jbad_int c str_count) /\ not (jbad_str c str_data)
     /\ rams_readable f (j_get c str_mapping) iz base (jopt_str c str_data) /\ jmap_within (j_get c str_mapping) (j_size (j_get c str_mapping)) (j_to_int (j_get c str_entrySize))
(*@ *)
  predicate dloaded_as (f: fsmap) (c iz base: json) (d: c_discriminator) = d.disc_entrySize = j_to_int (j_get c str_entrySize) /\ d.disc_count = jopt_int c str_count 0
     /\ rams_read f d.disc_rams (j_get c str_mapping) iz base (jopt_str c str_data)
(*@ *)
  predicate jpatch (p: json) = j_obj p /\ (forall k. j_has p k <-> k = str_ignoreZero \/ k = str_base) /\ not (j_obj (j_get p str_ignoreZero)) /\ not (j_null (j_get p str_ignoreZero)) /\ not (j_obj (j_get p str_base)) /\ not (j_null (j_get p str_base))
(*@ ghost *)
  let ghost as_merged (f: fsmap) (c p: json) requires { jpatch p } ensures { dloadable f (j_merge c p) <-> dloadable_as f c (j_get p str_ignoreZero) (j_get p str_base) }
    ensures { forall d [dloaded f (j_merge c p) d]. dloaded f (j_merge c p) d <-> dloaded_as f c (j_get p str_ignoreZero) (j_get p str_base) d }
    ensures { j_obj (j_merge c p) } ensures { forall k [j_get (j_merge c p) k]. k <> str_ignoreZero /\ k <> str_base -> j_get (j_merge c p) k = j_get c k }
    ensures { j_get (j_merge c p) str_ignoreZero = j_get p str_ignoreZero /\ j_get (j_merge c p) str_base = j_get p str_base }
(*proof*)
  = assert { forall k. k <> str_ignoreZero /\ k <> str_base -> j_get (j_merge c p) k = j_get c k };
    assert { j_get (j_merge c p) str_ignoreZero = j_get p str_ignoreZero }; assert { j_get (j_merge c p) str_base = j_get p str_base };
    assert { jopt_str (j_merge c p) str_data = jopt_str c str_data /\ jopt_int (j_merge c p) str_count 0 = jopt_int c str_count 0 };
    assert { (jbad_str (j_merge c p) str_data <-> jbad_str c str_data) /\ (jbad_int (j_merge c p) str_count <-> jbad_int c str_count) }
(* equal discriminators take the same inputs, vote alike, and stay equal when both learn an input *)
(*@ ghost *)
  let lemma dequal_votes (d e: c_discriminator) requires { dequal d e } ensures { forall v. ddigits d v <-> ddigits e v } ensures { forall v w. dvotes d v w <-> dvotes e v w }
(*proof*)
  = ddigits_config d e;
    let lemma one (i:int) (v: seq int) : unit requires { 0 <= i < length d.disc_rams } ensures { rvote e.disc_rams[i] v = rvote d.disc_rams[i] v }
      = assert { same_config d.disc_rams[i] e.disc_rams[i] }; assert { ram_same e.disc_rams[i].ram_positions d.disc_rams[i].ram_positions } in
    assert { forall v w. dvotes d v w -> dvotes e v w }; assert { forall v w. dvotes e v w -> dvotes d v w }
(*@ ghost *)
  let lemma dequal_trains (d e d2 e2: c_discriminator) (v: seq int) requires { dequal d e } requires { dtrained d d2 v } requires { dtrained e e2 v } ensures { dequal d2 e2 }
(*proof*)
  = let lemma one (i:int) : unit requires { 0 <= i < length d.disc_rams } ensures { same_config d2.disc_rams[i] e2.disc_rams[i] } ensures { ram_same e2.disc_rams[i].ram_positions d2.disc_rams[i].ram_positions }
      = assert { same_config d.disc_rams[i] e.disc_rams[i] }; assert { ram_same e.disc_rams[i].ram_positions d.disc_rams[i].ram_positions }; assert { trained d.disc_rams[i] d2.disc_rams[i] v }; assert { trained e.disc_rams[i] e2.disc_rams[i] v };
        assert { raddr e.disc_rams[i] v = raddr d.disc_rams[i] v } in
    assert { forall i [e2.disc_rams[i]]. 0 <= i < length d2.disc_rams -> same_config d2.disc_rams[i] e2.disc_rams[i] }
(*@ ghost *)
  let ghost loaded_as (f: fsmap) (c: json) (iz: bool) (base: int) (d: c_discriminator) requires { dloaded_as f c (j_of_bool iz) (j_of_int base) d } requires { disc_ok d } requires { in_s32 base } ensures { disc_as d iz base }
(*proof*)
  = assert { j_to_bool (j_of_bool iz) = iz /\ j_to_int (j_of_int base) = base }
