(* BinInput: 8 values a byte, the first value in the highest bit; remain unused bits at the end *)
(*@ *)
  predicate bin_ok (b: c_bininput) = 0 <= b.bin_remain <= 7 /\ (length b.bin_input = 0 -> b.bin_remain = 0) /\ in_bytes b.bin_input
(*@ *)
  function bin_size (b: c_bininput) : int = 8 * length b.bin_input - b.bin_remain
(*@ *)
  function bin_bit (b: c_bininput) (i:int) : int = if bit b.bin_input[ED.div i 8] (7 - ED.mod i 8) then 1 else 0
(*@ *)
  function bin_view (b: c_bininput) : seq int
  axiom bin_view_len : forall b. bin_ok b -> length (bin_view b) = bin_size b
  axiom bin_view_get : forall b i [(bin_view b)[i]]. bin_ok b -> 0 <= i < bin_size b -> (bin_view b)[i] = bin_bit b i
(*@ *)
  predicate bin_text (b: c_bininput) (t: seq int) = bin_ok b /\ is_b64 (enc_s8 b.bin_remain ++ b.bin_input) t
(*@ ghost *)
  let ghost bin_src_all (t: seq int)
    ensures { forall b [bin_text b t]. bin_text b t -> b64_valid t /\ length (b64_src t) = 1 + length b.bin_input /\ (b64_src t)[0 .. 1] == enc_s8 b.bin_remain /\ dec_s8 (b64_src t)[0 .. 1] = b.bin_remain
      /\ (b64_src t)[1 ..] == b.bin_input }
(*proof*)
  = let lemma l (b: c_bininput) : unit requires { bin_text b t } ensures { b64_valid t /\ length (b64_src t) = 1 + length b.bin_input /\ (b64_src t)[0 .. 1] == enc_s8 b.bin_remain
      /\ dec_s8 (b64_src t)[0 .. 1] = b.bin_remain /\ (b64_src t)[1 ..] == b.bin_input }
      = let s = pure { enc_s8 b.bin_remain ++ b.bin_input } in
        assert { length (enc_s8 b.bin_remain) = 1 };
        assert { s[0] = b.bin_remain };
        assert { in_bytes s };
        b64_uniq s t;
        assert { (b64_src t)[0 .. 1] == enc_s8 b.bin_remain } in ()
(*@ ghost *)
  let ghost bin_set_view (b0 b1: c_bininput) (i v:int)
    requires { bin_ok b0 /\ bin_ok b1 } requires { 0 <= i < bin_size b0 } requires { b1.bin_remain = b0.bin_remain } requires { length b1.bin_input = length b0.bin_input }
    requires { forall j. 0 <= j < length b0.bin_input -> j <> ED.div i 8 -> b1.bin_input[j] = b0.bin_input[j] }
    requires { forall k. 0 <= k < 8 -> k <> 7 - ED.mod i 8 -> (bit b1.bin_input[ED.div i 8] k <-> bit b0.bin_input[ED.div i 8] k) }
    requires { bit b1.bin_input[ED.div i 8] (7 - ED.mod i 8) <-> v <> 0 }
    ensures { bin_view b1 == set (bin_view b0) i (if v <> 0 then 1 else 0) }
(*proof*)
  = let lemma l (j:int) : unit requires { 0 <= j < bin_size b0 } ensures { (bin_view b1)[j] = (set (bin_view b0) i (if v <> 0 then 1 else 0))[j] }
      = assert { 0 <= ED.div j 8 < length b0.bin_input }; assert { 0 <= ED.mod j 8 < 8 };
        assert { ED.div j 8 = ED.div i 8 /\ ED.mod j 8 = ED.mod i 8 -> j = i } in ()
