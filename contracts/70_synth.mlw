(* Synthesizer: pattern p of the image has a 1 where the image is bigger than p *)
(*@ *)
  predicate syn_ok (s: c_synthesizer) = 0 <= s.syn_maxData
    /\ forall i k [omap_mem s.syn_cube[i] k | omap_get s.syn_cube[i] k]. 0 <= i < length s.syn_cube -> omap_mem s.syn_cube[i] k -> omap_get s.syn_cube[i] k = 1 /\ 0 <= k < s.syn_maxData
(*@ *)
  predicate top_of (v: seq int) (m n:int) = 0 <= m /\ (forall i. 0 <= i < n -> v[i] <= m) /\ (m = 0 \/ exists i. 0 <= i < n /\ v[i] = m)
(*@ *)
  predicate syn_of (s: c_synthesizer) (v: seq int) = length s.syn_cube = length v /\ top_of v s.syn_maxData (length v)
    /\ forall i k [omap_mem s.syn_cube[i] k]. 0 <= i < length v -> (omap_mem s.syn_cube[i] k <-> 0 <= k < v[i])
(* the patterns *)
(*@ *)
  predicate pattern_at (v: seq int) (p:int) (r: seq int) = length r = length v /\ forall i. 0 <= i < length v -> r[i] = (if p < v[i] then 1 else 0)
(*@ ghost *)
  let lemma syn_pattern (s: c_synthesizer) (p:int) (r: seq int)
    requires { syn_ok s } requires { 0 <= p } requires { length r = length s.syn_cube } requires { forall i. 0 <= i < length r -> r[i] = (if omap_mem s.syn_cube[i] p then 1 else 0) }
    ensures { forall v. syn_of s v -> pattern_at v p r }
(*proof*)
  = ()
(* position i is 1 in exactly min(max(v_i, 0), m) of the patterns 0 .. m - 1 *)
(*@ *)
  function ones (x n:int) : int
  axiom ones_0 : forall x n. n <= 0 -> ones x n = 0
  axiom ones_s : forall x n. n > 0 -> ones x n = ones x (n - 1) + (if n - 1 < x then 1 else 0)
(*@ ghost *)
  let rec lemma ones_number (x m:int) requires { 0 <= m } ensures { ones x m = (if x <= 0 then 0 else if x <= m then x else m) } variant { m }
(*proof*)
  = if m > 0 then ones_number x (m - 1)
