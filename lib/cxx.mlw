(* The meaning of the C++ and standard library operations that the translation of vf/trans.py uses.
   Items start with a line (*@ ... *); only the items that a function needs (by name) are part of its proof.
   (*@ lemma *) items have a proof after the line (*proof*); they are used as facts elsewhere and proved once. *)

(*@ base *)
  exception Throw

(*@ *)
  predicate in_s8 (x:int) = -128 <= x <= 127
(*@ *)
  predicate in_u8 (x:int) = 0 <= x <= 255
(*@ *)
  predicate in_s16 (x:int) = -32768 <= x <= 32767
(*@ *)
  predicate in_u16 (x:int) = 0 <= x <= 65535
(*@ *)
  predicate in_s32 (x:int) = -2147483648 <= x <= 2147483647
(*@ *)
  predicate in_u32 (x:int) = 0 <= x <= 4294967295
(*@ *)
  predicate in_s64 (x:int) = -9223372036854775808 <= x <= 9223372036854775807
(*@ *)
  predicate in_u64 (x:int) = 0 <= x <= 18446744073709551615

(* a stored integer always is a value of its type *)
(*@ *)
  val rd_s8 (x:int) : int ensures { result = x } ensures { -128 <= result <= 127 }
(*@ *)
  val rd_u8 (x:int) : int ensures { result = x } ensures { 0 <= result <= 255 }
(*@ *)
  val rd_s16 (x:int) : int ensures { result = x } ensures { -32768 <= result <= 32767 }
(*@ *)
  val rd_u16 (x:int) : int ensures { result = x } ensures { 0 <= result <= 65535 }
(*@ *)
  val rd_s32 (x:int) : int ensures { result = x } ensures { -2147483648 <= result <= 2147483647 }
(*@ *)
  val rd_u32 (x:int) : int ensures { result = x } ensures { 0 <= result <= 4294967295 }
(*@ *)
  val rd_s64 (x:int) : int ensures { result = x } ensures { -9223372036854775808 <= result <= 9223372036854775807 }
(*@ *)
  val rd_u64 (x:int) : int ensures { result = x } ensures { 0 <= result <= 18446744073709551615 }

(* conversion to a type of n bits: modulo 2^n *)
(*@ *)
  val function to_s8 (x:int) : int ensures { result = (if -128 <= x <= 127 then x else ED.mod (x + 128) 256 - 128) }
(*@ *)
  val function to_u8 (x:int) : int ensures { result = (if 0 <= x <= 255 then x else ED.mod x 256) }
(*@ *)
  val function to_s16 (x:int) : int ensures { result = (if -32768 <= x <= 32767 then x else ED.mod (x + 32768) 65536 - 32768) }
(*@ *)
  val function to_u16 (x:int) : int ensures { result = (if 0 <= x <= 65535 then x else ED.mod x 65536) }
(*@ *)
  val function to_s32 (x:int) : int ensures { result = (if -2147483648 <= x <= 2147483647 then x else ED.mod (x + 2147483648) 4294967296 - 2147483648) }
(*@ *)
  val function imul (a b:int) : int ensures { result = a * b }
(*@ *)
  val function to_u32 (x:int) : int ensures { result = (if 0 <= x <= 4294967295 then x else ED.mod x 4294967296) }
(*@ *)
  val function to_s64 (x:int) : int ensures { result = (if -9223372036854775808 <= x <= 9223372036854775807 then x else ED.mod (x + 9223372036854775808) 18446744073709551616 - 9223372036854775808) }
(*@ *)
  val function to_u64 (x:int) : int ensures { result = (if 0 <= x <= 18446744073709551615 then x else ED.mod x 18446744073709551616) }


(* signed arithmetic must not overflow *)
(*@ *)
  val chk_s32 (x:int) : int requires { [@expl:no signed overflow] -2147483648 <= x <= 2147483647 } ensures { result = x }
(*@ *)
  val chk_s64 (x:int) : int requires { [@expl:no signed overflow] -9223372036854775808 <= x <= 9223372036854775807 } ensures { result = x }

(* assumed: accumulating counters do not overflow *)
(*@ *)
  val acc_s32 (x:int) : int ensures { result = x } ensures { -2147483648 <= x <= 2147483647 }
(*@ *)
  val acc_s64 (x:int) : int ensures { result = x } ensures { -9223372036854775808 <= x <= 9223372036854775807 }

(* arbitrary values (uninitialised scalars) *)
(*@ *)
  val any_s8 () : int ensures { in_s8 result }
(*@ *)
  val any_u8 () : int ensures { in_u8 result }
(*@ *)
  val any_s16 () : int ensures { in_s16 result }
(*@ *)
  val any_u16 () : int ensures { in_u16 result }
(*@ *)
  val any_s32 () : int ensures { in_s32 result }
(*@ *)
  val any_u32 () : int ensures { in_u32 result }
(*@ *)
  val any_s64 () : int ensures { in_s64 result }
(*@ *)
  val any_u64 () : int ensures { in_u64 result }
(*@ *)
  val any_bool () : bool
(*@ *)
  val any_size () : int ensures { 0 < result < 100000 }

(*@ *)
  val function b2i (b:bool) : int ensures { result = (if b then 1 else 0) }
(*@ *)
  val function beq (a b:bool) : bool ensures { result = (if a then b else not b) }


(* C division truncates *)
(*@ *)
  val function cdiv (x y:int) : int ensures { result = (if x >= 0 then (if y >= 0 then ED.div x y else - (ED.div x (-y))) else (if y >= 0 then - (ED.div (-x) y) else ED.div (-x) (-y))) }
(*@ *)
  function cmod (x y:int) : int = x - y * cdiv x y
(*@ *)
  val cdiv_s32 (x y:int) : int requires { [@expl:division by zero] y <> 0 } requires { [@expl:no signed overflow] not (x = -2147483648 /\ y = -1) }
    ensures { x >= 0 /\ y > 0 -> result = ED.div x y } ensures { result = cdiv x y }
(*@ *)
  val cmod_s32 (x y:int) : int requires { [@expl:division by zero] y <> 0 } requires { [@expl:no signed overflow] not (x = -2147483648 /\ y = -1) }
    ensures { x >= 0 /\ y > 0 -> result = ED.mod x y /\ 0 <= result < y } ensures { result = cmod x y }
(*@ *)
  val cdiv_s64 (x y:int) : int requires { [@expl:division by zero] y <> 0 } requires { [@expl:no signed overflow] not (x = -9223372036854775808 /\ y = -1) }
    ensures { x >= 0 /\ y > 0 -> result = ED.div x y } ensures { result = cdiv x y }
(*@ *)
  val cmod_s64 (x y:int) : int requires { [@expl:division by zero] y <> 0 } requires { [@expl:no signed overflow] not (x = -9223372036854775808 /\ y = -1) }
    ensures { x >= 0 /\ y > 0 -> result = ED.mod x y /\ 0 <= result < y } ensures { result = cmod x y }
(*@ *)
  val udiv (x y:int) : int requires { [@expl:division by zero] y <> 0 } ensures { result = ED.div x y }
(*@ *)
  val umod (x y:int) : int requires { [@expl:division by zero] y <> 0 } ensures { result = ED.mod x y }

(* bits of the two's complement representation (infinite to the left) *)
(*@ *)
  predicate bit (x k:int)
(*@ *)
  val function band (x y:int) : int
  axiom bit_band : forall x y k. 0 <= k -> (bit (band x y) k <-> bit x k /\ bit y k)
(*@ *)
  val function bor (x y:int) : int
  axiom bit_bor : forall x y k. 0 <= k -> (bit (bor x y) k <-> bit x k \/ bit y k)
(* disjoint parts: the or is the sum *)
(*@ *)
  predicate mult (m x:int)
  val ghost mult_def (m x:int) : unit requires { m > 0 } ensures { mult m x <-> ED.mod x m = 0 }
(*@ lemma bor mult *)
  axiom bor_add : forall x y. (0 <= y < 2 /\ mult 2 x) \/ (0 <= y < 4 /\ mult 4 x) \/ (0 <= y < 16 /\ mult 16 x) \/ (0 <= y < 64 /\ mult 64 x) -> bor x y = x + y
(*@ *)
  val function bxor (x y:int) : int
  axiom bit_bxor : forall x y k. 0 <= k -> (bit (bxor x y) k <-> not (bit x k <-> bit y k))
(*@ *)
  val function bnot (x:int) : int ensures { result = - x - 1 }
  axiom bit_bnot : forall x k. 0 <= k -> (bit (bnot x) k <-> not (bit x k))
(* x & (hi - lo), a constant mask of contiguous bits: the bits below hi without those below lo (powers of 2) *)
(*@ *)
  function msk (x hi lo:int) : int
  val ghost msk_def (x hi lo:int) : unit requires { 0 < lo < hi } ensures { msk x hi lo = ED.mod x hi - ED.mod x lo }
(*@ *)
  val band_mask (x m hi lo:int) : int ensures { result = msk x hi lo } ensures { result = band x m } ensures { 0 <= result <= m }
(*@ *)
  val function pow2_big (n:int) : int
(*@ *)
  val function pow2 (n:int) : int ensures { result = (if n <= 0 then 1 else if n = 1 then 2 else if n = 2 then 4 else if n = 3 then 8 else if n = 4 then 16 else
    if n = 5 then 32 else if n = 6 then 64 else if n = 7 then 128 else pow2_big n) }
(*@ *)
  val function shl_ (x n:int) : int
  axiom bit_shl : forall x n k. 0 <= k /\ 0 <= n -> (bit (shl_ x n) k <-> k >= n /\ bit x (k - n))
(*@ *)
  val shl (x n:int) : int requires { [@expl:shift in range] 0 <= n < 32 }
    ensures { result = shl_ x n } ensures { result = x * pow2 n }
(* shifts by a constant, c = 2^n *)
(*@ *)
  val shl_k (x c:int) : int ensures { result = x * c }
(*@ *)
  val shr_k (x c:int) : int ensures { result = ED.div x c }
(*@ *)
  val function shr_ (x n:int) : int
  axiom bit_shr : forall x n k. 0 <= k /\ 0 <= n -> (bit (shr_ x n) k <-> bit x (k + n))
(*@ *)
  val shr (x n:int) : int requires { [@expl:shift in range] 0 <= n < 32 }
    ensures { result = shr_ x n } ensures { result = ED.div x (pow2 n) }
(*@ lemma *)
  axiom bit_01 : (forall k. 0 <= k -> not (bit 0 k)) /\ (forall k. 0 <= k -> (bit 1 k <-> k = 0))
(*@ lemma bit msk *)
  axiom bit_low : forall x. msk x 2 1 = (if bit x 0 then 1 else 0)
(*@ lemma *)
  axiom bit_to_s8 : forall x k. 0 <= k < 8 -> (bit (to_s8 x) k <-> bit x k)
(*@ *)
  val shl_fit_s32 (x:int) : int requires { [@expl:shifted value fits] -2147483648 <= x <= 4294967295 } ensures { result = to_s32 x }
(*@ *)
  val shl_fit_s64 (x:int) : int requires { [@expl:shifted value fits] -9223372036854775808 <= x <= 18446744073709551615 } ensures { result = to_s64 x }

(* ------------------------------------------------------------------ sequences (std::vector, std::string) *)
(*@ *)
  val vget (s: seq 'a) (i:int) : 'a requires { [@expl:index in bounds] 0 <= i < length s } ensures { result = s[i] }
(*@ *)
  val vset (s: seq 'a) (i:int) (v:'a) : seq 'a requires { [@expl:index in bounds] 0 <= i < length s }
    ensures { result = set s i v } ensures { length result = length s } ensures { result[i] = v }
    ensures { forall j [result[j]]. 0 <= j < length s /\ j <> i -> result[j] = s[j] }
(* assumed: containers have fewer than 2^31 elements *)
(*@ *)
  val vsize (s: seq 'a) : int ensures { result = length s } ensures { 0 <= result < 2147483648 }
(* a size of 2^31 or more (negative sizes converted to unsigned) raises std::length_error or std::bad_alloc *)
(*@ *)
  val vmake (n:int) (x:'a) : seq 'a ensures { 0 <= n < 2147483648 /\ length result = n } ensures { forall i. 0 <= i < n -> result[i] = x }
    raises { Throw -> n < 0 \/ n >= 2147483648 }
(*@ *)
  val vresize (s: seq 'a) (n:int) (x:'a) : seq 'a ensures { 0 <= n < 2147483648 /\ length result = n }
    ensures { forall i. 0 <= i < n -> result[i] = (if i < length s then s[i] else x) }
    raises { Throw -> n < 0 \/ n >= 2147483648 }
(*@ *)
  val vslice (s: seq 'a) (i j:int) : seq 'a requires { [@expl:range in bounds] 0 <= i <= j <= length s }
    ensures { result = s[i .. j] } ensures { length result = j - i } ensures { forall k. 0 <= k < j - i -> result[k] = s[i + k] }
(* permutations: perm_f gives the place an element comes from, perm_b the place it goes to *)
(*@ *)
  function perm_f (s r: seq 'a) (i:int) : int
  function perm_b (s r: seq 'a) (i:int) : int
  predicate permuted (s r: seq 'a) = length r = length s
    /\ (forall i. 0 <= i < length s -> 0 <= perm_f s r i < length s /\ r[i] = s[perm_f s r i] /\ perm_b s r (perm_f s r i) = i)
    /\ (forall i [s[i] | perm_b s r i]. 0 <= i < length s -> 0 <= perm_b s r i < length s /\ r[perm_b s r i] = s[i] /\ perm_f s r (perm_b s r i) = i)
(*@ *)
  val vpermute (s: seq 'a) : seq 'a ensures { permuted s result }
(*@ *)
  val seq_eq (a b: seq 'a) : bool ensures { result <-> a = b } ensures { a == b -> result }
(*@ *)
  val vsort (s: seq 'a) : seq 'a ensures { permuted s result }

(* ------------------------------------------------------------------ std::string *)
(*@ *)
  function min_ (a b:int) : int = if a <= b then a else b
(*@ *)
  val ssubstr (s: seq int) (i n:int) : seq int requires { 0 <= i <= length s } requires { 0 <= n }
    ensures { result = s[i .. min_ (i + n) (length s)] }
    ensures { length result = min_ n (length s - i) } ensures { forall k. 0 <= k < length result -> result[k] = s[i + k] }
(*@ *)
  val scompare (a b: seq int) : int ensures { result = 0 <-> a = b } ensures { a == b -> result = 0 } ensures { -2147483648 <= result <= 2147483647 }
(*@ *)
  val sfind_char (s: seq int) (c pos:int) : int
    ensures { result = 18446744073709551615 \/ (pos <= result < length s /\ s[result] = c) }
    ensures { forall k. pos <= k < length s /\ (k < result) -> s[k] <> c }
(*@ *)
  predicate occurs_at (s t: seq int) (i:int) = 0 <= i /\ i + length t <= length s /\ forall k. 0 <= k < length t -> s[i + k] = t[k]
(*@ *)
  val sfind_str (s t: seq int) (pos:int) : int
    ensures { length s < 2147483648 }
    ensures { result = 18446744073709551615 \/ (pos <= result /\ occurs_at s t result) }
    ensures { forall k. pos <= k < result -> not (occurs_at s t k) }
(*@ *)
  val srfind_str (s t: seq int) (pos:int) : int
    ensures { length s < 2147483648 }
    ensures { (result = 18446744073709551615 /\ forall k. k <= pos -> not (occurs_at s t k))
              \/ (0 <= result <= pos /\ occurs_at s t result /\ forall k. result < k <= pos -> not (occurs_at s t k)) }
(*@ *)
  val srfind_char (s: seq int) (c pos:int) : int
    ensures { (result = 18446744073709551615 /\ forall k. 0 <= k <= pos /\ k < length s -> s[k] <> c)
              \/ (0 <= result <= pos /\ result < length s /\ s[result] = c /\ forall k. result < k <= pos /\ k < length s -> s[k] <> c) }
(*@ *)
  val sreplace (s: seq int) (pos n:int) (r: seq int) : seq int requires { 0 <= pos <= length s } requires { 0 <= n }
    ensures { result = s[0 .. pos] ++ r ++ s[min_ (pos + n) (length s) ..] }
    ensures { length result = length s - min_ n (length s - pos) + length r }
    ensures { forall k. 0 <= k < pos -> result[k] = s[k] }
    ensures { forall k. pos <= k < pos + length r -> result[k] = r[k - pos] }
    ensures { forall k. pos + length r <= k < length result -> result[k] = s[k - length r + min_ n (length s - pos)] }
(* decimal text *)
(*@ *)
  function i2s (x:int) : seq int
  axiom i2s_digits : forall x k. 0 <= k < length (i2s x) -> ((i2s x)[k] = 45 \/ 48 <= (i2s x)[k] <= 57)
  axiom i2s_inj : forall x y. i2s x = i2s y -> x = y
  axiom i2s_len : forall x. length (i2s x) > 0
(*@ *)
  val int_to_string (x:int) : seq int ensures { result = i2s x }

(* ------------------------------------------------------------------ iterators, rand *)
(*@ *)
  val it_step (x:int) : int ensures { result = x }
(*@ *)
  predicate rand_value (x:int)
  val cxx_rand () : int ensures { 0 <= result <= 2147483647 } ensures { rand_value result }
(* a value drawn from lo..hi: a value of rand() reduced to the range *)
(*@ *)
  predicate drawn (lo hi x:int) = exists r. rand_value r /\ 0 <= r <= 2147483647 /\ x = lo + ED.mod r (hi - lo + 1)

(* ------------------------------------------------------------------ object representation (memcpy) *)
(*@ *)
  val function enc_s8 (v:int) : seq int
  val function dec_s8 (s: seq int) : int
  axiom enc_s8_len : forall v. length (enc_s8 v) = 1
  axiom dec_enc_s8 : forall v. in_s8 v -> dec_s8 (enc_s8 v) = v
  axiom dec_s8_range : forall s. in_s8 (dec_s8 s)
  axiom enc_s8_1 : forall v. -128 <= v <= 127 -> (enc_s8 v)[0] = v
  axiom dec_s8_1 : forall s. length s = 1 /\ -128 <= s[0] <= 127 -> dec_s8 s = s[0]
(*@ *)
  val bytes_put_s8 (s: seq int) (v nb:int) : seq int requires { [@expl:memcpy of the whole value] nb = 1 } requires { [@expl:memcpy in bounds] nb <= length s }
    ensures { length result = length s } ensures { length s = 1 -> result = enc_s8 v } ensures { result = enc_s8 v ++ s[1 ..] }
(*@ *)
  val bytes_get_s8 (s: seq int) (nb:int) : int requires { [@expl:memcpy of the whole value] nb = 1 } requires { [@expl:memcpy in bounds] nb <= length s + 1 }
    ensures { in_s8 result } ensures { length s >= 1 -> result = dec_s8 s[0 .. 1] } ensures { length s = 1 -> result = dec_s8 s }
(*@ *)
  val function enc_u8 (v:int) : seq int
  val function dec_u8 (s: seq int) : int
  axiom enc_u8_len : forall v. length (enc_u8 v) = 1
  axiom dec_enc_u8 : forall v. in_u8 v -> dec_u8 (enc_u8 v) = v
  axiom dec_u8_range : forall s. in_u8 (dec_u8 s)
(*@ *)
  val bytes_put_u8 (s: seq int) (v nb:int) : seq int requires { [@expl:memcpy of the whole value] nb = 1 } requires { [@expl:memcpy in bounds] nb <= length s }
    ensures { length result = length s } ensures { length s = 1 -> result = enc_u8 v } ensures { result = enc_u8 v ++ s[1 ..] }
(*@ *)
  val bytes_get_u8 (s: seq int) (nb:int) : int requires { [@expl:memcpy of the whole value] nb = 1 } requires { [@expl:memcpy in bounds] nb <= length s + 1 }
    ensures { in_u8 result } ensures { length s >= 1 -> result = dec_u8 s[0 .. 1] } ensures { length s = 1 -> result = dec_u8 s }
(*@ *)
  val function enc_s32 (v:int) : seq int
  val function dec_s32 (s: seq int) : int
  axiom enc_s32_bytes : forall v i. 0 <= i < 4 -> in_s8 (enc_s32 v)[i]
  axiom enc_s32_len : forall v. length (enc_s32 v) = 4
  axiom dec_enc_s32 : forall v. in_s32 v -> dec_s32 (enc_s32 v) = v
  axiom dec_s32_range : forall s. in_s32 (dec_s32 s)
(*@ *)
  val bytes_put_s32 (s: seq int) (v nb:int) : seq int requires { [@expl:memcpy of the whole value] nb = 4 } requires { [@expl:memcpy in bounds] nb <= length s }
    ensures { length result = length s } ensures { length s = 4 -> result = enc_s32 v } ensures { result = enc_s32 v ++ s[4 ..] }
(*@ *)
  val bytes_get_s32 (s: seq int) (nb:int) : int requires { [@expl:memcpy of the whole value] nb = 4 } requires { [@expl:memcpy in bounds] nb <= length s + 1 }
    ensures { in_s32 result } ensures { length s >= 4 -> result = dec_s32 s[0 .. 4] } ensures { length s = 4 -> result = dec_s32 s }
(*@ *)
  val function enc_u32 (v:int) : seq int
  val function dec_u32 (s: seq int) : int
  axiom enc_u32_len : forall v. length (enc_u32 v) = 4
  axiom dec_enc_u32 : forall v. in_u32 v -> dec_u32 (enc_u32 v) = v
  axiom dec_u32_range : forall s. in_u32 (dec_u32 s)
(*@ *)
  val bytes_put_u32 (s: seq int) (v nb:int) : seq int requires { [@expl:memcpy of the whole value] nb = 4 } requires { [@expl:memcpy in bounds] nb <= length s }
    ensures { length result = length s } ensures { length s = 4 -> result = enc_u32 v } ensures { result = enc_u32 v ++ s[4 ..] }
(*@ *)
  val bytes_get_u32 (s: seq int) (nb:int) : int requires { [@expl:memcpy of the whole value] nb = 4 } requires { [@expl:memcpy in bounds] nb <= length s + 1 }
    ensures { in_u32 result } ensures { length s >= 4 -> result = dec_u32 s[0 .. 4] } ensures { length s = 4 -> result = dec_u32 s }
(*@ *)
  val function enc_s64 (v:int) : seq int
  val function dec_s64 (s: seq int) : int
  axiom enc_s64_len : forall v. length (enc_s64 v) = 8
  axiom dec_enc_s64 : forall v. in_s64 v -> dec_s64 (enc_s64 v) = v
  axiom dec_s64_range : forall s. in_s64 (dec_s64 s)
(*@ *)
  val bytes_put_s64 (s: seq int) (v nb:int) : seq int requires { [@expl:memcpy of the whole value] nb = 8 } requires { [@expl:memcpy in bounds] nb <= length s }
    ensures { length result = length s } ensures { length s = 8 -> result = enc_s64 v } ensures { result = enc_s64 v ++ s[8 ..] }
(*@ *)
  val bytes_get_s64 (s: seq int) (nb:int) : int requires { [@expl:memcpy of the whole value] nb = 8 } requires { [@expl:memcpy in bounds] nb <= length s + 1 }
    ensures { in_s64 result } ensures { length s >= 8 -> result = dec_s64 s[0 .. 8] } ensures { length s = 8 -> result = dec_s64 s }
(*@ *)
  val function enc_u64 (v:int) : seq int
  val function dec_u64 (s: seq int) : int
  axiom enc_u64_bytes : forall v i. 0 <= i < 8 -> in_s8 (enc_u64 v)[i]
  axiom enc_u64_len : forall v. length (enc_u64 v) = 8
  axiom dec_enc_u64 : forall v. in_u64 v -> dec_u64 (enc_u64 v) = v
  axiom dec_u64_range : forall s. in_u64 (dec_u64 s)
(*@ *)
  val bytes_put_u64 (s: seq int) (v nb:int) : seq int requires { [@expl:memcpy of the whole value] nb = 8 } requires { [@expl:memcpy in bounds] nb <= length s }
    ensures { length result = length s } ensures { length s = 8 -> result = enc_u64 v } ensures { result = enc_u64 v ++ s[8 ..] }
(*@ *)
  val bytes_get_u64 (s: seq int) (nb:int) : int requires { [@expl:memcpy of the whole value] nb = 8 } requires { [@expl:memcpy in bounds] nb <= length s + 1 }
    ensures { in_u64 result } ensures { length s >= 8 -> result = dec_u64 s[0 .. 8] } ensures { length s = 8 -> result = dec_u64 s }
(* numbers of string constants: different constants are different texts *)
(*@ *)
  predicate s_ascii (s: seq int) = forall i [s[i]]. 0 <= i < length s -> 0 <= s[i] < 128
(*@ *)
  function lit_id (s: seq int) : int
