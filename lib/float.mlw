(* Floating point: an abstract type ordered by an integer rank (both zeros have the same rank; infinities are the ends).
   The axioms are IEEE 754 facts about binary32/binary64 with rounding to nearest; values of type float are values of type double. *)
(*@ *)
  type fl
(*@ *)
  val any_fl () : fl
(*@ *)
  val function fl_rk (x:fl) : int
(*@ *)
  val predicate fl_nan (x:fl)
(*@ *)
  val predicate fl_inf (x:fl)
(*@ *)
  let predicate fl_lt (x y:fl) = not (fl_nan x) && not (fl_nan y) && fl_rk x < fl_rk y
(*@ *)
  let predicate fl_le (x y:fl) = not (fl_nan x) && not (fl_nan y) && fl_rk x <= fl_rk y
(*@ *)
  let predicate fl_gt (x y:fl) = not (fl_nan x) && not (fl_nan y) && fl_rk x > fl_rk y
(*@ *)
  let predicate fl_ge (x y:fl) = not (fl_nan x) && not (fl_nan y) && fl_rk x >= fl_rk y
(*@ *)
  let predicate fl_eq (x y:fl) = not (fl_nan x) && not (fl_nan y) && fl_rk x = fl_rk y
(* the integers of a double, of a float *)
(*@ *)
  val function fl_of_int (x:int) : fl
  axiom fl_of_int_num : forall x. not (fl_nan (fl_of_int x)) /\ not (fl_inf (fl_of_int x))
  axiom fl_unit_fin : forall x [fl_inf x]. not (fl_nan x) /\ fl_rk (fl_of_int 0) <= fl_rk x <= fl_rk (fl_of_int 1) -> not (fl_inf x)
  axiom fl_of_int_mono : forall x y. x <= y -> fl_rk (fl_of_int x) <= fl_rk (fl_of_int y)
  axiom fl_of_int_strict : forall x y. -9007199254740992 <= x < y <= 9007199254740992 -> fl_rk (fl_of_int x) < fl_rk (fl_of_int y)
(*@ *)
  val function fl_of_int32 (x:int) : fl
  axiom fl_of_int32_num : forall x. -18446744073709551616 <= x <= 18446744073709551616 -> not (fl_nan (fl_of_int32 x)) /\ not (fl_inf (fl_of_int32 x))
  axiom fl_of_int32_mono : forall x y. x <= y -> fl_rk (fl_of_int32 x) <= fl_rk (fl_of_int32 y)
  axiom fl_of_int32_eq : forall x y. fl_rk (fl_of_int32 x) = fl_rk (fl_of_int32 y) -> fl_of_int32 x = fl_of_int32 y
  axiom fl_of_int32_strict : forall x y. -16777216 <= x < y <= 16777216 -> fl_rk (fl_of_int32 x) < fl_rk (fl_of_int32 y)
(*@ lemma *)
  axiom fl_of_int_same : forall x. -16777216 <= x <= 16777216 -> fl_of_int32 x = fl_of_int x
(*@ *)
  val function fl_round32 (x:fl) : fl
(*@ lemma fl_round32 *)
  axiom fl_round32_int : forall x. -16777216 <= x <= 16777216 -> fl_round32 (fl_of_int x) = fl_of_int x
  axiom fl_round32_int32 : forall x. fl_round32 (fl_of_int32 x) = fl_of_int32 x
(*@ *)
  val function fl_neg (x:fl) : fl
  axiom fl_neg_int : forall x. 0 < x -> fl_neg (fl_of_int x) = fl_of_int (- x)
(*@ *)
  val function fl_add (x y:fl) : fl
(*@ *)
  val function fl_sub (x y:fl) : fl
(*@ *)
  val function fl_mul (x y:fl) : fl
(*@ *)
  val function fl_div (x y:fl) : fl
(*@ *)
  val function fl_add32 (x y:fl) : fl
(*@ *)
  val function fl_sub32 (x y:fl) : fl
(*@ *)
  val function fl_mul32 (x y:fl) : fl
(*@ *)
  val function fl_div32 (x y:fl) : fl
(*@ lemma fl_round32 fl_add32 *)
  axiom fl_round32_add : forall x y. fl_round32 (fl_add32 x y) = fl_add32 x y
(*@ lemma fl_sub32 *)
  axiom fl_sub32_range : forall x y. fl_le (fl_of_int 0) y /\ fl_le y x /\ not (fl_inf x) -> fl_le (fl_of_int 0) (fl_sub32 x y) /\ fl_le (fl_sub32 x y) x
  axiom fl_sub32_pos : forall x y. fl_le (fl_of_int 0) y /\ fl_lt y x /\ not (fl_inf x) -> fl_lt (fl_of_int 0) (fl_sub32 x y)
(*@ lemma fl_div32 *)
  axiom fl_div32_range : forall x y. fl_le (fl_of_int 0) x /\ fl_le x y /\ fl_lt (fl_of_int 0) y /\ not (fl_inf y) -> fl_le (fl_of_int 0) (fl_div32 x y) /\ fl_le (fl_div32 x y) (fl_of_int 1)
(* a conversion to an integer type is defined only for values whose integral part the type has *)
(*@ *)
  val function fl_to_int (x:fl) : int
  axiom fl_to_int_trunc : forall x:fl. not (fl_nan x) -> (fl_rk x >= fl_rk (fl_of_int 0) -> fl_rk (fl_of_int (fl_to_int x)) <= fl_rk x /\ fl_rk x <= fl_rk (fl_of_int (fl_to_int x + 1)) /\ 0 <= fl_to_int x)
     /\ (fl_rk x <= fl_rk (fl_of_int 0) -> fl_rk (fl_of_int (fl_to_int x)) >= fl_rk x /\ fl_rk x >= fl_rk (fl_of_int (fl_to_int x - 1)) /\ fl_to_int x <= 0)
  axiom fl_to_int_of_int : forall x. -9007199254740992 <= x <= 9007199254740992 -> fl_to_int (fl_of_int x) = x
(*@ *)
  val fl_to_int_s32 (x:fl) : int requires { [@expl:a number that the integer type has] not (fl_nan x) /\ fl_rk (fl_of_int (-2147483649)) < fl_rk x < fl_rk (fl_of_int 2147483648) } ensures { result = fl_to_int x } ensures { in_s32 result }
(*@ *)
  val fl_to_int_u32 (x:fl) : int requires { [@expl:a number that the integer type has] not (fl_nan x) /\ fl_rk (fl_of_int (-1)) < fl_rk x < fl_rk (fl_of_int 4294967296) } ensures { result = fl_to_int x } ensures { in_u32 result }
(*@ *)
  val fl_to_int_s64 (x:fl) : int requires { [@expl:a number that the integer type has] not (fl_nan x) /\ fl_rk (fl_of_int (-9223372036854775808)) <= fl_rk x < fl_rk (fl_of_int 9223372036854775808) } ensures { result = fl_to_int x } ensures { in_s64 result }
(*@ *)
  val fl_to_int_u64 (x:fl) : int requires { [@expl:a number that the integer type has] not (fl_nan x) /\ fl_rk (fl_of_int (-1)) < fl_rk x < fl_rk (fl_of_int 18446744073709551616) } ensures { result = fl_to_int x } ensures { in_u64 result }
(*@ *)
  val function fl_sqrt (x:fl) : fl
(*@ *)
  val function fl_tanh (x:fl) : fl
(*@ *)
  val function fl_round (x:fl) : fl
(*@ *)
  val function fl_pow (x y:fl) : fl
(*@ *)
  val function fl_floor (x:fl) : fl
(*@ *)
  val function fl_ceil (x:fl) : fl
(*@ *)
  val function fl_fabs (x:fl) : fl
(*@ *)
  val function fl_exp (x:fl) : fl
(*@ *)
  val function fl_log (x:fl) : fl
(* bounded magnitude: |x| <= b, b an integer every double computation below represents exactly *)
(*@ *)
  predicate fl_mag (b:int) (x:fl)
  axiom fl_mag_def : forall b x [fl_mag b x]. fl_mag b x -> not (fl_nan x) /\ fl_rk (fl_of_int (- b)) <= fl_rk x <= fl_rk (fl_of_int b)
(*@ lemma fl_mag *)
  axiom fl_mag_fin : forall b x [fl_mag b x]. fl_mag b x -> not (fl_inf x)
  axiom fl_mag_int : forall b x [fl_mag b (fl_of_int x)]. - b <= x <= b -> fl_mag b (fl_of_int x)
(*@ lemma fl_mag fl_sub *)
  axiom fl_mag_sub : forall a b x y [fl_mag a x, fl_mag b y, fl_sub x y]. 0 <= a /\ 0 <= b /\ a + b <= 9007199254740992 /\ fl_mag a x /\ fl_mag b y -> fl_mag (a + b) (fl_sub x y)
(*@ lemma fl_mag fl_add *)
  axiom fl_mag_add : forall a b x y [fl_mag a x, fl_mag b y, fl_add x y]. 0 <= a /\ 0 <= b /\ a + b <= 9007199254740992 /\ fl_mag a x /\ fl_mag b y -> fl_mag (a + b) (fl_add x y)
(*@ lemma fl_mag fl_mul *)
  axiom fl_mag_mul1 : forall b x y [fl_mag 1 x, fl_mag b y, fl_mul x y]. 0 <= b <= 9007199254740992 /\ fl_mag 1 x /\ fl_mag b y -> fl_mag b (fl_mul x y)
(*@ lemma fl_mag fl_div *)
  axiom fl_mag_div1 : forall x y [fl_div (fl_of_int x) (fl_of_int y)]. 0 <= x <= y /\ 0 < y <= 9007199254740992 -> fl_mag 1 (fl_div (fl_of_int x) (fl_of_int y))
(* not a number: where it comes from *)
(*@ *)
  predicate fl_pos (x:fl) = not (fl_nan x) /\ fl_rk x >= fl_rk (fl_of_int 0)
(*@ lemma fl_pos fl_sub *)
  axiom fl_sub_nan : forall x y. not (fl_nan y) /\ not (fl_inf y) -> (fl_nan (fl_sub x y) <-> fl_nan x)
(*@ lemma fl_pos fl_mul *)
  axiom fl_mul_self : forall x. (fl_nan (fl_mul x x) <-> fl_nan x) /\ (not (fl_nan x) -> fl_pos (fl_mul x x))
(*@ lemma fl_pos fl_add *)
  axiom fl_add_nan : forall x y. fl_nan x \/ fl_nan y -> fl_nan (fl_add x y)
  axiom fl_add_pos : forall x y. fl_pos x /\ fl_pos y -> fl_pos (fl_add x y)
(*@ lemma fl_pos fl_sqrt *)
  axiom fl_sqrt_pos : forall x. (fl_pos x -> fl_pos (fl_sqrt x)) /\ (fl_nan x -> fl_nan (fl_sqrt x))
(*@ lemma fl_round fl_mul32 *)
  axiom fl_round_pos : forall x. not (fl_nan x) /\ fl_rk x >= fl_rk (fl_of_int 0) -> not (fl_nan (fl_round x)) /\ fl_rk (fl_round x) >= fl_rk (fl_of_int 0)
  axiom fl_mul32_pos : forall x n. fl_le (fl_of_int 0) x /\ fl_le x (fl_of_int 1) /\ 0 <= n <= 4294967296 -> fl_le (fl_of_int 0) (fl_mul32 x (fl_of_int32 n))
