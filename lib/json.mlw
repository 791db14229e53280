(* nlohmann::json: values are immutable here. jget gives null for a member that is not there. Only finite numbers are encoded. *)
(*@ *)
  type json
(*@ *)
  val constant jnull : json
(*@ *)
  val predicate j_null (j: json)
  axiom j_null_def : forall j. j_null j <-> j = jnull
(*@ *)
  val predicate j_obj (j: json)
  axiom j_obj_null : not (j_obj jnull)
(*@ *)
  predicate j_has (j: json) (k: seq int)
  axiom j_has_obj : forall j k. j_has j k -> j_obj j
(*@ *)
  function j_get (j: json) (k: seq int) : json
  axiom j_get_none : forall j k. not (j_has j k) -> j_get j k = jnull
(*@ *)
  function j_set (j: json) (k: seq int) (v: json) : json
  axiom j_set_obj : forall j k v. j_obj (j_set j k v)
  axiom j_set_has : forall j k v x [j_has (j_set j k v) x]. j_null j \/ j_obj j -> (j_has (j_set j k v) x <-> x = k \/ j_has j x)
  axiom j_set_get : forall j k v x [j_get (j_set j k v) x]. j_null j \/ j_obj j -> j_get (j_set j k v) x = if x = k then v else j_get j x
(* operator[] of a name: null becomes an object, a missing member is added as null *)
(*@ *)
  val json_touch (j: json) (k: seq int) : json
    ensures { j_null j \/ j_obj j } ensures { j_obj result } ensures { j_has j k -> result = j } ensures { not (j_has j k) -> result = j_set j k jnull } ensures { forall x [j_get result x]. j_get result x = j_get j x } ensures { j_has result k }
    raises { Throw -> not (j_null j) /\ not (j_obj j) }
(*@ *)
  val json_field (j: json) (k: seq int) : json requires { [@expl:member present] j_has j k } ensures { result = j_get j k }
(*@ *)
  val json_set (j: json) (k: seq int) (v: json) : json requires { [@expl:member present] j_has j k } ensures { result = j_set j k v }
(*@ *)
  val json_member (k: seq int) (v: json) (j: json) : json requires { j_null j \/ j_obj j } ensures { result = if j_has j k then j else j_set j k v } ensures { j_obj result }
    ensures { forall x [j_get result x]. j_get result x = if x = k /\ not (j_has j k) then v else j_get j x } ensures { forall x [j_has result x]. j_has result x <-> x = k \/ j_has j x }
(* the members of an object in the order of their names, the elements of an array, a plain value as one element *)
(*@ *)
  function j_size (j: json) : int
  axiom j_size_nat : forall j. 0 <= j_size j
  axiom j_size_null : j_size jnull = 0
(*@ *)
  function j_at (j: json) (i: int) : json
(*@ *)
  function j_key (j: json) (i: int) : seq int
(*@ *)
  function j_pos (j: json) (k: seq int) : int
  axiom j_key_has : forall j i. j_obj j /\ 0 <= i < j_size j -> j_has j (j_key j i) /\ j_at j i = j_get j (j_key j i) /\ j_pos j (j_key j i) = i
  axiom j_pos_key : forall j k. j_has j k -> 0 <= j_pos j k < j_size j /\ j_key j (j_pos j k) = k
(*@ *)
  val json_size (j: json) : int ensures { result = j_size j /\ 0 <= result < 2147483648 }
(*@ *)
  val json_at (j: json) (i: int) : json requires { [@expl:valid iterator] 0 <= i < j_size j } ensures { result = j_at j i }
(*@ *)
  val json_key_at (j: json) (i: int) : seq int requires { [@expl:valid iterator] 0 <= i < j_size j } ensures { result = j_key j i /\ j_obj j } raises { Throw -> not (j_obj j) }
(* merge_patch: a member of the patch replaces that member, null removes it, an object is merged into it; a patch that is no object replaces all *)
(*@ *)
  function j_merge (a p: json) : json
  axiom j_merge_other : forall a p. not (j_obj p) -> j_merge a p = p
  axiom j_merge_obj : forall a p. j_obj p -> j_obj (j_merge a p)
  axiom j_merge_has : forall a p k [j_has (j_merge a p) k]. j_obj p -> (j_has (j_merge a p) k <-> if j_has p k then not (j_null (j_get p k)) else j_has a k)
  axiom j_merge_get : forall a p k [j_get (j_merge a p) k]. j_obj p -> j_get (j_merge a p) k = if j_has p k then (if j_null (j_get p k) then jnull else j_merge (j_get a k) (j_get p k)) else j_get a k
(*@ *)
  val json_merge (a p: json) : json ensures { result = j_merge a p }
(* the encoding of values *)
(*@ *)
  val function j_of_bool (x: bool) : json
  axiom j_of_bool_other : forall x [j_of_bool x]. not (j_obj (j_of_bool x)) /\ not (j_null (j_of_bool x))
(*@ *)
  val function j_of_int (x: int) : json
  axiom j_of_int_other : forall x [j_of_int x]. not (j_obj (j_of_int x)) /\ not (j_null (j_of_int x))
(*@ *)
  function j_of_f32 (x: fl) : json
  axiom j_of_f32_other : forall x [j_of_f32 x]. not (j_obj (j_of_f32 x)) /\ not (j_null (j_of_f32 x))
(*@ *)
  val json_of_f32 (x: fl) : json requires { [@expl:a finite number] not (fl_nan x) /\ not (fl_inf x) } ensures { result = j_of_f32 x }
(*@ *)
  val function j_of_str (x: seq int) : json
  axiom j_of_str_other : forall x [j_of_str x]. not (j_obj (j_of_str x)) /\ not (j_null (j_of_str x))
(*@ *)
  val function j_of_vi (x: seq int) : json
  axiom j_of_vi_other : forall x [j_of_vi x]. not (j_obj (j_of_vi x)) /\ not (j_null (j_of_vi x))
(*@ *)
  val function j_of_vvi (x: seq (seq int)) : json
  axiom j_of_vvi_other : forall x [j_of_vvi x]. not (j_obj (j_of_vvi x)) /\ not (j_null (j_of_vvi x))
  axiom j_of_vvi_at : forall x [j_of_vvi x]. j_size (j_of_vvi x) = length x /\ forall i [j_at (j_of_vvi x) i]. 0 <= i < length x -> j_at (j_of_vvi x) i = j_of_vi x[i]
(*@ *)
  val function j_of_mvv (x: omap (seq int) (seq (seq int))) : json
  axiom j_of_mvv_other : forall x [j_of_mvv x]. j_obj (j_of_mvv x)
(* reading values: which values can be read as a type is not specified beyond the encodings of that type *)
(*@ *)
  predicate j_is_bool (j: json)
  axiom j_is_bool_plain : forall j [j_is_bool j]. j_is_bool j -> not (j_obj j) /\ not (j_null j)
(*@ *)
  function j_to_bool (j: json) : bool
  axiom j_to_bool_of : forall x [j_of_bool x]. j_is_bool (j_of_bool x) /\ j_to_bool (j_of_bool x) = x
(*@ *)
  val json_get_bool (j: json) : bool ensures { j_is_bool j /\ result = j_to_bool j } raises { Throw -> not (j_is_bool j) }
(*@ *)
  predicate j_is_int (j: json)
  axiom j_is_int_null : forall j [j_is_int j]. j_is_int j -> not (j_obj j) /\ not (j_null j)
(*@ *)
  function j_to_int (j: json) : int
  axiom j_to_int_of : forall x [j_of_int x]. -2147483648 <= x <= 2147483647 -> j_is_int (j_of_int x) /\ j_to_int (j_of_int x) = x
(*@ *)
  val json_get_int (j: json) : int ensures { j_is_int j /\ result = j_to_int j /\ -2147483648 <= result <= 2147483647 } raises { Throw -> not (j_is_int j) }
(*@ *)
  function j_to_u32 (j: json) : int
  axiom j_to_u32_of : forall x [j_of_int x]. 0 <= x <= 4294967295 -> j_is_int (j_of_int x) /\ j_to_u32 (j_of_int x) = x
(*@ *)
  val json_get_u32 (j: json) : int ensures { j_is_int j /\ result = j_to_u32 j /\ 0 <= result <= 4294967295 } raises { Throw -> not (j_is_int j) }
(*@ *)
  function j_to_f32 (j: json) : fl
  axiom j_to_f32_of : forall x [j_of_f32 x]. j_is_int (j_of_f32 x) /\ j_to_f32 (j_of_f32 x) = x
(*@ *)
  val json_get_float (j: json) : fl ensures { j_is_int j /\ result = j_to_f32 j /\ fl_round32 result = result } raises { Throw -> not (j_is_int j) }
(*@ *)
  predicate j_is_str (j: json)
(*@ *)
  function j_to_str (j: json) : seq int
  axiom j_to_str_of : forall x [j_of_str x]. j_is_str (j_of_str x) /\ j_to_str (j_of_str x) = x
(*@ *)
  val json_get_str (j: json) : seq int ensures { j_is_str j /\ result = j_to_str j /\ length result < 2147483648 } ensures { forall i. 0 <= i < length result -> in_s8 result[i] } raises { Throw -> not (j_is_str j) }
(*@ *)
  predicate j_is_vi (j: json)
(*@ *)
  function j_to_vi (j: json) : seq int
  axiom j_to_vi_of : forall x [j_of_vi x]. j_is_vi (j_of_vi x) /\ j_to_vi (j_of_vi x) = x
(*@ *)
  val json_get_vi (j: json) : seq int ensures { j_is_vi j /\ result = j_to_vi j /\ length result < 2147483648 } ensures { forall i. 0 <= i < length result -> in_s32 result[i] } raises { Throw -> not (j_is_vi j) }
(*@ *)
  predicate j_is_vvi (j: json)
(*@ *)
  function j_to_vvi (j: json) : seq (seq int)
  axiom j_to_vvi_of : forall x [j_of_vvi x]. j_is_vvi (j_of_vvi x) /\ j_to_vvi (j_of_vvi x) = x
(*@ *)
  val json_get_vvi (j: json) : seq (seq int) ensures { j_is_vvi j /\ result = j_to_vvi j /\ length result < 2147483648 } ensures { forall i. 0 <= i < length result -> length result[i] < 2147483648 /\ forall k. 0 <= k < length result[i] -> in_s32 result[i][k] } raises { Throw -> not (j_is_vvi j) }
(*@ *)
  predicate j_is_mvv (j: json)
(*@ *)
  function j_to_mvv (j: json) : omap (seq int) (seq (seq int))
  axiom j_to_mvv_of : forall x [j_of_mvv x]. j_is_mvv (j_of_mvv x) /\ j_to_mvv (j_of_mvv x) = x
(*@ *)
  val json_get_mvv (j: json) : omap (seq int) (seq (seq int)) ensures { j_is_mvv j /\ result = j_to_mvv j } raises { Throw -> not (j_is_mvv j) }
(* texts: writing fails only for strings that are not UTF-8; what was written is read back as the same value *)
(*@ *)
  predicate s_utf8 (s: seq int)
  axiom s_utf8_ascii : forall s [s_utf8 s]. s_ascii s -> s_utf8 s
(*@ *)
  predicate j_utf8 (j: json)
  axiom j_utf8_null : j_utf8 jnull
  axiom j_utf8_bool : forall x [j_of_bool x]. j_utf8 (j_of_bool x)
  axiom j_utf8_int : forall x [j_of_int x]. j_utf8 (j_of_int x)
  axiom j_utf8_f32 : forall x [j_of_f32 x]. j_utf8 (j_of_f32 x)
  axiom j_utf8_vi : forall x [j_of_vi x]. j_utf8 (j_of_vi x)
  axiom j_utf8_vvi : forall x [j_of_vvi x]. j_utf8 (j_of_vvi x)
  axiom j_utf8_mvv : forall x [j_of_mvv x]. (forall k. omap_mem x k -> s_utf8 k) -> j_utf8 (j_of_mvv x)
  axiom j_utf8_str : forall x [j_of_str x]. s_utf8 x -> j_utf8 (j_of_str x)
  axiom j_utf8_set : forall j k v [j_set j k v]. j_utf8 j /\ s_utf8 k /\ j_utf8 v -> j_utf8 (j_set j k v)
  axiom j_utf8_merge : forall a p [j_merge a p]. j_utf8 a /\ j_utf8 p -> j_utf8 (j_merge a p)
(*@ *)
  function j_text (j: json) (indent: int) : seq int
(*@ *)
  predicate j_parsable (t: seq int)
(*@ *)
  function j_parsed (t: seq int) : json
  axiom j_parsed_text : forall j n [j_text j n]. j_utf8 j -> j_parsable (j_text j n) /\ j_parsed (j_text j n) = j
(*@ *)
  val json_dump (j: json) (indent: int) : seq int ensures { j_utf8 j /\ result = j_text j indent } raises { Throw -> not (j_utf8 j) }
(*@ *)
  val json_parse (t: seq int) : json ensures { j_parsable t /\ result = j_parsed t } raises { Throw -> not (j_parsable t) }
(* operator[] of a position: null becomes an array, the array is filled up with nulls *)
(*@ *)
  predicate j_arr (j: json)
  axiom j_arr_other : forall j [j_arr j]. j_arr j -> not (j_obj j) /\ not (j_null j)
(*@ *)
  val json_touch_at (j: json) (i: int) : json requires { [@expl:valid position] 0 <= i }
    ensures { j_null j \/ j_arr j } ensures { j_arr result } ensures { j_size result = (if i < j_size j then j_size j else i + 1) }
    ensures { forall k [j_at result k]. 0 <= k < j_size result -> j_at result k = if k < j_size j then j_at j k else jnull } ensures { j_utf8 j -> j_utf8 result } raises { Throw -> not (j_null j) /\ not (j_arr j) }
(*@ *)
  val json_put (j: json) (i: int) (v: json) : json requires { [@expl:valid position] 0 <= i < j_size j } requires { j_arr j }
    ensures { j_arr result } ensures { j_size result = j_size j } ensures { j_at result i = v } ensures { forall k [j_at result k]. 0 <= k < j_size j /\ k <> i -> j_at result k = j_at j k } ensures { j_utf8 j /\ j_utf8 v -> j_utf8 result }
