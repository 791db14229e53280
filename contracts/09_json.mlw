(* options: the value given, or the default if it is missing or null *)
(*@ *)
  function jopt_int (j: json) (k: seq int) (d: int) : int = if j_null (j_get j k) then d else j_to_int (j_get j k)
(*@ *)
  function jopt_bool (j: json) (k: seq int) (d: bool) : bool = if j_null (j_get j k) then d else j_to_bool (j_get j k)
(*@ *)
  predicate jbad_int (j: json) (k: seq int) = not (j_null (j_get j k)) /\ not (j_is_int (j_get j k))
(*@ *)
  predicate jbad_bool (j: json) (k: seq int) = not (j_null (j_get j k)) /\ not (j_is_bool (j_get j k))
(*@ *)
  predicate jbad (j: json) = not (j_null j) /\ not (j_obj j)
(*@ *)
  function jopt_f32 (j: json) (k: seq int) (d: fl) : fl = if j_null (j_get j k) then d else j_to_f32 (j_get j k)
(*@ *)
  function jopt_vi (j: json) (k: seq int) : seq int = if j_null (j_get j k) then empty else j_to_vi (j_get j k)
(*@ *)
  function jopt_vvi (j: json) (k: seq int) : seq (seq int) = if j_null (j_get j k) then empty else j_to_vvi (j_get j k)
(*@ *)
  predicate jbad_vi (j: json) (k: seq int) = not (j_null (j_get j k)) /\ not (j_is_vi (j_get j k))
(*@ *)
  predicate jbad_vvi (j: json) (k: seq int) = not (j_null (j_get j k)) /\ not (j_is_vvi (j_get j k))
(*@ *)
  predicate jbad_mvv (j: json) (k: seq int) = not (j_null (j_get j k)) /\ not (j_is_mvv (j_get j k))
(*@ *)
  function jopt_str (j: json) (k: seq int) : seq int = if j_null (j_get j k) then empty else j_to_str (j_get j k)
(*@ *)
  predicate jbad_str (j: json) (k: seq int) = not (j_null (j_get j k)) /\ not (j_is_str (j_get j k))
