(* saved and restored clusters *)
(*@ *)
  predicate csaved (f: fsmap) (h: heapmap) (c: c_cluster) (j: json) = j_obj j /\ (forall k. j_has j k <-> k = str_entrySize \/ k = str_discriminators) /\ j_get j str_entrySize = j_of_int c.clu_entrySize
     /\ (j_null (j_get j str_discriminators) \/ j_arr (j_get j str_discriminators)) /\ j_size (j_get j str_discriminators) = clu_n c
     /\ forall i [j_at (j_get j str_discriminators) i]. 0 <= i < clu_n c -> dsaved f (clu_d h c i) (j_at (j_get j str_discriminators) i)
(*@ *)
  predicate cbig (h: heapmap) (c: c_cluster) = exists i. 0 <= i < clu_n c /\ dbig (clu_d h c i)
(*@ *)
  predicate cset (o: json) (c: c_cluster) = c.clu_addressSize = to_u32 (jopt_int o str_addressSize 2) /\ c.clu_entrySize = to_u32 (jopt_int o str_entrySize 2) /\ c.clu_minScore = jopt_f32 o str_minScore (fl_of_int 2)
     /\ c.clu_discriminatorsLimit = jopt_int o str_discriminatorsLimit 2 /\ c.clu_threshold = (if j_null (j_get o str_threshold) then 2 else j_to_u32 (j_get o str_threshold))
     /\ c.clu_ignoreZero = jopt_bool o str_ignoreZero False /\ c.clu_completeAddressing = jopt_bool o str_completeAddressing True /\ c.clu_base = jopt_int o str_base 2
(*@ *)
  predicate cloaded (f: fsmap) (h: heapmap) (o: json) (c: c_cluster) = cset o c /\ clu_n c = j_size (j_get o str_discriminators)
     /\ forall i [clu_d h c i]. 0 <= i < clu_n c -> dloaded_as f (j_at (j_get o str_discriminators) i) (j_of_bool c.clu_ignoreZero) (j_of_int c.clu_base) (clu_d h c i)
(*@ *)
  predicate cloadable (f: fsmap) (o: json) = not (jbad o) /\ not (jbad_int o str_addressSize) /\ not (jbad_int o str_entrySize) /\ not (jbad_int o str_minScore) /\ not (jbad_int o str_discriminatorsLimit) /\ not (jbad_int o str_threshold)
     /\ not (jbad_bool o str_ignoreZero) /\ not (jbad_bool o str_completeAddressing) /\ not (jbad_int o str_base)
     /\ forall i [j_at (j_get o str_discriminators) i]. 0 <= i < j_size (j_get o str_discriminators) -> dloadable_as f (j_at (j_get o str_discriminators) i) (j_of_bool (jopt_bool o str_ignoreZero False)) (j_of_int (jopt_int o str_base 2))
