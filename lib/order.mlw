(* std::map iterates in the strict order of its keys *)
(*@ *)
  predicate klt (x y:'k)
  axiom klt_irr : forall x:'k. not (klt x x)
  axiom klt_trans : forall x y z:'k. klt x y -> klt y z -> klt x z
  axiom klt_int : forall x y:int. klt x y <-> x < y
(*@ lemma klt omap_keys *)
  axiom omap_sorted : forall m: omap 'k 'v, i j. 0 <= i < j < length (omap_keys m) -> klt (omap_keys m)[i] (omap_keys m)[j]
