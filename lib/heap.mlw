(* objects made by new: never freed by the library; a pointer is null (0) or one that new gave *)
(*@ *)
  type heapmap
(*@ *)
  val ref heap : heapmap
(*@ *)
  val ref heap_next : int
(*@ *)
  val function hget (h: heapmap) (p:int) : c_discriminator requires { [@expl:a pointer that is not null] p <> 0 }
(*@ *)
  val function hset (h: heapmap) (p:int) (d:c_discriminator) : heapmap requires { [@expl:a pointer that is not null] p <> 0 }
  axiom hget_hset : forall h p d q [hget (hset h p d) q]. hget (hset h p d) q = if q = p then d else hget h q
(*@ *)
  val heap_new (d: c_discriminator) : int writes { heap, heap_next }
    ensures { result = (old heap_next) /\ result > 0 /\ heap_next = result + 1 } ensures { heap = hset (old heap) result d }
