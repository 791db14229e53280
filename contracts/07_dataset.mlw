(* DataSet: inputs by position, labels of some positions *)
(*@ *)
  predicate ds_ok (d: c_dataset) = (forall i [d.ds_data[i]]. 0 <= i < length d.ds_data -> bin_ok d.ds_data[i]) /\ (forall k [umap_mem d.ds_labels k]. umap_mem d.ds_labels k -> 0 <= k < length d.ds_data)
(*@ *)
  function ds_view (d: c_dataset) : seq (seq int)
  axiom ds_view_len : forall d. length (ds_view d) = length d.ds_data
  axiom ds_view_get : forall d i [(ds_view d)[i]]. 0 <= i < length d.ds_data -> (ds_view d)[i] = bin_view d.ds_data[i]
(* one more input, with this label (no label if it is empty) *)
(*@ *)
  predicate ds_added (d1 d2: c_dataset) (lab: seq int) = length d2.ds_data = length d1.ds_data + 1 /\ (forall i [d2.ds_data[i]]. 0 <= i < length d1.ds_data -> d2.ds_data[i] = d1.ds_data[i])
     /\ (forall k [umap_mem d2.ds_labels k | umap_get d2.ds_labels k]. k <> length d1.ds_data -> (umap_mem d2.ds_labels k <-> umap_mem d1.ds_labels k) /\ umap_get d2.ds_labels k = umap_get d1.ds_labels k)
     /\ (umap_mem d2.ds_labels (length d1.ds_data) <-> length lab > 0) /\ (length lab > 0 -> umap_get d2.ds_labels (length d1.ds_data) = lab)
(*@ *)
  function ds_labs (d: c_dataset) : seq (seq int)
  axiom ds_labs_len : forall d. length (ds_labs d) = length d.ds_data
  axiom ds_labs_get : forall d i [(ds_labs d)[i]]. 0 <= i < length d.ds_data -> (ds_labs d)[i] = umap_get d.ds_labels i
