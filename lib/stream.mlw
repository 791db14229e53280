(* files: the regular files and their contents. A name is used up to its first null character; different names are different files. *)
(*@ *)
  type fsmap
(*@ *)
  val ref fs : fsmap
(*@ *)
  predicate fs_has (f: fsmap) (n: seq int)
(*@ *)
  function fs_get (f: fsmap) (n: seq int) : seq int
(*@ *)
  function fs_put (f: fsmap) (n t: seq int) : fsmap
  axiom fs_has_put : forall f n t m [fs_has (fs_put f n t) m]. fs_has (fs_put f n t) m <-> (m = n \/ fs_has f m)
  axiom fs_get_put : forall f n t m [fs_get (fs_put f n t) m]. fs_get (fs_put f n t) m = if m = n then t else fs_get f m
  axiom fs_put_put : forall f n t u [fs_put (fs_put f n t) n u]. fs_put (fs_put f n t) n u = fs_put f n u
(*@ *)
  predicate fs_writable (f: fsmap) (n: seq int)
(*@ *)
  function fs_cut (n: seq int) : seq int
  axiom fs_cut_def : forall n. (forall i. 0 <= i < length n -> n[i] <> 0) -> fs_cut n = n
(* an input stream: open or not, the text, the position in it, the flags eof and fail or bad; broken: open, but reading fails (a directory) *)
(*@ *)
  type ifs = { ifs_open: bool; ifs_txt: seq int; ifs_pos: int; ifs_eof: bool; ifs_fail: bool; ifs_broken: bool }
(*@ *)
  val ifs_new () : ifs ensures { not result.ifs_open /\ result.ifs_pos = 0 /\ not result.ifs_eof /\ not result.ifs_fail /\ not result.ifs_broken /\ length result.ifs_txt = 0 }
(*@ *)
  val ifs_open_file (s: ifs) (n: seq int) : ifs reads { fs } requires { [@expl:a stream that is not open] not s.ifs_open }
    ensures { result.ifs_pos = 0 /\ not result.ifs_eof }
    ensures { fs_has fs (fs_cut n) -> result.ifs_open /\ result.ifs_txt = fs_get fs (fs_cut n) /\ not result.ifs_fail /\ not result.ifs_broken }
    ensures { not (fs_has fs (fs_cut n)) -> length result.ifs_txt = 0 /\ (result.ifs_open /\ not result.ifs_fail /\ result.ifs_broken \/ not result.ifs_open /\ result.ifs_fail /\ not result.ifs_broken) }
    ensures { 0 <= length result.ifs_txt < 2147483648 } ensures { forall i. 0 <= i < length result.ifs_txt -> in_s8 result.ifs_txt[i] }
(*@ *)
  let function ifs_good (s: ifs) : bool = not s.ifs_eof && not s.ifs_fail
(*@ *)
  val ifs_close (s: ifs) : ifs ensures { result = { s with ifs_open = false; ifs_fail = s.ifs_fail || not s.ifs_open } }
(* getline with a delimiter: the text read into a string and the stream after it *)
(*@ *)
  val ifs_getline (s: ifs) (t: seq int) (c:int) : (seq int, ifs)
    requires { 0 <= s.ifs_pos <= length s.ifs_txt }
    ensures { let (u, r) = result in r.ifs_open = s.ifs_open /\ r.ifs_txt = s.ifs_txt /\ r.ifs_broken = s.ifs_broken /\ s.ifs_pos <= r.ifs_pos <= length s.ifs_txt
      /\ (not (ifs_good s) -> u = t /\ r.ifs_pos = s.ifs_pos /\ r.ifs_eof = s.ifs_eof /\ r.ifs_fail)
      /\ (ifs_good s /\ (s.ifs_broken || not s.ifs_open) -> length u = 0 /\ r.ifs_fail /\ r.ifs_pos = s.ifs_pos)
      /\ (ifs_good s /\ not s.ifs_broken /\ s.ifs_open ->
          (forall i [s.ifs_txt[i]]. s.ifs_pos <= i < s.ifs_pos + length u -> s.ifs_txt[i] <> c) /\ s.ifs_pos + length u <= length s.ifs_txt
          /\ u = s.ifs_txt[s.ifs_pos .. s.ifs_pos + length u]
          /\ (forall i [u[i]]. 0 <= i < length u -> u[i] = s.ifs_txt[s.ifs_pos + i])
          /\ (if s.ifs_pos + length u < length s.ifs_txt then s.ifs_txt[s.ifs_pos + length u] = c /\ r.ifs_pos = s.ifs_pos + length u + 1 /\ not r.ifs_eof /\ not r.ifs_fail
              else r.ifs_pos = length s.ifs_txt /\ r.ifs_eof /\ (r.ifs_fail <-> length u = 0))) }
(* an output stream. Writing to an open stream succeeds. *)
(*@ *)
  type ofs = { ofs_open: bool; ofs_name: seq int }
(*@ *)
  val ofs_new () : ofs ensures { not result.ofs_open }
(*@ *)
  val ofs_open_trunc (o: ofs) (n: seq int) : ofs writes { fs } requires { [@expl:a stream that is not open] not o.ofs_open }
    ensures { result.ofs_open <-> fs_writable (old fs) (fs_cut n) } ensures { result.ofs_name = fs_cut n }
    ensures { fs = if result.ofs_open then fs_put (old fs) (fs_cut n) empty else old fs }
(*@ *)
  val ofs_open_app (o: ofs) (n: seq int) : ofs writes { fs } requires { [@expl:a stream that is not open] not o.ofs_open }
    ensures { result.ofs_open <-> fs_writable (old fs) (fs_cut n) } ensures { result.ofs_name = fs_cut n }
    ensures { fs = if result.ofs_open then fs_put (old fs) (fs_cut n) (if fs_has (old fs) (fs_cut n) then fs_get (old fs) (fs_cut n) else empty) else old fs }
(*@ *)
  val ofs_close (o: ofs) : ofs ensures { result = { o with ofs_open = false } }
(*@ *)
  val ofs_write (o: ofs) (t: seq int) : unit writes { fs }
    ensures { fs = if o.ofs_open then fs_put (old fs) o.ofs_name (fs_get (old fs) o.ofs_name ++ t) else old fs }
