FIELDS = {'RAMDataHandle': [('ramdata', 'umap<int,umap<u64,int>>')]}
INVARIANTS = {'RAMDataHandle': 'rdh_ok'}
M = 'this.rdh_ramdata'
def at(m, r, a): return '(if umap_mem %s %s && umap_mem (umap_get %s %s) (to_u64 %s) then umap_get (umap_get %s %s) (to_u64 %s) else 0)' % (m, r, m, r, a, m, r, a)
SUF = '$lit(ramdata_sufix)'
READ = ['rset_read inputdata ' + M + ' \\/ ends_with inputdata $str(".wdpkg")', 'rset_read inputdata ' + M,
        'ends_with inputdata $str(".wdpkg") /\\ fs_has fs (fs_cut inputdata) -> rset_read (fs_get fs (fs_cut inputdata)) ' + M]
STEP = ('let g_k = pure { length (umap_keys (head this).rdh_ramdata) } in let g_p = pure { (head pos) } in let g_e = pure { if found < length inputdata then found else length inputdata } in '
  'rset_step inputdata (pure { (head this).rdh_ramdata }) (pure { this.rdh_ramdata }) g_k g_p g_e (pure { inputdata[g_p .. g_e] }) (pure { umap_get this.rdh_ramdata g_k })')
NM = 'fs_cut (prefix ++ $str(".wdpkg"))'
CONTRACTS = {
'RAMDataHandle::RAMDataHandle(umap<u64,int>)': dict(params='data', start=['assume { ram_wt data }'], ensures=['rset_dense %s 1' % M, 'umap_get %s 0 = data' % M]),
'RAMDataHandle::RAMDataHandle(str)': dict(params='inputdata', ensures=['rset_dense this.rdh_ramdata (length (umap_keys this.rdh_ramdata))', 'rset_read inputdata this.rdh_ramdata',
             'ends_with inputdata $str(".wdpkg") /\\ fs_has fs (fs_cut inputdata) -> rset_read (fs_get fs (fs_cut inputdata)) this.rdh_ramdata'],
             throws=['not_rset inputdata', 'ends_with inputdata $str(".wdpkg") /\\ fs_has fs (fs_cut inputdata) -> not_rset (fs_get fs (fs_cut inputdata))']),
'RAMDataHandle::checkIndex(int)': dict(params='r', noinv=True, ensures=['r >= 0'], throws=['r < 0']),
'RAMDataHandle::get(int,int)': dict(params='r addr', ensures=['result = ' + at(M, 'r', 'addr')]),
'RAMDataHandle::get(int)': dict(params='r', ensures=['umap_mem %s r -> result = umap_get %s r' % (M, M), 'not (umap_mem %s r) -> forall k. not (umap_mem result k)' % M]),
'RAMDataHandle::set(int,int,int)': dict(params='r addr value',
    ensures=['r >= 0', 'forall q. umap_mem %s q <-> (umap_mem (old %s) q \\/ q = r)' % (M, M), 'forall q. q <> r -> umap_get %s q = umap_get (old %s) q' % (M, M),
             'umap_mem (umap_get %s r) (to_u64 addr) /\\ umap_get (umap_get %s r) (to_u64 addr) = value' % (M, M),
             'forall a. a <> to_u64 addr -> (umap_mem (umap_get %s r) a <-> umap_mem (old %s) r /\\ umap_mem (umap_get (old %s) r) a) /\\ (umap_mem (old %s) r -> umap_get (umap_get %s r) a = umap_get (umap_get (old %s) r) a)' % (M, M, M, M, M, M)],
    throws=['r < 0', 'this = old this']),

'RAMDataHandle::compare(RAMDataHandle)': dict(params='other', ensures=['result <-> rset_same this.rdh_ramdata other.rdh_ramdata'], start=['rset_same_len this.rdh_ramdata other.rdh_ramdata'],
    loops=[dict(inv=['I_ <= length (umap_keys this.rdh_ramdata)', 'forall i. 0 <= i < I_ -> umap_mem other.rdh_ramdata (umap_keys this.rdh_ramdata)[i] /\\ ram_same (umap_get this.rdh_ramdata (umap_keys this.rdh_ramdata)[i]) (umap_get other.rdh_ramdata (umap_keys this.rdh_ramdata)[i])'],
                variant='length (umap_keys this.rdh_ramdata) - I_', at_start=['ram_same_len (umap_get this.rdh_ramdata (umap_keys this.rdh_ramdata)[I_]) (umap_get other.rdh_ramdata (umap_keys this.rdh_ramdata)[I_]); assert { umap_mem this.rdh_ramdata (umap_keys this.rdh_ramdata)[I_] }'],
                at_end=['assert { let a = umap_get this.rdh_ramdata (umap_keys this.rdh_ramdata)[I_] in let b = umap_get other.rdh_ramdata (umap_keys this.rdh_ramdata)[I_] in ram_same a b by forall k. umap_mem a k -> (umap_mem b k /\\ umap_get a k = umap_get b k by 0 <= umap_pos a k < length (umap_keys a) /\\ (umap_keys a)[umap_pos a k] = k) }'],
                after=['assert { forall k. umap_mem this.rdh_ramdata k -> (umap_mem other.rdh_ramdata k /\\ ram_same (umap_get this.rdh_ramdata k) (umap_get other.rdh_ramdata k) by let j = umap_pos this.rdh_ramdata k in 0 <= j < length (umap_keys this.rdh_ramdata) /\\ (umap_keys this.rdh_ramdata)[j] = k) }']),
           dict(inv=['I_ <= length (umap_keys (umap_get this.rdh_ramdata (umap_keys this.rdh_ramdata)[O_]))',
                'forall i. 0 <= i < I_ -> let a = umap_get this.rdh_ramdata (umap_keys this.rdh_ramdata)[O_] in let b = umap_get other.rdh_ramdata (umap_keys this.rdh_ramdata)[O_] in umap_mem b (umap_keys a)[i] /\\ umap_get b (umap_keys a)[i] = umap_get a (umap_keys a)[i]'],
                variant='length (umap_keys (umap_get this.rdh_ramdata (umap_keys this.rdh_ramdata)[O_])) - I_',
                at_start=['assert { umap_mem (umap_get this.rdh_ramdata (umap_keys this.rdh_ramdata)[O_]) (umap_keys (umap_get this.rdh_ramdata (umap_keys this.rdh_ramdata)[O_]))[I_] }'])]),
'RAMDataHandle::data(int)': dict(params='r', ensures=['r >= 0', 'rdh_touched (old this.rdh_ramdata) this.rdh_ramdata r', 'ram_text (umap_get this.rdh_ramdata r) result'],
    throws=['r >= 0 -> rdh_touched (old this.rdh_ramdata) this.rdh_ramdata r', 'r < 0 -> this = old this', 'r < 0 \\/ 12 * length (umap_keys (umap_get this.rdh_ramdata r)) > 1600000000'],
    loops=[dict(roles='out:str k:int', inv=['rdh_touched (old this.rdh_ramdata) this.rdh_ramdata r', 'I_ <= length (umap_keys (umap_get this.rdh_ramdata r))', 'length out = 12 * length (umap_keys (umap_get this.rdh_ramdata r))', 'k = 12 * I_', 'in_bytes out',
         'forall i. 0 <= i < I_ -> ram_block (umap_get this.rdh_ramdata r) out i'], variant='length (umap_keys (umap_get this.rdh_ramdata r)) - I_',
         at_start=['assert { umap_mem (umap_get this.rdh_ramdata r) (umap_keys (umap_get this.rdh_ramdata r))[I_] }'],
         at_end=['assert { forall j. 0 <= j < 12 * I_ -> out[j] = (head out)[j] }; ram_frame (umap_get this.rdh_ramdata r) (pure { (head out) }) out I_; assert { out[12 * I_ .. 12 * I_ + 8] == enc_u64 (umap_keys (umap_get this.rdh_ramdata r))[I_] };'
                 'assert { out[12 * I_ + 8 .. 12 * I_ + 12] == enc_s32 (umap_get (umap_get this.rdh_ramdata r) (umap_keys (umap_get this.rdh_ramdata r))[I_]) }; assert { ram_block (umap_get this.rdh_ramdata r) out I_ }'])],
    locals='out:str', calls={'Base64::encode': ['b64_uniq out $result; assert { is_ram_bytes (umap_get this.rdh_ramdata r) out }']}),
'RAMDataHandle::dataToRam(str)': dict(params='inputdata', ghost=['gq = 0'], noinv=True, ensures=['forall m [ram_text m inputdata]. ram_text m inputdata /\\ ram_wt m -> ram_same result m', 'ram_wt result'],
    throws=['ED.mod (length inputdata) 4 <> 0'],
    loops=[dict(variant='length decodedData - i', roles='ramout:umap<u64,int> decodedData:str i:u64', inv=['i = 12 * gq', '0 <= gq', 'ram_wt ramout', 'b64_valid inputdata -> decodedData = b64_src inputdata', 'forall m [ram_text m inputdata]. ram_text m inputdata /\\ ram_wt m -> ram_part m ramout gq', '0 <= i <= length decodedData'],
        at_end=['assert { gq = (head gq) }; assert { (head i) = 12 * gq /\\ 12 * gq < length decodedData }; assert { b64_valid inputdata -> decodedData = b64_src inputdata }; if pure { b64_valid inputdata } then ram_part_all (pure { (head ramout) }) ramout inputdata gq (pure { dec_u64 decodedData[(head i) .. (head i) + 8] }) (pure { dec_s32 decodedData[(head i) + 8 .. (head i) + 12] }); gq <- gq + 1'],
        after=['ram_part_done ramout inputdata gq'])]),
'RAMDataHandle::setData(str)': dict(params='inputdata', noinv=True, requires=['length (umap_keys this.rdh_ramdata) = 0'],
    start=['ends_slice inputdata $str(".wdpkg");'
           'if pure { ends_with inputdata $str(".wdpkg") } then begin assert { inputdata[length inputdata - 6] = 46 }; assert { forall i. length inputdata - 5 <= i < length inputdata -> inputdata[i] <> 46 by let j = i - (length inputdata - 6) in $str(".wdpkg")[j] = inputdata[i] }; rset_no_suffix inputdata end'],
    throws=['not_rset inputdata', 'ends_with inputdata $str(".wdpkg") /\\ fs_has fs (fs_cut inputdata) -> not_rset (fs_get fs (fs_cut inputdata))'],
    ensures=['rdh_ok this', 'rset_dense this.rdh_ramdata (length (umap_keys this.rdh_ramdata))', 'rset_read inputdata this.rdh_ramdata',
             'ends_with inputdata $str(".wdpkg") /\\ fs_has fs (fs_cut inputdata) -> rset_read (fs_get fs (fs_cut inputdata)) this.rdh_ramdata'],
    loops=[dict(roles='dataFile:basic_ifstream', inv=['rdh_ok this', 'dataFile.ifs_open', 'fs_has fs (fs_cut inputdata) -> not dataFile.ifs_broken /\\ dataFile.ifs_txt = fs_get fs (fs_cut inputdata)', '0 <= dataFile.ifs_pos <= length dataFile.ifs_txt',
               'rset_dense this.rdh_ramdata (length (umap_keys this.rdh_ramdata))', 'not dataFile.ifs_broken -> rset_reading dataFile.ifs_txt this.rdh_ramdata (length (umap_keys this.rdh_ramdata)) dataFile.ifs_pos (ifs_good dataFile)'],
               variant='if ifs_good dataFile then 1 + length dataFile.ifs_txt - dataFile.ifs_pos else 0',
               at_start=['if pure { not dataFile.ifs_broken /\\ ifs_good dataFile } then rset_next (pure { dataFile.ifs_txt }) (pure { this.rdh_ramdata }) (pure { length (umap_keys this.rdh_ramdata) }) (pure { dataFile.ifs_pos })'],
               at_end=['let g_d = pure { (head dataFile) } in if pure { not g_d.ifs_broken } then let g_k = pure { length (umap_keys (head this).rdh_ramdata) } in let g_e = pure { if ifs_good dataFile then dataFile.ifs_pos - 1 else length dataFile.ifs_txt } in '
                       'rset_step (pure { dataFile.ifs_txt }) (pure { (head this).rdh_ramdata }) (pure { this.rdh_ramdata }) g_k (pure { g_d.ifs_pos }) g_e (pure { dataFile.ifs_txt[g_d.ifs_pos .. g_e] }) (pure { umap_get this.rdh_ramdata g_k })'],
               after=['if pure { not dataFile.ifs_broken } then rset_done (pure { dataFile.ifs_txt }) (pure { this.rdh_ramdata }) (pure { length (umap_keys this.rdh_ramdata) }) (pure { dataFile.ifs_pos })']),
           dict(roles='pos:int found:u32', inv=['rdh_ok this', 'rset_dense this.rdh_ramdata (length (umap_keys this.rdh_ramdata))', '0 <= pos <= length inputdata', 'rset_reading inputdata this.rdh_ramdata (length (umap_keys this.rdh_ramdata)) pos true'],
               variant='length inputdata - pos', at_start=['rset_next inputdata (pure { this.rdh_ramdata }) (pure { length (umap_keys this.rdh_ramdata) }) pos'], at_end=[STEP], at_break=[STEP], after=['rset_done inputdata (pure { this.rdh_ramdata }) (pure { length (umap_keys this.rdh_ramdata) }) (pure { length inputdata + 1 })'])]),

'RAMDataHandle::data()': dict(params='', ghost=['gc = (snoc (empty: seq int) 0)', 'gp = (empty: seq int)'], calls={r'data\(int\)': ['gp <- $result']}, ensures=['rdh_filled (old this.rdh_ramdata) this.rdh_ramdata', 'rset_dense this.rdh_ramdata (length (umap_keys this.rdh_ramdata))', 'rset_dense (old this.rdh_ramdata) (length (umap_keys (old this.rdh_ramdata))) -> this = (old this)',
      'length (umap_keys this.rdh_ramdata) >= 1 -> exists c. rset_text this.rdh_ramdata (length (umap_keys this.rdh_ramdata)) c result'],
    throws=['rdh_filled (old this.rdh_ramdata) this.rdh_ramdata', 'exists r. 12 * length (umap_keys (umap_get this.rdh_ramdata r)) > 1600000000'],
    loops=[dict(roles='out:str', variant='2147483648 - I_', inv=['0 <= I_ <= length (umap_keys this.rdh_ramdata)', 'rdh_ok this', 'rdh_filled (old this.rdh_ramdata) this.rdh_ramdata', 'forall r. 0 <= r < I_ -> umap_mem this.rdh_ramdata r',
         'rset_dense (old this.rdh_ramdata) (length (umap_keys (old this.rdh_ramdata))) -> this = (old this)', 'rset_written this.rdh_ramdata I_ gc out'],
         at_start=['assert { 0 <= I_ < 2147483648 }; rdh_fill_all (pure { (old this.rdh_ramdata) }) (pure { this.rdh_ramdata }) I_'],
         at_end=['gc <- rset_grow (pure { (head this).rdh_ramdata }) (pure { this.rdh_ramdata }) I_ gc (pure { (head out) }) out(pure { if I_ > 0 then $str(".") else empty }) gp'],
         after=['dense_all (pure { this.rdh_ramdata }) (pure { length (umap_keys this.rdh_ramdata) }); assert { I_ = length (umap_keys this.rdh_ramdata) }; assert { I_ >= 1 -> rset_text this.rdh_ramdata I_ gc out }'])]),
'RAMDataHandle::save(str)': dict(params='prefix', ghost=['gc = (snoc (empty: seq int) 0)', 'gp = (empty: seq int)'], calls={r'data\(int\)': ['gp <- $result']}, ensures=['rdh_filled (old this.rdh_ramdata) this.rdh_ramdata', 'rset_dense this.rdh_ramdata (length (umap_keys this.rdh_ramdata))', 'rset_dense (old this.rdh_ramdata) (length (umap_keys (old this.rdh_ramdata))) -> this = (old this)',
      'if fs_writable (old fs) (NM) then fs = fs_put (old fs) (NM) (fs_get fs (NM)) /\\ (length (umap_keys this.rdh_ramdata) >= 1 -> exists c. rset_text this.rdh_ramdata (length (umap_keys this.rdh_ramdata)) c (fs_get fs (NM))) else fs = (old fs)'.replace('NM', NM)],
    throws=['rdh_filled (old this.rdh_ramdata) this.rdh_ramdata', 'exists r. 12 * length (umap_keys (umap_get this.rdh_ramdata r)) > 1600000000'],
    loops=[dict(roles='dataFile:basic_ofstream', variant='2147483648 - I_', inv=['0 <= I_ <= length (umap_keys this.rdh_ramdata)', 'rdh_ok this', 'rdh_filled (old this.rdh_ramdata) this.rdh_ramdata', 'forall r. 0 <= r < I_ -> umap_mem this.rdh_ramdata r',
         'rset_dense (old this.rdh_ramdata) (length (umap_keys (old this.rdh_ramdata))) -> this = (old this)', 'dataFile.ofs_open <-> fs_writable (old fs) (%s)' % NM,
         'if fs_writable (old fs) (NM) then dataFile.ofs_name = NM /\\ fs = fs_put (old fs) (NM) (fs_get fs (NM)) /\\ rset_written this.rdh_ramdata I_ gc (fs_get fs (NM)) else fs = (old fs)'.replace('NM', NM)],
         at_start=['assert { 0 <= I_ < 2147483648 }; rdh_fill_all (pure { (old this.rdh_ramdata) }) (pure { this.rdh_ramdata }) I_'],
         at_end=['if pure { fs_writable (old fs) (NM) } then gc <- rset_grow (pure { (head this).rdh_ramdata }) (pure { this.rdh_ramdata }) I_ gc (pure { fs_get (head fs) (NM) }) (pure { fs_get fs (NM) })(pure { if I_ > 0 then $str(".") else empty }) gp'.replace('NM', NM)],
         after=['dense_all (pure { this.rdh_ramdata }) (pure { length (umap_keys this.rdh_ramdata) }); assert { I_ = length (umap_keys this.rdh_ramdata) }; assert { I_ >= 1 /\\ fs_writable (old fs) (NM) -> rset_text this.rdh_ramdata I_ gc (fs_get fs (NM)) }'.replace('NM', NM)])]),
}
