INVARIANTS = {'DataSet': 'ds_ok'}
VIEWS = {'DataSet': 'ds_view'}
FIELDS = {'DataSet': [('data', 'vec<BinInput>'), ('labels', 'umap<int,str>')]}
N = 'length (old this).ds_data'
ADDB = ['this.ds_data[%s] = input' % N]
ADDV = ['length (bin_view this.ds_data[%s]) = length input' % N, 'forall i. 0 <= i < length input -> (bin_view this.ds_data[%s])[i] = (if input[i] <> 0 then 1 else 0)' % N]
NM = 'fs_cut (prefix ++ $str(".wpkds"))'
PE = ('let g_p = pure { (head dataFile).ifs_pos } in let g_e = pure { (head dataFile).ifs_pos + length input } in ')
FOUND = ('assert { sharp = -1 \\/ (0 <= sharp < length input /\\ occurs_at input $str("#") sharp) }; assert { sharp = -1 \\/ (0 <= sharp < length input /\\ input[sharp] = 35) }; '
         'assert { forall i [input[i]]. 0 <= i < length input /\\ input[i] = 35 -> occurs_at input $str("#") i }; '
         'assert { forall i [input[i]]. 0 <= i < (if sharp = -1 then length input else sharp) -> not (occurs_at input $str("#") i) }; assert { forall i [input[i]]. 0 <= i < (if sharp = -1 then length input else sharp) -> input[i] <> 35 by (input[i] = 35 -> occurs_at input $str("#") i) }; ')
NEXT = FOUND + PE + 'if pure { not dataFile.ifs_broken } then ds_next (pure { dataFile.ifs_txt }) (pure { this }) g_p g_e sharp input'
STEP = 'if pure { not dataFile.ifs_broken } then ds_step (pure { dataFile.ifs_txt }) (pure { (head this) }) (pure { this }) (pure { (head dataFile).ifs_pos }) (pure { (head dataFile).ifs_pos + length gi }) gs gi gl'
CONTRACTS = {
'DataSet::DataSet()': dict(params='', ensures=['length this.ds_data = 0', 'length (ds_view this) = 0'], throws=['false']),
'DataSet::add(BinInput)': dict(params='input', ensures=['ds_added (old this) this (empty: seq int)'] + ADDB, throws=['false']),
'DataSet::add(BinInput,str)': dict(params='input label', ensures=['ds_added (old this) this label'] + ADDB, throws=['false']),
'DataSet::add(vec<s16>)': dict(params='input', ensures=['ds_added (old this) this (empty: seq int)'] + ADDV, throws=['false']),
'DataSet::add(vec<s16>,str)': dict(params='input label', ensures=['ds_added (old this) this label'] + ADDV, throws=['false']),
'DataSet::operator[](int)': dict(params='index', ensures=['0 <= index < length this.ds_data', 'result = this.ds_data[index]', 'bin_view result = (ds_view this)[index]'], throws=['not (0 <= index < length this.ds_data)']),
'DataSet::get(int)': dict(params='index', ensures=['0 <= index < length this.ds_data', 'result = this.ds_data[index]', 'bin_view result = (ds_view this)[index]'], throws=['not (0 <= index < length this.ds_data)']),
'DataSet::getLabel(u64)': dict(params='index', ensures=['umap_mem this.ds_labels index', 'result = umap_get this.ds_labels index'], throws=['not (umap_mem this.ds_labels index)']),
'DataSet::size()': dict(params='', ensures=['result = length this.ds_data', 'result = length (ds_view this)', 'result < 2147483648'], throws=['false']),

'DataSet::DataSet(str)': dict(params='filename', locals='input:str sharp:int dataFile:basic_ifstream',
    start=['ends_slice filename $str(".wpkds")'],
    ensures=['ends_with filename $str(".wpkds")', 'fs_has fs (fs_cut filename) -> ds_read (fs_get fs (fs_cut filename)) this', 'not (fs_has fs (fs_cut filename)) -> length this.ds_data = 0'],
    throws=['ends_with filename $str(".wpkds") -> fs_has fs (fs_cut filename) /\\ not_ds (fs_get fs (fs_cut filename))'],
    ghost=['gl = (empty: seq int)', 'gi = (empty: seq int)', 'gs = 0'], calls={'<Base64::decode': [NEXT], 'Base64::decode': ['gl <- $result; gi <- input; gs <- sharp']},
    loops=[dict(roles='dataFile:basic_ifstream', inv=['ds_ok this', 'dataFile.ifs_open', 'if fs_has fs (fs_cut filename) then not dataFile.ifs_broken /\\ dataFile.ifs_txt = fs_get fs (fs_cut filename) else dataFile.ifs_broken', '0 <= dataFile.ifs_pos <= length dataFile.ifs_txt',
         'not dataFile.ifs_broken -> (dataFile.ifs_fail -> dataFile.ifs_eof) /\\ ds_reading dataFile.ifs_txt this dataFile.ifs_pos (not dataFile.ifs_eof)', 'dataFile.ifs_broken -> length this.ds_data = 0'],
         variant='if dataFile.ifs_eof then 0 else 1 + length dataFile.ifs_txt - dataFile.ifs_pos',
         at_end=[STEP],
         at_break=['if pure { not dataFile.ifs_broken /\\ not (head dataFile).ifs_eof } then ds_nothing (pure { dataFile.ifs_txt }) (pure { this }) (pure { (head dataFile).ifs_pos })'],
         after=['if pure { not dataFile.ifs_broken } then assert { exists p. ds_reading dataFile.ifs_txt this p false }; assert { not dataFile.ifs_broken -> ds_read dataFile.ifs_txt this }'])]),
'DataSet::save(str)': dict(params='prefix', ghost=['gc = (snoc (empty: seq int) 0)', 'gm = (empty: seq int)', 'gl = (empty: seq int)', 'gb = (empty: seq int)'],
    calls={'Base64::encode': ['gl <- $result'], r'BinInput::data\(\)': ['gb <- $result']},
    ensures=['this = (old this)', 'if fs_writable (old fs) (NM) then fs = fs_put (old fs) (NM) (fs_get fs (NM)) /\\ exists c m. ds_text this c m (fs_get fs (NM)) else fs = (old fs)'.replace('NM', NM)],
    throws=['this = (old this)', 'exists i. 0 <= i < length this.ds_data /\\ (length this.ds_data[i].bin_input >= 1600000000 \\/ length (ds_lab this i) > 1600000000)'],
    loops=[dict(roles='dataFile:basic_ofstream', variant='length this.ds_data - I_', inv=['0 <= I_ <= length this.ds_data', 'this = (old this)', 'dataFile.ofs_open <-> fs_writable (old fs) (%s)' % NM,
         'if fs_writable (old fs) (NM) then dataFile.ofs_name = NM /\\ fs = fs_put (old fs) (NM) (fs_get fs (NM)) /\\ ds_written this I_ gc gm (fs_get fs (NM)) else fs = (old fs)'.replace('NM', NM)],
         at_end=['if pure { fs_writable (old fs) (NM) } then begin ds_grow this I_ gc gm (pure { fs_get (head fs) (NM) }) (pure { fs_get fs (NM) }) (pure { if I_ > 0 then $str(".") else empty }) gl $str("#") gb;'
                 ' let g_m = gm in gm <- (pure { snoc g_m (length (fs_get (head fs) (NM)) + (if I_ > 0 then 1 else 0) + length gl) }); let g_c = gc in gc <- (pure { snoc g_c (length (fs_get fs (NM)) + 1) }) end'.replace('NM', NM)],
         after=['assert { I_ = length this.ds_data }; assert { fs_writable (old fs) (NM) -> ds_text this gc gm (fs_get fs (NM)) }'.replace('NM', NM)])]),
}
