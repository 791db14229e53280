# saving and restoring of models (lib/json.mlw, contracts/25_saved.mlw)
BIGR = 'not huge -> dbig this'
CONTRACTS = {
'getRandomString(int)': dict(params='len', requires=['0 <= len'], ensures=['length result = len', 'forall i. 0 <= i < len -> 48 <= result[i] <= 122'], throws=['false'],
    loops=[dict(roles='s:str', inv=['length s = len', 'forall i. 0 <= i < length s -> 48 <= s[i] <= 122'])]),
'RAM::getConfig()': dict(params='', ensures=['rconf result this', 'j_utf8 result', 'this = (old this)'], throws=['false']),
'RAM::getData()': dict(params='', noinv=True, start=['assume { ram_wt this.ram_positions }'], ensures=['ram_text this.ram_positions result', 'ram_wt this.ram_positions', 'this = (old this)'],
    throws=['this = (old this)', '12 * length (umap_keys this.ram_positions) > 1600000000']),
'RAM::RAM(json)': dict(params='c', ensures=['j_is_bool (j_get c str_ignoreZero) /\\ this.ram_ignoreZero = j_to_bool (j_get c str_ignoreZero)', 'j_is_int (j_get c str_base) /\\ this.ram_base = j_to_int (j_get c str_base)',
      'j_is_vi (j_get c str_addresses) /\\ this.ram_addresses = j_to_vi (j_get c str_addresses)', 'forall m. ram_text m (j_to_str (j_get c str_data)) /\\ ram_wt m -> ram_same this.ram_positions m'],
    throws=['not (rrestorable c)'], start=['one_piece (pure { j_to_str (j_get c str_data) })']),
'Discriminator::getConfig(bool)': dict(params='all', ensures=['j_utf8 result', 'dconf result this all', 'not (j_has result str_data)', 'this = (old this)'], throws=['false']),
'Discriminator::getRAMsData(bool,str)': dict(start=['assert { $str(".wdpkg") == wdpkg }'], params='huge prefix', locals='data:str filename:str dataFile:basic_ofstream', ghost=['gm = umap_empty () : umap int (umap int int)', 'gc = (snoc (empty: seq int) 0)', 'gp = (empty: seq int)', 'gf = (any int)'], calls={r'getData\(\)': ['gp <- $result']},
    ensures=['this = (old this)', 'exists x. data_is fs result x /\\ dtext this x', 'not huge -> s_ascii result', 'fs_ext (old fs) fs', 'not huge -> fs = (old fs)'],
    throws=['this = (old this)', 'fs_ext (old fs) fs', 'not huge -> fs = (old fs) /\\ exists i. 0 <= i < length this.disc_rams /\\ 12 * length (umap_keys this.disc_rams[i].ram_positions) > 1600000000'],
    loops=[dict(roles='filename:str', inv=['this = (old this)', 'fs = (old fs)', 'ends_with filename wdpkg'], at_start=['assume { gf > 0 }'], at_end=['gf <- gf - 1'], variant='gf'),
           dict(roles='dataFile:basic_ofstream filename:str', inv=['this = (old this)', 'dataFile.ofs_open', 'dataFile.ofs_name = fs_cut filename', 'ends_with filename wdpkg', 'fs = fs_put (old fs) (fs_cut filename) (fs_get fs (fs_cut filename))', 'not (fs_has (old fs) (fs_cut filename))',
                'rset_written gm I_ gc (fs_get fs (fs_cut filename))', 'contents_n this.disc_rams gm I_'],
               at_end=[], after=['assert { I_ = length this.disc_rams }; assert { dtext this (fs_get fs (fs_cut filename)) }; assert { data_is fs filename (fs_get fs (fs_cut filename)) }']),
           dict(roles='data:str', inv=['this = (old this)', 'fs = (old fs)', 'rset_written gm I_ gc data', 's_ascii data', 'contents_n this.disc_rams gm I_'], at_end=['GROW2'], after=['assert { I_ = length this.disc_rams }; written_plain gm I_ gc data; assert { dtext this data }; assert { data_is fs data data }'])]),
}
G = ('let g_m = gm in gm <- contents_grow (pure { this.disc_rams }) g_m I_; gc <- rset_grow g_m gm I_ gc (pure { %s }) (pure { %s }) (pure { if I_ > 0 then $str(".") else empty }) gp')
L = CONTRACTS['Discriminator::getRAMsData(bool,str)']['loops']
L[1]['at_end'] = [G % ('fs_get (head fs) (fs_cut filename)', 'fs_get fs (fs_cut filename)')]
L[2]['at_end'] = ['let g_h = pure { (head data) } in let g_s = pure { if I_ > 0 then $str(".") else empty } in let g_n = data in assert { length g_n = length g_h + (length g_s + length gp) }; assert { forall i [g_n[i]]. 0 <= i < length g_h -> g_n[i] = g_h[i] }; assert { forall i [g_n[i]]. length g_h <= i < length g_n -> g_n[i] = (g_s ++ gp)[i - length g_h] }; assert { data == g_h ++ (g_s ++ gp) }; ' + G % ('(head data)', 'data') + '; text_ascii (pure { umap_get gm I_ }) gp']

IZ, BASE, TXT = '(j_get rbase str_ignoreZero)', '(j_get rbase str_base)', '(fs_get fs (fs_cut data))'
RAMS = ['I_ <= j_size mapping', 'length this.disc_rams = I_', 'rams_set this.disc_rams mapping %s %s' % (IZ, BASE), 'forall i [umap_get ga i]. 0 <= i < I_ -> umap_get ga i = this.disc_rams[i].ram_positions']
AFTER = ['assert { forall x m. data_is fs data x /\\ rams_written m (j_size mapping) x -> rams_hold this.disc_rams (j_size mapping) m }', 'assert { length data = 0 -> length this.disc_rams = j_size mapping /\\ rams_blank this.disc_rams }', 'assert { rams_read fs this.disc_rams mapping %s %s data }' % (IZ, BASE)]
STEP = 'assert { ram_set this.disc_rams[I_] (j_at mapping I_) IZ BASE }; assert { forall i. 0 <= i < I_ -> this.disc_rams[i] = (head this).disc_rams[i] }; assert { rams_set this.disc_rams mapping IZ BASE }; '.replace('IZ', IZ).replace('BASE', BASE) + 'let g_a = ga in let g_e = %s in ga <- umap_put g_a I_ (pure { this.disc_rams[I_].ram_positions }); if %s then begin rset_step (pure { %s }) g_a ga I_ (pure { %s }) g_e (pure { %s }) (pure { umap_get ga I_ })%s end'
CONTRACTS['Discriminator::setRAMsData(json,json,str)'] = dict(params='mapping rbase data', noinv=True, locals='base:json', calls={r'<RAM::RAM\(json\)': [r'assert { length data = 0 -> length (j_to_str (j_get base str_data)) = 0 }', r'assert { length data = 0 -> exists m. ram_text m (j_to_str (j_get base str_data)) /\ ram_wt m }', r'assert { forall x m. data_is fs data x /\ rams_written m (j_size mapping) x -> exists m2. ram_text m2 (j_to_str (j_get base str_data)) /\ ram_wt m2 }']}, requires=['length this.disc_rams = 0', 'j_obj rbase', 'not (j_has rbase str_addresses)', 'not (j_has rbase str_data)'],
    start=['assert { $str(".wdpkg") == wdpkg }', 'ends_slice data wdpkg', 'let g_n = no_text () in ()', 'merged_get (pure { rbase })'], ghost=['ga = umap_empty () : umap int (umap int int)', 'gk = 0', 'gmore = true'],
    ensures=['this.disc_entrySize = (old this).disc_entrySize', 'this.disc_count = (old this).disc_count', 'rams_read fs this.disc_rams mapping %s %s data' % (IZ, BASE)],
    throws=['not (rams_readable fs mapping %s %s data)' % (IZ, BASE)],
    loops=[dict(roles='dataFile:basic_ifstream', inv=RAMS + ['dataFile.ifs_open', 'fs_has fs (fs_cut data) -> not dataFile.ifs_broken /\\ dataFile.ifs_txt = %s' % TXT, '0 <= dataFile.ifs_pos <= length dataFile.ifs_txt',
                    'not dataFile.ifs_broken -> (ifs_good dataFile <-> not dataFile.ifs_eof)', 'not dataFile.ifs_broken -> rset_reading dataFile.ifs_txt ga I_ dataFile.ifs_pos (ifs_good dataFile)'],
                at_start=['if pure { not dataFile.ifs_broken /\\ ifs_good dataFile } then pieces_readable (pure { dataFile.ifs_txt }) (pure { j_size mapping }) I_ (pure { dataFile.ifs_pos }) ga'],
                at_end=['let g_d = pure { (head dataFile) } in ' + STEP % ('pure { if ifs_good dataFile then dataFile.ifs_pos - 1 else length dataFile.ifs_txt }', 'pure { not g_d.ifs_broken }', 'dataFile.ifs_txt', 'g_d.ifs_pos', 'dataFile.ifs_txt[g_d.ifs_pos .. g_e]', '')],
                after=['if pure { not dataFile.ifs_broken } then hold_all (pure { dataFile.ifs_txt }) (pure { j_size mapping }) (pure { length this.disc_rams }) (pure { dataFile.ifs_pos }) ga (pure { this.disc_rams }) (ifs_good dataFile)'] + AFTER, variant='j_size mapping - I_'),
           dict(roles='pos:int', inv=RAMS + ['0 <= pos <= length data', '0 <= gk <= I_', 'gmore -> gk = I_', 'rset_reading data ga gk pos gmore', 'length data = 0 -> pos = 0 /\\ rams_blank this.disc_rams'],
                at_start=['if gmore then pieces_readable (pure { data }) (pure { j_size mapping }) I_ pos ga else hold_none (pure { data }) (pure { j_size mapping }) gk pos ga'],
                at_end=[STEP % ('pure { if pos > 0 then pos - 1 else length data }', 'gmore', 'data', '(head pos)', 'data[(head pos) .. g_e]', '; gk <- I_ + 1; gmore <- pure { g_e < length data }')],
                after=['hold_all (pure { data }) (pure { j_size mapping }) gk pos ga (pure { this.disc_rams }) gmore'] + AFTER, variant='j_size mapping - I_')])

CONTRACTS.update({
'Discriminator::Discriminator(json)': dict(params='config', ensures=['dloaded fs config this'], throws=['not (dloadable fs config)'],
    loops=[dict(inv=['I_ <= j_size (j_get config str_mapping)', 'jmap_within (j_get config str_mapping) I_ this.disc_entrySize', 'length this.disc_rams = 0'], variant='j_size (j_get config str_mapping) - I_')]),
'Discriminator::Discriminator(str)': dict(params='config', ensures=['j_parsable config /\\ dloaded fs (j_parsed config) this'], throws=['j_parsable config -> not (dloadable fs (j_parsed config))']),
'Discriminator::getJSON(bool,str)': dict(params='huge prefix', ensures=['dsaved fs this result', 'not huge -> j_utf8 result', 'this = (old this)', 'fs_ext (old fs) fs', 'not huge -> fs = (old fs)'], throws=['this = (old this)', 'fs_ext (old fs) fs', 'not huge -> fs = (old fs)', BIGR]),
'Discriminator::getConfigJSON()': dict(params='', ensures=['j_utf8 result', 'dconf result this false', 'not (j_has result str_data)', 'this = (old this)'], throws=['false']),
'Discriminator::json(bool,str)': dict(params='huge path', ensures=['exists c. j_utf8 c /\\ result = j_text c (-1) /\\ dsaved fs this c /\\ dsettings this c', 'this = (old this)', 'fs_ext (old fs) fs', 'not huge -> fs = (old fs)'], throws=['this = (old this)', 'fs_ext (old fs) fs', 'not huge -> fs = (old fs)', BIGR]),
'Discriminator::json(bool)': dict(params='huge', ensures=['exists c. j_utf8 c /\\ result = j_text c (-1) /\\ dsaved fs this c /\\ dsettings this c', 'this = (old this)', 'fs_ext (old fs) fs', 'not huge -> fs = (old fs)'], throws=['this = (old this)', 'fs_ext (old fs) fs', 'not huge -> fs = (old fs)', BIGR]),
'Discriminator::json()': dict(params='', ensures=['exists c. j_utf8 c /\\ result = j_text c (-1) /\\ dsaved fs this c /\\ dsettings this c', 'this = (old this)', 'fs = (old fs)'], throws=['this = (old this)', 'fs = (old fs)', BIGR.replace('not huge -> ', '')]),
'Discriminator::jsonConfig()': dict(params='', ensures=['exists c. j_utf8 c /\\ result = j_text c 2 /\\ dconf c this false /\\ j_null (j_get c str_data) /\\ dsettings this c', 'this = (old this)'], throws=['false']),
})

D = 'this.wis_discriminators'
WJ = dict(ensures=['exists c. j_utf8 c /\\ result = j_text c (-1) /\\ wsaved fs this c', 'this = (old this)', 'fs_ext (old fs) fs', 'not huge -> fs = (old fs)'], throws=['this = (old this)', 'fs_ext (old fs) fs', 'not huge -> fs = (old fs)', 'not huge -> wbig this \\/ not (wtextual this)'])
CONTRACTS.update({
'Wisard::getConfig()': dict(params='', ensures=['wconf result this', 'wtextual this -> j_utf8 result', 'this = (old this)'], throws=['false']),
'Wisard::getClassesJSON(bool,str)': dict(params='huge path', ensures=['wclasses fs this result', 'not huge /\\ wtextual this -> j_utf8 result', 'this = (old this)', 'fs_ext (old fs) fs', 'not huge -> fs = (old fs)'],
    throws=['this = (old this)', 'fs_ext (old fs) fs', 'not huge -> fs = (old fs)', 'not huge -> wbig this'],
    loops=[dict(roles='c:json', inv=['this = (old this)', 'fs_ext (old fs) fs', 'not huge -> fs = (old fs)', 'not huge /\\ wtextual this -> j_utf8 c', 'j_null c \\/ j_obj c', 'forall l. j_has c l <-> seen %s l I_' % D, 'forall l [j_get c l]. seen %s l I_ -> dsaved fs (omap_get %s l) (j_get c l)' % (D, D)],
        at_start=['seen_step %s I_' % D], at_end=['saved_ext (pure { (head fs) }) fs'], after=['assert { forall l. seen %s l I_ <-> omap_mem %s l }' % (D, D)])]),
'Wisard::getConfigClassesJSON()': dict(params='', ensures=['wclassconfs this result', 'wtextual this -> j_utf8 result', 'this = (old this)'], throws=['false'],
    loops=[dict(roles='c:json', inv=['this = (old this)', 'wtextual this -> j_utf8 c', 'j_null c \\/ j_obj c', 'forall l. j_has c l <-> seen %s l I_' % D, 'forall l [j_get c l]. seen %s l I_ -> dconf (j_get c l) (omap_get %s l) false /\\ j_null (j_get (j_get c l) str_data)' % (D, D)],
        at_start=['seen_step %s I_' % D], after=['assert { forall l. seen %s l I_ <-> omap_mem %s l }' % (D, D)])]),
'Wisard::json(bool,str)': dict(params='huge path', **WJ),
'Wisard::json(bool)': dict(params='huge', **WJ),
'Wisard::json()': dict(params='', ensures=WJ['ensures'][:2] + ['fs = (old fs)'], throws=['this = (old this)', 'fs = (old fs)', 'wbig this \\/ not (wtextual this)']),
'Wisard::jsonConfig()': dict(params='', ensures=['exists c. j_utf8 c /\\ result = j_text c 2 /\\ wconf c this /\\ wclassconfs this (j_get c str_classes)', 'this = (old this)'], throws=['not (wtextual this)']),
'Wisard::Wisard(str)': dict(params='config', ensures=['j_parsable config /\\ wloaded fs (j_parsed config) this'], throws=['j_parsable config -> not (wloadable fs (j_parsed config))'],
    loops=[dict(roles='classes:json dConfig:json', inv=['I_ <= j_size classes', 'I_ > 0 -> j_obj classes', 'in_s32 this.wis_base', 'wmade this (j_to_int (j_get (j_parsed config) str_addressSize)) (j_parsed config)', 'forall l. omap_mem %s l <-> j_has classes l /\\ j_pos classes l < I_' % D,
        'forall l [omap_get %s l]. omap_mem %s l -> dloaded_as fs (j_get classes l) (j_of_bool this.wis_ignoreZero) (j_of_int this.wis_base) (omap_get %s l)' % (D, D, D),
        'forall l [omap_get %s l]. omap_mem %s l -> disc_as (omap_get %s l) this.wis_ignoreZero this.wis_base' % (D, D, D)],
        at_start=['as_merged fs (pure { j_at classes I_ }) dConfig'], at_end=['let g_l = pure { j_key classes I_ } in let g_d = pure { omap_get %s g_l } in assert { dloaded_as fs (j_get classes g_l) (j_of_bool this.wis_ignoreZero) (j_of_int this.wis_base) g_d }; assert { disc_ok g_d }; loaded_as fs (pure { j_get classes g_l }) (pure { this.wis_ignoreZero }) (pure { this.wis_base }) g_d; assert { disc_as g_d this.wis_ignoreZero this.wis_base }' % D], variant='j_size classes - I_')]),
})

# clusters
CD = 'this.clu_discriminators'
KEEP = ['this = (old this)', 'heap = (old heap)', 'heap_next = (old heap_next)', 'fs_ext (old fs) fs', 'not huge -> fs = (old fs)']
NEWH = '(old heap_next) <= heap_next'
OLDH = 'forall p [hget heap p]. 0 < p < (old heap_next) -> hget heap p = hget (old heap) p'
CONTRACTS.update({
'Cluster::getJson(bool,str)': dict(params='huge path', ensures=['csaved fs heap this result', 'not huge -> j_utf8 result'] + KEEP, throws=KEEP + ['not huge -> cbig heap this'],
    loops=[dict(roles='discriminatorsConfig:json', inv=KEEP + ['j_null discriminatorsConfig \\/ j_arr discriminatorsConfig', 'j_size discriminatorsConfig <= clu_n this', 'not huge -> j_utf8 discriminatorsConfig',
        'forall i. 0 <= i < clu_n this /\\ omap_pos %s i < I_ -> i < j_size discriminatorsConfig /\\ dsaved fs (clu_d heap this i) (j_at discriminatorsConfig i)' % CD],
        at_end=['saved_ext (pure { (head fs) }) fs'], after=['assert { clu_n this > 0 -> omap_mem %s (clu_n this - 1) }; assert { clu_n this > 0 -> omap_pos %s (clu_n this - 1) < I_ }; assert { 0 <= j_size discriminatorsConfig }; assert { j_size discriminatorsConfig = clu_n this }; assert { forall i. 0 <= i < clu_n this -> omap_pos %s i < I_ }' % (CD, CD, CD)])]),
'Cluster::Cluster(json)': dict(params='options', ensures=['cloaded fs heap options this', 'forall i. 0 <= i < clu_n this -> clu_p this i >= (old heap_next)', NEWH, OLDH], throws=['not (cloadable fs options)', NEWH, OLDH],
    loops=[dict(roles='discriminatorsConfig:json dConfig:json', inv=['discriminatorsConfig = j_get options str_discriminators', 'j_get dConfig str_ignoreZero = j_of_bool this.clu_ignoreZero', 'j_get dConfig str_base = j_of_int this.clu_base', 'jpatch dConfig', 'I_ <= j_size discriminatorsConfig', 'clu_n this = I_', 'cset options this', NEWH, OLDH, 'clu_ok heap heap_next this', 'in_s32 this.clu_base', 'forall i. 0 <= i < clu_n this -> clu_p this i >= (old heap_next)',
        'forall i. 0 <= i < I_ -> dloaded_as fs (j_at discriminatorsConfig i) (j_of_bool this.clu_ignoreZero) (j_of_int this.clu_base) (clu_d heap this i)'],
        at_start=['as_merged fs (pure { j_at discriminatorsConfig I_ }) dConfig; assert { cloadable fs options -> dloadable_as fs (j_at discriminatorsConfig I_) (j_of_bool this.clu_ignoreZero) (j_of_int this.clu_base) }'], variant='j_size discriminatorsConfig - I_',
        at_end=['let g_h = pure { (head heap) } in let g_t = pure { (head this) } in let g_p = pure { (head heap_next) } in assert { clu_keys g_t }; assert { clu_n g_t = I_ /\\ clu_n this = I_ + 1 }; assert { forall k [omap_mem %s k]. omap_mem %s k <-> omap_mem g_t.clu_discriminators k \\/ k = I_ }; assert { clu_keys this }; assert { clu_p this I_ = g_p /\\ g_p >= (old heap_next) /\\ g_p < heap_next }; assert { forall i. 0 <= i < I_ -> clu_p this i = clu_p g_t i }; assert { forall i. 0 <= i < I_ -> clu_d heap this i = clu_d g_h g_t i }; ' % (CD, CD)
            + 'loaded_as fs (pure { j_at discriminatorsConfig I_ }) (pure { this.clu_ignoreZero }) (pure { this.clu_base }) (pure { clu_d heap this I_ }); assert { disc_as (clu_d heap this I_) this.clu_ignoreZero this.clu_base }; assert { disc_ok (clu_d heap this I_) }; assert { forall i. 0 <= i < I_ -> 0 < clu_p this i < g_p }; assert { this.clu_ignoreZero = g_t.clu_ignoreZero /\\ this.clu_base = g_t.clu_base }; assert { forall i. 0 <= i < I_ -> disc_as (clu_d heap this i) this.clu_ignoreZero this.clu_base }; assert { forall i. 0 <= i < I_ -> dloaded_as fs (j_at discriminatorsConfig i) (j_of_bool this.clu_ignoreZero) (j_of_int this.clu_base) (clu_d heap this i) }; assert { forall i j. 0 <= i < I_ /\\ 0 <= j < I_ /\\ i <> j -> clu_p this i <> clu_p this j }' ])]),
})

C = 'this.cw_clusters'
U = 'this.cw_unsupervisedCluster'
CWJ = ['exists c. j_utf8 c /\\ result = j_text c (-1) /\\ cwsaved fs heap this c']
BIGC = 'not huge -> cwbig heap this \\/ not (cwtextual this)'
CONTRACTS.update({
'ClusWisard::getConfig()': dict(params='', ensures=['cwconf result this', 'j_null (j_get result str_clusters) /\\ j_null (j_get result str_unsupervisedCluster)', 'j_utf8 result', 'this = (old this)'], throws=['false']),
'ClusWisard::getClustersJson(bool,str)': dict(params='huge path', ensures=['cwclusters fs heap this result', 'not huge /\\ cwtextual this -> j_utf8 result'] + KEEP, throws=KEEP + ['not huge -> cwbig heap this'],
    loops=[dict(roles='config:json', inv=KEEP + ['not huge /\\ cwtextual this -> j_utf8 config', 'j_null config \\/ j_obj config', 'forall l. j_has config l <-> seen %s l I_' % C, 'forall l [j_get config l]. seen %s l I_ -> csaved fs heap (omap_get %s l) (j_get config l)' % (C, C)],
        at_start=['seen_step %s I_' % C], at_end=['saved_ext (pure { (head fs) }) fs'], after=['assert { forall l. seen %s l I_ <-> omap_mem %s l }' % (C, C)])]),
'ClusWisard::json(bool,str)': dict(params='huge path', locals='config:json', end=['assert { cwconf config this }; assert { cwclusters fs heap this (j_get config str_clusters) }; assert { cwsaved fs heap this config }'], calls={r'^Cluster::getJson': ['saved_ext (pure { (call fs) }) fs']}, ensures=CWJ + KEEP, throws=KEEP + [BIGC]),
'ClusWisard::json(bool)': dict(params='huge', ensures=CWJ + KEEP, throws=KEEP + [BIGC]),
'ClusWisard::json()': dict(params='', ensures=CWJ + KEEP[:3] + ['fs = (old fs)'], throws=KEEP[:3] + ['fs = (old fs)', 'cwbig heap this \\/ not (cwtextual this)']),
'ClusWisard::jsonConfig()': dict(params='', ensures=['exists c. j_utf8 c /\\ result = j_text c 2 /\\ cwconf c this /\\ j_null (j_get c str_clusters) /\\ j_null (j_get c str_unsupervisedCluster)', 'this = (old this)'], throws=['false']),
'ClusWisard::ClusWisard(str)': dict(params='config', ensures=['j_parsable config /\\ cwloaded fs heap (j_parsed config) this', NEWH, OLDH], throws=['j_parsable config -> not (cwloadable fs (j_parsed config))', NEWH, OLDH],
    loops=[dict(roles='classes:json dConfig:json', inv=['I_ <= j_size classes', 'I_ > 0 -> j_obj classes', 'cwpatch this dConfig', 'cwtyped1 this', 'cw_ok heap heap_next this', 'clu_n %s = 0' % U, NEWH, OLDH,
        'cwmade this (j_to_int (j_get (j_parsed config) str_addressSize)) (j_to_f32 (j_get (j_parsed config) str_minScore)) (j_to_int (j_get (j_parsed config) str_threshold)) (j_to_int (j_get (j_parsed config) str_discriminatorsLimit)) (j_parsed config)',
        'forall l. omap_mem %s l <-> j_has classes l /\\ j_pos classes l < I_' % C, 'forall l [omap_get %s l]. omap_mem %s l -> cwload1 fs heap this (j_get classes l) (omap_get %s l)' % (C, C, C)],
        at_end=['assert { cwsame_config (head this) this }', r'let g_k = pure { j_key classes I_ } in assert { gj = j_at classes I_ }; assert { cwload1 fs heap (head this) gj (omap_get %s g_k) }; assert { cwload1 fs heap this (j_at classes I_) (omap_get %s g_k) }; assert { cnewer (omap_get %s g_k) (head heap_next) }; assert { forall l. omap_mem %s l <-> omap_mem (head %s) l \/ l = g_k }; assert { forall l. j_has classes l /\ j_pos classes l = I_ <-> l = g_k }; assert { forall k. k <> g_k -> (omap_mem %s k <-> omap_mem (head %s) k) /\ omap_get %s k = omap_get (head %s) k }' % ((C,) * 9),
            'cw_ok_new (pure { (head heap) }) heap (pure { (head heap_next) }) heap_next (pure { (head this) }) this (pure { j_key classes I_ })'], variant='j_size classes - I_')],
    ghost=['gj = (any json)', 'gw = (any c_cluswisard)', 'gh = (any heapmap)', 'gn = (any int)'], calls={'<json_merge': ['cmerged fs this $0 $1', 'gj <- $0'], r'<^Cluster::Cluster\(json\)': ['gw <- this', 'gh <- heap', 'gn <- heap_next'],
        r'^Cluster::Cluster\(json\)': ['assert { cwload1 fs heap this gj $result }', 'assert { cw_sets this $result }', 'assert { clu_ok heap heap_next $result }', 'assert { chold gh heap gn heap_next }', 'assert { cnewer $result gn }']},
    end=['assert { not (j_null (j_get (j_parsed config) str_unsupervisedCluster)) -> cwsame_config gw this }', 'if pure { not (j_null (j_get (j_parsed config) str_unsupervisedCluster)) } then cw_ok_unew gh heap gn heap_next gw this', 'let g_c = pure { j_parsed config } in assert { forall l. omap_mem %s l <-> j_has (j_get g_c str_clusters) l }; assert { forall l. omap_mem %s l -> cwload1 fs heap this (j_get (j_get g_c str_clusters) l) (omap_get %s l) }; assert { not (j_null (j_get g_c str_unsupervisedCluster)) -> cw_sets gw %s /\\ this.cw_ignoreZero = gw.cw_ignoreZero /\\ this.cw_base = gw.cw_base }; assert { not (j_null (j_get g_c str_unsupervisedCluster)) -> cwload1 fs heap gw (j_get g_c str_unsupervisedCluster) %s }; assert { if j_null (j_get g_c str_unsupervisedCluster) then clu_n %s = 0 else cwload1 fs heap this (j_get g_c str_unsupervisedCluster) %s }' % (C, C, C, U, U, U, U)]),
})
