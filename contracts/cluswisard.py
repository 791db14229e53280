INVARIANTS = {'ClusWisard': 'cw_ok heap heap_next'}
C = 'this.cw_clusters'
SAME = ['this = (old this)', 'heap = (old heap)', 'heap_next = (old heap_next)']
CFG = ['cwsame_config (old this) this']
UNS = 'csame (old heap) heap (old this).cw_unsupervisedCluster this.cw_unsupervisedCluster'
PUT = {r'^Cluster::train': ['cw_ok_put (pure { (call heap) }) heap (pure { (call heap_next) }) heap_next (pure { (call this) }) this $key']}
CONTRACTS = {
'ClusWisard::makeClusters(str,int)': dict(params='label entrySize',
    ensures=CFG + ['heap = (old heap)', 'heap_next = (old heap_next)', UNS, 'cwothers (old heap) heap (old this) this label', 'omap_mem %s label' % C, 'cw_fresh (old this) entrySize (omap_get %s label)' % C], throws=['false']),
'ClusWisard::checkInputSizes(int,int)': dict(params='imageSize labelsSize', noinv=True, ensures=['imageSize = labelsSize'], throws=['imageSize <> labelsSize']),
'ClusWisard::checkConfigInputs(float,int,int)': dict(params='minScore threshold limit', noinv=True, ensures=['not (fl_nan minScore) /\\ fl_rk (fl_of_int 0) <= fl_rk minScore <= fl_rk (fl_of_int 1)', 'threshold >= 1', 'limit >= 1'],
    throws=['fl_nan minScore \\/ fl_rk minScore < fl_rk (fl_of_int 0) \\/ fl_rk minScore > fl_rk (fl_of_int 1) \\/ threshold < 1 \\/ limit < 1']),
'ClusWisard::checkConfidence(int)': dict(params='numberOfRAMS', noinv=True, ensures=['this.cw_confidence <= numberOfRAMS'], throws=['this.cw_confidence > numberOfRAMS']),
'ClusWisard::checkLabellessSize(int,int)': dict(params='numberOfInputs labellessSize', noinv=True, ensures=['labellessSize <> numberOfInputs'], throws=['labellessSize = numberOfInputs']),
'ClusWisard::checkInputLabels(int,omap<int,str>)': dict(params='numberOfInputs labels', noinv=True, ensures=['length (omap_keys labels) <= numberOfInputs'], throws=['length (omap_keys labels) > numberOfInputs']),
'ClusWisard::train(vec<int>,str)': dict(calls=PUT, params='image label',
    ensures=CFG + [UNS, 'cwothers (old heap) heap (old this) this label', 'cwgrow (old heap) heap (old this) this image label', '(old heap_next) <= heap_next'],
    throws=CFG + [UNS, 'cwothers (old heap) heap (old this) this label']),
'ClusWisard::train(vec<vec<int>>,vec<str>)': dict(params='images labels', ensures=['cwreach (old heap) (old this) images labels (length labels) heap this', 'length images = length labels'],
    throws=CFG + ['length images <> length labels -> this = (old this) /\\ heap = (old heap)', UNS],
    loops=[dict(inv=['cw_ok heap heap_next this', 'cwsame_config (old this) this', 'I_ <= length images', UNS, '(old heap_next) <= heap_next', 'cwreach (old heap) (old this) images labels I_ heap this', 'I_ = 0 -> this = (old this) /\\ heap = (old heap) /\\ heap_next = (old heap_next)'],
        at_end=['cwreach_step (pure { (old heap) }) (pure { (old this) }) images labels I_ (pure { (head heap) }) heap (pure { (head this) }) this'])]),
'ClusWisard::classify(vec<int>,bool)': dict(params='image searchBestConfidence', ensures=['cwdegrees heap this image result', 'degrees result', 'cwfits heap this image', 'this = (old this)',
      'forall k. omap_mem result k -> exists l j. omap_mem %s l /\\ 0 <= j < clu_n (omap_get %s l) /\\ k = ckey l j' % (C, C), 'cw_some this -> exists k. omap_mem result k'],
    throws=['not (cwfits heap this image)', 'this = (old this)'], start=['assert { $str("::") == colons }'],
    loops=[dict(roles='allvotes:omap<str,vec<int>>', inv=['this = (old this)', 'forall l j [ckey l j]. seen %s l I_ /\\ 0 <= j < clu_n (omap_get %s l) -> omap_mem allvotes (ckey l j) /\\ omap_get allvotes (ckey l j) = dballot (clu_d heap (omap_get %s l) j) image' % (C, C, C),
                'forall k [omap_mem allvotes k]. omap_mem allvotes k -> exists l j. seen %s l I_ /\\ 0 <= j < clu_n (omap_get %s l) /\\ k = ckey l j' % (C, C), 'forall l [omap_get %s l]. seen %s l I_ -> call_digits heap (omap_get %s l) image' % (C, C, C)],
                at_start=['seen_step %s I_' % C], after=['assert { cwvotes heap this image allvotes }; assume { votes_fit allvotes }; assert { forall l. omap_mem %s l /\\ clu_n (omap_get %s l) > 0 -> omap_mem allvotes (ckey l 0) }; assert { cw_some this -> exists k. omap_mem allvotes k }; assert { forall d: omap (seq int) int [bleached allvotes this.cw_bleachingActivated this.cw_confidence d]. bleached allvotes this.cw_bleachingActivated this.cw_confidence d -> cw_some this -> exists k. omap_mem d k }' % (C, C)]),
           dict(roles='allvotes:omap<str,vec<int>>', inv=['this = (old this)', 'call_digits heap (omap_get %s (omap_keys %s)[O_]) image' % (C, C), 'I_ <= clu_n (omap_get %s (omap_keys %s)[O_])' % (C, C),
                'forall l j [ckey l j]. (seen %s l O_ /\\ 0 <= j < clu_n (omap_get %s l)) \\/ (l = (omap_keys %s)[O_] /\\ 0 <= j < I_) -> omap_mem allvotes (ckey l j) /\\ omap_get allvotes (ckey l j) = dballot (clu_d heap (omap_get %s l) j) image' % (C, C, C, C),
                'forall k [omap_mem allvotes k]. omap_mem allvotes k -> exists l j. ((seen %s l O_ /\\ 0 <= j < clu_n (omap_get %s l)) \\/ (l = (omap_keys %s)[O_] /\\ 0 <= j < I_)) /\\ k = ckey l j' % (C, C, C)])]),
'ClusWisard::train(vec<int>)': dict(locals='label:str', calls=dict(PUT, **{'getBiggestCandidate': ['assert { exists l j [ckey l j]. omap_mem %s l /\\ 0 <= j < clu_n (omap_get %s l) /\\ $result = ckey l j }' % (C, C)]}), params='image', requires=['cw_some this'],
    ensures=CFG + ['(old heap_next) <= heap_next', 'cwself (old heap) heap (old this) this image'],
    throws=CFG + [UNS], start=['assert { $str("::") == colons }'],
    end=['assert { omap_mem (old this).cw_clusters label }', 'assert { cwanswer (old heap) (old this) image label }', 'assert { cwothers (old heap) heap (old this) this label }', 'assert { ctrained (old heap) heap (omap_get (old this).cw_clusters label) (omap_get this.cw_clusters label) image }', 'assert { cwstep (old heap) heap (old this) this image label }']),
'ClusWisard::classify(vec<vec<int>>)': dict(params='images', ensures=['length result = length images', 'cwanswers_n heap this images result (length images)', 'this = (old this)'],
    throws=['exists i. 0 <= i < length images /\\ not (cwfits heap this images[i])', 'this = (old this)'], start=['assert { $str("::") == colons }'],
    loops=[dict(variant='length images - I_', roles='labels:vec<str>', inv=['I_ <= length images', 'this = (old this)', 'length labels = length images', 'cwanswers_n heap this images labels I_'])]),

'ClusWisard::train(vec<vec<int>>,omap<int,str>)': dict(params='images labels', start=['assert { length (missing labels 0) = 0 }', 'assert { cwlab heap this images labels 0 heap this /\\ cwunl heap this images (missing labels 0) (length (missing labels 0)) heap this }', 'assert { cwsemi heap this images labels 0 heap this }'],
    ensures=CFG + ['length images > 0 -> length (missing labels (length images)) < length images', 'labels = (old labels)', 'length (omap_keys labels) <= length images',
        'cwsemi (old heap) (old this) images labels (length images) heap this'],
    throws=CFG + [UNS, 'length (omap_keys (old labels)) > length images -> this = (old this) /\\ heap = (old heap)', 'length (missing (old labels) (length images)) = length images -> this = (old this) /\\ heap = (old heap)'],
    loops=[dict(roles='labelless:vec<int>', inv=['cw_ok heap heap_next this', 'cwsame_config (old this) this', 'I_ <= length images', 'labels = (old labels)', UNS, '(old heap_next) <= heap_next', 'cwlab (old heap) (old this) images labels I_ heap this',
               'labelless = missing labels I_', 'length labelless <= I_', 'length labelless < I_ -> cw_some this', 'length labelless = I_ -> this = (old this) /\\ heap = (old heap) /\\ heap_next = (old heap_next)'],
             at_start=['if pure { omap_mem labels I_ } then missing_has labels I_ (pure { length images })'], at_end=['cwlab_step (pure { (old heap) }) (pure { (old this) }) images labels I_ (pure { (head heap) }) heap (pure { (head this) }) this'], after=['missing_in labels (length images)']),
           dict(roles='labelless:vec<int>', inv=['cw_ok heap heap_next this', 'cwsame_config (old this) this', 'cw_some this', 'labels = (old labels)', 'labelless = missing labels (length images)', UNS, '(old heap_next) <= heap_next', 'I_ <= length labelless',
                 'cwunl (entry heap) (entry this) images labelless I_ heap this'],
             at_end=['cwunl_step (pure { (entry heap) }) (pure { (entry this) }) images labelless I_ (pure { (head heap) }) heap (pure { (head this) }) this'],
             after=['assert { cwlab (old heap) (old this) images labels (length images) (entry heap) (entry this) }'])]),

'ClusWisard::trainUnsupervised(vec<vec<int>>)': dict(params='images',
    ensures=CFG + ['length images = 0 -> this = (old this) /\\ heap = (old heap)', 'length images > 0 -> cunsup (old heap) (old this) images heap this.cw_unsupervisedCluster', 'cwkept (old heap) heap (old this) this'],
    throws=CFG + ['cwkept (old heap) heap (old this) this'], calls={r'^Cluster::train': ['cw_ok_unsup (pure { (call heap) }) heap (pure { (call heap_next) }) heap_next (pure { (call this) }) this']},
    loops=[dict(inv=['cw_ok heap heap_next this', 'cwsame_config (old this) this', 'cwkept (old heap) heap (old this) this', 'I_ <= length images', '(old heap_next) <= heap_next', 'cunsup_n (old heap) (entry this).cw_unsupervisedCluster images I_ heap this.cw_unsupervisedCluster'],
          at_end=['cunsup_step (pure { (old heap) }) (pure { (entry this.cw_unsupervisedCluster) }) images I_ (pure { (head heap) }) heap (pure { (head this.cw_unsupervisedCluster) }) this.cw_unsupervisedCluster'])]),
'ClusWisard::classifyUnsupervised(vec<int>)': dict(params='image', ensures=['cudegrees heap this image result', 'degrees result', 'call_digits heap this.cw_unsupervisedCluster image', 'this = (old this)',
      'forall k. omap_mem result k -> exists j. 0 <= j < clu_n this.cw_unsupervisedCluster /\\ k = i2s j'],
    throws=['not (call_digits heap this.cw_unsupervisedCluster image)', 'this = (old this)'],
    loops=[dict(roles='allvotes:omap<str,vec<int>>', inv=['this = (old this)', 'I_ <= clu_n this.cw_unsupervisedCluster', 'call_digits heap this.cw_unsupervisedCluster image',
                'forall j [i2s j]. 0 <= j < I_ -> omap_mem allvotes (i2s j) /\\ omap_get allvotes (i2s j) = dballot (clu_d heap this.cw_unsupervisedCluster j) image',
                'forall k [omap_mem allvotes k]. omap_mem allvotes k -> exists j. 0 <= j < I_ /\\ k = i2s j'], after=['assert { cuvotes heap this.cw_unsupervisedCluster image allvotes }; assume { votes_fit allvotes }'])]),
'ClusWisard::classifyUnsupervised(vec<vec<int>>)': dict(params='images', calls={'getBiggestCandidate': ['plain_name $result']}, ensures=['length result = length images', 'cuanswers_n heap this images result (length images)', 'this = (old this)'],
    throws=['exists i. 0 <= i < length images /\\ not (call_digits heap this.cw_unsupervisedCluster images[i])', 'this = (old this)'], start=['assert { $str("::") == colons }'],
    loops=[dict(variant='length images - I_', roles='labels:vec<str>', inv=['I_ <= length images', 'this = (old this)', 'length labels = length images', 'cuanswers_n heap this images labels I_'])]),
'ClusWisard::getMentalImage(str)': dict(params='label', ensures=['if omap_mem %s label then cwmental heap this label result else length result = 0' % C, 'this = (old this)'], throws=['omap_mem %s label' % C, 'this = (old this)']),
'ClusWisard::getMentalImages()': dict(params='', ensures=['forall l. omap_mem result l <-> omap_mem %s l' % C, 'forall l. omap_mem %s l -> cwmental heap this l (omap_get result l)' % C, 'this = (old this)'], throws=['this = (old this)'],
    loops=[dict(roles='mentalImages:omap<str,vec<vec<int>>>', inv=['this = (old this)', 'forall l. omap_mem mentalImages l <-> seen %s l I_' % C, 'forall l [omap_get mentalImages l]. seen %s l I_ -> cwmental heap this l (omap_get mentalImages l)' % C], at_start=['seen_step %s I_' % C])]),
'ClusWisard::ClusWisard(int,float,int,int,json)': dict(params='addressSize minScore threshold discriminatorsLimit options',
    ensures=['cwmade this addressSize minScore threshold discriminatorsLimit options', 'forall k. not (omap_mem this.cw_clusters k)', 'clu_n this.cw_unsupervisedCluster = 0', 'cw_limits minScore threshold discriminatorsLimit', 'not (cwunmade options)', 'heap = (old heap)', 'heap_next = (old heap_next)'],
    throws=['cwunmade options \\/ not (cw_limits minScore threshold discriminatorsLimit)']),
'ClusWisard::ClusWisard(int,float,int,int)': dict(params='addressSize minScore threshold discriminatorsLimit',
    ensures=['cwmade this addressSize minScore threshold discriminatorsLimit jnull', 'forall k. not (omap_mem this.cw_clusters k)', 'clu_n this.cw_unsupervisedCluster = 0', 'cw_limits minScore threshold discriminatorsLimit', 'heap = (old heap)', 'heap_next = (old heap_next)'],
    throws=['not (cw_limits minScore threshold discriminatorsLimit)']),
}
