INVARIANTS = {'Wisard': 'wis_ok'}
D = 'this.wis_discriminators'
SAME = ['wsame_config (old this) this']
ALLOK = 'forall l. omap_mem %s l -> ddigits (omap_get %s l) $view(image)' % (D, D)
CLS = dict(params='image searchBestConfidence', ensures=['wdegrees this $view(image) result', 'degrees result', ALLOK, 'exists m. wvotes this $view(image) m /\\ forall k. omap_mem result k <-> omap_mem m k'],
    throws=['not (%s)' % ALLOK])
BAD = 'exists i l. 0 <= i < length $view(images) /\\ omap_mem %s l /\\ not (ddigits (omap_get %s l) $view(images)[i])' % (D, D)
CLSS = dict(params='images', ensures=['length result = length $view(images)', 'wanswers_n this $view(images) result (length result)'], throws=[BAD])
CONTRACTS = {
'Wisard::makeDiscriminator(str,int)': dict(params='label entrySize', 
    ensures=['wothers (old this) this label', 'omap_mem %s label' % D, 'wnew (old this) label entrySize (omap_get %s label)' % D] + SAME,
    throws=['this = (old this)']),
'Wisard::checkInputSizes(int,int)': dict(params='imageSize labelsSize', noinv=True, ensures=['imageSize = labelsSize'], throws=['imageSize <> labelsSize']),
'Wisard::checkConfidence(int)': dict(params='numberOfRAMS', noinv=True, ensures=['this.wis_confidence <= numberOfRAMS'], throws=['this.wis_confidence > numberOfRAMS']),
'Wisard::train(T,str)': dict(params='image label',
    ensures=['wstep (old this) this $view(image) label'],
    throws=['wothers (old this) this label'] + SAME + [('C15', 'omap_mem (old this).wis_discriminators label -> omap_mem this.wis_discriminators label /\\ dpartial (omap_get (old this).wis_discriminators label) (omap_get this.wis_discriminators label) $view(image)'),
        ('C15', 'not omap_mem (old this).wis_discriminators label -> not omap_mem this.wis_discriminators label \\/ exists d. wnew (old this) label (to_s32 (length $view(image))) d /\\ dpartial d (omap_get this.wis_discriminators label) $view(image)')]),
'Wisard::train(vec<vec<int>>,vec<str>)': dict(params='images labels', ensures=['wtrained (old this) this images labels (length labels)', 'length images = length labels'],
    throws=SAME + ['length images <> length labels -> this = (old this)',
                   'length images > 0 /\\ (this.wis_addressSize < 1 \\/ this.wis_confidence > ED.div (length images[0]) this.wis_addressSize + (if this.wis_completeAddressing /\\ ED.mod (length images[0]) this.wis_addressSize > 0 then 1 else 0)) -> this = (old this)'],
    loops=[dict(inv=['wis_ok this', 'wtrained (old this) this images labels I_'], at_end=['wtrained_step (pure { (old this) }) (pure { (head this) }) this images labels I_'])]),
'Wisard::train(DataSet)': dict(params='dataset', ensures=['wtrained (old this) this $view(dataset) (ds_labs dataset) (length dataset.ds_data)', 'forall i. 0 <= i < length dataset.ds_data -> umap_mem dataset.ds_labels i'],
    throws=SAME + ['length dataset.ds_data > 0 /\\ length (bin_view dataset.ds_data[0]) < 2147483648 /\\ (this.wis_addressSize < 1 \\/ this.wis_confidence > ED.div (length (bin_view dataset.ds_data[0])) this.wis_addressSize + (if this.wis_completeAddressing /\\ ED.mod (length (bin_view dataset.ds_data[0])) this.wis_addressSize > 0 then 1 else 0)) -> this = (old this)'],
    loops=[dict(variant='length dataset.ds_data - I_', inv=['I_ <= length dataset.ds_data', 'wis_ok this', 'wtrained (old this) this $view(dataset) (ds_labs dataset) I_', 'forall i. 0 <= i < I_ -> umap_mem dataset.ds_labels i'], at_end=['wtrained_step (pure { (old this) }) (pure { (head this) }) this $view(dataset) (ds_labs dataset) I_'])]),
'Wisard::__classify(T)': CLS, 'Wisard::classify(T,bool)': CLS,
'Wisard::__classify(T,bool)': dict(CLS,
    loops=[dict(roles='allvotes:omap<str,vec<int>>', inv=['forall k. omap_mem allvotes k <-> seen %s k I_' % D, 'forall k. seen %s k I_ -> ddigits (omap_get %s k) $view(image) /\\ dvotes (omap_get %s k) $view(image) (omap_get allvotes k)' % (D, D, D)],
        at_start=['seen_step %s I_' % D],
        after=['assert { wvotes this $view(image) allvotes }; assume { votes_fit allvotes }'])]),
'Wisard::classify(T)': CLSS, 
'Wisard::_classify(T)': dict(CLSS, loops=[dict(variant='length $view(images) - I_', roles='labels:vec<str>', inv=['wanswers_n this $view(images) labels I_', 'length labels = length $view(images)'])]),
'Wisard::leaveOneOut(vec<int>,str)': dict(params='image label', ensures=['wleft (old this) this image label'],
    throws=SAME + ['wothers (old this) this label', 'omap_mem %s label' % D, 'length image <> (omap_get (old this).wis_discriminators label).disc_entrySize -> omap_get %s label = omap_get (old this).wis_discriminators label' % D]),
'Wisard::leaveMoreOut(vec<vec<int>>,vec<str>)': dict(params='images labels', ensures=['wleftout (old this) this images labels (length labels)', 'length images = length labels'],
    throws=SAME + ['length images <> length labels -> this = (old this)'],
    loops=[dict(inv=['wis_ok this', 'wleftout (old this) this images labels I_'], at_end=['wleftout_step (pure { (old this) }) (pure { (head this) }) this images labels I_'])]),
'Wisard::getMentalImages()': dict(params='', ensures=['forall k. (omap_mem result k <-> omap_mem %s k) /\\ (omap_mem %s k -> dmental (omap_get %s k) (omap_get result k))' % (D, D, D)],
    throws=['exists k. omap_mem %s k /\\ (omap_get %s k).disc_entrySize < 0' % (D, D)],
    loops=[dict(roles='images:omap<str,vec<int>>', inv=['forall k. omap_mem images k <-> seen %s k I_' % D, 'forall k. seen %s k I_ -> dmental (omap_get %s k) (omap_get images k)' % (D, D)], at_start=['seen_step %s I_' % D])]),
'Wisard::Wisard(int,json)': dict(params='addressSize c', ensures=['wmade this addressSize c', 'forall k. not (omap_mem this.wis_discriminators k)', 'not (wunmade c)'], throws=['wunmade c']),
'Wisard::Wisard(int)': dict(params='addressSize', ensures=['wmade this addressSize jnull', 'forall k. not (omap_mem this.wis_discriminators k)'], throws=['false']),
}
