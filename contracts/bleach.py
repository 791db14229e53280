M = 'allvotes'
V = 'omap_get allvotes (omap_keys allvotes)[O_]'
KEPT = ['forall k. omap_mem labels k -> omap_mem allvotes k']
LOOPS = [dict(roles='labels:omap<str,int> bleaching:int', inv=['bleaching >= 1', 'forall c. 1 <= c < bleaching -> undecided allvotes c confidence', 'bleaching > 1 -> bleachingActivated'] + KEPT,
             variant='2147483647 - bleaching', at_start=['if pure { bleaching > 1 } then undecided_fit allvotes (pure { bleaching - 1 }) confidence']),
        dict(roles='labels:omap<str,int> bleaching:int', inv=KEPT + ['forall k. seen allvotes k I_ -> omap_mem labels k /\\ omap_get labels k = degc allvotes k bleaching'],
             after=['assert { degrees_at allvotes bleaching labels }']),
        dict(roles='labels:omap<str,int> bleaching:int sum:int:mod', inv=KEPT + ['forall k. seen allvotes k O_ -> omap_mem labels k /\\ omap_get labels k = degc allvotes k bleaching', '0 <= I_ <= length (%s)' % V,
             'sum = deg (%s) bleaching I_' % V, '!sum omap_mem labels (omap_keys allvotes)[O_]', '!sum omap_get labels (omap_keys allvotes)[O_] = deg (%s) bleaching I_' % V], variant='length (%s) - I_' % V)]
MAKE = dict(params='allvotes bleachingActivated confidence', requires=['votes_fit allvotes'], ensures=['bleached allvotes bleachingActivated confidence result'], loops=LOOPS)
CONTRACTS = {
'Bleaching::isThereAmbiguity(omap<str,int>,int)': dict(params='candidates confidence', requires=['degrees candidates'], 
    ensures=['let (amb, big) = result in is_max_n candidates (length (omap_keys candidates)) big /\\ (big >= 1 -> (amb <-> close_top candidates confidence))'],
    loops=[dict(roles='biggest:int ambiguity:bool', inv=['is_max_n candidates I_ biggest', 'biggest >= 1 -> (ambiguity <-> close_top_n candidates confidence I_)'],
           at_end=['ambiguity_step candidates confidence I_ (pure { (head biggest) }) (pure { (head ambiguity) }) biggest ambiguity'])]),

'Bleaching::makeConfidenceless(omap<str,vec<int>>,bool,int)': MAKE,
'Bleaching::makeWithConfidence(omap<str,vec<int>>,bool,int)': dict(MAKE, loops=[]),
'Bleaching::make(omap<str,vec<int>>,bool,bool,int)': dict(MAKE, loops=[], params='allvotes bleachingActivated searchBestConfidence confidence'),
'Bleaching::getBiggestCandidate(omap<str,int>)': dict(params='candidates', requires=['degrees candidates'], ensures=['winner candidates result'],
    loops=[dict(roles='biggest:int label:str', inv=['winner_n candidates I_ biggest label', 'biggest >= 0'])]),
'Bleaching::getConfidence(omap<str,int>,int)': dict(params='candidates biggest', requires=['degrees candidates', 'biggest >= 0'],
    ensures=['biggest = 0 -> result = fl_of_int32 0', 'fl_le (fl_of_int32 0) result /\\ fl_le result (fl_of_int32 1)',
             'biggest > 0 -> exists s. second_n candidates (length (omap_keys candidates)) biggest s /\\ result = fl_div32 (fl_sub32 (fl_of_int32 biggest) s) (fl_of_int32 biggest)'],
    loops=[dict(roles='secondBiggest:float', inv=['second_n candidates I_ biggest secondBiggest', 'fl_le (fl_of_int32 0) secondBiggest /\\ fl_le secondBiggest (fl_of_int32 biggest)'], at_start=['seen_step candidates I_'])]),
}
