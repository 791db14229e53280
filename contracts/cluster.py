INVARIANTS = {'Cluster': 'clu_ok heap heap_next'}
D = 'this.clu_discriminators'
H0 = '(old heap)'
T0 = '(old this)'
FR = 'heap_frame (old heap) heap (old heap_next) heap_next (old this)'
SAME = ['this = (old this)', 'heap = (old heap)', 'heap_next = (old heap_next)']
V = '$view(image)'
N0 = 'clu_n (old this)'
TK = 'ctakes (old heap) (old this) %s (clu_n (old this))' % V
BADALL = 'exists i. 0 <= i < clu_n this /\\ not (ddigits (clu_d heap this i) $view(image))'
CONTRACTS = {
'Cluster::makeDiscriminator(int)': dict(params='index', requires=['index = clu_n this'],
    ensures=['(old heap_next) <= heap_next', 'forall p [hget heap p]. 0 < p < (old heap_next) -> hget heap p = hget (old heap) p', 'clu_n this = index + 1', 'forall i [omap_get %s i]. 0 <= i < index -> clu_p this i = clu_p (old this) i' % D, 'clu_new (old this) (clu_d heap this index)', 'clu_p this index >= (old heap_next)'],
    throws=SAME),
'Cluster::getScore(vec<int>)': dict(params='votes', noinv=True, ensures=['result = score votes'], throws=['false'],
    loops=[dict(roles='max:int sum:float', inv=['max = vtop votes I_', '0 <= max <= 2147483647', 'sum = vsum32 votes I_'], after=['mul_le max 2147483647 (length votes)', 'assert { to_u64 (imul (to_u64 max) (length votes)) = imul (vtop votes (length votes)) (length votes) }'])]),
'Cluster::train(T)': dict(params='image', start=['as_trained ()', 'new_as ()'],
    ensures=['csame_config (old this) this', 'cprefix (old this) this', 'call_digits (old heap) (old this) ' + V,
             '%s -> clu_n this = %s /\\ cpolicy_n (old heap) heap (old this) %s (%s)' % (TK, N0, V, N0),
             'not (%s) /\\ croom (old this) -> ckept (old heap) heap (old this) 0' % TK,
             'not (%s) /\\ croom (old this) -> cgrown heap (old this) this %s' % (TK, V),
             'not (%s) /\\ not (croom (old this)) -> clu_n this = %s' % (TK, N0),
             'not (%s) /\\ not (croom (old this)) /\\ cnone_n (old heap) (old this) %s (%s) -> ckept (old heap) heap (old this) 0' % (TK, V, N0),
             'not (%s) /\\ not (croom (old this)) /\\ not (cnone_n (old heap) (old this) %s (%s)) -> cbest_one (old heap) heap (old this) %s' % (TK, V, N0, V),
             FR, 'forall i. clu_n (old this) <= i < clu_n this -> clu_p this i >= (old heap_next)'],
    throws=[FR, 'clu_n (old this) <= clu_n this', 'csame_config (old this) this', 'cprefix (old this) this', 'forall i. clu_n (old this) <= i < clu_n this -> clu_p this i >= (old heap_next)',
            'clu_n (old this) > 0 /\\ not (ddigits (clu_d (old heap) (old this) 0) %s) -> this = (old this) /\\ heap = (old heap) /\\ heap_next = (old heap_next)' % V],
    loops=[dict(roles='bestValue:float trained:bool bestDiscriminator:Discriminator*', after=['assert { I_ = clu_n this }', 'assert { bestDiscriminator <> 0 <-> not (cnone_n (old heap) this %s (clu_n this)) }' % V, 'assert { bestDiscriminator <> 0 -> cbest_at (old heap) this %s bestDiscriminator }' % V, 'assert { bestDiscriminator <> 0 -> clu_owns this bestDiscriminator /\\ disc_ok (hget heap bestDiscriminator) }'], at_end=['cbest_take (pure { (old heap) }) this %s I_ (pure { (head bestValue) })' % V],
        variant='clu_n this - I_', inv=['I_ <= clu_n this', 'this = (old this)', 'heap_next = (old heap_next)', 'clu_ok heap heap_next this', 'cpolicy_n (old heap) heap this %s I_' % V,
        'ckept (old heap) heap this I_', 'forall p [hget heap p]. 0 < p < heap_next /\\ not (clu_owns this p) -> hget heap p = hget (old heap) p', 'trained <-> ctakes (old heap) this %s I_' % V,
        'not trained -> heap = (old heap)', 'I_ = 0 -> heap = (old heap)',
        'bestDiscriminator = 0 -> bestValue = fl_of_int 0 /\\ cnone_n (old heap) this %s I_' % V,
        'bestDiscriminator <> 0 -> exists b. cbest_n (old heap) this %s I_ b /\\ clu_p this b = bestDiscriminator /\\ bestValue = dscore (clu_d (old heap) this b) %s' % (V, V)])]),
'Cluster::classify(T)': dict(params='image', ensures=['length result = clu_n this', 'coutput_n heap this %s result (clu_n this)' % V, 'call_digits heap this %s' % V, 'this = (old this)'],
    throws=[BADALL, 'this = (old this)'],
    loops=[dict(variant='clu_n this - I_', roles='output:vec<vec<int>>', inv=['I_ <= clu_n this', 'this = (old this)', 'length output = clu_n this', 'forall i [%s]. 0 <= i < I_ -> ddigits (clu_d heap this i) %s' % ('omap_get this.clu_discriminators i', V), 'coutput_n heap this %s output I_' % V])]),
'Cluster::getMentalImages()': dict(params='', ensures=['length result = clu_n this', 'cmental_n heap this result (clu_n this)'], throws=['exists i. 0 <= i < clu_n this /\\ (clu_d heap this i).disc_entrySize < 0'],
    loops=[dict(roles='images:vec<vec<int>>', inv=['length images = clu_n this', 'forall i. 0 <= i < clu_n this /\\ omap_pos %s i < I_ -> dmental (clu_d heap this i) images[i]' % D])]),
'Cluster::getSize()': dict(params='', ensures=['result = clu_n this']),
'Cluster::getNumberOfDiscriminators()': dict(params='', ensures=['result = clu_n this']),
'Cluster::Cluster()': dict(params='', ensures=['clu_n this = 0']),
'Cluster::Cluster(int,int,float,u32,int,bool,bool,int)': dict(params='entrySize addressSize minScore threshold discriminatorsLimit completeAddressing ignoreZero base', 
    ensures=['clu_n this = 0', 'this.clu_entrySize = to_u32 entrySize', 'this.clu_addressSize = to_u32 addressSize', 'this.clu_minScore = minScore', 'this.clu_threshold = threshold', 'this.clu_discriminatorsLimit = discriminatorsLimit',
             'this.clu_completeAddressing = completeAddressing', 'this.clu_ignoreZero = ignoreZero', 'this.clu_base = base']),
}
