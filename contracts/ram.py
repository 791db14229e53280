FIELDS = {'RAM': [('addresses', 'vec<int>'), ('positions', 'umap<u64,int>'), ('ignoreZero', 'bool'), ('base', 'int')]}
INVARIANTS = {'RAM': 'ram_ok'}
VIEWS = {}
IN = 'within this.ram_addresses (length $view(image))'
CONTRACTS = {
'RAM::RAM(vec<int>,bool,int)': dict(params='indexes ignoreZero base',
    ensures=['base >= 2', 'this.ram_addresses = indexes', 'this.ram_base = base', 'this.ram_ignoreZero = ignoreZero',
             'forall k. not umap_mem this.ram_positions k',
             ('C02', 'counts this (empty: seq (seq int))')],
    throws=['base < 2 \\/ pow base (length indexes) > 18446744073709551616']),
'RAM::RAM(int,int,bool,int)': dict(params='addressSize entrySize ignoreZero base', requires=['addressSize >= 0'],
    ensures=['base >= 2', 'length this.ram_addresses = addressSize', 'this.ram_base = base', 'this.ram_ignoreZero = ignoreZero', 'forall i [this.ram_addresses[i]]. 0 <= i < addressSize -> 0 <= this.ram_addresses[i] < entrySize',
             'forall k. not umap_mem this.ram_positions k'],
    throws=['base < 2 \\/ pow base addressSize > 18446744073709551616 \\/ entrySize < 1']),
'RAM::generateRandomAddresses(int)': dict(params='entrySize', noinv=True,
    ensures=['entrySize >= 1', 'length this.ram_addresses = length (old this).ram_addresses', 'forall i [this.ram_addresses[i]]. 0 <= i < length this.ram_addresses -> 0 <= this.ram_addresses[i] < entrySize',
             'this.ram_base = (old this).ram_base /\\ this.ram_ignoreZero = (old this).ram_ignoreZero /\\ this.ram_positions = (old this).ram_positions'],
    throws=['entrySize < 1', 'this = (old this)'],
    loops=[dict(roles='', inv=['length this.ram_addresses = length (old this).ram_addresses', 'forall i [this.ram_addresses[i]]. 0 <= i < I_ -> 0 <= this.ram_addresses[i] < entrySize',
        'this.ram_base = (old this).ram_base /\\ this.ram_ignoreZero = (old this).ram_ignoreZero /\\ this.ram_positions = (old this).ram_positions'])]),
'RAM::checkLimitAddressSize(int,int)': dict(params='addressSize basein', noinv=True,
    ensures=['basein >= 2', 'pow basein addressSize <= 18446744073709551616'],
    throws=['basein < 2 \\/ pow basein addressSize > 18446744073709551616'],
    loops=[dict(roles='biggest:u64',
        inv=['biggest = pow basein I_ - 1', 'pow basein I_ <= 18446744073709551616'],
        at_start=['pow_mono basein (I_ + 1) addressSize; pow_s basein (I_ + 1)'])]),
'RAM::checkPos(int)': dict(params='code', noinv=True,
    ensures=['0 <= code < this.ram_base'], throws=['not (0 <= code < this.ram_base)']),
'RAM::getIndex(T)': dict(params='image',
    ensures=[IN, 'digits this $view(image)', 'result = raddr this $view(image)'],
    throws=['not (%s /\\ digits this $view(image))' % IN],
    loops=[dict(roles='index:u64 p:u64',
        inv=['digits_n this.ram_addresses this.ram_base $view(image) I_', 'forall j. 0 <= j < I_ -> 0 <= this.ram_addresses[j] < length $view(image)',
             'index = addr this.ram_addresses this.ram_base $view(image) I_',
             'p = to_u64 (pow this.ram_base I_)'],
        at_start=['pow_mono this.ram_base (I_ + 1) (length this.ram_addresses); pow_pos this.ram_base I_; pow_s this.ram_base (I_ + 1)',
                  'assert { 2 * pow this.ram_base I_ <= pow this.ram_base (I_ + 1) }'],
        at_end=['addr_s this.ram_addresses this.ram_base $view(image) (I_ + 1); addr_bound this.ram_addresses this.ram_base $view(image) I_; assert { digits_n this.ram_addresses this.ram_base $view(image) (I_ + 1) }; addr_bound this.ram_addresses this.ram_base $view(image) (I_ + 1)'])]),
'RAM::train(T)': dict(params='image',
    ensures=[IN, 'digits this $view(image)', 'trained (old this) this $view(image)',
             ('C02', 'forall h. counts (old this) h -> counts this (snoc h $view(image))')],
    end=[('C02', 'counts_train_all (pure { (old this) }) this $view(image)')], throws=['not (%s /\\ digits this $view(image))' % IN, 'this = old this']),
'RAM::untrain(vec<int>)': dict(params='image',
    ensures=[IN, 'digits this $view(image)', 'untrained (old this) this $view(image)'],
    throws=['not (%s /\\ digits this $view(image))' % IN, 'this = old this']),
'RAM::getVote(T)': dict(params='image',
    ensures=[IN, 'digits this $view(image)',
             'result = rvote this $view(image)',
             ('C02', 'forall h. counts this h -> result = cvote this h $view(image)')],
    start=[('C02', 'if pure { digits this $view(image) } then counts_vote_all this $view(image)')], throws=['not (%s /\\ digits this $view(image))' % IN]),
'RAM::convertToBase(u64)': dict(params='number',
    requires=['0 <= number'],
    ensures=['length result = length this.ram_addresses',
             'forall i. 0 <= i < length result -> result[i] = digit this.ram_base number i'],
    throws=['false'],
    loops=[dict(roles='numberConverted:vec<int> baseNumber:u64',
        inv=['baseNumber = ED.div number (pow this.ram_base I_)', '0 <= baseNumber <= number',
             'forall i. 0 <= i < I_ -> numberConverted[i] = digit this.ram_base number i'],
        at_start=['pow_pos this.ram_base I_; pow_s this.ram_base (I_ + 1); div_div number (pow this.ram_base I_) this.ram_base'])]),
'RAM::getMentalImage()': dict(params='',
    ensures=['length result = length this.ram_addresses',
             'forall i. 0 <= i < length result -> length result[i] = 2 /\\ result[i][0] = this.ram_addresses[i] /\\ result[i][1] = mass this.ram_positions this.ram_base i (length (umap_keys this.ram_positions))'],
    throws=['false'],
    loops=[dict(roles='mentalPiece:vec<vec<int>>',
                inv=['forall i. 0 <= i < I_ -> length mentalPiece[i] = 2 /\\ mentalPiece[i][0] = this.ram_addresses[i] /\\ mentalPiece[i][1] = 0']),
           dict(roles='mentalPiece:vec<vec<int>>',
                inv=['forall i. 0 <= i < length mentalPiece -> length mentalPiece[i] = 2 /\\ mentalPiece[i][0] = this.ram_addresses[i] /\\ mentalPiece[i][1] = mass this.ram_positions this.ram_base i I_']),
           dict(roles='mentalPiece:vec<vec<int>>',
                inv=['forall i. 0 <= i < length mentalPiece -> length mentalPiece[i] = 2 /\\ mentalPiece[i][0] = this.ram_addresses[i] /\\ mentalPiece[i][1] = mass this.ram_positions this.ram_base i (if i < I_ then O_ + 1 else O_)'])]),
'RAM::setMapping(vec<vec<int>>,int)': dict(params='mapping i',
    requires=['0 <= i < length mapping'],
    ensures=['mapping = set (old mapping) i this.ram_addresses'],
    throws=['false'],
    loops=[dict(inv=['length mapping[i] = length this.ram_addresses', 'forall k. 0 <= k < I_ -> mapping[i][k] = this.ram_addresses[k]',
                     'forall k. 0 <= k < length mapping -> k <> i -> mapping[k] = (old mapping)[k]'],
                 after=['assert { mapping[i] == this.ram_addresses }; assert { mapping == set (old mapping) i this.ram_addresses }'])]),
'RAM::getAddressSize()': dict(params='', ensures=['result = length this.ram_addresses']),
}
