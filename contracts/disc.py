FIELDS = {'Discriminator': [('entrySize', 'int'), ('count', 'int'), ('rams', 'vec<RAM>')]}
INVARIANTS = {'Discriminator': 'disc_ok'}
R = 'this.disc_rams'
O = '(old this)'
BADADDR = '(addressSize < 2 \\/ entrySize < 2 \\/ entrySize < addressSize)'
BIG = 'pow base addressSize > 18446744073709551616'
NEW = 'disc_new this this.disc_entrySize base ignoreZero'
MAKE = ['forall i [R_[i]]. 0 <= i < I_ -> ram_ok R_[i] /\\ R_[i].ram_base = base /\\ R_[i].ram_ignoreZero = ignoreZero /\\ (forall k. not (umap_mem R_[i].ram_positions k))'.replace('R_', R)]
CONTRACTS = {
'calculateNumberOfRams(int,int,bool)': dict(params='entrySize addressSize completeAddressing',
    ensures=['addressSize >= 1', 'entrySize < 0 -> result <= 0', 'entrySize >= 0 -> result = ED.div entrySize addressSize + (if completeAddressing /\\ ED.mod entrySize addressSize > 0 then 1 else 0)'],
    throws=['addressSize < 1']),
'randint(int,int,bool)': dict(params='min max isSeed', requires=['-2147483648 <= max - min < 2147483647', 'max - min + 1 > 0'], ensures=['min <= result <= max', 'drawn min max result'], throws=['false']),
'Discriminator::Discriminator()': dict(params='', ensures=['disc_new this 0 2 false', 'length this.disc_rams = 0']),
'Discriminator::Discriminator(int)': dict(params='entrySize', ensures=['disc_new this entrySize 2 false', 'length this.disc_rams = 0']),
'Discriminator::checkEntrySize(u64)': dict(params='entry', noinv=True, ensures=['this.disc_entrySize = entry'], throws=['this.disc_entrySize <> entry']),
'Discriminator::checkBase(int)': dict(params='base', noinv=True, ensures=['base >= 2'], throws=['base < 2']),
'Discriminator::checkAddressSize(int,int)': dict(params='entrySize addressSize', noinv=True, ensures=['not %s' % BADADDR], throws=[BADADDR]),
'Discriminator::checkIndexesRange(vec<int>,int)': dict(params='indexes entrySize', noinv=True,
    ensures=['in_entry indexes entrySize'], throws=['not (in_entry indexes entrySize)'],
    loops=[dict(inv=['forall j. 0 <= j < I_ -> 0 <= indexes[j] < entrySize'])]),
'Discriminator::checkListOfIndexes(vec<int>,int)': dict(params='indexes entrySize', noinv=True,
    ensures=['length indexes = entrySize', 'in_entry indexes entrySize', 'distinct indexes'],
    throws=['length indexes <> entrySize \\/ not (in_entry indexes entrySize) \\/ not (distinct indexes)'],
    loops=[dict(roles='values:omap<int,int> seen:vec<bool>', inv=['length seen = entrySize', 'forall j. 0 <= j < I_ -> seen[indexes[j]]', 'forall x. 0 <= x < entrySize /\\ seen[x] -> exists j. 0 <= j < I_ /\\ indexes[j] = x', 'forall j. 0 <= j < I_ -> omap_mem values indexes[j]',
        'forall x. omap_mem values x -> exists j. 0 <= j < I_ /\\ indexes[j] = x', 'forall i j. 0 <= i < j < I_ -> indexes[i] <> indexes[j]'])]),
'Discriminator::setRAMByIndex(vec<int>,int,bool,int)': dict(params='indexes addressSize ignoreZero base', noinv=True,
    ensures=['disc_ok this', NEW, 'length this.disc_rams = ED.div this.disc_entrySize addressSize', 'cut this indexes addressSize',
             'not %s' % BADADDR.replace('entrySize', 'this.disc_entrySize'), 'base >= 2', 'length indexes = this.disc_entrySize', 'in_entry indexes this.disc_entrySize', 'distinct indexes'],
    throws=['%s \\/ base < 2 \\/ length indexes <> this.disc_entrySize \\/ not (in_entry indexes this.disc_entrySize) \\/ not (distinct indexes) \\/ %s' % (BADADDR.replace('entrySize', 'this.disc_entrySize'), BIG)],
    loops=[dict(inv=MAKE + ['cut_n this indexes addressSize I_', 
           'forall i [R_[i]]. 0 <= i < I_ -> within R_[i].ram_addresses this.disc_entrySize'.replace('R_', R)], at_start=['cut_fits I_ (length this.disc_rams) addressSize (length indexes)', 'assert { to_u32 addressSize = addressSize }', 'assert { to_u32 (imul I_ addressSize) = I_ * addressSize }', 'assert { to_u32 (I_ + 1) = I_ + 1 }', 'assert { to_u32 (imul (I_ + 1) addressSize) = I_ * addressSize + addressSize }'], at_end=['cut_step (pure { (head this) }) this indexes addressSize I_'])]),
'Discriminator::setRAMShuffle(int,bool,bool,int)': dict(params='addressSize ignoreZero completeAddressing base', noinv=True,
    requires=['length this.disc_rams = 0'],
    ensures=['disc_ok this', NEW, 'not %s' % BADADDR.replace('entrySize', 'this.disc_entrySize'), 'base >= 2',
             'length this.disc_rams = ED.div this.disc_entrySize addressSize + (if completeAddressing /\\ ED.mod this.disc_entrySize addressSize > 0 then 1 else 0)',
             'forall i. 0 <= i < length this.disc_rams -> length this.disc_rams[i].ram_addresses = addressSize',
             'completeAddressing -> covers this addressSize', 'not completeAddressing \\/ ED.mod this.disc_entrySize addressSize = 0 -> nodup this addressSize'],
    throws=['%s \\/ base < 2 \\/ %s \\/ this.disc_entrySize + addressSize > 2147483647' % (BADADDR.replace('entrySize', 'this.disc_entrySize'), BIG)],
    loops=[dict(roles='indexes:vec<int>', inv=['forall j. 0 <= j < I_ -> indexes[j] = j']),
           dict(roles='indexes:vec<int>', inv=['forall j. 0 <= j < this.disc_entrySize -> indexes[j] = j', 'forall j. 0 <= j < I_ -> 0 <= indexes[j] < this.disc_entrySize']),
           dict(roles='indexes:vec<int>', inv=MAKE + ['cut_n this indexes addressSize I_', 'forall i [R_[i]]. 0 <= i < I_ -> within R_[i].ram_addresses this.disc_entrySize'.replace('R_', R)],
                at_start=['cut_fits I_ (length this.disc_rams) addressSize (length indexes)', 'assert { to_u32 addressSize = addressSize }', 'assert { to_u32 (imul I_ addressSize) = I_ * addressSize }', 'assert { to_u32 (I_ + 1) = I_ + 1 }', 'assert { to_u32 (imul (I_ + 1) addressSize) = I_ * addressSize + addressSize }'], at_end=['cut_step (pure { (head this) }) this indexes addressSize I_'],
                after=['if completeAddressing then cut_covers this indexes addressSize', 'if pure { length indexes = this.disc_entrySize } then cut_nodup this indexes addressSize'])]),
'Discriminator::setRAMByMapping(vec<vec<int>>,bool,int)': dict(params='mapping ignoreZero base', noinv=True,
    ensures=['disc_ok this', NEW, 'length this.disc_rams = length mapping', 'forall i. 0 <= i < length mapping -> this.disc_rams[i].ram_addresses = mapping[i]', 'base >= 2', 'forall i. 0 <= i < length mapping -> in_entry mapping[i] this.disc_entrySize'],
    throws=['base < 2 \\/ (exists i. 0 <= i < length mapping /\\ (not (in_entry mapping[i] this.disc_entrySize) \\/ pow base (length mapping[i]) > 18446744073709551616))'],
    loops=[dict(inv=['forall i. 0 <= i < I_ -> in_entry mapping[i] this.disc_entrySize']),
           dict(inv=MAKE + ['forall i [R_[i]]. 0 <= i < I_ -> R_[i].ram_addresses = mapping[i]'.replace('R_', R)])]),
'Discriminator::train(T)': dict(params='image',
    ensures=['dtrained (old this) this $view(image)', 'ddigits (old this) $view(image)', 'dsame_config (old this) this',
             ('C02', 'forall h. dcounts (old this) h -> dcounts this (snoc h $view(image))')],
    end=[('C02', 'dcounts_train_all (pure { (old this) }) this $view(image)')],
    throws=['not (ddigits (old this) $view(image))', 'length $view(image) <> this.disc_entrySize -> this = (old this)', 'dsame_config (old this) this', ('C15', 'dpartial (old this) this $view(image)')],
    loops=[dict(inv=['length this.disc_rams = length (old this).disc_rams', ('C15', 'this.disc_count = (old this).disc_count + 1'), 'dtrained_n (old this).disc_rams this.disc_rams $view(image) I_', 'disc_ok this', 'dsame_config (old this) this',
        'forall i. I_ <= i < length this.disc_rams -> this.disc_rams[i] = (old this).disc_rams[i]', 'this.disc_entrySize = (old this).disc_entrySize'])]),
'Discriminator::train(vec<vec<int>>)': dict(params='image',
    ensures=['this.disc_count = (old this).disc_count + length image', 'dsame_config (old this) this', 'forall i. 0 <= i < length image -> ddigits (old this) image[i]',
             ('C02', 'forall h. dcounts (old this) h -> dcounts this (h ++ image)')],
    throws=['exists i. 0 <= i < length image /\\ not (ddigits (old this) image[i])', 'dsame_config (old this) this'],
    loops=[dict(inv=['disc_ok this', 'dsame_config (old this) this', 'this.disc_count = (old this).disc_count + I_', 'forall i. 0 <= i < I_ -> ddigits (old this) image[i]',
        ('C02', 'forall h. dcounts (old this) h -> dcounts this (h ++ image[0 .. I_])')],
        at_start=['ddigits_config (pure { (old this) }) this', ('C02', 'snoc_cut image I_')])],
    start=[('C02', 'assert { forall h: seq (seq int). h ++ image[0 .. 0] == h }')], end=[('C02', 'assert { image[0 .. length image] == image }')]),
'Discriminator::untrain(vec<int>)': dict(params='image',
    ensures=['duntrained (old this) this image', 'ddigits (old this) image'],
    throws=['not (ddigits (old this) image)', 'length image <> this.disc_entrySize -> this = (old this)', 'dsame_config (old this) this'],
    loops=[dict(inv=['length this.disc_rams = length (old this).disc_rams', 'duntrained_n (old this).disc_rams this.disc_rams image I_', 'disc_ok this', 'dsame_config (old this) this',
        'forall i. I_ <= i < length this.disc_rams -> this.disc_rams[i] = (old this).disc_rams[i]', 'this.disc_entrySize = (old this).disc_entrySize'])]),
'Discriminator::_classify(T)': dict(params='image',
    ensures=['dvotes this $view(image) result', 'result = dballot this $view(image)', 'ddigits this $view(image)', ('C02', 'forall h. dcounts this h -> forall i. 0 <= i < length result -> result[i] = cvote this.disc_rams[i] h $view(image)')],
    end=[('C02', 'dcounts_vote_all this $view(image)')],
    throws=['not (ddigits this $view(image))'],
    loops=[dict(roles='votes:vec<int>', inv=['dvotes_n this $view(image) votes I_', 'ddigits_n this $view(image) I_'], after=['dballot_is this $view(image) votes'])]),
'Discriminator::classify(T)': dict(params='image',
    ensures=['dvotes this $view(image) result', 'result = dballot this $view(image)', 'ddigits this $view(image)', ('C02', 'forall h. dcounts this h -> forall i. 0 <= i < length result -> result[i] = cvote this.disc_rams[i] h $view(image)')],
    throws=['not (ddigits this $view(image))']),
'Discriminator::setMapping(vec<vec<int>>)': dict(params='mapping', requires=['length mapping = length this.disc_rams'],
    ensures=['length mapping = length this.disc_rams', 'forall i. 0 <= i < length mapping -> mapping[i] = this.disc_rams[i].ram_addresses'], throws=['false'],
    loops=[dict(inv=['length mapping = length this.disc_rams', 'forall i. 0 <= i < I_ -> mapping[i] = this.disc_rams[i].ram_addresses'])]),
'Discriminator::Discriminator(int,int,bool,bool,int)': dict(params='addressSize entrySize ignoreZero completeAddressing base',
    ensures=['disc_new this entrySize base ignoreZero', 'not %s' % BADADDR, 'base >= 2',
             'length this.disc_rams = ED.div entrySize addressSize + (if completeAddressing /\\ ED.mod entrySize addressSize > 0 then 1 else 0)',
             'forall i. 0 <= i < length this.disc_rams -> length this.disc_rams[i].ram_addresses = addressSize',
             'completeAddressing -> covers this addressSize', 'not completeAddressing \\/ ED.mod entrySize addressSize = 0 -> nodup this addressSize'],
    throws=['%s \\/ base < 2 \\/ %s \\/ entrySize + addressSize > 2147483647' % (BADADDR, BIG)]),
'Discriminator::Discriminator(vec<int>,int,int,bool,int)': dict(params='indexes addressSize entrySize ignoreZero base',
    ensures=['disc_new this entrySize base ignoreZero', 'length this.disc_rams = ED.div entrySize addressSize', 'cut this indexes addressSize',
             'not %s' % BADADDR, 'base >= 2', 'length indexes = entrySize', 'in_entry indexes entrySize', 'distinct indexes'],
    throws=['%s \\/ base < 2 \\/ length indexes <> entrySize \\/ not (in_entry indexes entrySize) \\/ not (distinct indexes) \\/ %s' % (BADADDR, BIG)]),
'Discriminator::Discriminator(vec<vec<int>>,int,bool,int)': dict(params='mapping entrySize ignoreZero base',
    ensures=['disc_new this entrySize base ignoreZero', 'length this.disc_rams = length mapping', 'forall i. 0 <= i < length mapping -> this.disc_rams[i].ram_addresses = mapping[i]', 'base >= 2', 'forall i. 0 <= i < length mapping -> in_entry mapping[i] entrySize'],
    throws=['base < 2 \\/ (exists i. 0 <= i < length mapping /\\ (not (in_entry mapping[i] entrySize) \\/ pow base (length mapping[i]) > 18446744073709551616))']),
'Discriminator::getNumberOfTrainings()': dict(params='', ensures=['result = this.disc_count']),
'Discriminator::getNumberOfRAMS()': dict(params='', ensures=['result = length this.disc_rams']),
'Discriminator::getMentalImage()': dict(params='', counters=True, ensures=['dmental this result'], throws=['this.disc_entrySize < 0'],
    loops=[dict(roles='mentalImage:vec<int>', inv=['length mentalImage = this.disc_entrySize', 'forall p. 0 <= p < length mentalImage -> mentalImage[p] = dsum this.disc_rams p I_']),
           dict(roles='mentalImage:vec<int>', inv=['length mentalImage = this.disc_entrySize', 'forall p. 0 <= p < length mentalImage -> mentalImage[p] = dsum this.disc_rams p O_ + rsum this.disc_rams[O_] p I_'])]),
'Discriminator::Discriminator(int,int,json)': dict(params='addressSize entrySize options',
    ensures=['dmade this addressSize entrySize options', 'not (dwrong addressSize entrySize options)'], throws=['dunmade addressSize entrySize options']),
'Discriminator::Discriminator(int,int)': dict(params='addressSize entrySize',
    ensures=['dmade this addressSize entrySize jnull'], throws=['%s \\/ %s \\/ entrySize + addressSize > 2147483647' % (BADADDR, BIG.replace('base', '2'))]),
}
