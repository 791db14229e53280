FIELDS = {'Synthesizer': [('cube', 'vec<omap<int,int>>'), ('maxData', 'int')]}
INVARIANTS = {'Synthesizer': 'syn_ok'}
VIEWS = {}
M = 'this.syn_cube[%s]'
CONTRACTS = {
'Synthesizer::Synthesizer(vec<int>)': dict(params='mentalImage', ensures=['syn_of this mentalImage'], throws=['false']),
'Synthesizer::makeCube(vec<int>)': dict(params='mentalImage', noinv=True, requires=['length this.syn_cube = 0'],
    ensures=['syn_of this mentalImage', 'syn_ok this'], throws=['false'],
    loops=[dict(inv=['top_of mentalImage this.syn_maxData I_']),
           dict(inv=['forall i k [omap_mem this.syn_cube[i] k | omap_get this.syn_cube[i] k]. 0 <= i < I_ -> (omap_mem this.syn_cube[i] k <-> 0 <= k < mentalImage[i]) /\\ (omap_mem this.syn_cube[i] k -> omap_get this.syn_cube[i] k = 1)',
                     'forall i k [omap_mem this.syn_cube[i] k]. I_ <= i < length this.syn_cube -> not omap_mem this.syn_cube[i] k']),
           dict(inv=[]),
           dict(roles='intensity:int:mod', inv=['intensity = mentalImage[O_] - I_', '!intensity I_ = 0 \\/ I_ <= mentalImage[O_]', 'I_ = 0 \\/ 0 <= intensity', 'I_ <= this.syn_maxData',
                'forall i [this.syn_cube[i]]. 0 <= i < length this.syn_cube -> i <> O_ -> this.syn_cube[i] = (entry this).syn_cube[i]',
                'forall k [omap_mem this.syn_cube[O_] k | omap_get this.syn_cube[O_] k]. (omap_mem this.syn_cube[O_] k <-> 0 <= k < I_) /\\ (omap_mem this.syn_cube[O_] k -> omap_get this.syn_cube[O_] k = 1)'])]),
'Synthesizer::make()': dict(params='',
    ensures=['this = (old this)', 'length result = length this.syn_cube', 'forall i. 0 <= i < length result -> 0 <= result[i] <= 1',
             'this.syn_maxData = 0 -> forall i. 0 <= i < length result -> result[i] = 0',
             'this.syn_maxData > 0 -> exists p. 0 <= p < this.syn_maxData /\\ drawn 0 (this.syn_maxData - 1) p /\\ forall v. syn_of this v -> pattern_at v p result'], throws=['false'],
    loops=[dict(roles='out:vec<int> index:int', inv=['length out = length this.syn_cube', 'forall i [out[i]]. 0 <= i < I_ -> out[i] = (if omap_mem (old this).syn_cube[i] index then 1 else 0)',
                'length this.syn_cube = length (old this).syn_cube', 'forall i [this.syn_cube[i]]. 0 <= i < length this.syn_cube -> this.syn_cube[i] = (old this).syn_cube[i]', 'this.syn_maxData = (old this).syn_maxData'],
            at_start=['assert { this.syn_cube[I_] = (old this).syn_cube[I_] }'],
            after=['assert { this.syn_cube == (old this).syn_cube }; assert { this = (old this) }; syn_pattern this index out; assert { 0 <= index < this.syn_maxData /\\ drawn 0 (this.syn_maxData - 1) index }'])]),
}
