FIELDS = {'KernelCanvas': [('bitsByKernel', 'int'), ('dim', 'int'), ('useDirection', 'bool'), ('numberOfKernelsToActivate', 'int'), ('amplifyDim', 'int'), ('kernels', 'vec<vec<double>>')]}
INVARIANTS = {'KernelCanvas': 'kc_ok'}
CONTRACTS = {
'randdouble(double,double)': dict(params='min max', requires=['fl_mag 1 min', 'fl_mag 1 max'], ensures=['not (fl_nan result)', 'not (fl_inf result)'], throws=['false']),
'KernelCanvas::compareDistances(vec<double>,vec<double>)': dict(params='i j', requires=['length i = 2', 'length j = 2'], ensures=['result <-> kc_before i j'], throws=['false'], order='kc_before'),
'KernelCanvas::checkInputs(int,int,int,float)': dict(params='numberOfKernels dim bitsByKernel activationDegree', noinv=True,
    ensures=['numberOfKernels >= 1 /\\ dim >= 1 /\\ bitsByKernel >= 1 /\\ fl_le (fl_of_int 0) activationDegree /\\ fl_le activationDegree (fl_of_int 1)'],
    throws=['not (numberOfKernels >= 1 /\\ dim >= 1 /\\ bitsByKernel >= 1 /\\ fl_le (fl_of_int 0) activationDegree /\\ fl_le activationDegree (fl_of_int 1))']),
'KernelCanvas::checkDimension(int)': dict(params='size', ensures=['size = this.kc_dim'], throws=['size <> this.kc_dim']),
'KernelCanvas::switchIndexes(vec<int>)': dict(params='ix', requires=['kc_thirds ix'], ensures=['kc_thirds ix', '0 <= result <= 2'], throws=['false']),
'KernelCanvas::multDimMean(vec<vec<double>>)': dict(params='sequenceData', requires=['kc_sizes sequenceData this.kc_dim'],
    ensures=['length result = this.kc_dim', 'forall j [result[j]]. 0 <= j < length result -> result[j] = kc_mean sequenceData j'], throws=['false'],
    loops=[dict(roles='output:vec<double>', inv=['length output = this.kc_dim', 'forall j [output[j]]. 0 <= j < I_ -> output[j] = fl_of_int 0']),
           dict(roles='output:vec<double>', inv=['length output = this.kc_dim', 'forall j [output[j]]. 0 <= j < length output -> output[j] = kc_msum sequenceData j I_']),
           dict(roles='output:vec<double>', inv=['length output = this.kc_dim', 'forall j [output[j]]. 0 <= j < length output -> output[j] = kc_msum sequenceData j (if j < I_ then O_ + 1 else O_)']),
           dict(roles='output:vec<double>', inv=['length output = this.kc_dim', 'forall j [output[j]]. 0 <= j < length output -> output[j] = (if j < I_ then kc_mean sequenceData j else kc_msum sequenceData j (length sequenceData))'])]),
'KernelCanvas::multDimStd(vec<double>,vec<vec<double>>)': dict(params='means sequenceData', requires=['kc_sizes sequenceData this.kc_dim', 'length means = this.kc_dim'],
    ensures=['length result = this.kc_dim', 'forall j [result[j]]. 0 <= j < length result -> result[j] = kc_std means[j] sequenceData j'], throws=['false'],
    loops=[dict(roles='output:vec<double>', inv=['length output = this.kc_dim', 'forall j [output[j]]. 0 <= j < I_ -> output[j] = fl_of_int 0']),
           dict(roles='output:vec<double>', inv=['length output = this.kc_dim', 'forall j [output[j]]. 0 <= j < length output -> output[j] = kc_vsum means[j] sequenceData j I_']),
           dict(roles='output:vec<double>', inv=['length output = this.kc_dim', 'forall j [output[j]]. 0 <= j < length output -> output[j] = kc_vsum means[j] sequenceData j (if j < I_ then O_ + 1 else O_)']),
           dict(roles='output:vec<double>', inv=['length output = this.kc_dim', 'forall j [output[j]]. 0 <= j < length output -> output[j] = (if j < I_ then kc_std means[j] sequenceData j else kc_vsum means[j] sequenceData j (length sequenceData))'])]),
'KernelCanvas::setupKernelCanvas(int,float)': dict(params='numberOfKernels activationDegree', noinv=True,
    ensures=['kc_ok this', 'length this.kc_kernels = numberOfKernels', 'this.kc_numberOfKernelsToActivate = kc_active_number activationDegree numberOfKernels',
             'this.kc_bitsByKernel = (old this).kc_bitsByKernel', 'this.kc_dim = (old this).kc_dim', 'this.kc_useDirection = (old this).kc_useDirection',
             'numberOfKernels >= 1 /\\ this.kc_dim >= 1 /\\ this.kc_bitsByKernel >= 1 /\\ fl_le (fl_of_int 0) activationDegree /\\ fl_le activationDegree (fl_of_int 1)'],
    end=['assert { 0 <= this.kc_numberOfKernelsToActivate }', 'kc_active_fits activationDegree numberOfKernels', 'assert { this.kc_numberOfKernelsToActivate <= numberOfKernels }'],
    throws=['not (numberOfKernels >= 1 /\\ (old this).kc_dim >= 1 /\\ (old this).kc_bitsByKernel >= 1 /\\ fl_le (fl_of_int 0) activationDegree /\\ fl_le activationDegree (fl_of_int 1)) \\/ ((old this).kc_useDirection /\\ (old this).kc_dim > 238609294)'],
    loops=[dict(roles='currentDim:int', inv=['length this.kc_kernels = numberOfKernels', 'forall i [this.kc_kernels[i]]. 0 <= i < I_ -> length this.kc_kernels[i] = currentDim',
                'forall i d [this.kc_kernels[i][d]]. 0 <= i < I_ -> 0 <= d < currentDim -> not (fl_nan this.kc_kernels[i][d]) /\\ not (fl_inf this.kc_kernels[i][d])'],
                at_end=['assert { forall i [this.kc_kernels[i]]. 0 <= i < I_ -> this.kc_kernels[i] = (head this).kc_kernels[i] }',
                        'assert { forall d [this.kc_kernels[I_][d]]. 0 <= d < currentDim -> not (fl_nan this.kc_kernels[I_][d]) /\\ not (fl_inf this.kc_kernels[I_][d]) }',
                        'assert { forall i d [this.kc_kernels[i][d]]. 0 <= i < I_ -> 0 <= d < currentDim -> not (fl_nan this.kc_kernels[i][d]) /\\ not (fl_inf this.kc_kernels[i][d]) }']),
           dict(roles='currentDim:int', inv=['length this.kc_kernels = numberOfKernels', 'length this.kc_kernels[O_] = currentDim',
                'forall d [this.kc_kernels[O_][d]]. 0 <= d < I_ -> not (fl_nan this.kc_kernels[O_][d]) /\\ not (fl_inf this.kc_kernels[O_][d])',
                'forall i [this.kc_kernels[i]]. 0 <= i < length this.kc_kernels -> i <> O_ -> this.kc_kernels[i] = (entry this).kc_kernels[i]'])]),
'KernelCanvas::KernelCanvas(int,int,json)': dict(params='dim numberOfKernels c',
    ensures=['this.kc_dim = dim', 'length this.kc_kernels = numberOfKernels', 'this.kc_bitsByKernel = jopt_int c str_bitsByKernel 3', 'this.kc_useDirection <-> jopt_bool c str_useDirection False', 'this.kc_numberOfKernelsToActivate = kc_active_number (kc_degree c) numberOfKernels'],
    throws=['jbad c \\/ jbad_int c str_bitsByKernel \\/ jbad_int c str_activationDegree \\/ jbad_bool c str_useDirection \\/ not (numberOfKernels >= 1 /\\ dim >= 1 /\\ jopt_int c str_bitsByKernel 3 >= 1 /\\ fl_le (fl_of_int 0) (kc_degree c) /\\ fl_le (kc_degree c) (fl_of_int 1)) \\/ (jopt_bool c str_useDirection False /\\ dim > 238609294)']),
'KernelCanvas::KernelCanvas(int,int)': dict(params='dim numberOfKernels',
    ensures=['this.kc_dim = dim', 'length this.kc_kernels = numberOfKernels', 'this.kc_bitsByKernel = 3', 'not this.kc_useDirection', 'this.kc_numberOfKernelsToActivate = kc_active_number (fl_round32 fl_lit_0_07) numberOfKernels'],
    throws=['not (numberOfKernels >= 1 /\\ dim >= 1)']),
'KernelCanvas::calculateDistances(vec<vec<double>>,vec<double>,vec<int>)': dict(params='distances point indexes',
    requires=['length distances = length this.kc_kernels', 'length point = kc_used this', 'kc_thirds indexes'],
    ensures=['this = (old this)', 'length distances = length this.kc_kernels', 'kc_table this point indexes distances (length distances)', 'kc_comparable distances'], throws=['false'],
    loops=[dict(inv=['length distances = length this.kc_kernels', 'kc_table this point indexes distances I_',
                     'if kc_nanpoint this point indexes (kc_used this) then forall i [distances[i]]. 0 <= i < I_ -> fl_nan distances[i][1] else forall i [distances[i]]. 0 <= i < I_ -> not (fl_nan distances[i][1])']),
           dict(roles='distance:double pi:int', inv=['pi = (if I_ >= this.kc_amplifyDim then 1 else 0)', 'distance = kc_sum this point indexes O_ I_', 'kc_nanpoint this point indexes I_ -> fl_nan distance', 'not (kc_nanpoint this point indexes I_) -> fl_pos distance'],
                at_start=['assert { 0 <= indexes[pi] <= 2 }', 'kc_sum_nan this point indexes O_ I_']),
           dict(roles='distance:double', inv=['distance = kc_sum this point indexes O_ I_', 'kc_nanpoint this point indexes I_ -> fl_nan distance', 'not (kc_nanpoint this point indexes I_) -> fl_pos distance'],
                at_start=['kc_sum_nan this point indexes O_ I_'])]),
'KernelCanvas::activateKernels(vec<int>,vec<vec<double>>)': dict(params='output distances',
    requires=['length distances = length this.kc_kernels', 'length this.kc_kernels < 2147483648', 'length output < 2147483648', 'length output = length this.kc_kernels * this.kc_bitsByKernel', 'kc_comparable distances',
              'kc_tagged distances', 'kc_grouped output this.kc_bitsByKernel'],
    ensures=['this = (old this)', 'length distances = length (old distances)',
             'kc_order (old distances) (kc_orderof distances)', 'kc_marked (old output) output this.kc_bitsByKernel (kc_orderof distances) this.kc_numberOfKernelsToActivate', 'kc_grouped output this.kc_bitsByKernel'], throws=['false'],
    end=['kc_marked_grouped (pure { (old output) }) output this.kc_bitsByKernel (pure { kc_orderof distances }) this.kc_numberOfKernelsToActivate'],
    loops=[dict(inv=['length output = length (old output)', 'kc_marked (old output) output this.kc_bitsByKernel (kc_orderof distances) I_', 'kc_grouped output this.kc_bitsByKernel'],
                at_start=['kc_sorted (pure { (old distances) }) distances', 'assert { distances[I_][0] = fl_of_int (kc_orderof distances)[I_] /\\ 0 <= (kc_orderof distances)[I_] < length this.kc_kernels }', 'kc_groups this.kc_bitsByKernel',
                          'let g = pure { (kc_orderof distances)[I_] } in cut_fits g (length this.kc_kernels) this.kc_bitsByKernel (length output); kc_group_start g this.kc_bitsByKernel; assert { imul g this.kc_bitsByKernel = g * this.kc_bitsByKernel }'],
                at_end=['kc_marked_step (pure { (old output) }) (pure { (head output) }) output this.kc_bitsByKernel (pure { kc_orderof distances }) I_', 'kc_marked_grouped (pure { (old output) }) output this.kc_bitsByKernel (pure { kc_orderof distances }) (I_ + 1)']),
           dict(inv=['length output = length (old output)', 'forall p [output[p]]. 0 <= p < length output -> output[p] = (if kc_part p (kc_orderof distances)[O_] this.kc_bitsByKernel I_ then 1 else (entry output)[p])'], at_start=['let g = pure { (kc_orderof distances)[O_] } in kc_part_step g this.kc_bitsByKernel I_; assert { imul g this.kc_bitsByKernel = g * this.kc_bitsByKernel }'],
                at_end=['assert { forall p [output[p]]. 0 <= p < length output -> output[p] = if p = (kc_orderof distances)[O_] * this.kc_bitsByKernel + I_ then 1 else (head output)[p] }'])]),
'KernelCanvas::calculatePoint(vec<double>,vec<vec<double>>,int,vec<double>,vec<double>,vec<int>,bool)': dict(params='point sequenceData index means stds indexes first',
    requires=['length point = kc_used this', 'kc_sizes sequenceData this.kc_dim', '0 <= index < length sequenceData < 2147483648', 'length means = this.kc_dim', 'length stds = this.kc_dim', 'kc_thirds indexes'],
    ensures=['this = (old this)', 'length point = kc_used this', 'kc_thirds indexes', 'not this.kc_useDirection -> kc_norm sequenceData means stds index this.kc_dim point'], throws=['false'],
    loops=[dict(roles='ix:int ipp:int', inv=['length point = kc_used this', 'ipp = ix * this.kc_amplifyDim + I_ - 1'],
                at_start=['kc_thirds_fit (pure { this }) ix', 'kc_thirds_fit (pure { this }) (pure { indexes[1] })']),
           dict(roles='ix:int', inv=['length point = kc_used this'], at_start=['kc_thirds_fit (pure { this }) ix', 'kc_thirds_fit (pure { this }) (pure { indexes[1] })', 'kc_thirds_fit (pure { this }) (pure { indexes[2] })']),
           dict(inv=['length point = kc_used this', 'forall j [point[j]]. 0 <= j < I_ -> point[j] = fl_tanh (fl_div (fl_sub means[j] sequenceData[index][j]) stds[j])'])]),
'KernelCanvas::transform(vec<vec<double>>)': dict(locals='distances:vec<vec<double>> output:vec<int>', params='sequenceData', ghost=['gp = (empty: seq (seq fl))', 'gx = (empty: seq (seq int))', 'go = (empty: seq (seq int))', 'gd = (empty: seq (seq fl))'], calls={'calculateDistances': ['gd <- distances']},
    ensures=['this = (old this)', 'kc_sizes sequenceData this.kc_dim', 'length result = length this.kc_kernels * this.kc_bitsByKernel',
             'forall i [result[i]]. 0 <= i < length result -> 0 <= result[i] <= 1', 'kc_grouped result this.kc_bitsByKernel', 'kc_canvas this sequenceData result'],
    throws=['not (kc_sizes sequenceData this.kc_dim) \\/ length this.kc_kernels * this.kc_bitsByKernel >= 2147483648', 'this = (old this)'],
    end=['kc_canvas_is (pure { this }) sequenceData output gp gx go'],
    loops=[dict(inv=['forall i. 0 <= i < I_ -> length sequenceData[i] = this.kc_dim']),
           dict(roles='output:vec<int>', inv=['length output = length this.kc_kernels * this.kc_bitsByKernel', 'forall i [output[i]]. 0 <= i < I_ -> output[i] = 0']),
           dict(roles='distances:vec<vec<double>>', inv=['length distances = length this.kc_kernels']),
           dict(roles='output:vec<int> point:vec<double> distances:vec<vec<double>> pi:vec<int> means:vec<double> stds:vec<double>',
                inv=['length output = length this.kc_kernels * this.kc_bitsByKernel', 'length point = kc_used this', 'length distances = length this.kc_kernels', 'kc_thirds pi', 'forall j. 0 <= j < this.kc_dim -> means[j] = kc_mean sequenceData j', 'forall j. 0 <= j < this.kc_dim -> stds[j] = kc_std means[j] sequenceData j', 'kc_grouped output this.kc_bitsByKernel',
                     'kc_drawn this sequenceData gp gx go output I_'],
                at_end=['kc_drawn_step (pure { this }) sequenceData means stds gp gx go (pure { (head output) }) output point pi (pure { kc_orderof distances }) gd I_', 'gp <- snoc gp point', 'gx <- snoc gx pi', 'go <- snoc go (pure { kc_orderof distances })'])]),
}
