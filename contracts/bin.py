INVARIANTS = {'BinInput': 'bin_ok'}
VIEWS = {'BinInput': 'bin_view'}
FIELDS = {'BinInput': [('remain', 's8'), ('input', 'str')]}
V = '(bin_view this)'
SIZE = ['length this.bin_input = ED.div (size + 7) 8', 'bin_size this = size', 'bin_ok this', 'forall i. 0 <= i < length this.bin_input -> this.bin_input[i] = 0', '0 <= size']
BIG = ['size >= 17179869176']
CONTRACTS = {
'BinInput::BinInput()': dict(params='', ensures=['length (bin_view this) = 0'], throws=['false']),
'BinInput::BinInput(u64)': dict(params='size', ensures=['length (bin_view this) = size', 'forall i. 0 <= i < size -> (bin_view this)[i] = 0'],
    throws=BIG, end=['zero_bits ()']),
'BinInput::setConfig(u64)': dict(params='size', noinv=True, ensures=SIZE, throws=BIG),
'BinInput::BinInput(vec<s16>)': dict(params='input',
    ensures=['length (bin_view this) = length input', 'forall i. 0 <= i < length input -> (bin_view this)[i] = (if input[i] <> 0 then 1 else 0)'],
    throws=['false'],
    loops=[dict(inv=['bin_ok this', 'length (bin_view this) = length input', 'forall i. 0 <= i < I_ -> (bin_view this)[i] = (if input[i] <> 0 then 1 else 0)', 'I_ <= length input'], variant='length input - I_')]),
'BinInput::BinInput(str)': dict(params='data',
    ensures=['forall b. bin_text b data -> this.bin_remain = b.bin_remain /\\ this.bin_input == b.bin_input', 'length (b64_src data) >= 0'],
    throws=['forall b. not (bin_text b data)'],
    start=['bin_src_all data; assert { b64_valid data -> in_bytes (b64_src data) }']),
'BinInput::operator[](u64)': dict(params='index', ensures=['0 <= index < length (bin_view this)', 'result = (bin_view this)[index]', '0 <= result <= 1'],
    throws=['index >= length (bin_view this)']),
'BinInput::get(u64)': dict(params='index', ensures=['0 <= index < length (bin_view this)', 'result = (bin_view this)[index]', '0 <= result <= 1'],
    throws=['index >= length (bin_view this)']),
'BinInput::set(u64,int)': dict(params='index value',
    ensures=['0 <= index < length (bin_view (old this))', '(bin_view this) == set (bin_view (old this)) index (if value <> 0 then 1 else 0)', 'length (bin_view this) = length (bin_view (old this))'],
    throws=['index >= length (bin_view (old this))', 'this = (old this)'],
    end=['let g_q = ED.div index 8 in let g_k = 7 - ED.mod index 8 in assert { 0 <= g_q < length this.bin_input }; assert { 0 <= g_k < 8 }; assert { forall k. 0 <= k < 8 -> k <> g_k -> (bit this.bin_input[g_q] k <-> bit (old this).bin_input[g_q] k) };'
         ' assert { bit this.bin_input[g_q] g_k <-> value <> 0 }; bin_set_view (pure { (old this) }) this index value']),
'BinInput::size()': dict(params='', ensures=['result = length (bin_view this)', 'length this.bin_input < 2147483648'], throws=['false']),
'BinInput::data()': dict(params='', ensures=['is_b64 (enc_s8 this.bin_remain ++ this.bin_input) result'], throws=['length this.bin_input >= 1600000000']),
}
