
GLOBALS = {'indexMap': ('b64_index', 'Base64::createMap()')}
G = 'forall s. in_bytes s /\\ is_b64 s dataIn -> '
def enc(k): return 'if pure { I_ + %d < length dataIn } then enc_bits (rd_s8 (pure { dataIn[I_ + %d] }))' % (k, k)
SX = 'let g_q = ED.div I_ 3 in assert { I_ = 3 * g_q }; assert { sextet dataIn g_q 0 = hi6 dataIn[I_] }; assert { sextet dataIn g_q 1 = 16 * lo2 dataIn[I_] + (if I_ + 1 < length dataIn then hi4 dataIn[I_ + 1] else 0) };' \
  'assert { I_ + 1 < length dataIn -> sextet dataIn g_q 2 = 4 * lo4 dataIn[I_ + 1] + (if I_ + 2 < length dataIn then hi2 dataIn[I_ + 2] else 0) }; assert { I_ + 2 < length dataIn -> sextet dataIn g_q 3 = lo6 dataIn[I_ + 2] }'
GE = 'let g_q = ED.div I_ 3 in assert { I_ = 3 * g_q }; assert { forall j. 0 <= j < 4 * g_q -> dataOut[j] = (head dataOut)[j] }; ' \
     'assert { k > 4 * g_q }; assert { dataOut[4 * g_q] = b64_chr (sextet dataIn g_q 0) }; assert { dataOut[4 * g_q + 1] = b64_chr (sextet dataIn g_q 1) };' \
     ' assert { dataOut[4 * g_q + 2] = (if 3 * g_q + 1 < length dataIn then b64_chr (sextet dataIn g_q 2) else 61) }; assert { dataOut[4 * g_q + 3] = (if 3 * g_q + 2 < length dataIn then b64_chr (sextet dataIn g_q 3) else 61) };' \
     'b64_frame dataIn (pure { (head dataOut) }) dataOut g_q'
V = 'b64_valid dataIn -> '
SRC = 'b64_src dataIn'
DB = 'if pure { b64_valid dataIn } then b64_step (b64_src dataIn) dataIn g_q'
DE = 'let g_q = ED.div I_ 4 in assert { k > 3 * g_q /\\ k <= 3 * g_q + 3 }; assert { forall j. 0 <= j < 3 * g_q -> dataOut[j] = (head dataOut)[j] };' \
  ' assert { ' + V + 'dataOut[3 * g_q] = (b64_src dataIn)[3 * g_q] }; assert { ' + V + 'k > 3 * g_q + 1 -> dataOut[3 * g_q + 1] = (b64_src dataIn)[3 * g_q + 1] }; assert { ' + V + 'k > 3 * g_q + 2 -> dataOut[3 * g_q + 2] = (b64_src dataIn)[3 * g_q + 2] };' \
  'assert { ' + V + 'forall m. 0 <= m < k -> dataOut[m] = (b64_src dataIn)[m] }'
CONTRACTS = {
'Base64::createMap()': dict(params='', ensures=['b64_map result'], throws=['false'],
    loops=[dict(roles='out:umap<s8,s8>', inv=['forall i. 0 <= i < I_ -> umap_mem out (b64_chr i) /\\ umap_get out (b64_chr i) = i'])]),
'Base64::encode(str)': dict(params='dataIn',
    ensures=['is_b64 dataIn result'], throws=['length dataIn > 1600000000'],
    loops=[dict(roles='dataOut:str k:s64 size:s64',
        inv=['size = 4 * ED.div (length dataIn + 2) 3', 'length dataOut = size', 'k = 4 * ED.div I_ 3',
             'forall q. 0 <= q < ED.div I_ 3 -> b64_group dataIn dataOut q', 'forall j. k <= j < size -> dataOut[j] = 61'],
        at_start=['zero_bits (); assert { forall i [$lit(charsMap)[i]]. 0 <= i < 64 -> $lit(charsMap)[i] = b64_chr i }', enc(0), enc(1), enc(2), SX], at_end=[GE], at_break=[GE])]),
'Base64::decode(str)': dict(params='dataIn',
    ensures=['forall s. in_bytes s /\\ is_b64 s dataIn -> result == s', 'ED.mod (length dataIn) 4 = 0', 'length dataIn = 0 -> length result = 0', 'in_bytes result'], throws=['ED.mod (length dataIn) 4 <> 0'],
    loops=[dict(roles='dataOut:str k:s64 size:s64',
        inv=['length dataOut = size', 'k = 3 * ED.div I_ 4', 'in_bytes dataOut', V + 'length (b64_src dataIn) = size', V + 'forall m. 0 <= m < k -> dataOut[m] = (b64_src dataIn)[m]'],
        at_start=['let g_q = ED.div I_ 4 in assert { I_ = 4 * g_q }; assert { I_ + 3 < length dataIn }; ' + ''.join('assert { b64_val dataIn (4 * g_q + %d) = umap_get_or0 b64_index dataIn[I_ + %d] }; ' % (k,k) for k in range(4)) + DB,
                  ], at_break=[DE], at_end=[DE])],
    start=['b64_uniq_all dataIn; assert { length (empty: seq int) = 0 }; assert { in_bytes (empty: seq int) }; if pure { b64_valid dataIn /\\ length dataIn > 0 } then b64_size (b64_src dataIn) dataIn']),
}
