"""C++ type strings -> model types (tuples)."""
import re

INTS = {
 'char': ('int', 8, True), 'signed char': ('int', 8, True), 'unsigned char': ('int', 8, False),
 'short': ('int', 16, True), 'unsigned short': ('int', 16, False),
 'int': ('int', 32, True), 'unsigned int': ('int', 32, False), 'unsigned': ('int', 32, False),
 'long': ('int', 64, True), 'unsigned long': ('int', 64, False),
 'long long': ('int', 64, True), 'unsigned long long': ('int', 64, False),
 'size_t': ('int', 64, False), 'size_type': ('int', 64, False), 'addr_t': ('int', 64, False),
 'index_size_t': ('int', 64, False), 'content_t': ('int', 32, True), 'bin_t': ('int', 8, True),
 'difference_type': ('int', 64, True), 'uint64_t': ('int', 64, False), 'int64_t': ('int', 64, True),
 'uint32_t': ('int', 32, False), 'int32_t': ('int', 32, True), 'uint8_t': ('int', 8, False), 'int8_t': ('int', 8, True),
 'time_t': ('int', 64, True), 'key_type': None,
}
S8 = ('int', 8, True)
S32 = ('int', 32, True)
U32 = ('int', 32, False)
S64 = ('int', 64, True)
U64 = ('int', 64, False)
BOOL = ('bool',)
FLOAT = ('float',)
DOUBLE = ('double',)
VOID = ('void',)
STR = ('str',)
JSON = ('json',)

class TypeErr(Exception):
    pass

def _tok(s):
    return re.findall(r'[A-Za-z_][\w]*(?:::[A-Za-z_~][\w]*)*|::|[<>,*&()\[\]]|\d+|[^\s]', s)

def split_args(s):
    out, d, cur = [], 0, ''
    for ch in s:
        if ch in '<([':
            d += 1
        if ch in '>)]':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip()); cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out

def strip_cv(s):
    s = s.strip()
    while True:
        o = s
        s = re.sub(r'^(const|volatile|typename|struct|class|enum)\s+', '', s)
        s = re.sub(r'\s*\bconst$', '', s)
        s = re.sub(r'\s*&{1,2}$', '', s).strip()
        if s == o:
            return s

def split_tmpl(s):
    """'a::b<c, d>::e' -> (name, args, rest)"""
    i = s.find('<')
    if i < 0:
        return s, None, ''
    d = 0
    for j in range(i, len(s)):
        if s[j] == '<':
            d += 1
        elif s[j] == '>':
            d -= 1
            if d == 0:
                return s[:i].strip(), split_args(s[i + 1:j]), s[j + 1:].strip()
    raise TypeErr(s)

class Types:
    def __init__(self, classes, typedefs):
        self.classes = classes      # set of class names
        self.typedefs = typedefs    # name -> type string

    def parse(self, s):
        s0 = s
        s = strip_cv(s)
        if s.endswith('*'):
            b = strip_cv(s[:-1])
            if b == 'char':
                return ('cstr',)
            return ('ptr', self.parse(b))
        if s.endswith(']'):
            b = s[:s.index('[')].strip()
            if strip_cv(b) == 'char':
                return ('cstr',)
            return ('carr', self.parse(b))
        s = re.sub(r'\b(std|wisardpkg|nlohmann|detail|__cxx11|__detail|__gnu_cxx)::', '', s)
        s = re.sub(r'^(typename)\s+', '', s)
        if s in INTS and INTS[s]:
            return INTS[s]
        if s == 'bool' or s == '_Bool': return BOOL
        if s == 'void': return VOID
        if s == 'float': return FLOAT
        if s in ('double', 'long double'): return DOUBLE
        if s in ('string', 'basic_string<char>', 'String'): return STR
        if s.startswith('basic_string<char'): return STR
        if s in ('nl::json', 'json', 'basic_json<>', 'value_type'): return JSON
        if s in ('nl::json::iterator', 'nl::json::const_iterator'): return ('iter', JSON)
        if s == 'input_adapter': return STR
        if s in ('nullptr_t',): return ('nullptr',)
        if s in self.classes: return ('cls', s)
        if s in self.typedefs: return self.parse(self.typedefs[s])
        name, args, rest = split_tmpl(s)
        if rest in ('::iterator', '::const_iterator'):
            return ('iter', self.parse('%s<%s>' % (name, ', '.join(args))))
        if rest in ('::size_type',):
            return U64
        if args is not None and rest == '':
            if name == 'vector': return ('vec', self.parse(args[0]))
            if name == 'map': return ('omap', self.parse(args[0]), self.parse(args[1]))
            if name == 'unordered_map': return ('umap', self.parse(args[0]), self.parse(args[1]))
            if name == 'set': return ('oset', self.parse(args[0]))
            if name == 'pair': return ('tuple', (self.parse(args[0]), self.parse(args[1])))
            if name == 'tuple': return ('tuple', tuple(self.parse(a) for a in args))
            if name == 'initializer_list': return ('vec', self.parse(args[0]))
            if name in ('_Node_iterator', '_Node_const_iterator', '_Node_iterator_base'):
                p = self.parse(args[0]); return ('iter', ('umap',) + p[1])
            if name in ('_Rb_tree_iterator', '_Rb_tree_const_iterator'):
                p = self.parse(args[0])
                return ('iter', ('omap',) + p[1] if p[0] == 'tuple' else ('oset', p))
            if name == '__normal_iterator':
                p = self.parse(args[1]) if len(args) > 1 else None
                return ('iter', p)
            if name in ('iter_impl', 'iteration_proxy_value'):
                return ('iter', JSON)
            if name in ('basic_ofstream', 'basic_ifstream', 'basic_fstream', 'basic_ostream', 'basic_istream'):
                return ('stream', name)
            if name == 'basic_json': return JSON
            if name == 'json_ref': return ('json_ref',)
        if s in ('ofstream', 'ifstream', 'ostream', 'istream'):
            return ('stream', 'basic_' + s)
        raise TypeErr('unsupported type: %s' % s0)

    def of(self, node):
        t = node.get('type', {})
        q = t.get('desugaredQualType') or t.get('qualType')
        try:
            return self.parse(q)
        except TypeErr:
            if t.get('qualType') != q:
                return self.parse(t['qualType'])
            raise

def tkey(t):
    """short text of a model type, used in contract keys"""
    k = t[0]
    if k == 'int':
        return {(8, True): 's8', (8, False): 'u8', (16, True): 's16', (16, False): 'u16', (32, True): 'int', (32, False): 'u32',
                (64, True): 's64', (64, False): 'u64'}[t[1:]]
    if k == 'vec': return 'vec<%s>' % tkey(t[1])
    if k in ('omap', 'umap'): return '%s<%s,%s>' % (k, tkey(t[1]), tkey(t[2]))
    if k == 'tuple': return 'tuple<%s>' % ','.join(tkey(x) for x in t[1])
    if k == 'cls': return t[1]
    if k == 'ptr': return tkey(t[1]) + '*'
    if k == 'iter': return 'iter<%s>' % tkey(t[1])
    if k == 'stream': return t[1]
    return k

def why(t):
    k = t[0]
    if k in ('int',): return 'int'
    if k == 'bool': return 'bool'
    if k in ('float', 'double'): return 'fl'
    if k in ('str', 'cstr'): return '(seq int)'
    if k == 'vec': return '(seq %s)' % why(t[1])
    if k in ('omap', 'umap'): return '(%s %s %s)' % (k, why(t[1]), why(t[2]))
    if k == 'oset': return '(omap %s unit)' % why(t[1])
    if k == 'tuple': return '(%s)' % ', '.join(why(x) for x in t[1])
    if k == 'cls': return 'c_' + t[1].lower()
    if k in ('ptr', 'iter', 'nullptr'): return 'int'
    if k == 'json': return 'json'
    if k == 'void': return 'unit'
    if k == 'stream' and t[1] in ('basic_ifstream', 'basic_ofstream'): return t[1][6:9]
    raise TypeErr('no model for %s' % (t,))
