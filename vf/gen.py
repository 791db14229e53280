"""Assemble Why3 files: one per function under contract (callees by contract only), one per lemma."""
import os, re
from .trans import subst

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORD = re.compile(r"[A-Za-z_][\w']*")
DECL = re.compile(r"^\s*(?:let\s+rec\s+|let\s+|val\s+|ghost\s+|with\s+)*(?:function|predicate|lemma|axiom|constant|type|exception|goal|val|let|ghost)\s+(?:ghost\s+|function\s+|predicate\s+|lemma\s+|ref\s+)?([A-Za-z_][\w']*)", re.M)

class Item:
    def __init__(self, opts, text, src):
        self.src = src
        self.kind = opts[0] if opts else ''
        self.when = opts[1:]
        if '(*proof*)' in text:
            self.stmt, self.proof = text.split('(*proof*)', 1)
        else:
            self.stmt, self.proof = text, None
        code = re.sub(r'\(\*.*?\*\)', ' ', self.stmt, flags=re.S)
        self.provides = set(DECL.findall(code))
        # record fields
        for m in re.finditer(r'type\s+\w+\s*=\s*\{([^}]*)\}', code):
            for fl in m.group(1).split(';'):
                if ':' in fl:
                    self.provides.add(fl.split(':')[0].strip().split()[-1])
        code = re.sub(r'\[@expl:[^\]]*\]', ' ', code)
        self.uses = set(WORD.findall(code)) - self.provides
        self.name = next(iter(DECL.findall(code)), '?')
        if self.proof is not None:
            self.puses = set(WORD.findall(re.sub(r'\(\*.*?\*\)', ' ', self.proof, flags=re.S)))

    def fact(self):
        """the declaration as used by others (no proof)"""
        if self.proof is None:
            return self.stmt
        t = re.sub(r'let\s+(rec\s+)?(ghost\s+)?lemma\s+', 'val lemma ', self.stmt, count=1)
        t = re.sub(r'let\s+(rec\s+)?ghost\s+', 'val ghost ', t, count=1)
        t = re.sub(r'\s+variant\s*\{[^}]*\}', '', t)
        # val needs a result type
        m = re.search(r'\b(requires|ensures|returns)\b', t)
        if m and not re.search(r'\)\s*:[^()]*(\([^()]*\))?\s*$', t[:m.start()]):
            t = t[:m.start()] + ': unit ' + t[m.start():]
        return t

def load_items(path, text=None):
    text = open(path).read() if text is None else text
    out = []
    parts = re.split(r'^\(\*@(.*?)\*\)\s*$', text, flags=re.M)
    for i in range(1, len(parts), 2):
        out.append(Item(parts[i].split(), parts[i + 1].strip('\n') + '\n', os.path.basename(path)))
    return out

class Library:
    def __init__(self, records, lits):
        """records: list of (name, text) in dependency order; lits: text of string literals"""
        L = os.path.join(HERE, 'lib')
        C = os.path.join(HERE, 'contracts')
        self.items = load_items(os.path.join(L, 'cxx.mlw'))
        tm = open(os.path.join(L, 'map.tmpl')).read()
        for m in ('omap', 'umap'):
            self.items += load_items('map.tmpl', tm.replace('MAP', m))
        self.items += load_items(os.path.join(L, 'order.mlw'))
        self.items += load_items(os.path.join(L, 'stream.mlw'))
        for fn in ('float.mlw', 'json.mlw'):
            p = os.path.join(L, fn)
            if os.path.exists(p): self.items += load_items(p)
        for name, text in records:
            self.items.append(Item(['type'], text, 'records'))
        self.items += load_items(os.path.join(L, 'heap.mlw'))
        for t in lits:
            self.items.append(Item(['lit'], t, 'literals'))
        for fn in sorted(os.listdir(C)):
            if fn.endswith('.mlw'):
                self.items += load_items(os.path.join(C, fn))
        self.byname = {}
        for k, it in enumerate(self.items):
            for n in it.provides:
                self.byname.setdefault(n, k)

    def close(self, words, upto=None):
        """indices of the items needed for the given identifiers"""
        need = set()
        todo = [w for w in words]
        seen = set()
        lim = len(self.items) if upto is None else upto
        while True:
            while todo:
                w = todo.pop()
                if w in seen: continue
                seen.add(w)
                k = self.byname.get(w)
                if k is not None and k < lim and k not in need:
                    need.add(k)
                    todo += self.items[k].uses
            more = False
            for k, it in enumerate(self.items[:lim]):
                if k in need or it.kind != 'lemma': continue
                whens = it.when or [u for u in it.uses if u in self.byname]
                if all(self.byname.get(w) in need for w in whens):
                    need.add(k)
                    todo += it.uses
                    more = True
            if not more and not todo:
                return sorted(need | {0})

HEAD = '''module M
  use int.Int
  use int.EuclideanDivision as ED
  use seq.Seq
  constant dummy_seq : seq int
  axiom dummy_seq : length dummy_seq = 0
'''

def specline(kind, x):
    if kind == 'raises': return '    raises { Throw -> %s }' % x
    return '    %s { %s }' % (kind, x)

def emit_function(lib, rec):
    """(text, line map) of the file that verifies rec"""
    lines = []      # (text, cpp line or None)
    body = []
    def word(txt): return WORD.findall(re.sub(r'\[@expl:[^\]]*\]', ' ', txt))
    words = set()
    cal = []
    order = []
    seen = set()
    for n, r in rec.callees.items():
        cal.append('  val %s %s : %s' % (r.name, ' '.join(r.sig or ['()']), r.ret))
        wr = list(r.wroots) + (['heap', 'heap_next'] if r.heap else []) + (['fs'] if r.fs else [])
        if wr: cal.append('    writes { %s }' % ', '.join(wr))
        for k, x in r.spec: cal.append(specline(k, x))
    for x in rec.excs: cal.append('  exception %s' % x)
    for l in cal: words |= set(word(l))
    fl = ['  let %s %s : %s' % (rec.name, ' '.join(rec.sig or ['()']), rec.ret)]
    for k, x in rec.spec: fl.append(specline(k, x))
    fl.append('  =')
    for l in fl: words |= set(word(l))
    for s in rec.sig: words |= set(word(s))
    for _, s in rec.body: words |= set(word(s))
    words.add('Throw')
    ids = lib.close(words)
    out = HEAD
    for k in ids: out += lib.items[k].fact()
    out += '\n'.join(cal) + '\n'
    n = out.count('\n')
    lm = {}
    for l in fl:
        out += l + '\n'; n += 1; lm[n] = rec.line
    if any(k == 'raises' for k, x in rec.spec): out += '    if false then raise Throw;\n'; n += 1
    for c, s in rec.body:
        out += '    ' + s + '\n'; n += s.count('\n') + 1; lm[n] = c
    out += 'end\n'
    return out, lm, [lib.items[k] for k in ids]

def emit_lemma(lib, k):
    it = lib.items[k]
    ids = [j for j in lib.close(it.uses | it.puses | {'Throw'}, upto=k)]
    out = HEAD
    for j in ids: out += lib.items[j].fact()
    out += it.stmt + it.proof + 'end\n'
    return out
