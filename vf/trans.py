"""Translate the C++ AST (clang JSON) of wisardpkg into WhyML, one function at a time.

Every C++ value is an immutable WhyML value.  Variables, `this` and reference parameters are WhyML refs.
Modifications through an lvalue path (this->rams[i].positions ...) become functional updates of the root.
A call of a function that has a contract uses the contract only; other functions of the library are inlined.
"""
import hashlib, math, re, copy, os
from types import SimpleNamespace as NS
from . import types as T
from .types import TypeErr, why, tkey, S8, S32, U32, S64, U64, BOOL, STR, JSON, FLOAT, DOUBLE, VOID
INT = S32

ABBR = {'RAM': 'ram', 'RAMDataHandle': 'rdh', 'Discriminator': 'disc', 'Wisard': 'wis', 'Cluster': 'clu', 'ClusWisard': 'cw',
        'BinInput': 'bin', 'DataSet': 'ds', 'Synthesizer': 'syn', 'KernelCanvas': 'kc', 'Base64': 'b64', 'Bleaching': 'bl',
        'BBleaching': 'bbl', 'Exception': 'exc', 'BinBase': 'bb'}

class Unsup(Exception):
    pass

class Path:
    __slots__ = ('root', 'kind', 'steps', 'T', 'cont')
    def __init__(self, root, kind, steps, T, cont=None):
        self.root, self.kind, self.steps, self.T, self.cont = root, kind, tuple(steps), T, cont
    def add(self, step):
        return Path(self.root, self.kind, self.steps + (step,), step[-1])

class Val:
    __slots__ = ('t', 'T', 'cont', 'parts')
    def __init__(self, t, T, cont=None, parts=None):
        self.t, self.T, self.cont, self.parts = t, T, cont, parts

def inner(n):
    return [c for c in n.get('inner', []) if c and 'kind' in c and not c['kind'].endswith('Comment') and c['kind'] != 'FullComment']

SKIP = ('ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ConstantExpr', 'SubstNonTypeTemplateParmExpr')

def unwrap(n):
    while n.get('kind') in SKIP or (n.get('kind') == 'ImplicitCastExpr' and n.get('castKind') in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase')):
        n = inner(n)[0]
    return n

# --------------------------------------------------------------------------------------------- program database
class Program:
    def __init__(self, docs):
        self.classes = {}      # name -> NS(fields, node, methods)
        self.byid = {}
        self.funcs = []        # all functions with bodies
        self.typedefs = {}
        self.statics = {}      # (class,name) -> VarDecl definition
        self.globals = {}
        self.line = 0
        for d in docs:
            self._loc(d)
            self._index(d, None)
        self.T = T.Types(set(self.classes), self.typedefs)
        for c in self.classes.values():
            for f in c.fields:
                try:
                    f.T = self.T.of(f.node)
                except TypeErr as e:
                    f.T = None
        for f in self.funcs:
            self._sig(f)

    def _loc(self, n):
        for k in ('loc',):
            l = n.get(k, {})
            l = l.get('expansionLoc', l)
            if 'line' in l:
                self.line = l['line']
        b = n.get('range', {}).get('begin', {})
        b = b.get('expansionLoc', b)
        if 'line' in b:
            self.line = b['line']
        n['_line'] = self.line
        for c in n.get('inner', []):
            if c:
                self._loc(c)
        e = n.get('range', {}).get('end', {})
        e = e.get('expansionLoc', e)
        if 'line' in e:
            self.line = e['line']

    def _index(self, n, cls):
        k = n.get('kind')
        if 'id' in n and k and k.endswith('Decl'):
            self.byid.setdefault(n['id'], n)
        if k == 'NamespaceDecl':
            for c in inner(n):
                self._index(c, None)
        elif k == 'CXXRecordDecl':
            if n.get('completeDefinition') and 'name' in n:
                C = NS(name=n['name'], node=n, fields=[], methods=[], base=None)
                bases = n.get('bases') or []
                if bases:
                    C.base = T.strip_cv(bases[0]['type']['qualType']).split('::')[-1]
                self.classes[n['name']] = C
                for c in inner(n):
                    if c['kind'] == 'FieldDecl':
                        C.fields.append(NS(name=c['name'], node=c, T=None))
                        self.byid[c['id']] = c
                        c['_cls'] = n['name']
                    else:
                        self._index(c, n['name'])
        elif k in ('CXXMethodDecl', 'FunctionDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl'):
            body = [c for c in inner(n) if c['kind'] == 'CompoundStmt']
            n['_cls'] = cls
            if body or True:
                f = NS(node=n, cls=cls, name=n.get('name'), body=body[0] if body else None, id=n['id'], kind=k,
                       params=[c for c in inner(n) if c['kind'] == 'ParmVarDecl'],
                       inits=[c for c in inner(n) if c['kind'] == 'CXXCtorInitializer'],
                       implicit=n.get('isImplicit', False), static=n.get('storageClass') == 'static' or cls is None,
                       targs=[c for c in inner(n) if c['kind'] == 'TemplateArgument'], sig=None, tmpl=None)
                self.funcs.append(f)
                n['_fn'] = f
        elif k == 'FunctionTemplateDecl':
            first = None
            for c in inner(n):
                if c['kind'] in ('CXXMethodDecl', 'FunctionDecl', 'CXXConstructorDecl'):
                    self._index(c, cls)
                    f = c['_fn']
                    if first is None:
                        first = f
                        f.tmpl = 'pattern'
                    else:
                        f.tmpl = first
        elif k in ('TypedefDecl', 'TypeAliasDecl'):
            self.typedefs[n['name']] = n['type'].get('desugaredQualType') or n['type']['qualType']
        elif k == 'VarDecl':
            if cls is None and 'parentDeclContextId' in n or n.get('previousDecl'):
                self.statics[n['name']] = n
                n['_static'] = True
            else:
                self.globals[n['name']] = n
            self.byid[n['id']] = n

    def _sig(self, f):
        f.key = None
        if f.tmpl == 'pattern':
            return
        try:
            f.PT = [self.T.of(p) for p in f.params]
            q = f.node['type']['qualType']
            f.byref = []
            for p in f.params:
                pq = p['type']['qualType'].strip()
                f.byref.append('ref' if (pq.endswith('&') and not pq.endswith('&&') and not pq.startswith('const ')) else
                               'cref' if pq.endswith('&') else 'const' if pq.startswith('const ') else 'val')
            if f.kind == 'CXXConstructorDecl':
                f.RT = ('cls', f.cls)
            else:
                r = q[:q.index('(')] if '(' in q else q
                f.RT = self._ret(f, r)
            pre = (f.cls + '::') if f.cls else ''
            nm = f.name if f.kind != 'CXXConstructorDecl' else f.cls
            ta = ''
            f.key = '%s%s(%s)' % (pre, nm, ','.join(tkey(p) for p in f.PT))
            f.isconst = bool(re.search(r'\)\s*const', q))
        except (TypeErr, ValueError) as e:
            f.key = None
            f.err = str(e)

    def _ret(self, f, r):
        return self.T.parse(r)

    def ctor(self, cls, ctortype):
        for f in self.funcs:
            if f.kind == 'CXXConstructorDecl' and f.cls == cls and f.node['type']['qualType'] == ctortype:
                return f
        norm = lambda s: re.sub(r'\b(std|wisardpkg|nlohmann|nl)::', '', s).replace(' ', '').replace('noexcept', '')
        for f in self.funcs:
            if f.kind == 'CXXConstructorDecl' and f.cls == cls and norm(f.node['type']['qualType']) == norm(ctortype):
                return f
        return None

    def fields(self, cls):
        return self.classes[cls].fields

# --------------------------------------------------------------------------------------------- WhyML text helpers
def fieldname(cls, f):
    return '%s_%s' % (ABBR.get(cls, cls.lower()), f)

def lit(i):
    return str(i) if i >= 0 else '(%d)' % i

class Tr:
    """translates the functions reachable from the wanted ones"""
    def __init__(self, prog, contracts, choice=None):
        self.p = prog
        self.ct = contracts          # Contracts object
        self.done = {}               # fn id -> NS(name, writes, throws, contract)
        self.out = []                # whyml function texts, in order
        self.n = 0
        self.lits = {}
        self.fllits = {}
        self.choice = choice or {}
        self.fieldalias = {}
        self.rlog = []               # role decisions
        self.assumed = set()         # modelling assumptions used
        self.trusted = set()         # library operations used
        self.inlined = {}
        self.errors = {}
        self.origin = []
        self.uses_heap = False

    def fresh(self, p='t'):
        self.n += 1
        return '%s%d' % (p, self.n)

    # ------------------------------------------------------------------ class records
    def records(self, need):
        """type declarations for classes, in dependency order"""
        seen, order = set(), []
        def dep(t):
            if t is None: return
            if t[0] == 'cls': visit(t[1])
            elif t[0] in ('vec', 'iter', 'ptr'): dep(t[1])
            elif t[0] in ('omap', 'umap'): dep(t[1]); dep(t[2])
            elif t[0] == 'tuple':
                for x in t[1]: dep(x)
        def visit(c):
            if c in seen or c not in self.p.classes: return
            seen.add(c)
            for f in self.p.fields(c): dep(f.T)
            order.append(c)
        for c in need: visit(c)
        txt = ''
        for c in order:
            fs = self.p.fields(c)
            if not fs:
                txt += '  type c_%s = unit\n' % c.lower()
                continue
            txt += '  type c_%s = { %s }\n' % (c.lower(), '; '.join('%s : %s' % (self.fn(c, f.name), why(f.T)) for f in fs))
        return txt, order

    def fn(self, cls, f):
        return self.fieldalias.get((cls, f)) or fieldname(cls, f)

    def map_fields(self, expected):
        """expected: {cls: [(field, tkey)]}; alias renamed fields to the expected names"""
        for cls, efs in expected.items():
            if cls not in self.p.classes: continue
            have = {f.name: f for f in self.p.fields(cls)}
            missing = [(n, t) for n, t in efs if n not in have]
            extra = [f for f in self.p.fields(cls) if f.name not in dict(efs)]
            for n, t in missing:
                for f in extra:
                    if f.T is not None and tkey(f.T) == t:
                        self.fieldalias[(cls, f.name)] = fieldname(cls, n)
                        self.rlog.append('field %s::%s taken for %s' % (cls, f.name, n))
                        extra.remove(f)
                        break

    # ------------------------------------------------------------------ functions under contract
    def need(self, f):
        if f.id in self.done:
            r = self.done[f.id]
            if r is None:
                raise Unsup('recursive function %s' % f.key)
            return r
        self.done[f.id] = None
        try:
            r = FnTr(self, f).run()
        except (Unsup, TypeErr, KeyError, IndexError, AttributeError, ValueError) as e:
            del self.done[f.id]
            if isinstance(e, (KeyError, IndexError, AttributeError, ValueError)):
                import traceback
                raise Unsup('%s: %s\n%s' % (f.key, repr(e), traceback.format_exc()[-1500:]))
            raise
        self.done[f.id] = r
        return r

    def string_lit(self, s):
        if s == '':
            return '(empty: seq int)'
        if s not in self.lits:
            self.lits[s] = 'str_' + s if re.fullmatch(r'[A-Za-z]\w{0,39}', s) else 'str_lit%d' % len(self.lits)
        return self.lits[s]

    def lit_items(self):
        out = []
        for s in sorted(self.ct.names): self.string_lit(s)      # names the specifications mention
        for s, n in self.lits.items():
            b = [x if x < 128 else x - 256 for x in s.encode('latin1', 'replace')]
            txt = '  val constant %s : seq int (* %s *)\n' % (n, re.sub(r'[^ -~]|[()*]', '_', s))
            txt += '  axiom %s_len : length %s = %d\n' % (n, n, len(b))
            i = 0
            while i < len(b):
                j = i
                while j + 1 < len(b) and b[j + 1] == b[j] + 1: j += 1
                if i == j: txt += '  axiom %s_%d : %s[%d] = %s\n' % (n, i, n, i, lit(b[i]))
                else: txt += '  axiom %s_%d : forall i. %d <= i <= %d -> %s[i] = i + %s\n' % (n, i, i, j, n, lit(b[i] - i))
                i = j + 1
            if all(x < 128 for x in b) and all(x >= 0 for x in b): txt += '  axiom %s_ascii : s_ascii %s\n' % (n, n)
            if n == 'str_' + s:
                txt += '  axiom %s_id : lit_id %s = %d\n' % (n, n, int(hashlib.sha256(s.encode()).hexdigest()[:8], 16))   # different names are different texts
            out.append(txt)
        for s in self.ct.flnames: self.fllits.setdefault('fl_lit_' + s, float(s.replace('_', '.', 1)))
        for n, v in sorted(self.fllits.items()):
            txt = '  val constant %s : fl (* %r *)\n  axiom %s_num : not (fl_nan %s) /\\ not (fl_inf %s)\n' % (n, v, n, n, n)
            if abs(v) < 1000000:
                a, b = math.floor(v), math.ceil(v)
                for x in (n, '(fl_round32 %s)' % n):
                    txt += '  axiom %s_%d : fl_rk (fl_of_int %s) <= fl_rk %s <= fl_rk (fl_of_int %s) /\\ not (fl_nan %s)\n' % (n, len(x), lit(a), x, lit(b), x)
            out.append(txt)
        return out

class Contract:
    def __init__(self, key, d):
        self.key = key
        self.params = d.get('params', '').split() if isinstance(d.get('params', ''), str) else d['params']
        self.requires = self._cl(d.get('requires', []))
        self.ensures = self._cl(d.get('ensures', []))
        self.throws = d.get('throws')
        if self.throws is not None:
            self.throws = self._cl(self.throws)
        self.loops = d.get('loops', [])
        self.counters = d.get('counters', False)
        self.start = d.get('start', [])
        self.end = d.get('end', [])
        self.calls = d.get('calls', {})
        self.inline = d.get('inline', False)
        self.noframe = d.get('noframe', False)
        self.noinv = d.get('noinv', False)
        self.order = d.get('order')
        self.locals = d.get('locals', '')
        self.ghost = d.get('ghost', [])
    @staticmethod
    def _cl(l):
        if isinstance(l, (str, tuple)):
            l = [l]
        return [x if isinstance(x, tuple) else ('', x) for x in l]

IDENT = re.compile(r"(?<![\w.'@])([A-Za-z_]\w*)(?![\w'])")

def subst(text, m):
    return IDENT.sub(lambda k: m.get(k.group(1), k.group(1)), text)

class FnTr:
    def __init__(self, tr, f):
        self.tr, self.f, self.p = tr, f, tr.p
        self.c = tr.ct.find(f)
        self.buf = []
        self.writes = set()
        self.throws = False
        self.env = {}             # decl id -> Path
        self.scope = []           # visible locals [(cppname, whyname, T)]
        self.excs = []            # local exception declarations (top-level text before the function)
        self.loopno = [0]
        self.loopspec = [self.c.loops if self.c else []]
        self.pmap = {}
        self.prelab = ['Pre']
        self.curline = 0
        self.stack = [f.id]
        self.breaks = []
        self.cstack = []; self.heads = []; self.depth = {}
        self.conts = []
        self.retm = []            # stack of return modes
        self.thisT = None
        self.callees = {}
        self.ranges = {}
        self.extra = {}           # functions the proof relies on without calling them

    # ---------------------------------------------------------------- emission
    def e(self, s):
        self.buf.append((self.curline, s))

    def block(self):
        old = self.buf
        self.buf = []
        return old

    def endblock(self, old):
        b = self.buf
        self.buf = old
        return b

    def put(self, lines):
        self.buf.extend(lines)

    def let(self, term, pre='t'):
        x = self.tr.fresh(pre)
        self.e('let %s = %s in' % (x, term))
        return x

    def letx(self, term, pre='t'):
        self.throws = True
        return self.let(term, pre)

    # ---------------------------------------------------------------- entry
    def run(self):
        f, tr = self.f, self.tr
        c = self.c
        if f.body is None:
            raise Unsup('no body: %s' % f.key)
        wname = 'f_' + re.sub(r'\W+', '_', f.key).strip('_') + '_%d' % tr.n
        tr.n += 1
        ctor = f.kind == 'CXXConstructorDecl'
        self.ctor = ctor
        sig = []
        self.refparams = []
        names = list(c.params) if c else []
        if c and names and len(names) != len(f.params):
            raise Unsup('contract of %s expects %d parameters' % (f.key, len(names)))
        if not f.static or ctor:
            self.thisT = ('cls', f.cls)
        if not f.static and not ctor:
            sig.append('(ref this: %s)' % why(self.thisT))
            self.thisp = Path('this', 'ref', (), self.thisT)
        elif ctor:
            self.thisp = Path('this', 'ref', (), self.thisT)
        self.e('label Pre in')
        for i, p in enumerate(f.params):
            nm = names[i] if i < len(names) else p.get('name', 'p%d' % i)
            wn = 'p_' + nm
            t = f.PT[i]
            self.pmap[nm] = wn
            if f.byref[i] == 'ref':
                sig.append('(ref %s: %s)' % (wn, why(t)))
                self.env[p['id']] = Path(wn, 'ref', (), t)
                self.refparams.append((wn, t))
            else:
                sig.append('(%s: %s)' % (wn, why(t)))
                if f.byref[i] == 'val':
                    self.e('let ref l_%s = %s in' % (nm, wn))
                    self.env[p['id']] = Path('l_' + nm, 'ref', (), t)
                else:
                    self.env[p['id']] = Path(wn, 'val', (), t)
                self.assume_range(wn, t)
        if not sig:
            sig = ['()']
        if c:
            for s in self.acthooks(c.ghost):
                self.e('let ghost ref %s in' % self.ctext(s))
            for s in self.acthooks(c.start):
                self.e(self.ctext(s) + ';')
        if ctor:
            self.ctor_body(f)
            self.e('this')
        else:
            self.body(f, toplevel=True)
        body = self.buf
        # ---- contract text
        sm = dict(self.pmap)
        if ctor:
            sm['this'] = 'result'
        spec = []
        kshort = f.key.replace('[]', '_at')
        roots = [] if (ctor or f.static) else [('this', self.thisT)]
        roots += self.refparams
        written = set(w[0] for w in self.writes)
        ct = tr.ct
        wp = [('p_' + names[i], f.PT[i], f.byref[i]) for i in range(len(f.params))] if len(names) == len(f.params) else []
        def add(kind, label, x):
            spec.append((kind, '[@expl:%s of %s] %s' % (label, kshort, x)))
        if c and not c.noinv:
            if not (ctor or f.static) and ct.inv(f.cls):
                add('requires', 'invariant', '%s this' % ct.inv(f.cls))
            for wn, t, br in wp:
                if t[0] == 'cls' and ct.inv(t[1]):
                    add('requires', 'invariant of ' + wn[2:], '%s %s' % (ct.inv(t[1]), wn))
        if c:
            for k, (tag, r) in enumerate(c.requires):
                if ct.active(tag):
                    add('requires', 'precondition %d' % (k + 1), subst(self.view(r, f), sm))
        if c and not c.noinv:
            if f.RT[0] == 'cls' and ct.inv(f.RT[1]):
                add('ensures', 'invariant of the result', '%s result' % ct.inv(f.RT[1]))
            for rn, t in roots:
                if t[0] == 'cls' and rn in written and ct.inv(t[1]):
                    add('ensures', 'invariant of ' + rn, '%s %s' % (ct.inv(t[1]), rn))
        if c:
            for k, (tag, r) in enumerate(c.ensures):
                if ct.active(tag):
                    add('ensures', 'postcondition %d%s' % (k + 1, ' ' + tag if tag else ''), subst(self.view(r, f), sm))
        fr = []
        for rn, t in roots:
            if rn not in written and rn in set(x for x, _ in roots):
                continue        # never assigned: nothing to say
            fr += self.frame(rn, '(old %s)' % rn, t, [w[1] for w in self.writes if w[0] == rn])
        if not (c and c.noframe):
            for x in fr:
                add('ensures', 'frame', x)
        if self.throws:
            if c and not c.noinv:
                for rn, t in roots:
                    if t[0] == 'cls' and rn in written and ct.inv(t[1]):
                        add('raises', 'invariant of %s after an exception' % rn, '%s %s' % (ct.inv(t[1]), rn))
            th = c.throws if c and c.throws is not None else ([('', 'true')] if not c else [('', 'false')])
            act = [(k, tag, r) for k, (tag, r) in enumerate(th) if ct.active(tag)]
            for k, tag, r in act:
                add('raises', 'exceptional postcondition %d%s' % (k + 1, ' ' + tag if tag else ''), subst(self.view(r, f), sm))
            if not act:
                add('raises', 'exception', 'true')
            if not ctor:
                for x in fr:
                    add('raises', 'exceptional frame', x)
        rec = NS(key=f.key, name=wname, f=f, sig=sig, spec=spec, body=body, excs=self.excs, ret=why(f.RT), writes=self.writes,
                 throws=self.throws, contract=c, callees=self.callees, extra=self.extra, line=f.node.get('_line', 0),
                 wroots=[rn for rn, t in roots if rn in written], heap=any(w[0] == 'heap' for w in self.writes), fs=any(w[0] == 'fs' for w in self.writes))
        tr.out.append(rec)
        return rec

    def view(self, text, f):
        """$view(p) and $size(p): the logical list of values of a parameter that is a list or a BinInput"""
        def tyof(nm):
            if self.c and nm in self.c.params:
                return f.PT[self.c.params.index(nm)]
            return None
        def sub(m):
            nm = m.group(1)
            t = tyof(nm)
            if t is not None and t[0] == 'cls' and self.tr.ct.viewfn(t[1]):
                return '(%s %s)' % (self.tr.ct.viewfn(t[1]), nm)
            return nm
        def lit_(m):
            d = self.p.statics.get(m.group(1)) or self.p.globals.get(m.group(1))
            s = find_string(d) if d is not None else None
            return self.tr.string_lit(s) if s is not None else '(empty: seq int)'
        text = re.sub(r'\$lit\((\w+)\)', lit_, text)
        text = re.sub(r'\$str\("([^"]*)"\)', lambda m: self.tr.string_lit(m.group(1)), text)
        return re.sub(r'\$view\((\w+)\)', sub, text)

    def ctext(self, s, extra=None):
        m = dict(self.pmap)
        if extra: m.update(extra)
        s = self.view(s, self.f)
        s = self.oldrw(s)
        if self.heads: s = self.oldrw(s, 'head', self.heads[-1])
        return subst(s, m).replace('; assert', ';\nassert')

    def oldrw(self, s, word='old', lab='Pre'):
        """(old e) -> (e at Pre) inside bodies"""
        out, i = '', 0
        while True:
            m = re.search(r'\(%s\s' % word, s[i:])
            if not m:
                return out + s[i:]
            a = i + m.start()
            d, j = 0, a
            while True:
                if s[j] == '(': d += 1
                if s[j] == ')':
                    d -= 1
                    if d == 0: break
                j += 1
            out += s[i:a] + '((' + self.oldrw(s[a + 1 + len(word):j], word, lab).strip() + ') at %s)' % lab
            i = j + 1

    def frame(self, cur, old, t, pats, depth=0):
        """facts that the parts of `cur` no pattern touches are equal to those of `old`"""
        if not pats:
            return ['%s = %s' % (cur, old)]
        if any(p == () for p in pats) or depth > 4:
            return []
        k = t[0]
        out = []
        if k == 'cls' and self.p.fields(t[1]):
            for f in self.p.fields(t[1]):
                w = self.tr.fn(t[1], f.name)
                sub = [p[1:] for p in pats if p[0] == w]
                out += self.frame('%s.%s' % (cur, w), '%s.%s' % (old, w), f.T, sub, depth + 1)
        elif k in ('vec', 'str') and all(p[0] == 'i' for p in pats):
            out.append('length %s = length %s' % (cur, old))
            if k == 'vec':
                v = 'q%d' % depth
                sub = self.frame('%s[%s]' % (cur, v), '%s[%s]' % (old, v), t[1], [p[1:] for p in pats], depth + 1)
                for s in sub:
                    out.append('(forall %s:int. 0 <= %s < length %s -> %s)' % (v, v, old, s))
        return out

    def assume_range(self, wn, t):
        if t[0] == 'int':
            self.e('assume { in_%s %s };' % (ikey(t), wn))

    # ---------------------------------------------------------------- constructor
    def default(self, t):
        """a default-initialised value of type t (scalars: arbitrary)"""
        k = t[0]
        if k == 'int':
            return self.let('any_%s ()' % ikey(t), 'u')
        if k == 'bool':
            return self.let('any_bool ()', 'u')
        if k in ('float', 'double'):
            return self.let('any_fl ()', 'u')
        if k in ('ptr',):
            return self.let('any_u64 ()', 'u')
        return self.value_init(t)

    def value_init(self, t):
        """T(): zero / empty / default constructed"""
        k = t[0]
        if k == 'int' or k == 'ptr' or k == 'iter': return '0'
        if k == 'bool': return 'false'
        if k in ('float', 'double'): return '(fl_of_int 0)'
        if k == 'str': return '(empty: seq int)'
        if k == 'vec': return '(empty: %s)' % why(t)
        if k in ('omap', 'umap'): return '(%s_empty (): %s)' % (k, why(t))
        if k == 'json': return 'jnull'
        if k == 'tuple':
            return '(%s)' % ', '.join(self.value_init(x) for x in t[1])
        if k == 'cls':
            f = self.p.ctor(t[1], 'void ()')
            if f is None or f.body is None:
                # implicit default constructor
                fs = self.p.fields(t[1])
                if not fs: return '()'
                return self.let('{ %s }' % '; '.join('%s = %s' % (self.tr.fn(t[1], x.name), self.default(x.T)) for x in fs), 'o')
            return self.call(f, None, []).t
        raise Unsup('value_init %s' % (t,))

    def ctor_body(self, f, thisp=None):
        """emit the body of a constructor on the path self.thisp (whose root must be declared here if toplevel)"""
        fs = self.p.fields(f.cls)
        inits = {}
        deleg = None
        base = None
        for i in f.inits:
            if 'anyInit' in i:
                inits[i['anyInit']['name']] = inner(i)
            elif 'delegatingInit' in i:
                deleg = inner(i)
            else:
                base = inner(i)
        root = self.thisp.root
        if deleg is not None:
            v = self.rv(deleg[0])
            self.e('let ref %s = %s in' % (root, v.t))
        else:
            vals = []
            first = True
            # fields are initialised in declaration order; earlier fields are visible to later initialisers
            self.e('let ref %s = any %s in' % (root, why(('cls', f.cls))))
            self.curinit = f.cls
            for x in fs:
                w = self.tr.fn(f.cls, x.name)
                if x.name in inits and inits[x.name]:
                    n = inits[x.name][0]
                    if n['kind'] == 'CXXDefaultInitExpr':
                        n = inner(x.node)[0]
                    v = self.rv(n, want=x.T)
                    v = self.coerce(v, x.T)
                elif inner(x.node):
                    v = self.coerce(self.rv(inner(x.node)[0], want=x.T), x.T).t
                    v = Val(v, x.T)
                else:
                    v = Val(self.default(x.T), x.T)
                self.write(self.thisp.add(('f', f.cls, x.name, x.T)), v.t, nolog=True)
        self.body(f, toplevel=False, isctor=True)

    # ---------------------------------------------------------------- bodies and returns
    def body(self, f, toplevel, isctor=False, rt=None):
        """emit the statements; the buffer ends in an expression giving the result (unit for void/ctor)"""
        stmts = inner(f.body)
        rt = VOID if isctor else f.RT
        mode = NS(T=rt, exc=None, used=False)
        self.retm.append(mode)
        if self.tailable(stmts):
            self.tail(stmts, mode)
        else:
            old = self.block()
            mode.exc = 'Ret%d' % self.tr.n
            self.tr.n += 1
            mode.exc = self.tr.fresh('Ret')
            sc = len(self.scope)
            for s in stmts:
                self.stmt(s)
            del self.scope[sc:]
            if rt != VOID:
                self.e('absurd')
            else:
                self.endhook()
                self.e('()')
            b = self.endblock(old)
            self.excs.append(mode.exc + ('' if rt == VOID else ' ' + why(rt)))
            self.e('begin try')
            self.put(b)
            if rt == VOID:
                self.e('with %s -> () end end' % mode.exc)
            else:
                self.e('with %s r -> r end end' % mode.exc)
        if isctor:
            l, s = self.buf.pop()
            if s.strip() != '()':
                self.buf.append((l, s + ';'))
        self.retm.pop()

    def acthooks(self, l):
        out = []
        for x in l:
            tag = ''
            if isinstance(x, tuple): tag, x = x
            if self.tr.ct.active(tag): out.append(x)
        return out

    def hook(self, g, roles, lab=None):
        """a ghost statement of a contract; left out if a name it uses has no counterpart in the code"""
        ws = set(re.findall(r"[A-Za-z_][\w']*", g))
        if any(v is None and k in ws for k, v in roles.items()) or any(x in ws and x not in roles for x in ('I_', 'O_')):
            self.tr.rlog.append(('nohook', self.f.key, g, 0))
            return
        if lab: g = self.oldrw(g, 'entry', lab)
        self.e(self.ctext(g, roles) + ';')

    def locals(self):
        """local variables by their C++ name (a name of the specification library keeps its meaning there)"""
        m = {cn: wn for cn, wn, t in self.scope if wn and cn not in self.tr.ct.reserved}
        want = [x.split(':') for x in (self.c.locals.split() if self.c else ())]
        for nm, ty in want:            # names a contract relies on: by name, or else the latest one of the type
            if any(cn == nm and tkey(t) == ty and wn for cn, wn, t in self.scope): continue
            c = [wn for cn, wn, t in self.scope if wn and tkey(t) == ty and not any(cn == n2 for n2, _ in want)]
            if c: m[nm] = c[-1]
        return m

    def endhook(self):
        if self.c and len(self.retm) == 1:
            for s in self.acthooks(self.c.end):
                loc = self.locals()
                try:
                    self.e(self.ctext(s, loc) + ';')
                except Exception:
                    pass

    def has(self, n, kinds, stop=()):
        if n.get('kind') in kinds: return True
        if n.get('kind') in stop: return False
        return any(self.has(c, kinds, stop) for c in inner(n))

    def tailable(self, stmts):
        """all returns are in tail position (through if/else and compound)"""
        for i, s in enumerate(stmts):
            last = i == len(stmts) - 1
            k = s['kind']
            if k == 'ReturnStmt':
                return True
            if k == 'CompoundStmt' and self.has(s, ('ReturnStmt',)):
                if last: return self.tailable(inner(s))
                return False
            if k == 'IfStmt' and self.has(s, ('ReturnStmt',)):
                ins = inner(s)
                th, el = ins[1], (ins[2] if len(ins) > 2 else None)
                okth = self.tailable(self.aslist(th))
                okel = self.tailable(self.aslist(el)) if el else True
                if not (okth and okel): return False
                if last: return True
                # then-branch or else-branch may fall through: only allowed when it never falls through or has no return
                return self.tailable(stmts[i + 1:])
            if self.has(s, ('ReturnStmt',)):
                return False
        return True

    def aslist(self, s):
        return inner(s) if s['kind'] == 'CompoundStmt' else [s]

    def tail(self, stmts, mode):
        sc = len(self.scope)
        for i, s in enumerate(stmts):
            k = s['kind']
            self.curline = s.get('_line', self.curline)
            if k == 'ReturnStmt':
                ins = inner(s)
                if ins:
                    v = self.coerce(self.rv(ins[0], want=mode.T), mode.T)
                    self.endhook()
                    self.e(v.t)
                else:
                    self.endhook()
                    self.e('()')
                del self.scope[sc:]
                return
            if k == 'CompoundStmt' and self.has(s, ('ReturnStmt',)):
                self.tail(inner(s) + stmts[i + 1:], mode)
                del self.scope[sc:]
                return
            if k == 'IfStmt' and self.has(s, ('ReturnStmt',)):
                ins = inner(s)
                th, el = self.aslist(ins[1]), (self.aslist(ins[2]) if len(ins) > 2 else [])
                rest = stmts[i + 1:]
                cnd = self.cond(ins[0])
                self.e('if %s then begin' % cnd)
                self.tail(th + ([] if self.noreturn_fall(th) else rest), mode)
                self.e('end else begin')
                self.tail(el + ([] if self.noreturn_fall(el) else rest), mode)
                self.e('end')
                del self.scope[sc:]
                return
            self.stmt(s)
        self.endhook()
        if mode.T != VOID:
            # falling off the end: only possible after a throw
            self.e('absurd')
        else:
            self.e('()')
        del self.scope[sc:]

    def noreturn_fall(self, stmts):
        """does the list always return/throw?"""
        if not stmts: return False
        s = stmts[-1]
        k = s['kind']
        if k == 'ReturnStmt': return True
        if k == 'CompoundStmt': return self.noreturn_fall(inner(s))
        if k == 'IfStmt':
            ins = inner(s)
            return len(ins) > 2 and self.noreturn_fall(self.aslist(ins[1])) and self.noreturn_fall(self.aslist(ins[2]))
        if k in ('ExprWithCleanups', 'CXXThrowExpr'):
            return unwrap(s)['kind'] == 'CXXThrowExpr'
        return False

    # ---------------------------------------------------------------- statements
    def cond(self, n):
        v = self.rv(n)
        return self.tobool(v)

    def tobool(self, v):
        if v.T[0] == 'bool': return v.t
        if v.T[0] in ('int', 'ptr'): return '(%s <> 0)' % v.t
        raise Unsup('condition of type %s' % (v.T,))

    def stmts(self, l):
        sc = len(self.scope)
        for s in l:
            self.stmt(s)
        del self.scope[sc:]

    def stmt(self, s):
        k = s['kind']
        self.curline = s.get('_line', self.curline)
        if k == 'CompoundStmt':
            # lets must not capture beyond the block: names are unique, so no nesting is needed
            self.stmts(inner(s))
        elif k == 'DeclStmt':
            for d in inner(s):
                self.decl(d)
        elif k == 'IfStmt':
            ins = inner(s)
            if s.get('hasVar') or s.get('hasInit'):
                raise Unsup('if with declaration')
            c = self.cond(ins[0])
            self.e('if %s then begin' % c)
            self.sub(ins[1])
            if len(ins) > 2:
                self.e('end else begin')
                self.sub(ins[2])
            self.e('end;')
        elif k == 'ReturnStmt':
            m = self.retm[-1]
            ins = inner(s)
            if m.exc is None: raise Unsup('return')
            if ins:
                v = self.coerce(self.rv(ins[0], want=m.T), m.T)
                self.endhook()
                self.e('raise (%s %s);' % (m.exc, paren(v.t)))
            else:
                self.endhook()
                self.e('raise %s;' % m.exc)
        elif k == 'NullStmt':
            pass
        elif k == 'BreakStmt':
            b = self.breaks[-1]
            b.used = True
            for g in b.hooks: self.e(self.ctext(g, b.roles) + ';')
            self.e('raise %s;' % b.exc)
        elif k == 'ContinueStmt':
            b = self.conts[-1]
            b.used = True
            self.e('raise %s;' % b.exc)
        elif k in ('ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt'):
            self.loop(s)
        else:
            self.exprstmt(s)

    def sub(self, s):
        """a statement in its own block, ending in unit"""
        self.stmts([s])
        self.e('()')

    def exprstmt(self, s):
        n = unwrap(s)
        if self.is_cout(n):
            self.tr.assumed.add('output to std::cout is dropped')
            return
        if n['kind'] == 'CXXThrowExpr':
            self.throws = True
            self.e('raise Throw;')
            return
        v = self.ev(s, discard=True)

    def is_cout(self, n):
        n = unwrap(n)
        if n['kind'] == 'CXXOperatorCallExpr':
            ins = inner(n)
            op = unwrap_callee(ins[0])
            if op == 'operator<<':
                return self.is_cout(ins[1])
        if n['kind'] == 'CXXMemberCallExpr':
            return False
        if n['kind'] == 'DeclRefExpr':
            return n['referencedDecl'].get('name') in ('cout', 'cerr')
        return False

    def newlocal(self, d, init, t, cont=None):
        nm = d.get('name') or 'anon'
        wn = self.tr.fresh('v_' + nm + '_')
        self.e('let ref %s = %s in' % (wn, init))
        self.env[d['id']] = Path(wn, 'ref', (), t, cont)
        self.depth[wn] = len(self.cstack)
        self.scope.append((nm, wn, t))
        return wn

    def decl(self, d):
        if d['kind'] in ('TypedefDecl', 'TypeAliasDecl', 'UsingDecl', 'StaticAssertDecl', 'UsingDirectiveDecl'):
            return
        if d['kind'] != 'VarDecl':
            raise Unsup('declaration ' + d['kind'])
        q = d['type']['qualType'].strip()
        t = self.p.T.of(d)
        ins = inner(d)
        if q.endswith('&') or q.endswith('&&'):
            r = self.ev(ins[0], want=t)
            if isinstance(r, Path):
                r = self.freeze(r)
                self.env[d['id']] = r
                self.scope.append((d.get('name'), None, t))
            else:
                x = self.let(self.coerce(r, t).t, 'r_')
                self.env[d['id']] = Path(x, 'val', (), t)
                self.scope.append((d.get('name'), x, t))
            return
        if not ins or (ins[0]['kind'] == 'CXXConstructExpr' and not inner(ins[0]) and t[0] not in ('cls', 'stream')):
            init = self.default(t) if not ins else self.value_init(t)
            self.newlocal(d, init, t)
            return
        v = self.rv(ins[0], want=t)
        cont = v.cont
        v = self.coerce(v, t)
        self.newlocal(d, v.t, t, cont)

    def freeze(self, p):
        """a reference binds to the location now: index terms are already let-bound or immutable"""
        return p

    # ---------------------------------------------------------------- loops
    def loop(self, s):
        k = s['kind']
        ins = s.get('inner', [])
        line = s.get('_line', 0)
        sc0 = len(self.scope)
        counter = None
        cinit = None
        rng = None
        if k == 'ForStmt':
            init, _, cnd, inc, body = ins
            if init and 'kind' in init:
                self.stmt(init) if init['kind'] == 'DeclStmt' else self.exprstmt(init)
            cnd = cnd if cnd and 'kind' in cnd else None
            inc = inc if inc and 'kind' in inc else None
        elif k == 'WhileStmt':
            cnd, inc, body = inner(s)[0], None, inner(s)[1]
        elif k == 'DoStmt':
            body, cnd, inc = inner(s)[0], inner(s)[1], None
        else:
            ds = [c for c in ins if c and 'kind' in c]
            # [range decl, begin decl, end decl, cond, inc, loop var decl, body]
            decls = [c for c in ds if c['kind'] == 'DeclStmt']
            rngd = inner(decls[0])[0]
            lvd = inner(decls[-1])[0]
            body = ds[-1]
            r = self.ev(inner(rngd)[0])
            if not isinstance(r, Path):
                x = self.let(r.t, 'rng')
                r = Path(x, 'val', (), r.T)
            rng = r
            pos = self.tr.fresh('v_pos_')
            self.e('let ref %s = 0 in' % pos)
            counter = pos
            cnd, inc = None, None
        # entry label
        lab = self.tr.fresh('L')
        self.e('label %s in' % lab)
        # condition (translated separately so that it can be placed in the while header)
        old = self.block()
        if rng is not None:
            cv = '(%s < %s)' % (counter, self.lensize(rng))
        elif cnd is not None:
            cv = self.cond(cnd)
        else:
            cv = 'true'
        self.e(cv)
        condlines = self.endblock(old)
        # the counter
        if k == 'ForStmt' and inc is not None:
            counter, step = self.find_counter(inc, cnd)
        elif k in ('WhileStmt', 'DoStmt'):
            counter, step = self.find_counter_while(body, cnd)
        else:
            step = 1
        loopspec = self.take_spec(s)
        # body
        saved = self.writes
        self.writes = set()
        old = self.block()
        brk = NS(exc=self.tr.fresh('Brk'), used=False)
        cont = NS(exc=self.tr.fresh('Cnt'), used=False)
        self.breaks.append(brk)
        self.conts.append(cont)
        roles = self.roles(loopspec, counter, s) if loopspec else {}
        side = self.side_counters(body, inc, counter, step)
        self.cstack.append(counter)
        brk.roles, brk.hooks = roles, (loopspec or {}).get('at_break', [])
        self.heads.append(self.tr.fresh('B'))
        self.e('label %s in' % self.heads[-1])
        eroles = roles
        if loopspec and counter and k in ('WhileStmt', 'DoStmt') and loopspec.get('at_end'):
            eroles = dict(roles, I_=self.tr.fresh('head'))   # at the end of the body the counter may be stepped already
            self.e('let %s = %s in' % (eroles['I_'], counter))
        if loopspec:
            for g in self.acthooks(loopspec.get('at_start', [])):
                self.hook(g, roles, lab)
        if rng is not None:
            t = self.p.T.of(lvd)
            q = lvd['type']['qualType'].strip()
            elp = self.elem_at(rng, counter)
            if q.endswith('&'):
                self.env[lvd['id']] = elp
                self.scope.append((lvd.get('name'), None, t))
            else:
                v = self.coerce(Val(self.read(elp), elp.T), t)
                self.newlocal(lvd, v.t, t)
        b2 = self.block()
        self.stmts([body])
        inb = self.endblock(b2)
        self.breaks.pop(); self.conts.pop()
        if cont.used:
            self.excs.append(cont.exc)
            self.e('begin try')
            self.put(inb)
            self.e('() with %s -> () end end;' % cont.exc)
        else:
            self.put(inb)
        if loopspec:
            for g in self.acthooks(loopspec.get('at_end', [])):
                self.hook(g, eroles, lab)
        self.cstack.pop()
        self.heads.pop()
        if rng is not None:
            self.e('%s <- %s + 1;' % (counter, counter))
            self.writes.add((counter, ()))
        elif inc is not None:
            self.exprstmt(inc)
        if k == 'DoStmt':
            self.put(condlines[:-1])
            if not brk.used:
                brk.used = True
            self.e('if not (%s) then raise %s;' % (condlines[-1][1], brk.exc))
        self.e('()')
        bodylines = self.endblock(old)
        w = self.writes
        self.writes = saved | w
        # invariants
        inv = []
        var = None
        names = ' '.join(x for _, x in bodylines)
        # automatic bounds of the counter
        if counter:
            cinit = '(%s at %s)' % (counter, lab)
            if step > 0:
                inv.append(('counter', '%s >= %s' % (counter, cinit)))
            if step and step > 1:
                inv.append(('counter', 'ED.mod (%s - %s) %d = 0' % (counter, cinit, step)))
            bound, strict = self.bound(cnd, counter, w) if rng is None else ('length %s' % self.logic_len(rng), True)
            if bound:
                if step > 0:
                    slack = '' if step == 1 else ' + %d' % (step - 1)
                    inv.append(('counter', '(%s <= %s%s \\/ %s = %s)' % (counter, bound, slack, counter, cinit)))
                    var = '%s - %s' % (bound + slack, counter)
                elif step < 0:
                    inv.append(('counter', '%s <= %s' % (counter, cinit)))
                    inv.append(('counter', '(%s >= %s%d \\/ %s = %s)' % (counter, bound, step, counter, cinit)))
                    var = '%s - (%s)' % (counter, bound)
        if counter:
            for v, c in side:
                inv.append(('counter', '%s = (%s at %s) + %d * (%s - %s)' % (v, v, lab, c, counter, cinit)))
        # frames of partially written roots
        roots = {}
        for r, pt in w:
            roots.setdefault(r, []).append(pt)
        for r, pts in sorted(roots.items()):
            t = self.root_type(r)
            if t is None: continue
            for x in self.frame(r, '(%s at %s)' % (r, lab), t, pts):
                inv.append(('frame', x))
        user = []
        if loopspec:
            for iv in loopspec.get('inv', []):
                tag = ''
                if isinstance(iv, tuple): tag, iv = iv
                if not self.tr.ct.active(tag): continue
                x = self.spec_text(iv, roles, lab)
                if x is not None:
                    user.append(x)
            if loopspec.get('variant'):
                x = self.spec_text(loopspec['variant'], roles, lab)
                if x is not None: var = x
        if brk.used:
            self.excs.append(brk.exc)
            self.e('begin try')
        self.curline = line
        if k == 'DoStmt':
            self.e('while true do')
        else:
            self.e('while (')
            self.put(condlines)
            self.e(') do')
        for i, (a, x) in enumerate(inv):
            self.e('  invariant { [@expl:loop %s of %s] %s }' % (a, self.f.key.replace("[]", "_at"), x))
        for i, x in enumerate(user):
            self.e('  invariant { [@expl:loop invariant %d of %s] %s }' % (i + 1, self.f.key.replace("[]", "_at"), x))
        if var:
            self.e('  variant { %s }' % var)
        self.put(bodylines)
        if brk.used:
            self.e('done with %s -> () end end;' % brk.exc)
        else:
            self.e('done;')
        if loopspec:
            for g in self.acthooks(loopspec.get('after', [])):
                self.hook(g, roles, lab)
        del self.scope[sc0:]

    def root_type(self, r):
        if r == 'this': return self.thisT
        for p in self.env.values():
            if p.root == r and not p.steps: return p.T
        if self.thisp_of(r): return self.thisp_of(r)
        return None

    def thisp_of(self, r):
        for t in getattr(self, 'thisstack', []):
            if t.root == r and not t.steps: return t.T
        return None

    def spec_text(self, iv, roles, lab):
        if iv.startswith('!'):     # only where the named role does not exist
            r, iv = iv[1:].split(None, 1)
            if roles.get(r) is not None: return None
        for r in set(IDENT.findall(iv)):
            if r in roles and roles[r] is None:
                return None
        iv = re.sub(r'\(entry\s', '(old_entry ', iv)
        out, i = '', 0
        x = self.ctext(iv, roles)
        # (old_entry e) -> (e at lab)
        while True:
            m = re.search(r'\(old_entry\s', x)
            if not m: break
            a = m.start(); d = 0; j = a
            while True:
                if x[j] == '(': d += 1
                if x[j] == ')':
                    d -= 1
                    if d == 0: break
                j += 1
            x = x[:a] + '((' + x[a + 11:j].strip() + ') at %s)' % lab + x[j + 1:]
        return x

    def take_spec(self, s):
        specs = self.loopspec[-1]
        i = self.loopno[-1]
        self.loopno[-1] += 1
        if len(self.loopspec) == 1:
            self.tr.rlog.append(('loop', self.f.key, i))
            self.tr.rlog.append(('loops', self.f.key, len(specs)))
        perm = self.tr.choice.get((self.f.key, 'perm', len(self.loopspec)))
        if perm and i < len(perm): i = perm[i]
        if i < len(specs): return specs[i]
        return None

    def roles(self, spec, counter, s):
        m = {}
        if counter: m['I_'] = counter
        if self.cstack and self.cstack[-1]: m['O_'] = self.cstack[-1]
        used = set()
        rs = spec.get('roles', '')
        rl = [r.split(':') for r in rs.split()]
        vis = [(cn, wn, t) for cn, wn, t in self.scope if wn is not None]
        seen = {}
        for cn, wn, t in vis: seen[cn] = (wn, t)
        pend = []
        mods = self.modified(s) if any(len(x) > 2 for x in rl) else ()
        for nm, ty, *mod in rl:
            if mod: pend.append((nm, ty, mod))
            elif nm in seen and tkey(seen[nm][1]) == ty:
                m[nm] = seen[nm][0]; used.add(seen[nm][0])
            else:
                pend.append((nm, ty, mod))
        for nm, ty, mod in pend:
            # a path alias (reference) or parameter of an inlined function?
            cands = [wn for cn, wn, t in vis if tkey(t) == ty and wn not in used and wn != counter and (not mod or wn in mods)]
            fields = []
            pick = self.tr.choice.get((self.f.key, nm), 0)
            if cands:
                m[nm] = cands[min(pick, len(cands) - 1)]
                used.add(m[nm])
                self.tr.rlog.append(('role', self.f.key, nm, len(cands)))
            else:
                m[nm] = None
                self.tr.rlog.append(('norole', self.f.key, nm, 0))
        return m

    def modified(self, s):
        """names of the local variables that a statement may change (a use that is not a plain read)"""
        out = set()
        def go(n, par):
            if n.get('kind') == 'DeclRefExpr':
                if not (par.get('kind') == 'ImplicitCastExpr' and par.get('castKind') == 'LValueToRValue'):
                    p = self.env.get(n['referencedDecl']['id'])
                    if p is not None and not p.steps and p.kind == 'ref': out.add(p.root)
                return
            for c in inner(n): go(c, n)
        go(s, {})
        return out

    def find_counter(self, inc, cnd=None):
        """the variable an increment expression steps, with its step"""
        n = unwrap(inc)
        if n['kind'] == 'BinaryOperator' and n['opcode'] == ',':
            return self.tested([x for x in map(self.find_counter, reversed(inner(n))) if x[0]], cnd)
        if n['kind'] == 'UnaryOperator' and n['opcode'] in ('++', '--'):
            p = self.simple_var(inner(n)[0])
            if p: return p, 1 if n['opcode'] == '++' else -1
        if n['kind'] == 'CompoundAssignOperator' and n['opcode'] in ('+=', '-='):
            p = self.simple_var(inner(n)[0])
            v = const_int(inner(n)[1], self)
            if p and v: return p, v if n['opcode'] == '+=' else -v
        if n['kind'] == 'CXXOperatorCallExpr':
            ins = inner(n)
            if unwrap_callee(ins[0]) in ('operator++', 'operator--'):
                p = self.simple_var(ins[1])
                if p: return p, 1 if unwrap_callee(ins[0]) == 'operator++' else -1
        if n['kind'] == 'BinaryOperator' and n['opcode'] == '=':
            p = self.simple_var(inner(n)[0])
            r = unwrap_casts(inner(n)[1])
            if p and r['kind'] == 'BinaryOperator' and r['opcode'] in ('+', '-'):
                q = self.simple_var(unwrap_casts(inner(r)[0]))
                v = const_int(inner(r)[1], self)
                if q == p and v: return p, v if r['opcode'] == '+' else -v
        return None, 0

    def find_counter_while(self, body, cnd):
        """in a while loop: the variable of the condition that the last statement (or any top-level one) steps"""
        l = self.aslist(body)
        found = []
        for st in reversed(l):
            try:
                c, s = self.find_counter(unwrap(st))
            except Exception:
                c = None
            if c: found.append((c, s))
        return self.tested(found, cnd)

    def tested(self, found, cnd):
        """of several stepped variables, the one the loop condition reads, or else the first"""
        def reads(n, v):
            if n.get('kind') == 'DeclRefExpr':
                p = self.env.get(n['referencedDecl']['id'])
                return p is not None and not p.steps and p.root == v
            return any(reads(c, v) for c in inner(n))
        for c, s in found:
            if cnd is not None and reads(cnd, c): return c, s
        return found[0] if found else (None, 0)

    def side_counters(self, body, inc, counter, step):
        """[(variable, step)] local integers that every iteration changes by the same constant, once, and nothing else changes"""
        if step != 1 or not counter: return []
        steps, other = {}, {}
        def uses(n, top, par):
            k = n.get('kind')
            if k in ('ContinueStmt', 'GotoStmt', 'LambdaExpr'): steps.setdefault('!', []).append(0); return
            if k == 'UnaryOperator' and n['opcode'] in ('++', '--') or k == 'CompoundAssignOperator' and n['opcode'] in ('+=', '-='):
                t = unwrap(inner(n)[0])
                if t['kind'] == 'DeclRefExpr':
                    c = 1 if k == 'UnaryOperator' else const_int(inner(n)[1], self)
                    i = t['referencedDecl']['id']
                    if c is not None and top: steps.setdefault(i, []).append(c if n['opcode'][0] == '+' else -c)
                    else: other[i] = 1
                    for x in inner(n)[1:]: uses(x, top, n)
                    return
            if k == 'DeclRefExpr':
                if not (par is not None and par.get('kind') == 'ImplicitCastExpr' and par.get('castKind') == 'LValueToRValue'):
                    other[n['referencedDecl']['id']] = 1
                return
            cs = inner(n)
            for j, c in enumerate(cs):
                t = top
                if k in ('IfStmt', 'ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt', 'SwitchStmt', 'CXXTryStmt'): t = False
                if k == 'ConditionalOperator' and j: t = False
                if k == 'BinaryOperator' and n['opcode'] in ('&&', '||') and j: t = False
                uses(c, t, n)
        uses(body, True, None)
        if inc is not None: uses(inc, True, None)
        if '!' in steps: return []
        out = []
        for i, l in steps.items():
            p = self.env.get(i)
            if len(l) != 1 or i in other or p is None or p.steps or p.kind != 'ref' or p.T[0] != 'int' or p.root == counter: continue
            if not p.T[2] and self.depth.get(p.root) != len(self.cstack): continue
            out.append((p.root, l[0]))
        return out

    def simple_var(self, n):
        n = unwrap_casts(n)
        if n['kind'] == 'DeclRefExpr':
            p = self.env.get(n['referencedDecl']['id'])
            if p is not None and not p.steps and p.kind == 'ref': return p.root
        return None

    def bound(self, cnd, counter, w):
        """(term, strict): upper (or lower) bound of the counter given by the loop condition"""
        if cnd is None: return None, None
        n = unwrap_casts(cnd)
        while n['kind'] == 'BinaryOperator' and n['opcode'] == '&&':
            n = unwrap_casts(inner(n)[0])
        ins = inner(n)
        op = None
        if n['kind'] == 'BinaryOperator': op, a, b = n['opcode'], ins[0], ins[1]
        elif n['kind'] == 'CXXOperatorCallExpr': op, a, b = unwrap_callee(ins[0])[8:], ins[1], (ins[2] if len(ins) > 2 else None)
        if op not in ('<', '<=', '!=', '>', '>='): return None, None
        if self.simple_var(a) == counter: t = self.lterm(b, w)
        elif self.simple_var(b) == counter: t = self.lterm(a, w)
        else: return None, None
        if t is None: return None, None
        if op == '<=' : t = '(%s + 1)' % t
        if op == '>=' : t = '(%s - 1)' % t
        return t, True

    def lterm(self, n, w):
        """logic term of a simple expression, None if it is not simple or is changed by the loop"""
        n = unwrap_casts(n)
        k = n['kind']
        if k == 'IntegerLiteral': return lit(int(n['value']))
        if k in ('DeclRefExpr', 'MemberExpr'):
            try: p = self.lpath(n)
            except Unsup: return None
            if p is None: return None
            if any(r == p.root and overlap(pt, pat(self, p.steps)) for r, pt in w): return None
            return self.logic_path(p)
        if k == 'CXXMemberCallExpr':
            m = inner(n)[0]
            if m.get('name') in ('size', 'length', 'end', 'begin'):
                try: p = self.lpath(inner(m)[0])
                except Unsup: return None
                if p is None: return None
                if m['name'] == 'begin': return '0'
                for r, pt in w:
                    if r == p.root:
                        pp = pat(self, p.steps)
                        if pt[:len(pp)] == pp and len(pt) > len(pp) and pt[len(pp)] in ('i', 'p'): continue
                        if overlap(pt, pp): return None
                if p.T[0] not in ('vec', 'str', 'omap', 'umap'): return None
                return 'length %s' % self.logic_len(p)
            return None
        if k == 'BinaryOperator' and n['opcode'] in ('+', '-', '*'):
            a, b = self.lterm(inner(n)[0], w), self.lterm(inner(n)[1], w)
            if a and b: return '(%s %s %s)' % (a, n['opcode'], b)
        if k in ('FloatingLiteral',): return None
        return None

    def lpath(self, n):
        n = unwrap_casts(n)
        if n['kind'] == 'DeclRefExpr':
            p = self.env.get(n['referencedDecl']['id'])
            if p is None and n['referencedDecl']['kind'] == 'VarDecl':
                r = self.global_var(n['referencedDecl'], n)
                if isinstance(r, Val) and r.T[0] == 'str': p = Path(r.t, 'val', (), STR)
            return p
        if n['kind'] == 'CXXThisExpr':
            return self.thisp
        if n['kind'] == 'MemberExpr' and n.get('name') not in ('first', 'second'):
            b = self.lpath(inner(n)[0])
            if b is None or b.T[0] != 'cls': return None
            return self.fieldstep(b, n)
        if n['kind'] == 'CXXOperatorCallExpr' and unwrap_callee(inner(n)[0]) == 'operator[]':
            b = self.lpath(inner(n)[1])
            if b is None or b.T[0] != 'vec': return None
            i = self.lterm(inner(n)[2], set())
            if i is None: return None
            return b.add(('i', i, b.T[1]))
        return None

    def logic_path(self, p):
        cur = p.root
        if p.kind == 'heap': cur = '(hget heap %s)' % p.root[1]
        for s in p.steps:
            if s[0] == 'f': cur = '%s.%s' % (cur, self.tr.fn(s[1], s[2]))
            elif s[0] == 'i': cur = '%s[%s]' % (cur, s[1])
            elif s[0] == 'k': cur = '(%s_get %s %s)' % (s[2], cur, s[1])
            elif s[0] == 'p': cur = '(%s_get %s (%s_keys %s)[%s])' % (s[2], cur, s[2], cur, s[1])
            else: return '(*?*)'
        return cur

    def logic_len(self, p):
        c = self.logic_path(p)
        if p.T[0] in ('omap', 'umap'): return '(%s_keys %s)' % (p.T[0], c)
        return c if re.match(r'^[\w.]+$', c) else '(%s)' % c

    def lensize(self, p):
        t = self.readraw(p)
        if p.T[0] in ('omap', 'umap'): return '%s_size %s' % (p.T[0], t)
        return 'vsize %s' % paren(t)

    def elem_at(self, p, pos):
        if p.T[0] in ('vec',): return p.add(('i', pos, p.T[1]))
        if p.T[0] == 'str': return p.add(('i', pos, S8))
        if p.T[0] in ('omap', 'umap'):
            return Path(p.root, p.kind, p.steps + (('kv', pos, p.T[0], ('tuple', (p.T[1], p.T[2]))),), ('tuple', (p.T[1], p.T[2])))
        raise Unsup('range-for over %s' % (p.T,))

    # ---------------------------------------------------------------- lvalue paths
    def readraw(self, p):
        """value of a path; array/map steps are checked program reads"""
        if p.kind == 'heap':
            cur = self.let('hget heap %s' % p.root[1])
        else:
            cur = p.root
        for s in p.steps:
            if s[0] == 'f':
                cur = '%s.%s' % (cur, self.tr.fn(s[1], s[2]))
            elif s[0] == 'i':
                cur = self.let('vget %s %s' % (paren(cur), paren(s[1])))
            elif s[0] == 'k':
                cur = self.let('%s_geta %s %s' % (s[2], paren(cur), paren(s[1])))
            elif s[0] == 'p':
                cur = self.let('%s_val_at %s %s' % (s[2], paren(cur), paren(s[1])))
            elif s[0] == 'pk':
                cur = self.let('%s_key_at %s %s' % (s[2], paren(cur), paren(s[1])))
            elif s[0] == 'kv':
                cur = self.let('(%s_key_at %s %s, %s_val_at %s %s)' % (s[2], paren(cur), paren(s[1]), s[2], paren(cur), paren(s[1])))
            elif s[0] == 't':
                vs = [self.tr.fresh('c') for _ in range(s[2])]
                self.e('let (%s) = %s in' % (', '.join(vs), cur))
                cur = vs[s[1]]
            elif s[0] == 'j':
                cur = self.let('json_field %s %s' % (paren(cur), paren(s[1])))
            elif s[0] == 'ji':
                cur = self.let('json_at %s %s' % (paren(cur), paren(s[1])))
            else:
                raise Unsup('read step %s' % s[0])
        return cur

    def read(self, p):
        t = self.readraw(p)
        if p.T[0] == 'int':
            return self.let('rd_%s %s' % (ikey(p.T), paren(t)))
        # freeze the value of a mutable variable
        if p.kind == 'ref' and (not p.steps or all(s[0] == 'f' for s in p.steps)) and p.T[0] not in ('cls',):
            return self.let(t)
        if p.kind == 'ref' and p.T[0] == 'cls' and all(s[0] == 'f' for s in p.steps):
            return self.let(t)
        return t

    def write(self, p, v, nolog=False):
        if p.kind == 'val':
            raise Unsup('write to an immutable value')
        if not nolog:
            self.writes.add((p.root if p.kind != 'heap' else 'heap', pat(self, p.steps) if p.kind != 'heap' else ()))
        def upd(cur, steps):
            if not steps:
                return v
            s = steps[0]
            if s[0] == 'f':
                fs = self.p.fields(s[1])
                w = self.tr.fn(s[1], s[2])
                nv = upd('%s.%s' % (cur, w), steps[1:])
                if len(fs) == 1: return '{ %s = %s }' % (w, nv)
                return '{ %s with %s = %s }' % (cur, w, nv)
            if s[0] == 'i':
                if len(steps) == 1: return 'vset %s %s %s' % (paren(cur), paren(s[1]), paren(v))
                x = self.let('vget %s %s' % (paren(cur), paren(s[1])))
                return 'vset %s %s %s' % (paren(cur), paren(s[1]), paren(upd(x, steps[1:])))
            if s[0] == 'k':
                if len(steps) == 1: return '%s_put %s %s %s' % (s[2], paren(cur), paren(s[1]), paren(v))
                x = self.let('%s_geta %s %s' % (s[2], paren(cur), paren(s[1])))
                return '%s_put %s %s %s' % (s[2], paren(cur), paren(s[1]), paren(upd(x, steps[1:])))
            if s[0] in ('p', 'kv'):
                if len(steps) == 1 and s[0] == 'p': return '%s_set_at %s %s %s' % (s[2], paren(cur), paren(s[1]), paren(v))
                if s[0] == 'kv':
                    if steps[1][0] != 't' or steps[1][1] != 1: raise Unsup('write to a map key')
                    steps = (s,) + steps[2:]
                    if len(steps) == 1: return '%s_set_at %s %s %s' % (s[2], paren(cur), paren(s[1]), paren(v))
                x = self.let('%s_val_at %s %s' % (s[2], paren(cur), paren(s[1])))
                return '%s_set_at %s %s %s' % (s[2], paren(cur), paren(s[1]), paren(upd(x, steps[1:])))
            if s[0] == 't':
                vs = [self.tr.fresh('c') for _ in range(s[2])]
                self.e('let (%s) = %s in' % (', '.join(vs), cur))
                vs2 = list(vs)
                vs2[s[1]] = upd(vs[s[1]], steps[1:])
                return '(%s)' % ', '.join(vs2)
            if s[0] == 'j':
                if len(steps) == 1: return 'json_set %s %s %s' % (paren(cur), paren(s[1]), paren(v))
                x = self.let('json_field %s %s' % (paren(cur), paren(s[1])))
                return 'json_set %s %s %s' % (paren(cur), paren(s[1]), paren(upd(x, steps[1:])))
            if s[0] == 'ji':
                if len(steps) == 1: return 'json_put %s %s %s' % (paren(cur), paren(s[1]), paren(v))
                raise Unsup('nested json write')
            raise Unsup('write step %s' % s[0])
        if p.kind == 'heap':
            cur = self.let('hget heap %s' % p.root[1]) if p.steps else ''
            nv = upd(cur, p.steps)
            self.e('heap <- hset heap %s %s;' % (p.root[1], paren(nv)))
            return
        nv = upd(p.root, p.steps)
        self.e('%s <- %s;' % (p.root, nv))

    def fieldstep(self, b, n):
        nm = n['name']
        cls = b.T[1]
        c = cls
        while c and not any(f.name == nm for f in self.p.fields(c)):
            c = self.p.classes[c].base if c in self.p.classes else None
        if c is None: raise Unsup('field %s of %s' % (nm, cls))
        f = [f for f in self.p.fields(c) if f.name == nm][0]
        if f.T is None: raise Unsup('field type of %s::%s' % (c, nm))
        return b.add(('f', c, nm, f.T))

    # ---------------------------------------------------------------- expressions
    def rv(self, n, want=None):
        r = self.ev(n, want=want)
        if isinstance(r, Path):
            return Val(self.read(r), r.T, r.cont)
        return r

    def coerce(self, v, t):
        if v.T == t or t is None: return v
        a, b = v.T[0], t[0]
        if a == 'int' and b == 'int': return Val(self.conv(v.t, v.T, t), t)
        if a == 'bool' and b == 'int': return Val('(b2i %s)' % paren(v.t), t)
        if a == 'int' and b == 'bool': return Val('(%s <> 0)' % v.t, t)
        if b == 'json': return self.to_json(v)
        if a == 'json':
            return self.from_json(v, t)
        if a in ('cstr', 'str') and b in ('cstr', 'str'): return Val(v.t, t)
        if a == 'int' and b in ('float', 'double'): return Val('(fl_of_int %s)' % paren(v.t), t)
        if a in ('float', 'double') and b in ('float', 'double'): return self.fcast(v, t)
        if a in ('float', 'double') and b == 'int': return Val(self.let('fl_to_int_%s %s' % (ikey(t), paren(v.t))), t)
        if b == 'ptr' and a in ('nullptr', 'ptr', 'int'): return Val(v.t, t)
        if a == 'iter' and b == 'iter': return v
        if a == 'tuple' and b == 'tuple':
            return Val(v.t, t)
        if a == 'vec' and b == 'vec' : return Val(v.t, t)
        if b == 'cls' and a == 'cls':
            return v
        raise Unsup('conversion %s -> %s' % (v.T, t))

    def fcast(self, v, t):
        if v.T == t: return v
        if v.T[0] == 'float': return Val(v.t, t)      # exact
        return Val('(fl_round32 %s)' % paren(v.t), t)

    def conv(self, t, a, b):
        (_, wa, sa), (_, wb, sb) = a, b
        if (sa == sb and wb >= wa) or (not sa and sb and wb > wa):
            return t
        if re.match(r'^\d+$', t) and int(t) < 2 ** (wb - (1 if sb else 0)): return t
        if t in self.ranges and self.ranges[t][1] < 2 ** (wb - 1): return t
        return '(to_%s %s)' % (ikey(b), paren(t))

    def arith(self, op, a, b, t):
        """a, b: terms of type t; result of type t"""
        k = t[0]
        if k in ('float', 'double'):
            nm = {'+': 'fl_add', '-': 'fl_sub', '*': 'fl_mul', '/': 'fl_div'}[op]
            if k == 'float': nm += '32'
            return '(%s %s %s)' % (nm, paren(a), paren(b))
        if k != 'int': raise Unsup('arithmetic on %s' % (t,))
        ik = ikey(t)
        signed = t[2]
        if op in ('+', '-', '*'):
            x = '%s %s %s' % (paren(a), op, paren(b))
            if op == '*' and not re.match(r'^\(?-?\d+\)?$', a) and not re.match(r'^\(?-?\d+\)?$', b): x = 'imul %s %s' % (paren(a), paren(b))
            if signed:
                return self.let('chk_%s (%s)' % (ik, x))
            return self.let('to_%s (%s)' % (ik, x))
        if op in ('/', '%'):
            if signed:
                return self.let('c%s_%s %s %s' % ('div' if op == '/' else 'mod', ik, paren(a), paren(b)))
            return self.let('u%s %s %s' % ('div' if op == '/' else 'mod', paren(a), paren(b)))
        if op in ('&', '|', '^'):
            if op == '&':
                for x, y in ((a, b), (b, a)):
                    if re.match(r'^\(?-?\d+\)?$', y):
                        m = int(y.strip('()'))
                        r = mask_term(x, m)
                        if r:
                            v = self.let('band_mask %s %s %d %d' % ((paren(x), paren(y)) + r))
                            self.ranges[v] = (0, m)
                            return v
            return self.let('%s %s %s' % ({'&': 'band', '|': 'bor', '^': 'bxor'}[op], paren(a), paren(b)))
        kb = int(b) if re.match(r'^\d+$', b) and int(b) < 31 else None
        if op == '<<':
            x = self.let('shl_k %s %d' % (paren(a), 1 << kb)) if kb is not None else self.let('shl %s %s' % (paren(a), paren(b)))
            if signed:
                # value is truncated to the type, as gcc and clang do
                self.tr.assumed.add('<< on negative signed values shifts the two\'s complement representation (gcc, clang, C++20)')
            return self.let('to_%s %s' % (ik, x)) if not signed else self.let('shl_fit_%s %s' % (ik, x))
        if op == '>>':
            if kb is not None: return self.let('shr_k %s %d' % (paren(a), 1 << kb))
            return self.let('shr %s %s' % (paren(a), paren(b)))
        raise Unsup('operator ' + op)

    def ev(self, n, want=None, discard=False):
        k = n.get('kind')
        m = getattr(self, 'ev_' + k, None)
        if m is None:
            if k in SKIP:
                return self.ev(inner(n)[0], want=want, discard=discard)
            raise Unsup('expression %s at line %s' % (k, n.get('_line')))
        if k in ('UnaryOperator', 'CXXMemberCallExpr', 'CallExpr', 'CXXOperatorCallExpr', 'BinaryOperator', 'CompoundAssignOperator'):
            return m(n, discard=discard)
        if k in ('CXXConstructExpr', 'InitListExpr', 'CXXStdInitializerListExpr', 'CXXTemporaryObjectExpr'):
            return m(n, want=want)
        return m(n)

    def ev_ImplicitCastExpr(self, n):
        ck = n.get('castKind')
        sub = inner(n)[0]
        t = None
        if ck == 'LValueToRValue':
            return self.rv(sub)
        if ck in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'ConstructorConversion', 'UserDefinedConversion', 'FunctionToPointerDecay'):
            return self.ev(sub)
        t = self.p.T.of(n)
        if ck == 'ArrayToPointerDecay':
            return self.ev(sub)
        if ck == 'IntegralCast':
            v = self.rv(sub)
            return self.coerce(v, t)
        if ck in ('IntegralToBoolean', 'PointerToBoolean'):
            v = self.rv(sub)
            return Val('(%s <> 0)' % v.t, BOOL)
        if ck == 'FloatingToBoolean':
            raise Unsup(ck)
        if ck == 'IntegralToFloating':
            v = self.coerce(self.rv(sub), S64) if False else self.rv(sub)
            if v.T[0] == 'bool': v = self.coerce(v, S32)
            return Val('(%s %s)' % ('fl_of_int32' if t[0] == 'float' else 'fl_of_int', paren(v.t)), t)
        if ck == 'FloatingToIntegral':
            v = self.rv(sub)
            return Val(self.let('fl_to_int_%s %s' % (ikey(t), paren(v.t))), t)
        if ck == 'FloatingCast':
            return self.fcast(self.rv(sub), t)
        if ck == 'NullToPointer':
            return Val('0', ('nullptr',))
        if ck == 'ToVoid':
            self.ev(sub, discard=True)
            return Val('()', VOID)
        raise Unsup('cast %s at line %s' % (ck, n.get('_line')))
    ev_CStyleCastExpr = ev_ImplicitCastExpr
    ev_CXXStaticCastExpr = ev_ImplicitCastExpr
    def ev_CXXFunctionalCastExpr(self, n):
        if n.get('castKind') == 'ConstructorConversion' or n.get('castKind') == 'NoOp':
            return self.ev(inner(n)[0])
        return self.ev_ImplicitCastExpr(n)

    def ev_IntegerLiteral(self, n): return Val(lit(int(n['value'])), self.p.T.of(n))
    def ev_CXXBoolLiteralExpr(self, n): return Val('true' if n['value'] else 'false', BOOL)
    def ev_CharacterLiteral(self, n):
        v = int(n['value'])
        if v > 127: v -= 256
        return Val(lit(v), S8)
    def ev_FloatingLiteral(self, n):
        t = self.p.T.of(n)
        v = n['value']
        f = float(v)
        if f == int(f): return Val('(fl_of_int %s)' % lit(int(f)), t)
        return Val('(fl_lit "%s")' % v if False else self.tr_fl_lit(v), t)
    def tr_fl_lit(self, v):
        nm = 'fl_lit_' + re.sub(r'\W', '_', repr(float(v)))
        self.tr.fllits[nm] = float(v)
        return nm
    def ev_StringLiteral(self, n):
        import ast as pyast
        s = n['value']
        try: s2 = pyast.literal_eval(s)
        except Exception: s2 = s.strip('"')
        return Val(self.tr.string_lit(s2), ('cstr',))
    def ev_CXXNullPtrLiteralExpr(self, n): return Val('0', ('nullptr',))
    ev_GNUNullExpr = ev_CXXNullPtrLiteralExpr
    def ev_CXXThisExpr(self, n): return self.thisp
    def ev_CXXThrowExpr(self, n):
        self.throws = True
        self.e('raise Throw;')
        return Val('()', VOID)
    def ev_CXXScalarValueInitExpr(self, n):
        t = self.p.T.of(n)
        return Val(self.value_init(t), t)
    ev_ImplicitValueInitExpr = ev_CXXScalarValueInitExpr

    def ev_UnaryExprOrTypeTraitExpr(self, n):
        if n.get('name') != 'sizeof': raise Unsup('trait')
        if 'argType' in n:
            t = self.p.T.parse(n['argType'].get('desugaredQualType') or n['argType']['qualType'])
        else:
            t = self.p.T.of(unwrap(inner(n)[0]))
        return Val(self.sizeof(t), U64)

    def sizeof(self, t):
        if t[0] == 'int': return str(t[1] // 8)
        if t[0] == 'bool': return '1'
        if t[0] == 'float': return '4'
        if t[0] in ('double', 'ptr'): return '8'
        return self.let('any_size ()')

    def ev_DeclRefExpr(self, n):
        d = n['referencedDecl']
        p = self.env.get(d['id'])
        if p is not None: return p
        k = d['kind']
        if k == 'VarDecl':
            return self.global_var(d, n)
        raise Unsup('reference to %s %s' % (k, d.get('name')))

    def global_var(self, d, n):
        nm = d['name']
        t = self.p.T.of(n)
        if nm == 'npos': return Val('18446744073709551615', U64)
        decl = self.p.statics.get(nm) or self.p.globals.get(nm) or self.p.byid.get(d['id'])
        if decl is None: raise Unsup('global %s' % nm)
        if t[0] == 'str':
            s = find_string(decl)
            if s is not None: return Val(self.tr.string_lit(s), STR)
        w = self.tr.ct.global_model(nm, t, self)
        if w: return Path(w, 'val', (), t)
        for c in inner(decl):
            try:
                v = const_int(c, self)
                if v is not None: return Val(lit(v), t)
            except Exception: pass
        raise Unsup('global %s' % nm)

    def ev_MemberExpr(self, n):
        b = inner(n)[0]
        nm = n.get('name')
        if n['type']['qualType'] == '<bound member function type>':
            raise Unsup('bound member')
        bt = None
        r = self.ev(b)
        if isinstance(r, Val) and r.T[0] == 'ptr':
            r = Path(('heap', r.t), 'heap', (), r.T[1])
        if isinstance(r, Path) and r.T[0] == 'ptr':
            v = self.read(r)
            r = Path(('heap', v), 'heap', (), r.T[1])
        if isinstance(r, Path):
            if r.T[0] == 'cls': return self.fieldstep(r, n)
            if r.T[0] == 'tuple' and nm in ('first', 'second'):
                i = 0 if nm == 'first' else 1
                if r.steps and r.steps[-1][0] == 'kv':
                    s = r.steps[-1]
                    bp = Path(r.root, r.kind, r.steps[:-1], None)
                    return bp.add(('pk' if i == 0 else 'p', s[1], s[2], r.T[1][i]))
                return r.add(('t', i, 2, r.T[1][i]))
        if isinstance(r, Val):
            if r.T[0] == 'tuple' and nm in ('first', 'second'):
                vs = [self.tr.fresh('c') for _ in r.T[1]]
                self.e('let (%s) = %s in' % (', '.join(vs), r.t))
                i = 0 if nm == 'first' else 1
                return Val(vs[i], r.T[1][i])
            if r.T[0] == 'cls':
                x = self.let(r.t)
                return self.fieldstep(Path(x, 'val', (), r.T), n)
        if nm == 'npos': return Val('18446744073709551615', U64)
        raise Unsup('member %s at line %s' % (nm, n.get('_line')))

    # ---- operators
    def ev_UnaryOperator(self, n, discard=False):
        op = n['opcode']
        sub = inner(n)[0]
        if op in ('++', '--'):
            r = self.ev(sub)
            if not isinstance(r, Path): raise Unsup('++ on a value')
            return self.incdec(r, op, n.get('isPostfix'), discard)
        if op == '!':
            return Val('(not %s)' % paren(self.tobool(self.rv(sub))), BOOL)
        if op == '-':
            v = self.rv(sub)
            if v.T[0] in ('float', 'double'): return Val('(fl_neg %s)' % paren(v.t), v.T)
            if re.match(r'^\d+$', v.t): return Val('(-%s)' % v.t, v.T) if v.T[2] else Val(self.let('to_%s (-%s)' % (ikey(v.T), v.t)), v.T)
            return Val(self.let(('chk_%s (- %s)' if v.T[2] else 'to_%s (- %s)') % (ikey(v.T), paren(v.t))), v.T)
        if op == '+': return self.rv(sub)
        if op == '~':
            v = self.rv(sub)
            x = 'bnot %s' % paren(v.t)
            return Val(self.let(x if v.T[2] else 'to_%s (%s)' % (ikey(v.T), x)), v.T)
        if op == '*':
            r = self.ev(sub)
            v = r if isinstance(r, Val) else Val(self.read(r), r.T, r.cont)
            if v.T[0] == 'ptr': return Path(('heap', v.t), 'heap', (), v.T[1])
            if r is self.thisp: return r
        if op == '*' and unwrap(sub)['kind'] == 'CXXThisExpr': return self.thisp
        raise Unsup('unary %s at line %s' % (op, n.get('_line')))

    def incdec(self, r, op, post, discard):
        v = self.read(r)
        d = '+ 1' if op == '++' else '- 1'
        if r.T[0] == 'int':
            if r.T[2] and r.T[1] >= 32:
                if self.counter_site(r):
                    nv = self.let('acc_%s (%s %s)' % (ikey(r.T), v, d))
                else:
                    nv = self.let('chk_%s (%s %s)' % (ikey(r.T), v, d))
            else:
                nv = self.let('to_%s (%s %s)' % (ikey(r.T), v, d))
        elif r.T[0] == 'iter':
            nv = self.let('it_step (%s %s)' % (v, d))
        elif r.T[0] in ('float', 'double'):
            nv = self.arith('+' if op == '++' else '-', v, '(fl_of_int 1)', r.T)
        else: raise Unsup('++ on %s' % (r.T,))
        self.write(r, nv)
        if discard: return Val('()', VOID)
        if post: return Val(v, r.T, r.cont)
        return r if r.T[0] != 'iter' else Val(nv, r.T, r.cont)

    def counter_site(self, r):
        """accumulating counters of a model (element or member, or a function whose contract says so)"""
        if self.c and self.c.counters:
            self.tr.assumed.add('accumulating counters (numbers of trainings, contents, degrees) stay within int')
            return True
        if r.kind == 'ref' and not r.steps: return False
        self.tr.assumed.add('accumulating counters (numbers of trainings, contents, degrees) stay within int')
        return True

    def ev_BinaryOperator(self, n, discard=False):
        op = n['opcode']
        a, b = inner(n)
        if op == '=':
            y = unwrap_casts(b)
            if y['kind'] == 'BinaryOperator' and y['opcode'] in ('+', '-') and same_expr(a, inner(y)[0]):
                t = self.p.T.of(y)
                if t == self.p.T.of(a) and t[0] == 'int':      # x = x + e is x += e
                    return self.ev_CompoundAssignOperator(dict(n, opcode=y['opcode'] + '=', inner=[a, inner(y)[1]], computeResultType=y['type']))
            p = None
            v = None
            # rhs first (C++17 order; the operands have no conflicting effects)
            r = self.rv(b)
            p = self.ev(a)
            if not isinstance(p, Path): raise Unsup('assignment to a value')
            cont = r.cont
            r = self.coerce(r, p.T)
            self.write(p, r.t)
            if p.T[0] == 'iter' and cont is not None: p.cont = cont
            return p
        if op in ('&&', '||'):
            x = self.rv(a)
            x = self.tobool(x)
            old = self.block()
            y = self.tobool(self.rv(b))
            bl = self.endblock(old)
            if not bl:
                return Val('(%s %s %s)' % (paren(x), op, paren(y)), BOOL)
            t = self.tr.fresh('b')
            self.e('let %s = [@vc:sp] if %s then begin' % (t, x if op == '&&' else 'not (%s)' % x))
            self.put(bl)
            self.e(y)
            self.e('end else %s in' % ('false' if op == '&&' else 'true'))
            return Val(t, BOOL)
        if op == ',':
            self.ev(a, discard=True)
            return self.ev(b)
        x, y = self.rv(a), self.rv(b)
        if op in ('==', '!=', '<', '>', '<=', '>='):
            return self.compare(op, x, y)
        t = self.p.T.of(n)
        if op in ('<<', '>>'):
            return Val(self.arith(op, x.t, y.t, t), t)
        x, y = self.coerce(x, t), self.coerce(y, t)
        return Val(self.arith(op, x.t, y.t, t), t)

    def compare(self, op, x, y):
        k = x.T[0]
        if k == 'int' or k in ('ptr', 'iter', 'nullptr'):
            o = {'==': '=', '!=': '<>'}.get(op, op)
            return Val('(%s %s %s)' % (paren(x.t), o, paren(y.t)), BOOL)
        if k in ('float', 'double'):
            f = {'==': 'fl_eq %s %s', '!=': 'not (fl_eq %s %s)', '<': 'fl_lt %s %s', '>': 'fl_gt %s %s', '<=': 'fl_le %s %s', '>=': 'fl_ge %s %s'}[op]
            return Val('(%s)' % (f % (paren(x.t), paren(y.t))), BOOL)
        if k == 'bool':
            r = 'beq %s %s' % (paren(x.t), paren(y.t))
            return Val('(%s)' % r if op == '==' else '(not (%s))' % r, BOOL)
        if k in ('str', 'cstr', 'vec'):
            r = self.let('seq_eq %s %s' % (paren(x.t), paren(y.t)))
            if op == '==': return Val(r, BOOL)
            if op == '!=': return Val('(not %s)' % r, BOOL)
        raise Unsup('comparison %s on %s' % (op, x.T))

    def ev_CompoundAssignOperator(self, n, discard=False):
        op = n['opcode'][:-1]
        a, b = inner(n)
        y = self.rv(b)
        p = self.ev(a)
        if not isinstance(p, Path): raise Unsup('compound assignment')
        x = Val(self.read(p), p.T)
        ct = n.get('computeResultType') or n.get('computeLHSType')
        t = self.p.T.parse(ct.get('desugaredQualType') or ct['qualType']) if ct else p.T
        x = self.coerce(x, t)
        if op not in ('<<', '>>'): y = self.coerce(y, t)
        if op in ('+', '-') and t[0] == 'int' and t[2] and t[1] >= 32 and (p.steps or (self.c and self.c.counters)) and self.counter_site(p):
            r = self.let('acc_%s (%s %s %s)' % (ikey(t), paren(x.t), op, paren(y.t)))
        else:
            r = self.arith(op, x.t, y.t, t)
        r = self.coerce(Val(r, t), p.T)
        self.write(p, r.t)
        return p

    def ev_ConditionalOperator(self, n):
        c, a, b = inner(n)
        cv = self.cond(c)
        t = self.p.T.of(n)
        if t[0] == 'cstr': t = STR
        old = self.block()
        x = self.coerce(self.rv(a, want=t), t)
        b1 = self.endblock(old)
        old = self.block()
        y = self.coerce(self.rv(b, want=t), t)
        b2 = self.endblock(old)
        r = self.tr.fresh('c')
        self.e('let %s = [@vc:sp] if %s then begin' % (r, cv))
        self.put(b1)
        self.e(x.t)
        self.e('end else begin')
        self.put(b2)
        self.e(y.t)
        self.e('end in')
        return Val(r, t)

    def ev_CXXDefaultArgExpr(self, n):
        raise Unsup('default argument')

    def ev_InitListExpr(self, n, want=None):
        t = want or self.p.T.of(n)
        ins = inner(n)
        if t[0] == 'vec':
            vs = [self.coerce(self.rv(x, want=t[1]), t[1]).t for x in ins]
            r = '(empty: %s)' % why(t)
            for v in vs: r = '(snoc %s %s)' % (r, paren(v))
            return Val(r, t)
        if t[0] == 'int' and len(ins) == 1: return self.rv(ins[0])
        if t[0] == 'str' and not ins: return Val('(empty: seq int)', STR)
        if not ins: return Val(self.value_init(t), t)
        raise Unsup('initializer list for %s' % (t,))
    def ev_CXXStdInitializerListExpr(self, n, want=None):
        t = self.p.T.of(n)
        arr = unwrap(inner(n)[0])
        return self.ev_InitListExpr(arr, want=t)

    # ---- constructors
    def ev_CXXConstructExpr(self, n, want=None):
        t = self.p.T.of(n)
        args = inner(n)
        ctt = n.get('ctorType', {}).get('qualType', '')
        k = t[0]
        if k == 'json' or k == 'json_ref':
            return self.json_construct(n, args)
        if k in ('iter', 'tuple', 'ptr') and len(args) == 1:
            r = self.ev(args[0])
            if isinstance(r, Path) : r = Val(self.read(r), r.T, r.cont)
            if k == 'iter' and r.T[0] == 'iter': return r
            if k == 'tuple' and r.T[0] == 'tuple': return r
        if k == 'tuple':
            vs = [self.coerce(self.rv(a), x).t for a, x in zip(args, t[1])]
            if len(vs) == len(t[1]): return Val('(%s)' % ', '.join(vs), t)
            if not args: return Val(self.value_init(t), t)
        real = [a for a in args if a['kind'] != 'CXXDefaultArgExpr']
        if k == 'cls':
            f = self.p.ctor(t[1], ctt)
            if len(real) == 1 and self.p_of(real[0]) == t and (f is None or f.body is None):
                r = self.rv(real[0])       # copy / move
                return Val(r.t, t)
            if f is None: raise Unsup('constructor %s %s' % (t[1], ctt))
            if f.body is None and not args:
                return Val(self.value_init(t), t)
            return self.call(f, None, args)
        if k == 'str':
            if not real: return Val('(empty: seq int)', STR)
            if len(real) == 1:
                v = self.rv(real[0])
                if v.T[0] in ('str', 'cstr'): return Val(v.t, STR)
            if len(real) == 2:
                a, b = self.rv(real[0]), self.rv(real[1])
                if a.T[0] == 'int' and b.T[0] == 'int':
                    return Val(self.letx('vmake %s %s' % (paren(self.coerce(a, U64).t), paren(self.coerce(b, S8).t))), STR)
                if a.T[0] == 'iter': return self.range_ctor(a, b, t)
        if k == 'vec':
            if not real: return Val(self.value_init(t), t)
            if len(real) == 1:
                v = self.rv(real[0], want=t)
                if v.T == t: return v
                if v.T[0] == 'int':
                    d = self.value_init(t[1])
                    return Val(self.letx('vmake %s %s' % (paren(self.coerce(v, U64).t), paren(d))), t)
                if v.T[0] == 'vec': return Val(v.t, t)
            if len(real) == 2:
                a = self.rv(real[0])
                b = self.rv(real[1])
                if a.T[0] == 'iter': return self.range_ctor(a, b, t)
                return Val(self.letx('vmake %s %s' % (paren(self.coerce(a, U64).t), paren(self.coerce(b, t[1]).t))), t)
        if k in ('omap', 'umap'):
            if not real: return Val(self.value_init(t), t)
            if len(real) == 1:
                v = self.rv(real[0])
                if v.T == t: return v
        if k == 'stream':
            return self.stream_ctor(t, real)
        raise Unsup('construction of %s from %d arguments at line %s' % (tkey(t), len(real), n.get('_line')))
    ev_CXXTemporaryObjectExpr = ev_CXXConstructExpr

    def p_of(self, n):
        try: return self.p.T.of(n)
        except TypeErr: return None

    def range_ctor(self, a, b, t):
        if a.cont is None or b.cont is None: raise Unsup('iterator range')
        if (a.cont.root, pat(self, a.cont.steps)) != (b.cont.root, pat(self, b.cont.steps)): raise Unsup('iterators of different containers')
        c = self.readraw(a.cont)
        return Val(self.let('vslice %s %s %s' % (paren(c), paren(a.t), paren(b.t))), t)

    def ev_CXXNewExpr(self, n):
        t = self.p.T.of(n)[1]
        ins = inner(n)
        v = self.rv(ins[0])
        self.tr.uses_heap = True
        r = self.tr.fresh('new')
        if t != ('cls', 'Discriminator'): raise Unsup('new of %s' % (t,))
        self.e('let %s = heap_new %s in' % (r, paren(v.t)))
        self.writes.add(('heap', ()))
        return Val(r, ('ptr', t))

    # ---- calls of library (repository) functions
    def default_arg(self, f, i):
        p = f.params[i]
        ins = inner(p)
        if ins: return ins[0]
        g = f.tmpl if isinstance(f.tmpl, NS) else None
        if g is not None and inner(g.params[i]): return inner(g.params[i])[0]
        # out-of-line / redeclaration: same name and class
        for h in self.p.funcs:
            if h.cls == f.cls and h.name == f.name and len(h.params) == len(f.params) and inner(h.params[i]):
                return inner(h.params[i])[0]
        raise Unsup('default argument of %s' % f.key)

    def call(self, f, thisp, args):
        """call repository function f; thisp: Path of the object or None; args: AST nodes"""
        if f.key is None: raise Unsup('signature of %s: %s' % (f.name, getattr(f, 'err', '')))
        ev = []
        for i, a in enumerate(args):
            if a['kind'] == 'CXXDefaultArgExpr':
                a = self.default_arg(f, i)
            if f.byref[i] == 'ref':
                r = self.ev(a)
                if not isinstance(r, Path): raise Unsup('reference to a temporary')
                ev.append(r)
            else:
                r = self.ev(a, want=f.PT[i])
                if f.byref[i] == 'cref' and isinstance(r, Path) and r.T == f.PT[i]:
                    ev.append(r)
                else:
                    if isinstance(r, Path): r = Val(self.read(r), r.T, r.cont)
                    ev.append(self.coerce(r, f.PT[i]))
        return self.call_vals(f, thisp, ev)

    def call_vals(self, f, thisp, ev):
        c = self.tr.ct.find(f)
        if c is not None and not c.inline and not self.tr.choice.get(('inline', f.key)):
            if len(c.params) == len(f.params):
                return self.call_contract(f, thisp, ev)
        return self.call_inline(f, thisp, ev, c)

    def call_contract(self, f, thisp, ev):
        r = self.tr.need(f)
        self.callees[r.name] = r
        args = []
        after = []
        def pass_ref(p):
            if p.kind == 'ref' and not p.steps:
                return p.root, None
            x = self.tr.fresh('io')
            self.e('let ref %s = %s in' % (x, self.readraw(p)))
            return x, p
        back = []
        if not f.static and f.kind != 'CXXConstructorDecl':
            nm, p = pass_ref(thisp)
            args.append(nm)
            if any(w[0] == 'this' for w in r.writes):
                back.append(('this', nm, p, thisp))
        for i, a in enumerate(ev):
            if f.byref[i] == 'ref':
                nm, p = pass_ref(a)
                args.append(nm)
                ws = [w for w in r.writes if w[0] == 'p_' + r.contract.params[i]]
                if ws: back.append(('p_' + r.contract.params[i], nm, p, a))
            else:
                args.append(paren(self.read(a) if isinstance(a, Path) else a.t))
        if not args: args = ['()']
        calltxt = '%s %s' % (r.name, ' '.join(args))
        # ghost statements of the caller's contract after this call (also when it throws)
        hooks = []
        for rx, hs in (self.c.calls.items() if self.c else ()):
            if rx.startswith('<'):   # before the call
                if re.search(rx[1:], f.key):
                    for h in self.acthooks(hs):
                        self.e(self.ctext(h, self.locals()) + ';')
                continue
            if re.search(rx, f.key):
                lab = self.tr.fresh('Call')
                self.e('label %s in' % lab)
                key = [st[1] for st in (thisp.steps if isinstance(thisp, Path) else ()) if st[0] == 'k']
                for h in self.acthooks(hs):
                    if '$key' in h and not key: continue
                    hooks.append(self.ctext(self.oldrw(h.replace('$key', key[-1] if key else ''), 'call', lab), self.locals()))
        for rn, nm, p, a in back:
            for w in r.writes:
                if w[0] == rn:
                    if a.kind == 'heap': self.writes.add(('heap', ()))
                    else: self.writes.add((a.root, pat(self, a.steps) + w[1]))
        if any(w[0] == 'heap' for w in r.writes): self.writes.add(('heap', ()))
        if any(w[0] == 'fs' for w in r.writes): self.writes.add(('fs', ()))
        wb = [(nm, p) for rn, nm, p, a in back if p is not None]
        if r.throws:
            self.throws = True
            if wb:
                old = self.block()
                for nm, p in wb: self.write(p, nm, nolog=True)
                for h in hooks:
                    if '$result' not in h: self.e(h + ';')
                b = self.endblock(old)
                x = self.tr.fresh('t')
                self.e('let %s = begin try %s with Throw -> begin' % (x, calltxt))
                self.put(b)
                self.e('raise Throw end end end in')
            else:
                x = self.let(calltxt)
        else:
            x = self.let(calltxt)
        for nm, p in wb: self.write(p, nm, nolog=True)
        for h in hooks: self.e(h.replace('$result', x) + ';')
        if f.RT == VOID:
            return Val('()', VOID)
        if f.RT[0] == 'int': x = self.let('rd_%s %s' % (ikey(f.RT), x))
        return Val(x, f.RT)

    def call_inline(self, f, thisp, ev, c):
        if f.body is None: raise Unsup('no body for %s' % f.key)
        if f.id in self.stack: raise Unsup('recursion in %s' % f.key)
        self.tr.inlined.setdefault(f.key, set()).add(self.f.key)
        self.stack.append(f.id)
        senv, sthis, sctor = dict(self.env), getattr(self, 'thisp', None), None
        sscope = self.scope
        sthisT = self.thisT
        self.scope = list(self.scope)
        ctor = f.kind == 'CXXConstructorDecl'
        if c is not None and c.loops:
            self.loopspec.append(c.loops); self.loopno.append(0)
        spm = self.pmap
        self.pmap = dict(self.pmap)
        for i, p in enumerate(f.params):
            nm = p.get('name', 'p%d' % i)
            a = ev[i]
            cn = c.params[i] if c is not None and len(c.params) == len(f.params) else None
            if isinstance(a, Path) and f.byref[i] in ('ref', 'cref'):
                if f.byref[i] == 'cref' and a.steps:
                    # read once: a const reference to an element
                    x = self.let(self.readraw(a), 'p_%s_' % nm)
                    self.env[p['id']] = Path(x, 'val', (), f.PT[i])
                    if cn: self.pmap[cn] = x
                else:
                    self.env[p['id']] = a
                    if cn and not a.steps: self.pmap[cn] = a.root
            else:
                v = self.read(a) if isinstance(a, Path) else a.t
                if f.byref[i] == 'val':
                    wn = self.tr.fresh('l_%s_' % nm)
                    self.e('let ref %s = %s in' % (wn, v))
                    self.env[p['id']] = Path(wn, 'ref', (), f.PT[i], a.cont)
                    self.scope.append((nm, wn, f.PT[i]))
                    if cn: self.pmap[cn] = wn
                else:
                    x = self.let(v, 'p_%s_' % nm)
                    self.env[p['id']] = Path(x, 'val', (), f.PT[i], a.cont)
                    self.scope.append((nm, x, f.PT[i]))
                    if cn: self.pmap[cn] = x
        res = None
        old = self.block()
        if ctor:
            root = self.tr.fresh('obj')
            self.thisp = Path(root, 'ref', (), ('cls', f.cls))
            self.thisstack = getattr(self, 'thisstack', []) + [self.thisp]
            self.thisT = ('cls', f.cls)
            if not c or not c.loops:
                pass
            self.ctor_body(f)
            self.e(root)
            self.thisstack.pop()
            rt = ('cls', f.cls)
        else:
            if not f.static:
                if thisp.kind != 'heap' and any(s[0] != 'f' for s in thisp.steps):
                    thisp = thisp
                self.thisp = thisp
            self.body(f, toplevel=False)
            rt = f.RT
        b = self.endblock(old)
        x = self.tr.fresh('t')
        if rt == VOID:
            self.e('begin'); self.put(b); self.e('end;')
            res = Val('()', VOID)
        else:
            self.e('let %s = begin' % x); self.put(b); self.e('end in')
            res = Val(x, rt)
        if c is not None and c.loops:
            self.loopspec.pop(); self.loopno.pop()
        self.pmap = spm
        self.env = senv
        self.scope = sscope
        self.thisp = sthis
        self.thisT = sthisT
        self.stack.pop()
        return res

    # ---- member calls
    def ev_CXXMemberCallExpr(self, n, discard=False):
        me = unwrap(inner(n)[0])
        args = inner(n)[1:]
        nm = me.get('name', '')
        obj = inner(me)[0]
        mid = me.get('referencedMemberDecl')
        d = self.p.byid.get(mid)
        if d is not None and '_fn' in d:
            f = d['_fn']
            r = self.ev(obj)
            if isinstance(r, Val) and r.T[0] == 'ptr':
                r = Path(('heap', r.t), 'heap', (), r.T[1])
            elif isinstance(r, Path) and r.T[0] == 'ptr':
                v = self.read(r)
                r = Path(('heap', v), 'heap', (), r.T[1])
            if isinstance(r, Val):
                if f.static: r = None
                else:
                    x = self.tr.fresh('tmp')
                    self.e('let ref %s = %s in' % (x, r.t))
                    r = Path(x, 'ref', (), r.T)
            if r is not None and r.kind == 'val' and not f.static:
                if f.isconst or True:
                    x = self.tr.fresh('tmp')
                    self.e('let ref %s = %s in' % (x, self.readraw(r)))
                    r = Path(x, 'ref', (), r.T)
            return self.call(f, r, args)
        r = self.ev(obj)
        if isinstance(r, Path) and r.T[0] == 'ptr':
            v = self.read(r)
            r = Path(('heap', v), 'heap', (), r.T[1])
        return self.builtin_method(r, nm, args, n, discard)

    def pathify(self, r):
        if isinstance(r, Path): return r
        x = self.let(r.t)
        return Path(x, 'val', (), r.T)

    def builtin_method(self, r, nm, args, n, discard):
        r = self.pathify(r)
        k = r.T[0]
        args = [a for a in args if a['kind'] != 'CXXDefaultArgExpr']
        if k in ('vec', 'str'):
            et = S8 if k == 'str' else r.T[1]
            if nm in ('size', 'length'): return Val(self.let('vsize %s' % paren(self.readraw(r))), U64)
            if nm == 'empty': return Val('(%s = 0)' % self.let('vsize %s' % paren(self.readraw(r))), BOOL)
            if nm == 'clear': self.write(r, self.value_init(r.T)); return Val('()', VOID)
            if nm in ('begin', 'cbegin'): return Val('0', ('iter', r.T), r)
            if nm in ('end', 'cend'): return Val(self.let('vsize %s' % paren(self.readraw(r))), ('iter', r.T), r)
            if nm in ('push_back', 'emplace_back'):
                v = self.coerce(self.rv(args[0], want=et), et)
                c = self.readraw(r)
                self.write(r, 'snoc %s %s' % (paren(c), paren(v.t)))
                return Val('()', VOID)
            if nm == 'resize':
                m = self.coerce(self.rv(args[0]), U64)
                d = self.coerce(self.rv(args[1]), et).t if len(args) > 1 else self.value_init(et)
                c = self.readraw(r)
                x = self.letx('vresize %s %s %s' % (paren(c), paren(m.t), paren(d)))
                self.write(r, x)
                return Val('()', VOID)
            if nm == 'reserve':
                self.rv(args[0]); return Val('()', VOID)
            if nm == 'at':
                i = self.coerce(self.rv(args[0]), U64)
                c = self.readraw(r)
                self.throws = True
                i = self.let(i.t)
                self.e('if not (%s < vsize %s) then raise Throw;' % (i, paren(c)))
                return r.add(('i', i, et))
            if nm in ('front', 'back'):
                i = '0' if nm == 'front' else self.let('vsize %s - 1' % paren(self.readraw(r)))
                return r.add(('i', i, et))
            if nm == 'assign' and len(args) == 2:
                m, v = self.coerce(self.rv(args[0]), U64), self.coerce(self.rv(args[1]), et)
                x = self.letx('vmake %s %s' % (paren(m.t), paren(v.t)))
                self.write(r, x)
                return Val('()', VOID)
        if k == 'str':
            s = self.readraw(r)
            if nm == 'substr':
                a = self.coerce(self.rv(args[0]), U64) if args else Val('0', U64)
                b = self.coerce(self.rv(args[1]), U64) if len(args) > 1 else Val('18446744073709551615', U64)
                at = self.let(a.t)
                self.throws = True
                self.e('if %s > vsize %s then raise Throw;' % (at, paren(s)))
                return Val(self.let('ssubstr %s %s %s' % (paren(s), at, paren(b.t))), STR)
            if nm == 'compare' and len(args) == 1:
                b = self.rv(args[0])
                return Val(self.let('scompare %s %s' % (paren(s), paren(b.t))), S32)
            if nm in ('find', 'rfind'):
                b = self.rv(args[0])
                pos = self.coerce(self.rv(args[1]), U64).t if len(args) > 1 else ('0' if nm == 'find' else '18446744073709551615')
                if b.T[0] == 'int':
                    return Val(self.let('s%s_char %s %s %s' % (nm, paren(s), paren(b.t), paren(pos))), U64)
                return Val(self.let('s%s_str %s %s %s' % (nm, paren(s), paren(b.t), paren(pos))), U64)
            if nm == 'replace' and len(args) == 3:
                a, b, c = self.coerce(self.rv(args[0]), U64), self.coerce(self.rv(args[1]), U64), self.rv(args[2])
                at = self.let(a.t)
                self.throws = True
                self.e('if %s > vsize %s then raise Throw;' % (at, paren(s)))
                x = self.let('sreplace %s %s %s %s' % (paren(s), at, paren(b.t), paren(c.t)))
                self.write(r, x)
                return r
            if nm == 'append':
                v = self.rv(args[0])
                self.write(r, '%s ++ %s' % (paren(s), paren(v.t)))
                return r
            if nm == 'c_str': return Val(s, STR)
        if k in ('omap', 'umap'):
            kt, vt = r.T[1], r.T[2]
            m = self.readraw(r)
            if nm == 'size': return Val(self.let('%s_size %s' % (k, paren(m))), U64)
            if nm == 'empty': return Val('(%s = 0)' % self.let('%s_size %s' % (k, paren(m))), BOOL)
            if nm in ('begin', 'cbegin'): return Val('0', ('iter', r.T), r)
            if nm in ('end', 'cend'): return Val(self.let('%s_size %s' % (k, paren(m))), ('iter', r.T), r)
            if nm == 'clear': self.write(r, self.value_init(r.T)); return Val('()', VOID)
            if nm == 'find':
                v = self.coerce(self.rv(args[0]), kt)
                return Val(self.let('%s_find %s %s' % (k, paren(m), paren(v.t))), ('iter', r.T), r)
            if nm == 'count':
                v = self.coerce(self.rv(args[0]), kt)
                return Val(self.let('b2i (%s_mem %s %s)' % (k, paren(m), paren(v.t))), U64)
            if nm == 'at':
                v = self.coerce(self.rv(args[0]), kt)
                kv = self.let(v.t)
                self.throws = True
                self.e('if not (%s_mem %s %s) then raise Throw;' % (k, paren(m), kv))
                return r.add(('k', kv, k, vt))
            if nm in ('insert', 'emplace'):
                pr = self.rv(args[-1])
                if pr.T[0] != 'tuple': raise Unsup('insert')
                a, b = self.tr.fresh('c'), self.tr.fresh('c')
                self.e('let (%s, %s) = %s in' % (a, b, pr.t))
                x = self.let('%s_insert %s %s %s' % (k, paren(self.readraw(r)), a, b))
                self.write(r, x)
                return Val('()', VOID)
            if nm == 'erase':
                v = self.rv(args[0])
                if v.T[0] != 'iter':
                    x = self.let('%s_erase %s %s' % (k, paren(m), paren(self.coerce(v, kt).t)))
                    self.write(r, x)
                    return Val('0', U64)
            if nm == 'swap':
                o = self.ev(args[0])
                v = self.read(o) if isinstance(o, Path) else o.t
                vv = self.let(v)
                mm = self.let(m)
                if isinstance(o, Path): self.write(o, mm)
                if r.kind != 'val': self.write(r, vv)
                return Val('()', VOID)
        if k == 'json': return self.json_method(r, nm, args, n)
        if k == 'iter': return self.iter_method(r, nm, args, n)
        if k == 'stream': return self.stream_method(r, nm, args, n)
        if nm == 'operator bool' and r.T[0] == 'bool': return r   # vector<bool>::reference
        raise Unsup('method %s of %s at line %s' % (nm, tkey(r.T), n.get('_line')))

    # ---- operator calls
    def ev_CXXOperatorCallExpr(self, n, discard=False):
        ins = inner(n)
        op = unwrap_callee(ins[0])
        cal = callee_decl(ins[0])
        d = self.p.byid.get(cal['id']) if cal else None
        args = ins[1:]
        if d is not None and '_fn' in d:
            f = d['_fn']
            if f.implicit and op == 'operator=':
                return self.assign(args)
            if f.cls and not f.static:
                r = self.ev(args[0])
                if isinstance(r, Val) or r.kind == 'val':
                    v = r.t if isinstance(r, Val) else self.readraw(r)
                    x = self.tr.fresh('tmp')
                    self.e('let ref %s = %s in' % (x, v))
                    r = Path(x, 'ref', (), r.T)
                return self.call(f, r, args[1:])
            return self.call(f, None, args)
        o = op[8:]
        if o == '=':
            return self.assign(args)
        if o == '[]':
            return self.subscript(args)
        if o == '<<':
            return self.stream_out(args, n)
        if o in ('->', '*'):
            r = self.ev(args[0])
            return self.deref(r)
        if o in ('++', '--'):
            r = self.ev(args[0])
            return self.incdec(r, o, len(args) > 1, discard)
        if o in ('==', '!=', '<', '>', '<=', '>='):
            x, y = self.rv(args[0]), self.rv(args[1])
            if o in ('<', '>', '<=', '>=') and x.T[0] != 'iter': raise Unsup('operator %s' % o)
            if x.T[0] in ('omap', 'umap'):
                raise Unsup('map comparison')
            if x.T[0] == 'json' or y.T[0] == 'json': raise Unsup('json comparison')
            return self.compare(o, x, y)
        if o == '+':
            x, y = self.rv(args[0]), self.rv(args[1])
            if x.T[0] == 'iter':
                return Val(self.let('it_step (%s + %s)' % (x.t, paren(y.t))), x.T, x.cont)
            def st(v):
                if v.T[0] == 'int': return '(singleton %s)' % paren(v.t)
                return paren(v.t)
            return Val(self.let('%s ++ %s' % (st(x), st(y))), STR)
        if o == '-':
            x, y = self.rv(args[0]), self.rv(args[1])
            if x.T[0] == 'iter':
                if y.T[0] == 'iter': return Val('(%s - %s)' % (x.t, y.t), S64)
                return Val(self.let('it_step (%s - %s)' % (x.t, paren(y.t))), x.T, x.cont)
        if o == '+=':
            y = self.rv(args[1])
            p = self.ev(args[0])
            if p.T[0] == 'str':
                s = self.readraw(p)
                self.write(p, '%s ++ %s' % (paren(s), paren(y.t) if y.T[0] != 'int' else '(singleton %s)' % paren(self.coerce(y, S8).t)))
                return p
            if p.T[0] == 'iter':
                v = self.read(p)
                self.write(p, self.let('it_step (%s + %s)' % (v, paren(y.t))))
                return p
        raise Unsup('%s at line %s' % (op, n.get('_line')))

    def deref(self, r):
        cont = r.cont
        t = r.T
        if t[0] != 'iter': raise Unsup('dereference of %s' % (t,))
        if cont is None: raise Unsup('iterator of unknown container')
        pos = self.read(r) if isinstance(r, Path) else r.t
        if cont.T[0] in ('omap', 'umap', 'vec', 'str'): return self.elem_at(cont, pos)
        if cont.T[0] == 'json': return cont.add(('ji', pos, JSON))
        raise Unsup('dereference')

    def assign(self, args):
        a, b = args
        ua = unwrap(a)
        t = self.p_of(ua)
        r = self.rv(b, want=t)
        cont = r.cont
        # m[k] = v writes without the default insertion
        if ua['kind'] == 'CXXOperatorCallExpr' and unwrap_callee(inner(ua)[0]) == 'operator[]':
            bt = self.p_of(unwrap(inner(ua)[1]))
            if bt and bt[0] in ('omap', 'umap'):
                m = self.ev(inner(ua)[1])
                kv = self.coerce(self.rv(inner(ua)[2]), bt[1])
                k = self.let(kv.t)
                p = m.add(('k', k, bt[0], bt[2]))
                v = self.let(self.coerce(r, p.T).t)
                self.write(p, v)
                return p
        p = self.ev(a)
        if not isinstance(p, Path):
            raise Unsup('assignment')
        v = self.coerce(r, p.T)
        vv = self.let(v.t)
        self.write(p, vv)
        if p.T[0] == 'iter': p.cont = cont
        return p

    def subscript(self, args):
        r = self.ev(args[0])
        r = self.pathify(r)
        k = r.T[0]
        if k in ('vec', 'str'):
            i = self.index(args[1])
            return r.add(('i', i.t, S8 if k == 'str' else r.T[1]))
        if k in ('omap', 'umap'):
            kv = self.coerce(self.rv(args[1]), r.T[1])
            key = self.let(kv.t)
            m = self.readraw(r)
            if r.kind != 'val':
                # default insertion when the key is missing
                old = self.block()
                thr, wr, self.throws = self.throws, set(self.writes), False
                d = self.value_init(r.T[2])
                p = r.add(('k', key, k, r.T[2]))
                eff = self.endblock(old)
                pure = not self.throws and self.writes == wr and all(l.startswith('let ') and l.endswith(' in') and not l.startswith('let ref') for _, l in eff)
                self.throws = thr or self.throws
                if r.kind == 'ref' and pure:
                    # no effects: one assignment instead of a branch
                    self.put(eff)
                    self.writes.add((p.root, pat(self, p.steps)))
                    self.write(r, '%s_touch %s %s %s' % (k, paren(m), key, paren(d)), nolog=True)
                    return p
                old = self.block()
                d = self.value_init(r.T[2])
                self.write(p, d)
                self.e('()')
                b = self.endblock(old)
                self.e('if not (%s_mem %s %s) then begin' % (k, paren(m), key))
                self.put(b)
                self.e('end;')
            else:
                return self.static_map_get(r, key)
            return r.add(('k', key, k, r.T[2]))
        if k == 'json': return self.json_subscript(r, args[1])
        raise Unsup('subscript of %s' % tkey(r.T))

    def index(self, n):
        """an index of a sequence: a negative value converted to unsigned is out of bounds just as the negative value"""
        u = n
        while u.get('kind') in SKIP: u = inner(u)[0]
        if u.get('kind') == 'ImplicitCastExpr' and u.get('castKind') == 'IntegralCast':
            v = self.rv(inner(u)[0])
            if v.T[0] == 'int': return v
            return self.coerce(v, U64)
        return self.rv(n)

    def static_map_get(self, r, key):
        # reading through operator[] of a container that is never changed here: missing keys would be inserted
        self.tr.assumed.add('Base64::indexMap[c] for a character outside of the alphabet reads 0 (the entry it inserts is 0)')
        return Val(self.let('rd_s8 (%s_get_or0 %s %s)' % (r.T[0], paren(self.readraw(r)), key)), r.T[2])

    # ---- free functions of the standard library
    def ev_CallExpr(self, n, discard=False):
        ins = inner(n)
        cal = callee_decl(ins[0])
        args = ins[1:]
        if cal is None: raise Unsup('indirect call')
        d = self.p.byid.get(cal['id'])
        if d is not None and '_fn' in d:
            return self.call(d['_fn'], None, args)
        nm = cal.get('name')
        return self.std_call(nm, args, n)

    def std_call(self, nm, args, n):
        T_ = self.p.T
        if nm in ('get',):
            # std::get<i>(tuple)
            idx = self.get_index(n)
            r = self.ev(args[0])
            if isinstance(r, Path):
                return r.add(('t', idx, len(r.T[1]), r.T[1][idx]))
            vs = [self.tr.fresh('c') for _ in r.T[1]]
            self.e('let (%s) = %s in' % (', '.join(vs), r.t))
            return Val(vs[idx], r.T[1][idx])
        if nm in ('make_tuple', 'make_pair'):
            vs = [self.rv(a) for a in args]
            return Val('(%s)' % ', '.join(v.t for v in vs), ('tuple', tuple(v.T for v in vs)))
        if nm in ('move', 'forward'):
            return self.ev(args[0])
        if nm in ('rand',):
            return Val(self.let('cxx_rand ()'), S32)
        if nm in ('srand', 'time'):
            if nm == 'srand':
                for a in args: self.rv(a)
                return Val('()', VOID)
            return Val(self.let('any_s64 ()'), S64)
        if nm == 'memcpy': return self.memcpy(args)
        if nm == 'to_string':
            v = self.rv(args[0])
            if v.T[0] != 'int': raise Unsup('to_string')
            return Val(self.let('int_to_string %s' % paren(v.t)), STR)
        if nm in ('min', 'max') and len(args) == 2:
            x, y = self.rv(args[0]), self.rv(args[1])
            if x.T[0] == 'int':
                return Val('(if %s %s %s then %s else %s)' % (y.t, '<' if nm == 'min' else '>', x.t, y.t, x.t), x.T)
        if nm == 'abs':
            x = self.rv(args[0])
            if x.T[0] == 'int': return Val(self.let('chk_%s (if %s < 0 then - %s else %s)' % (ikey(x.T), x.t, x.t, x.t)), x.T)
        if nm in ('random_shuffle', 'sort', 'reverse', 'shuffle'):
            a, b = self.rv(args[0]), self.rv(args[1])
            c = a.cont
            if c is None: raise Unsup(nm)
            cur = self.readraw(c)
            self.e('assert { [@expl:whole range] %s = 0 /\\ %s = length %s };' % (a.t, b.t, paren(cur)))
            if nm == 'sort' and len(args) > 2:
                f = callee_decl(args[2])
                fd = self.p.byid.get(f['id'], {}).get('_fn') if f else None
                fc = self.tr.ct.find(fd) if fd is not None else None
                if fc is None or not fc.order: raise Unsup('sort with a comparison that has no contract')
                r = self.tr.need(fd)
                self.extra[r.name] = r
                x = self.let('vsort_%s %s' % (fc.order, paren(cur)))
            else:
                x = self.let('v%s %s' % ('permute' if nm != 'sort' else 'sort', paren(cur)))
            self.write(c, x)
            return Val('()', VOID)
        if nm in ('sqrt', 'tanh', 'round', 'floor', 'ceil', 'fabs', 'exp', 'log'):
            x = self.rv(args[0])
            if x.T[0] == 'int': x = self.coerce(x, DOUBLE)
            return Val('(fl_%s %s)' % (nm, paren(x.t)), self.p.T.of(n))
        if nm == 'pow':
            x, y = self.rv(args[0]), self.rv(args[1])
            x, y = self.coerce(x, DOUBLE), self.coerce(y, DOUBLE)
            return Val('(fl_pow %s %s)' % (paren(x.t), paren(y.t)), DOUBLE)
        if nm == 'getline': return self.stream_getline(args)
        if nm == 'parse' and self.p.T.of(n)[0] == 'json':
            self.throws = True
            return Val(self.letx('json_parse %s' % paren(self.coerce(self.rv(args[0]), STR).t)), JSON)
        if nm in ('swap',) and len(args) == 2:
            p, q = self.ev(args[0]), self.ev(args[1])
            x, y = self.let(self.read(p)), self.let(self.read(q))
            self.write(p, y); self.write(q, x)
            return Val('()', VOID)
        raise Unsup('call of %s at line %s' % (nm, n.get('_line')))

    def get_index(self, n):
        # the template argument is visible in the result/callee type only through the source; use the type when unique
        me = inner(n)[0]
        q = str(me.get('type', {}).get('qualType', '')) + str((inner(me)[0] if inner(me) else {}).get('type', {}).get('qualType', ''))
        m = re.search(r'__tuple_element_t<(\d+)', q) or re.search(r'tuple_element<(\d+)', q)
        if m: return int(m.group(1))
        raise Unsup('std::get index')

    def memcpy(self, args):
        def side(a):
            u = unwrap_casts(a)
            if u['kind'] == 'UnaryOperator' and u['opcode'] == '&':
                s = unwrap(inner(u)[0])
                if s['kind'] == 'CXXOperatorCallExpr' and unwrap_callee(inner(s)[0]) == 'operator[]':
                    i = unwrap_casts(inner(s)[2])
                    if const_int(i, self) == 0:
                        p = self.ev(inner(s)[1])
                        return ('str', self.pathify(p))
                r = self.ev(s)
                return ('var', self.pathify(r))
            raise Unsup('memcpy operand')
        d, s = side(args[0]), side(args[1])
        nb = self.rv(args[2])
        if d[0] == 'str' and s[0] == 'var' and s[1].T[0] == 'int':
            v = self.read(s[1])
            cur = self.readraw(d[1])
            x = self.let('bytes_put_%s %s %s %s' % (ikey(s[1].T), paren(cur), v, paren(nb.t)))
            self.write(d[1], x)
            return Val('()', VOID)
        if d[0] == 'var' and s[0] == 'str' and d[1].T[0] == 'int':
            cur = self.readraw(s[1])
            x = self.let('bytes_get_%s %s %s' % (ikey(d[1].T), paren(cur), paren(nb.t)))
            self.write(d[1], x)
            return Val('()', VOID)
        raise Unsup('memcpy')

    # hooks for json and streams (vf/ext.py)
    JENC = {('bool',): 'j_of_bool', ('str',): 'j_of_str', ('cstr',): 'j_of_str', ('vec', INT): 'j_of_vi', ('vec', ('vec', INT)): 'j_of_vvi',
            ('omap', STR, ('vec', ('vec', INT))): 'j_of_mvv'}
    JDEC = {('bool',): 'bool', ('str',): 'str', INT: 'int', U32: 'u32', FLOAT: 'float', ('vec', INT): 'vi', ('vec', ('vec', INT)): 'vvi',
            ('omap', STR, ('vec', ('vec', INT))): 'mvv'}

    def to_json(self, v):
        t = v.T
        if t[0] == 'json': return v
        if t[0] == 'int': return Val(self.let('j_of_int %s' % paren(v.t)), JSON)
        if t == FLOAT: return Val(self.let('json_of_f32 %s' % paren(v.t)), JSON)
        if t in self.JENC: return Val(self.let('%s %s' % (self.JENC[t], paren(v.t))), JSON)
        raise Unsup('json of %s' % tkey(t))

    def from_json(self, v, t):
        if t not in self.JDEC: raise Unsup('%s from json' % tkey(t))
        self.throws = True
        return Val(self.letx('json_get_%s %s' % (self.JDEC[t], paren(v.t))), t)

    def json_construct(self, n, args):
        real = [a for a in args if a['kind'] != 'CXXDefaultArgExpr']
        if not real: return Val('jnull', JSON)
        if len(real) != 1: raise Unsup('json constructor')
        l = self.json_list(real[0])
        if l is not None:
            cur = 'jnull'
            pairs = []
            for e in l:
                m = self.json_list(e)
                if m is None or len(m) != 2: raise Unsup('json array')
                key = self.json_key(m[0])
                if key is None: raise Unsup('json array')
                pairs.append((key, m[1]))
            if not pairs: raise Unsup('empty json list')
            vs = [(k, self.to_json(self.rv(x))) for k, x in pairs]
            for k, v in vs: cur = self.let('json_member %s %s %s' % (k, paren(v.t), cur))
            return Val(cur, JSON)
        return self.to_json(self.rv(real[0]))

    def json_list(self, n):
        """elements of a braced list that makes a json value, or None"""
        while n['kind'] in SKIP or n['kind'] in ('ImplicitCastExpr', 'CXXConstructExpr') and [a for a in inner(n) if a['kind'] != 'CXXDefaultArgExpr'] and 'json' in (n.get('type', {}).get('qualType') or ''):
            n = [a for a in inner(n) if a['kind'] != 'CXXDefaultArgExpr'][0]
        if n['kind'] != 'CXXStdInitializerListExpr': return None
        n = unwrap(inner(n)[0])
        return inner(n) if n['kind'] == 'InitListExpr' else None

    def json_key(self, n):
        while n['kind'] in SKIP or n['kind'] in ('ImplicitCastExpr', 'CXXConstructExpr') and len(inner(n)) == 1: n = inner(n)[0]
        if n['kind'] != 'StringLiteral': return None
        return paren(self.rv(n).t)

    def json_method(self, r, nm, args, n):
        cur = (lambda: paren(self.read(r) if isinstance(r, Path) else r.t))
        args = [a for a in args if a['kind'] != 'CXXDefaultArgExpr']
        if nm == 'is_null': return Val('(j_null %s)' % cur(), BOOL)
        if nm == 'is_object': return Val('(j_obj %s)' % cur(), BOOL)
        if nm in ('get', 'get_ref') or nm.startswith('operator'):
            t = self.p.T.of(n)
            return Val(self.read(r), r.T) if t[0] == 'json' and isinstance(r, Path) else r if t[0] == 'json' else self.from_json(Val(cur(), JSON), t)
        if nm in ('empty', 'size'):
            x = self.let('json_size %s' % cur())
            return Val('(%s = 0)' % x, BOOL) if nm == 'empty' else Val(x, U64)
        if nm in ('begin', 'cbegin'): return Val('0', ('iter', JSON), r)
        if nm in ('end', 'cend'): return Val(self.let('json_size %s' % cur()), ('iter', JSON), r)
        if nm == 'merge_patch':
            x = self.rv(args[0])
            j, x = cur(), paren(x.t)
            for h in self.acthooks(self.c.calls.get('<json_merge', ()) if self.c else ()):
                self.e(self.ctext(h.replace('$0', j).replace('$1', x), self.locals()) + ';')
            self.write(r, self.let('json_merge %s %s' % (j, x)))
            return Val('()', VOID)
        if nm == 'dump':
            x = self.rv(args[0]).t if args else '(- 1)'
            self.throws = True
            return Val(self.letx('json_dump %s %s' % (cur(), paren(x))), STR)
        raise Unsup('json method %s' % nm)

    def json_subscript(self, r, a):
        k = self.rv(a)
        self.throws = True
        if k.T[0] == 'int':
            if not isinstance(r, Path) or r.kind == 'val': raise Unsup('json [] of a value with an index')
            k = paren(self.index(a).t)
            self.write(r, self.letx('json_touch_at %s %s' % (paren(self.read(r)), k)))
            return r.add(('ji', k, JSON))
        if k.T[0] not in ('str', 'cstr'): raise Unsup('json [] with an index')
        k = paren(k.t)
        if not isinstance(r, Path):
            x = self.letx('json_touch %s %s' % (paren(r.t), k))
            return Val(self.let('json_field %s %s' % (x, k)), JSON)
        x = self.letx('json_touch %s %s' % (paren(self.read(r)), k))
        if r.kind == 'val': return Val(self.let('json_field %s %s' % (x, k)), JSON)
        self.write(r, x)
        return r.add(('j', k, JSON))

    def iter_method(self, r, nm, args, n):
        cont = r.cont
        if cont is not None and cont.T[0] == 'json':
            if nm == 'value': return self.deref(r)
            if nm == 'key':
                self.throws = True
                pos = self.read(r) if isinstance(r, Path) else r.t
                return Val(self.letx('json_key_at %s %s' % (paren(self.read(cont)), paren(pos))), STR)
        raise Unsup('iterator method %s' % nm)
    def stream_ctor(self, t, args):
        if t[1] not in ('basic_ifstream', 'basic_ofstream'): raise Unsup('stream %s' % t[1])
        k = t[1][6:9]
        v = self.letx('%s_new ()' % k)
        real = [a for a in args if a['kind'] != 'CXXDefaultArgExpr']
        if real:
            if k != 'ifs' or len(real) > 1: raise Unsup('stream constructor')
            v = self.letx('ifs_open_file %s %s' % (v, paren(self.coerce(self.rv(real[0]), STR).t)))
        return Val(v, t)

    def stream_method(self, r, nm, args, n):
        t = r.T
        k = t[1][6:9]
        v = paren(self.read(r) if isinstance(r, Path) else r.t)
        args = [a for a in args if a['kind'] != 'CXXDefaultArgExpr']
        if nm == 'is_open': return Val('%s.%s_open' % (v, k), BOOL)
        if nm == 'open':
            x = paren(self.coerce(self.rv(args[0]), STR).t)
            if k == 'ifs':
                if len(args) > 1: raise Unsup('mode of an input stream')
                y = self.letx('ifs_open_file %s %s' % (v, x))
            else:
                mode = 'trunc'
                if len(args) > 1:
                    c = args[1]
                    while c['kind'] in ('ImplicitCastExpr', 'ParenExpr'): c = inner(c)[0]
                    mode = c.get('referencedDecl', {}).get('name') if c['kind'] in ('DeclRefExpr', 'MemberExpr') else None
                    if mode == 'out': mode = 'trunc'
                    if mode not in ('trunc', 'app'): raise Unsup('mode of an output stream')
                self.writes.add(('fs', ()))
                y = self.letx('ofs_open_%s %s %s' % (mode, v, x))
            self.write(r, y)
            return Val('()', VOID)
        if nm == 'close':
            y = self.letx('%s_close %s' % (k, v))
            self.write(r, y)
            return Val('()', VOID)
        if k == 'ifs':
            if nm == 'eof': return Val('%s.ifs_eof' % v, BOOL)
            if nm == 'good': return Val('(ifs_good %s)' % v, BOOL)
            if nm in ('fail', 'operator!'): return Val('%s.ifs_fail' % v, BOOL)
            if nm == 'operator bool': return Val('(not %s.ifs_fail)' % v, BOOL)
        raise Unsup('stream method %s' % nm)

    def stream_out(self, args, n):
        r = self.ev(args[0])
        if not isinstance(r, Path) or r.T != ('stream', 'basic_ofstream'): raise Unsup('output stream')
        x = self.coerce(self.rv(args[1]), STR)
        self.writes.add(('fs', ()))
        self.e('ofs_write %s %s;' % (paren(self.read(r)), paren(x.t)))
        return r

    def stream_getline(self, args):
        r = self.ev(args[0])
        q = self.ev(args[1])
        if not isinstance(r, Path) or r.T != ('stream', 'basic_ifstream') or not isinstance(q, Path): raise Unsup('input stream')
        c = self.coerce(self.rv(args[2]), ('int', 8, True)).t if len(args) > 2 else '10'
        x, y = self.tr.fresh('txt'), self.tr.fresh('st')
        self.e('let (%s, %s) = ifs_getline %s %s %s in' % (x, y, paren(self.read(r)), paren(self.read(q)), paren(c)))
        self.write(q, x)
        self.write(r, y)
        return r

# --------------------------------------------------------------------------------------------- helpers
def ikey(t):
    return ('s' if t[2] else 'u') + str(t[1])

def paren(t):
    t = t.strip()
    if re.match(r'^[\w.]+$', t): return t
    if t.startswith('(') and match_all(t): return t
    return '(' + t + ')'

def match_all(t):
    d = 0
    for i, c in enumerate(t):
        if c == '(': d += 1
        if c == ')':
            d -= 1
            if d == 0: return i == len(t) - 1
    return False

def pat(self, steps):
    out = []
    for s in steps:
        if s[0] == 'f': out.append(self.tr.fn(s[1], s[2]))
        elif s[0] == 'kv': out.append('p')
        else: out.append(s[0])
    return tuple(out)

def overlap(a, b):
    n = min(len(a), len(b))
    return a[:n] == b[:n]

def same_expr(a, b):
    """do two expressions (without side effects) read the same place?"""
    a, b = unwrap_casts(a), unwrap_casts(b)
    if a['kind'] != b['kind'] or a['kind'] not in ('DeclRefExpr', 'MemberExpr', 'CXXThisExpr', 'CXXOperatorCallExpr', 'ArraySubscriptExpr', 'IntegerLiteral'): return False
    if a['kind'] == 'IntegerLiteral': return a['value'] == b['value']
    if a['kind'] == 'DeclRefExpr' and a['referencedDecl']['id'] != b['referencedDecl']['id']:
        if a['referencedDecl'].get('name') != b['referencedDecl'].get('name') or a['referencedDecl'].get('name') not in ('operator[]', 'operator->', 'operator*'): return False
    if a['kind'] == 'MemberExpr' and (a.get('name') != b.get('name') or a.get('referencedMemberDecl') != b.get('referencedMemberDecl')): return False
    if a['kind'] == 'CXXOperatorCallExpr' and unwrap_callee(inner(a)[0]) not in ('operator[]', 'operator->', 'operator*'): return False
    x, y = inner(a), inner(b)
    if a['kind'] == 'CXXOperatorCallExpr': x, y = x[1:], y[1:]
    return len(x) == len(y) and all(same_expr(i, j) for i, j in zip(x, y))

def unwrap_casts(n):
    while n.get('kind') in SKIP or n.get('kind') in ('ImplicitCastExpr', 'CStyleCastExpr', 'CXXStaticCastExpr', 'CXXFunctionalCastExpr') \
            or (n.get('kind') == 'CXXConstructExpr' and len(inner(n)) == 1 and '_iterator' in n.get('type', {}).get('desugaredQualType', n.get('type', {}).get('qualType', ''))):
        n = inner(n)[0]
    return n

def callee_decl(n):
    n = unwrap_casts(n)
    if n['kind'] == 'UnaryOperator': n = unwrap_casts(inner(n)[0])
    if n['kind'] == 'DeclRefExpr': return n['referencedDecl']
    return None

def unwrap_callee(n):
    d = callee_decl(n)
    return d.get('name', '') if d else ''

def const_int(n, ctx):
    n = unwrap_casts(n)
    if n['kind'] == 'IntegerLiteral': return int(n['value'])
    if n['kind'] == 'UnaryOperator' and n['opcode'] == '-':
        v = const_int(inner(n)[0], ctx)
        return -v if v is not None else None
    if n['kind'] == 'UnaryExprOrTypeTraitExpr':
        try:
            v = ctx.ev_UnaryExprOrTypeTraitExpr(n).t
            return int(v)
        except Exception: return None
    if n['kind'] == 'BinaryOperator' and n['opcode'] in ('+', '*', '-'):
        a, b = const_int(inner(n)[0], ctx), const_int(inner(n)[1], ctx)
        if a is None or b is None: return None
        return {'+': a + b, '*': a * b, '-': a - b}[n['opcode']]
    if n['kind'] == 'DeclRefExpr':
        p = ctx.env.get(n['referencedDecl']['id'])
        return None
    return None

def find_string(n):
    if n.get('kind') == 'StringLiteral':
        import ast as pyast
        return pyast.literal_eval(n['value'])
    for c in inner(n):
        s = find_string(c)
        if s is not None: return s
    return None

def mask_term(x, m):
    """x & m for a positive constant mask of contiguous bits: (hi, lo) with m = hi - lo"""
    if m <= 0: return None
    lo = m & -m
    hi = 1 << m.bit_length()
    return (hi, lo) if m == hi - lo else None
