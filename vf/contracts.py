"""Registry of the contracts (contracts/*.py)."""
import os, importlib.util, re
from .trans import Contract
from . import types as T

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

class Contracts:
    def __init__(self, prop=None):
        self.prop = prop
        self.table = {}
        self.invs = {}
        self.views = {}
        self.expected = {}
        self.models = {}
        self.mods = []
        d = os.path.join(HERE, 'contracts')
        for fn in sorted(os.listdir(d)):
            if fn.endswith('.py'):
                spec = importlib.util.spec_from_file_location('contracts_' + fn[:-3], os.path.join(d, fn))
                m = importlib.util.module_from_spec(spec)
                spec.loader.exec_module(m)
                self.mods.append(m)
                for k, v in getattr(m, 'CONTRACTS', {}).items():
                    self.table[k.replace(' ', '')] = v
                self.invs.update(getattr(m, 'INVARIANTS', {}))
                self.views.update(getattr(m, 'VIEWS', {}))
                self.expected.update(getattr(m, 'FIELDS', {}))
                self.models.update(getattr(m, 'GLOBALS', {}))
        self.used = set()
        self.cache = {}
        self.names = set()
        self.flnames = set()
        self.reserved = set('length empty set snoc cons old at'.split())
        for d in ('lib', 'contracts'):
            for fn in sorted(os.listdir(os.path.join(HERE, d))):
                if fn.endswith('.mlw'):
                    t = open(os.path.join(HERE, d, fn)).read()
                    self.names |= set(re.findall(r'\bstr_([A-Za-z]\w*)', t)) - {'lit'}
                    self.flnames |= set(re.findall(r'\bfl_lit_(\d\w*)', t))
                    self.reserved |= set(re.findall(r'^\s*(?:let|val|function|predicate|constant)\s+(?:ghost\s+|rec\s+|function\s+|predicate\s+|lemma\s+)*(\w+)', t, re.M))

    def inv(self, cls): return self.invs.get(cls)
    def viewfn(self, cls): return self.views.get(cls)

    def active(self, tag):
        return not tag or self.prop is None or self.prop in tag.split()

    def find(self, f):
        if f.id in self.cache: return self.cache[f.id]
        c = None
        if f.key:
            d = self.table.get(f.key)
            if d is None and len(f.params) and isinstance(f.tmpl, object):
                # generic contract: T stands for the image type
                for a in ('vec<int>', 'BinInput', 'vec<vec<int>>', 'DataSet'):
                    if a in f.key:
                        k2 = f.key.replace('(' + a, '(T', 1)
                        if k2 in self.table:
                            d = self.table[k2]
                            break
            if d is not None and not self.active(d.get('when', '')):
                d = None
            if d is not None:
                c = Contract(f.key, d)
                self.used.add(f.key)
        self.cache[f.id] = c
        return c

    def global_model(self, nm, t, fntr):
        g = self.models.get(nm)
        if g is None: return None
        # the initialiser must be a call of the function whose postcondition the model stands for
        decl = fntr.p.statics.get(nm) or fntr.p.globals.get(nm)
        fn = [f for f in fntr.p.funcs if f.key == g[1]]
        if not fn or not self.calls(decl, fn[0].id): return None
        r = fntr.tr.need(fn[0])
        fntr.extra[r.name] = r
        return g[0]

    def calls(self, n, fid):
        if n is None: return False
        if n.get('kind') == 'DeclRefExpr' and n['referencedDecl']['id'] == fid: return True
        return any(self.calls(c, fid) for c in n.get('inner', []) if c)
