"""development driver: python3 -m vf.dev [-p PROP] keyregex ... : translate and prove the matching functions"""
import sys, os, re, tempfile, shutil, subprocess, time
from . import astload, trans, contracts, gen

def build(prop=None, variant='src', docs=None):
    d = tempfile.mkdtemp()
    try:
        docs = docs or astload.load(variant, d)
    finally:
        shutil.rmtree(d)
    prog = trans.Program(docs)
    ct = contracts.Contracts(prop)
    return prog, ct

def library(prog, tr):
    recs = []
    txt, order = tr.records(sorted(c for c in prog.classes))
    for l in txt.splitlines():
        m = re.match(r'\s*type (\w+)', l)
        recs.append((m.group(1), l + '\n'))
    return gen.Library(recs, tr.lit_items())

def main():
    a = sys.argv[1:]
    prop = None
    if a[0] == '-p': prop = a[1]; a = a[2:]
    show = False
    if a[0] == '-s': show = True; a = a[1:]
    prog, ct = build(prop)
    tr = trans.Tr(prog, ct)
    tr.map_fields(ct.expected)
    want = [f for f in prog.funcs if f.key and f.body is not None and f.tmpl != 'pattern' and any(re.search(x, f.key) for x in a)]
    for f in want:
        try:
            tr.need(f)
        except (trans.Unsup, trans.TypeErr) as e:
            print("UNSUP", f.key, str(e)[-int(os.environ.get("UN","300")):])
    lib = library(prog, tr)
    from . import prove
    lem = [k for k, it in enumerate(lib.items) if it.proof is not None and any(x == 'lemmas' or 'lemma:' + it.name == x for x in a)]
    out = tempfile.mkdtemp(prefix='vfdev')
    jobs = []
    for r in tr.out:
        if not any(re.search(x, r.key) for x in a): continue
        txt, lm, ids = gen.emit_function(lib, r)
        p = os.path.join(out, r.name + '.mlw')
        open(p, 'w').write(txt)
        if show: print(txt)
        jobs.append((p, p, r.key))
    for k in lem:
        p = os.path.join(out, 'lemma_%s.mlw' % lib.items[k].name)
        open(p, 'w').write(gen.emit_lemma(lib, k))
        jobs.append((p, p, 'lemma ' + lib.items[k].name))
    t = time.time()
    res = prove.run([j[:2] for j in jobs], out, stages=prove.STAGES[:int(os.environ.get('ST','4'))])
    for _, p, key in jobs:
        R = res[p]
        bad = [g for g in R.goals if g.status != 'proved']
        print('%-60s %3d goals %3d failed %s %5.1fs max %.1f' % (key, len(R.goals), len(bad), R.error or '', sum(g.time for g in R.goals), max([g.time for g in R.goals] + [0])))
        for g in R.goals:
            if g.time > 4 and g not in bad: print('     SLOW %.1f' % g.time, g.name.split('qtvc')[-1], g.expl, g.line and open(p).read().splitlines()[g.line - 1].strip()[:150])
        for g in bad: print('     FAILED', g.name, g.expl, g.line and open(p).read().splitlines()[g.line - 1].strip()[:150])
    print('wall %.1f' % (time.time() - t), out)

if __name__ == '__main__':
    main()
