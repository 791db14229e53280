"""vacuity check: replaces the postconditions of every function under contract by false; a function whose every path then
still proves has contradictory premises (a precondition, an invariant, an axiom or a contract of a callee that cannot hold).
python3 tools/smoke.py [keyregex]; prints such functions (besides those that cannot return) and exits 1 if there are any"""
import sys, os, re, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import dev, trans, gen, prove
rx = sys.argv[1] if len(sys.argv) > 1 else '.*'
prog, ct = dev.build()
tr = trans.Tr(prog, ct)
tr.map_fields(ct.expected)
for f in prog.funcs:
    if f.key and f.body is not None and f.tmpl != 'pattern' and ct.find(f) and re.search(rx, f.key):
        try: tr.need(f)
        except (trans.Unsup, trans.TypeErr) as e: print('UNSUP', f.key, e)
lib = dev.library(prog, tr)
out = tempfile.mkdtemp(prefix='vfsmoke')
def falsify(txt):
    k = max(txt.rfind('\n  let f_'), txt.rfind('\n  let rec f_'), txt.rfind('\n  let ghost '))
    head, fn = txt[:k], txt[k:]
    e = fn.index('\n  =')
    sig, body = fn[:e], fn[e:]
    lines = [l for l in sig.split('\n') if not l.strip().startswith(('ensures', 'raises'))] 
    thr = any('raises' in l for l in sig.split('\n'))
    lines.append('    ensures { [@expl:SMOKE] false }')
    if thr: lines.append('    raises { Throw -> [@expl:SMOKETHROW] false }')
    return head + '\n'.join(lines) + body
jobs = []
try:
    for r in tr.out:
        if not re.search(rx, r.key): continue
        txt, lm, ids = gen.emit_function(lib, r)
        p = os.path.join(out, r.name + '.mlw')
        open(p, 'w').write(falsify(txt))
        jobs.append((p, p, r.key))
    res = prove.run([j[:2] for j in jobs], out, stages=[('z3n', 1.5), ('cvc5', 2)])
    bad = 0
    for _, p, key in jobs:
        R = res[p]
        if R.error: print('ERROR', key, R.error[-200:]); bad += 1; continue
        g = [x for x in R.goals if 'SMOKE' == x.expl]; t = [x for x in R.goals if x.expl == 'SMOKETHROW']
        dead = lambda gs: gs and all(x.status == 'proved' for x in gs)
        if dead(g): print('no normal return:', key); bad += 1
        if dead(t): print('no throw:', key)
    print('%d functions' % len(jobs))
finally:
    shutil.rmtree(out)
sys.exit(1 if bad else 0)
