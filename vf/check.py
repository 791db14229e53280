"""python3 -m vf.check ID [--thorough]: decide one property on the current tree of /repo."""
import itertools, sys, os, re, json, time, tempfile, shutil, subprocess, threading, traceback
from types import SimpleNamespace as NS
from . import astload, trans, contracts, gen, prove, props, harness

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRUSTED = [
    'clang 18: parsing and typing of the C++ sources (the AST the translation reads)',
    'vf/trans.py: translation of the AST to WhyML (what it cannot translate is reported as a failed obligation)',
    'lib/*.mlw: meaning of the C++ and standard library operations used (axioms and val declarations)',
    'Why3 1.x: obligation generation; z3 5.3, z3 4.8.12 and cvc5 1.1.2: the answer unsat',
]

def library(prog, tr):
    recs = []
    txt, order = tr.records(sorted(c for c in prog.classes))
    for l in txt.splitlines():
        m = re.match(r'\s*type (\w+)', l)
        recs.append((m.group(1), l + '\n'))
    return gen.Library(recs, tr.lit_items())

class Failure(NS): pass

def translate(variant, prop, P, choice=None, docs=None, wd=None):
    """(jobs {text: key}, failures, info) of one variant of the sources"""
    fails = []
    if docs is None:
        docs = astload.load(variant, wd)
    prog = trans.Program(docs)
    ct = contracts.Contracts(prop)
    tr = trans.Tr(prog, ct, choice)
    tr.map_fields(ct.expected)
    roots = []
    for rx in P['roots']:
        fs = [f for f in prog.funcs if f.key and f.body is not None and f.tmpl != 'pattern' and re.fullmatch(rx, f.key)]
        if not fs:
            fails.append(Failure(key=rx, what='no function with a body matches the contract', loc='', out=''))
        for f in fs:
            if ct.find(f) is None and P.get('contracted'): continue
            if ct.find(f) is None and not f.implicit:
                fails.append(Failure(key=f.key, what='no contract for this function', loc='', out=''))
                continue
            if f not in roots: roots.append(f)
    recs = {}
    def visit(r):
        if r.name in recs: return
        recs[r.name] = r
        for x in list(r.callees.values()) + list(r.extra.values()): visit(x)
    for f in roots:
        try:
            visit(tr.need(f))
        except (trans.Unsup, trans.TypeErr) as e:
            fails.append(Failure(key=f.key, what='not translatable: ' + str(e)[:600], loc='', out='', unsup=True))
    lib = library(prog, tr)
    jobs = {}
    lem = set()
    used = set()
    for r in recs.values():
        txt, lm, items = gen.emit_function(lib, r)
        jobs[txt] = NS(key=r.key, lm=lm, kind='function', name=r.name, variant=variant)
        for it in items:
            if it.proof is not None: lem.add(it.name)
            if it.src not in ('records', 'literals') and it.proof is None: used.add(it.name)
    todo = list(lem | set(P.get('lemmas', [])))
    seen = set()
    while todo:
        n = todo.pop()
        if n in seen: continue
        seen.add(n)
        k = lib.byname[n]
        txt = gen.emit_lemma(lib, k)
        jobs[txt] = NS(key='lemma ' + n, lm={}, kind='lemma', name='lemma_' + n, variant=variant)
        for j in lib.close(lib.items[k].uses | lib.items[k].puses, upto=k):
            if lib.items[j].proof is not None: todo.append(lib.items[j].name)
            elif lib.items[j].src not in ('records', 'literals'): used.add(lib.items[j].name)
    info = NS(assumed=tr.assumed, rlog=tr.rlog, inlined=tr.inlined, used=used, recs=recs, docs=docs)
    return jobs, fails, info

def same_source():
    """is include/wisardpkg.hpp what generate_include.py makes from src?"""
    d = tempfile.mkdtemp(prefix='vfgen')
    try:
        os.mkdir(os.path.join(d, 'include'))
        os.symlink(os.path.join(astload.REPO, 'src'), os.path.join(d, 'src'))
        r = subprocess.run([sys.executable, os.path.join(astload.REPO, 'generate_include.py')], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if r.returncode: return False
        return open(os.path.join(d, 'include/wisardpkg.hpp'), 'rb').read() == open(os.path.join(astload.REPO, 'include/wisardpkg.hpp'), 'rb').read()
    finally:
        shutil.rmtree(d)

def prove_jobs(jobs, wd, deadline, stages, tag=''):
    lst = []
    for i, (txt, j) in enumerate(jobs.items()):
        p = os.path.join(wd, '%s%s_%d.mlw' % (tag, re.sub(r'\W', '_', j.name)[:80], i))
        open(p, 'w').write(txt)
        j.path = p
        lst.append((p, p))
    res = prove.run(lst, wd, deadline, stages)
    for j in jobs.values(): j.res = res[j.path]
    return res

def failed_goals(j):
    out = []
    if j.res.error:
        out.append(Failure(key=j.key, what='Why3 rejects the obligations: ' + j.res.error[-500:], loc='', out=''))
    for g in j.res.goals:
        if g.status != 'proved':
            loc = ''
            line = j.lm.get(g.line) if g.line else None
            if line: loc = 'line %s of %s' % (line, j.variant)
            why = open(j.path).read().splitlines()[g.line - 1].strip()[:300] if g.line else ''
            out.append(Failure(key=j.key, what='obligation "%s" (%s) not discharged' % (g.expl or g.name, why), loc=loc,
                               out='; '.join('%s(%gs): %s' % o for o in g.outputs)))
    if not j.res.goals and not j.res.error and (j.kind == 'lemma' or 'postcondition' in open(j.path).read().split('  let %s ' % j.name, 1)[-1]):
        out.append(Failure(key=j.key, what='no obligations generated', loc='', out=''))
    return out

def main():
    t0 = time.time()
    pid = sys.argv[1]
    tier = 'thorough' if '--thorough' in sys.argv[2:] or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    P = props.PROPS[pid]
    wd = tempfile.mkdtemp(prefix='vf_%s_' % pid)
    rc = 1
    try:
        rc = run(pid, P, tier, seed, wd, t0)
    except Exception:
        traceback.print_exc()
        rep = replay_path(pid)
        open(rep, 'w').write('the check of %s could not analyse the current tree:\n%s\n' % (pid, traceback.format_exc()))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rep))
        rc = 1
    finally:
        shutil.rmtree(wd, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)

def replay_path(pid):
    d = os.path.join(HERE, 'evidence')
    os.makedirs(d, exist_ok=True)
    return os.path.join(d, pid + '.replay')

def run(pid, P, tier, seed, wd, t0):
    thorough = tier == 'thorough'
    deadline = t0 + (5000 if thorough else 560)
    stages = prove.STAGES if not thorough else prove.STAGES + [('z3n', 90), ('cvc5', 90)]
    same = same_source()
    variants = ['src'] if same else ['src', 'hpp']
    H = harness.start(pid, P, variants, seed, tier, wd)
    jobs, fails, infos = {}, [], []
    docs = {}
    for v in variants:
        try:
            docs[v] = astload.load(v, wd)
        except Exception as e:
            fails.append(Failure(key=v, what='sources cannot be parsed: ' + str(e)[:1500], loc='', out=''))
            continue
        jb, fl, info = translate(v, pid, P, None, docs[v])
        for t, j in jb.items(): jobs.setdefault(t, j)
        for f in fl: f.variant = v
        fails += fl
        infos.append(info)
    prove_jobs(jobs, wd, deadline, stages)
    bad = [j for j in jobs.values() if failed_goals(j)]
    # other readings of the role names (renamed variables, reordered loops)
    if bad and time.time() < deadline - 60:
        retry(pid, P, jobs, bad, infos, docs, wd, min(deadline, time.time() + 150))
        bad = [j for j in jobs.values() if failed_goals(j)]
    for j in bad: fails += failed_goals(j)
    hres = H.join(extra=bool(fails))
    for x in hres.build: fails.append(Failure(key='harness ' + x.name, what=x.text, loc=x.variant, out=''))
    # ------------------------------------------------ verdict
    total = sum(len(j.res.goals) for j in jobs.values())
    good = sum(1 for j in jobs.values() for g in j.res.goals if g.status == 'proved')
    by = {}
    tm = 0.0
    for j in jobs.values():
        for g in j.res.goals:
            tm += g.time
            if g.status == 'proved': by[prove.BACKEND[g.by]] = by.get(prove.BACKEND[g.by], 0) + 1
    total += sum(1 for f in fails if getattr(f, 'unsup', False))
    viol = 0
    known = props.known(pid)
    rep = replay_path(pid)
    lines = []
    if hres.failures:
        new = []
        for x in hres.failures:
            k = [s for s in known if s in x.text]
            if k: print('KNOWN-FINDING: property=%s %s' % (pid, k[0]))
            else: new.append(x)
        if new:
            viol = 1
            with open(rep, 'w') as f:
                f.write('property %s: failing input found on the real code\n' % pid)
                for x in new:
                    f.write('--- %s (%s)\n%s\nto run it again: %s\n' % (x.name, x.variant, x.text, x.cmd))
                for x in fails: f.write('failed obligation: %s: %s %s [%s]\n' % (x.key, x.what, x.loc, x.out))
            print('failing input: %s' % new[0].text.strip()[:1500])
            for x in fails[:10]: print('failed obligation: %s: %s %s' % (x.key, x.what[:300], x.loc))
            print('VIOLATION property=%s replay=%s' % (pid, rep))
    if fails and not viol:
        viol = 1
        with open(rep, 'w') as f:
            f.write('property %s: obligations not discharged (no failing input found by the harness)\n' % pid)
            for x in fails: f.write('failed obligation: %s: %s %s\n   solvers: %s\n' % (x.key, x.what, x.loc, x.out))
        for x in fails[:20]: print('failed obligation: %s: %s %s' % (x.key, x.what[:400], x.loc))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rep))
    if not viol and os.path.exists(rep): os.remove(rep)
    fns = sorted(set(j.key for j in jobs.values() if j.kind == 'function'))
    lem = sorted(set(j.key for j in jobs.values() if j.kind == 'lemma'))
    inl = sorted(set(k for i in infos for k in i.inlined))
    ass = sorted(set(a for i in infos for a in i.assumed)) + props.ASSUMPTIONS + P.get('assumptions', [])
    used = sorted(set(u for i in infos for u in i.used))
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': P.get('level', 'proof'),
        'coverage': {
            'obligations': total, 'discharged': good,
            'checker_cmd': 'why3 prove -a split_vc (obligations from the C++ sources translated on this run); each discharged by one of z3-new, cvc5, z3',
            'trusted_base': TRUSTED + ['library items used on this run: ' + ', '.join(used)],
            'functions_under_contract': fns, 'lemmas_proved': lem, 'inlined_into_their_callers': inl,
            'by_back_end': by, 'solver_time_s': round(tm, 1), 'source_variants': variants,
            'evaluations': hres.evaluations, 'distinct_nontrivial': hres.distinct,
            'rule': 'BOUNDED cross-check of the real code against an independent oracle (not counted as proved): ' + P.get('rule', 'random cases from VERIF_SEED'),
            'samples': hres.samples[:5] or ['(no sample)'],
            'bounded_only': P.get('bounded', []),
        },
        'assumptions': ass, 'wall_s': round(time.time() - t0, 1), 'violations': viol,
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    print('%s: %d of %d obligations discharged (%d functions, %d lemmas), %d harness cases, %.0f s' % (
        pid, good, total, len(fns), len(lem), hres.evaluations, time.time() - t0))
    return 1 if viol else 0

def loop_perms(n, m):
    """other ways to give the loop contracts of a function to its n loops: a loop was removed, added, or two were swapped"""
    if not m or not n: return []
    m = m[0]
    if n < m:
        return [list(c) for c in itertools.combinations(range(m), n)][1:7]
    if n > m:
        return [[c.index(i) if i in c else 999 for i in range(n)] for c in itertools.combinations(range(n), m)][1:7]
    r = []
    for i in range(n - 1):
        p = list(range(n))
        p[i], p[i + 1] = p[i + 1], p[i]
        r.append(p)
    return r[:4]

def retry(pid, P, jobs, bad, infos, docs, wd, deadline):
    """try the other candidates for role names of failing functions"""
    keys = set(j.key for j in bad if j.kind == 'function')
    alts = []
    for info in infos:
        for r in info.rlog:
            if r[0] == 'role' and r[1] in keys and r[3] > 1:
                for k in range(1, r[3]): alts.append({(r[1], r[2]): k})
    for info in infos[:1]:
        for key in keys:
            perms = loop_perms(max([r[2] for r in info.rlog if r[0] == 'loop' and r[1] == key], default=-1) + 1, [r[2] for r in info.rlog if r[0] == 'loops' and r[1] == key])
            alts += [{(key, 'perm', 1): p} for p in perms]
    done = set()
    for n, alt in enumerate(alts[:16]):
        if time.time() > deadline - 20: return
        for v in docs:
            jb, fl, info = translate(v, pid, P, alt, docs[v])
            key = next(iter(alt))[0]
            if (key, v) in done: continue
            new = {t: j for t, j in jb.items() if j.key == key and t not in jobs}
            if not new or fl: continue
            prove_jobs(new, wd, deadline, prove.STAGES[:6], 'alt%d_' % n)
            if not any(failed_goals(j) for j in new.values()):
                for t in [t for t, j in jobs.items() if j.key == key and j.variant == v]: del jobs[t]
                jobs.update(new)
                done.add((key, v))

if __name__ == '__main__':
    main()
