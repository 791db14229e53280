"""Generate the proof obligations of a Why3 file and discharge each with a portfolio of SMT solvers."""
import os, re, subprocess, threading, time, queue, signal
from types import SimpleNamespace as NS

DRV = '/usr/share/why3/drivers/'
CONF = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib', 'why3.conf')
NCPU = max(2, min(8, os.cpu_count() or 8))
# (solver, seconds)
STAGES = [('z3n', 1.5), ('cvc5', 3), ('z3', 3), ('z3n', 10), ('cvc5', 12), ('z3', 12), ('z3n2', 30), ('cvc5b', 30)]
VERS = {}

def solver_cmd(s, t, f):
    ti = max(1, int(t + 0.5))
    if s == 'z3n': return ['z3-new', '-T:%d' % ti, 'memory_max_size=3000', f]
    if s == 'z3n2': return ['z3-new', '-T:%d' % ti, 'memory_max_size=3000', 'smt.random_seed=7', 'smt.arith.solver=2', f]
    if s == 'z3': return ['z3', '-T:%d' % ti, 'memory_max_size=3000', f]
    if s == 'cvc5': return ['cvc5', '--tlimit=%d' % int(t * 1000), '--lang=smt2', f]
    if s == 'cvc5b': return ['cvc5', '--tlimit=%d' % int(t * 1000), '--lang=smt2', '--enum-inst', f]

SUFFIX = {'z3n': '.n', 'cvc5': '.c', 'cvc5b': '.c'}
BACKEND = {'z3n': 'z3 5.3 (z3-new)', 'z3n2': 'z3 5.3 (z3-new)', 'z3': 'z3 4.8.12', 'cvc5': 'cvc5 1.1.2', 'cvc5b': 'cvc5 1.1.2'}

def dump(path, drv, out):
    os.makedirs(out, exist_ok=True)
    r = subprocess.run(['why3', '-C', CONF, 'prove', '-a', 'split_vc', '-D', DRV + drv, '-o', out, path],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if r.returncode != 0:
        return None, (r.stderr + r.stdout).decode('utf8', 'replace')
    fs = []
    for f in os.listdir(out):
        m = re.match(r'^(.*?)(\d*)\.smt2$', f)
        if not m: continue
        fs.append((m.group(1), int(m.group(2) or 0), os.path.join(out, f)))
    fs.sort()
    return fs, None

def explain(path):
    """[(line, text)] of the goals in order"""
    r = subprocess.run(['why3', '-C', CONF, 'prove', '-a', 'split_vc', '-P', 'Dummy', path], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    out = []
    s = r.stdout.decode('utf8', 'replace')
    for m in re.finditer(r'File "[^"]*", line (\d+)[^\n]*:\n(.*?)Prover result', s, flags=re.S):
        t = re.sub(r'\s+', ' ', m.group(2)).strip()
        t = re.sub(r'^(Sub-)?[gG]oal ', '', t)
        t = re.sub(r" ?of goal \S+'vc\.$", '', t)
        out.append((int(m.group(1)), t))
    return out, s

class Pool:
    def __init__(self, deadline=None, n=NCPU):
        self.q = queue.PriorityQueue()
        self.deadline = deadline
        self.n = n
        self.cnt = 0
        self.lock = threading.Lock()
        self.pending = 0
        self.cv = threading.Condition()

    def put(self, pri, fn):
        with self.cv:
            self.cnt += 1
            self.pending += 1
            self.q.put((pri, self.cnt, fn))

    def work(self):
        while True:
            try:
                pri, _, fn = self.q.get(timeout=0.2)
            except queue.Empty:
                with self.cv:
                    if self.pending == 0: return
                continue
            try:
                if self.deadline is None or time.time() < self.deadline or pri < 0:
                    fn()
            except Exception as e:
                import traceback; traceback.print_exc()
            finally:
                with self.cv:
                    self.pending -= 1

    def run(self):
        ts = [threading.Thread(target=self.work) for _ in range(self.n)]
        for t in ts: t.start()
        for t in ts: t.join()

def run(jobs, out, deadline=None, stages=STAGES, stop_after=None):
    """jobs: [(key, mlw path)] -> {key: NS(goals, error)}"""
    pool = Pool(deadline)
    res = {}
    fails = [0]
    for key, path in jobs:
        R = NS(goals=[], error=None, path=path)
        res[key] = R
        def gen(R=R, path=path):
            d = os.path.join(out, os.path.basename(path)[:-4] + '_z3')
            fs, err = dump(path, 'z3_487.drv', d)
            if fs is None:
                R.error = 'why3: ' + err.strip()[-600:]
                return
            for i, (nm, k, f) in enumerate(fs):
                txt = open(f).read()
                txt2 = re.sub(r';; "CompatOrderMult"\n\(assert.*?\n\n', '', txt, flags=re.S)
                open(f + '.n', 'w').write(txt2)
                open(f + '.c', 'w').write('(set-logic ALL)\n' + txt2)
                g = NS(name=os.path.basename(f)[:-5], idx=i, file=f, status='open', by=None, time=0.0, expl='', line=None, outputs=[])
                R.goals.append(g)
                pool.put(1, lambda g=g, R=R, path=path: attempt(g, R, path, 0))
        def attempt(g, R, path, st):
            s, t = stages[st]
            if deadline is not None:
                t = min(t, max(0.5, deadline - time.time()))
            t0 = time.time()
            try:
                r = subprocess.run(solver_cmd(s, t, g.file + SUFFIX.get(s, '')), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t * 2 + 10)
                o = r.stdout.decode('utf8', 'replace')
            except subprocess.TimeoutExpired:
                o = 'timeout'
            g.time += time.time() - t0
            a = o.strip().split('\n')[0].strip()
            g.outputs.append((s, t, o.strip()[:300]))
            if a == 'unsat':
                g.status, g.by = 'proved', s
                return
            if st + 1 < len(stages):
                pool.put(2 + st, lambda: attempt(g, R, path, st + 1))
            else:
                g.status = 'failed'
        pool.put(-1, gen)
    pool.run()
    for key, path in jobs:
        R = res[key]
        if any(g.status != 'proved' for g in R.goals):
            ex, raw = explain(path)
            if len(ex) == len(R.goals):
                for g, (l, t) in zip(R.goals, ex): g.line, g.expl = l, t
            R.raw = raw
    return res
