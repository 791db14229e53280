"""Build and run the harnesses (harness/*.cc, real code against an independent oracle)."""
import os, re, subprocess, threading, time, shutil
from types import SimpleNamespace as NS
from . import astload

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

class Run:
    def __init__(self, pid, P, variants, seed, tier, wd):
        self.res = NS(failures=[], evaluations=0, distinct=0, samples=[])
        self.procs = []
        self.lock = threading.Lock()
        self.pylock, self.pybuilt = threading.Lock(), None
        self.extra_ok = []
        self.threads = []
        self.seed, self.tier, self.wd = seed, tier, wd
        self.secs = 150 if tier == 'thorough' else 12
        for h in P.get('harness', []):
            if h.endswith('.py'):
                self.threads.append(threading.Thread(target=self.safe, args=(self.python, h)))
            else:
                for v in variants:
                    self.threads.append(threading.Thread(target=self.safe, args=(self.cxx, h, v)))
        for t in self.threads: t.start()

    def safe(self, fn, *a):
        try: fn(*a)
        except Exception as e:
            with self.lock:
                self.res.failures.append(NS(name=str(a[0]), variant='-', text='harness error: %r' % (e,), cmd='-', build=True))

    def cxx(self, h, v):
        src = os.path.join(HERE, 'harness', h + '.cc')
        d = os.path.join(self.wd, 'h_%s_%s' % (h, v))
        os.makedirs(d, exist_ok=True)
        astload.make_tu(os.path.join(d, 'wisard_tu.h'), v)
        exe = os.path.join(d, h)
        cmd = ['g++', '-std=c++11', '-w', '-O1', '-g1', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-sanitize=vptr,shift-base', '-D_GLIBCXX_ASSERTIONS',
               '-I', d, '-I', os.path.join(HERE, 'harness'), src, '-o', exe]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            with self.lock:
                self.res.failures.append(NS(name=h, variant=v, text='the harness does not compile against the current tree:\n' + r.stdout.decode('utf8', 'replace')[:1500], cmd=' '.join(cmd), build=True))
            return
        self.go([exe], h, v, self.seed, self.secs, d)
        with self.lock: self.extra_ok.append(([exe], h, v, d))

    def python(self, h):
        d = os.path.join(self.wd, 'h_py')
        with self.pylock:
            os.makedirs(d, exist_ok=True)
            if not self.pybuilt: self.pybuilt = subprocess.run(['bash', os.path.join(HERE, 'harness', 'buildpy.sh'), d, astload.REPO], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        r = self.pybuilt
        if r.returncode:
            with self.lock:
                self.res.failures.append(NS(name=h, variant='src', text='the Python module does not build:\n' + r.stdout.decode('utf8', 'replace')[-1500:], cmd='bash harness/buildpy.sh', build=True))
            return
        py = open(os.path.join(d, 'python')).read().strip()
        cmd = [py, os.path.join(HERE, 'harness', h)]
        self.go(cmd, h, 'src', self.seed, self.secs, d)
        with self.lock: self.extra_ok.append((cmd, h, 'src', d))

    def go(self, cmd, h, v, seed, secs, d):
        w = os.path.join(d, 'scratch_%s_%d' % (re.sub(r'\W', '_', h), seed))
        os.makedirs(w, exist_ok=True)
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:max_allocation_size_mb=3000', UBSAN_OPTIONS='print_stacktrace=1:abort_on_error=1', PYTHONPATH=d)
        full = cmd + [str(seed), str(secs)]
        try:
            r = subprocess.run(full, cwd=w, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=secs * 4 + 60)
            out, code = r.stdout.decode('utf8', 'replace'), r.returncode
        except subprocess.TimeoutExpired as e:
            out, code = (e.stdout or b'').decode('utf8', 'replace') + '\nTIMEOUT: the last case does not end', 99
        shutil.rmtree(w, ignore_errors=True)
        with self.lock:
            m = re.search(r'^CASES (\d+) (\d+)', out, flags=re.M)
            if m:
                self.res.evaluations += int(m.group(1)); self.res.distinct += int(m.group(2))
            self.res.samples += re.findall(r'^SAMPLE (.*)', out, flags=re.M)[:3]
            if code != 0:
                txt = out
                if len(txt) > 6000: txt = txt[:3500] + '\n...\n' + txt[-2500:]
                self.res.failures.append(NS(name=h, variant=v, text=re.sub(r'^SAMPLE.*\n', '', txt, flags=re.M), build=False,
                    cmd='seed %d, %g s: build harness/%s with -I of a wisard_tu.h that includes the %s sources, run with arguments %d %g' % (seed, secs, h, v, seed, secs)))

    def quick_fail(self):
        return bool(self.res.failures)

    def join(self, extra=False):
        for t in self.threads: t.join()
        real = [x for x in self.res.failures if not x.build]
        if extra and not real and self.extra_ok:
            # obligations failed: look harder for a failing input
            n = max(1, 6 // len(self.extra_ok))
            ts = []
            for cmd, h, v, d in self.extra_ok:
                for k in range(n):
                    ts.append(threading.Thread(target=self.safe, args=(lambda h, c, v, s, sec, dd: self.go(c, h, v, s, sec, dd), h, cmd, v, self.seed * 1000 + 17 + k, 45, d)))
            for t in ts: t.start()
            for t in ts: t.join()
        # a harness that does not build is not a failing input
        self.res.build = [x for x in self.res.failures if x.build]
        self.res.failures = [x for x in self.res.failures if not x.build]
        return self.res

def start(*a): return Run(*a)
