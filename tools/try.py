"""python3 tools/try.py SPEC.py [ids]: apply each edit set of a spec (list EDITS or BUGS of dicts id, edits [(file, old, new)], checks/property)
to a scratch copy of /repo and run the checks on it (VF_REPO). Prints each check's verdict. Used for planted bugs and for refactorings."""
import sys, os, subprocess, shutil, tempfile, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
for b in ns.get('EDITS', []) + ns.get('BUGS', []):
    if only and b['id'] not in only: continue
    d = tempfile.mkdtemp(prefix='vftry')
    try:
        subprocess.run('cp -a /repo/. %s/ && rm -rf %s/.git %s/build' % (d, d, d), shell=True)
        bad = False
        for f, old, new in b['edits']:
            p = os.path.join(d, f)
            s = open(p).read()
            if s.count(old) != 1: print(b['id'], 'BAD EDIT', repr(old[:60]), s.count(old)); bad = True; break
            open(p, 'w').write(s.replace(old, new))
        if bad: continue
        for c in b.get('checks') or [b['property']]:
            t = time.time()
            r = subprocess.run([sys.executable, '-m', 'vf.check', c], cwd=HERE, env=dict(os.environ, VF_REPO=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            ls = [l for l in r.stdout.splitlines() if l.strip()]
            vi = [l for l in ls if l.startswith('VIOLATION')]
            print('%-28s %s rc %d %4.0f s  %s' % (b['id'], c, r.returncode, time.time() - t, (vi or ls[-1:] or [''])[0][:150]), flush=True)
            if r.returncode:
                for l in ls[-int(os.environ.get('L', '4')):]: print('      ' + l[:260], flush=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)
