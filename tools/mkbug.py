"""python3 tools/mkbug.py SPEC.py : plant the bugs of a spec file (list BUGS of dicts id, property, edits [(file, old, new)], demo, needs, breaks),
verify each (tests pass with it, demo fails with it and passes without) and write seeded/<id>/. Works in /repo and undoes everything."""
import sys, os, subprocess, json, shutil
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
DEMO = '''#!/bin/bash
# run with cwd = the repository, after the build
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir "$d/include"; ln -s "$PWD/src" "$d/src"
(cd "$d" && python3 "$OLDPWD/generate_include.py") || exit 2
g++ -std=c++11 -w -O1 -I "$d/include" "$here/demo.cc" -o "$d/demo" || exit 3
cd "$d" && timeout 120 ./demo
'''
def sh(c, **k): return subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, shell=isinstance(c, str), **k)
def tests():
    o = '/tmp/mkbug_out.json'
    sh(['bash', '/opt/vp/test.sh', o])
    base = json.load(open('/opt/vp/BASELINE.json'))
    try: r = json.load(open(o))
    except Exception: return False, 'no test result'
    return r, base
def flat(x, pre=''):
    return x
def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    for b in ns['BUGS']:
        if only and b['id'] not in only: continue
        d = os.path.join(HERE, 'seeded', b['id'])
        sh(['git', '-C', REPO, 'checkout', '--', '.'])
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, 'demo.cc'), 'w').write('#include "wisardpkg.hpp"\n#include <cstdio>\nusing namespace wisardpkg;\nnamespace nlj = nlohmann;\n' + b['demo'] if 'demo' in b else '')
        open(os.path.join(d, 'demo.sh'), 'w').write(b.get('sh', DEMO))
        if 'py' in b: open(os.path.join(d, 'demo.py'), 'w').write(b['py'])
        if 'demo' not in b: os.remove(os.path.join(d, 'demo.cc'))
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        ok = True
        if 'py' in b: sh(['bash', '/opt/vp/build.sh'])
        r0 = sh(['bash', os.path.join(d, 'demo.sh')], cwd=REPO)
        for f, old, new in b['edits']:
            p = os.path.join(REPO, f)
            s = open(p).read()
            if s.count(old) != 1: print(b['id'], 'BAD EDIT', f, repr(old), s.count(old)); ok = False; break
            open(p, 'w').write(s.replace(old, new))
        if ok:
            diff = sh(['git', '-C', REPO, 'diff']).stdout
            open(os.path.join(d, 'patch.diff'), 'wb').write(diff)
            r, base = tests()
            r1 = sh(['bash', os.path.join(d, 'demo.sh')], cwd=REPO)
            sh(['git', '-C', REPO, 'checkout', '--', '.'])
            want = set(base.get('passing') or base.get('passed') or base.get('stable') or [])
            got = set(r.get('passed') or r.get('passing') or []) if isinstance(r, dict) else set()
            miss = sorted(want - got)
            print(b['id'], 'demo clean rc', r0.returncode, 'demo bug rc', r1.returncode, 'tests missing', miss[:4], len(want), len(got))
            if r0.returncode or not r1.returncode: print(r0.stdout.decode()[-300:], r1.stdout.decode()[-300:])
        sh(['git', '-C', REPO, 'checkout', '--', '.'])
    sh(['bash', '/opt/vp/build.sh'])
main()
