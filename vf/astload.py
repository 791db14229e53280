"""Load the typed clang AST of the current sources of /repo."""
import json, os, re, subprocess, sys, hashlib, tempfile, shutil

REPO = os.environ.get('VF_REPO', '/repo')

def header_lines():
    """The .cc files included by src/wisardpkg.h, in order (wrappers excluded)."""
    out = []
    for l in open(os.path.join(REPO, 'src/wisardpkg.h')):
        m = re.match(r'\s*#include\s+"([^"]+)"', l)
        if m:
            out.append(m.group(1))
    return out

def make_tu(path, variant):
    """variant 'src': built from src/; variant 'hpp': include/wisardpkg.hpp"""
    with open(path, 'w') as f:
        if variant == 'hpp':
            f.write('#include "%s/include/wisardpkg.hpp"\n' % REPO)
            return
        incs = header_lines()
        for i in incs:
            if i == 'base.h' or i.startswith('libs/'):
                f.write('#include "%s/src/%s"\n' % (REPO, i))
        f.write('namespace wisardpkg {\n')
        f.write('namespace nl = nlohmann;\n')
        for i in incs:
            if i == 'base.h' or i.startswith('libs/') or i.startswith('wrappers/'):
                continue
            f.write('#include "%s/src/%s"\n' % (REPO, i))
        f.write('}\n')

def clang_ast(tu, extra=()):
    cmd = ['clang++', '-std=c++11', '-fsyntax-only', '-Wno-everything', '-Xclang', '-ast-dump=json',
           '-Xclang', '-ast-dump-filter=wisardpkg'] + list(extra) + [tu]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if r.returncode != 0:
        raise ExtractError('clang: ' + r.stderr.decode('utf8', 'replace')[:2000])
    s = r.stdout.decode('utf8', 'replace')
    dec = json.JSONDecoder()
    docs, i = [], 0
    while True:
        while i < len(s) and s[i] in ' \r\n\t':
            i += 1
        if i >= len(s):
            break
        if s[i] != '{':
            i = s.index('\n', i) + 1
            continue
        d, i = dec.raw_decode(s, i)
        docs.append(d)
    return docs

class ExtractError(Exception):
    pass

def load(variant, workdir):
    tu = os.path.join(workdir, 'tu_%s.cc' % variant)
    make_tu(tu, variant)
    docs = clang_ast(tu)
    return [d for d in docs if d.get('kind') == 'NamespaceDecl']

# ---------------------------------------------------------------- debugging aid
def show(n, ind=0, maxd=99, out=sys.stdout):
    if not n or ind > maxd:
        return
    k = n.get('kind')
    t = n.get('type', {})
    s = '  ' * ind + str(k)
    for a in ('name', 'opcode', 'castKind', 'value', 'isPostfix', 'isArrow', 'valueCategory', 'init', 'list'):
        if a in n and not (a == 'valueCategory'):
            s += ' %s=%s' % (a, n[a])
    if t:
        s += ' <%s>' % t.get('qualType', '')
        if 'desugaredQualType' in t:
            s += ' ~<%s>' % t['desugaredQualType']
    if 'referencedDecl' in n:
        s += ' ->%s %s' % (n['referencedDecl'].get('kind'), n['referencedDecl'].get('name'))
    if 'ctorType' in n:
        s += ' ctor<%s>' % n['ctorType'].get('qualType')
    if 'anyInit' in n:
        s += ' init:%s' % n['anyInit'].get('name')
    if n.get('implicit') or n.get('isImplicit'):
        s += ' [implicit]'
    print(s, file=out)
    for c in n.get('inner', []):
        show(c, ind + 1, maxd, out)

if __name__ == '__main__':
    d = tempfile.mkdtemp()
    docs = load(sys.argv[1], d)
    shutil.rmtree(d)
    want = sys.argv[2:]
    def walk(n):
        if n.get('kind') in ('CXXMethodDecl', 'FunctionDecl', 'CXXConstructorDecl') and n.get('name') in want:
            show(n)
        for c in n.get('inner', []):
            walk(c)
    for x in docs:
        walk(x)
