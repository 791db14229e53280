# C21: every keyword argument takes the value given for it, its default otherwise
import sys, random, time, json, os, math
import wisardpkg as wp
seed, secs = int(sys.argv[1]), float(sys.argv[2])
rng = random.Random(seed)
ctx, samples, n, seen = '', 0, 0, set()
fd = os.dup(1); null = os.open(os.devnull, os.O_WRONLY)
def fail(msg):
    os.dup2(fd, 1); print('FAILS: %s\ncase:\n%s' % (msg, ctx)); sys.stdout.flush(); os._exit(1)
def check(c, msg):
    if not c: fail(msg)
def throws(f):
    try: f()
    except Exception: return True
    return False
def pick(opts): return {k: v for k, v in opts.items() if rng.random() < .45}
def same(got, want, what):
    for k, v in want.items():
        if k in got or True: check(got.get(k) == v, '%s: %s is %r instead of %r' % (what, k, got.get(k), v))
B = lambda: rng.random() < .5
def image(n, b): return [rng.randrange(b) for _ in range(n)]
def outputs(model, X, e, kind, rn):
    out = model.classify(X)
    check(len(out) == len(X), 'number of answers')
    for o in out:
        if not (e['returnConfidence'] or e['returnActivationDegree'] or e['returnClassesDegrees']):
            check(isinstance(o, str), 'answer is %r' % (o,)); continue
        want = {'class'} | ({'confidence'} if e['returnConfidence'] else set()) | ({'activationDegree'} if e['returnActivationDegree'] else set()) | ({'classesDegrees'} if e['returnClassesDegrees'] else set())
        check(isinstance(o, dict) and set(o) == want, 'answer is %r' % (o,))
def wisard():
    global ctx
    entry, as_, base = rng.randint(4, 14), rng.randint(2, 4), rng.randint(2, 7)
    ix = list(range(entry)); rng.shuffle(ix)
    mp = {l: [[rng.randrange(entry) for _ in range(rng.randint(1, 4))] for _ in range(rng.randint(1, 4))] for l in ('a', 'b')}
    o = pick(dict(bleachingActivated=B(), verbose=B(), ignoreZero=B(), completeAddressing=B(), mapping=mp, indexes=ix, base=base, confidence=rng.randint(-1, 6), searchBestConfidence=B(), returnConfidence=B(), returnActivationDegree=B(), returnClassesDegrees=B()))
    ctx = 'Wisard(%d, %r) entry %d' % (as_, o, entry)
    w = wp.Wisard(as_, **o)
    e = dict(bleachingActivated=True, verbose=False, ignoreZero=False, completeAddressing=True, mapping={}, indexes=[], base=2, confidence=1, returnConfidence=False, returnActivationDegree=False, returnClassesDegrees=False, addressSize=as_)
    e.update({k: v for k, v in o.items() if k != 'searchBestConfidence'})
    same(json.loads(w.json()), e, 'json'); same(json.loads(w.jsonConfig()), e, 'jsonConfig')
    rn = entry // as_ + (1 if e['completeAddressing'] and entry % as_ else 0)
    labels = ['a', 'b', 'z']; X = [image(entry, e['base']) for _ in labels]
    t = throws(lambda: w.train(X, labels)); check(t == (e['confidence'] > rn), 'confidence %d with %d RAMs: %s' % (e['confidence'], rn, t))
    if t: return
    c = json.loads(w.json())['classes']
    for l in labels:
        m = c[l]['mapping']
        if l in e['mapping']: check(m == e['mapping'][l], 'mapping of %s is %r' % (l, m))
        elif e['indexes']: check(m == [ix[i * as_:(i + 1) * as_] for i in range(entry // as_)], 'mapping by indexes %r' % (m,))
        else: check(len(m) == rn and all(len(r) == as_ for r in m), 'RAMs of %s: %r' % (l, m))
    outputs(w, X, e, 'Wisard', rn)
    r = wp.Wisard(w.json()); same(json.loads(r.json()), e, 'restored')
def cluswisard():
    global ctx
    entry, as_, base = rng.randint(4, 14), rng.randint(2, 4), rng.randint(2, 7)
    ms = rng.choice([0.0, 1.0, .25, .5, .1]) if rng.random() < .7 else rng.choice([-.5, 1.5, float('nan'), float('inf')])
    th, lim = rng.randint(-1, 9) if B() else rng.randint(1, 2**31 - 1), rng.randint(-1, 9)
    o = pick(dict(bleachingActivated=B(), verbose=B(), ignoreZero=B(), completeAddressing=B(), base=base, confidence=rng.randint(-1, 6), searchBestConfidence=B(), returnConfidence=B(), returnActivationDegree=B(), returnClassesDegrees=B()))
    ctx = 'ClusWisard(%d, %r, %d, %d, %r) entry %d' % (as_, ms, th, lim, o, entry)
    ok = 0 <= ms <= 1 and th >= 1 and lim >= 1
    t = throws(lambda: wp.ClusWisard(as_, ms, th, lim, **o)); check(t != ok, 'rejected' if t else 'accepted')
    if t: return
    w = wp.ClusWisard(as_, ms, th, lim, **o)
    e = dict(bleachingActivated=True, verbose=False, ignoreZero=False, completeAddressing=True, base=2, confidence=1, returnConfidence=False, returnActivationDegree=False, returnClassesDegrees=False, addressSize=as_, threshold=th, discriminatorsLimit=lim)
    e.update({k: v for k, v in o.items() if k != 'searchBestConfidence'})
    j = json.loads(w.json()); same(j, e, 'json'); check(abs(j['minScore'] - ms) < 1e-6, 'minScore %r' % j['minScore']); same(json.loads(w.jsonConfig()), e, 'jsonConfig')
    rn = entry // as_ + (1 if e['completeAddressing'] and entry % as_ else 0)
    X = [image(entry, e['base']) for _ in range(3)]; labels = ['a', 'b::', 'a']
    t = throws(lambda: w.train(X, labels)); check(t == (e['confidence'] > rn), 'confidence %d with %d RAMs: %s' % (e['confidence'], rn, t))
    if t: return
    c = json.loads(w.json())['clusters']
    for l in c:
        for d in c[l]['discriminators']: check(len(d['mapping']) == rn, 'RAMs %r' % (d['mapping'],))
    outputs(w, X, e, 'ClusWisard', rn)
    check(throws(lambda: w.train([[e['base']] * entry], ['a'])), 'a value equal to the base')
def disc():
    global ctx
    entry, as_, base = rng.randint(4, 14), rng.randint(2, 4), rng.randint(2, 7)
    ix = list(range(entry)); rng.shuffle(ix)
    mp = [[rng.randrange(entry) for _ in range(rng.randint(1, 4))] for _ in range(rng.randint(1, 4))]
    o = pick(dict(ignoreZero=B(), completeAddressing=B(), base=base, indexes=ix, mapping=mp))
    ctx = 'Discriminator(%d, %d, %r)' % (as_, entry, o)
    d = wp.Discriminator(as_, entry, **o)
    e = dict(ignoreZero=False, base=2, entrySize=entry, count=0); e.update({k: v for k, v in o.items() if k in e})
    j = json.loads(d.json()); same(j, e, 'json'); m = j['mapping']
    if 'mapping' in o: check(m == mp, 'mapping %r' % (m,))
    elif 'indexes' in o: check(m == [ix[i * as_:(i + 1) * as_] for i in range(entry // as_)], 'mapping by indexes %r' % (m,))
    else: check(len(m) == entry // as_ + (1 if o.get('completeAddressing', True) and entry % as_ else 0) and all(len(r) == as_ for r in m), 'RAMs %r' % (m,))
    z = [0] * entry; d.train(z); v = d.classify(z); check(v == [0 if e['ignoreZero'] else 1] * len(m), 'votes %r' % (v,))
    for p in range(entry):
        x = [0] * entry; x[p] = e['base']; check(throws(lambda: d.classify(x)) == any(p in r for r in m), 'a value equal to the base at %d' % p)
def canvas():
    global ctx
    dim, ks = rng.randint(1, 4), rng.randint(1, 60)
    o = pick(dict(bitsByKernel=rng.randint(1, 6), activationDegree=rng.randint(0, 64) / 64, useDirection=B()))
    ctx = 'KernelCanvas(%d, %d, %r)' % (dim, ks, o)
    k = wp.KernelCanvas(dim, ks, **o); bits, act = o.get('bitsByKernel', 3), o.get('activationDegree', .07)
    s = [[float(rng.randint(0, 99)) for _ in range(dim)] for _ in range(rng.randint(1, 6))]
    out = k.transform(s); check(len(out) == bits * ks, 'output of %d values' % len(out))
    for i in range(ks): check(len(set(out[i * bits:(i + 1) * bits])) == 1, 'bits of kernel %d' % i)
    one = wp.KernelCanvas(dim, ks, **dict(o, useDirection=False)); out = one.transform([[float(rng.randint(0, 9)) for _ in range(dim)]])
    want = act * ks
    if abs(want - math.floor(want) - .5) > 1e-3: check(sum(out) == bits * int(math.floor(want + .5)), '%d active values, %g kernels to activate' % (sum(out), want))
    if rng.random() < .2:
        big = 238609295
        if o.get('useDirection'): check(throws(lambda: wp.KernelCanvas(big, 1, **o)), 'useDirection with a dimension too big')
    # without direction the order of the points does not matter, with it it does
    q = [[float(rng.randint(0, 9)) for _ in range(2)] for _ in range(4)]
    for p in range(2): q[0][p], q[1][p] = 0.0, 9.0
    same_order = True
    for _ in range(12):
        a = {x: v for x, v in o.items()}; a['activationDegree'] = .05; a.pop('bitsByKernel', None)
        c = wp.KernelCanvas(2, 80, **a); u = c.transform(q)
        r = q[:]; rng.shuffle(r)
        if c.transform(r) != u: same_order = False
    if not o.get('useDirection', False): check(same_order, 'the order of the points matters without useDirection')
    else: check(not same_order, 'the order of the points never matters with useDirection')
end = time.time() + secs
while time.time() < end:
    sys.stdout.flush(); os.dup2(null, 1)
    rng.choice([wisard, wisard, cluswisard, cluswisard, disc, canvas])()
    n += 1; seen.add(ctx)
    if n <= 3: os.write(fd, ('SAMPLE %s\n' % ctx[:400]).encode())
os.dup2(fd, 1)
print('CASES %d %d' % (n, len(seen)))
