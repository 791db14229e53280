# the answers of the Python models (labels, degrees, confidences) against an oracle on the contents of the model
import sys, random, time, json, os, struct, base64
import wisardpkg as wp
seed, secs = int(sys.argv[1]), float(sys.argv[2])
rng = random.Random(seed)
ctx, n, seen = '', 0, set()
fd = os.dup(1); null = os.open(os.devnull, os.O_WRONLY)
def fail(msg):
    os.dup2(fd, 1); print('FAILS: %s\ncase:\n%s' % (msg, ctx[:4000])); sys.stdout.flush(); os._exit(1)
def check(c, msg):
    if not c: fail(msg)
B = lambda: rng.random() < .5
class Disc:
    def __init__(self, j, iz, base):
        self.m, self.iz, self.base, self.entry = j['mapping'], iz, base, j['entrySize']
        self.ram = []
        bl = j['data'].split('.')
        for i in range(len(self.m)):
            s = base64.b64decode(bl[i]) if i < len(bl) else b''
            self.ram.append({struct.unpack('<Q', s[k:k + 8])[0]: struct.unpack('<i', s[k + 8:k + 12])[0] for k in range(0, len(s), 12)})
    def votes(self, x):
        out = []
        for m, r in zip(self.m, self.ram):
            a = sum(x[p] * self.base ** i for i, p in enumerate(m))
            out.append(0 if self.iz and a == 0 else r.get(a, 0))
        return out
def degrees(votes, bleach, conf):
    b = 1
    while True:
        d = {l: sum(1 for x in v if x >= b) for l, v in votes.items()}
        if not bleach: return d
        s = sorted(d.values(), reverse=True)
        top = s[0] if s else 0
        amb = len(s) >= 2 and s[0] - s[1] < conf
        if not amb or top <= 1: return d
        b += 1
def winner(d):
    l, best = '', 0
    for k in sorted(d, key=lambda k: k.encode()):
        if d[k] >= best: best, l = d[k], k
    return l
def second(d, big):
    s = [v for v in d.values() if v < big]
    return max(s) if s else 0
def near(a, b): return abs(a - b) < 1e-5
def compare(got, d, label, o, rn, cut):
    cls = cut(label)
    if not (o['returnConfidence'] or o['returnActivationDegree'] or o['returnClassesDegrees']):
        check(got == cls, 'answer %r instead of %r, degrees %r' % (got, cls, d)); return
    check(isinstance(got, dict) and got['class'] == cls, 'answer %r instead of %r, degrees %r' % (got, cls, d))
    big = d.get(label, 0)
    if o['returnActivationDegree']: check(near(got['activationDegree'], big / rn), 'activationDegree %r, degrees %r of %d' % (got, d, rn))
    else: check('activationDegree' not in got, 'activationDegree not asked for')
    if o['returnConfidence']: check(near(got['confidence'], 0 if big == 0 else (big - second(d, big)) / big), 'confidence %r, degrees %r' % (got, d))
    else: check('confidence' not in got, 'confidence not asked for')
    if o['returnClassesDegrees']:
        t = sum(d.values()) or 1; ks = sorted(d, key=lambda k: k.encode())
        check(len(got['classesDegrees']) == len(ks), 'classesDegrees %r' % (got,))
        for g, k in zip(got['classesDegrees'], ks): check(g['class'] == cut(k) and near(g['degree'], d[k] / t), 'classesDegrees %r, degrees %r' % (got, d))
    else: check('classesDegrees' not in got, 'classesDegrees not asked for')
LAB = ['a', 'b', 'c', 'dd', '::', 'a::1', 'x::', '']
def options(base, rn): return dict(bleachingActivated=rng.random() < .8, ignoreZero=rng.random() < .3, completeAddressing=B(), base=base, confidence=1 if rng.random() < .7 else rng.randint(0, min(2, rn)), searchBestConfidence=rng.random() < .2, returnConfidence=B(), returnActivationDegree=B(), returnClassesDegrees=B())
def image(e, b):
    z = rng.choice([.2, .5, .9]); return [0 if rng.random() < z else rng.randrange(b) for _ in range(e)]
def wisard():
    global ctx
    base = 2 if rng.random() < .7 else rng.randint(3, 4); entry = rng.randint(4, 16); as_ = rng.randint(2, 4); ca = B(); rn = entry // as_ + (1 if ca and entry % as_ else 0); o = options(base, rn); o['completeAddressing'] = ca
    ctx = 'Wisard(%d, %r)\n' % (as_, o); w = wp.Wisard(as_, **o)
    pool = [image(entry, base) for _ in range(rng.randint(2, 8))]; labs = rng.sample(LAB[:-1], rng.randint(1, 4)); ds = B() and base == 2
    X = [rng.choice(pool) for _ in range(rng.randint(1, 14))]; y = [rng.choice(labs) for _ in X]
    ctx += 'train %r %r\n' % (X, y)
    def data(X, y=None):
        d = wp.DataSet()
        for i, x in enumerate(X):
            if y: d.add(wp.BinInput(x), y[i])
            else: d.add(wp.BinInput(x))
        return d
    if ds: w.train(data(X, y))
    else: w.train(X, y)
    Q = [rng.choice(pool) if B() else image(entry, base) for _ in range(rng.randint(0, 5))]
    ctx += 'classify %r\n' % (Q,)
    ok = True
    cl = {l: Disc(j, o['ignoreZero'], base) for l, j in json.loads(w.json())['classes'].items()}
    check(set(cl) == set(y), 'classes %r' % (sorted(cl),))
    got = w.classify(data(Q)) if ds else w.classify(Q); check(len(got) == len(Q), '%d answers' % len(got))
    rn = entry // as_ + (1 if o['completeAddressing'] and entry % as_ else 0)
    for q, g in zip(Q, got):
        d = degrees({l: c.votes(q) for l, c in cl.items()}, o['bleachingActivated'], o['confidence'])
        compare(g, d, winner(d), o, rn, lambda l: l)
    im = w.getMentalImages(); check(set(im) == set(cl), 'mental images of %r' % (sorted(im),))
def clus():
    global ctx
    base = 2 if rng.random() < .7 else 3; entry = rng.randint(4, 14); as_ = rng.randint(2, 4); ca = B(); rn = entry // as_ + (1 if ca and entry % as_ else 0); o = options(base, rn); o['completeAddressing'] = ca; a = (as_, rng.choice([0.0, .1, .5, 1.0]), rng.randint(1, 9), rng.randint(1, 12))
    ctx = 'ClusWisard(%r, %r)\n' % (a, o); w = wp.ClusWisard(*a, **o)
    pool = [image(entry, base) for _ in range(rng.randint(2, 12))]; labs = rng.sample(LAB, rng.randint(1, 4))
    X = [rng.choice(pool) for _ in range(rng.randint(1, 30))]; y = [rng.choice(labs) for _ in X]
    ctx += 'train %r %r\n' % (X, y); w.train(X, y)
    Q = [rng.choice(pool) if B() else image(entry, base) for _ in range(rng.randint(0, 5))]
    ctx += 'classify %r\n' % (Q,)
    cl = {'%s::%d' % (l, i): Disc(j, o['ignoreZero'], base) for l, c in json.loads(w.json())['clusters'].items() for i, j in enumerate(c['discriminators'])}
    got = w.classify(Q); check(len(got) == len(Q), '%d answers' % len(got))
    rn = entry // as_ + (1 if o['completeAddressing'] and entry % as_ else 0)
    for q, g in zip(Q, got):
        d = degrees({l: c.votes(q) for l, c in cl.items()}, o['bleachingActivated'], o['confidence'])
        compare(g, d, winner(d), o, rn, lambda l: l[:l.rfind('::')])
    w.trainUnsupervised(X); u = w.classifyUnsupervised(Q)
    cl = {str(i): Disc(j, o['ignoreZero'], base) for i, j in enumerate(json.loads(w.json())['unsupervisedCluster']['discriminators'])}
    for q, g in zip(Q, u):
        d = degrees({l: c.votes(q) for l, c in cl.items()}, o['bleachingActivated'], 1); check(g == winner(d), 'unsupervised answer %r instead of %r, degrees %r' % (g, winner(d), d))
end = time.time() + secs
while time.time() < end:
    sys.stdout.flush(); os.dup2(null, 1)
    (wisard if B() else clus)()
    n += 1; seen.add(ctx)
    if n <= 3: os.write(fd, ('SAMPLE %s\n' % ctx[:400].replace('\n', ';')).encode())
os.dup2(fd, 1)
print('CASES %d %d' % (n, len(seen)))
