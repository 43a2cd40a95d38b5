"""C17: tabulated data."""
from vlib import *
import cont, math
LEVEL = 'model_checking'
MC = 'SPECIFICATION Spec\nCONSTANTS MaxAxes = %d\n MaxLength = %d\nINVARIANTS OwnPlace Reproduces StaysBetween DrawsCover\n'


def axis(rng, n):
    k = rng.random()
    if k < 0.3:
        return [float(i) for i in range(n)]
    if k < 0.6:
        s = set()
        while len(s) < n:
            s.add(cont.logu(rng, 1e-11, 1e3))
        return sorted(s)
    a = sorted({rng.uniform(-5, 5) for _ in range(n)})
    if k > 0.9 and n > 1:
        a[1] = math.nextafter(a[0], math.inf)
        a = sorted(set(a))
    while len(a) < n:
        a.append(a[-1] + rng.random() + 0.1)
    return a


def run(ctx):
    ctx.model_check('MCTables', MC % ctx.pick((3, 3), (4, 3)), coverage=False, min_states=100)
    exe = ctx.build(['tables', 'h5w'], 2)
    rng = ctx.rng
    # every shape up to 3 x 3 x 3 and larger ones
    import itertools
    shapes = [s for d in (1, 2, 3) for s in itertools.product((1, 2, 3), repeat=d)]
    shapes += [s for s in itertools.product((1, 2), repeat=4)]
    for _ in range(ctx.pick(150, 2000)):
        shapes.append(tuple(rng.choice([1, 2, 3, 4, 5, 7]) for _ in range(rng.choice([1, 1, 2, 2, 3, 4]))))
    d = os.path.join(ctx.dir, 'data')
    files = cont.Files(d)
    lines, recs = [], []
    for s in shapes:
        n = math.prod(s)
        t = cont.ds([axis(rng, k) for k in s], [rng.choice([rng.uniform(-1, 1), rng.uniform(0, 10), 0.0]) for _ in range(n)])
        f = files.put(t)
        idx = list(itertools.product(*[range(k) for k in s]))
        rng.shuffle(idx)
        idx = idx[:150] + [tuple(k if i == j else rng.randrange(m) for i, m in enumerate(s)) for j, k in enumerate(s)]
        idx += [tuple(rng.randrange(2 * m + 1) for m in s) for _ in range(4)]
        keys = []
        for _ in range(24):
            q = []
            for a in t['axes']:
                i = rng.randrange(len(a))
                lo, hi = a[0], a[-1]
                w = (hi - lo) or 1.0
                q.append(rng.choice([a[i], a[i], rng.uniform(lo, hi), rng.uniform(lo, hi), rng.uniform(lo, hi), lo - w * rng.random(), hi + w * rng.random(), math.nextafter(a[i], math.inf), math.nextafter(a[i], -math.inf)]))
            keys.append(q)
        lines.append('set %s %d %d %s %d %s' % (f, len(s), len(idx), ' '.join(str(x) for i in idx for x in i), len(keys), ' '.join(float(x).hex() for k in keys for x in k)))
        recs.append(dict(cont.ds_model(t), t='file'))
    for _ in range(ctx.pick(150, 2000)):
        n = rng.randint(1, 9)
        c = sorted({rng.choice([rng.random(), rng.random(), k / 8]) for k in range(1, n)} - {0.0} | {1.0})
        us = [rng.random() for _ in range(20)] + [x for x in c[:-1]] + [math.nextafter(x, 0) for x in c] + [math.nextafter(x, 1) for x in c[:-1]] + [0.0]
        lines.append('cdf %d %s %d %s' % (len(c), ' '.join(x.hex() for x in c), len(us), ' '.join(str(min(2 ** 64 - 4096, int(u * 2 ** 64))) for u in us)))
        recs.append(None)
    files.write(exe['h5w'])
    out = ctx.probe(exe['tables'], [], stdin=('\n'.join(lines) + '\n').encode(), what='tables', timeout=300).stdout.decode().splitlines()
    if len(out) != len(recs):
        raise CheckError('%d answers' % len(out))
    pairs = [([r] if r else []) + [json.loads(o)] for r, o in zip(recs, out)]
    sh_ = [[] for _ in range(NPROC)]
    for i, p in enumerate(pairs):
        sh_[i % NPROC].extend(p)
    paths = [ctx.write_trace('t%d.ndjson' % i, s) for i, s in enumerate(sh_)]
    rej = ctx.validate('TableTrace', paths, need=['axes: %d' % k for k in (1, 2, 3, 4)] + ['cumulative distribution'])
    for tr, no, rule in rej[:20]:
        rs = read_ndjson(tr)
        ctx.violation('%s: %s' % (rule, json.dumps(rs[no - 1])[:500]), dict(file=rs[no - 2] if no > 1 else None, record=rs[no - 1], rule=rule))
    ctx.samples += [json.dumps(x)[:300] for x in pairs[20]]
    # interpolation and lookup in complete problems
    return dict(rule='%d tables of one to four axes, %d cumulative distributions' % (len(shapes), len(recs) - len(shapes)))
