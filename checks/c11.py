"""C11: binnings."""
from walklib import *
LEVEL = 'model_checking'
CFG = 'SPECIFICATION Spec\nCONSTANT Top = %d\nINVARIANTS Partition Even Distinct WithinSize\n'


def random_binning(rng):
    k = rng.choice(['linspace', 'logspace', 'boundaries', 'linspace', 'logspace', 'boundaries', 'none', 'exact'])
    s = 10.0 ** rng.choice([-8, -2, 0, 0, 0, 2, 7])
    if k == 'none':
        return None, False
    if k == 'exact':
        lo = rng.randint(-50, 50)
        n = 2 ** rng.randint(0, 5)
        w = 2.0 ** rng.randint(-5, 4)
        return ('linspace', float(lo), lo + n * w, n), True
    if k == 'linspace':
        lo = rng.choice([0.0, -1.0, rng.uniform(-1, 1) * s])
        return ('linspace', lo, lo + rng.choice([1.0, 2.0, rng.uniform(0.01, 2) * s]), rng.choice([1, 2, 3, 7, 10, 20, rng.randint(1, 60)])), False
    if k == 'logspace':
        lo = rng.choice([-11.0, -3.0, 0.0, rng.uniform(-12, 3), rng.randint(-5, 2)])
        return ('logspace', lo, lo + rng.choice([1.0, 5.0, rng.uniform(0.1, 8)]), rng.choice([1, 2, 3, 7, 10, rng.randint(1, 40)]), rng.choice([None, 2.0, math.e, 10.0, 1.0625, 16.0])), False
    n = rng.choice([1, 1, 2, 3, rng.randint(1, 30)])
    b = sorted({rng.choice([rng.uniform(-1, 1) * s, float(rng.randint(-9, 9)), rng.gauss(0, 1)]) for _ in range(n)})
    if rng.random() < 0.3:
        b = sorted(set(b) | {math.nextafter(rng.choice(b), math.inf)})
    return ('boundaries', b), True


def bounds(b):
    if b is None:
        return [0.0, 1.0]
    if b[0] == 'boundaries':
        return b[1]
    x = [b[1] + i * (b[2] - b[1]) / b[3] for i in range(b[3] + 1)]
    return x if b[0] == 'linspace' else [(b[4] or 10.0) ** v for v in x]


def values(rng, b, exact):
    bs = bounds(b)
    out = [0.0, -0.0, 1.0, -1.0, math.inf, -math.inf, 1e300, -1e300, 5e-324]
    for x in bs:
        out += [x, math.nextafter(x, math.inf), math.nextafter(x, -math.inf), x * (1 + 1e-9), x * (1 - 1e-9)]
    for x, y in zip(bs, bs[1:]):
        out += [rng.uniform(x, y), (x + y) / 2]
    d = (bs[-1] - bs[0]) or 1.0
    out += [bs[0] - d * rng.random(), bs[-1] + d * rng.random(), rng.uniform(bs[0] - d, bs[-1] + d)]
    if exact and b and b[0] == 'linspace':
        # only values for which the arithmetic is exact
        out = [round(x * 1024) / 1024 for x in out if abs(x) < 1e4]
    return sorted(out)


def nums(text):
    if text == 'none':
        return []
    return [hx(float(x)) for x in text.split(', ') if x]


def run(ctx):
    ctx.model_check('MCBins', CFG % ctx.pick(3, 4), coverage=False, min_states=1000)
    exe = ctx.build(['bins'], 0)['bins']
    rng = ctx.rng
    lines, recs = [], []
    for i in range(ctx.pick(1600, 12000)):
        b, exact = random_binning(rng)
        vs = values(rng, b, exact)
        lines.append('one ' + (scen.bins_xml(b) if b else ''))
        lines.append('%d %s' % (len(vs), ' '.join(float(v).hex() if math.isfinite(v) else str(v) for v in vs)))
        recs.append(dict(t='one', b=scen.bins_model(b), exact=exact, vals=vs))
    for i in range(ctx.pick(6, 40)):
        n = rng.choice([rng.randint(257, 3000), 65536, rng.randint(65537, 200000), 10 ** 6])
        b = ('linspace', -1.0, 1.0, n) if i == 0 else rng.choice([('linspace', 0.0, 20.0, n), ('logspace', -11.0, 1.3, n, rng.choice([None, 10.0, 2.0])), ('linspace', rng.uniform(-9, 0), rng.uniform(1, 9), n)])
        lo, hi = (b[1], b[2]) if b[0] == 'linspace' else [(b[4] or 10.0) ** x for x in b[1:3]]
        vs = [lo, hi, lo - 1, hi + 1, math.nextafter(hi, -math.inf), lo + (hi - lo) / n / 2]
        for _ in range(60):
            x = rng.randint(0, n) if rng.random() < 0.4 else rng.uniform(0, n)
            x = b[1] + x * (b[2] - b[1]) / n
            vs.append(x if b[0] == 'linspace' else (b[4] or 10.0) ** x)
        vs.sort()
        lines.append('one ' + scen.bins_xml(b))
        lines.append('%d %s' % (len(vs), ' '.join(float(v).hex() for v in vs)))
        recs.append(dict(t='fine', b=scen.bins_model(b), vals=vs))
    for i in range(ctx.pick(800, 6000)):
        c = rng.choice([None, scen.bins(rng, 'cosine'), scen.bins(rng, 'cosine')])
        e = rng.choice([None, scen.bins(rng, 'group', rng.randint(1, 9)), scen.bins(rng, 'energy'), random_binning(rng)[0]])
        u = scen.direction(rng)
        xml = '<bins>' + ('<energy>%s</energy>' % scen.bins_xml(e) if e else '') + ('<cosine u="%s" v="%s" w="%s">%s</cosine>' % (*map(scen.num, u), scen.bins_xml(c)) if c else '') + '</bins>'
        if not c and not e and rng.random() < 0.5:
            xml = ''
        pts = []
        cb, eb = bounds(c), bounds(e)
        for _ in range(40):
            if rng.random() < 0.5:
                # a direction of given cosine with the reference
                mu = rng.choice([rng.choice(cb), rng.uniform(-1, 1)])
                mu = max(-1.0, min(1.0, mu))
                n = math.sqrt(sum(x * x for x in u))
                r = [x / n for x in u]
                k = min(range(3), key=lambda j: abs(r[j]))
                a = [(1.0 if j == k else 0.0) - r[k] * r[j] for j in range(3)]
                m = math.sqrt(sum(x * x for x in a))
                d = [mu * x + math.sqrt(1 - mu * mu) * y / m for x, y in zip(r, a)]
            else:
                d = scen.direction(rng)
            g = rng.random() < 0.4
            if g:
                en = rng.randint(1, 10)
            else:
                en = rng.choice([rng.choice(eb), rng.uniform(eb[0], eb[-1]), 10 ** rng.uniform(-9, 1.3)])
                en = max(en, 0.0)
            pts.append('%s %s %s' % (' '.join(float(x).hex() for x in d), 'g' if g else 'c', float(en).hex()))
        lines.append('all ' + xml)
        lines.append('%d %s' % (len(pts), ' '.join(pts)))
        recs.append(dict(t='all', cosine=scen.bins_model(c), ref=[hx(x) for x in u], energy=scen.bins_model(e)))
    r = ctx.probe(exe, [], stdin=('\n'.join(lines) + '\n').encode(), what='binnings')
    ans = [json.loads(x) for x in r.stdout.decode().splitlines()]
    if len(ans) != len(recs):
        raise CheckError('%d answers to %d questions' % (len(ans), len(recs)))
    for q, a in zip(recs, ans):
        q['size'] = a['size']
        try:
            if q['t'] == 'fine':
                q['vals'] = [[hx(v), i] for v, i in zip(q['vals'], a['i'])]
            elif q['t'] == 'one':
                q['vals'] = [[hx(v), i] for v, i in zip(q['vals'], a['i'])]
                q['printed'] = nums(a['text'])
            else:
                q['pts'] = a['pts']
                t = a['text'].split('\n')
                q['cosines'], q['energies'] = nums(t[2]), nums(t[6])
        except (ValueError, IndexError):
            q.update(size=-1, printed=[], cosines=[], energies=[])
    shards = [recs[i::NPROC] for i in range(NPROC)]
    rej = ctx.validate('BinTrace', [ctx.write_trace('b%d.ndjson' % i, s) for i, s in enumerate(shards)], need=['very many parts: linspace', 'linspace exact', 'linspace', 'logspace', 'boundaries exact', 'none'])
    for tr, no, rule in rej[:20]:
        ctx.violation('%s: %s' % (rule, json.dumps(read_ndjson(tr)[no - 1])[:600]), dict(record=read_ndjson(tr)[no - 1], rule=rule))
    ctx.samples += [json.dumps(recs[0])[:300], json.dumps(recs[-1])[:300]]
    ctx.assumptions.append('values within rounding error (1e-14 relative) of a computed boundary may lie on either side of it; explicit boundaries and the ends of equal spaces are compared exactly')
    n = sum(len(q.get('vals', q.get('pts', []))) for q in recs)
    # binnings in complete executions
    return dict(rule='%d values binned by %d random binnings' % (n, len(recs)), extra=dict(values=n))
