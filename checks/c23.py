"""C23: directions."""
from statlib import *
LEVEL = 'model_checking'
MCD = 'SPECIFICATION Spec\nCONSTANT MaxTurns = %d\nINVARIANTS StaysUnit TurnedByTheCosine JudgeAgrees\n'


def some_direction(rng):
    """along and near axes, next to the limits of any hourglass, anywhere"""
    k = rng.random()
    ax = rng.randrange(3)
    v = [rng.gauss(0, 1) for _ in range(3)]
    if k < 0.15:
        v = [0.0] * 3
        v[ax] = rng.choice([1.0, -1.0])
    elif k < 0.45:
        # near an axis, down to a single bit
        e = 10.0 ** rng.uniform(-300, -1) if rng.random() < 0.2 else 10.0 ** rng.uniform(-18, -1)
        v = [e * rng.choice([0, 1, 1]) * rng.gauss(0, 1) for _ in range(3)]
        v[ax] = rng.choice([1.0, -1.0])
    elif k < 0.6:
        c = rng.choice([0.9, 0.99, 0.999, 0.5, 0.95]) + rng.choice([0, 1e-16, -1e-16, 1e-9, -1e-9])
        f = rng.uniform(0, 2 * math.pi)
        s = math.sqrt(1 - c * c)
        v = [0, 0, 0]
        v[ax], v[(ax + 1) % 3], v[(ax + 2) % 3] = rng.choice([1, -1]) * c, s * math.cos(f), s * math.sin(f)
    elif k < 0.7:
        v[ax] = 0.0
    n = math.sqrt(sum(x * x for x in v))
    return [x / n for x in v]


def cosine(rng):
    return rng.choice([1.0, -1.0, 0.0, rng.uniform(-1, 1), rng.uniform(-1, 1), rng.uniform(-1, 1), math.nextafter(1, 0), 1 - 10 ** rng.uniform(-15, -1), -1 + 10 ** rng.uniform(-15, -1)])


def run(ctx):
    ctx.model_check('MCDirections', MCD % ctx.pick(3, 6), coverage=False, min_states=20)
    exe = ctx.build(['dirs', 'stats'], 2)
    rng = ctx.rng
    h = lambda v: ' '.join(float(x).hex() for x in v)
    lines = []
    for _ in range(ctx.pick(1200, 12000)):
        q = [(cosine(rng), rng.choice([rng.uniform(0, 2 * math.pi), rng.randint(0, 8) * math.pi / 4])) for _ in range(8)]
        # the first is a reference beside the direction
        q[0] = (rng.uniform(-0.7, 0.7), q[0][1])
        lines.append('turns %s %d %s' % (h(some_direction(rng)), len(q), ' '.join(h(x) for x in q)))
    for _ in range(ctx.pick(60, 400)):
        n = rng.randint(20, 120)
        turns = [rng.choice([cosine(rng), rng.choice([0.0, 1.0, -1.0, 0.99999])]) for _ in range(n)]
        lines.append('chain %s %d %d %s' % (h(some_direction(rng)), rng.randint(1, 10 ** 6), n, h(turns)))
    for _ in range(ctx.pick(400, 4000)):
        s = 10.0 ** rng.uniform(-100, 100) if rng.random() < 0.3 else rng.choice([1, 3, 1e-3, 1e4])
        lines.append('scale ' + h([x * s for x in some_direction(rng)]))
    for _ in range(ctx.pick(30, 100)):
        lines.append('azimuth %s %d %d' % (h(some_direction(rng)), rng.randint(1, 10 ** 9), ctx.pick(40000, 400000)))
    lines.append('isotropic %d %d' % (rng.randint(1, 10 ** 9), ctx.pick(200000, 3000000)))
    out = ctx.probe(exe['dirs'], [], stdin=('\n'.join(lines) + '\n').encode(), what='directions', timeout=300).stdout.decode().splitlines()
    recs = [json.loads(x) for x in out]
    paths = [ctx.write_trace('d%d.ndjson' % i, recs[i::NPROC]) for i in range(NPROC)]
    rej = ctx.validate('DirTrace', paths, need=['turns near an axis', 'turns away from the axes', 'chain of scatterings', 'histogram'])
    for tr, no, rule in rej[:20]:
        r = read_ndjson(tr)[no - 1]
        ctx.violation('%s: %s' % (rule, json.dumps(r)[:500]), dict(record=r, rule=rule))
    ctx.samples += [json.dumps(recs[0])[:300], json.dumps(recs[-1])[:300]]
    # directions in complete executions
    n = run_stats(ctx, 'C23', ctx.pick(16, 100), ctx.pick(30000, 200000), exe=exe['stats'])
    return dict(rule='%d directions, chains of scatterings and histograms; directions of source particles of random problems' % len(recs), extra=dict(records=len(recs), collisions=n))
