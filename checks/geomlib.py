"""Cases shared by C01 and C02."""
import math
from vlib import *
import scen


def fl(v):
    return float(v).hex()


def exact_world(rng, k=None):
    """Small integer geometry: all floating point operations are exact."""
    sc = scen.Scenario()
    sc.surfaces = []
    for i in range(k or rng.randint(2, 4)):
        kind = rng.choice(['sphere', 'planex', 'cylinderx', 'sphere'])
        n = scen.nm(rng, 's%d' % i)
        if kind == 'sphere':
            sc.surfaces.append(dict(kind=kind, name=n, c=tuple(rng.randint(-2, 2) for _ in range(3)), r=rng.randint(1, 3)))
        elif kind == 'planex':
            sc.surfaces.append(dict(kind=kind, name=n, x=rng.randint(-2, 2)))
        else:
            sc.surfaces.append(dict(kind=kind, name=n, r=rng.randint(1, 3)))
    cells(rng, sc)
    return sc


def cells(rng, sc):
    """Arbitrary cells: overlapping, incomplete, all senses"""
    k = len(sc.surfaces)
    sigs, out = set(), []
    for i in range(rng.randint(2, 6)):
        sides = [(s, rng.random() < 0.6) for s in rng.sample(range(k), rng.randint(1, k))]
        void = rng.random() < 0.3
        c = dict(name=None if void else scen.nm(rng, 'c%d' % i), sides=sides, mat=None if void else 0)
        out.append(c)
    out.append(dict(name='last', sides=[(s, True) for s in range(k)], mat=0))
    sc.cells = []
    for c in out:
        sg = (c['name'] or '') + str(sorted(c['sides']))
        if sg not in sigs:
            sigs.add(sg)
            sc.cells.append(c)
    finish(sc)


def finish(sc):
    sc.nuclides = [dict(name='n', data=dict(neutron=dict(capture=[1.0])))]
    sc.groups = 1
    sc.materials = [dict(name='m', aden=1.0, comps=[(0, 1.0)])]
    for c in sc.cells:
        if c['mat'] is not None:
            c['mat'] = 0
    sc.estimators = []
    # only surfaces used by a cell exist for the program
    used = sc.used_surfaces()
    ren = {o: i for i, o in enumerate(used)}
    sc.surfaces = [sc.surfaces[i] for i in used]
    for c in sc.cells:
        c['sides'] = [(ren[s], n) for s, n in c['sides']]


def random_world(rng):
    sc = scen.Scenario()
    scale = rng.choice([1, 1, 1, 10, 1000, 1e-2, 1e5])
    rng.crowd = rng.random() < 0.08
    scen.geometry(rng, sc, None, scale)
    sc.scale = scale
    if rng.random() < 0.3:
        cells(rng, sc)
    else:
        finish(sc)
    sigs = [sc.sig(c) for c in sc.cells]
    if len(set(sigs)) < len(sigs):
        return random_world(rng)
    return sc


def lattice_points(m, half=False):
    r = [x / (2 if half else 1) for x in range(-m * (2 if half else 1), m * (2 if half else 1) + 1)]
    return [(x, y, z) for x in r for y in r for z in r]


def random_point(rng, sc):
    """points everywhere, many of them on or next to surfaces"""
    sf = rng.choice(sc.surfaces)
    sc_ = getattr(sc, 'scale', 1)
    kind = rng.random()
    if kind < 0.4:
        return tuple(rng.uniform(-4, 4) * sc_ for _ in range(3))
    d = scen.direction(rng, unit=True)
    f = rng.choice([1, 1, 1 + 1e-15, 1 - 1e-15, 1 + 1e-9, 1 - 1e-9, 0.999, 1.001, rng.uniform(0, 2)])
    if sf['kind'] == 'sphere':
        return tuple(c + sf['r'] * f * x for c, x in zip(sf['c'], d))
    if sf['kind'] == 'planex':
        return (sf['x'] * f if sf['x'] else (f - 1), rng.uniform(-4, 4) * sc_, rng.uniform(-4, 4) * sc_)
    a = rng.uniform(0, 2 * math.pi)
    return (rng.uniform(-4, 4) * sc_, sf['r'] * f * math.cos(a), sf['r'] * f * math.sin(a))


def run_queries(ctx, exe, sc, queries, tag):
    d = os.path.join(ctx.dir, 'g' + tag)
    path = sc.write(d)
    sigs = [sc.sig(c) for c in sc.cells]
    q = ['sig %d %s' % (len(sigs), scen.toks(sigs)), 'surf %d %s' % (len(sc.surfaces), scen.toks(s['name'] for s in sc.surfaces))] + queries
    r = ctx.probe(exe, [path], stdin=('\n'.join(q) + '\n').encode(), what='geometry queries')
    recs = [json.loads(x) for x in r.stdout.decode().splitlines()]
    if len(recs) != len(queries):
        raise CheckError('probe answered %d of %d' % (len(recs), len(queries)))
    return [dict(t='world', w=sc.world_model())] + recs


def judge(ctx, exe, jobs, need):
    """jobs: list of (scenario, queries)."""
    shards = [[] for _ in range(NPROC)]
    for i, (sc, q) in enumerate(jobs):
        shards[i % NPROC] += run_queries(ctx, exe, sc, q, str(i))
    paths = [ctx.write_trace('t%d.ndjson' % i, s) for i, s in enumerate(shards) if s]
    rej = ctx.validate('GeomTrace', paths, need=need)
    for tr, n, _ in rej:
        recs = read_ndjson(tr)
        w = max(i for i in range(n) if recs[i]['t'] == 'world')
        ctx.violation('the answer %s is not what the geometry prescribes' % json.dumps(recs[n - 1]), dict(world=recs[w], record=recs[n - 1]))
    ctx.samples += [recs for p in paths[:1] for recs in read_ndjson(p)[:3]]
