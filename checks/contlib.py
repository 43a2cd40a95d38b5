"""Continuous-energy (and multigroup) problems queried point by point."""
from vlib import *
import math, scen, cont


def usable(sc, extra=0):
    return sc.used_surfaces() == list(range(len(sc.surfaces)))


def cont_problem(rng, ptypes=None, nn=None, thermal=0.3, consistent=False, temps=(100, 1200), style=None, field=None, tracking=0, celltemp=0.5, scale=1.0, walk=False, wander=False, crowd=0.0, **kw):
    while True:
        sc = scen.Scenario()
        rng.style = rng.choice(scen.STYLES)
        rng.crowd = rng.random() < crowd
        scen.geometry(rng, sc, style, scale)
        if not usable(sc):
            continue
        pts = ptypes or (('neutron', 'photon') if rng.random() < 0.25 else ('neutron',))
        sc.particles = list(pts)
        nn_ = rng.randint(5, 9) if rng.crowd else nn or rng.randint(1, 4)
        sc.continuous = []
        T0 = rng.choice([None, 293.6, rng.uniform(*temps)])
        for i in range(nn_):
            n = cont.nuclide(rng, scen.nm(rng, 'n%d' % i), pts, thermal, consistent, temps, T0=T0, walk=wander, **kw)
            n['flip'], n['place'] = rng.random() < 0.5, rng.randint(0, 3)
            sc.continuous.append(n)
        if walk:
            for n in sc.continuous:
                cont.subcritical(rng, n)
        sc.nuclides = sc.continuous
        scen.materials(rng, sc, scale)
        ts = [T0 or 293.6] + [r['xs']['T'] for n in sc.continuous for d in n['data'].values() for r in d['reactions']] + [d['total'][0]['T'] for n in sc.continuous for d in n['data'].values() if d['total']]
        some = lambda: rng.choice([rng.choice(ts) * rng.choice([1, 1, 1.0001, 0.9999, 1.008, 0.992, 1.012, 0.988]), rng.uniform(*temps)])
        for c in sc.cells:
            if c['mat'] is not None and rng.random() < celltemp:
                c['temp'] = rng.choice([some(), some(), some(), some(), 0.0]) if temps[0] < 200 and not wander else some()
        k = field or rng.choice(['none', 'constant', 'constant', 'linear', 'linear'])
        sc.temperature = None if k == 'none' else ('constant', some()) if k == 'constant' else cont.linear_field(rng, *sorted((rng.uniform(*temps), rng.uniform(*temps))), 6 * scale)
        if k == 'linear' and rng.random() < 0.15:
            t = sc.temperature
            sc.temperature = t[:4] + ((0.0, rng.choice([0.0, -0.0]), 0.0),)
        if k == 'linear' and rng.random() < 0.3:
            t = sc.temperature
            g = [0.0, 0.0, 0.0]
            i = rng.randrange(3)
            g[i] = t[4][i] or 1.0
            sc.temperature = t[:4] + (tuple(g),)
        sc.tracking = tracking if tracking != 0 else rng.choice([None, 'surface', 'cell delta', 'cell delta'])
        if walk and k == 'linear':
            # the field must stay within its bounds wherever particles get
            lo, hi = sorted((rng.uniform(*temps), rng.uniform(*temps)))
            if sc.style in ('signs', 'thin'):
                sc.temperature = ('constant', lo)
            elif sc.style in ('slabs', 'grid'):
                sc.temperature = ('linear', lo, hi, (lo + hi) / 2, (rng.choice([-1, 1]) * (hi - lo) / 8 / scale * rng.uniform(0.3, 1), 0.0, 0.0))
            else:
                sc.temperature = cont.linear_field(rng, lo, hi, 14 * scale)
        if walk and sc.temperature and sc.temperature[0] == 'linear':
            sc.tracking = 'cell delta'
        p = scen.point_in_material(rng, sc, scale)
        if p is None:
            continue
        sc.source = dict(pos=p, dir=('isotropic',), energy=1e-6, type='neutron')
        sc.scale = scale
        sc.consistent = consistent
        return sc


def problem_record(sc):
    cont_ = sc.continuous is not None
    return dict(t='problem', w=sc.world_model(), nuc=cont.nuclear_model(sc) if cont_ else sc.nuclear_model(), field=cont.field_model(sc.temperature),
                temps=[[] if c.get('temp') is None else [hx(c['temp'])] for c in sc.cells], tracking=sc.tracking or 'none', groups=0 if cont_ else sc.groups,
                consistent=bool(getattr(sc, 'consistent', False)))


def write(sc, d, h5w, name='input.xml'):
    f = cont.Files(os.path.join(d, 'data'))
    for n in sc.continuous:
        n['xml'] = cont.nuclide_xml(n, f)
    f.write(h5w)
    return sc.write(d, name)


def temperature_of(f, p):
    return sum(a * b for a, b in zip(f[4], p)) + f[3]


def temperature(sc, c, p):
    if sc.cells[c].get('temp') is not None:
        return sc.cells[c]['temp']
    t = sc.temperature
    return 293.6 if t is None else t[1] if t[0] == 'constant' else sum(a * b for a, b in zip(t[4], p)) + t[3]


def energies(rng, sc, c, p, n=6):
    """energies at which something changes, and others"""
    T = temperature(sc, c, p)
    pool = [cont.logu(rng, 1e-12, 30) for _ in range(3)]
    nuc = [sc.continuous[j] for j, _ in sc.materials[sc.cells[c]['mat']]['comps']]
    for x in nuc:
        for d in x['data'].values():
            for r in d['reactions'] + d['total']:
                g = r['xs']['x'] if 'xs' in r else r['x']
                i = rng.randrange(len(g))
                pool += [g[i], math.nextafter(g[i], 0), (g[i] + g[i - 1]) / 2]
                if r.get('tsl'):
                    t = r['tsl'][0]
                    e = t['totE']['axes'][0]
                    k = rng.randrange(len(e))
                    pool += [e[-1], math.nextafter(e[-1], 0), e[-1] * 1.001, e[k], e[0] * rng.random(), e[0], rng.uniform(e[0], e[-1]), rng.uniform(e[0], e[-1]), rng.uniform(e[0], e[-1])]
        if T > 0:
            lim = 500 * cont.K * T / x['awr']
            pool += [lim * 0.999, lim * 1.001, cont.K * T * rng.uniform(0.01, 30)]
    return rng.sample(pool, min(n, len(pool)))


def queries(rng, sc, n):
    out = []
    for _ in range(n):
        p = scen.point_in_material(rng, sc, sc.scale)
        if p is None:
            break
        f = sc.temperature
        if sc.continuous is not None and f and f[0] == 'linear' and any(f[4]) and rng.random() < 0.3:
            # where the field has (nearly) the temperature of some evaluation
            T = rng.choice([r['xs']['T'] for x in sc.continuous for d in x['data'].values() for r in d['reactions']]) * rng.choice([1, 1.008, 0.992])
            if f[1] <= T <= f[2]:
                k = (T - temperature_of(f, p)) / sum(g * g for g in f[4])
                q = tuple(a + k * g for a, g in zip(p, f[4]))
                i = scen.find_cell(sc, q)
                if i is not None and sc.cells[i]['mat'] is not None:
                    p = q
        c = scen.find_cell(sc, p)
        for e in (energies(rng, sc, c, p) if sc.continuous is not None else rng.sample(range(1, sc.groups + 1), min(3, sc.groups))):
            for ty in ([rng.choice(sc.particles)]):
                out.append('at %s %s %s' % (' '.join(float(x).hex() for x in p), float(e).hex() if sc.continuous is not None else 'g%d' % e, ty))
    return out


def run_xs(ctx, prop, problems, nq, need=()):
    exe = ctx.build(['xs', 'h5w'])
    def one(a):
        i, sc = a
        d = os.path.join(ctx.dir, 'x%d' % i)
        rng = random.Random(ctx.seed * 7919 + i)
        path = write(sc, d, exe['h5w']) if sc.continuous is not None else sc.write(d)
        names = [n['name'] for n in (sc.continuous if sc.continuous is not None else sc.nuclides)]
        q = queries(rng, sc, nq)
        # several queries of the same place, in any order
        q += rng.sample(q, min(len(q), 5))
        s = 'sig %d %s\nnuc %d %s\n' % (len(sc.cells), scen.toks(sc.sig(c) for c in sc.cells), len(names), scen.toks(names)) + '\n'.join(q) + '\n'
        r = ctx.probe(exe['xs'], [path], stdin=s.encode(), what='cross sections of a random problem')
        shutil.rmtree(d, ignore_errors=True)
        return [problem_record(sc)] + [json.loads(x) for x in r.stdout.decode().splitlines()]
    with cf.ThreadPoolExecutor(NPROC) as ex:
        traces = list(ex.map(one, enumerate(problems)))
    shards = [[] for _ in range(NPROC)]
    for i, t in enumerate(traces):
        shards[i % NPROC].extend(t)
    paths = [ctx.write_trace('x%d.ndjson' % i, s) for i, s in enumerate(shards) if s]
    rej = ctx.validate('XsTrace', paths, need=need)
    other = {}
    for tr, no, rule in rej:
        if not rule.startswith(prop + ':'):
            other[rule] = other.get(rule, 0) + 1
            continue
        recs = read_ndjson(tr)
        b = max(i for i in range(no) if recs[i]['t'] == 'problem')
        ctx.violation('%s: %s' % (rule, json.dumps(recs[no - 1])[:500]), dict(problem=recs[b], record=recs[no - 1], rule=rule))
    if other:
        ctx.log('rules of other properties broken:', other)
    ctx.samples += [json.dumps(r)[:300] for r in traces[0][1:4]]
    return sum(len(t) - 2 for t in traces)
