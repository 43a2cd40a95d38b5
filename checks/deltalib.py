"""First flights of many particles in one state, judged by DeltaTrace."""
from walklib import *
import colllib


def boundary(sc, c, p, d):
    """distance to the boundary of region c"""
    best = math.inf
    for i, _ in sc.cells[c]['sides']:
        s = sc.surfaces[i]
        if s['kind'] == 'planex':
            if d[0]:
                t = (s['x'] - p[0]) / d[0]
                best = min(best, t) if t > 0 else best
            continue
        q, e = (p, d) if s['kind'] == 'sphere' else (p[1:], d[1:])
        if s['kind'] == 'sphere':
            q = [a - b for a, b in zip(p, s['c'])]
        a = sum(x * x for x in e)
        b = sum(x * y for x, y in zip(q, e))
        k = sum(x * x for x in q) - s['r'] ** 2
        if a < 1e-12 or b * b - a * k <= 0:
            continue
        for t in ((-b - math.sqrt(b * b - a * k)) / a, (-b + math.sqrt(b * b - a * k)) / a):
            if t > 0:
                best = min(best, t)
    return best


def edges(rng, sc, c, p, d, E, D, n):
    """distances at which the cross section may jump or bend, and others"""
    out = {0.0, D} | {D * i / n for i in range(1, n)}
    f = sc.temperature
    if sc.cells[c].get('temp') is None and f and f[0] == 'linear':
        slope = sum(a * b for a, b in zip(f[4], d))
        T0 = temperature(sc, c, p)
        Ts = []
        for j, _ in sc.materials[sc.cells[c]['mat']]['comps']:
            for dt in sc.continuous[j]['data'].values():
                for ev in [r['xs'] for r in dt['reactions']] + dt['total']:
                    Ts += [ev['T'] * 0.99, ev['T'] * 1.01]
                for r in dt['reactions']:
                    for t in r.get('tsl') or []:
                        Ts += t['totT']['axes'][0]
                # where scattering off free atoms begins to matter
                Ts.append(sc.continuous[j]['awr'] * E / 500 / cont.K)
        if slope:
            out |= {(T - T0) / slope for T in Ts if 0 < (T - T0) / slope < D}
    o = sorted(out)
    return [o[0]] + [b for a, b in zip(o, o[1:]) if b - a > 1e-7 * D]


temperature = contlib.temperature


def flight_problem(rng, direct=1 / 6):
    while True:
        temps = rng.choice([(100, 1200), (300, 3000), (20, 400), (250, 350)])
        mode = 'surface' if rng.random() < direct else 'cell delta'
        sc = contlib.cont_problem(rng, thermal=rng.choice([0, 0, 0.3]), consistent=True, temps=temps, scale=rng.choice([1, 1, 10]), tracking=mode, style=rng.choice(['spheres', 'slabs', 'grid', 'lattice', 'half']),
                                  field='linear' if mode == 'cell delta' else None, celltemp=0.1, walk=True, no_total=0.4)
        if not usable(sc) or (mode == 'surface' and sc.tracking != 'surface'):
            continue
        p = sc.source['pos']
        c = scen.find_cell(sc, p)
        f = sc.temperature
        d = scen.direction(rng, True)
        if f and f[0] == 'linear' and rng.random() < 0.7:
            g = math.sqrt(sum(x * x for x in f[4])) * rng.choice([-1, 1])
            d = tuple(x / g for x in f[4])
        D = boundary(sc, c, p, d)
        if not D < 50 * sc.scale:
            continue
        if f and f[0] == 'linear' and sc.cells[c].get('temp') is None and rng.random() < 0.75:
            # as much change on the way as possible: from one bound of the
            # field to the other
            lo, hi = sorted((rng.uniform(temps[0], temps[0] + 0.3 * (temps[1] - temps[0])), rng.uniform(temps[0] + 0.6 * (temps[1] - temps[0]), temps[1])))
            k = math.sqrt(sum(x * x for x in d))
            e = [x / k for x in d]
            up = rng.choice([-1, 1])
            g = up * 0.97 * (hi - lo) / D
            start = lo + 0.015 * (hi - lo) if up > 0 else hi - 0.015 * (hi - lo)
            f = sc.temperature = ('linear', lo, hi, start - g * sum(a * b for a, b in zip(e, p)), tuple(g * x for x in e))
        E = cont.K * (temperature(sc, c, p) or 100) * (cont.logu(rng, 0.003, 1) if rng.random() < 0.6 else cont.logu(rng, 0.01, 30)) if rng.random() < 0.8 else cont.logu(rng, 1e-9, 2)
        if rng.random() < 0.4:
            # evaluated at the very temperature where the flight begins, ends,
            # or of a bound of the field
            T = rng.choice([temperature(sc, c, p), temperature(sc, c, p), temperature(sc, c, [a + b * D for a, b in zip(p, d)])] + ([f[1], f[2]] if f and f[0] == 'linear' else []))
            j = rng.choice(sc.materials[sc.cells[c]['mat']]['comps'])[0]
            if T > 0:
                for dt in sc.continuous[j]['data'].values():
                    for ev in [r['xs'] for r in dt['reactions']] + dt['total']:
                        ev['T'] = T * rng.choice([1, 1.005, 0.995])
                    t = dt['reactions'][0]['xs']['T']
                    for ev in [r['xs'] for r in dt['reactions']] + dt['total']:
                        ev['T'] = t
                E = cont.K * T * cont.logu(rng, 0.003, 1)
        ty = rng.choice(sc.particles)
        es = edges(rng, sc, c, p, d, E, D, 10)
        if not all(colllib.samples_thermal(sc, c, E, temperature(sc, c, [a + b * s for a, b in zip(p, d)])) for s in es):
            continue
        sc.source = dict(pos=p, dir=('constant', *d), energy=E, type=ty)
        sc.threads, sc.seed = 1, rng.randint(1, 10 ** 6)
        sc.flight = (p, d, E, ty, c, es)
        # mean number of tentative collisions on the way to the boundary: not
        # more than a third of one between two edges
        sc.thickness = rng.choice([0.03, 0.3, 1, 1, 2, 3])
        return sc


def run_flights(ctx, prop, n, histories, need=(), direct=1 / 6):
    exe = ctx.build(['delta', 'h5w'], 2)['delta']
    jobs = [flight_problem(ctx.rng, direct) for _ in range(n)]
    done = [0]
    def one(a):
        i, sc = a
        d = os.path.join(ctx.dir, 'f%d' % i)
        p, u, E, ty, c, es = sc.flight
        # the density follows from the majorant, read off a first run
        sc.histories = 1
        r = ctx.probe(exe, [write(sc, d, exe)], stdin=b'edges 1 0x0p+0\n', what='simulation of a random problem', timeout=300)
        M = unhx(json.loads(r.stdout.decode())['M'])
        sc.materials[sc.cells[c]['mat']]['aden'] = sc.thickness / es[-1] / (M if 1e-6 < M < 1e6 else 1)
        shutil.rmtree(d, ignore_errors=True)
        sc.histories = histories
        path = write(sc, d, exe)
        r = ctx.probe(exe, [path], stdin=('edges %d %s\n' % (len(es), ' '.join(x.hex() for x in es))).encode(), what='simulation of a random problem', timeout=300)
        shutil.rmtree(d, ignore_errors=True)
        q = problem_record(sc)
        # the direction is the requested one, scaled to a unit vector
        k = math.sqrt(sum(x * x for x in u))
        rec = dict(json.loads(r.stdout.decode()), t='flights', p=[hx(x) for x in p], d=[hx(x / k) for x in u], g=hx(E), ty=ty, c=c + 1, edges=[hx(x) for x in es])
        done[0] += rec['n']
        return [dict(t='problem', w=q['w'], nuc=q['nuc']), rec]
    with cf.ThreadPoolExecutor(NPROC) as ex:
        traces = list(ex.map(one, enumerate(jobs)))
    ctx.log('flights counted', done[0])
    shards = [[] for _ in range(NPROC)]
    for i, t in enumerate(traces):
        shards[i % NPROC].extend(t)
    paths = [ctx.write_trace('f%d.ndjson' % i, s) for i, s in enumerate(shards) if s]
    rej = ctx.validate('DeltaTrace', paths, need=need)
    other = {}
    for tr, no, rule in rej:
        if not rule.startswith(prop + ':'):
            other[rule] = other.get(rule, 0) + 1
            continue
        recs = read_ndjson(tr)
        ctx.violation('%s: %s' % (rule, json.dumps(recs[no - 1])[:700]), dict(problem=recs[no - 2], record=recs[no - 1], rule=rule))
    if other:
        ctx.log('rules of other properties broken:', other)
    ctx.samples += [json.dumps(t[1])[:300] for t in traces[:3]]
    return done[0]
