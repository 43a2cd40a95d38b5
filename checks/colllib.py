"""Many collisions of particles in the same state, judged by CollTrace."""
from contlib import *


def free_gas_sample(rng, A, E, T):
    """energy after elastic scattering in units of E (used only to place the
    edges of histogram bins)"""
    mu_cm, f = rng.uniform(-1, 1), 2 * math.pi * rng.random()
    if T == 0:
        a = ((A - 1) / (A + 1)) ** 2
        return a + (1 - a) * rng.random()
    s = math.sqrt(cont.K * T / (2 * A * E))      # thermal speed in units of the neutron's
    while True:
        v = [rng.gauss(0, 1) * s * math.sqrt(2) / math.sqrt(2) * math.sqrt(1) for _ in range(3)]
        g = math.sqrt((1 - v[0]) ** 2 + v[1] ** 2 + v[2] ** 2)
        if rng.random() * (1 + 6 * s) < g:
            break
    cm = [(1 + A * v[0]) / (1 + A), A * v[1] / (1 + A), A * v[2] / (1 + A)]
    w = A / (1 + A) * g
    st = math.sqrt(1 - mu_cm * mu_cm)
    o = [cm[0] + w * mu_cm, cm[1] + w * st * math.cos(f), cm[2] + w * st * math.sin(f)]
    return sum(x * x for x in o)


def edges(rng, A, E, T, n=14):
    s = sorted(E * free_gas_sample(rng, A, E, T) for _ in range(3000))
    e = {s[int(len(s) * (k + 0.3) / n)] for k in range(n)} | {s[10], s[-10]}
    return sorted(e | {E}) if T > 0 else sorted(e)


def run_coll(ctx, prop, problems, query, need=()):
    """query(rng, sc) yields (p, E, type, n, samples, edges, cosines)"""
    exe = dict(ctx.build(['coll', 'h5w'], 2))
    done = [0]
    def one(a):
        i, sc = a
        d = os.path.join(ctx.dir, 'k%d' % i)
        rng = random.Random(ctx.seed * 6007 + i)
        path = write(sc, d, exe['h5w'])
        q = []
        for p, E, ty, n, ns, ed, mu in query(rng, sc):
            done[0] += n
            q.append('coll %s %s %s %d %d %d %d %s %d %s' % (' '.join(float(x).hex() for x in p), float(E).hex(), ty, n, rng.randrange(1, 10 ** 6), ns, len(ed), ' '.join(x.hex() for x in ed), len(mu), ' '.join(float(x).hex() for x in mu)))
        s = 'sig %d %s\nnuc %d %s\n' % (len(sc.cells), scen.toks(sc.sig(c) for c in sc.cells), len(sc.continuous), scen.toks(n['name'] for n in sc.continuous)) + '\n'.join(q) + '\n'
        r = ctx.probe(exe['coll'], [path], stdin=s.encode(), what='collisions in a random problem', timeout=300)
        shutil.rmtree(d, ignore_errors=True)
        return [problem_record(sc)] + [json.loads(x) for x in r.stdout.decode().splitlines()]
    with cf.ThreadPoolExecutor(NPROC) as ex:
        traces = list(ex.map(one, enumerate(problems)))
    ctx.log('collisions', done[0])
    shards = [[] for _ in range(NPROC)]
    for i, t in enumerate(traces):
        shards[i % NPROC].extend(t)
    paths = [ctx.write_trace('k%d.ndjson' % i, s) for i, s in enumerate(shards) if s]
    rej = ctx.validate('CollTrace', paths, need=need)
    other = {}
    for tr, no, rule in rej:
        if not rule.startswith(prop + ':'):
            other[rule] = other.get(rule, 0) + 1
            continue
        recs = read_ndjson(tr)
        b = max(i for i in range(no) if recs[i]['t'] == 'problem')
        rec = dict(recs[no - 1], samples=recs[no - 1]['samples'][:20])
        ctx.violation('%s: %s' % (rule, json.dumps(rec)[:500]), dict(problem=recs[b], record=recs[no - 1], rule=rule))
    if other:
        ctx.log('rules of other properties broken:', other)
    ctx.samples += [json.dumps(r)[:300] for r in traces[0][1:4]]
    return done[0]


def free_query(n, per):
    def q(rng, sc):
        for _ in range(per):
            p = scen.point_in_material(rng, sc, sc.scale)
            if p is None:
                return
            c = scen.find_cell(sc, p)
            T = temperature(sc, c, p)
            nuc = [sc.continuous[j] for j, _ in sc.materials[sc.cells[c]['mat']]['comps']]
            x = rng.choice(nuc)
            ty = rng.choice(sc.particles)
            E = cont.K * T * cont.logu(rng, 2e-3, 60) if T > 0 else cont.logu(rng, 1e-10, 20)
            yield p, E, ty, n if T > 0 and ty == 'neutron' else n // 10, 100 if T == 0 else 0, edges(rng, x['awr'], E, T), (0.5, 0, -0.5)
    return q


def value(p, f, i, T):
    """energy transfer at tabulated probability f, incident energy i"""
    no, Ts = len(p['s']['values']), p['modes']['axes'][1]
    at = lambda j: sum(p['s']['values'][o] * p['cdf']['values'][f * no + o] * p['modes']['values'][(i * len(Ts) + j) * no + o] for o in range(no))
    return cont.interp(Ts, [at(j) for j in range(len(Ts))], T)


def rejected(t, E, T):
    """probability that a drawn energy transfer is not possible"""
    kT = cont.K * T
    worst = 0
    pts = [(e, p, i) for p in t['beta'] for i, e in enumerate(p['modes']['axes'][0])]
    for k, (e, p, i) in enumerate(pts):
        if e <= E or (k > 0 and pts[k - 1][0] > E):
            continue
        F = p['cdf']['axes'][0]
        xs = [-e / kT] + [value(p, f, i, T) for f in range(len(F))] + [t['betaCut']]
        worst = max(worst, cont.interp(xs, [0.0] + F + [1.0], -E / kT))
    return worst


def samples_thermal(sc, c, E, T):
    """can bound atoms of the region be hit within the range of their tables?"""
    for j, _ in sc.materials[sc.cells[c]['mat']]['comps']:
        for r in sc.continuous[j]['data'].get('neutron', dict(reactions=[]))['reactions']:
            for t in r.get('tsl') or []:
                if E < t['totE']['axes'][0][-1] and (not 0.6 * t['Ts'][0] <= T <= t['Ts'][-1] or rejected(t, E, T) > 0.03):
                    return False
    return True


def plain_query(n, per):
    """collisions of which only the outcome is judged"""
    def q(rng, sc):
        for _ in range(per):
            p = scen.point_in_material(rng, sc, sc.scale)
            if p is None:
                return
            c = scen.find_cell(sc, p)
            es = [E for E in energies(rng, sc, c, p, 8) if samples_thermal(sc, c, E, temperature(sc, c, p))]
            for E in es[:2]:
                yield p, E, rng.choice(sc.particles), n, 0, [], ()
    return q
