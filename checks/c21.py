"""C21: sampling of scattering by bound atoms."""
from colllib import *
LEVEL = 'model_checking'


def edges(t, E, T):
    """energies at which the distributions of energy or momentum transfer
    change"""
    kT = cont.K * T
    bs = [0.0]
    pts = [(e, p, i) for p in t['beta'] for i, e in enumerate(p['modes']['axes'][0])]
    n = sum(e <= E for e, p, i in pts)
    for e, p, i in pts[max(0, n - 1):n + 1]:
        xs = [value(p, f, i, T) for f in range(len(p['cdf']['axes'][0]))]
        bs += xs + [(a + b) / 2 for a, b in zip(xs, xs[1:])] + [-e / kT]
    bs += [s * b for p in t['alpha'] for b in p['modes']['axes'][0] for s in (1, -1)]
    es = sorted({E + b * kT for b in bs if -E / kT < b < t['betaCut']})
    out = [0.0]
    for e in es + [E + t['betaCut'] * kT * (1 + 1e-12)]:
        if e > out[-1] * (1 + 1e-9):
            out.append(e)
    return out


def query(n, per):
    def q(rng, sc):
        t = [r['tsl'][0] for r in sc.continuous[0]['data']['neutron']['reactions'] if r['kind'] == 'scatter'][0]
        made = 0
        for _ in range(40 * per):
            p = scen.point_in_material(rng, sc, sc.scale)
            if p is None or made == per:
                return
            T = temperature(sc, scen.find_cell(sc, p), p)
            Es = [e for e in t['Es'] if e < t['totE']['axes'][0][-1]]
            k = rng.random()
            if k < 0.25 or not Es:
                E = t['Es'][0] * rng.uniform(0.05, 1)
            elif k < 0.5:
                E = rng.choice(Es)
            else:
                E = rng.uniform(*rng.choice(list(zip(t['Es'], t['Es'][1:])))) if rng.random() < 0.8 else math.nextafter(rng.choice(t['Es']), 0)
            if E >= t['totE']['axes'][0][-1] or rejected(t, E, T) > 0.03:
                continue
            made += 1
            yield p, E, 'neutron', n, 0, edges(t, E, T), sorted(rng.sample([0.98, 0.9, 0.7, 0.4, 0.2, 0, -0.3, -0.6, -0.9], 4), reverse=True)
    return q


def problem(rng):
    while True:
        sc = cont_problem(rng, nn=1, thermal=1, ptypes=('neutron',), kinds=rng.choice([('scatter',), ('scatter',), ('capture', 'scatter')]), tracking=None)
        t = [r['tsl'][0] for r in sc.continuous[0]['data']['neutron']['reactions'] if r['kind'] == 'scatter'][0]
        T = lambda: rng.choice([rng.choice(t['Ts']), rng.uniform(0.6 * t['Ts'][0], t['Ts'][0]), rng.uniform(t['Ts'][0], t['Ts'][-1])])
        sc.temperature = ('constant', T())
        for c in sc.cells:
            if c['mat'] is not None:
                c['temp'] = T() if rng.random() < 0.7 else None
        return sc


def run(ctx):
    ps = [problem(ctx.rng) for _ in range(ctx.pick(60, 600))]
    n = run_coll(ctx, 'C21', ps, query(ctx.pick(300000, 2000000), 4), need=['bound atoms'])
    return dict(rule='%d collisions with bound atoms in %d random problems' % (n, len(ps)), extra=dict(collisions=n))
