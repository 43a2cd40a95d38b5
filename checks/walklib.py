"""Complete executions of random problems, judged by WalkTrace."""
import math, re
from vlib import *
import scen, cont, contlib


def parse_block(lines, i):
    """mean/std dev block starting at lines[i]; returns (mean, sd, next)"""
    def nums(s):
        assert s.endswith(', ')
        return [hx(float(x)) for x in s[:-2].split(', ')]
    assert lines[i] == 'mean' and lines[i + 1] == '----' and lines[i + 3] == ''
    assert lines[i + 4] == 'std dev' and lines[i + 5] == '-------' and lines[i + 7] == ''
    return nums(lines[i + 2]), nums(lines[i + 6]), i + 8


def parse_report(text):
    """The results as printed; anything unexpected makes it not ok."""
    def nums(s):
        if s == 'none':
            return []
        if not s:
            return []
        assert s.endswith(', '), s
        return [hx(float(x)) for x in s[:-2].split(', ')]
    try:
        lines = text.split('\n')
        est, i = [], 0
        assert lines[-1] == ''
        while i < len(lines) - 1:
            assert lines[i] == ''
            name = lines[i + 1]
            assert lines[i + 2] == '=' * len(name) and lines[i + 3] == ''
            assert lines[i + 4] == 'cosine' and lines[i + 5] == '------' and lines[i + 7] == ''
            assert lines[i + 8] == 'energy' and lines[i + 9] == '------' and lines[i + 11] == ''
            e = dict(name=name, cosine=nums(lines[i + 6]), energy=nums(lines[i + 10]), sens=[])
            e['mean'], e['sd'], i = parse_block(lines, i + 12)
            while lines[i] != '':
                sn = lines[i]
                assert lines[i + 1] == '=' * len(sn) and lines[i + 2] == ''
                m, sd, i = parse_block(lines, i + 3)
                e['sens'].append(dict(name=sn, mean=m, sd=sd))
                assert lines[i] == ''
                i += 1
            i += 1
            est.append(e)
        return dict(t='report', ok=True, est=est)
    except (AssertionError, IndexError, ValueError):
        return dict(t='report', ok=False, est=[])


def problem_record(sc):
    est = []
    for e in sc.estimators:
        c = e.get('cosine')
        est.append(dict(name=e['name'], surf=e['surf'] + 1, cosine=scen.bins_model(c and c['bins']), ref=[hx(c[k]) for k in 'uvw'] if c else [],
                        energy=scen.bins_model(e.get('energy')),
                        sens=[dict(pert=p + 1, name=e['name'] + '::' + sc.perturbations[p]['name']) for p in (e.get('sens') or [])]))
    d = sc.source['dir']
    if sc.continuous is None:
        nuc = sc.nuclear_model()
    else:
        p = contlib.problem_record(sc)
        nuc = dict(p['nuc'], groups=0, field=p['field'], temps=p['temps'], delta=sc.tracking == 'cell delta', consistent=p['consistent'])
    return dict(t='problem', w=sc.world_model(), nuc=nuc, seed=str(1 if sc.seed is None else sc.seed), n=sc.histories,
                src=dict(p=[hx(x) for x in sc.source['pos']], dir=d[0], u=[hx(x) for x in d[1:]], g=sc.source['energy'] if sc.continuous is None else hx(sc.source['energy']), ty=sc.source['type']),
                perts=[p['nuclide'] + 1 for p in sc.perturbations], est=est)


def names(sc):
    sigs = [sc.sig(c) for c in sc.cells]
    return ['sig %d %s' % (len(sigs), scen.toks(sigs)), 'surf %d %s' % (len(sc.surfaces), scen.toks(s['name'] for s in sc.surfaces)),
            'pert %d %s' % (len(sc.perturbations), scen.toks(p['name'] for p in sc.perturbations))]


def write(sc, d, exe, name='input.xml'):
    if sc.continuous is None:
        return sc.write(d, name)
    return contlib.write(sc, d, os.path.join(os.path.dirname(exe), 'run_h5w'), name)


def execute(ctx, exe, sc, tag, solves=1, timeout=120):
    d = os.path.join(ctx.dir, 'w' + str(tag))
    path = write(sc, d, exe)
    r = ctx.probe(exe, [path], stdin=('\n'.join(names(sc) + ['solves %d' % solves, 'zero %d' % getattr(sc, 'zero', 0)]) + '\n').encode(), what='simulation of a random problem', timeout=timeout)
    out = [problem_record(sc)]
    for x in r.stdout.decode().splitlines():
        rec = json.loads(x)
        if rec['t'] == 'report':
            rec = parse_report(rec['text'])
        out.append(rec)
    shutil.rmtree(d, ignore_errors=True)
    return out


def usable(sc):
    sigs = [sc.sig(c) for c in sc.cells]
    return len(set(sigs)) == len(sigs)


def problems(ctx, n, profile='mixed', rng=None, **kw):
    """n random problems of limited size"""
    rng = rng or ctx.rng
    out = []
    while len(out) < n:
        scale = rng.choice([1, 1, 1, 10, 1000, 1e-2, 1e5])
        opt = dict(kw)
        if profile == 'fission':
            opt.update(fission=0.95, zeros=0.1)
        if profile == 'tally':
            opt.update(nnuc=rng.randint(1, 3))
        if profile == 'sens':
            opt.update(nnuc=rng.randint(2, 4))
        if profile == 'crossing' and 'style' not in kw and rng.random() < 0.25:
            opt.update(style='thin')
        sc = scen.random_problem(rng, scale, **dict(dict(crowd=0.06), **opt))
        # only surfaces which bound some region exist for the program
        used = sc.used_surfaces()
        if used != list(range(len(sc.surfaces))) or not usable(sc):
            continue
        if profile in ('crossing', 'tally', 'sens') or (profile == 'mixed' and rng.random() < 0.5):
            # long walks with many crossings
            for nuc in sc.nuclides:
                for d in nuc['data'].values():
                    if d.get('fission') is None:
                        f = rng.choice([0.1, 0.3])
                        d['capture'] = [max(0.02, c * f) for c in d['capture']]
            f = rng.choice([0.2, 0.5])
            for m in sc.materials:
                m['aden'] *= f
        if profile == 'tally':
            scen.estimators(rng, sc, rng.randint(3, 7))
        if profile == 'sens':
            scen.estimators(rng, sc, rng.randint(2, 6), 'all', 0.9)
        if profile in ('tally', 'sens') and rng.random() < 0.15:
            # every history is alike: flights without collisions along one line
            # (axial coordinates much beyond the radius of a cylinder are not resolved)
            for m in sc.materials:
                m['aden'] *= 1e-5 if any(x['kind'] == 'cylinderx' for x in sc.surfaces) else 1e-12
            if sc.source['dir'][0] != 'constant':
                sc.source['dir'] = ('constant', *scen.direction(rng))
            scen.estimators(rng, sc, rng.randint(2, 5), 'all', 0.9)
        sc.threads = rng.choice([1, 1, 2, 3, 8])
        # with external random numbers: how often the least possible one occurs
        sc.zero = rng.choice([0, 0, 5, 30])
        sc.histories = rng.randint(5, 40)
        maybe_void(rng, sc)
        out.append(sc)
    return out


def maybe_void(rng, sc, p=0.05):
    """sometimes the source is in a void, or on its boundary"""
    if rng.random() < p:
        if sc.scale >= 1 and sc.style != 'thin':
            scen.round_surfaces(sc)
        pos = scen.surface_point(rng, sc, sc.scale, void=True) if rng.random() < 0.6 else scen.point_in_void(rng, sc, sc.scale)
        if pos:
            sc.source['pos'] = pos


def long_problems(rng, kinds=('walk', 'chain')):
    """a history of one particle with very many events, and one with very
    many particles"""
    out = []
    for kind in kinds:
        while True:
            sc = scen.random_problem(rng, rng.choice([1, 1, 100]), 'spheres', nnuc=1, photons=False)
            sc.groups = 5
            if sc.used_surfaces() != list(range(len(sc.surfaces))) or not usable(sc) or len(sc.cells) < 3:
                continue
            for c in sc.cells:
                # all but the outside
                if any(n for _, n in c['sides']) and c['mat'] is None:
                    c['mat'], c['name'] = 0, 'filled' + str(sc.cells.index(c))
            break
        n = sc.nuclides[0]
        G = 5
        if kind == 'walk':
            # hardly any absorption, and far to go
            data = dict(capture=[5e-4] * G, scatter=[[1.0 / G] * G for _ in range(G)], order=['scatter', 'capture'])
            f = 25
            sc.source['energy'] = rng.randint(1, G)
        else:
            # each neutron releases several of the next lower group
            k = rng.choice([5, 6])
            data = dict(capture=[0.02] * (G - 1) + [1.0], fission=dict(xs=[1.0] * (G - 1) + [0.0], nubar=[float(k)] * (G - 1) + [0.0],
                        chi=[[1.0 if h == g + 1 or h == g == G - 1 else 0.0 for g in range(G)] for h in range(G)]), order=['fission', 'capture'])
            sc.source['energy'] = 1
            f = 12
        n['data'] = dict(neutron=data)
        sc.source['dir'] = ('isotropic',)
        sc.source['pos'] = scen.point_in_material(rng, sc, sc.scale) or sc.source['pos']
        for m in sc.materials:
            m['aden'] = f / sc.scale
            m['comps'] = [(0, 1.0)]
        scen.estimators(rng, sc, 2)
        sc.threads, sc.zero, sc.histories, sc.seed = 1, 0, 1, rng.randint(1, 10 ** 6)
        sc.want = (1500, 5000)
        out.append(sc)
    return out


def cont_problems(ctx, n, profile='mixed', rng=None, **kw):
    """n random continuous-energy problems of limited size"""
    rng = rng or ctx.rng
    out = []
    while len(out) < n:
        scale = rng.choice([1, 1, 1, 10, 1e-2])
        temps = rng.choice([(100, 1200), (1, 100), (300, 3000)])
        kinds = ('capture', 'scatter', 'fission') if profile == 'fission' else None
        wander = rng.random() < 0.5
        sc = contlib.cont_problem(rng, thermal=0.5 if wander else 0, wander=wander, consistent=True, temps=temps, scale=scale, nn=rng.randint(2, 4) if profile == 'sens' else None, kinds=kinds, walk=True, tracking='cell delta' if rng.random() < 0.4 else 0, field='linear' if rng.random() < 0.5 else None, celltemp=rng.choice([0, 0.2, 0.5]), **dict(dict(crowd=0.05), **kw))
        if not usable(sc):
            continue
        kind = rng.choice(['isotropic', 'constant', 'isotropic-flux'])
        sc.source = dict(pos=sc.source['pos'], dir=('isotropic',) if kind == 'isotropic' else (kind, *scen.direction(rng)), energy=cont.logu(rng, 1e-9, 2) if rng.random() < 0.4 else cont.K * temps[1] * cont.logu(rng, 0.003, 10), type=rng.choice(sc.particles))
        sc.seed = rng.choice([None, 1, rng.randint(2, 10 ** 6), rng.randint(2, 2 ** 31 - 1), 2 ** 31 - 1 - rng.randint(0, 20)])
        scen.estimators(rng, sc, {'tally': rng.randint(3, 7), 'sens': rng.randint(2, 6)}.get(profile), 'all' if profile == 'sens' else True, 0.9 if profile == 'sens' else 0.6)
        if profile in ('crossing', 'tally', 'sens') or rng.random() < 0.4:
            for m in sc.materials:
                m['aden'] *= 0.2
        sc.threads = rng.choice([1, 1, 2, 3, 8])
        sc.zero = 0
        sc.histories = rng.randint(5, 30)
        sc.scale = scale
        maybe_void(rng, sc)
        out.append(sc)
    return out


MC = '''SPECIFICATION Spec
CONSTANTS
  MaxEvents = %d
  MaxBank = %d
INVARIANTS InItsRegion LeakedOutside NoCrossingLost Conservation TallyCounts
PROPERTY Complete
'''


def walk_model(ctx):
    ctx.model_check('MCWalk', MC % ctx.pick((5, 2), (9, 4)), workers=NPROC, min_states=50)


def run_walks(ctx, prop, jobs, exe=None, need=(), solves=1, cap=900, variant=1, after=None):
    """Run the problems, judge the executions, report broken rules of prop."""
    walk_model(ctx)
    exe = exe or ctx.build(['solve', 'h5w'], variant)['solve']
    def one(a):
        i, sc = a
        recs = execute(ctx, exe, sc, i, solves)
        for _ in range(12):
            # until the history is as long as desired
            if hasattr(sc, 'want') and not sc.want[0] < len(recs) < sc.want[1]:
                sc.seed += 1
                recs = execute(ctx, exe, sc, i, solves)
        # keep traces of bounded size: reduce the number of histories
        while len(recs) > cap and sc.histories > 2:
            sc.histories = max(2, sc.histories * cap // len(recs) - 1)
            recs = execute(ctx, exe, sc, i, solves)
        return recs + (after(i, sc) if after else [])
    with cf.ThreadPoolExecutor(NPROC) as ex:
        traces = list(ex.map(one, enumerate(jobs)))
    traces = [t for t in traces if len(t) <= 6 * cap]
    order = sorted(range(len(traces)), key=lambda i: -len(traces[i]))
    shards = [[] for _ in range(NPROC)]
    for i in order:
        min(shards, key=len).extend(traces[i])
    paths = [ctx.write_trace('w%d.ndjson' % i, s) for i, s in enumerate(shards) if s]
    rej = ctx.validate('WalkTrace', paths, need=need)
    report(ctx, prop, rej)
    ctx.samples += [json.dumps(r)[:300] for p in paths[:1] for r in read_ndjson(p)[1:4]]
    return rej


def report(ctx, prop, rej):
    other = {}
    for tr, n, rule in rej:
        if not rule.startswith(prop + ':'):
            other[rule] = other.get(rule, 0) + 1
            continue
        if len(ctx.violations) > 20:
            continue
        recs = read_ndjson(tr)
        b = max(i for i in range(n) if recs[i]['t'] == 'problem')
        h = max([i for i in range(n) if recs[i]['t'] == 'hist'] or [0])
        ctx.violation('%s: record %s after %s' % (rule, json.dumps(recs[n - 1])[:400], json.dumps(recs[n - 2])[:300]),
                      dict(problem=recs[b], history=recs[max(h, n - 12):n], rule=rule))
    if other:
        ctx.log('rules of other properties broken:', other)
        if os.environ.get('VERIF_SHOW'):
            for tr, n, rule in rej[:2000]:
                if os.environ['VERIF_SHOW'] in rule:
                    recs = read_ndjson(tr)
                    b = max(i for i in range(n) if recs[i]['t'] == 'problem')
                    ctx.log(rule, json.dumps(recs[b])[:3000], *['\n' + json.dumps(r)[:500] for r in recs[n - 4:n]])
