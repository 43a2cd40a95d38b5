"""Outcome counts of many histories of random problems, judged by StatTrace."""
from walklib import *


def stat_problems(ctx, n, rng=None):
    rng = rng or ctx.rng
    out = []
    while len(out) < n:
        style = rng.choice(['spheres', 'half', 'lattice', 'slabs', 'signs', None])
        sc = scen.random_problem(rng, rng.choice([1, 1, 10, 100]), style, fission=0.5, zeros=rng.choice([0, 0.15, 0.4]), crowd=0.05)
        if sc.used_surfaces() != list(range(len(sc.surfaces))) or not usable(sc):
            continue
        # thick enough for several collisions per history
        for m in sc.materials:
            m['aden'] *= rng.choice([1, 3, 6])
        sc.estimators, sc.perturbations = [], []
        sc.threads = 1
        out.append(sc)
    return out


def run_stats(ctx, prop, n, histories, exe=None, need=()):
    exe = exe or ctx.build(['stats'], 2)['stats']
    jobs = stat_problems(ctx, n)
    done = [0]
    def one(a):
        i, sc = a
        sc.histories = histories
        d = os.path.join(ctx.dir, 'st%d' % i)
        path = sc.write(d)
        s = sc.source['dir']
        if s[0] == 'isotropic':
            v = scen.direction(random.Random(i), True)
        else:
            k = math.sqrt(sum(x * x for x in s[1:]))
            v = [x / k for x in s[1:]]
        w = min(sc.scale * 0.3, 0.4 / max(m['aden'] for m in sc.materials))
        r = ctx.probe(exe, [path], stdin=('\n'.join(names(sc)[:1] + ['ref %s %s %s' % tuple(x.hex() for x in map(float, v)), 'unit ' + float(w).hex()]) + '\n').encode(),
                      what='simulation of a random problem', timeout=300)
        shutil.rmtree(d, ignore_errors=True)
        p = problem_record(sc)
        out = [dict(t='problem', w=p['w'], nuc=p['nuc'], src=p['src'])]
        for x in r.stdout.decode().splitlines():
            x = json.loads(x)
            if x['t'] == 'collisions':
                done[0] += x['n']
            out.append(x)
        return out
    with cf.ThreadPoolExecutor(NPROC) as ex:
        traces = list(ex.map(one, enumerate(jobs)))
    ctx.log('collisions counted', done[0])
    shards = [[] for _ in range(NPROC)]
    for i, t in enumerate(traces):
        shards[i % NPROC].extend(t)
    paths = [ctx.write_trace('s%d.ndjson' % i, s) for i, s in enumerate(shards) if s]
    rej = ctx.validate('StatTrace', paths, need=need)
    other = {}
    for tr, no, rule in rej:
        if not rule.startswith(prop + ':'):
            other[rule] = other.get(rule, 0) + 1
            continue
        recs = read_ndjson(tr)
        b = max(i for i in range(no) if recs[i]['t'] == 'problem')
        ctx.violation('%s: counts %s' % (rule, json.dumps(recs[no - 1])[:500]), dict(problem=recs[b], counts=recs[no - 1], rule=rule))
    if other:
        ctx.log('rules of other properties broken:', other)
    ctx.samples += [json.dumps(r)[:300] for p in paths[:1] for r in read_ndjson(p)[1:4]]
    return done[0]
