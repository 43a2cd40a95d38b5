"""C22: source particles."""
from statlib import *
LEVEL = 'model_checking'
CFG = 'SPECIFICATION Spec\nCONSTANTS\n  Instances = {0, 1}\n  Seeds = {1, 2, 3}\n  Depth = %d\nINVARIANTS DecidedBySeed Emit\n'


def source(rng):
    sc = scen.random_problem(rng, rng.choice([1, 1, 1e-3, 1e5]), crowd=0.04)
    sc.source['pos'] = tuple(rng.choice([0.0, -0.0, rng.uniform(-1, 1) * 10 ** rng.uniform(-8, 8), float(rng.randint(-9, 9)), 0.1]) for _ in range(3))
    k = rng.choice(['constant', 'isotropic', 'isotropic-flux', 'isotropic-flux'])
    sc.source['dir'] = (k,) if k == 'isotropic' else (k, *scen.direction(rng))
    g = rng.random() < 0.5
    if g:
        sc.source['energy'] = rng.choice([1, rng.randint(1, 9), rng.randint(1, 2000000)])
        sc.groups = max(sc.groups, sc.source['energy'] + rng.choice([0, 0, 1, 100]))
    else:
        sc.continuous, sc.perturbations = [], []
        for m in sc.materials:
            m['comps'] = []
        for e in sc.estimators:
            e['sens'] = []
        sc.source['energy'] = rng.choice([1.0, 2e-8, 0.0253e-6, 10 ** rng.uniform(-11, 1.3), rng.uniform(0, 20)])
    sc.source['type'] = rng.choice(['neutron', 'photon'])
    sc.particles = rng.choice([[sc.source['type']], ['neutron', 'photon'], ['photon', 'neutron']])
    s = sc.source
    m = dict(p=[hx(x) for x in s['pos']], dir=k, u=[hx(x) for x in s['dir'][1:]], e=s['energy'] if g else hx(s['energy']), group=g, ty=s['type'])
    return sc, m


def run(ctx):
    rng = ctx.rng
    r = ctx.model_check('MCSource', CFG % ctx.pick(4, 5), workers=1, coverage=False, min_states=500)
    seqs = [[(int(a), int(b)) for a, b in re.findall(r'<<(\d+), (\d+)>>', x)] for x in re.findall(r'"SEQ (.*?)"$', r['out'], re.M)]
    if len(seqs) < 1000:
        raise CheckError('%d behaviours generated' % len(seqs))
    rng.shuffle(seqs)
    both = ctx.build(['source', 'stats'], 2)
    exe, stats = {0: ctx.build(['source'], 0)['source'], 2: both['source']}, both['stats']
    n = ctx.pick(250, 2000)
    jobs = [source(rng) for _ in range(n)]

    def one(w):
        r = random.Random(ctx.seed * 977 + w)
        out = []
        for v in (0, 2):
            lines, models = [], []
            for i in range(w, n, NPROC):
                sc, m = jobs[i]
                path = sc.write(os.path.join(ctx.dir, 'src%d' % w), 'i%d_%d.xml' % (v, i))
                lines.append('instances 2 ' + path)
                models.append(m)
                if v == 0:
                    # what each number of a behaviour stands for
                    for q in seqs[i::n][:12]:
                        base = r.choice([1, 2, 100, r.randint(1, 2 ** 31 - 10), 2 ** 31 - 6])
                        name = [base, base + 1, base + r.choice([2, 3])]
                        lines += ['sample %d %d' % (a, name[b - 1]) for a, b in q]
                elif m['dir'] != 'constant' and i % 4 == w % 4:
                    u = [unhx(x) for x in m['u']] if m['u'] else scen.direction(r)
                    lines.append('hist %d %d %s %s' % (ctx.pick(50000, 500000), r.randint(1, 10 ** 9), ' '.join(float(x).hex() for x in u), 'flux' if m['dir'] == 'isotropic-flux' else 'iso'))
            o = ctx.probe(exe[v], [], stdin=('\n'.join(lines) + '\n').encode(), what='source particles', timeout=600).stdout.decode().splitlines()
            it = iter(models)
            for x in o:
                x = json.loads(x)
                if x['t'] == 'source':
                    x['src'] = next(it)
                out.append(x)
        return ctx.write_trace('src%d.ndjson' % w, out)
    with cf.ThreadPoolExecutor(NPROC) as ex:
        paths = list(ex.map(one, range(NPROC)))
    rej = ctx.validate('SourceTrace', paths, need=['sample isotropic', 'sample isotropic-flux', 'sample constant', 'seed sampled again', 'histogram isotropic', 'histogram isotropic-flux'])
    for tr, no, rule in rej[:20]:
        recs = read_ndjson(tr)
        b = max(i for i in range(no) if recs[i]['t'] == 'source')
        ctx.violation('%s: %s of source %s' % (rule, json.dumps(recs[no - 1])[:400], json.dumps(recs[b])[:300]), dict(source=recs[b], record=recs[no - 1], rule=rule))
    ctx.samples += [json.dumps(x)[:300] for x in read_ndjson(paths[0])[:3]]
    # source particles of complete executions
    c = run_stats(ctx, 'C22', ctx.pick(24, 120), ctx.pick(20000, 100000), exe=stats)
    return dict(rule='%d random sources sampled in the orders generated by TLC and statistically; source particles of complete executions' % n, extra=dict(collisions=c))
