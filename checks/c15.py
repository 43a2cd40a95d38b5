"""C15: reproducibility."""
import copy
from schedlib import *
LEVEL = 'model_checking'


def run(ctx):
    exe = ctx.build(['same', 'h5w'], 1)['same']
    rng = ctx.rng
    n = ctx.pick(40, 400)
    jobs = []
    while len(jobs) < n:
        jobs += problems(ctx, 6, rng.choice(['mixed', 'crossing', 'fission', 'tally'])) + cont_problems(ctx, 2, rng.choice(['mixed', 'fission', 'tally']))

    def one(a):
        i, sc = a
        r = random.Random(ctx.seed * 7919 + i)
        other = jobs[(i + 1) % len(jobs)]
        d = os.path.join(ctx.dir, 'r%d' % i)
        base = copy.deepcopy(sc)
        base.seed = r.choice([1, 2, 5, r.randint(1, 10 ** 6), r.randint(1, 2 ** 31 - 500)])
        base.histories, base.threads = 60, 1
        recs, files, meta = [], {}, {}

        def file(tag, **kw):
            x = copy.deepcopy(base)
            for k, v in kw.items():
                setattr(x, k, v)
            files[tag] = write(x, os.path.join(d, tag), exe)
            meta[tag] = (i, x)
        file('a')
        file('t', threads=r.choice([2, 3, 5, 8]), chunksize=7)
        file('half', histories=30, threads=r.choice([1, 4]))
        file('long', histories=150, threads=r.choice([1, 2, 8]))
        file('shift', seed=base.seed + r.randint(1, 40))
        # the same physics in the other mode of tracking has its own histories
        o = copy.deepcopy(other)
        o.threads, o.histories = 2, 20
        files['o'] = write(o, os.path.join(d, 'o'), exe)
        meta['o'] = None
        rest = ['load t FILEt', 'solve t t', 'load half FILEhalf', 'solve half half', 'load long FILElong', 'solve long long', 'load shift FILEshift', 'solve shift shift']
        scripts = [['load a FILEa', 'solve a a', 'solve a a', 'load o FILEo', 'solve o o', 'solve a a', 'load b FILEa', 'solve b a', 'drop o', 'solve a a'],
                   ['load o FILEo', 'solve o o', 'drop o'] + rest,
                   ['load a FILEa', 'load o FILEo', 'load t FILEt', 'solve t t', 'solve a a', 'solve o o', 'solve t t']]
        for s in scripts:
            s = [re.sub(r'FILE(\w+)', lambda m: files[m.group(1)], l) for l in s]
            for x in same_probe(ctx, exe, s, 'repeated simulation'):
                if meta[x['label']] is None:
                    continue
                k, y = meta[x['label']]
                p = parse_report(x['text'])
                recs.append(dict(t='run', problem='p%d' % k, seed=y.seed, n=y.histories, distinct=y.source['dir'][0] == 'isotropic',
                                 hist=[[int(a), b] for a, b in x['hist']], est=only(p)))
        shutil.rmtree(d, ignore_errors=True)
        return recs
    with cf.ThreadPoolExecutor(NPROC) as ex:
        traces = list(ex.map(one, enumerate(jobs)))
    shards = [[] for _ in range(NPROC)]
    for i, t in enumerate(traces):
        shards[i % NPROC] += t
    paths = [ctx.write_trace('r%d.ndjson' % i, s) for i, s in enumerate(shards)]
    rej = ctx.validate('SchedTrace', paths, need=['repeated run', 'run sharing seeds with another', 'first run'])
    for tr, no, rule in rej:
        r = read_ndjson(tr)[no - 1]
        i = int(r['problem'][1:])
        ctx.violation('%s: problem %d seed %d histories %d' % (rule, i, r['seed'], r['n']), dict(record=r, input=jobs[i].xml(), rule=rule))
    ctx.samples += [json.dumps(t[0])[:300] for t in traces[:3]]
    ctx.assumptions += ['base seeds are positive and below 2^31-1, where the generator of the program does not repeat itself']
    return dict(rule='every history of repeated runs of random problems compared bit by bit: same object, same process after other problems, other processes, other numbers of threads and histories, shifted seeds')
