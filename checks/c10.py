"""C10: accumulation and merging of results."""
import copy
from walklib import *
LEVEL = 'model_checking'
CFG = '''SPECIFICATION Spec
CONSTANTS
  Depth = %d
  Sets = {1, 2}
  Proxies = {%s}
  Kinds = {%s}
  Emitting = %s
INVARIANTS Meaning NoNegativeVariance Emit
'''


def behaviours(out):
    r = []
    for m in re.finditer(r'"SEQ (.*?)"$', out, re.M):
        s = m.group(1).replace('\\"', '"')
        r.append([(a, int(b), int(c)) for a, b, c in re.findall(r'<<"(\w+)", (\d+), (\d+)>>', s)])
    return r


def tally_problem(rng):
    while True:
        sc = problems(None, 1, 'tally', rng)[0]
        if sc.estimators and sc.used_surfaces():
            return sc


def parts(rng, sc, kinds):
    """kinds of particles, likely to score"""
    out = []
    cells = [i for i, c in enumerate(sc.cells) if c['mat'] is not None]
    e = rng.choice(sc.estimators)
    for k in range(kinds):
        if rng.random() < 0.4:
            e = rng.choice(sc.estimators)
        ev = rng.choice(['surface_cross', 'leak'] * 4 + ['scatter', 'virtual_collision', 'capture', 'birth', 'fission'])
        s = e['surf'] + 1 if rng.random() < 0.85 else rng.choice([0] + [i + 1 for i in sc.used_surfaces()])
        d = out[-1][2] if out and rng.random() < 0.3 else scen.direction(rng)
        g = out[-1][3] if out and rng.random() < 0.3 else rng.randint(1, sc.groups)
        ty = rng.choice(list(sc.nuclides[0]['data']))
        out.append((ev, s, d, g, ty, rng.choice(cells), [round(rng.uniform(0.1, 3), 2) for _ in range(rng.randint(0, 2))]))
    return out


def run(ctx):
    rng = ctx.rng
    # every behaviour up to a length, and longer ones at random
    r = ctx.model_check('MCTally', CFG % (ctx.pick(5, 6), '1, 2', '1, 2' if ctx.quick else '1, 2, 3', 'TRUE'), workers=1, min_states=1000, coverage=False, heap='6g')
    seqs = behaviours(r['out'])
    r = ctx.tlc('MCTally', CFG % (ctx.pick(30, 60), '1, 2, 3', '1, 2, 3', 'TRUE'), extra=('-deadlock', '-simulate', 'num=%d' % ctx.pick(400, 4000), '-depth', str(ctx.pick(31, 61)), '-seed', str(ctx.seed)))
    long = behaviours(r['out'])
    if len(seqs) < 3000 or len(long) < 100:
        raise CheckError('behaviours generated: %d and %d' % (len(seqs), len(long)))
    rng.shuffle(seqs)
    ctx.log('behaviours', len(seqs), 'and', len(long))
    seqs = seqs[:ctx.pick(24000, len(seqs))] + long
    exes = ctx.build(['tally', 'solve', 'h5w'], 1)
    nprob = ctx.pick(64, 256)
    jobs = [(i, tally_problem(rng), random.Random(rng.random()), seqs[i::nprob]) for i in range(nprob)]

    def one(job):
        i, sc, r, ops = job
        d = os.path.join(ctx.dir, 't%d' % i)
        other = copy.deepcopy(sc)
        r.shuffle(other.estimators)
        a, b = sc.write(d), other.write(d, 'order.xml')
        w = r.choice([1000, 1000, 37])
        ps = parts(r, sc, 3)
        script = names(sc)[1:] + ['weight %d' % w]
        for ev, s, dd, g, ty, cell, ds in ps:
            script.append('part %s %d %s %d %s %d %d %s' % (ev, s, ' '.join(float(x).hex() for x in dd), g, ty, cell, len(ds), ' '.join(float(x).hex() for x in ds)))
        for o in ops:
            script.append('ops %d %s' % (len(o), ' '.join('%s %d %d' % x for x in o)))
        res = ctx.probe(exes['tally'], [a, b], stdin=('\n'.join(script) + '\n').encode(), what='operations on sets of results')
        recs = [json.loads(x) for x in res.stdout.decode().splitlines()]
        shutil.rmtree(d, ignore_errors=True)
        p = problem_record(sc)
        all_ = [j + 1 for j in range(len(p['est']))]
        out = [dict(t='tallies', est=p['est'], parts=[x for x in recs if x['t'] == 'part'], n=w, sets=[all_, all_])]
        pos = {e['name']: j for j, e in enumerate(p['est'])}
        much = 0
        for o, x in zip(ops, [x for x in recs if x['t'] == 'ops']):
            # reports of very many numbers: fewer of them
            much += sum(len(text) for text in x['text'])
            if much > 3000000:
                break
            shown = []
            for text in x['text']:
                rep = parse_report(text)
                es = sorted([e for e in rep['est'] if e['name'] in pos], key=lambda e: pos[e['name']])
                shown.append(es if rep['ok'] and len(es) == len(all_) else [])
            out.append(dict(t='ops', ops=[list(q) for q in o], shown=shown))
        return out
    with cf.ThreadPoolExecutor(NPROC) as ex:
        traces = list(ex.map(one, jobs))
    shards = [[] for _ in range(NPROC)]
    for t in sorted(traces, key=lambda t: -sum(len(e['mean']) for r in t[1:9] for v in r['shown'] for e in v) * len(t)):
        min(shards, key=len).extend(t)
    rej = ctx.validate('TallyTrace', [ctx.write_trace('t%d.ndjson' % i, s) for i, s in enumerate(shards)],
                       need=['behaviour with merging', 'behaviour with copying', 'behaviour of proxies only'])
    for tr, no, rule in rej:
        if rule.startswith('C10:') and len(ctx.violations) < 10:
            recs = read_ndjson(tr)
            b = max(j for j in range(no) if recs[j]['t'] == 'tallies')
            ctx.violation('%s: after %s' % (rule, recs[no - 1]['ops']), dict(problem=recs[b], record=recs[no - 1], rule=rule))
    ctx.samples.append(json.dumps(traces[0][1])[:300])
    # complete executions: printed totals recomputed from their events
    run_walks(ctx, 'C10', problems(ctx, ctx.pick(20, 300), 'tally') + cont_problems(ctx, ctx.pick(8, 100), 'tally'), exe=exes['solve'], need=['report'])
    return dict(rule='%d behaviours of sets of results generated by TLC and replayed into the real classes' % len(seqs), extra=dict(behaviours=len(seqs)))
