"""C09: distribution of histories over threads."""
from schedlib import *
LEVEL = 'model_checking'
CFG = '''SPECIFICATION Spec
CONSTANTS
  Workers = {%s}
  N = %d
  Solves = %d
  BaseSeed = 7
INVARIANTS AtMostOnce NoSharedTicket ExactlyOnce Answer Squares
PROPERTY Ends
'''


def run(ctx):
    for k, n, s in ctx.pick([(2, 3, 2), (3, 2, 2), (3, 0, 1)], [(2, 5, 3), (3, 4, 2), (4, 3, 1), (3, 0, 1)]):
        ctx.model_check('Scheduler', CFG % (','.join(str(i + 1) for i in range(k)), n, s), workers=NPROC, coverage=n > 0, min_states=5)
    exe = ctx.build(['same'], 1)['same']
    rng = ctx.rng
    recs = []

    def execute(sc, tag, script):
        d = os.path.join(ctx.dir, 'c%s' % tag)
        path = sc.write(d)
        out = []
        for x in same_probe(ctx, exe, ['count 1'] + [l.replace('FILE', path) for l in script], 'simulation of %d histories by %d threads' % (sc.histories, sc.threads)):
            p = parse_report(x['text'])
            out.append(dict(t='counted', seed=1 if sc.seed is None else sc.seed, n=sc.histories, workers=sc.threads, got=x['n'], dup=x['dup'], odd=x['odd'], lo=int(x['lo']), hi=int(x['hi']),
                            threads=x['threads'], took=[[a, int(b)] for a, b in x.get('took', [])], est=only(p) or [dict(mean=['nan'], sd=['nan'])]))
        shutil.rmtree(d, ignore_errors=True)
        return out
    # short runs, several at a time
    small = []
    for i in range(ctx.pick(150, 1500)):
        n = rng.choice([1, 1, 2, 3, 5, 10, 17, 100, 333])
        small.append((one_score(rng, n, rng.choice([1, 2, 3, 4, 8, 16, 32]), rng.choice([None, 1, 2, 1000, rng.randint(1, 10 ** 6), rng.randint(1, 2 ** 31 - 500)])), i,
                      ['pace %d' % rng.randint(0, 1), 'load a FILE', 'solve a x'] + ['solve a y'] * rng.randint(0, 2)))
    with cf.ThreadPoolExecutor(3) as ex:
        for o in ex.map(lambda a: execute(*a), small):
            recs += o
    # long runs, one at a time so that all processors are contended for
    for i, (n, t) in enumerate(ctx.pick([(20001, 3), (50000, 32), (400000, 8), (1000000, 8), (1000000, 16)], [(20001, 3), (50000, 32), (123457, 5)] + [(2000000, t) for t in (2, 4, 8, 8, 12, 16, 32, 64)])):
        recs += execute(one_score(random.Random(3), n, t, rng.choice([1, 5, 77, 2 ** 30])), 'big%d' % i, ['load a FILE', 'solve a x'])
    ctx.log('histories counted', sum(r['got'] for r in recs))
    rej = ctx.validate('SchedTrace', [ctx.write_trace('c.ndjson', recs)], need=['more threads than histories', 'more than 10000 histories', 'several threads', 'one thread'])
    for tr, no, rule in rej:
        r = dict(recs[no - 1])
        r['took'] = r['took'][:20]
        ctx.violation('%s: %s' % (rule, json.dumps(r)[:500]), r)
    # complete executions: seeds, and nothing left unrecorded
    run_walks(ctx, 'C09', problems(ctx, ctx.pick(12, 160)) + cont_problems(ctx, ctx.pick(6, 60)) + long_problems(rng, ('chain',)), solves=2, need=['report'])
    ctx.samples += [json.dumps(r)[:300] for r in recs[:3]]
    return dict(rule='runs of 1 to 1000000 histories on 1 to 32 threads', extra=dict(histories=sum(r['got'] for r in recs)))
