"""C08: delta tracking."""
from deltalib import *
LEVEL = 'model_checking'


def run(ctx):
    rng = ctx.rng
    # complete walks: every tentative collision
    jobs = []
    while len(jobs) < ctx.pick(24, 300):
        jobs += [sc for sc in cont_problems(ctx, 4, rng.choice(['mixed', 'fission', 'tally'])) if sc.tracking == 'cell delta' and sc.temperature and sc.temperature[0] == 'linear']
    run_walks(ctx, 'C08', jobs, variant=2, need=['continuous energy: virtual_collision'])
    # majorants at many places
    ps = [contlib.cont_problem(rng, consistent=True, tracking='cell delta', field='linear', celltemp=0.2) for _ in range(ctx.pick(48, 400))]
    contlib.run_xs(ctx, 'C08', ps, ctx.pick(10, 30))
    n = run_flights(ctx, 'C08', ctx.pick(96, 800), ctx.pick(200000, 1500000), need=['delta tracking, many rejections', 'delta tracking', 'direct tracking'])
    return dict(rule='first flights of %d particles through regions with temperature gradients' % n, extra=dict(flights=n))
