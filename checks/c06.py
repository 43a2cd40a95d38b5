"""C06: outcomes of collisions."""
from statlib import *
import colllib
LEVEL = 'model_checking'


def run(ctx):
    # no impossible outcome, also for the least possible random number
    run_walks(ctx, 'C06', problems(ctx, ctx.pick(32, 400), zeros=0.4) + cont_problems(ctx, ctx.pick(16, 200)), variant=2, need=['continuous energy: scatter', 'scatter', 'capture', 'fission with secondaries'])
    n = run_stats(ctx, 'C06', ctx.pick(48, 400), ctx.pick(60000, 400000),
                  need=['collisions in one region and group, more than 20000'])
    ps = [colllib.cont_problem(ctx.rng, nn=ctx.rng.choice([2, 3, 4]), thermal=0.4, consistent=True) for _ in range(ctx.pick(48, 400))]
    n += colllib.run_coll(ctx, 'C06', ps, colllib.plain_query(ctx.pick(40000, 400000), 2), need=['collisions with fissions', 'collisions without fission'])
    return dict(rule='outcomes of %d collisions of random problems counted per region, particle type and group' % n, extra=dict(collisions=n))
