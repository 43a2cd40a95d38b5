"""C07: fission and secondaries."""
from statlib import *
import colllib
LEVEL = 'model_checking'


def run(ctx):
    run_walks(ctx, 'C07', problems(ctx, ctx.pick(48, 800), 'fission') + cont_problems(ctx, ctx.pick(20, 200), 'fission') + long_problems(ctx.rng, ('chain', 'chain')), variant=2, need=['continuous energy: fission with secondaries', 'fission without secondaries', 'fission with secondaries', 'secondary particle'])
    n = run_stats(ctx, 'C07', ctx.pick(24, 200), ctx.pick(40000, 400000))
    ps = [colllib.cont_problem(ctx.rng, nn=ctx.rng.choice([1, 1, 2]), thermal=0, consistent=True, kinds=ctx.rng.choice([('fission',), ('capture', 'fission'), ('scatter', 'fission')])) for _ in range(ctx.pick(48, 400))]
    n += colllib.run_coll(ctx, 'C07', ps, colllib.plain_query(ctx.pick(40000, 400000), 2), need=['collisions with fissions'])
    return dict(extra=dict(collisions=n), rule='random problems dominated by fission, every secondary followed from its creation to its end')
