"""C24: temperatures and tracking modes."""
from contlib import *
LEVEL = 'model_checking'


def run(ctx):
    rng = ctx.rng
    ps = []
    # every combination of global field, request and overrides
    for field in ('none', 'constant', 'linear', 'linear'):
        for tracking in (None, 'surface', 'cell delta'):
            for own in (0, 0.5, 1):
                for _ in range(ctx.pick(3, 30)):
                    ps.append(cont_problem(rng, field=field, tracking=tracking, celltemp=own, nn=rng.randint(1, 2), thermal=0.2, scale=rng.choice([1, 1, 10, 100])))
    n = run_xs(ctx, 'C24', ps, 4, need=['tracking accepted', 'tracking refused'])
    return dict(rule='temperature, bounds and tracking mode at %d places of %d random problems' % (n, len(ps)))
