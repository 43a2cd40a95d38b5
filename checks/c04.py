"""C04: boundary crossings."""
from walklib import *
LEVEL = 'model_checking'


def run(ctx):
    run_walks(ctx, 'C04', problems(ctx, ctx.pick(56, 800), 'crossing') + cont_problems(ctx, ctx.pick(16, 200), 'crossing') + long_problems(ctx.rng, ('walk', 'walk')), variant=1, need=['continuous energy: surface_cross', 'surface_cross', 'leak', 'scatter'])
    return dict(rule='random problems with long mean free paths and coordinates from 1e-2 to 1e5, every crossing judged')
