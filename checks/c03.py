"""C03: legal random walks."""
from walklib import *
LEVEL = 'model_checking'


def run(ctx):
    run_walks(ctx, 'C03', problems(ctx, ctx.pick(48, 800), 'mixed') + cont_problems(ctx, ctx.pick(32, 400)) + long_problems(ctx.rng, ('walk', 'walk', 'chain')), variant=1,
              need=['particle starts in a void', 'continuous energy: scatter', 'continuous energy: surface_cross', 'continuous energy: leak', 'continuous energy: capture', 'scatter', 'capture', 'surface_cross', 'leak', 'fission with secondaries', 'fission without secondaries'])
    return dict(rule='random problems (six geometry styles, seven length scales, one to four groups, both particle types, multigroup and continuous energy, both tracking modes), every event of every particle judged')
