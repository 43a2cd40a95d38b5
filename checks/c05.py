"""C05: flight lengths."""
from statlib import *
import deltalib
LEVEL = 'model_checking'


def run(ctx):
    run_walks(ctx, 'C05', problems(ctx, ctx.pick(48, 800), 'mixed') + cont_problems(ctx, ctx.pick(32, 400)), variant=2,
              need=['surface_cross', 'leak', 'scatter', 'continuous energy: surface_cross', 'continuous energy: scatter', 'continuous energy: virtual_collision'])
    n = run_stats(ctx, 'C05', ctx.pick(24, 200), ctx.pick(40000, 400000))
    n += deltalib.run_flights(ctx, 'C05', ctx.pick(40, 400), ctx.pick(100000, 1000000), need=['direct tracking'], direct=0.9)
    return dict(extra=dict(collisions=n), rule='every flight of random problems explained by one of the random numbers used for it')
