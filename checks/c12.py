"""C12: current results."""
from walklib import *
LEVEL = 'model_checking'


def run(ctx):
    run_walks(ctx, 'C12', problems(ctx, ctx.pick(48, 800), 'tally') + cont_problems(ctx, ctx.pick(24, 300), 'tally'), need=['continuous energy: surface_cross', 'surface_cross', 'leak', 'scatter', 'report'])
    return dict(rule='random problems with several binned results per problem, printed results recomputed from the events')
