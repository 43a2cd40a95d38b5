"""C14: sensitivities."""
from walklib import *
LEVEL = 'model_checking'


def run(ctx):
    run_walks(ctx, 'C14', problems(ctx, ctx.pick(48, 800), 'sens') + cont_problems(ctx, ctx.pick(32, 300), 'sens'), need=['continuous energy: surface_cross', 'continuous energy: virtual_collision', 'continuous energy: scatter', 'surface_cross', 'leak', 'scatter', 'report'])
    return dict(rule='random problems with perturbations and sensitivities, indirect effects of every flight and printed sensitivities recomputed')
