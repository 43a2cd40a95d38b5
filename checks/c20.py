"""C20: thermal scattering cross sections."""
from contlib import *
LEVEL = 'model_checking'


def run(ctx):
    rng = ctx.rng
    ps = [cont_problem(rng, thermal=rng.choice([0.6, 1]), temps=(150, 800), kinds=rng.choice([None, ['scatter'], ['capture', 'scatter']])) for _ in range(ctx.pick(60, 600))]
    n = run_xs(ctx, 'C20', ps, 8, need=['bound atoms below the cutoff', 'bound atoms above the cutoff'])
    return dict(rule='%d cross sections of particles in %d random problems with compressed thermal scattering data' % (n, len(ps)))
