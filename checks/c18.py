"""C18: continuous-energy cross sections."""
from contlib import *
LEVEL = 'model_checking'


def run(ctx):
    rng = ctx.rng
    ps = [cont_problem(rng, thermal=t, crowd=0.06, consistent=rng.random() < 0.3, temps=(100, 1200) if t else rng.choice([(100, 1200), (100, 1200), (1, 100), (0.01, 3)])) for t in (rng.choice([0, 0, 0.4]) for _ in range(ctx.pick(60, 600)))]
    n = run_xs(ctx, 'C18', ps, 8, need=['tabulated total applies', 'free gas', 'tables of reactions', 'bound atoms below the cutoff'])
    return dict(rule='%d cross sections of particles in %d random continuous-energy problems' % (n, len(ps)))
