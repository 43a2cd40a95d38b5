"""C25: mixtures and multigroup totals."""
from contlib import *
LEVEL = 'model_checking'


def run(ctx):
    rng = ctx.rng
    ps = []
    while len(ps) < ctx.pick(80, 800):
        sc = scen.random_problem(rng, zeros=rng.choice([0, 0.15, 0.5]), nnuc=rng.choice([1, 2, 3, 4, 6]), crowd=0.05)
        if usable(sc):
            sc.scale = 1
            ps.append(sc)
    ps += [cont_problem(rng, nn=rng.randint(1, 5)) for _ in range(ctx.pick(24, 200))]
    n = run_xs(ctx, 'C25', ps, 8, need=['multigroup', 'free gas'])
    return dict(rule='cross sections of materials and nuclides at %d places of %d random problems' % (n, len(ps)))
