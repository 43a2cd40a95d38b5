"""C19: continuous-energy collisions."""
from colllib import *
LEVEL = 'model_checking'


def run(ctx):
    rng = ctx.rng
    ps = [cont_problem(rng, nn=rng.choice([1, 1, 2, 3]), thermal=0, kinds=rng.choice([None, ('scatter',)]), consistent=True, temps=rng.choice([(100, 1200), (1, 100), (300, 3000)]), tracking=None) for _ in range(ctx.pick(40, 400))]
    for sc in ps[::3]:
        for c in sc.cells:
            if c['mat'] is not None:
                c['temp'] = 0.0
    n = run_coll(ctx, 'C19', ps, free_query(ctx.pick(1500000, 6000000), 3), need=['atoms at rest', 'free atoms in motion', 'photon'])
    return dict(rule='%d collisions of particles in %d random continuous-energy problems' % (n, len(ps)), extra=dict(collisions=n))
