"""C01: point location."""
from geomlib import *
LEVEL = 'model_checking'


def run(ctx):
    rng = ctx.rng
    ctx.model_check('MCGeometry', open(VERIF + '/spec/MCGeometry.cfg').read())
    exe = ctx.build(['geom'])['geom']
    jobs = []
    for i in range(ctx.pick(24, 200)):
        sc = exact_world(rng)
        pts = lattice_points(3)
        if ctx.quick:
            pts = rng.sample(pts, 200)
        jobs.append((sc, ['loc %s %s %s 1' % tuple(map(fl, p)) for p in pts]))
    for i in range(ctx.pick(60, 600)):
        sc = random_world(rng)
        jobs.append((sc, ['loc %s %s %s 0' % tuple(map(fl, random_point(rng, sc))) for _ in range(ctx.pick(100, 300))]))
    judge(ctx, exe, jobs, ['point on a surface', 'point outside all regions', 'point in overlapping regions', 'point strictly inside', 'point very close to a surface'])
    ctx.assumptions += ['positions within rounding error of a surface may be assigned to either side unless the arithmetic is exact']
    return dict(rule='integer lattice in random integer geometries (exact) and random points, half of them on or within 1e-15..1e-3 of a surface, in random geometries of five styles and seven scales')
