"""C02: ray tracing."""
from geomlib import *
LEVEL = 'model_checking'


def run(ctx):
    rng = ctx.rng
    ctx.model_check('MCGeometry', open(VERIF + '/spec/MCGeometry.cfg').read())
    exe = ctx.build(['geom'])['geom']
    jobs = []
    axes = [(1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (0, 0, 1), (0, 0, -1)]
    for i in range(ctx.pick(24, 200)):
        sc = exact_world(rng)
        qs = [(p, d) for p in lattice_points(3) for d in axes]
        if ctx.quick:
            qs = rng.sample(qs, 150)
        jobs.append((sc, ['ray %s %s %s %s %s %s 1' % tuple(map(fl, (*p, *d))) for p, d in qs]))
    for i in range(ctx.pick(60, 600)):
        sc = random_world(rng)
        qs = []
        for _ in range(ctx.pick(90, 300)):
            p = random_point(rng, sc)
            d = scen.direction(rng)
            k = rng.random()
            if k < 0.15:     # towards or away from the centre, towards another surface point
                q = random_point(rng, sc)
                d = tuple(a - b for a, b in zip(q, p))
            elif k < 0.25:   # almost parallel to an axis
                d = [rng.uniform(-1, 1) * 10 ** rng.uniform(-9, -2) for _ in range(3)]
                d[rng.randrange(3)] = rng.choice([-1, 1])
            elif k < 0.35:   # nearly tangent to a sphere or cylinder
                sf = rng.choice(sc.surfaces)
                if sf['kind'] != 'planex':
                    c = sf['c'] if sf['kind'] == 'sphere' else (p[0], 0, 0)
                    n = [a - b for a, b in zip(p, c)]
                    r2 = sum(x * x for x in n)
                    e = scen.direction(rng, unit=True)
                    dot = sum(a * b for a, b in zip(n, e)) / r2 if r2 else 0
                    d = tuple(a - dot * b + 10 ** rng.uniform(-9, -1) * b * rng.choice([-1, 1]) for a, b in zip(e, n))
            if sum(x * x for x in d) < 1e-20:
                d = (0, 0, 1)
            qs.append('ray %s %s %s %s %s %s 0' % tuple(map(fl, (*p, *d))))
        jobs.append((sc, qs))
    judge(ctx, exe, jobs, ['ray from a surface', 'ray touching or parallel', 'ray hitting nothing', 'ray hitting a surface'])
    ctx.assumptions += ['a distance may differ from the exact one by the rounding error of evaluating the surface equation; rays whose touching the surface is within that error may be reported either way unless the arithmetic is exact']
    return dict(rule='integer lattice rays along the axes in random integer geometries (exact) and random rays: from and towards surfaces, nearly tangent, nearly parallel to an axis')
