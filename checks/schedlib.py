"""Cases shared by C09 and C15."""
from walklib import *


def same_probe(ctx, exe, script, what, timeout=200):
    r = ctx.probe(exe, [], stdin=('\n'.join(script) + '\n').encode(), what=what, timeout=timeout)
    return [json.loads(x) for x in r.stdout.decode().splitlines()]


def one_score(rng, n, threads, seed):
    """a problem in which each history scores exactly once"""
    sc = scen.Scenario()
    kind = rng.choice(['leak', 'leak', 'far'])
    sc.surfaces = [dict(kind='sphere', name='s', c=(0, 0, 0), r=1.0)]
    sc.cells = [dict(name='in', sides=[(0, True)], mat=0), dict(name=None, sides=[(0, False)], mat=None)]
    sc.nuclides = [dict(name='n', data=dict(neutron=dict(capture=[1e-30])))]
    if kind == 'far':
        sc.nuclides[0]['data']['neutron'] = dict(capture=[1e-30], scatter=[[1.0]])
    sc.materials = [dict(name='m', aden=1.0, comps=[(0, 1.0)])]
    sc.source = dict(pos=(0, 0, 0), dir=('isotropic',), energy=1, type='neutron')
    sc.estimators = [dict(name='e', surf=0)]
    sc.histories, sc.threads, sc.seed = n, threads, seed
    sc.chunksize = rng.choice([1, 10, 1000])
    return sc


def only(report):
    return report['est'] if report['ok'] else []
