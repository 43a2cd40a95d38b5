"""Problem scenarios: one structure from which both the program's XML input and
the specification's model of the problem are written."""
import math, os, re, shutil, zlib
from decimal import Decimal
from vlib import hx, REPO


def num(v):
    """a number in one of the ways it may be written (always the same one)"""
    v = float(v)
    s = repr(v)
    if not math.isfinite(v):
        return s
    h = zlib.crc32(s.encode()) % 16
    sg, digits, ex = Decimal(s).as_tuple()
    digits = ''.join(map(str, digits))
    sign = '-' if sg else ''
    if h == 0 and not sg:
        return '+' + s
    if h == 1 and 'e' not in s:
        return s + '00'
    if h == 2:
        return '%s%se%d' % (sign, digits, ex)
    if h == 3:
        return '%s%s.%sE%+03d' % (sign, digits[0], digits[1:] or '0', ex + len(digits) - 1)
    if h == 4 and s.lstrip('-').startswith('0.') and 'e' not in s:
        return sign + s.lstrip('-')[1:]
    if h == 5 and s.endswith('.0'):
        return s[:-2]
    if h == 6 and s.endswith('.0'):
        return s[:-1]
    if h == 7 and 'e' not in s:
        return sign + '00' + s.lstrip('-')
    return s


STYLES = ['free', 'free', 'equal', 'prefix', 'suffix', 'case', 'text']


def toks(names):
    """names for a harness"""
    return ' '.join(n.replace(' ', '\x01') for n in names)


def nm(rng, base):
    """names of equal length, names beginning or ending alike, and others"""
    k, i = base.rstrip('0123456789'), int(re.sub(r'\D', '', base) or 0)
    style = getattr(rng, 'style', 'free')
    if style == 'equal':
        return 'abcdefghijklmnopqrstuvwxyz'[i % 26] + k + 'q'
    if style == 'prefix':
        return k + 'xx' + 'x' * i
    if style == 'suffix':
        return 'y' * (30 - i) + k
    if style == 'case':
        return ''.join(c.upper() if i >> j & 1 else c for j, c in enumerate(k + 'abcd'))
    if style == 'text':
        # names as written by people: several words, digits first, punctuation
        return rng.choice(['%s (the %dth)', '%s no. %d', "%s's %d", '%s: %d', '%s-%d', '%s  +%d', '%s/%d', '%s::%d', '%s = %d']) % (k, i)
    return ''.join(rng.choice('qwertyuiopasdfghjklzxcvbnm') for _ in range(rng.randint(1, 3))) + base


class Scenario:
    def __init__(self):
        self.particles = ['neutron']
        self.histories, self.threads, self.seed, self.tracking = 100, 1, 1, None
        self.chunksize = 1
        self.groups = 1
        self.continuous = None        # list of continuous nuclides (dicts with xml) when not multigroup
        self.nuclides = []            # dict(name, data={ptype: dict(capture, scatter, fission=dict(xs,nubar,chi))})
        self.materials = []           # dict(name, aden, comps=[(nuclide idx, afrac)])
        self.surfaces = []            # dict(name, kind, ...)
        self.cells = []               # dict(name or None, sides=[(surface idx, neg)], mat idx or None, temp or None)
        self.temperature = None       # None | ('constant', c) | ('linear', lower, upper, b, g)
        self.source = dict(pos=(0, 0, 0), dir=('isotropic',), energy=1, type='neutron')
        self.perturbations = []       # dict(name, nuclide idx)
        self.estimators = []          # dict(name, surf idx, cosine=None|dict(u,v,w,bins), energy=None|bins, sens=[pert idx])
        self.estimators_tag = True

    # ------------------------------------------------------------- XML
    def xml(self):
        o = ['<?xml version="1.0" encoding="UTF-8"?>',
             '<minimc xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance" xsi:noNamespaceSchemaLocation="minimc.xsd">']
        o.append('<general><particles>%s</particles><histories>%d</histories><threads>%d</threads><chunksize>%d</chunksize>' % (' '.join(self.particles), self.histories, self.threads, self.chunksize))
        if self.seed is not None:
            o.append('<seed>%d</seed>' % self.seed)
        if self.tracking:
            o.append('<tracking>%s</tracking>' % self.tracking)
        o.append('</general>')
        if self.continuous is not None:
            o.append('<nuclides><continuous>')
            for n in self.continuous:
                o.append(n.get('xml', '<!-- data files -->'))
            o.append('</continuous></nuclides>')
        else:
            o.append('<nuclides><multigroup groups="%d">' % self.groups)
            for n in self.nuclides:
                o.append('<nuclide name="%s">' % n['name'])
                for pt in n.get('order', sorted(n['data'])):
                    d = n['data'][pt]
                    o.append('<%s>' % pt)
                    for r in d.get('order', ['capture', 'scatter', 'fission']):
                        if d.get(r) is None:
                            continue
                        if r == 'capture':
                            o.append('<capture>%s</capture>' % ' '.join(num(x) for x in d[r]))
                        elif r == 'scatter':
                            o.append('<scatter>%s</scatter>' % '\n'.join(' '.join(num(x) for x in row) for row in d[r]))
                        else:
                            f = d[r]
                            o.append('<fission><xs>%s</xs><nubar>%s</nubar><chi>%s</chi></fission>' % (
                                ' '.join(num(x) for x in f['xs']), ' '.join(num(x) for x in f['nubar']),
                                '\n'.join(' '.join(num(x) for x in row) for row in f['chi'])))
                    o.append('</%s>' % pt)
                o.append('</nuclide>')
            o.append('</multigroup></nuclides>')
        o.append('<materials>')
        names = [n['name'] for n in (self.continuous if self.continuous is not None else self.nuclides)]
        for m in self.materials:
            o.append('<material name="%s" aden="%s">' % (m['name'], num(m['aden'])))
            for i, a in m['comps']:
                o.append('<nuclide name="%s" afrac="%s"/>' % (names[i], num(a)))
            o.append('</material>')
        o.append('</materials><surfaces>')
        for s in self.surfaces:
            if s['kind'] == 'sphere':
                o.append('<sphere name="%s"><center x="%s" y="%s" z="%s"/><radius r="%s"/></sphere>' % (s['name'], *map(num, s['c']), num(s['r'])))
            elif s['kind'] == 'planex':
                o.append('<planex name="%s" x="%s"/>' % (s['name'], num(s['x'])))
            else:
                o.append('<cylinderx name="%s" r="%s"/>' % (s['name'], num(s['r'])))
        o.append('</surfaces><cells>')
        for c in self.cells:
            sides = ''.join('<surface name="%s" sense="%s"/>' % (self.surfaces[i]['name'], '-1' if neg else '+1') for i, neg in c['sides'])
            if c['mat'] is None:
                o.append('<void>%s</void>' % sides)
            else:
                t = '' if c.get('temp') is None else ' temperature="%s"' % num(c['temp'])
                o.append('<cell name="%s" material="%s"%s>%s</cell>' % (c['name'], self.materials[c['mat']]['name'], t, sides))
        o.append('</cells>')
        if self.temperature:
            if self.temperature[0] == 'constant':
                o.append('<temperature><constant c="%s"/></temperature>' % num(self.temperature[1]))
            else:
                _, lo, up, b, g = self.temperature
                o.append('<temperature><linear><bounds lower="%s" upper="%s"/><intercept b="%s"/><gradient x="%s" y="%s" z="%s"/></linear></temperature>' % (num(lo), num(up), num(b), *map(num, g)))
        s = self.source
        d = s['dir']
        dx = '<isotropic/>' if d[0] == 'isotropic' else '<%s x="%s" y="%s" z="%s"/>' % ('constant' if d[0] == 'constant' else 'isotropic-flux', *map(num, d[1:]))
        o.append('<problemtype><fixedsource><position><constant x="%s" y="%s" z="%s"/></position><direction>%s</direction><energy><constant energy="%s"/></energy><particletype><constant type="%s"/></particletype></fixedsource></problemtype>' % (
            *map(num, s['pos']), dx, s['energy'] if isinstance(s['energy'], int) else num(s['energy']), s['type']))
        if self.perturbations:
            o.append('<perturbations>' + ''.join('<total name="%s" nuclide="%s"/>' % (p['name'], names[p['nuclide']]) for p in self.perturbations) + '</perturbations>')
        if self.estimators:
            o.append('<estimators>')
            for e in self.estimators:
                o.append('<current name="%s" surface="%s">' % (e['name'], self.surfaces[e['surf']]['name']))
                if e.get('cosine') or e.get('energy'):
                    o.append('<bins>')
                    if e.get('energy'):
                        o.append('<energy>%s</energy>' % bins_xml(e['energy']))
                    if e.get('cosine'):
                        c = e['cosine']
                        o.append('<cosine u="%s" v="%s" w="%s">%s</cosine>' % (num(c['u']), num(c['v']), num(c['w']), bins_xml(c['bins'])))
                    o.append('</bins>')
                if e.get('sens'):
                    o.append('<sensitivities>' + ''.join('<perturbation name="%s"/>' % self.perturbations[p]['name'] for p in e['sens']) + '</sensitivities>')
                o.append('</current>')
            o.append('</estimators>')
        o.append('</minimc>')
        return '\n'.join(o) + '\n'

    def write(self, directory, name='input.xml'):
        os.makedirs(directory, exist_ok=True)
        for x in ('minimc.xsd', 'minimc_basictypes.xsd'):
            p = os.path.join(directory, x)
            if not os.path.exists(p):
                shutil.copy(os.path.join(REPO, 'test', x), p)
        p = os.path.join(directory, name)
        with open(p, 'w') as f:
            f.write(self.xml())
        return p

    # ------------------------------------------------------------- model
    def used_surfaces(self):
        return [i for i in range(len(self.surfaces)) if any(i == s for c in self.cells for s, _ in c['sides'])]

    def surf_model(self, s):
        if s['kind'] == 'sphere':
            return dict(kind='sphere', c=[hx(v) for v in s['c']], r=hx(s['r']))
        if s['kind'] == 'planex':
            return dict(kind='planex', x=hx(s['x']))
        return dict(kind='cylinderx', r=hx(s['r']))

    def sig(self, c):
        d = {self.surfaces[i]['name']: neg for i, neg in c['sides']}
        return (c['name'] or '') + ''.join('|%s%s' % (n, '-' if d[n] else '+') for n in sorted(d))

    def world_model(self):
        return dict(surfaces=[self.surf_model(s) for s in self.surfaces],
                    cells=[dict(sides=[[i + 1, neg] for i, neg in c['sides']], void=c['mat'] is None, mat=(c['mat'] or 0) + 1) for c in self.cells])

    def nuclear_model(self):
        """Multigroup data exactly as given; matrices as rows (outgoing) of columns (incoming)."""
        def data(d):
            r = {}
            r['capture'] = [hx(x) for x in d['capture']] if d.get('capture') is not None else []
            r['scatter'] = [[hx(x) for x in row] for row in d['scatter']] if d.get('scatter') is not None else []
            f = d.get('fission')
            r['fission'] = [hx(x) for x in f['xs']] if f else []
            r['nubar'] = [hx(x) for x in f['nubar']] if f else []
            r['chi'] = [[hx(x) for x in row] for row in f['chi']] if f else []
            return r
        return dict(groups=self.groups,
                    nuclides=[{pt: data(d) for pt, d in n['data'].items()} for n in self.nuclides],
                    materials=[dict(aden=hx(m['aden']), comps=[[i + 1, hx(a)] for i, a in m['comps']]) for m in self.materials])


def bins_xml(b):
    k = b[0]
    if k == 'linspace':
        return '<linspace min="%s" max="%s" bins="%d"/>' % (num(b[1]), num(b[2]), b[3])
    if k == 'logspace':
        base = '' if b[4] is None else ' base="%s"' % num(b[4])
        return '<logspace min="%s" max="%s" bins="%d"%s/>' % (num(b[1]), num(b[2]), b[3], base)
    return '<boundaries>%s</boundaries>' % ' '.join(num(x) for x in b[1])


def bins_model(b):
    if not b:
        return dict(kind='none')
    if b[0] == 'linspace':
        return dict(kind='linspace', min=hx(b[1]), max=hx(b[2]), n=b[3])
    if b[0] == 'logspace':
        return dict(kind='logspace', min=hx(b[1]), max=hx(b[2]), n=b[3], base=hx(10 if b[4] is None else b[4]))
    return dict(kind='boundaries', b=[hx(x) for x in b[1]])


# ------------------------------------------------------------------ geometry
def rnd(rng, lo, hi, nd=None):
    v = rng.uniform(lo, hi)
    return round(v, nd) if nd is not None else v


def geometry(rng, sc, style=None, scale=1.0, void_prob=0.25):
    """Fill sc.surfaces / sc.cells with a proper partition of space; cells get
    mat=None (void) or mat='m' (to be assigned)."""
    style = style or rng.choice(['signs', 'spheres', 'slabs', 'grid', 'lattice', 'half', 'thin'])
    if getattr(rng, 'crowd', False):
        style = rng.choice(['cheese', 'onion'])
    S = sc.surfaces = []
    C = []

    def surf(kind, **kw):
        S.append(dict(kind=kind, name=nm(rng, 's%d' % len(S)), **kw))
        return len(S) - 1
    nd = rng.choice([None, 2, 1])
    if style == 'signs':
        k = rng.randint(1, 4)
        for i in range(k):
            kind = rng.choice(['sphere', 'sphere', 'planex', 'cylinderx'])
            if kind == 'sphere':
                surf('sphere', c=tuple(scale * rnd(rng, -1.5, 1.5, nd) for _ in range(3)), r=scale * max(0.2, rnd(rng, 0.3, 2.5, nd)))
            elif kind == 'planex':
                surf('planex', x=scale * (rnd(rng, -2, 2, nd) + 0.001 * i))
            else:
                surf('cylinderx', r=scale * (max(0.2, rnd(rng, 0.3, 2, nd)) + 0.001 * i))
        for m in range(2 ** k):
            sides = [(i, bool(m >> i & 1)) for i in range(k)]
            C.append((sides, None if rng.random() < void_prob else 'm'))
    elif style == 'spheres':
        k = rng.randint(1, 4)
        c = [scale * rnd(rng, -2, 2, nd) for _ in range(3)]
        r = 0.0
        idx = []
        for i in range(k):
            r2 = r + scale * (0.2 + rng.random() * 1.2)
            off = [rng.uniform(-1, 1) * (r2 - r) * 0.4 * rng.choice([0, 1]) for _ in range(3)]
            c = [a + b for a, b in zip(c, off)]
            idx.append(surf('sphere', c=tuple(c), r=r2))
            r = r2
        for i in range(k + 1):
            sides = []
            if i < k:
                sides.append((idx[i], True))
            if i > 0:
                sides.append((idx[i - 1], False))
            C.append((sides, 'm' if i < k and rng.random() > void_prob * 0.6 else None))
    elif style in ('slabs', 'grid'):
        n = rng.randint(2, 4)
        xs = sorted(scale * rnd(rng, -3, 3) for _ in range(n))
        px = [surf('planex', x=x) for x in xs]
        nc = rng.randint(1, 2) if style == 'grid' else 0
        rs = sorted(scale * rnd(rng, 0.3, 2.5) for _ in range(nc))
        cx = [surf('cylinderx', r=r) for r in rs]
        for i in range(n + 1):
            xsides = ([(px[i - 1], False)] if i > 0 else []) + ([(px[i], True)] if i < n else [])
            if not cx:
                C.append((xsides, None if i in (0, n) or rng.random() < void_prob * 0.5 else 'm'))
                continue
            for j in range(nc + 1):
                csides = ([(cx[j - 1], False)] if j > 0 else []) + ([(cx[j], True)] if j < nc else [])
                outer = i in (0, n) or j == nc
                C.append((xsides + csides, None if outer or rng.random() < void_prob * 0.5 else 'm'))
    elif style == 'thin':
        # layers down to a hundred millionth of the problem's size, maybe cut
        # by another surface
        n = rng.randint(2, 5)
        x = rng.uniform(0.5, 1.5)
        xs = []
        for i in range(n):
            xs.append(scale * x)
            x += rng.choice([rng.uniform(0.2, 1), 10 ** rng.uniform(-8, -1), 10 ** rng.uniform(-8, -4)])
        kind = rng.choice(['planex', 'sphere', 'cylinderx'])
        if kind == 'planex':
            px = [surf(kind, x=v - 1.5 * scale) for v in xs]
        elif kind == 'sphere':
            px = [surf(kind, c=(0, 0, 0), r=v) for v in xs]
        else:
            px = [surf(kind, r=v) for v in xs]
        cut = None
        if rng.random() < 0.5:
            cut = surf('planex', x=scale * rnd(rng, -1, 1, nd)) if kind != 'planex' else surf(rng.choice(['cylinderx']), r=scale * rnd(rng, 0.5, 2, nd))
        for i in range(n + 1):
            sides = ([(px[i - 1], False)] if i > 0 else []) + ([(px[i], True)] if i < n else [])
            out = i == n or (kind == 'planex' and i == 0)
            for c in ((None,) if cut is None else (True, False)):
                C.append((sides + ([] if c is None else [(cut, c)]), None if out or rng.random() < void_prob * 0.3 else 'm'))
    elif style == 'cheese':
        # a region with many bounding surfaces
        n = rng.randint(2, 3)
        inner = []
        for i in range(n):
            for j in range(n):
                for k in range(2):
                    inner.append(surf('sphere', c=tuple(scale * (v - (n - 1) / 2 + rng.uniform(-.05, .05)) * 1.1 for v in (i, j, k)), r=scale * rnd(rng, 0.15, 0.45)))
        o = surf('sphere', c=(0, 0, 0), r=scale * rnd(rng, 3.5, 5))
        for i in inner:
            C.append(([(i, True)], None if rng.random() < void_prob * 0.4 else 'm'))
        C.append(([(o, True)] + [(i, False) for i in inner], 'm'))
        C.append(([(o, False)], None))
    elif style == 'onion':
        # many layers, cut in two
        n = rng.randint(7, 11)
        kind = rng.choice(['sphere', 'cylinderx'])
        rs = [scale * 3 * (i + rng.uniform(0.7, 1.2)) / n for i in range(n)]
        px = [surf(kind, r=r, **(dict(c=(0, 0, 0)) if kind == 'sphere' else {})) for r in rs]
        cut = surf('planex', x=scale * rnd(rng, -0.5, 0.5, nd))
        for i in range(n + 1):
            sides = ([(px[i - 1], False)] if i > 0 else []) + ([(px[i], True)] if i < n else [])
            for c in (True, False):
                C.append((sides + [(cut, c)], None if i == n or rng.random() < void_prob * 0.2 else 'm'))
    elif style == 'lattice':
        R = scale * rnd(rng, 3, 5)
        o = surf('sphere', c=(0, 0, 0), r=R)
        inner = []
        for i in range(rng.randint(1, 4)):
            a = 2 * math.pi * i / 4
            inner.append(surf('sphere', c=(scale * 1.5 * math.cos(a), scale * 1.5 * math.sin(a), scale * rnd(rng, -0.5, 0.5)), r=scale * rnd(rng, 0.2, 0.9)))
        for s in inner:
            C.append(([(s, True)], None if rng.random() < void_prob else 'm'))
        C.append(([(o, True)] + [(s, False) for s in inner], 'm'))
        C.append(([(o, False)], None))
    else:
        s = surf('sphere', c=tuple(scale * rnd(rng, -1, 1, nd) for _ in range(3)), r=scale * rnd(rng, 1, 3))
        p = surf('planex', x=S[s]['c'][0] + scale * rnd(rng, -0.8, 0.8))
        cyl = surf('cylinderx', r=scale * rnd(rng, 0.2, 0.8))
        C = [([(s, True), (p, True)], 'm'), ([(s, True), (p, False), (cyl, True)], 'm'), ([(s, True), (p, False), (cyl, False)], rng.choice([None, 'm'])), ([(s, False)], None)]
    if all(m is None for _, m in C):
        i = max(range(len(C)), key=lambda i: len(C[i][0]))
        C[i] = (C[i][0], 'm')
    rng.shuffle(C)
    for _, (sides, _) in enumerate(C):
        rng.shuffle(sides)
    sc.cells = [dict(name=None if m is None else nm(rng, 'c%d' % i), sides=sides, mat=m) for i, (sides, m) in enumerate(C)]
    sc.style = style
    return sc


def side_value(s, p):
    if s['kind'] == 'sphere':
        return sum((a - b) ** 2 for a, b in zip(p, s['c'])) - s['r'] ** 2
    if s['kind'] == 'planex':
        return p[0] - s['x']
    return p[1] ** 2 + p[2] ** 2 - s['r'] ** 2


def find_cell(sc, p):
    for i, c in enumerate(sc.cells):
        if all((side_value(sc.surfaces[s], p) < 0) == neg for s, neg in c['sides']):
            return i
    return None


def point_in_material(rng, sc, scale=1.0, tries=4000):
    for _ in range(tries):
        p = tuple(rng.uniform(-3, 3) * scale for _ in range(3))
        i = find_cell(sc, p)
        if i is not None and sc.cells[i]['mat'] is not None and min(abs(side_value(s, p)) for s in sc.surfaces) > 1e-3 * scale:
            return p
    return None


def point_in_void(rng, sc, scale=1.0, tries=4000):
    for _ in range(tries):
        p = tuple(rng.uniform(-6, 6) * scale for _ in range(3))
        i = find_cell(sc, p)
        if i is not None and sc.cells[i]['mat'] is None:
            return p
    return None


def edge_point(rng, sc):
    """a point on two surfaces at once, if there is one"""
    S = sc.surfaces
    pairs = [(a, b) for a in S for b in S if a is not b and (a['kind'] == 'planex' or (a['kind'] == 'cylinderx' and b['kind'] == 'sphere'))]
    rng.shuffle(pairs)
    a = rng.uniform(0, 2 * math.pi)
    for s, t in pairs:
        if s['kind'] == 'planex':
            if t['kind'] == 'planex':
                continue
            if t['kind'] == 'cylinderx':
                return (s['x'], t['r'] * math.cos(a), t['r'] * math.sin(a))
            h = t['r'] ** 2 - (s['x'] - t['c'][0]) ** 2
            if h > 0:
                return (s['x'], t['c'][1] + math.sqrt(h) * math.cos(a), t['c'][2] + math.sqrt(h) * math.sin(a))
        else:
            y, z = s['r'] * math.cos(a), s['r'] * math.sin(a)
            h = t['r'] ** 2 - (y - t['c'][1]) ** 2 - (z - t['c'][2]) ** 2
            if h > 0:
                return (t['c'][0] + rng.choice([-1, 1]) * math.sqrt(h), y, z)
    return None


# ------------------------------------------------------------------ nuclear data
def multigroup(rng, sc, G=None, ptypes=('neutron',), nnuc=None, fission=0.4, zeros=0.15, sub=True):
    """Random nuclides; every nuclide has a positive total in every group, the
    fission multiplication stays below one per collision."""
    G = sc.groups = G or (rng.randint(1, 4) if rng.random() < 0.93 else rng.choice([7, 12, 20]))
    sc.particles = list(ptypes)
    rng.shuffle(sc.particles)
    sc.nuclides = []
    for i in range(rng.randint(6, 11) if getattr(rng, 'crowd', False) else nnuc or rng.randint(1, 4)):
        data = {}
        for pt in ptypes:
            d = {}
            z = lambda lo, hi: 0.0 if rng.random() < zeros else round(rng.uniform(lo, hi), rng.choice([2, 6]))
            kinds = ['capture'] + (['scatter'] if rng.random() < 0.85 else []) + (['fission'] if rng.random() < fission else [])
            if len(kinds) == 1 and rng.random() < 0.5:
                kinds.append('scatter')
            d['capture'] = [max(0.05, round(rng.uniform(0.05, 1), 3)) for _ in range(G)]
            if 'scatter' in kinds:
                m = [[z(0, 1.0) for _ in range(G)] for _ in range(G)]
                if rng.random() < 0.3:
                    j = rng.randrange(G)
                    for row in m:
                        row[j] = 0.0           # a group which does not scatter at all
                d['scatter'] = m
            if 'fission' in kinds:
                chi = [[z(0.1, 1) for _ in range(G)] for _ in range(G)]
                for j in range(G):
                    if sum(row[j] for row in chi) == 0:
                        chi[rng.randrange(G)][j] = 1.0
                xs = [z(0.05, 0.4) for _ in range(G)]
                nub = [round(rng.uniform(0.3, 2.8), rng.choice([0, 1, 3])) for _ in range(G)]
                if rng.random() < 0.25:
                    # many secondaries at once
                    nub = [round(rng.uniform(2, 12), rng.choice([0, 1, 3])) for _ in range(G)]
                if rng.random() < 0.3:
                    nub[rng.randrange(G)] = float(rng.choice([0, 1, 2]))
                if rng.random() < 0.3:
                    # a fission-dominated nuclide, with the multiplication kept low
                    xs = [2.0] * G
                    nub = [round(rng.uniform(0.1, 0.8), 2) for _ in range(G)]
                d['fission'] = dict(xs=xs, nubar=nub, chi=chi)
                if rng.random() < 0.4:
                    # fission alone ends walks
                    d['capture'] = [0.0 if x > 0.1 else c for c, x in zip(d['capture'], xs)]
                for g in range(G):    # keep the problem subcritical
                    d['capture'][g] = max(d['capture'][g], round(xs[g] * (nub[g] / 0.85 - 1) + 1e-3, 3))
            order = [k for k in ('capture', 'scatter', 'fission') if d.get(k) is not None]
            rng.shuffle(order)
            d['order'] = order
            data[pt] = d
        sc.nuclides.append(dict(name=nm(rng, 'n%d' % i), data=data))
    rng.shuffle(sc.nuclides)


def strengthen(data, f):
    """all cross sections of a nuclide multiplied"""
    if isinstance(data, list):
        return [strengthen(x, f) for x in data]
    return data * f


def trace(rng, sc):
    """one nuclide is present in traces only, with strong cross sections"""
    nn = len(sc.nuclides)
    t = rng.randrange(nn)
    n = sc.nuclides[t]
    f = 10 ** rng.choice([rng.uniform(1, 6), rng.uniform(5, 9)])
    if any(r.get('tsl') for d in n['data'].values() for r in d.get('reactions', [])):
        return
    for d in n['data'].values():
        if 'reactions' in d:
            for x in [r['xs'] for r in d['reactions']] + d['total']:
                x['y'] = strengthen(x['y'], f)
        else:
            for k in ('capture', 'scatter'):
                if d.get(k) is not None:
                    d[k] = strengthen(d[k], f)
            if d.get('fission'):
                d['fission']['xs'] = strengthen(d['fission']['xs'], f)
    for m in sc.materials:
        if all(j == t for j, _ in m['comps']):
            m['comps'] = m['comps'] + [((t + rng.randrange(1, nn)) % nn, round(rng.uniform(0.05, 3), 3))]
            rng.shuffle(m['comps'])
        m['comps'] = [(j, a / f if j == t else a) for j, a in m['comps']]


def materials(rng, sc, scale=1.0, n=None):
    n = n or (rng.randint(4, 9) if getattr(rng, 'crowd', False) else rng.randint(1, 3))
    sc.materials = []
    nn = len(sc.nuclides)
    for i in range(n):
        k = rng.randint(1, nn)
        comps = [(j, round(rng.uniform(0.05, 3), 3)) for j in rng.sample(range(nn), k)]
        sc.materials.append(dict(name=nm(rng, 'm%d' % i), aden=round(rng.uniform(0.2, 2.0), 3) / scale, comps=comps))
    if nn > 1 and rng.random() < 0.3:
        trace(rng, sc)
    for m in sc.materials:
        if rng.random() < 0.3:
            # fractions whose sum is (nearly) one
            t = (1 + rng.choice([0, 0, 1, -1]) * 10 ** rng.uniform(-4, -0.7)) / sum(a for _, a in m['comps'])
            m['comps'] = [(j, a * t) for j, a in m['comps']]
    for c in sc.cells:
        if c['mat'] is not None:
            c['mat'] = rng.randrange(n)


def bins(rng, kind, G=None):
    """kind: 'cosine', 'group' or 'energy'"""
    lo, hi = {'cosine': (-1, 1), 'group': (0.5, (G or 2) + 0.5), 'energy': (1e-9, 20.)}[kind]
    k = rng.choice(['linspace', 'logspace', 'boundaries', 'linspace', 'boundaries'])
    if k == 'linspace':
        a, b = sorted((rng.uniform(lo, hi), rng.uniform(lo, hi)))
        if rng.random() < 0.6:
            a, b = (lo, hi)
            if kind == 'cosine' and rng.random() < 0.85:
                a, b = a + rng.uniform(-.01, .005), b + rng.uniform(-.005, .01)
        if kind == 'group' and rng.random() < 0.15:
            a, b = 1, max(2, G or 2)
        if b - a < 1e-3:
            b = a + 0.5
        return ('linspace', a, b, rng.randint(1, 7))
    if k == 'logspace':
        base = rng.choice([None, 2.0, math.e, 10.0, 1.5])
        return ('logspace', rng.choice([-2, -1, -0.5, 0.1, 0, rng.uniform(-2, 0)]), rng.choice([0.25, 1, 1.5, rng.uniform(0.2, 1.5)]), rng.randint(1, 5), base)
    n = rng.randint(1, 6)
    pool = set(rng.uniform(lo, hi) for _ in range(n))
    if kind == 'group' and rng.random() < 0.7:
        pool |= {float(g) for g in range(1, (G or 2) + 1) if rng.random() < 0.6}
    if kind == 'cosine' and rng.random() < 0.5:
        pool |= {0.0}
    return ('boundaries', sorted(pool))


def direction(rng, unit=False):
    if rng.random() < 0.35:
        v = [0, 0, 0]
        v[rng.randrange(3)] = rng.choice([-1, 1])
    else:
        v = [rng.gauss(0, 1) for _ in range(3)]
        if rng.random() < 0.2:
            v = [1.0, rng.uniform(-.3, .3), rng.uniform(-.3, .3)]
    n = math.sqrt(sum(x * x for x in v))
    k = 1 / n if unit else rng.choice([1, 1 / n, 7.5, 0.01])
    return tuple(x * k for x in v)


def many(rng, b):
    """the same binning with very many bins"""
    if b[0] == 'linspace':
        return b[:3] + (rng.randint(20, 90),)
    if b[0] == 'logspace':
        return b[:3] + (rng.randint(15, 40), b[4])
    lo, hi = b[1][0], b[1][-1] + 0.1
    return ('boundaries', sorted(set(b[1]) | {rng.uniform(lo, hi) for _ in range(30)}))


def estimators(rng, sc, n=None, perts=True, sens=0.6):
    used = sc.used_surfaces()
    sc.estimators = []
    nucs = sorted({j for c in sc.cells if c['mat'] is not None for j, _ in sc.materials[c['mat']]['comps']})
    sc.perturbations = []
    if perts and (rng.random() < 0.7 or perts == 'all') and nucs:
        k = rng.randint(5, 9) if getattr(rng, 'crowd', False) else rng.randint(1, 4)
        pick = (rng.sample(nucs, len(nucs)) + [rng.choice(nucs) for _ in range(9)])[:k]
        for i in range(k):
            sc.perturbations.append(dict(name=nm(rng, 'p%d' % i), nuclide=pick[i]))
    if getattr(rng, 'crowd', False):
        n = rng.randint(9, 18)
    for i in range(n if n is not None else rng.randint(1, 5)):
        e = dict(name=nm(rng, 'e%d' % i), surf=rng.choice(used))
        if rng.random() < 0.6:
            u = direction(rng)
            e['cosine'] = dict(u=u[0], v=u[1], w=u[2], bins=bins(rng, 'cosine'))
        if rng.random() < 0.6:
            e['energy'] = bins(rng, 'group', sc.groups) if sc.continuous is None else bins(rng, 'energy')
        if rng.random() < 0.04:
            for x in (e, e.get('cosine')):
                for k in ('energy', 'bins'):
                    if x and x.get(k):
                        x[k] = many(rng, x[k])
        if sc.perturbations and rng.random() < sens:
            e['sens'] = rng.sample(range(len(sc.perturbations)), rng.randint(1, len(sc.perturbations)))
        sc.estimators.append(e)


def round_surfaces(sc):
    """parameters with which arithmetic is exact"""
    q = lambda v: round(v * 64) / 64
    for s in sc.surfaces:
        if 'x' in s:
            s['x'] = q(s['x'])
        if 'c' in s:
            s['c'] = tuple(q(v) for v in s['c'])
        if 'r' in s:
            s['r'] = max(q(s['r']), 1 / 64)


def surface_point(rng, sc, scale, void=False):
    """a point exactly on a surface, with material on both sides of it (or a
    void on one of them)"""
    for _ in range(50):
        s = rng.choice(sc.surfaces)
        k = rng.randrange(3) if s['kind'] == 'sphere' else rng.randrange(1, 3)
        sg = rng.choice([-1, 1])
        u, v = (round(rng.uniform(-3, 3) * 64 * scale) / 64 for _ in range(2))
        if s['kind'] == 'planex':
            k, p = 0, (s['x'], rng.choice([0, u]), rng.choice([0, v]))
        elif s['kind'] == 'cylinderx':
            p = [rng.choice([0, u]), 0, 0]
            p[k] = sg * s['r']
        else:
            p = list(s['c'])
            p[k] += sg * s['r']
        p = tuple(float(x) for x in p)
        if any(t is not s and abs(side_value(t, p)) < 1e-3 * scale for t in sc.surfaces):
            continue
        at = [find_cell(sc, tuple(x + (h if i == k else 0) for i, x in enumerate(p))) for h in (-1e-4 * scale, 1e-4 * scale)]
        if all(i is not None for i in at) and sum(sc.cells[i]['mat'] is None for i in at) == (1 if void else 0):
            return p
    return None


def aim_at_edge(rng, sc, scale, p=0.25):
    """sometimes all source particles fly at, or barely past, an edge"""
    if rng.random() < p:
        e = edge_point(rng, sc)
        if e:
            f = rng.choice([0, 10 ** rng.uniform(-15, -5), 10 ** rng.uniform(-8, -3)])
            v = [a - b + f * scale * rng.uniform(-1, 1) for a, b in zip(e, sc.source['pos'])]
            if sum(x * x for x in v) > 0:
                sc.source['dir'] = ('constant', *v)


def random_problem(rng, scale=1.0, style=None, tracking=None, photons=None, crowd=0.0, **kw):
    while True:
        sc = Scenario()
        # now and then many of everything
        rng.crowd = rng.random() < crowd
        rng.style = rng.choice(STYLES)
        geometry(rng, sc, style, scale)
        on = rng.random() < 0.2
        if on and scale >= 1 and sc.style != 'thin':
            round_surfaces(sc)
        pt = ('neutron', 'photon') if (photons if photons is not None else rng.random() < 0.2) else ('neutron',)
        multigroup(rng, sc, ptypes=pt, **kw)
        materials(rng, sc, scale)
        pos = (surface_point(rng, sc, scale) if on else None) or point_in_material(rng, sc, scale)
        if pos is None:
            continue
        kind = rng.choice(['isotropic', 'constant', 'isotropic-flux'])
        d = ('isotropic',) if kind == 'isotropic' else (kind, *direction(rng))
        sc.source = dict(pos=pos, dir=d, energy=rng.randint(1, sc.groups), type=rng.choice(pt))
        aim_at_edge(rng, sc, scale)
        sc.tracking = tracking if tracking is not None else rng.choice([None, 'surface', 'cell delta'])
        sc.seed = rng.choice([None, 1, rng.randint(2, 10 ** 6), rng.randint(2, 2 ** 31 - 1), 2 ** 31 - 1 - rng.randint(0, 20)])
        estimators(rng, sc)
        sc.scale = scale
        return sc
