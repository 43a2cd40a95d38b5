"""Continuous-energy problems: random data sets, their files, the program's
input and the specification's model."""
import math, os
import scen
from vlib import hx, sh

K = 8.617333262145e-11


def ds(axes, values):
    return dict(axes=[list(map(float, a)) for a in axes], values=list(map(float, values)))


def ds_model(d):
    return dict(axes=[[hx(x) for x in a] for a in d['axes']], values=[hx(x) for x in d['values']])


def logu(rng, lo, hi):
    return math.exp(rng.uniform(math.log(lo), math.log(hi)))


def interp(xs, ys, x):
    if x <= xs[0]:
        return ys[0]
    if x >= xs[-1]:
        return ys[-1]
    i = max(j for j in range(len(xs)) if xs[j] <= x)
    return ys[i] + (ys[i + 1] - ys[i]) * (x - xs[i]) / (xs[i + 1] - xs[i])


def egrid(rng, n=None, lo=1e-11, hi=20.0):
    n = n or rng.choice([1, 2, 3, 5, 8, 12])
    return sorted({logu(rng, lo, hi) for _ in range(n)})


def curve(rng, lo=0.05, hi=5.0, grid=None, zeros=0.0):
    g = grid or egrid(rng)
    return dict(x=g, y=[0.0 if rng.random() < zeros else logu(rng, lo, hi) for _ in g])


def pod(rng, rows, cols, shape, s):
    """orders axis last"""


def tsl(rng, awr, Tmin, Tmax, nT=None, easy=False, walk=False):
    """compressed thermal scattering data; usable for temperatures from 0.55
    times the first to the last tabulated one, or for walks between Tmin and
    Tmax wherever they get to"""
    nT = nT or rng.choice([1, 2, 3, 4])
    Ts = sorted(rng.uniform(Tmin, Tmax) for _ in range(nT))
    if walk:
        Ts = [Tmin * 0.999 + (Tmax - Tmin * 0.998) * i / max(1, nT - 1) for i in range(nT)] if nT > 1 else [Tmax]
    elif max(Ts) / min(Ts) > 1.8:
        Ts = [Ts[0] * (1 + 0.8 * i / max(1, nT - 1)) for i in range(nT)]
    orders = lambda: rng.choice([1, 2, 3, 4, 6])
    # incident energies and transfers
    nE = rng.randint(2, 8)
    Emax = logu(rng, 2e-8, 3e-6)
    r = rng.choice([1.3, 2, 4, 10]) if not easy else 1.4
    Es = [Emax]
    for _ in range(nE - 1):
        Es.insert(0, Es[0] / (1 + (r - 1) * rng.uniform(0.5, 1)))
    betacut = rng.uniform(10, 40)

    def partition(points):
        if len(points) < 2 or rng.random() < 0.4:
            return [points]
        i = rng.randint(1, len(points) - 1)
        return [points[:i]] + partition(points[i:])

    def Fs():
        return sorted({round(rng.uniform(0.01, 0.99), 6) for _ in range(rng.randint(2, 7))} | ({round(rng.uniform(0.001, 0.03), 6)} if walk else set()))
    beta = []
    for pts in partition(Es):
        F = Fs()
        n = len(F)
        no = rng.randint(2, 4)
        g = sorted(rng.uniform(0, 1) for _ in F)
        h = sorted(rng.uniform(0.02, 1) for _ in F)
        S = [logu(rng, 0.1, 10) for _ in range(no)]
        cdf = []
        for f in range(n):
            row = [-(1 - g[f]), h[f]]
            row += [(f + 1) / n * rng.uniform(0.9, 1) if f == n - 1 else 0.0 for _ in range(no - 2)]
            cdf += row
        modes = []
        neg = rng.choice([0.02, 0.1, 0.5]) if not walk else 0.0
        for E in pts:
            for T in Ts:
                kT = K * T
                modes += [neg * rng.uniform(0.5, 1) * E / kT / S[0], rng.uniform(0.2, 0.6) * betacut / S[1] * rng.choice([0.1, 1])]
                modes += [0.1 * rng.uniform(0, 1) * betacut / S[2 + k] for k in range(no - 2)]
        o = list(range(no))
        beta.append(dict(cdf=ds([F, o], cdf), s=ds([o], S), modes=ds([pts, Ts, o], modes)))
    nb = rng.randint(1, 7)
    bmax = betacut * rng.choice([0.3, 0.8, 0.99])
    bs = [bmax]
    for _ in range(nb - 1):
        bs.insert(0, bs[0] / rng.uniform(1.2, 4))
    if rng.random() < 0.15:
        bs.append(betacut * rng.uniform(1.0, 1.2))
    alphacut = 0
    for T in (0.5 * Ts[0] if not walk else Tmin * 0.9, Ts[0], Ts[-1]):
        kT = K * T
        alphacut = max(alphacut, 1.05 * (math.sqrt(Es[-1]) + math.sqrt(Es[-1] + 1.3 * betacut * kT)) ** 2 / (awr * kT))
    alpha = []
    for pts in partition(bs):
        F = Fs()
        no = rng.randint(1, 3)
        hs = [sorted(rng.uniform(0.01, 1) ** 2 for _ in F) for _ in range(no)]
        S = [logu(rng, 0.1, 10) for _ in range(no)]
        cdf = [hs[o][f] for f in range(len(F)) for o in range(no)]
        scale = min(0.9 * alphacut, logu(rng, 0.1, 30))
        modes = [scale * rng.uniform(0.3, 1) / no / S[o] for b in pts for T in Ts for o in range(no)]
        o = list(range(no))
        alpha.append(dict(cdf=ds([F, o], cdf), s=ds([o], S), modes=ds([pts, Ts, o], modes)))
    # total
    no = orders()
    nC = rng.randint(2, 7)
    cut = Es[-1] * rng.choice([1.0, rng.uniform(0.6, 1)])
    Eg = sorted({cut} | {cut * math.exp(-rng.uniform(0.1, 5)) for _ in range(nC - 1)})
    Tt = Ts if rng.random() < 0.5 else sorted({T * rng.uniform(0.95, 1.0) for T in Ts} | {Ts[-1]})
    S = [logu(rng, 0.5, 5)] + [logu(rng, 0.01, 0.1) / (no - 1) for _ in range(no - 1)]
    tE = [rng.uniform(0.5, 1.5) if o == 0 else rng.uniform(-1, 1) for e in Eg for o in range(no)]
    tT = [rng.uniform(0.5, 1.5) if o == 0 else rng.uniform(-1, 1) for t in Tt for o in range(no)]
    grid = lambda i, j: sum(S[o] * tE[i * no + o] * tT[j * no + o] for o in range(no))
    maj = [max(grid(i, j) for j in range(len(Tt))) * rng.choice([1.0, 1.0, 1.3]) for i in range(len(Eg))]
    o = list(range(no))
    return dict(majorant=ds([Eg], maj), totE=ds([Eg, o], tE), totT=ds([Tt, o], tT), totS=ds([o], S), betaCut=betacut, alphaCut=alphacut, awr=awr,
                beta=beta, alpha=alpha, Es=Es, Ts=Ts, bs=bs)


def nuclide(rng, name, ptypes=('neutron',), thermal=0.3, consistent=False, temps=(100, 1200), T0=None, grid=None, awr=None, no_total=0.25, kinds=None, fission=0.4, walk=False):
    awr = awr or rng.choice([0.99917, 1.0, rng.uniform(1.5, 16), rng.uniform(16, 240)])
    data = {}
    for ty in ptypes:
        ks = kinds or (['capture', 'scatter', 'fission'] if rng.random() < fission else rng.choice([['capture', 'scatter'], ['scatter'], ['capture', 'scatter'], ['capture']]))
        ks = list(ks)
        rng.shuffle(ks)
        t0 = T0 or rng.choice([293.6, rng.uniform(*temps), rng.uniform(*temps)])
        rs = []
        for k in ks:
            r = dict(kind=k, xs=dict(curve(rng, grid=grid), T=t0 if rng.random() < 0.7 or consistent else rng.uniform(*temps)))
            if k == 'scatter':
                r['tsl'] = []
                if ty == 'neutron' and rng.random() < thermal:
                    Tm = rng.uniform(*temps)
                    r['tsl'] = [tsl(rng, awr, temps[0] * 0.98, max(temps[1], 293.6) * 1.02, walk=True) if walk else tsl(rng, awr, max(150, Tm * 0.7), max(200, Tm * 1.3))]
            if k == 'fission':
                r['nubar'] = curve(rng, *rng.choice([(0.3, 3), (0.3, 3), (2, 12)]))
            rs.append(r)
        total = []
        if rng.random() >= no_total:
            if consistent:
                g = sorted({x for r in rs for x in r['xs']['x']})
                total = [dict(x=g, y=[sum(interp(r['xs']['x'], r['xs']['y'], e) for r in rs) for e in g], T=t0)]
            else:
                total = [dict(curve(rng, 0.5, 20), T=t0 if rng.random() < 0.7 else rng.uniform(*temps))]
        data[ty] = dict(total=total, reactions=rs)
    return dict(name=name, awr=awr, data=data)


def subcritical(rng, n):
    """every reaction table gets a companion that ends walks; fissions produce
    less than is absorbed, at any energy"""
    for d in n['data'].values():
        rs = {r['kind']: r for r in d['reactions']}
        t0 = d['reactions'][0]['xs']['T']
        if 'capture' not in rs:
            rs['capture'] = dict(kind='capture', xs=dict(curve(rng, 0.1, 1), T=t0))
            d['reactions'].insert(rng.randint(0, len(d['reactions'])), rs['capture'])
        c = rs['capture']['xs']
        if 'fission' in rs:
            f = rs['fission']
            if rng.random() < 0.5:
                f['nubar']['y'] = [0.8 * y / 3 for y in f['nubar']['y']]
            k = max(f['nubar']['y']) / 0.8 - 1
            if k > 0:
                rs['capture']['xs'] = c = dict(x=f['xs']['x'], y=[y * k + 0.05 for y in f['xs']['y']], T=t0)
        if 'scatter' in rs:
            # not more than a few dozen collisions before one of another kind
            c['y'] = [max(y, 0.1) for y in c['y']]
        for t in d['total']:
            g = sorted({x for r in d['reactions'] for x in r['xs']['x']})
            t.update(x=g, y=[sum(interp(r['xs']['x'], r['xs']['y'], e) for r in d['reactions']) for e in g])


# ------------------------------------------------------------------ files
class Files:
    def __init__(self, directory):
        self.dir, self.n, self.script = directory, 0, []
        os.makedirs(directory, exist_ok=True)

    def put(self, d):
        name = os.path.join(self.dir, 'd%d.hdf5' % self.n)
        self.n += 1
        self.script.append('%s %d %s %d %s' % (name, len(d['axes']), ' '.join('%d %s' % (len(a), ' '.join(float(x).hex() for x in a)) for a in d['axes']), len(d['values']), ' '.join(float(x).hex() for x in d['values'])))
        return name

    def write(self, exe):
        sh_in(exe, '\n'.join(self.script) + '\n')


def sh_in(exe, text):
    import subprocess
    r = subprocess.run([exe], input=text.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if r.returncode:
        raise RuntimeError('h5w: ' + r.stderr.decode()[-500:])


def nuclide_xml(n, files):
    ev = lambda c, tag: '<%s file="%s" temperature="%s"/>' % (tag, files.put(ds([c['x']], c['y'])), scen.num(c.get('T', 293.6)))
    o = ['<nuclide name="%s" awr="%s">' % (n['name'], scen.num(n['awr']))]
    for ty, d in n['data'].items():
        parts = []
        for r in d['reactions']:
            if r['kind'] == 'capture':
                parts.append(ev(r['xs'], 'capture'))
            elif r['kind'] == 'fission':
                parts.append('<fission>%s%s</fission>' % (ev(r['xs'], 'xs'), ev(r['nubar'], 'nubar')))
            else:
                t = ''
                if r['tsl']:
                    s = r['tsl'][0]
                    t = '<tsl majorant="%s" total_E="%s" total_T="%s" total_S="%s" beta_cutoff="%s" alpha_cutoff="%s">' % (
                        *[files.put(s[k]) for k in ('majorant', 'totE', 'totT', 'totS')], scen.num(s['betaCut']), scen.num(s['alphaCut']))
                    for tag, key, att in (('beta_partitions', 'beta', 'E_T'), ('alpha_partitions', 'alpha', 'beta_T')):
                        t += '<%s>%s</%s>' % (tag, ''.join('<partition CDF="%s" S="%s" %s="%s"/>' % (files.put(p['cdf']), files.put(p['s']), att, files.put(p['modes'])) for p in s[key]), tag)
                    t += '</tsl>'
                x = ev(r['xs'], 'xs')
                parts.append('<scatter>%s</scatter>' % (x + t if n.get('flip') else t + x))
        for t in d['total']:
            parts.insert(len(parts) * n.get('place', 0) // 3, ev(t, 'total'))
        o.append('<%s>%s</%s>' % (ty, ''.join(parts), ty))
    o.append('</nuclide>')
    return ''.join(o)


def curve_model(c):
    m = dict(x=[hx(v) for v in c['x']], y=[hx(v) for v in c['y']])
    if 'T' in c:
        m['T'] = hx(c['T'])
    return m


def part_model(p):
    return {k: ds_model(p[k]) for k in ('cdf', 's', 'modes')}


def tsl_model(t):
    return dict({k: ds_model(t[k]) for k in ('majorant', 'totE', 'totT', 'totS')}, betaCut=hx(t['betaCut']), alphaCut=hx(t['alphaCut']), awr=hx(t['awr']),
                beta=[part_model(p) for p in t['beta']], alpha=[part_model(p) for p in t['alpha']])


def nuclide_model(n):
    def reaction(r):
        m = dict(kind=r['kind'], xs=curve_model(r['xs']))
        if r['kind'] == 'scatter':
            m['tsl'] = [tsl_model(t) for t in r['tsl']]
        if r['kind'] == 'fission':
            m['nubar'] = curve_model(r['nubar'])
        return m
    return dict(awr=hx(n['awr']), data={ty: dict(total=[curve_model(t) for t in d['total']], reactions=[reaction(r) for r in d['reactions']]) for ty, d in n['data'].items()})


def nuclear_model(sc):
    return dict(nuclides=[nuclide_model(n) for n in sc.continuous],
                materials=[dict(aden=hx(m['aden']), comps=[[i + 1, hx(a)] for i, a in m['comps']]) for m in sc.materials])


def field_model(t):
    """[kind, c] or [kind, lower, upper, b, g]"""
    if t is None:
        return dict(kind='none')
    if t[0] == 'constant':
        return dict(kind='constant', c=hx(t[1]))
    return dict(kind='linear', lower=hx(t[1]), upper=hx(t[2]), b=hx(t[3]), g=[hx(x) for x in t[4]])


def linear_field(rng, lo, hi, extent):
    """a field that stays within lo..hi at distances up to extent"""
    g = scen.direction(rng, True)
    if rng.random() < 0.3:
        # along an axis, or components which cancel
        g = rng.choice([(1, 0, 0), (0, -1, 0), (0, 0, 1), (0.7, -0.7, 0), (0, 0.7, -0.7), (-0.7, 0, 0.7), (0.4, 0.4, -0.8)])
    m = (hi - lo) / 2 / extent * rng.uniform(0.3, 1)
    g = tuple(m * x for x in g)
    return ('linear', lo, hi, (lo + hi) / 2, g)
