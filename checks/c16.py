"""C16: unusable input is refused, usable input is simulated."""
from vlib import *
import copy, scen, cont, contlib, walklib
import xml.etree.ElementTree as ET
LEVEL = 'model_checking'
CFG = 'SPECIFICATION Spec\nCONSTANTS\n  Bases = "%s"\n  Sample = %d\n  Few = %d\nINVARIANTS UsableBases OrderIrrelevant Emit\n'
HEAD = 'xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance"'
LOCATION = 'xsi:noNamespaceSchemaLocation="minimc.xsd"'
TEXT = {'particles', 'histories', 'threads', 'chunksize', 'seed', 'tracking', 'capture', 'xs', 'nubar', 'chi', 'boundaries'}
# elements whose children may come in any order
ALL = {'minimc', 'general', 'fixedsource', 'initialsource', 'sphere', 'linear', 'tsl', 'current', 'bins', 'keigenvalue'}
REACTIONS = {'neutron', 'photon', 'nuclide', 'fission', 'scatter'}


# ------------------------------------------------------------------ documents
def tree(e):
    """an element as the specification sees it"""
    t = (e.text or '').strip()
    tx = ([t] if e.tag == 'tracking' else t.split()) if t else []
    return dict(tag=e.tag, at=[[k, v] for k, v in e.attrib.items() if not k.startswith('{')], ch=[tree(c) for c in e], tx=tx)


def esc(s, q=''):
    return s.replace('&', '&amp;').replace('<', '&lt;').replace('"', '&quot;').replace("'", '&apos;')


def plain(n, top=True):
    a = ''.join(' %s="%s"' % (k, esc(v)) for k, v in n['at'])
    if top:
        a += ' %s %s' % (HEAD, LOCATION)
    inner = ' '.join(map(esc, n['tx'])) + ''.join(plain(c, False) for c in n['ch'])
    return ('<?xml version="1.0" encoding="UTF-8"?>\n' if top else '') + '<%s%s>%s</%s>' % (n['tag'], a, inner, n['tag'])


NUMERIC = {'x', 'y', 'z', 'r', 'u', 'v', 'w', 'min', 'max', 'base', 'bins', 'aden', 'afrac', 'groups', 'awr', 'temperature', 'lower', 'upper', 'b', 'c', 'energy', 'beta_cutoff', 'alpha_cutoff'}


def other(rng, n, shuffle, top=True):
    """the same document written down in another way"""
    ws = lambda: rng.choice(['', ' ', '\n', '\t ', '  '])
    sp = lambda: rng.choice([' ', '\n', '\t', '  ', ' \n '])
    note = lambda: rng.choice(['', '', '', '<!-- note -->', '<!---->', '<!-- <a b="1"> 7 -->', '<?pi x?>'])

    def chars(s, q=None):
        out = ''
        for c in s:
            if rng.random() < 0.08:
                out += rng.choice(['&#%d;', '&#x%x;']) % ord(c)
            else:
                out += esc(c) if q is None else c.replace('&', '&amp;').replace('<', '&lt;').replace(q, '&quot;' if q == '"' else '&apos;')
        return out

    def pieces(s):
        """the same text in pieces"""
        r = rng.random()
        i = rng.randint(0, len(s))
        if r < 0.1:
            return chars(s[:i]) + '<!-- %s -->' % rng.choice(['', '5', 'x']) + chars(s[i:])
        if r < 0.2:
            return chars(s[:i]) + '<![CDATA[' + s[i:] + ']]>'
        if r < 0.25:
            return '<![CDATA[' + s[:i] + ']]>' + chars(s[i:])
        if r < 0.28:
            return chars(s[:i]) + '<?pi?>' + chars(s[i:])
        return chars(s)
    at = list(n['at'])
    rng.shuffle(at)
    ats = []
    for k, v in at:
        q = rng.choice('"\'')
        pad = ws().replace('\n', ' ') if k in NUMERIC and v and rng.random() < 0.3 else ''
        ats.append('%s%s=%s%s%s%s%s%s' % (k, ws(), ws(), q, pad, chars(v, q), pad, q))
    if top:
        ats.insert(rng.randint(0, len(ats)), HEAD)
        ats.insert(rng.randint(0, len(ats)), LOCATION)
    ch = list(n['ch'])
    if n['tag'] in shuffle:
        rng.shuffle(ch)
    a = ''.join(sp() + x for x in ats)
    if not ch and not n['tx']:
        # text elements without words, and elements which may not hold any
        return ('' if not top else '<?xml version="1.0"?>') + ('<%s%s%s/>' % (n['tag'], a, ws()) if rng.random() < 0.5 else '<%s%s%s></%s>' % (n['tag'], a, ws(), n['tag']))
    if n['tx']:
        inner = pieces(' '.join(n['tx'])) if n['tag'] == 'tracking' else ws() + note() + ws() + ''.join((sp() + note() + sp() if i else '') + pieces(w) for i, w in enumerate(n['tx'])) + ws() + note() + ws()
        inner += ''.join(other(rng, c, shuffle, False) for c in ch)
    else:
        inner = ws() + note() + ''.join(other(rng, c, shuffle, False) + ws() + note() + ws() for c in ch)
    head = rng.choice(['', '<?xml version="1.0"?>', '<?xml version="1.0" encoding="UTF-8"?>\n<!-- c -->', '<?xml version="1.0" encoding="UTF-8" standalone="yes"?>\n']) if top else ''
    return head + '<%s%s%s>%s</%s%s>' % (n['tag'], a, ws(), inner, n['tag'], ws())


# --------------------------------------------------------------------- inputs
def problem(ctx, rng, w, h5w):
    """a small usable input in directory w"""
    while True:
        c = rng.random() < 0.45
        kw = dict(nn=rng.randint(1, 2)) if c else dict(nnuc=rng.randint(1, 2), style=rng.choice(['signs', 'spheres', 'slabs', 'half']))
        if c:
            sc = contlib.cont_problem(rng, thermal=rng.choice([0, 0.6]), consistent=True, temps=(250, 600), walk=True, **kw)
            sc.source = dict(pos=sc.source['pos'], dir=rng.choice([('isotropic',), ('constant', *scen.direction(rng)), ('isotropic-flux', *scen.direction(rng))]), energy=cont.logu(rng, 1e-8, 1), type=rng.choice(sc.particles))
            sc.seed = rng.choice([None, 3])
            scen.estimators(rng, sc, rng.randint(1, 2))
        else:
            sc = scen.random_problem(rng, 1.0, **kw)
            scen.estimators(rng, sc, rng.randint(1, 2))
            if rng.random() < 0.5:
                sc.temperature = rng.choice([('constant', 300.0), ('linear', 100.0, 900.0, 400.0, (0.0, 0.0, 0.0))])
            if rng.random() < 0.3:
                sc.temperature = ('linear', 100.0, 900.0, 400.0, (1.0, 0.0, -2.5))
                sc.tracking = 'cell delta'
            for x in sc.cells:
                if x['mat'] is not None and rng.random() < 0.3:
                    x['temp'] = rng.choice([0.0, 300.0])
        if not contlib.usable(sc) or not walklib.usable(sc) or len(sc.cells) > 5:
            continue
        sc.histories, sc.threads, sc.chunksize = rng.randint(3, 20), 1, rng.choice([1, 5, 100])
        used = {j for c_ in sc.cells if c_['mat'] is not None for j, _ in sc.materials[c_['mat']]['comps']}
        if used != set(range(len(sc.nuclides))):
            continue
        break
    files, others = [], []
    walkable = True
    if c:
        f = cont.Files(w)
        for n in sc.continuous:
            n['xml'] = cont.nuclide_xml(n, f).replace(w + '/', '')
            walkable &= not any(r.get('tsl') for d in n['data'].values() for r in d['reactions'])
        for i, (axes, n) in enumerate([((2,), 3), ((3,), 2), ((2, 2), 4), ((0,), 0), ((2, 2, 2), 7), ((1, 2, 3), 6)]):
            f.script.append('%s/odd%d.hdf5 %d %s %d %s' % (w, i, len(axes), ' '.join('%d %s' % (a, ' '.join(str(k + 1) for k in range(a))) for a in axes), n, ' '.join('1' for _ in range(n))))
        f.write(h5w)
        for line in f.script:
            t = line.split()
            name, p, axes = t[0].replace(w + '/', ''), 2, []
            for k in range(int(t[1])):
                m = int(t[p])
                axes.append(t[p + 1:p + 1 + m])
                p += 1 + m
            files.append(dict(name=name, axes=[len(a) for a in axes], values=int(t[p]), first=[repr(float.fromhex(x) if '0x' in x else float(x)) for x in axes[0]]))
        open(w + '/text.hdf5', 'w').write('not data\n')
        open(w + '/empty.hdf5', 'w').close()
        os.makedirs(w + '/folder.hdf5', exist_ok=True)
        data = open(w + '/d0.hdf5', 'rb').read()
        open(w + '/cut.hdf5', 'wb').write(data[:len(data) // 2])
        others = ['text.hdf5', 'empty.hdf5', 'folder.hdf5', 'cut.hdf5']
    sc.write(w)
    return dict(root=tree(ET.parse(w + '/input.xml').getroot()), files=files, others=others, any=False, w=w, walkable=walkable)


def unescape(s):
    return json.loads('"' + s + '"')


def faulty(ctx, bases, sample, few, seed, name):
    """inputs with one more mistake each: (base, fault, verdict, root)"""
    path = ctx.write_trace(name, [{k: b[k] for k in ('root', 'files', 'others', 'any')} for b in bases])
    r = ctx.model_check('MCInput', CFG % (path, sample, few), workers=1, coverage=False, extra=('-seed', str(seed)), min_states=len(bases), timeout=800)
    return [json.loads(unescape(x)) for x in re.findall(r'^"DOC (.*)"$', r['out'], re.M)]


def solvable(d, b):
    """whether to simulate: the mistake made is in the results or generalities"""
    if d['verdict'][0] != 'accept' or not b['walkable']:
        return False
    f = d['fault']
    if not f:
        return True
    where = b['root']['ch'][f[1][0] - 1]['tag'] if f[1] else ''
    if where not in ('estimators', 'perturbations', 'general'):
        return False
    g = {c['tag']: c['tx'] for c in [c for c in d['root']['ch'] if c['tag'] == 'general'][0]['ch']}
    return float(g['histories'][0]) <= 1000 and float(g['threads'][0]) <= 16


def run(ctx):
    rng = ctx.rng
    exes = ctx.build(['input', 'h5w'], 1)
    main = ctx.build([], 0, main=True)['minimc']
    h5w = exes['h5w']
    nb = ctx.pick(16, 64)
    xsd = [os.path.join(REPO, 'test', x) for x in ('minimc.xsd', 'minimc_basictypes.xsd')]
    bases = []
    for i in range(nb):
        w = os.path.join(ctx.dir, 'in%d' % i)
        os.makedirs(w)
        for x in xsd:
            shutil.copy(x, w)
        bases.append(problem(ctx, random.Random(ctx.seed * 1009 + i), w, h5w))

    def one(k):
        mine = list(range(k, nb, NPROC))
        r = random.Random(ctx.seed * 7 + k)
        docs = [(mine[d['base'] - 1], d) for d in faulty(ctx, [bases[i] for i in mine], ctx.pick(1, 5), 0, ctx.seed * 100 + k, 'bases%d' % k)]
        recs = []
        # two mistakes at a time
        twice = []
        for i in mine:
            some = r.sample([d for j, d in docs if j == i and d['fault']], ctx.pick(2, 10))
            twice += [(i, d) for d in some]
        two = faulty(ctx, [dict(bases[i], root=d['root'], any=True) for i, d in twice], 1, ctx.pick(30, 60), ctx.seed * 100 + 50 + k, 'twice%d' % k)
        for d in two:
            if d['fault']:
                i, first = twice[d['base'] - 1]
                docs.append((i, dict(d, fault=['two', first['fault'][1], str(first['fault']), str(d['fault'])])))
        jobs = {i: [] for i in mine}
        for i, d in docs:
            b = bases[i]
            solve = d['fault'][:1] != ['two'] and solvable(d, b)
            jobs[i].append((dict(t='doc', verdict=d['verdict'], fault=d['fault']), other(r, d['root'], ALL | REACTIONS) if r.random() < 0.4 else plain(d['root']), solve))
        for i in mine:
            b = bases[i]
            fixed = [(dict(t='doc', verdict=['accept', 'usable'], fault=['base']), plain(b['root']), b['walkable'])]
            for _ in range(ctx.pick(6, 20)):
                fixed.append((dict(t='layout', verdict=['accept', 'usable'], fault=['layout']), other(r, b['root'], ALL), b['walkable']))
            fixed.append((dict(t='doc', verdict=['reject', 'no schema'], fault=['schema']), plain(b['root']).replace(LOCATION, ''), False))
            text = plain(b['root'])
            for cut in (r.randrange(len(text)), len(text) - 3):
                fixed.append((dict(t='doc', verdict=['reject', 'not a document'], fault=['cut', cut]), text[:cut], False))
            fixed.append((dict(t='doc', verdict=['reject', 'not a document'], fault=['nothing']), '', False))
            jobs[i] = fixed + jobs[i]
        out = []
        for i in mine:
            w = bases[i]['w']
            lines = []
            for n, (rec, text, solve) in enumerate(jobs[i]):
                open('%s/q%d.xml' % (w, n), 'w').write(text)
                lines.append('q%d.xml %d' % (n, solve))
            lines.append('nowhere.xml 0')
            jobs[i].append((dict(t='doc', verdict=['reject', 'no file'], fault=['file']), None, False))
            o = ctx.probe(exes['input'], [], stdin=('\n'.join(lines) + '\n').encode(), what='reading inputs', timeout=800, cwd=w).stdout.decode().splitlines()
            if len(o) != len(lines):
                raise CheckError('%d answers to %d inputs' % (len(o), len(lines)))
            for n, ((rec, text, solve), x) in enumerate(zip(jobs[i], o)):
                rec = dict(dict(histories=0, solved='no', digest=''), **json.loads(x), **rec)
                rec['fault'] = json.dumps(rec['fault'])[:150]
                out.append((rec, text))
            # the program itself
            pick = [n for n, (rec, text, solve) in enumerate(jobs[i]) if (rec['verdict'][0] == 'reject' or solve) and text is not None]
            for n in r.sample(pick, min(len(pick), ctx.pick(6, 30))) + [0] * bases[i]['walkable']:
                rec, text, solve = jobs[i][n]
                res = '%s/q%d.out' % (w, n)
                if os.path.exists(res):
                    os.remove(res)
                try:
                    p = subprocess.run(['prlimit', '--as=%d' % (4 << 30), '--core=0', main, 'q%d.xml' % n], cwd=w, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
                    rc = p.returncode
                except subprocess.TimeoutExpired:
                    rc = -99
                out.append((dict(t='program', verdict=rec['verdict'], fault=rec['fault'] if isinstance(rec['fault'], str) else json.dumps(rec['fault'])[:150], rc=rc, written=os.path.exists(res)), text))
        path = ctx.write_trace('inputs%d.ndjson' % k, [x[0] for x in out])
        return path, out
    with cf.ThreadPoolExecutor(NPROC) as ex:
        res = list(ex.map(one, range(min(NPROC, nb))))
    need = ['accept', 'either', 'layout', 'program: reject', 'program: accept', 'simulated'] + ['because: ' + x for x in BECAUSE]
    texts = {p: o for p, o in res}
    for tr, n, rule in ctx.validate('InputTrace', [p for p, _ in res], need=need):
        rec, text = texts[tr][n - 1]
        ctx.violation('%s: %s' % (rule, json.dumps(rec)), dict(record=rec, document=text))
    ctx.samples += [dict(verdict=r['verdict'], mistake=r['fault'], outcome=r.get('out')) for r, _ in res[0][1][10:400:60]]
    return dict(rule='outcome of creating (and simulating) %d inputs made from %d usable ones' % (sum(len(o) for _, o in res), nb))


BECAUSE = ['unknown attribute', 'missing attribute', 'attribute value', 'word', 'number of words', 'unexpected text', 'unknown element', 'missing element', 'exactly one element']
