"""Common machinery of all checks: build probes from /repo's working tree, run
them, run TLC on specification + trace, report."""
import threading, concurrent.futures as cf
import glob, json, os, random, re, shutil, signal, subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
JARS = ['/opt/veriftools/tla/tla2tools.jar', '/opt/veriftools/tla/CommunityModules-deps.jar']
HDF5INC = '/usr/include/hdf5/serial'
HDF5LIB = '/usr/lib/x86_64-linux-gnu/hdf5/serial'
LIBS = ['-lpugixml', '-lxerces-c', '-lpthread', HDF5LIB + '/libhdf5_cpp.so', HDF5LIB + '/libhdf5.so']
NPROC = os.cpu_count() or 4


CLS = threading.Lock()


class CheckError(Exception):
    """The check itself could not give an answer."""


class ProbeCrash(Exception):
    """The code under test crashed, aborted or hung on valid input."""

    def __init__(self, what, detail):
        super().__init__(what)
        self.what, self.detail = what, detail


def sh(cmd, timeout=600, cwd=None, env=None, check=True):
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd=cwd, env=env)
    except subprocess.TimeoutExpired:
        raise CheckError('timeout: ' + ' '.join(map(str, cmd))[:300])
    if check and r.returncode:
        raise CheckError('%s\nexit %s\n%s\n%s' % (' '.join(map(str, cmd))[:400], r.returncode, r.stdout.decode(errors='replace')[-3000:], r.stderr.decode(errors='replace')[-3000:]))
    return r


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier != 'thorough'
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix='verif-%s-' % prop)
        self.rng = random.Random(seed * 1000003 + sum(map(ord, prop)))
        self.violations, self.known = [], []
        self.missing = []
        self.cov = {}
        self.samples = []
        self.assumptions = []
        self.states = self.transitions = 0
        self.lines = 0
        self.traces = 0
        self.classes = {}
        self.modules = {}
        self._objs = {}
        self._cls = None
        self.known_findings = load_known(prop)

    # ---- time
    def log(self, *a):
        print('[%6.1fs] ' % (time.time() - self.t0), *a, flush=True)

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    # ---- build
    def build(self, probes, variant=1, extra=(), main=False):
        """Compile the library (variant: value of MINIMC_VERIF, 0 = guard off)
        and the named probes; returns {probe: executable}."""
        out = os.path.join(self.dir, 'b%s%s' % (variant, ''.join(c for c in ''.join(extra) if c.isalnum())))
        os.makedirs(out, exist_ok=True)
        base = ['g++', '-isystem', HDF5INC, '-I', SRC, '-I', os.path.join(VERIF, 'harness'), '-O1', '-g1', '-std=gnu++17', '-w', *extra]
        if variant:
            base.append('-DMINIMC_VERIF=%d' % variant)
        srcs = sorted(glob.glob(SRC + '/*.cpp'))
        jobs, objs = [], []
        for s in srcs:
            if os.path.basename(s) == 'minimc.cpp':
                continue
            o = os.path.join(out, os.path.basename(s) + '.o')
            objs.append(o)
            if not os.path.exists(o):
                jobs.append(base + ['-c', s, '-o', o])
        pobjs = {}
        for p in probes:
            o = os.path.join(out, 'probe_' + p + '.o')
            pobjs[p] = o
            jobs.insert(0, base + ['-c', os.path.join(VERIF, 'harness', p + '.cpp'), '-o', o])
        if main:
            o = os.path.join(out, 'minimc_main.o')
            pobjs['minimc'] = o
            jobs.append(base + ['-c', SRC + '/minimc.cpp', '-o', o])
        with cf.ThreadPoolExecutor(NPROC) as ex:
            list(ex.map(lambda c: sh(c), jobs))
        def link(p):
            exe = os.path.join(out, 'run_' + p)
            sh(['g++', *extra, pobjs[p], *objs, '-o', exe, *LIBS])
            return exe
        with cf.ThreadPoolExecutor(NPROC) as ex:
            res = dict(zip(pobjs, ex.map(link, pobjs)))
        self.log('built', ', '.join(res), 'variant', variant)
        return res

    # ---- run the code under test
    def probe(self, exe, args, timeout=120, stdin=None, what='', cwd=None, ok=(0,), mem=6 << 30):
        """Run a probe; a crash or hang of the code under test on valid input
        raises ProbeCrash."""
        try:
            r = subprocess.run(['prlimit', '--as=%d' % mem, exe, *map(str, args)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, input=stdin, cwd=cwd or self.dir)
        except subprocess.TimeoutExpired:
            raise ProbeCrash('%s: no answer within %ds' % (what, timeout), dict(cmd=[exe, *map(str, args)]))
        if r.returncode not in ok:
            raise ProbeCrash('%s: exit %s: %s' % (what, r.returncode, r.stderr.decode(errors='replace')[-600:].strip()),
                             dict(cmd=[exe, *map(str, args)], stderr=r.stderr.decode(errors='replace')[-2000:]))
        return r

    # ---- TLC
    def classpath(self):
        with CLS:
            return self.classes_()

    def classes_(self):
        if self._cls is None:
            d = os.path.join(self.dir, 'cls')
            os.makedirs(d, exist_ok=True)
            sh(['javac', '-nowarn', '-cp', ':'.join(JARS), '-d', d, *glob.glob(VERIF + '/spec/java/*.java')])
            self._cls = ':'.join(JARS + [d])
        return self._cls

    def tlc(self, module, cfg, timeout=600, workers=1, heap='3g', extra=(), props=(), ok=(0,)):
        """Run TLC on spec/<module>.tla with the text of a configuration."""
        cp = self.classpath()
        wd = tempfile.mkdtemp(prefix='tlc-', dir=self.dir)
        c = os.path.join(wd, module + '.cfg')
        open(c, 'w').write(cfg)
        cmd = ['java', '-Xmx' + heap, '-Xss64m', '-Dtlc2.tool.queue.DiskStateQueue.BufSize=2000000', '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC', '-DTLA-Library=' + VERIF + '/spec', '-Djava.io.tmpdir=' + wd, *props, '-cp', cp, 'tlc2.TLC',
               '-workers', str(workers), '-metadir', os.path.join(wd, 'states'), '-noGenerateSpecTE', '-config', c, *extra, os.path.join(VERIF, 'spec', module + '.tla')]
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, cwd=wd)
        except subprocess.TimeoutExpired:
            raise CheckError('TLC timed out on ' + module)
        out = re.sub(r'Loading \w+ operator override.*\n', '', r.stdout.decode(errors='replace'))
        m = re.findall(r'(\d+) states generated.*?(\d+) distinct states found', out)
        gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        if r.returncode not in ok:
            i = out.find('Error:')
            said = '\n'.join(x for x in out[:max(0, i)].split('\n') if x.startswith('<<') and len(x) < 500)
            raise CheckError('TLC on %s: exit %d\n%s\n%s' % (module, r.returncode, said[-2000:], out[i:i + 3500] if i >= 0 else out[-3500:]))
        shutil.rmtree(wd, ignore_errors=True)
        return dict(out=out, generated=gen, distinct=dist, rc=r.returncode)

    def model_check(self, module, cfg, min_states=2, **kw):
        """Exhaustive check of a specification module (must succeed: it does
        not depend on the code under test)."""
        kw.setdefault('workers', 4)
        extra = tuple(kw.pop('extra', ())) + (('-deadlock', '-coverage', '1') if kw.pop('coverage', True) else ('-deadlock',))
        r = self.tlc(module, cfg, extra=extra, **kw)
        if r['distinct'] < min_states:
            raise CheckError('%s: only %d states' % (module, r['distinct']))
        dead = []
        for m in re.finditer(r'<(\w+) line \d+.*? of module (\w+)[^>]*>: (\d+):(\d+)', r['out']):
            if m.group(4) == '0' and m.group(1) not in ('Init',):
                dead.append(m.group(1))
        if dead:
            raise CheckError('%s: actions never taken: %s' % (module, dead))
        self.states += r['distinct']
        self.transitions += r['generated']
        self.modules[module] = self.modules.get(module, 0) + r['distinct']
        self.log('model', module, r['distinct'], 'distinct states')
        return r

    def validate(self, module, traces, consts=None, timeout=800, heap='3g', need=()):
        """Check trace files against a trace specification. Every such module
        prints <<"RESULT", number of records, rejected record numbers, class
        counts>> once the whole trace is consumed. Returns the list of
        (trace, record number, rule) rejected."""
        def one(tr):
            cfg = 'SPECIFICATION TraceSpec\nPOSTCONDITION TraceConsumed\nCHECK_DEADLOCK FALSE\nCONSTANTS\n  TraceFile = "%s"\n' % tr
            for k, v in (consts or {}).items():
                cfg += '  %s %s\n' % (k, v)
            r = self.tlc(module, cfg, timeout=timeout, heap=heap)
            m = re.search(r'<<\s*"RESULT",\s*(\d+),(.*?)(?:\n[A-Z]|\Z)', r['out'], re.S)
            if not m:
                raise CheckError('%s: no result\n%s' % (module, r['out'][-3000:]))
            n = int(m.group(1))
            bad = [(int(x), y) for x, y in re.findall(r'<<\s*(\d+),\s*"([^"]*)"\s*>>', m.group(2))]
            cls = [(a, int(b)) for a, b in re.findall(r'<<\s*"([^"]*)",\s*(\d+)\s*>>', m.group(2))]
            with open(tr) as f:
                nl = sum(1 for x in f if x.strip())
            if n != nl:
                raise CheckError('%s consumed %d of %d records' % (module, n, nl))
            return bad, cls, n, r
        rejected = []
        with cf.ThreadPoolExecutor(NPROC) as ex:
            for tr, (bad, cls, n, r) in zip(traces, ex.map(one, traces)):
                rejected += [(tr, b, rule) for b, rule in bad]
                self.lines += n
                self.traces += 1
                self.states += r['distinct']
                self.transitions += r['generated']
                for a, b in cls:
                    self.classes[a] = self.classes.get(a, 0) + b
        # a class that should occur may be missing because of a defect that a
        # later part of the check finds: judged at the end
        self.missing += ['%s: class "%s" never occurred (vacuous)' % (module, c) for c in need if not self.classes.get(c)]
        self.log('validated', len(traces), 'traces with', module, ':', len(rejected), 'rejected; classes', self.classes)
        return rejected

    def write_trace(self, name, recs):
        p = os.path.join(self.dir, name)
        with open(p, 'w') as f:
            for r in recs:
                f.write(json.dumps(r) + '\n')
        return p

    # ---- verdicts
    def violation(self, what, replay=None, kind=None):
        for k in self.known_findings:
            if kind is not None and k.get('kind') == kind:
                if kind not in self.known:
                    self.known.append(kind)
                    print('KNOWN-FINDING: property=%s %s' % (self.prop, k['what']), flush=True)
                return False
        self.violations.append(dict(what=what, replay=replay))
        return True

    def finish(self, level, extra=None, rule='', distinct=None):
        d = os.path.join(VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        cov = dict(samples=self.samples[:8] or ['(none)'])
        if level == 'model_checking':
            cov.update(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces)
            cov['records_validated'] = self.lines
        else:
            cov.update(evaluations=self.lines, distinct_nontrivial=distinct if distinct is not None else self.lines, rule=rule)
        if rule:
            cov['rule'] = rule
        cov['classes'] = self.classes
        cov['models'] = self.modules
        cov.update(extra or {})
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level, coverage=cov, assumptions=self.assumptions,
                  wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        with open(os.path.join(d, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        rc = 0
        if self.violations:
            od = os.path.join(VERIF, 'out')
            os.makedirs(od, exist_ok=True)
            path = os.path.join(od, '%s-%s-%d.json' % (self.prop, self.tier, self.seed))
            with open(path, 'w') as f:
                json.dump(dict(property=self.prop, seed=self.seed, tier=self.tier, violations=self.violations[:20]), f, indent=1, default=str)
            for v in self.violations[:5]:
                print('  ' + str(v['what'])[:600])
            print('VIOLATION property=%s replay=%s' % (self.prop, path), flush=True)
            rc = 1
        else:
            self.log('property', self.prop, 'held: states', self.states, 'records', self.lines)
        return rc

    def cleanup(self):
        if not os.environ.get('VERIF_KEEP'):
            shutil.rmtree(self.dir, ignore_errors=True)
        else:
            print('kept', self.dir)


def load_known(prop):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))['findings'] if k['property'] == prop and k.get('status') == 'known']


def read_ndjson(path):
    with open(path) as f:
        return [json.loads(x) for x in f if x.strip()]


def hx(v):
    """double -> exact string understood by LoadTrace"""
    v = float(v)
    if v != v:
        return 'nan'
    if v in (float('inf'), float('-inf')):
        return 'inf' if v > 0 else '-inf'
    return v.hex()


def unhx(s):
    if isinstance(s, str):
        return float(s) if s in ('nan', 'inf', '-inf') else float.fromhex(s)
    return float(s)


def run_check(prop, fn, level, tier=None):
    tier = tier or os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    ctx = Ctx(prop, tier, seed)
    try:
        try:
            rule = fn(ctx)
        except ProbeCrash as e:
            ctx.violation('the program under test failed on valid input: ' + e.what, e.detail)
            rule = None
        except CheckError as e:
            if not ctx.violations:
                raise
            print('CHECK ERROR after a violation:', e)
            rule = None
        except Exception:
            if not ctx.violations:
                raise
            traceback.print_exc()
            rule = None
        if ctx.missing and not ctx.violations:
            raise CheckError('; '.join(ctx.missing))
        return ctx.finish(level, **(rule or {}))
    except CheckError as e:
        print('CHECK ERROR', e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        ctx.cleanup()
