"""C13: the report."""
from walklib import *
LEVEL = 'model_checking'


def run(ctx):
    # the program as users run it, without any observation point
    exe = ctx.build(['solve', 'h5w'], 1)['solve']
    main = ctx.build([], 0, main=True)['minimc']
    names_ = ['input.xml', 'a.b.xml', 'noextension', 'x.txt', 'sub.d/in.xml']

    def program(i, sc):
        d = os.path.join(ctx.dir, 'p%d' % i)
        name = names_[i % len(names_)]
        os.makedirs(os.path.join(d, os.path.dirname(name)), exist_ok=True)
        path = write(sc, os.path.join(d, os.path.dirname(name)), exe, os.path.basename(name))
        # by absolute path, or relative to the directory the program is run in
        arg, cwd = (path, ctx.dir) if i % 2 else (name, d)
        try:
            r = ctx.probe(main, [arg], what='the program', cwd=cwd, ok=range(-64, 256))
            rc = r.returncode
        except ProbeCrash:
            rc = 999
        out = os.path.splitext(path)[0] + '.out'
        rec = dict(t='output', rc=rc, ok=False, n='0', est=[])
        if os.path.exists(out):
            text = open(out).read()
            first, _, rest = text.partition('\n')
            p = parse_report(rest)
            if p['ok'] and first.isdigit():
                rec.update(ok=True, n=first, est=p['est'])
        shutil.rmtree(d, ignore_errors=True)
        return [rec]
    run_walks(ctx, 'C13', problems(ctx, ctx.pick(48, 800), 'tally') + cont_problems(ctx, ctx.pick(16, 200), 'tally'), exe=exe, need=['surface_cross', 'leak', 'report', 'output file'], after=program)
    return dict(rule='random problems with several results, the printed results of the program recomputed from the events of every history')
