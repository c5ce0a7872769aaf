import ast, functools, importlib, os, re, time
from common import *
import c27, heap
from clfstatic import check as K, equiv as Q, names, terms as T

SUITES = ['c01', 'c02', 'c03', 'c04', 'c05', 'c06', 'c07', 'c08', 'c09', 'c10', 'c11', 'c12', 'c13', 'c14', 'c15', 'c16', 'c17', 'c18', 'c19', 'c21', 'c22', 'c23', 'c24', 'c25', 'c26', 'c27', 'c28', 'c29', 'c30', 'c31', 'c32']
ARG = re.compile(r'argument|not callable|not enough|not all|unexpected keyword|positional')


class Monitor(object):
    """stands in for the Check of another module: its scenarios are run, its obligations are not judged"""

    def __init__(self, real, name):
        self.real, self.name, self.jobs = real, name, []
        self.limit = real.limit
        self.t0 = real.t0
        self.funcs = real.funcs
        self.violations, self.undecided, self.known_hit, self.notes, self.obligs = [], [], [], [], []
        self.proved = self.total = 0
        self.current = name

    def ok(self, *a, **k):
        return True

    equal = true = must_raise = ok

    def fail(self, *a, **k):
        return False

    unknown = fail

    def no_raise(self, name, res, *a, **k):
        return res.st is not None and res.v is not None

    def analysed(self, lab):
        self.real.analysed(lab)

    def scenario(self, name, fn):
        self.real.current = '%s: %s' % (self.name.upper(), name)
        return self.real.scenario(name, fn)

    def parallel(self, thunks, workers=8):
        self.jobs += list(thunks)

    def finish(self, *a, **k):
        return 0


class Same(object):
    def __init__(self, *a, **k):
        self.out = []

    def __getattr__(self, n):
        return lambda *a, **k: None


def run(tier):
    ck = Check('C20', tier, 'every name, attribute and call whose target is evident in the syntax trees, every use of a local against the assignments on all paths to it, and every exception of these kinds that any scenario of the other checks can raise')
    B = c27.Bench()
    lab = B.lab
    files = loader.lib_files()
    an = names.Analysis(lab)
    an.run(files)
    maybe = [f for f in an.found if not f.sure]
    sure = [f for f in an.found if f.sure]
    for f in sure:
        ck.fail('%s line %d' % (f.kind, f.line), f.construct(), f.text)
    for k, n in sorted(an.counts.items()):
        ck.ok('%s in the syntax trees' % k, n)
    for p in files:
        for qn, node in names_of(p):
            ck.funcs['%s:%s' % (loader.rel(p), qn)] = node.lineno

    # ---- what the scenarios of the other checks can raise
    stat = {'runs': 0}
    done = set()
    ck.current = ''

    def hook(r):
        stat['runs'] += 1
        bad = False
        for x in r.raises:
            nm = lab_exc(r, x)
            if nm not in ('NameError', 'UnboundLocalError', 'AttributeError', 'TypeError'):
                continue
            text = r.lab.raise_text([x])
            if nm == 'TypeError' and not ARG.search(text):
                continue
            where = x[2]
            if where[0] and not where[0].startswith(loader.PYROOT):
                continue
            key = (where[0], where[1], text)
            bad = True
            if key in done:
                continue
            w = Q.feasible(x[0].facts, None)
            if w is not None:
                done.add(key)
                ck.fail('%s | %s' % (ck.current, nm), '%s:%s' % (loader.rel(where[0]) if where[0] else '?', where[2]), '%s for %s' % (text, w))
            elif not x[0].facts.infeasible():
                ck.unknown('%s | %s' % (ck.current, nm), 'possible %s' % text)
        if not bad:
            ck.ok('%s | run %d' % (ck.current, stat['runs']))
    jobs = []
    for s in SUITES:
        try:
            mod = importlib.import_module(s)
        except ImportError:
            continue
        mon = Monitor(ck, s)
        mod.Check = lambda *a, mon=mon: mon
        try:
            mod.run('quick' if tier == 'quick' else tier)
        except AnchorMissing as e:
            ck.notes.append('the scenarios of %s are not run: %s' % (s.upper(), e))
            continue
        jobs += [(s, j) for j in mon.jobs]
    heap.Diff = Same
    heap.settle = lambda *a, **k: None
    K.RUN_HOOKS.append(hook)
    T0 = {}

    def timed(s, j):
        def go():
            t = time.time()
            try:
                j()
            finally:
                T0[s] = T0.get(s, 0) + time.time() - t
        return go
    jobs = [timed(s, j) for s, j in jobs]
    if os.environ.get('CLF_DEBUG'):
        jobs.append(lambda: None)
    ck.parallel(jobs)
    if os.environ.get('CLF_DEBUG'):
        print(sorted(T0.items(), key=lambda x: -x[1]))
    for f in maybe:
        if not any(w[0] and loader.rel(w[0]) == loader.rel(f.path) and w[1] == f.line for w in done):
            ck.notes.append('%s line %d: %s; no scenario reaches it unassigned' % (f.construct(), f.line, f.text))
    return ck.finish('all library and tool sources: names, imports, attributes of modules, classes and evident instances, arguments of evident calls, format strings, definite assignment of locals; and %d kinds of scenario run by the other checks, for name, attribute, unbound-variable and argument errors.' % len(SUITES),
                     ['OpenImageIO, PyOpenColorIO and multiprocessing behave as the stand-ins do'], floor=5000)


def names_of(p):
    from clfstatic import typestate
    return typestate.functions(loader.parse_file(p)[1])


def lab_exc(r, x):
    try:
        return r.lab.exc_name(x)
    except Exception:
        return '?'


if __name__ == '__main__':
    main(run)
