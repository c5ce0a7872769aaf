import functools, itertools, math
from common import *
import files, heap
from clfstatic import terms as T

HERE = os.path.dirname(os.path.abspath(__file__))
FMIN = Const(1.1754943508222875e-38)
LN2 = Const(math.log(2.0))
COEF = [[sym('m_%d_%d' % (c, k), 'float') for k in range(4)] for c in range(3)]
LO, HI = sym('lo', 'float'), sym('hi', 'float')
OLO, OHI = sym('olo', 'float'), sym('ohi', 'float')
FACTS = [compare('lt', LO, HI), compare('lt', OLO, OHI)]
RNG = {'lo': (-1.5, -.2), 'hi': (.4, 3.0), 'olo': (-1.5, -.2), 'ohi': (.4, 3.0), 'm': (-1.2, 1.2), 'v': (-3.0, 4.0)}
for c in range(3):
    for k in range(4):
        RNG['m_%d_%d' % (c, k)] = (-1.2, 1.2)


NUMS = [[Const(x) for x in r] for r in ((.25, .125, -.125, .03125), (-.25, .25, .125, -.015625), (.125, -.25, .25, .015625))]


def f(v, c, coef=COEF):
    m = coef[c]
    return m[0] * v[0] + m[1] * v[1] + m[2] * v[2] + m[3] * v[0] * v[1] * v[2]


def clampto(v, a, b):
    return tmax(tmin(v, b), a)


def fwd(kind, v, lo, hi):
    if kind is None or kind == 'none':
        return v
    if kind == 'log2':
        v = ln_(tmax(v, FMIN)) / LN2
    return clampto((v - lo) / (hi - lo), Const(0.0), Const(1.0))


def inv(kind, t, lo, hi):
    if kind is None or kind == 'none':
        return t
    v = clampto(lo + t * (hi - lo), lo, hi)
    return exp_(v * LN2) if kind == 'log2' else v


def rng(kind, lo, hi):
    if kind is None or kind == 'none':
        return Const(0.0), Const(1.0)
    if kind == 'log2':
        return exp_(lo * LN2), exp_(hi * LN2)
    return lo, hi


def step(i, n):
    return Const(float(i) / (n - 1))


def run(tier):
    ck = Check('C23', tier, 'every stored sample, as a term in the coefficients of a channel-mixing transform and the symbolic range, equals the transform at its grid point; every argument a format gets equals the sampled one')
    lab = Lab()
    lut = lab.load(loader.ACES + '/lutFormats/__init__.py', 'lutFormats')
    mix = lab.load(os.path.join(HERE, 'stubs', 'mixer.py'), 'mixerstub')
    rec = lab.load(os.path.join(HERE, 'stubs', 'recfmt.py'), 'recfmtstub')
    sam = [m for p, m in lab.basemods.items() if p.endswith('Sampling.py')][0]
    I = lab.I
    deep = tier != 'quick'
    jobs = []

    def samp(m, *a, **k):
        return I.call(I.getattr(sam, m), [wrap(x) for x in a], {n: wrap(v) for n, v in k.items()})

    def call(c, m, *a, **k):
        return I.call(I.getattr(c, m), [wrap(x) for x in a], {n: wrap(v) for n, v in k.items()})

    def plist(coef=COEF):
        pl = lab.new('ProcessList')
        node = I.call(I.getattr(mix, 'Mixer'), [lab.list([lab.list(c) for c in coef])], {})
        lab.call(pl, 'addProcess', node)
        return pl

    def shaper(kind, lo, hi):
        return lab.list([NONE if kind is None else kind, lo, hi])

    def sample(r, v, *idx):
        return r.item(v, *idx)

    def ready(nm, r, con):
        ck.analysed(lab)
        if not ck.no_raise(nm + ' | no exception', r, RNG) or r.v is None:
            return False
        if r.unmod:
            ck.unknown(nm, 'unmodelled: %s' % (r.unmod[:2],))
            return False
        return True

    def check_1d(nm, con, r, v, n, spec):
        ln = r.length(v) if isinstance(v, Ref) else None
        if ln is None:
            return ck.fail(nm + ' | samples', con, 'the samples are %s' % short(v, 40))
        ck.equal(nm + ' | sample count', con, ln, Const(3 * n), r.facts)
        if not isinstance(ln, Const) or ln.v != 3 * n:
            return
        for i in range(n):
            for c in range(3):
                ck.equal('%s | entry %d channel %d' % (nm, i, c), con, r.item(v, 3 * i + c), spec(i, c), r.facts, RNG)

    def check_3d(nm, con, r, v, z, spec):
        n0 = r.length(v) if isinstance(v, Ref) else None
        if n0 is None:
            return ck.fail(nm + ' | samples', con, 'the samples are %s' % short(v, 40))
        ck.equal(nm + ' | red size', con, n0, Const(z[0]), r.facts)
        n1 = r.length(r.item(v, 0))
        n2 = r.length(r.item(v, 0, 0))
        ck.equal(nm + ' | green size', con, n1, Const(z[1]), r.facts)
        ck.equal(nm + ' | blue size', con, n2, Const(z[2]), r.facts)
        if (n0, n1, n2) != tuple(Const(k) for k in z):
            return
        for p in itertools.product(*[range(k) for k in z]):
            for c in range(3):
                ck.equal('%s | grid point %s channel %d' % (nm, p, c), con, r.item(v, p[0], p[1], p[2], c), spec(p, c), r.facts, RNG)

    def at(i, n):
        return LO + step(i, n) * (HI - LO)

    # ---- 1D
    for n in ((2, 3, 5, 9) if not deep else (2, 3, 4, 5, 6, 9, 17, 33)):
        def go(n=n):
            nm = '1D of %d entries' % n
            r = lab.run(lambda: samp('sample1D', plist(), n, LO, HI), FACTS)
            if ready(nm, r, 'sample1D'):
                check_1d(nm, 'sample1D', r, r.v, n, lambda i, c: f([at(i, n)] * 3, c))
        jobs.append(functools.partial(ck.scenario, '1D %d' % n, go))
    # ---- 3D
    Z = [(2, 2, 2), (3, 3, 3), (2, 3, 4), (4, 2, 3)] + ([(3, 4, 2), (5, 5, 5), (6, 2, 3)] if deep else [])
    for z in Z:
        def go(z=z):
            nm = '3D of %s' % (z,)
            r = lab.run(lambda: samp('sample3D', plist(), lab.list(list(z)), LO, HI), FACTS)
            if ready(nm, r, 'sample3D'):
                check_3d(nm, 'sample3D', r, r.v, z, lambda p, c: f([at(p[k], z[k]) for k in range(3)], c))
        jobs.append(functools.partial(ck.scenario, '3D %s' % (z,), go))

    # ---- shapers
    KINDS = ('linear', 'log2', None)
    TS = (0.0, 0.125, 0.25, 0.5, 0.75, 1.0)
    for kind in KINDS:
        def go(kind=kind):
            nm = 'shaper %s' % kind
            v = sym('v', 'float')

            def th():
                t = samp('createShaper', NONE if kind is None else kind, LO, HI)
                a, b = I.getitem(t, Const(0)), I.getitem(t, Const(1))
                buf = lambda x: lab.list([x] * 3)
                x = lab.call(a, 'process', buf(v))
                y = lab.call(b, 'process', buf(v))
                lo, hi = rng(kind, LO, HI)
                z = lab.list([lab.call(b, 'process', lab.call(a, 'process', buf(lo + Const(t) * (hi - lo)))) for t in TS]) if kind != 'log2' else NONE
                w = lab.list([lab.call(a, 'process', lab.call(b, 'process', buf(Const(t)))) for t in TS])
                return lab.list([x, y, z, w, I.getitem(t, Const(2)), I.getitem(t, Const(3))])
            r = lab.run(th, FACTS)
            if not ready(nm, r, 'createShaper'):
                return
            lo, hi = rng(kind, LO, HI)
            ck.equal(nm + ' | range from', 'createShaper', r.item(r.v, 4), lo, r.facts, RNG)
            ck.equal(nm + ' | range to', 'createShaper', r.item(r.v, 5), hi, r.facts, RNG)
            for c in range(3):
                ck.equal('%s | forward channel %d' % (nm, c), 'createShaper', r.item(r.v, 0, c), fwd(kind, v, LO, HI), r.facts, RNG)
                ck.equal('%s | inverse channel %d' % (nm, c), 'createShaper', r.item(r.v, 1, c), inv(kind, v, LO, HI), r.facts, RNG)
                for k, t in enumerate(TS if kind != 'log2' else ()):
                    ck.equal('%s | inverse of forward at %s, channel %d' % (nm, t, c), 'createShaper', r.item(r.v, 2, k, c), lo + Const(t) * (hi - lo), r.facts, RNG)
                for k, t in enumerate(TS if kind != 'log2' else ()):
                    ck.equal('%s | forward of inverse at %s, channel %d' % (nm, t, c), 'createShaper', r.item(r.v, 3, k, c), Const(t), r.facts, RNG)
        jobs.append(functools.partial(ck.scenario, 'shaper %s' % kind, go))

    # ---- 1D/3D/1D
    def check_full(nm, con, r, ki, ko, ni, z, no, s1, lo, hi, s3, s1o, olo, ohi):
        a, b = rng(ki, LO, HI)
        if lo is not None:
            ck.equal(nm + ' | input range from', con, lo, a, r.facts, RNG)
            ck.equal(nm + ' | input range to', con, hi, b, r.facts, RNG)
            oa, ob = rng(ko, OLO, OHI)
            ck.equal(nm + ' | output range from', con, olo, oa, r.facts, RNG)
            ck.equal(nm + ' | output range to', con, ohi, ob, r.facts, RNG)
        if ki is None:
            ck.true(nm + ' | no input shaper', con, s1 is NONE, msg='an input shaper is stored')
        else:
            check_1d(nm + ' input shaper', con, r, s1, ni, lambda i, c: fwd(ki, a + step(i, ni) * (b - a), LO, HI))
        if ko is None:
            ck.true(nm + ' | no output shaper', con, s1o is NONE, msg='an output shaper is stored')
        else:
            check_1d(nm + ' output shaper', con, r, s1o, no, lambda i, c: inv(ko, step(i, no), OLO, OHI))
        check_3d(nm + ' cube', con, r, s3, z, lambda p, c: fwd(ko, f([inv(ki, step(p[k], z[k]), LO, HI) for k in range(3)], c), OLO, OHI))

    SIZES = [(3, (2, 2, 2), 2), (2, (2, 3, 2), 4)] + ([(5, (3, 3, 3), 3), (4, (3, 2, 4), 5)] if deep else [])
    for ki, ko in itertools.product(KINDS, KINDS):
        for ni, z, no in SIZES:
            def go(ki=ki, ko=ko, ni=ni, z=z, no=no):
                nm = '1D/3D/1D %s %s %s, shapers %s and %s' % (ni, z, no, ki, ko)
                r = lab.run(lambda: samp('sample1D3D1D', plist(), lab.list([ni, lab.list(list(z)), no]), shaper(ki, LO, HI), shaper(ko, OLO, OHI)), FACTS)
                if ready(nm, r, 'sample1D3D1D'):
                    q = [r.item(r.v, k) for k in range(7)]
                    check_full(nm, 'sample1D3D1D', r, ki, ko, ni, z, no, *q)
            jobs.append(functools.partial(ck.scenario, '1D/3D/1D %s %s %s' % (ki, ko, z), go))

    # ---- what a format is given
    def given(nm, style, check, how, **opts):
        def go():
            def th():
                pl = plist()
                kw = {k: (v() if callable(v) else v) for k, v in opts.items()}
                c = I.getattr(rec, 'LutFormatKeep')
                if how == 'format':
                    call(c, 'write', pl, '/scratch/a.keep', style, **kw)
                elif how == 'positional':
                    o = [kw.get('lutResolution1d', 4), kw.get('lutResolution3d', 2), kw.get('lutResolution1d3d1d', lab.list([2, 2, 2])), kw.get('inputMin', 0.0), kw.get('inputMax', 1.0)]
                    o += [kw.get('shaperIn', shaper('linear', 0.0, 1.0)), kw.get('shaperOut', shaper('linear', 0.0, 1.0))]
                    call(I.getattr(lut, 'Registry'), 'write', pl, '/scratch/a.keep', {'write1D': '1D', 'write3D': '3D'}.get(style, '1D_3D_1D'), *o)
                else:
                    call(I.getattr(lut, 'Registry'), 'write', pl, '/scratch/a.keep', {'write1D': '1D', 'write3D': '3D'}.get(style, '1D_3D_1D'), **kw)
                return NONE
            r = lab.run(th, FACTS)
            if not ready(nm, r, 'LutFormat.write'):
                return
            got = r.attr(rec, 'GOT')
            if r.length(got) is not Const(1):
                return ck.fail(nm + ' | written once', 'LutFormat.write', 'the format is asked %s times' % short(r.length(got), 20))
            g = r.item(got, 0)
            q = [r.item(g, k) for k in range(r.length(g).v)]
            ck.true(nm + ' | form', 'LutFormat.write', q[0] is Const(style), msg='written as %s' % short(q[0], 20))
            ck.true(nm + ' | path', 'LutFormat.write', q[1] is Const('/scratch/a.keep'), msg='another path')
            if q[0] is Const(style):
                check(r, q[2:])
        return functools.partial(ck.scenario, nm, go)

    def g1(nm, n):
        def chk(r, q):
            check_1d(nm, 'LutFormat.write', r, q[0], n, lambda i, c: f([at(i, n)] * 3, c))
            for k, e in ((1, Const(n)), (2, LO), (3, HI)):
                ck.equal('%s | argument %d' % (nm, k), 'LutFormat.write', q[k], e, r.facts, RNG)
        return chk

    def g3(nm, n):
        def chk(r, q):
            check_3d(nm, 'LutFormat.write', r, q[0], (n, n, n), lambda p, c: f([at(p[k], n) for k in range(3)], c))
            for k in range(3):
                ck.equal('%s | size %d' % (nm, k), 'LutFormat.write', r.item(q[1], k), Const(n), r.facts)
            ck.equal(nm + ' | from', 'LutFormat.write', q[2], LO, r.facts, RNG)
            ck.equal(nm + ' | to', 'LutFormat.write', q[3], HI, r.facts, RNG)
        return chk

    def gf(nm, ki, ko, ni, n, no):
        def chk(r, q):
            check_full(nm, 'LutFormat.write', r, ki, ko, ni, (n, n, n), no, q[0], q[2], q[3], q[4], q[6], q[8], q[9])
            ck.equal(nm + ' | input shaper size', 'LutFormat.write', q[1], Const(ni), r.facts)
            ck.equal(nm + ' | output shaper size', 'LutFormat.write', q[7], Const(no), r.facts)
            for k in range(3):
                ck.equal('%s | size %d' % (nm, k), 'LutFormat.write', r.item(q[5], k), Const(n), r.facts)
        return chk
    for how in ('format', 'registry', 'positional'):
        for n in (2, 4):
            nm = '%s baked 1D of %d' % (how, n)
            jobs.append(given(nm, 'write1D', g1(nm, n), how, lutResolution1d=n, inputMin=LO, inputMax=HI))
            nm = '%s baked 3D of %d' % (how, n)
            if n < 4 or deep:
                jobs.append(given(nm, 'write3D', g3(nm, n), how, lutResolution3d=n, inputMin=LO, inputMax=HI))
        for ki, ko in itertools.product(KINDS, KINDS):
            if how == 'positional' and not deep and (ki, ko) not in (('linear', 'log2'), (None, 'linear')):
                continue
            nm = '%s baked 1D/3D/1D, shapers %s and %s' % (how, ki, ko)
            jobs.append(given(nm, 'write1D3D1D', gf(nm, ki, ko, 3, 2, 4), how, lutResolution1d3d1d=lambda: lab.list([3, 2, 4]), shaperIn=lambda ki=ki: shaper(ki, LO, HI), shaperOut=lambda ko=ko: shaper(ko, OLO, OHI)))

    # ---- a format without an output shaper holds the unshaped output
    def csp(ki, ko):
        nm = 'csp 1D/3D with shapers %s and %s' % (ki, ko)

        def go():
            def th(o):
                pl = plist()
                call(I.getattr(lut, 'Registry'), 'write', pl, '/scratch/a.csp', '1D_3D_1D', lutResolution1d3d1d=lab.list([2, 2, 2]), shaperIn=shaper(ki, LO, HI), shaperOut=shaper(o, OLO, OHI))
                return files.content(lab, '/scratch/a.csp')
            r = lab.run(lambda: th(ko), FACTS)
            if not ready(nm, r, 'LutFormatCSP.write'):
                return
            t = files.text_of(lab, r.v)
            R = [l.split() for l in t.s.split('\n') if l.strip()][-8:]
            if any(len(x) != 3 for x in R):
                return ck.fail(nm + ' | rows', 'LutFormatCSP.write', 'a row has not three numbers')
            for k, p in enumerate(itertools.product((0, 1), repeat=3)):
                for c in range(3):
                    v = r.do(lambda: files.num(lab, t.number(R[k][c])))
                    ck.equal('%s | grid point %s channel %d' % (nm, p[::-1], c), 'LutFormatCSP.write', v, f([inv(ki, Const(float(x)), LO, HI) for x in p[::-1]], c), r.facts, RNG)
        return functools.partial(ck.scenario, nm, go)
    for ki, ko in itertools.product(KINDS, KINDS):
        jobs.append(csp(ki, ko))

    # ---- the stored transform composes to the original at the grid points
    def e2e(ext, ki, ko, bounds, obounds, ni, n, no):
        nm = '%s with shapers %s and %s read back' % (ext, ki, ko)

        # with an output shaper the lookups are settled by numbers
        coef = COEF if ko is None else NUMS

        def go():
            path = '/scratch/e.' + ext
            pts = [(0, 0, 0), (n - 1, n - 1, n - 1), (0, n - 1, 0), (n - 1, 0, 0), (0, 0, n - 1), (1, 0, n - 1)]

            def val(i):
                t = float(i) / (n - 1)
                if ki is None:
                    return t
                v = bounds[0] + t * (bounds[1] - bounds[0])
                return 2.0 ** v if ki == 'log2' else v

            def th():
                pl = plist(coef)
                call(I.getattr(lut, 'Registry'), 'write', pl, path, '1D_3D_1D', lutResolution1d3d1d=lab.list([ni, n, no]), shaperIn=shaper(ki, *bounds), shaperOut=shaper(ko, *obounds))
                return lab.new('ProcessList', path) if ext == 'clf' else call(I.getattr(lut, 'Registry'), 'read', path)
            ra = lab.run(th, [])
            if not ready(nm, ra, 'Registry.write'):
                return
            for p in pts:
                exp = [f([Const(val(i)) for i in p], c, coef) for c in range(3)]
                r = lab.run(lambda: lab.call(ra.v, 'process', lab.list([val(i) for i in p])), start=ra)
                if not ready('%s, grid point %s' % (nm, p), r, 'Registry.write'):
                    continue
                for c in range(3):
                    ck.equal('%s | at grid point %s channel %d' % (nm, p, c), 'Registry.write', r.item(r.v, c), exp[c], r.facts, RNG)
        return functools.partial(ck.scenario, nm, go)
    for ki, b in (('linear', (-1.0, 3.0)), (None, (0.0, 1.0)), ('linear', (0.0, 1.0)), ('log2', (-2.0, 1.0))):
        for ext in ('clf', 'csp'):
            # the ends of the input shaper are entries of it whatever its resolution
            for n in (2,):
                jobs.append(e2e(ext, ki, None, b, (0.0, 1.0), 3, n, 2))
                if ext == 'clf' and ki != 'log2':
                    jobs.append(e2e(ext, ki, 'linear', b, (-2.0, 2.0), 3, n, 2))
    ck.parallel(jobs)
    return ck.finish('sample1D, sample3D, sample1D3D1D and createShaper on a channel-mixing transform with symbolic coefficients and symbolic ranges, the same through LutFormat.write and Registry.write into a format that keeps its arguments, and files read back at grid points.',
                     ['resolutions are enumerated, not symbolic, and at least 2', 'shaper minimum below its maximum', 'real arithmetic'], floor=700)


if __name__ == '__main__':
    main(run)
