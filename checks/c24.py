import functools, itertools
from common import *
import files, heap
from clfstatic import terms as T

LO, HI = sym('lo', 'float'), sym('hi', 'float')
RNG0 = {'lo': (-1.5, -.2), 'hi': (1.2, 3.0)}


def half_of(n):
    import struct
    return struct.unpack('<e', struct.pack('<H', n))[0]


def run(tier):
    ck = Check('C24', tier, 'the nodes an inverse consists of, entry by entry as terms in the table and its range: index maps are the columns of the table, resampled entries are the exact inverse of the piecewise linear curve at their grid point')
    lab = Lab()
    lut = lab.load(loader.ACES + '/lutFormats/__init__.py', 'lutFormats')
    sam = [m for p, m in lab.basemods.items() if p.endswith('Sampling.py')][0]
    I = lab.I
    deep = tier != 'quick'
    jobs = []

    def samp(m, *a, **k):
        return I.call(I.getattr(sam, m), [wrap(x) for x in a], {n: wrap(v) for n, v in k.items()})

    def call(c, m, *a, **k):
        return I.call(I.getattr(c, m), [wrap(x) for x in a], {n: wrap(v) for n, v in k.items()})

    def table(n, ch, numeric=()):
        """columns of strictly increasing entries: symbolic, or numbers for some channels"""
        cols, facts, rng = [], [], dict(RNG0)
        for c in range(ch):
            if c in numeric:
                cols.append([Const(-.75 + .5 * c + (1.5 + .25 * c) * ((i + .25 * (i % 2)) / (n - 1.0)) ** (1 + (c % 2))) for i in range(n)])
                continue
            col = [sym('d_%d_%d' % (i, c), 'float') for i in range(n)]
            for i in range(n):
                rng['d_%d_%d' % (i, c)] = (-.6 + i * .4, -.3 + i * .4)
            facts += [compare('lt', col[i], col[i + 1]) for i in range(n - 1)]
            cols.append(col)
        return cols, facts, rng

    def flat(cols):
        return [cols[c][i] for i in range(len(cols[0])) for c in range(len(cols))]

    def ready(nm, r, con, rng):
        ck.analysed(lab)
        if not ck.no_raise(nm + ' | no exception', r, rng) or r.v is None:
            return False
        if r.unmod:
            ck.unknown(nm, 'unmodelled: %s' % (r.unmod[:2],))
            return False
        if not isinstance(r.v, Ref):
            ck.fail(nm + ' | nodes', con, 'no list of nodes')
            return False
        return True

    def kinds(r):
        n = r.length(r.v)
        return [r.st.get(r.obj(r.item(r.v, i)).cls.oid).meta.name for i in range(n.v)] if isinstance(n, Const) else None

    def rangenode(nm, con, r, k, vals, rng):
        p = r.item(r.v, k)
        for f, e in zip(('minInValue', 'maxInValue', 'minOutValue', 'maxOutValue'), vals):
            v = r.do(lambda: lab.call(p, 'getValueElement', f))
            ck.equal('%s | node %d %s' % (nm, k, f), con, v, e, r.facts, rng)
        st = r.do(lambda: lab.call(p, 'getAttribute', 'style'))
        depths(nm, con, r, k)

    def depths(nm, con, r, k):
        p = r.item(r.v, k)
        for d in ('getInBitDepth', 'getOutBitDepth'):
            v = r.do(lambda: lab.call(p, d))
            ck.true('%s | node %d %s' % (nm, k, d), con, v in (Const('16f'), Const('32f')), msg='the depth is %s' % short(v, 20))

    def lutnode(nm, con, r, k, n, ch):
        p = r.item(r.v, k)
        depths(nm, con, r, k)
        arr = r.attr(p, '_array')
        dims, vals = r.attr(arr, '_dimensions'), r.attr(arr, '_values')
        ck.equal(nm + ' | entries', con, r.item(dims, 0), Const(n), r.facts)
        ck.equal(nm + ' | channels', con, r.item(dims, 1), Const(ch), r.facts)
        ln = r.length(vals)
        ck.equal(nm + ' | table length', con, ln, Const(n * ch), r.facts)
        return vals if ln is Const(n * ch) else None

    # ---- index maps
    def index_map(nm, make, n, ch, cols, facts, rng, lo, hi, unit):
        def go():
            con = 'generateLUT1DInverseIndexMap'
            r = lab.run(make, facts)
            if not ready(nm, r, con, rng):
                return
            ks = kinds(r)
            want = ['LUT1D'] if unit else ['LUT1D', 'Range']
            if ks != want:
                return ck.fail(nm + ' | nodes', con, 'nodes %s instead of %s' % (ks, want))
            ck.ok(nm + ' | nodes')
            if not unit:
                rangenode(nm, con, r, 1, (Const(0.0), Const(1.0), lo, hi), rng)
            vals = lutnode(nm, con, r, 0, n, ch)
            if vals is not None:
                for i, c in itertools.product(range(n), range(ch)):
                    ck.equal('%s | entry %d channel %d' % (nm, i, c), con, r.item(vals, i * ch + c), Const(float(i) / (n - 1)), r.facts, rng)
            p = r.item(r.v, 0)
            im = r.attr(p, '_indexMaps')
            cnt = r.length(im) if isinstance(im, Ref) else None
            ck.equal(nm + ' | index maps', con, cnt, Const(ch), r.facts)
            if cnt is not Const(ch):
                return
            for c in range(ch):
                m = r.item(im, c)
                vs = r.do(lambda: lab.call(m, 'getValues'))
                a, b = r.item(vs, 0), r.item(vs, 1)
                ck.equal('%s | index map %d length' % (nm, c), con, r.length(a), Const(n), r.facts)
                ck.equal('%s | index map %d outputs' % (nm, c), con, r.length(b), Const(n), r.facts)
                if r.length(a) is not Const(n) or r.length(b) is not Const(n):
                    continue
                for i in range(n):
                    ck.equal('%s | index map %d input %d' % (nm, c, i), con, r.item(a, i), cols[c][i], r.facts, rng)
                    ck.equal('%s | index map %d output %d' % (nm, c, i), con, r.item(b, i), Const(i), r.facts, rng)
        return functools.partial(ck.scenario, nm, go)

    def spi(cols, lo, hi, comps=None):
        n, ch = len(cols[0]), len(cols)
        P = ['Version 1\nFrom ', lo, ' ', hi, '\nLength %d\nComponents %d\n{\n' % (n, ch)]
        for i in range(n):
            for c in range(ch):
                P += [cols[c][i].v if isinstance(cols[c][i], Const) else cols[c][i], ' ' if c < ch - 1 else '\n']
        files.write_file(lab, '/scratch/a.spi1d', P + ['}\n'])
        return '/scratch/a.spi1d'

    UNITS = [('0..1', Const(0.0), Const(1.0), True), ('a symbolic range', LO, HI, False), ('0..2', Const(0.0), Const(2.0), False), ('-1..1', Const(-1.0), Const(1.0), False)]
    nF = [compare('lt', LO, Const(0.0)), compare('gt', HI, Const(1.0))]
    for n in ((2, 3, 5) if not deep else (2, 3, 4, 5, 9)):
        for ch in (1, 3):
            cols, facts, rng = table(n, ch)
            for un, lo, hi, unit in UNITS:
                jobs.append(index_map('index map of %d entries, %d channels, %s' % (n, ch, un), lambda n=n, ch=ch, cols=cols, lo=lo, hi=hi: samp('generateLUT1DInverseIndexMap', lab.list([n, ch]), lab.list(flat(cols)), lo, hi),
                                      n, ch, cols, facts + nF, rng, lo, hi, unit))
                jobs.append(index_map('inverse spi1d of %d entries, %d channels, %s' % (n, ch, un), lambda cols=cols, lo=lo, hi=hi: call(I.getattr(lut, 'Registry'), 'read', spi(cols, lo.v if unit_const(lo) else lo, hi.v if unit_const(hi) else hi), TRUE, returnProcessNodes=True),
                                      n, ch, cols, facts + nF, rng, lo, hi, unit))

    # ---- resampled
    def exact(col, v):
        """position 0..1 of v on the increasing piecewise linear curve, ends clamped"""
        n = len(col)
        e = Const(1.0)
        for k in reversed(range(n - 1)):
            e = ite(compare('lt', v, col[k + 1]), (Const(float(k)) + (v - col[k]) / (col[k + 1] - col[k])) / Const(float(n - 1)), e)
        return ite(compare('lt', v, col[0]), Const(0.0), e)

    def resampled(nm, make, n, ch, cols, facts, rng, lo, hi):
        def go():
            con = 'generateLUT1DInverseResampled'
            r = lab.run(make, facts)
            if not ready(nm, r, con, rng):
                return
            ks = kinds(r)
            if ks != ['Range', 'LUT1D', 'Range']:
                return ck.fail(nm + ' | nodes', con, 'nodes %s instead of a range, a LUT and a range' % ks)
            ck.ok(nm + ' | nodes')
            a = functools.reduce(tmin, [cols[c][0] for c in range(ch)])
            b = functools.reduce(tmax, [cols[c][-1] for c in range(ch)])
            rangenode(nm, con, r, 0, (a, b, Const(0.0), Const(1.0)), rng)
            rangenode(nm, con, r, 2, (Const(0.0), Const(1.0), lo, hi), rng)
            arr = r.attr(r.item(r.v, 1), '_array')
            m = r.item(r.attr(arr, '_dimensions'), 0)
            if not isinstance(m, Const) or m.v < n:
                return ck.fail(nm + ' | entries', con, '%s entries for a table of %d' % (short(m, 20), n))
            vals = lutnode(nm, con, r, 1, m.v, ch)
            if vals is None:
                return
            for j in range(m.v):
                v = a + Const(float(j) / (m.v - 1)) * (b - a)
                for c in range(ch):
                    ck.equal('%s | entry %d channel %d' % (nm, j, c), con, clamp01(r.item(vals, j * ch + c)), exact(cols[c], v), r.facts, rng)
        return functools.partial(ck.scenario, nm, go)
    for n, ch, num in [(2, 1, ()), (3, 1, ()), (2, 3, (0, 1, 2)), (4, 3, (0, 1, 2)), (2, 3, (1, 2)), (2, 3, (0, 2)), (2, 3, (0, 1)), (9, 3, (0, 1, 2)), (5, 1, (0,))] + ([(4, 1, ()), (3, 3, (0, 1)), (33, 3, (0, 1, 2))] if deep else []):
        cols, facts, rng = table(n, ch, num)
        if num:
            # a symbolic column next to numbers: inside, below or above them
            for c in range(ch):
                if c not in num:
                    facts += [compare('lt', cols[c][0], Const(-.75)), compare('gt', cols[c][-1], Const(2.5))]
                    rng['d_0_%d' % c], rng['d_%d_%d' % (n - 1, c)] = (-2, -.8), (2.6, 4.0)
        t = 'with numbers' if len(num) == ch else 'symbolic' if not num else 'with a symbolic channel %s' % [c for c in range(ch) if c not in num]
        jobs.append(resampled('resampled %d entries, %d channels, %s' % (n, ch, t), lambda n=n, ch=ch, cols=cols: samp('generateLUT1DInverseResampled', lab.list([n, ch]), lab.list(flat(cols)), LO, HI), n, ch, cols, facts + nF, rng, LO, HI))
        if len(num) == ch or not num:
            jobs.append(resampled('inverse resampled spi1d, %d entries, %d channels, %s' % (n, ch, t), lambda n=n, ch=ch, cols=cols: call(I.getattr(lut, 'Registry'), 'read', spi(cols, LO, HI), TRUE, 'linear', FALSE, FALSE, TRUE), n, ch, cols, facts + nF, rng, LO, HI))

    # ---- every half value
    def half(nm, make, n, ch, cols, facts, rng, lo, hi, raw, probe):
        def go():
            con = 'generateLUT1DInverseHalfDomain'
            r = lab.run(make, facts)
            if not ready(nm, r, con, rng):
                return
            ks = kinds(r)
            if ks != ['LUT1D']:
                return ck.fail(nm + ' | nodes', con, 'nodes %s instead of a LUT' % ks)
            ck.ok(nm + ' | nodes')
            p = r.item(r.v, 0)
            for a, e in (('halfDomain', True), ('rawHalfs', raw)):
                v = r.do(lambda: lab.call(p, 'getAttribute', a))
                ck.true('%s | %s' % (nm, a), con, (v is TRUE or v is Const('True')) == e, msg='%s is %s' % (a, short(v, 20)))
            vals = lutnode(nm, con, r, 0, 65536, ch)
            if vals is None:
                return
            for j in probe:
                x = half_of(j)
                for c in range(ch):
                    v = r.item(vals, j * ch + c)
                    if x != x or x in (float('inf'), float('-inf')):
                        ck.true('%s | entry %d channel %d' % (nm, j, c), con, isinstance(v, Const) and (v.v == x or v.v != v.v and x != x), msg='%s instead of %s' % (short(v, 30), x))
                        continue
                    e = lo + exact(cols[c], Const(x)) * (hi - lo)
                    # beyond the last entry the inverse is not prescribed
                    over = compare('gt', Const(x), cols[c][-1])
                    if over is TRUE:
                        continue
                    f = r.facts
                    if over is not FALSE:
                        f = f.plus(compare('le', Const(x), cols[c][-1]))
                    ck.equal('%s | entry %d channel %d' % (nm, j, c), con, v, e, f, rng)
        return functools.partial(ck.scenario, nm, go)
    probes = sorted(set(range(0, 65536, 977 if not deep else 101)) | {0, 1, 0x3800, 0x3801, 0x3bff, 0x3c00, 0x3c01, 0x3555, 0x3400, 0x7bff, 0x7c00, 0x7c01, 0x7fff, 0x8000, 0x8001, 0xb800, 0xbc00, 0xfbff, 0xfc00, 0xfc01, 0xffff})
    for n, ch, un, lo, hi in [(2, 1, '0..1', Const(0.0), Const(1.0)), (3, 3, 'a symbolic range', LO, HI)]:
        cols, facts, rng = table(n, ch, range(ch))
        jobs.append(half('half domain %d entries, %d channels, %s' % (n, ch, un), lambda n=n, ch=ch, cols=cols, lo=lo, hi=hi: samp('generateLUT1DInverseHalfDomain', lab.list([n, ch]), lab.list(flat(cols)), lo, hi), n, ch, cols, facts + nF, rng, lo, hi, False, probes))
    cols, facts, rng = table(3, 1, (0,))
    jobs.append(half('inverse half domain spi1d', lambda cols=cols: call(I.getattr(lut, 'Registry'), 'read', spi(cols, LO, HI), TRUE, 'linear', FALSE, TRUE, TRUE), 3, 1, cols, facts + nF, rng, LO, HI, True, probes))
    ck.parallel(jobs)
    return ck.finish('index-map and resampled inverses on tables with symbolic strictly increasing columns and a symbolic input range, directly and through inverse reading of spi1d files; the half-domain inverse of numeric tables at a sample of the 65536 halfs.',
                     ['columns are strictly increasing', 'sizes are enumerated', 'beyond the last entry the half-domain inverse is not prescribed'], floor=400)


def unit_const(v):
    return isinstance(v, Const)


if __name__ == '__main__':
    main(run)
