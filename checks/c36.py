import functools, os
from common import *
from clfstatic import terms as T

STUBS = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'stubs') + '/'
COEF = [sym('a%d' % i, 'float') for i in range(5)]


def run(tier):
    ck = Check('C36', tier, 'every stored table entry is the term of the tabulated function at the grid point; dimensions, depths, identifiers and flags of the node made')
    lab = Lab()
    I = lab.I
    mod = lab.load(STUBS + 'samplers.py', 'samplers')
    deep = tier != 'quick'
    jobs = []

    def func(name):
        a = I.getattr(mod, 'A')
        for i, c in enumerate(COEF):
            I.setitem(a, Const(i), c)
        return I.getattr(mod, name)

    def curve(x):
        return COEF[0] * x * x + COEF[1] * x + COEF[2]

    def cube(x, y, z):
        a, b, c, d, e = COEF
        return [a * x + b * y + c * z + d * x * y * z, b * x * x + d * y + e, c * z * z + a * y * x + e * x]

    def cubetuple(x, y, z):
        a, b, c, d, e = COEF
        return [a * x + b * y + c * z, d * y * z, e * z + a]

    def ready(nm, r, con):
        ck.analysed(lab)
        if not ck.no_raise(nm + ' | no exception', r, {}, construct=con) or r.v is None:
            return False
        if r.unmod:
            ck.unknown(nm, 'unmodelled: %s' % (r.unmod[:2],))
            return False
        return True

    def header(nm, con, r, node, kind, dims, depths, half=None):
        def get(m, *a):
            return r.do(lambda: lab.call(node, m, *a))
        ck.equal(nm + ' | node type', con, get('getNodeType'), Const(kind), r.facts)
        for what, m, e in (('input depth', 'getInBitDepth', depths[0]), ('output depth', 'getOutBitDepth', depths[1])):
            ck.equal('%s | %s' % (nm, what), con, get(m), Const(e), r.facts)
        for what, e in (('id', 'the id'), ('name', 'the name')):
            ck.equal('%s | %s' % (nm, what), con, get('getAttribute', what), Const(e), r.facts)
        for what in ('halfDomain', 'rawHalfs'):
            ck.equal('%s | %s' % (nm, what), con, r.do(lambda: lab.callx('builtins.bool', lab.call(node, 'getAttribute', what))), Const(bool(half and what in half)), r.facts)
        d = get('getLUTDimensions')
        ck.equal(nm + ' | number of dimensions', con, r.length(d), Const(len(dims)), r.facts)
        for i, e in enumerate(dims):
            ck.equal('%s | dimension %d' % (nm, i), con, r.item(d, i), wrap(e), r.facts)
        return get('getLUTValues')

    def oned(nm, channels, n, f, depths, how):
        con = 'simpleSampledLUT'

        def go():
            def th():
                a = ['the id', 'the name', channels, n]
                k = {}
                if f:
                    a.append(func('curve'))
                if how == 'keywords':
                    k = dict(inBitDepth=depths[0], outBitDepth=depths[1])
                elif how == 'positions':
                    a += list(depths)
                return lab.fcall(con, *a, **k)
            r = lab.run(th)
            if not ready(nm, r, con):
                return
            v = header(nm, con, r, r.v, 'LUT1D', [n, channels], depths)
            ck.equal(nm + ' | number of entries', con, r.length(v), Const(n * channels), r.facts)
            for i in range(n):
                x = Const(float(i) / (n - 1))
                for c in range(channels):
                    ck.equal('%s | entry %d, channel %d' % (nm, i, c), con, r.item(v, i * channels + c), curve(x) if f else x, r.facts)
        jobs.append(functools.partial(ck.scenario, nm, go))

    def half(nm, channels, f, raw, depths, how):
        con = 'simpleSampledLUTHalfDomain'

        def go():
            def th():
                a = ['the id', 'the name', channels]
                k = {}
                if how == 'positions':
                    a += [func('curve'), raw] + list(depths)
                else:
                    if f:
                        k['f'] = func('curve')
                    if raw:
                        k['rawHalfs'] = raw
                    if how == 'keywords':
                        k.update(inBitDepth=depths[0], outBitDepth=depths[1])
                return lab.fcall(con, *a, **k)
            r = lab.run(th)
            if not ready(nm, r, con):
                return
            v = header(nm, con, r, r.v, 'LUT1D', [65536, channels], depths, ['halfDomain'] + (['rawHalfs'] if raw else []))
            ck.equal(nm + ' | number of entries', con, r.length(v), Const(65536 * channels), r.facts)
            K = sym('p', 'int', lo=0, hi=65535)
            fs = r.facts
            for c in [K.ge(0), K.le(65535)]:
                fs = fs.plus(c)
            for i, (K, fs) in [(i, (Const(i), r.facts)) for i in (0, 1, 1024, 15360, 31743, 31744, 32768, 48128, 64511, 64512) if not f or i not in (31744, 64512)] + [('p', (K, fs))]:
                rr = Result(lab, r.v, r.st.fork(), [], [], [], {})
                rr.st.facts = fs
                x = rr.do(lambda: lab.fcall('uint16ToHalf', K))
                for c in range(channels):
                    for rg in [(0, 31743), (32768, 64511)] if i == 'p' else [(0, 0)]:
                        if i == 'p':
                            rr.st.facts = fs.plus(K.ge(rg[0])).plus(K.le(rg[1]))
                        ck.equal('%s | entry %s, channel %d%s' % (nm, i, c, ' from %d' % rg[0] if i == 'p' else ''), con, rr.item(v, K * channels + c), curve(x) if f else x, rr.st.facts, {'p': rg})
        jobs.append(functools.partial(ck.scenario, nm, go))

    def threed(nm, dims, f, depths, how, kind=list):
        con = 'simple3DLUT'

        def go():
            def th():
                a = ['the id', 'the name', lab.list(dims) if kind is list else Tup(tuple(wrap(d) for d in dims))]
                k = {}
                if f:
                    a.append(func(f))
                if how == 'keywords':
                    k = dict(inBitDepth=depths[0], outBitDepth=depths[1])
                elif how == 'positions':
                    a += list(depths)
                return lab.fcall(con, *a, **k)
            r = lab.run(th)
            if not ready(nm, r, con):
                return
            v = header(nm, con, r, r.v, 'LUT3D', dims + [3], depths)
            ck.equal(nm + ' | number of entries', con, r.length(v), Const(dims[0] * dims[1] * dims[2] * 3), r.facts)
            for x in range(dims[0]):
                for y in range(dims[1]):
                    for z in range(dims[2]):
                        p = [Const(float(t) / (d - 1)) for t, d in zip((x, y, z), dims)]
                        want = {'cube': cube, 'cubetuple': cubetuple, None: lambda *q: q}[f](*p)
                        for c in range(3):
                            ck.equal('%s | entry %d,%d,%d, channel %d' % (nm, x, y, z, c), con, r.item(v, ((x * dims[1] + y) * dims[2] + z) * 3 + c), want[c], r.facts)
        jobs.append(functools.partial(ck.scenario, nm, go))

    pairs = [('16f', '16f', ''), ('10i', '32f', 'keywords'), ('8i', '12i', 'positions'), ('32f', '16i', 'positions')]
    sizes = [2, 3, 4, 7, 17] if not deep else list(range(2, 34)) + [64, 65]
    for channels in (1, 2, 3, 4):
        for j, n in enumerate(sizes):
            a, b, how = pairs[(channels + j) % 4]
            oned('1D table of %d x %d, %s' % (n, channels, how or 'default depths'), channels, n, how == 'positions' or (channels + n) % 2, (a, b), how)
    for j, (channels, raw) in enumerate([(1, False), (3, False), (1, True), (3, True), (2, False), (4, True)][:6 if deep else 4]):
        for a, b, how in [pairs[j % 4]] if not deep else pairs:
            half('half-domain table of %d channels, raw %s, %s' % (channels, raw, how or 'default depths'), channels, how == 'positions' or j % 2, raw, (a, b), how)
    shapes = [[2, 2, 2], [3, 2, 4], [2, 4, 3], [5, 3, 2], [2, 2, 6]]
    if deep:
        shapes += [[x, y, z] for x in (2, 3, 5) for y in (2, 4) for z in (2, 3, 4)]
    for j, d in enumerate(shapes):
        a, b, how = pairs[j % 4]
        threed('3D table %s, %s' % ('x'.join(map(str, d)), how or 'default depths'), d, ['cube', 'cubetuple'][j % 2] if how == 'positions' or j != 4 else None, (a, b), how, list if j % 2 else tuple)
    threed('3D table 3x2x2 of the identity', [3, 2, 2], None, ('16f', '16f'), '')
    ck.parallel(jobs)
    return ck.finish('The three table builders for every channel count and several sizes, with symbolic functions and the default one, depths by default, position and keyword.',
                     ['the function to tabulate is a polynomial with symbolic coefficients', 'half-domain entries are compared at a symbolic finite pattern and at fixed patterns'], floor=150)


if __name__ == '__main__':
    main(run)
