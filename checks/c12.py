import functools, itertools
from common import *

GR, GG, GB = sym('GR', 'int', lo=2), sym('GG', 'int', lo=2), sym('GB', 'int', lo=2)


def grid(dims, idx, c, name='t'):
    """sample at grid point idx (clamped to the faces); blue fastest"""
    j = []
    for i, n in zip(idx, dims):
        n = wrap(n)
        j.append(ite(compare('lt', i, Const(0)), Const(0), ite(compare('lt', i, n), i, n - 1)))
    return M.rd(name, ((j[0] * dims[1] + j[1]) * dims[2] + j[2]) * 3 + c)


def cell(p, dims):
    lo, w = [], []
    for x, n in zip(p, dims):
        q = clamp01(x) * (wrap(n) - 1)
        lo.append(floor_(q))
        w.append(q - floor_(q))
    return lo, w


def trilinear(p, dims, c, name='t'):
    lo, w = cell(p, dims)
    r = Const(0.0)
    for bits in itertools.product((0, 1), repeat=3):
        k = Const(1.0)
        for i in range(3):
            k = k * (w[i] if bits[i] else Const(1.0) - w[i])
        r = r + k * grid(dims, [lo[i] + bits[i] for i in range(3)], c, name)
    return r


def tetrahedral(p, dims, c, name='t'):
    lo, w = cell(p, dims)

    def tet(order):
        a, b, d = order
        at = [list(lo) for _ in range(4)]
        for k in (1, 2, 3):
            for j in order[:k]:
                at[k][j] = at[k][j] + 1
        v = [grid(dims, x, c, name) for x in at]
        return v[0] * (Const(1.0) - w[a]) + v[1] * (w[a] - w[b]) + v[2] * (w[b] - w[d]) + v[3] * w[d]
    gt = lambda i, j: compare('gt', w[i], w[j])
    return ite(gt(0, 1), ite(gt(1, 2), tet((0, 1, 2)), ite(gt(0, 2), tet((0, 2, 1)), tet((2, 0, 1)))),
               ite(gt(2, 1), tet((2, 1, 0)), ite(gt(2, 0), tet((1, 2, 0)), tet((1, 0, 2)))))


def spec(dims, ind, interp):
    def f(px, c):
        if c >= 3:
            return px(c)
        p = [norm_in(px(i), ind) for i in range(3)]
        return (tetrahedral if interp == 'tetrahedral' else trilinear)(p, dims, c)
    return f


def mk_lut(lab, dims, ind, outd, interp, kind='list'):
    def mk():
        l = lab.new('LUT3D', ind, outd, 'id', 'nm', interp) if interp is not None else lab.new('LUT3D', ind, outd, 'id', 'nm')
        n = wrap(dims[0]) * dims[1] * dims[2] * 3
        t = lab.nlist('t', n) if kind == 'list' else lab.arr('t', n, kind)
        lab.call(l, 'setArray', lab.list(list(dims)), t)
        return l
    return mk


def run(tier):
    ck = Check('C12', tier, 'value graph of 3D LUT evaluation equals trilinear/tetrahedral interpolation with clamped cells; table indices proved in bounds')
    lab = Lab()
    jobs = []
    deep = tier != 'quick'
    sizes = [(2, 2, 2), (2, 3, 4), (5, 2, 3), (33, 33, 33), (GR, 4, 3)]
    if deep:
        sizes += [(3, 2, 2), (2, 2, 5), (2, 7, 2), (3, 3, 3), (4, 4, 4), (17, 17, 17), (32, 64, 16), (65, 33, 17), (GR, 33, 33)]
    k = 0
    for dims in sizes:
        for interp in ((None, 'trilinear', 'tetrahedral', 'linear', '') if deep else (None, 'trilinear', 'tetrahedral', 'other')):
            for ind, outd in ([(DEPTHS[k % 6], DEPTHS[(k // 2) % 6])] if not deep else [('16f', '8i'), ('10i', '32f'), ('16i', '16f')]):
                k += 1
                lay = [Layout(3, 1, True)] if k % 3 or isinstance(dims[0], Val) else [Layout(4, N)]
                if deep:
                    lay = [Layout(3, 1, True), Layout(4, N), Layout(5, 2)] if not isinstance(dims[0], Val) else [Layout(3, 1, True), Layout(4, 1)]
                f = FACTOR[ind]
                rg = {'x': (-.4 * f, 1.4 * f), 'GR': (2, 5), 'GG': (2, 5), 'GB': (2, 5)}
                facts = [s.ge(2) for s in (GR, GG, GB)] if isinstance(dims[0], Val) else []
                for kind in (('list', 'f4') if deep else (('list', 'f4')[k % 2],)):
                    jobs.append(functools.partial(check_pixels, ck, lab, '3D LUT %s, interpolation %r, %s to %s, %s' % ('symbolic size' if isinstance(dims[0], Val) else 'x'.join(map(str, dims)), interp, ind, outd, kind), 'LUT3D.process',
                                                  mk_lut(lab, dims, ind, outd, interp, kind), spec(dims, ind, interp), lay, rg, facts, (), 'f4', 150))
    # exact lookup
    def go(GG=5, GB=4):
        ii = [sym('i%d' % c, 'int') for c in range(3)]

        def th():
            a = lab.new('Array', lab.list([GR, GG, GB, Const(3)]), lab.nlist('t', GR * GG * GB * 3))
            return lab.call(a, 'lookup3D', lab.list(ii))
        r = lab.run(th, [s.ge(2) for s in (GR,)])
        ck.analysed(lab)
        rg = {'i0': (-3, 8), 'i1': (-3, 8), 'i2': (-3, 8), 'GR': (2, 5), 'GG': (2, 5), 'GB': (2, 5)}
        if not ck.no_raise('exact 3D lookup | no exception', r, rg) and r.v is None:
            return
        for c in range(3):
            ck.equal('exact 3D lookup | channel %d' % c, 'Array.lookup3D', r.item(r.v, c), grid((GR, GG, GB), ii, c), r.facts, rg)
    jobs.append(functools.partial(ck.scenario, 'exact lookup', go))
    ck.parallel(jobs)
    return ck.finish('Cubic and non-cubic grids (fixed and symbolic sizes), interpolation names including missing and unknown ones, bit depths, buffer layouts; symbolic samples and table.',
                     ['table entries and samples are finite'], floor=60)


if __name__ == '__main__':
    main(run)
