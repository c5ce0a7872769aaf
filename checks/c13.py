import functools
from common import *
from clfstatic import ext as X


def half(v):
    return M.half_round(None, wrap(v))


def bits(v):
    return X.mk_cast('h2u', wrap(v))


def unbits(v):
    return X.mk_cast('u2h', wrap(v))


def at(i, cols, ch, name='t'):
    return M.rd(name, wrap(i) * cols + (ch if cols == 3 else 0))


def halfdomain(x, cols, ch, name='t'):
    """entry of the half pattern of x, linear between the surrounding halves of the same sign"""
    h = half(x)
    u = bits(h)
    d = x - h
    isneg = x.lt(0)
    lo = ite(isneg, Const(32768), Const(0))
    hi = ite(isneg, Const(64511), Const(31743))
    step = ite(d.ge(0), ite(isneg, Const(-1), Const(1)), ite(isneg, Const(1), Const(-1)))
    u2 = tmax(lo, tmin(hi, u + step))
    h2 = unbits(u2)
    w = ite(compare('eq', h2 - h, Const(0.0)), Const(0.0), d / (h2 - h))
    a, b = at(u, cols, ch, name), at(u2, cols, ch, name)
    return ite(x.ge(65520.0), at(31744, cols, ch, name), ite(x.le(-65520.0), at(64512, cols, ch, name), a + w * (b - a)))


def mk_lut(lab, cols, ind, outd, interp='linear', raw='', kind='list'):
    def mk():
        l = lab.new('LUT1D', ind, outd, 'id', 'nm', interp, raw, True)
        t = lab.nlist('t', Const(65536 * cols)) if kind == 'list' else lab.arr('t', Const(65536 * cols), kind)
        lab.call(l, 'setArray', cols, t)
        return l
    return mk


def pick(f):
    def g(rng):
        k = rng.random()
        if k < .25:
            v = Fraction_(half(Const(rng.uniform(-2, 2))).v)
        elif k < .4:
            v = rng.uniform(-70000, 70000)
        elif k < .5:
            v = rng.uniform(-1, 1) * 2.0 ** rng.randint(-26, -10)
        elif k < .6:
            v = rng.choice((-1, 1)) * rng.uniform(65490, 65530)
        else:
            v = rng.uniform(-3, 3)
        return Fraction_(v) * Fraction_(f)
    return g


from fractions import Fraction as Fraction_


def run(tier):
    ck = Check('C13', tier, 'value graph of half-domain lookup equals the entry addressed by the half pattern with linear interpolation between neighbouring halves')
    lab = Lab()
    jobs = []
    deep = tier != 'quick'
    k = 0
    for cols in (1, 3):
        for interp in ('linear', '', 'cubic') if deep else ('linear', 'cubic'):
            for raw in ('', True):
                for ind in (DEPTHS if deep else ('16f', '32f', '10i')):
                    k += 1
                    f = FACTOR[ind]

                    def spec(px, c, cols=cols, ind=ind):
                        if c >= 3:
                            return px(c)
                        return halfdomain(norm_in(px(c), ind), cols, c)
                    if not deep and (k % 2 == 0) and ind == '32f':
                        continue
                    lay = [Layout(3, 1, True), Layout(4, N) if f == 1.0 else Layout(5, 2)] if deep else [Layout(4, N)] if ind == '16f' and raw else [LAYOUTS[k % 3]]
                    jobs.append(functools.partial(check_pixels, ck, lab, 'half-domain LUT, %d column(s), interpolation %r, rawHalfs %r, %s' % (cols, interp, raw, ind), 'LUT1D.process',
                                                  mk_lut(lab, cols, ind, '16f', interp, raw, ('list', 'f4', 'f2')[k % 3]), spec, lay, {'x': pick(f), 't': (0, 1)}))

    def consts():
        import struct
        for cols in (1, 3):
            probes = [('NaN', float('nan'), 31745), ('Inf', float('inf'), 31744), ('-Inf', float('-inf'), 64512), ('zero', 0.0, 0), ('one', 1.0, 15360), ('-one', -1.0, 48128),
                      ('largest', 65504.0, 31743), ('-largest', -65504.0, 64511), ('smallest', 2.0 ** -24, 1), ('-smallest', -2.0 ** -24, 32769), ('third', struct.unpack('<e', struct.pack('<e', 1 / 3.))[0], 13653)]
            for nm, v, idx in probes:
                def th():
                    l = mk_lut(lab, cols, '16f', '16f')()
                    return lab.call(l, 'process', lab.callx('np.array', lab.list([v] * 3)), 3)
                r = lab.run(th)
                ck.analysed(lab)
                n2 = 'half-domain %s, %d column(s)' % (nm, cols)
                if not ck.no_raise(n2 + ' | no exception', r) and r.v is None:
                    continue
                for c in range(3):
                    ck.equal('%s | channel %d' % (n2, c), 'Array.lookup1DHalfDomain', r.item(r.v, c), at(Const(idx), cols, c), r.facts, {'t': (0, 1)})
    jobs.append(functools.partial(ck.scenario, 'constants', consts))

    # the entries of the infinity and NaN codes are infinities and NaNs themselves: a value next to the largest
    # finite halves must not let them in
    def edges():
        inf = float('inf')
        table = [float('nan')] * 65536
        for i in range(31744):
            table[i], table[32768 + i] = i * 0.5, -i * 0.25
        table[31744], table[64512] = inf, -inf
        cells = [Const(v) for v in table]
        for cols in (1, 3):
            for v, e in ((65510.0, 31743 * .5), (-65510.0, -31743 * .25), (65519.0, 31743 * .5), (-65519.0, -31743 * .25), (65504.0, 31743 * .5), (-65504.0, -31743 * .25),
                         (65488.0, 31742.5 * .5), (-65488.0, -31742.5 * .25), (2.0 ** -25, .25), (-2.0 ** -26, -.0625), (70000.0, inf), (-70000.0, -inf)):
                def th():
                    l = lab.new('LUT1D', '16f', '16f', 'id', 'nm', 'linear', '', True)
                    lab.call(l, 'setArray', cols, lab.list([x for x in cells for _ in range(cols)]))
                    return lab.call(l, 'process', lab.callx('np.array', lab.list([v] * 3)), 3)
                r = lab.run(th)
                ck.analysed(lab)
                n2 = 'half-domain table with infinities at their codes, %r, %d column(s)' % (v, cols)
                if not ck.no_raise(n2 + ' | no exception', r) and r.v is None:
                    continue
                for c in range(3):
                    ck.equal('%s | channel %d' % (n2, c), 'Array.lookup1DHalfDomain', r.item(r.v, c), Const(e), r.facts)
    jobs.append(functools.partial(ck.scenario, 'edges', edges))

    def nearest():
        for cols in (1, 3):
            x = sym('x')
            for flag in (True, False):
                def th():
                    a = lab.new('Array', lab.list([65536, cols]), lab.nlist('t', Const(65536 * cols)))
                    return Tup(tuple(lab.call(a, 'lookup1DHalfDomain', x, c, flag) for c in range(3)))
                r = lab.run(th, [x.gt(-65500), x.lt(65500)])
                ck.analysed(lab)
                n2 = 'half-domain lookup, interpolate %s, %d column(s)' % (flag, cols)
                rg = {'x': pick(1), 't': (0, 1)}
                if not ck.no_raise(n2 + ' | no exception', r, rg) and r.v is None:
                    continue
                for c in range(3):
                    exp = halfdomain(x, cols, c) if flag else at(bits(half(x)), cols, c)
                    ck.equal('%s | channel %d' % (n2, c), 'Array.lookup1DHalfDomain', r.v.items[c], exp, r.facts, rg)
    jobs.append(functools.partial(ck.scenario, 'nearest', nearest))
    ck.parallel(jobs)
    return ck.finish('Half-domain LUTs with one and three columns, all interpolation names, raw-half flag, bit depths; symbolic finite samples plus NaN, infinities, zeros, extremes and exact half values as constants.',
                     ['table entries are finite', 'the zero sign of an input is not distinguished'], floor=60)


if __name__ == '__main__':
    main(run)
