import functools
from common import *

TS = sym('T', 'int', lo=2)


def entry(name, i, n, cols, ch):
    """table entry i (clamped to the ends) of channel ch"""
    n = wrap(n)
    j = ite(compare('lt', i, Const(0)), Const(0), ite(compare('lt', i, n), i, n - 1))
    return M.rd(name, j * cols + (ch if cols == 3 else 0))


def linear(p, n, cols, ch, name='t'):
    q = p * (wrap(n) - 1)
    lo, hi = floor_(q), ceil_(q)
    w = q - lo
    a, b = entry(name, lo, n, cols, ch), entry(name, hi, n, cols, ch)
    return a + w * (b - a)


def spec(n, cols, ind):
    def f(px, c):
        if c >= 3:
            return px(c)
        return linear(norm_in(px(c), ind), n, cols, c)
    return f


def mk_lut(lab, n, cols, ind, outd, interp, kind='list', **kw):
    def mk():
        l = lab.new('LUT1D', ind, outd, 'id', 'nm', interp, **kw) if interp is not None else lab.new('LUT1D', ind, outd, 'id', 'nm', **kw)
        t = lab.nlist('t', wrap(n) * cols) if kind == 'list' else lab.arr('t', wrap(n) * cols, kind)
        lab.call(l, 'setArray', cols, t)
        return l
    return mk


def run(tier):
    ck = Check('C11', tier, 'value graph of 1D LUT evaluation equals linear interpolation with clamped entries; every table index is proved in bounds')
    lab = Lab()
    jobs = []
    deep = tier != 'quick'
    sizes = [2, 3, 5, 1024, TS] if not deep else [2, 3, 4, 5, 16, 17, 1024, 4096, 65536, TS]
    interps = [None, 'linear', 'cubic'] if not deep else [None, '', 'linear', 'cubic', 'anything']
    k = 0
    for n in sizes:
        for cols in (1, 3):
            for interp in interps:
                pairs = [(DEPTHS[k % 6], DEPTHS[(k // 2) % 6])] if not deep else [(a, DEPTHS[(i + k) % 6]) for i, a in enumerate(DEPTHS)]
                k += 1
                for ind, outd in pairs:
                    for kind in (('list', 'f4') if deep else (('list', 'f4')[k % 2],)):
                        f = FACTOR[ind]
                        lay = [LAYOUTS[k % 4], Layout(3, 1, True)] if not deep else [Layout(3, 1, True), Layout(4, N), Layout(5, 2)]
                        facts = [TS.ge(2)] if n is TS else []
                        jobs.append(functools.partial(check_pixels, ck, lab, '1D LUT size %s, %d column(s), interpolation %r, %s to %s, %s' % (n if not isinstance(n, Val) else 'T', cols, interp, ind, outd, kind),
                                                      'LUT1D.process', mk_lut(lab, n, cols, ind, outd, interp, kind), spec(n, cols, ind), lay, {'x': (-1.2 * f, 2.1 * f), 'T': (2, 9)}, facts))
    # special values pass through, huge ones take the end entries
    for n in (2, 5, 1024) if not deep else (2, 3, 4, 5, 16, 1024, 65536):
        for cols in (1, 3):
            for interp in (None, 'cubic'):
                def go(n=n, cols=cols, interp=interp):
                    for what, vals in (('NaN', 'nan'), ('Inf', 'inf'), ('-Inf', '-inf'), ('1e30', 1e30), ('-1e30', -1e30), ('below zero', -1e-9), ('beyond one', 1.0000001)):
                        nm = 'special %s, size %d, %d column(s), interpolation %r' % (what, n, cols, interp)
                        v = float(vals)

                        def th():
                            l = mk_lut(lab, n, cols, '16f', '16f', interp)()
                            return lab.call(l, 'process', lab.callx('np.array', lab.list([v] * 4)), 4)
                        r = lab.run(th)
                        ck.analysed(lab)
                        if not ck.no_raise(nm + ' | no exception', r) and r.v is None:
                            continue
                        for c in range(4):
                            g = r.item(r.v, c)
                            if c == 3 or abs(v) == float('inf') or v != v:
                                if isinstance(g, Const):
                                    same = (g.v != g.v) if v != v else (abs(g.v - v) <= 1e-6 * abs(v) if abs(v) != float('inf') else g.v == v)
                                    if same:
                                        ck.ok('%s | channel %d' % (nm, c))
                                    else:
                                        ck.fail('%s | channel %d' % (nm, c), 'LUT1D.process', 'result %s' % g.v)
                                else:
                                    ck.unknown('%s | channel %d' % (nm, c), 'result %s' % short(g, 80))
                            else:
                                j = 0 if v < 0.5 else (n - 1)
                                ck.equal('%s | channel %d' % (nm, c), 'LUT1D.process', g, M.rd('t', Const(j * cols + (c if cols == 3 else 0))), r.facts, {'t': (0, 1)}) if abs(v) > 1e20 else ck.equal('%s | channel %d' % (nm, c), 'LUT1D.process', g, linear(Const(v), n, cols, c), r.facts, {'t': (0, 1)})
                ck.parallel  # noqa
                jobs.append(functools.partial(ck.scenario, 'special values size %d' % n, go))
    # the exact lookup clamps its index
    for cols in (1, 3):
        def go2(cols=cols):
            i = sym('i', 'int')

            def th():
                a = lab.new('Array', lab.list([TS, Const(cols)]), lab.nlist('t', TS * cols))
                return Tup(tuple(lab.call(a, 'lookup1D', i, c) for c in range(3)))
            r = lab.run(th, [TS.ge(2)])
            ck.analysed(lab)
            if not ck.no_raise('exact lookup | no exception', r, {'i': (-4, 14), 'T': (2, 9)}) and r.v is None:
                return
            for c in range(3):
                ck.equal('exact lookup, %d column(s) | channel %d' % (cols, c), 'Array.lookup1D', r.v.items[c], entry('t', i, TS, cols, c), r.facts, {'i': (-4, 14), 'T': (2, 9)})
        jobs.append(functools.partial(ck.scenario, 'exact lookup', go2))
    ck.parallel(jobs)
    return ck.finish('Table sizes (fixed and symbolic), one and three columns, interpolation names, bit depths, buffer layouts; symbolic samples and table entries; NaN, infinite and huge inputs as constants.',
                     ['table entries are finite'], floor=200)


if __name__ == '__main__':
    main(run)
