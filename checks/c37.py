import functools
from common import *
import zoo


def S(n):
    return sym(n, 'float')

F4 = Op('ext', ('np.float32',), 'ext')
F8 = Op('ext', ('np.float64',), 'ext')


def run(tier):
    ck = Check('C37', tier, 'the value graph of every output element obtained by each route equals the one of plain evaluation in a process list')
    lab = Lab()
    I = lab.I
    jobs = []
    deep = tier != 'quick'
    E = [e for e in zoo.entries(lab, deep) if e.run]

    def data(kind, n):
        vals = [xs(i) for i in range(n)]
        if kind == 'list':
            return lab.list(vals)
        if kind == 'tuple':
            return Tup(tuple(vals))
        return lab.callx('np.array', lab.list(vals), F8 if kind == 'float64' else F4)

    def inlist(*nodes):
        pl = lab.new('ProcessList')
        for n in nodes:
            lab.call(pl, 'addProcess', n)
        return pl

    def group(*nodes):
        g = lab.new('Group', '16f', '16f', 'g', 'g')
        for n in nodes:
            lab.call(g, 'addProcess', n)
        return g
    # name -> (how to evaluate, channels)
    ROUTES = {
        'a list of values': lambda n, c, k: lab.call(inlist(n), 'process', data('list', c), k),
        'a tuple of values': lambda n, c, k: lab.call(inlist(n), 'process', data('tuple', c), k),
        'an array of doubles': lambda n, c, k: lab.call(inlist(n), 'process', data('float64', c), k),
        'the stride left out': lambda n, c, k: lab.call(inlist(n), 'process', data('float32', c)),
        'verbose': lambda n, c, k: lab.call(inlist(n), 'process', data('float32', c), k, True),
        'verbose by keyword': lambda n, c, k: lab.call(inlist(n), 'process', data('list', c), stride=k, verbose=True),
        'the node itself': lambda n, c, k: lab.call(n, 'process', data('float32', c), k),
        'the node itself, a list': lambda n, c, k: lab.call(n, 'process', data('list', c), k),
        'the node itself, verbose': lambda n, c, k: lab.call(n, 'process', data('float32', c), stride=k, verbose=True),
        'a group': lambda n, c, k: lab.call(inlist(group(n)), 'process', data('float32', c), k),
        'a verbose group': lambda n, c, k: lab.call(inlist(group(n)), 'process', data('float32', c), k, True),
        'a group in a group': lambda n, c, k: lab.call(inlist(group(group(n))), 'process', data('list', c), k),
        'the group itself': lambda n, c, k: lab.call(group(n), 'process', data('float32', c), k),
        'beside an empty group': lambda n, c, k: lab.call(inlist(group(), n, group()), 'process', data('float32', c), k),
        'printed before': lambda n, c, k: [lab.call(n, 'printInfo'), lab.call(inlist(n), 'process', data('float32', c), k)][1],
        'written before': lambda n, c, k: [lab.call(inlist(n), 'write'), lab.call(inlist(n), 'process', data('float32', c), k)][1],
        'evaluated before': lambda n, c, k: [lab.call(n, 'process', lab.list([0.5, 0.25, 0.75, 1.0])), lab.call(inlist(n), 'process', data('float32', c), k)][1],
    }
    LESS = {'a tuple of values', 'verbose by keyword', 'the node itself, verbose', 'a verbose group', 'the group itself', 'beside an empty group', 'written before'}

    def one(e, idx):
        nm = e.name

        def go():
            c = 4 if idx % 2 or e.cls == 'Matrix' else 3
            base = lab.run(lambda: lab.call(inlist(e.mk()), 'process', data('float32', c), c), e.facts)
            ck.analysed(lab)
            if base.v is None:
                return ck.no_raise(nm + ' | plain evaluation', base, e.ranges)
            if base.unmod:
                return ck.unknown(nm, 'unmodelled: %s' % (base.unmod[:2],))
            names = sorted(ROUTES)
            if not deep:
                less = sorted(LESS)
                names = [n for n in names if n not in LESS] + [less[idx % len(less)], less[(idx + 3) % len(less)]]
            for w in names:
                r = lab.run(lambda: ROUTES[w](e.mk(), c, c), e.facts)
                ck.analysed(lab)
                con = e.cls + '.process'
                if not ck.no_raise('%s | %s | no exception' % (nm, w), r, e.ranges, [lab.exc_name(x) for x in base.raises]) or r.v is None:
                    continue
                if r.unmod:
                    ck.unknown('%s | %s' % (nm, w), 'unmodelled: %s' % (r.unmod[:2],))
                    continue
                ck.equal('%s | %s | number of values' % (nm, w), con, r.length(r.v), Const(c), r.facts)
                for i in range(c):
                    ck.equal('%s | %s | channel %d' % (nm, w, i), con, r.item(r.v, i), base.item(base.v, i), r.facts, e.ranges, 60)
        return functools.partial(ck.scenario, nm, go)
    for i, e in enumerate(E):
        jobs.append(one(e, i))

    # a node that was set, used and set again behaves like one that was set once
    D3 = [2, 2, 2, 3]

    def v3(n, t):
        return [S('%s%s%d' % (n, t, i)) for i in range(3)]

    def rset(n, t):
        for w, m in (('a', 'setMinInValue'), ('b', 'setMaxInValue'), ('c', 'setMinOutValue'), ('d', 'setMaxOutValue')):
            lab.call(n, m, S(w + t))

    def mset(n, t):
        if t == 'u':
            lab.call(n, 'setMatrix', lab.list([3, 4, 3]), lab.list([S('m%s%d' % (t, i)) for i in range(12)]))
        else:
            lab.call(n, 'setMatrix', lab.list([3, 3, 3]), lab.list([S('m%s%d' % (t, i)) for i in range(9)]))

    def cset(n, t):
        for k, m in (('s', 'setSlope'), ('o', 'setOffset'), ('p', 'setPower')):
            lab.call(n, m, *v3(k, t))
        lab.call(n, 'setSaturation', S('sat' + t))

    def gset(n, t):
        lab.call(n, 'setGamma', S('g' + t), S('o%s0' % t))

    def gset1(n, t):
        for c in 'RGB':
            lab.call(n, 'setGamma', S('g%s%s' % (t, c)), 0.0, c)

    def lset(n, t):
        lab.call(n, 'setLogParams', S('g' + t), S('w' + t), S('k' + t), S('h' + t), S('l' + t))

    def eset(n, t):
        lab.call(n, 'setExposureContrastPivot', S('e' + t), S('c' + t), S('v' + t))

    def l1set(n, t):
        k = 2 if t == 'u' else 3
        lab.call(n, 'setArray', 3, lab.list([S('t%s%d' % (t, i)) for i in range(3 * k)]))

    def l3set(n, t):
        d = (2, 2, 2) if t == 'u' else (2, 3, 2)
        lab.call(n, 'setArray', lab.list(list(d)), lab.list([S('t%s%d' % (t, i)) for i in range(d[0] * d[1] * d[2] * 3)]))

    def imap(n, t):
        its = ([-.5, 0.0, .25, .5, 2.0, 1.0], [0.0, 0.0, .75, .5, 1.0, 1.0])[t == 'w']
        lab.call(n, 'setIndexMaps', lab.list(its))
        if t == 'u':
            lab.call(n, 'setArray', 3, lab.list([S('t%d' % i) for i in range(6)]))

    def attr(k, vals):
        def f(n, t):
            lab.call(n, 'setAttribute', k, vals[t == 'w'])
        return f
    RG = {'x': (-.4, 1.4, -5, 300)}
    for t in 'uw':
        RG.update({'a' + t: (-.1, .3), 'b' + t: (.6, 1.2), 'c' + t: (-.1, .3), 'd' + t: (.6, 1.2), 'sat' + t: (.4, 1.6), 'g' + t: (.5, .9), 'w' + t: (600, 700), 'k' + t: (80, 110), 'h' + t: (.9, 1.2), 'l' + t: (0.0, .001), 'e' + t: (-1, 1), 'c' + t: (.2, .8), 'v' + t: (.2, .9)})
        for i in range(3):
            RG.update({'s%s%d' % (t, i): (.5, 2), 'o%s%d' % (t, i): (-.2, .2), 'p%s%d' % (t, i): (.5, 2), 'g%s%s' % (t, 'RGB'[i]): (.5, 2)})
    AGAIN = [
        ('Range', 'clamp', lambda: lab.new('Range', '16f', '16f', 'i', 'n', 'clamp'), rset, (), [('a', 'b'), ('c', 'd')]),
        ('Range', 'noClamp', lambda: lab.new('Range', '16f', '16f', 'i', 'n', 'noClamp'), rset, (), [('a', 'b'), ('c', 'd')]),
        ('Matrix', '', lambda: lab.new('Matrix', '16f', '16f', 'i', 'n'), mset, (), []),
        ('ASCCDL', 'Fwd', lambda: lab.new('ASCCDL', '16f', '16f', 'i', 'n', 'Fwd'), cset, ('s%s0', 's%s1', 's%s2', 'p%s0', 'p%s1', 'p%s2', 'sat%s'), []),
        ('ASCCDL', 'RevNoClamp', lambda: lab.new('ASCCDL', '16f', '16f', 'i', 'n', 'RevNoClamp'), cset, ('s%s0', 's%s1', 's%s2', 'p%s0', 'p%s1', 'p%s2', 'sat%s'), []),
        ('Gamma', 'basicFwd', lambda: lab.new('Gamma', '16f', '16f', 'i', 'n', 'basicFwd'), gset, ('g%s',), []),
        ('Gamma', 'basicRev', lambda: lab.new('Gamma', '16f', '16f', 'i', 'n', 'basicRev'), gset1, ('g%sR', 'g%sG', 'g%sB'), []),
        ('Log', 'linToLog', lambda: lab.new('Log', '16f', '16f', 'i', 'n', 'linToLog'), lset, ('g%s', 'w%s', 'k%s', 'h%s', 'l%s'), []),
        ('ExposureContrast', 'linear', lambda: lab.new('ExposureContrast', '16f', '16f', 'i', 'n', 'linear'), eset, ('c%s', 'v%s'), []),
        ('ExposureContrast', 'video', lambda: lab.new('ExposureContrast', '16f', '16f', 'i', 'n', 'video'), eset, ('c%s', 'v%s'), []),
        ('LUT1D', '', lambda: lab.new('LUT1D', '16f', '16f', 'i', 'n'), l1set, (), []),
        ('LUT3D', 'trilinear', lambda: lab.new('LUT3D', '16f', '16f', 'i', 'n'), l3set, (), []),
        ('LUT1D', 'index map', lambda: lab.new('LUT1D', '16f', '16f', 'i', 'n'), imap, (), []),
        ('Range', 'style', lambda: lab.new('Range', '10i', '12i', 'i', 'n'), attr('style', ('clamp', 'noClamp')), (), []),
        ('Log', 'style', lambda: lab.new('Log', '16f', '16f', 'i', 'n', 'log2ToLin'), attr('style', ('lin2Log', 'log10ToLin')), (), []),
        ('Range', 'input depth', lambda: lab.new('Range', '10i', '12i', 'i', 'n', 'noClamp'), attr('inBitDepth', ('8i', '16i')), (), []),
    ]

    def again(cls, what, mk, sets, positive, order, how):
        nm = '%s %s set again, %s' % (cls, what, how)

        def go():
            fs = [compare('gt', S(p % t), Const(0.0)) for p in positive for t in 'uw'] + [compare('lt', S(lo + t), S(hi + t)) for lo, hi in order for t in 'uw']

            def fresh():
                n = mk()
                if what == 'index map':
                    lab.call(n, 'setArray', 3, lab.list([S('t%d' % i) for i in range(6)]))
                sets(n, 'w')
                return n

            def used():
                n = mk()
                sets(n, 'u')
                if how == 'in a list':
                    pl = inlist(n)
                    lab.call(pl, 'process', data('list', 3), 3)
                    sets(n, 'w')
                    return lab.call(pl, 'process', data('list', 3), 3)
                lab.call(n, 'process', data('float32', 3), 3)
                if how == 'after writing':
                    lab.call(inlist(n), 'write')
                sets(n, 'w')
                return lab.call(n, 'process', data('float32', 3), 3)
            a = lab.run(lambda: lab.call(fresh(), 'process', data('float32', 3), 3), fs)
            b = lab.run(used, fs)
            ck.analysed(lab)
            con = cls + '.process'
            if a.v is None or not ck.no_raise(nm + ' | no exception', b, RG, [lab.exc_name(x) for x in a.raises], construct=con) or b.v is None:
                return
            if a.unmod or b.unmod:
                return ck.unknown(nm, 'unmodelled: %s' % ((a.unmod + b.unmod)[:2],))
            for i in range(3):
                ck.equal('%s | channel %d' % (nm, i), con, b.item(b.v, i), a.item(a.v, i), b.facts, RG, 60)
        return functools.partial(ck.scenario, nm, go)
    for w in AGAIN:
        for how in ('in a list', 'by itself', 'after writing'):
            jobs.append(again(*(w + (how,))))
    ck.parallel(jobs)
    return ck.finish('Every node kind of the zoo with symbolic parameters on a symbolic pixel: containers, verbosity, groups, direct calls and earlier operations against plain evaluation.',
                     ['results are compared as real numbers: the single-precision cast of a process list is not visible to a node called directly'], floor=1000)


if __name__ == '__main__':
    main(run)
