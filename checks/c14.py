import functools
from common import *
from clfstatic import terms as T
import c11, c12, c13


def knots(n, tag):
    return [sym('in%s%d' % (tag, i)) for i in range(n)], [sym('out%s%d' % (tag, i)) for i in range(n)]


def facts_of(ins):
    return [compare('lt', a, b) for a, b in zip(ins, ins[1:])]


def ranges(n, tag, f=1.0):
    r = {}
    for i in range(n):
        r['in%s%d' % (tag, i)] = (i * f / n, (i + .9) * f / n)
        r['out%s%d' % (tag, i)] = (-1, 6)
    return r


def plin(x, ins, outs):
    r = outs[-1]
    for i in range(len(ins) - 2, -1, -1):
        w = (x - ins[i]) / (ins[i + 1] - ins[i])
        r = ite(compare('le', x, ins[i + 1]), outs[i] + w * (outs[i + 1] - outs[i]), r)
    return ite(compare('le', x, ins[0]), outs[0], r)


def imap(lab, ins, outs):
    return lab.list([lab.list(ins), lab.list(outs)])


def run(tier):
    ck = Check('C14', tier, 'value graph of index map evaluation equals the clamped piecewise linear map; LUT nodes apply the map of the channel and normalise by the axis')
    lab = Lab()
    jobs = []
    deep = tier != 'quick'
    x = sym('x')
    for n in (2, 3, 4, 5, 7) if not deep else (2, 3, 4, 5, 6, 7, 8, 10, 12):
        for how in ('constructor', 'setters'):
            def go(n=n, how=how):
                ins, outs = knots(n, '')
                rg = ranges(n, '')
                rg['x'] = (-.5, 1.5)
                nm = 'index map of %d points by %s' % (n, how)

                def mk():
                    if how == 'constructor':
                        return lab.new('IndexMap', n, imap(lab, ins, outs))
                    m = lab.new('IndexMap')
                    lab.call(m, 'setDimension', n)
                    lab.call(m, 'setValues', imap(lab, ins, outs))
                    return m
                r = lab.run(lambda: lab.call(mk(), 'process', x), facts_of(ins))
                ck.analysed(lab)
                if ck.no_raise(nm + ' | no exception', r, rg) or r.v is not None:
                    ck.equal(nm + ' | value', 'IndexMap.process', r.v, plin(x, ins, outs), r.facts, rg)
                for t in ('nan', 'inf', '-inf'):
                    v = float(t)
                    r = lab.run(lambda: lab.call(mk(), 'process', v), facts_of(ins))
                    if not ck.no_raise(nm + ' | no exception for ' + t, r, rg) and r.v is None:
                        continue
                    if isinstance(r.v, Const) and (r.v.v == v or (v != v and r.v.v != r.v.v)):
                        ck.ok('%s | %s' % (nm, t))
                    elif has_unk(wrap(r.v)):
                        ck.unknown('%s | %s' % (nm, t), short(r.v, 80))
                    else:
                        ck.fail('%s | %s' % (nm, t), 'IndexMap.process', 'result %s' % short(r.v, 80))
                # at the knots and beyond
                for i in range(n):
                    r = lab.run(lambda: lab.call(mk(), 'process', ins[i]), facts_of(ins))
                    if r.v is not None:
                        ck.equal('%s | at point %d' % (nm, i), 'IndexMap.process', r.v, outs[i], r.facts, rg)
            jobs.append(functools.partial(ck.scenario, 'index map %d' % n, go))

    # replacing the values of an evaluated map
    def replaced():
        ins, outs = knots(3, '')
        in2, out2 = knots(4, 'b')
        rg = dict(ranges(3, ''), **ranges(4, 'b'))
        rg['x'] = (-.5, 1.5)

        def th():
            m = lab.new('IndexMap', 3, imap(lab, ins, outs))
            lab.call(m, 'process', x)
            lab.call(m, 'setDimension', 4)
            lab.call(m, 'setValues', imap(lab, in2, out2))
            return lab.call(m, 'process', x)
        r = lab.run(th, facts_of(ins) + facts_of(in2))
        if ck.no_raise('values replaced | no exception', r, rg):
            ck.equal('values replaced | value', 'IndexMap.setValues', r.v, plin(x, in2, out2), r.facts, rg)
    jobs.append(functools.partial(ck.scenario, 'replaced', replaced))

    def lut(kind, maps, n, dims, lay, ind, interp=None):
        f = FACTOR[ind]
        tags = ['R', 'G', 'B'][:maps] if maps == 3 else ['']
        ks = {t: knots(n + j, t) for j, t in enumerate(tags)}
        rg = {'x': (-.3 * f, 1.3 * f), 't': (0, 1)}
        facts = []
        for j, t in enumerate(tags):
            rg.update(ranges(n + j, t, f))
            for i in range(n + j):
                rg['out%s%d' % (t, i)] = (i * .8, i * .8 + .7)
            facts += facts_of(ks[t][0])

        def mk():
            if kind == '1D':
                l = lab.new('LUT1D', ind, '16f', 'id', 'nm')
                lab.call(l, 'setIndexMaps', *[imap(lab, *ks[t]) for t in tags])
                lab.call(l, 'setArray', dims[1], lab.nlist('t', Const(dims[0] * dims[1])))
            else:
                l = lab.new('LUT3D', ind, '16f', 'id', 'nm', interp or 'trilinear')
                lab.call(l, 'setIndexMaps', *[imap(lab, *ks[t]) for t in tags])
                lab.call(l, 'setArray', lab.list(list(dims)), lab.nlist('t', Const(dims[0] * dims[1] * dims[2] * 3)))
            return l

        def sp(px, c):
            if c >= 3:
                return px(c)
            m = lambda i: plin(px(i), *ks[tags[i] if maps == 3 else ''])
            if kind == '1D':
                return c11.linear(m(c) / Const(float(dims[0] - 1)), dims[0], dims[1], c)
            p = [m(i) / Const(float(dims[i] - 1)) for i in range(3)]
            return (c12.tetrahedral if interp == 'tetrahedral' else c12.trilinear)(p, dims, c)
        return functools.partial(check_pixels, ck, lab, '%s LUT %s with %d index map(s) of %d points, %s' % (kind, 'x'.join(map(str, dims)), maps, n, ind), 'LUT%s.process' % kind, mk, sp, lay, rg, facts, (), 'f4', 200)
    one = [Layout(3, 1, True)]
    for maps in (1, 3):
        for n in ((2, 3) if not deep else (2, 3, 4)):
            for cols in (1, 3):
                jobs.append(lut('1D', maps, n, (5 + n, cols), one if n > 2 else [Layout(4, 2)], ('16f', '10i')[cols // 2]))
    # the full three-map 3D graphs multiply segment choices with cell corners: evaluated at probe pixels of one varying channel
    def lut3(maps, dims, interp, ch, n=2):
        f = 1.0
        tags = ['R', 'G', 'B'] if maps == 3 else ['']
        consts = {'R': (0.25, 1.75), 'G': (1.0, 2.5), 'B': (0.5, 3.25), '': (0.5, 1.75)}
        ks = {t: (knots(n, t)[0], [Const(v) for v in consts[t]]) for t in tags}
        rg = {'x': (-.3, 1.3), 't': (0, 1)}
        facts = []
        for t in tags:
            rg.update(ranges(n, t))
            facts += facts_of(ks[t][0])
        nm = '3D LUT %s, %s, %d index map(s), varying channel %d' % ('x'.join(map(str, dims)), interp, maps, ch)

        def go():
            def th():
                l = lab.new('LUT3D', '16f', '16f', 'id', 'nm', interp)
                lab.call(l, 'setIndexMaps', *[imap(lab, *ks[t]) for t in tags])
                lab.call(l, 'setArray', lab.list(list(dims)), lab.nlist('t', Const(dims[0] * dims[1] * dims[2] * 3)))
                px = [ks[tags[i] if maps == 3 else ''][0][0] if i != ch else x for i in range(3)]
                return lab.call(l, 'process', lab.list(px + [sym('alpha')]), 4)
            fs = list(facts)
            r = lab.run(th, fs)
            ck.analysed(lab)
            if not ck.no_raise(nm + ' | no exception', r, rg) and r.v is None:
                return
            for c in range(3):
                p = []
                for i in range(3):
                    kin, kout = ks[tags[i] if maps == 3 else '']
                    p.append((plin(x, kin, kout) if i == ch else kout[0]) / Const(float(dims[i] - 1)))
                ck.equal('%s | channel %d' % (nm, c), 'LUT3D.process', r.item(r.v, c), (c12.tetrahedral if interp == 'tetrahedral' else c12.trilinear)(p, dims, c), r.facts, rg, 150)
        return functools.partial(ck.scenario, nm, go)
    for maps in (1, 3):
        for ch in range(3):
            for interp in ('trilinear', 'tetrahedral') if deep or ch == maps % 3 else ('trilinear',):
                jobs.append(lut3(maps, (3, 4, 5), interp, ch))
    # cached evaluation agrees with the map at every half-precision value, whatever happened before
    def cached(how, n):
        ins, outs = knots(n, '')
        in2, out2 = knots(n + 1, 'b')
        rg = dict(ranges(n, ''), **ranges(n + 1, 'b'))
        rg['p'] = (0, 31743)
        nm = 'cached index map of %d points, %s' % (n, how)
        new = how.startswith('values replaced')

        def mk():
            if how == 'by constructor':
                return lab.new('IndexMap', n, imap(lab, ins, outs), useCachedProcess=True)
            if how == 'by setters':
                m = lab.new('IndexMap', useCachedProcess=True)
                lab.call(m, 'setDimension', n)
                lab.call(m, 'setValues', imap(lab, ins, outs))
                return m
            m = lab.new('IndexMap', n, imap(lab, ins, outs))
            lab.call(m, 'setuseCachedProcess', True)
            if how == 'switched on':
                return m
            lab.call(m, 'process', 0.25)
            if how == 'switched off':
                lab.call(m, 'setuseCachedProcess', False)
                return m
            if how.endswith('while off'):
                lab.call(m, 'setuseCachedProcess', False)
            if how.endswith('by reading'):
                e = lab.callx('etree.Element', 'IndexMap')
                lab.call(e, 'set', 'dim', str(n + 1))
                I = lab.I
                I.setattr(e, 'text', lab.call(wrap(' '), 'join', lab.list([lab.call(wrap('@'), 'join', lab.list([lab.callx('builtins.repr', a), lab.callx('builtins.repr', b)])) for a, b in zip(in2, out2)])))
                lab.call(m, 'read', e)
            else:
                lab.call(m, 'setDimension', n + 1)
                lab.call(m, 'setValues', imap(lab, in2, out2))
            if how.endswith('while off'):
                lab.call(m, 'setuseCachedProcess', True)
            return m
        a, b = (in2, out2) if new else (ins, outs)

        def go():
            P = sym('p', 'int', lo=0, hi=65535)
            for sign, lo, hi in (('positive', 0, 31743), ('negative', 32768, 64511)):
                fs = facts_of(ins) + facts_of(in2) + [P.ge(lo), P.le(hi)]
                rg['p'] = (lo, hi)
                h = T.atom('u2h', P)
                r = lab.run(lambda: lab.call(mk(), 'process', lab.fcall('uint16ToHalf', P)), fs)
                ck.analysed(lab)
                if ck.no_raise('%s | %s halfs | no exception' % (nm, sign), r, rg) and r.v is not None:
                    ck.equal('%s | %s halfs | value' % (nm, sign), 'IndexMap.process', r.v, plin(h, a, b), r.facts, rg)
            for t in ('nan', 'inf', '-inf'):
                v = float(t)
                r = lab.run(lambda: lab.call(mk(), 'process', v), facts_of(ins) + facts_of(in2))
                if not ck.no_raise('%s | no exception for %s' % (nm, t), r, rg) and r.v is None:
                    continue
                if isinstance(r.v, Const) and (r.v.v == v or (v != v and r.v.v != r.v.v)):
                    ck.ok('%s | %s' % (nm, t))
                elif isinstance(r.v, Const):
                    ck.fail('%s | %s' % (nm, t), 'IndexMap.process', 'result %s' % short(r.v, 80))
                else:
                    ck.unknown('%s | %s' % (nm, t), short(r.v, 80))
        return functools.partial(ck.scenario, nm, go)
    for how in ('by constructor', 'by setters', 'switched on', 'switched off', 'values replaced', 'values replaced while off', 'values replaced by reading'):
        for n in (2, 3) if not deep else (2, 3, 4, 5):
            jobs.append(cached(how, n))
    ck.parallel(jobs)
    return ck.finish('Index maps of several sizes with symbolic points and a symbolic input, NaN and infinities as constants; 1D and 3D LUT nodes with one and three maps of different sizes.',
                     ['map inputs are strictly increasing'], floor=80)


if __name__ == '__main__':
    main(run)
