import functools
from common import *

STYLES = {'Fwd': 'Fwd', 'v1.2_Fwd': 'Fwd', 'FwdNoClamp': 'FwdNoClamp', 'noClampFwd': 'FwdNoClamp',
          'Rev': 'Rev', 'v1.2_Rev': 'Rev', 'RevNoClamp': 'RevNoClamp', 'noClampRev': 'RevNoClamp'}
W = [Const(0.2126), Const(0.7152), Const(0.0722)]


def params(present):
    s = [sym('slope_' + c) if 'slope' in present else Const(1.0) for c in RGB]
    o = [sym('offset_' + c) if 'offset' in present else Const(0.0) for c in RGB]
    p = [sym('power_' + c) if 'power' in present else Const(1.0) for c in RGB]
    t = sym('saturation') if 'saturation' in present else Const(1.0)
    return s, o, p, t


def facts_of(present):
    s, o, p, t = params(present)
    return [v.gt(0) for v in s + p + [t] if not isinstance(v, Const)]


def spec(style, present, ind, outd):
    s, o, p, sat = params(present)
    st = STYLES[style]

    def powsafe(v, e):
        return ite(v.lt(0), v, power(v, e))

    def f(px, c):
        if c >= 3:
            return px(c)
        x = [norm_in(px(i), ind) for i in range(3)]
        if st == 'Fwd':
            y = [power(clamp01(x[i] * s[i] + o[i]), p[i]) for i in range(3)]
        elif st == 'FwdNoClamp':
            y = [powsafe(x[i] * s[i] + o[i], p[i]) for i in range(3)]
        elif st == 'Rev':
            y = [clamp01(v) for v in x]
        else:
            y = x
        luma = W[0] * y[0] + W[1] * y[1] + W[2] * y[2]
        if st == 'Fwd':
            r = clamp01(luma + sat * (y[c] - luma))
        elif st == 'FwdNoClamp':
            r = luma + sat * (y[c] - luma)
        elif st == 'Rev':
            z = clamp01(luma + (y[c] - luma) / sat)
            r = clamp01((power(z, Const(1.0) / p[c]) - o[c]) / s[c])
        else:
            z = luma + (y[c] - luma) / sat
            r = (powsafe(z, Const(1.0) / p[c]) - o[c]) / s[c]
        return norm_out(r, outd)
    return f


def run(tier):
    ck = Check('C05', tier, 'value graph of ASCCDL.process equals the published CDL formula of each style')
    lab = Lab()
    ALL = ('slope', 'offset', 'power', 'saturation')
    combos = [ALL, (), ('slope',), ('offset', 'power'), ('saturation',)]
    rg = {}
    for c in RGB:
        rg['slope_' + c] = (.4, 2, .02, 20)
        rg['offset_' + c] = (-.4, .4, -3, 3)
        rg['power_' + c] = (.4, 2.5, .1, 6)
    rg['saturation'] = (.3, 2, .05, 8)

    def mk(style, present, ind, outd):
        s, o, p, t = params(present)

        def f():
            n = lab.new('ASCCDL', ind, outd, 'id', 'name', style)
            if 'slope' in present:
                lab.call(n, 'setSlope', *s)
            if 'offset' in present:
                lab.call(n, 'setOffset', *o)
            if 'power' in present:
                lab.call(n, 'setPower', *p)
            if 'saturation' in present:
                lab.call(n, 'setSaturation', t)
            return n
        return f
    depths = [('16f', '16f'), ('8i', '12i'), ('10i', '32f')] if tier == 'quick' else [(a, b) for a in DEPTHS for b in DEPTHS]
    jobs = []
    for style in STYLES:
        for j, present in enumerate(combos):
            for d, (ind, outd) in enumerate(depths):
                if tier == 'quick' and j and d != j % len(depths):
                    continue
                lay = (LAYOUTS if d == 0 and j == 0 else [Layout(4, N)]) if tier == 'quick' else (LAYOUTS_DEEP if d < 3 else [Layout(4, 2), Layout(3, N)])
                r = dict(rg)
                r['x'] = xrange_of(ind)
                jobs.append(functools.partial(check_pixels, ck, lab, 'CDL %s with %s, %s to %s' % (style, '+'.join(present) or 'no parameters', ind, outd), 'ASCCDL.process',
                             mk(style, present, ind, outd), spec(style, present, ind, outd), lay, r, facts_of(present)))
                if d == 0 or tier != 'quick':
                    jobs.append(functools.partial(check_pixels, ck, lab, 'read back: CDL %s with %s, %s to %s' % (style, '+'.join(present) or 'no parameters', ind, outd), 'ASCCDL.process',
                                 reread(lab, mk(style, present, ind, outd)), spec(style, present, ind, outd), [Layout(4, 1)], r, facts_of(present)))
    ck.parallel(jobs)
    return ck.finish('Every CDL style, parameter-presence combination and bit-depth pair: the value graph extracted from ASCCDL.process for a symbolic '
                     'pixel buffer (fixed and symbolic pixel counts) is proved equal to the published formula.', floor=50)


if __name__ == '__main__':
    main(run)
