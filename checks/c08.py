import functools
from common import *


class P(object):
    """one setGamma call: channel or None, parameter kinds"""


def settings():
    # name -> list of (channel, key, ty)
    return {
        'no parameters': [],
        'one for all': [(None, 'a', 'float')],
        'R G B': [('R', 'r', 'float'), ('G', 'g', 'float'), ('B', 'b', 'float')],
        'only G': [('G', 'g', 'float')],
        'only B': [('B', 'b', 'float')],
        'all then R': [(None, 'a', 'float'), ('R', 'r', 'float')],
        'integer for all': [(None, 'a', 'int')],
        'integer R': [('R', 'r', 'int'), ('B', 'b', 'float')],
    }


def resolved(calls):
    out = []
    for c in 'RGB':
        g, o = Const(1.0), Const(0.0)
        for ch, k, ty in calls:
            if ch is None or ch == c:
                g, o = as_float(sym('g_' + k, ty)), as_float(sym('o_' + k, ty))
        out.append((g, o))
    return out


def curve(style, x, g, o):
    one = Const(1.0)
    if style == 'basicFwd':
        return power(tmax(x, Const(0.0)), g)
    if style == 'basicRev':
        return power(tmax(x, Const(0.0)), one / g)
    if style == 'moncurveFwd':
        brk = o / (g - 1.0)
        lin = x * ((g - 1.0) / o) * power(g * o / ((g - 1.0) * (o + 1.0)), g)
        return ite(x.le(brk), lin, power(tmax((x + o) / (o + 1.0), Const(0.0)), g))
    brk = power(g * o / ((g - 1.0) * (o + 1.0)), g)
    lin = x * power((g - 1.0) / o, g - 1.0) * power((o + 1.0) / g, g)
    return ite(x.le(brk), lin, power(tmax(x, Const(0.0)), one / g) * (o + 1.0) - o)


def run(tier):
    ck = Check('C08', tier, 'value graph of Gamma.process equals the published gamma curve of each style')
    lab = Lab()
    jobs = []
    depths = [('16f', '16f'), ('8i', '12i')] if tier == 'quick' else [(a, b) for a in DEPTHS for b in DEPTHS]
    for style in ('basicFwd', 'basicRev', 'moncurveFwd', 'moncurveRev'):
        mon = style.startswith('mon')
        for nm, calls in settings().items():
            if mon and (not calls or calls[0][0] is not None and len(calls) < 3 and nm != 'integer R'):
                continue
            if mon and nm == 'integer R':
                calls = [(None, 'a', 'float'), ('R', 'r', 'int')]
            for d, (ind, outd) in enumerate(depths):
                if tier == 'quick' and d and nm not in ('R G B', 'one for all'):
                    continue
                facts, rg = [], {'x': xrange_of(ind)}
                for ch, k, ty in calls:
                    g, o = sym('g_' + k, ty), sym('o_' + k, ty)
                    rg['g_' + k] = (1.2, 3, 1.01, 9) if ty == 'float' else (2, 4)
                    rg['o_' + k] = (.02, .5, .001, 3) if ty == 'float' else (1, 3)
                    if mon:
                        facts += [g.gt(1), o.gt(0)]
                    else:
                        facts += [g.gt(0)]
                        if ty == 'float':
                            rg['g_' + k] = (.3, 3, .05, 9)

                def mk(style=style, calls=calls, ind=ind, outd=outd):
                    n = lab.new('Gamma', ind, outd, 'id', 'nm', style)
                    for ch, k, ty in calls:
                        a = [sym('g_' + k, ty), sym('o_' + k, ty)]
                        if ch is None:
                            lab.call(n, 'setGamma', *a)
                        else:
                            lab.call(n, 'setGamma', a[0], a[1], ch)
                    return n
                par = resolved(calls)

                def spec(px, c, style=style, par=par, ind=ind, outd=outd):
                    if c >= 3:
                        return px(c)
                    return norm_out(curve(style, norm_in(px(c), ind), *par[c]), outd)
                lay = (LAYOUTS if d == 0 and nm == 'R G B' else [Layout(4, N)]) if tier == 'quick' else (LAYOUTS_DEEP if d == 0 else [Layout(4, N), Layout(3, 2)])
                jobs.append(functools.partial(check_pixels, ck, lab, 'Gamma %s, %s, %s to %s' % (style, nm, ind, outd), 'Gamma.process', mk, spec, lay, rg, facts))
                if d == 0 or tier != 'quick':
                    jobs.append(functools.partial(check_pixels, ck, lab, 'read back: Gamma %s, %s, %s to %s' % (style, nm, ind, outd), 'Gamma.process', reread(lab, mk), spec, [Layout(4, 1)], rg, facts))
    ck.parallel(jobs)
    return ck.finish('Every gamma style, per-channel/all-channel parameter history, integer and float parameters, bit-depth pair; symbolic parameters and pixels.', floor=40)


if __name__ == '__main__':
    main(run)
