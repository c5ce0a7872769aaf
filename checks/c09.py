import functools, math
from common import *

FMIN = Const(1.1754943508222875e-38)
NAMES = ['gamma', 'refWhite', 'refBlack', 'highlight', 'shadow']
DEF = [0.6, 685.0, 95.0, 1.0, 0.0]
RG = {'gamma': (.4, .9, .1, 3), 'refWhite': (600, 800, 200, 3000), 'refBlack': (50, 150, -200, 900), 'highlight': (.8, 1.5, .1, 20), 'shadow': (0, .2, -3, 3)}
IRG = {'gamma': (1, 2), 'refWhite': (600, 800), 'refBlack': (50, 150), 'highlight': (1, 3), 'shadow': (0, 0)}


def log10(v):
    return ln_(v) / Const(math.log(10.0))


def pow10(v):
    return exp_(v * Const(math.log(10.0)))


def curve(style, x, p):
    if style == 'log10':
        return log10(tmax(x, FMIN))
    if style == 'log2':
        return ln_(tmax(x, FMIN)) / Const(math.log(2.0))
    if style == 'antiLog10':
        return pow10(x)
    if style == 'antiLog2':
        return exp_(x * Const(math.log(2.0)))
    g, w, b, h, s = p
    black = pow10(tmin((b - w) * 0.002 / g, Const(-0.00001)))
    gain = (h - s) / (Const(1.0) - black)
    if style == 'logToLin':
        return (pow10((x * 1023.0 - w) * 0.002 / g) - black) * gain + s
    rel = black + (x - s) / gain
    return (w + log10(tmax(rel, FMIN)) * g / 0.002) / 1023.0


def histories():
    return {
        'no parameters': [],
        'one for all': [(None, 'a', 'float')],
        'R G B': [('R', 'r', 'float'), ('G', 'g', 'float'), ('B', 'b', 'float')],
        'only G': [('G', 'g', 'float')],
        'all then B': [(None, 'a', 'float'), ('B', 'b', 'float')],
        'integers': [(None, 'a', 'int')],
    }


def run(tier):
    ck = Check('C09', tier, 'value graph of Log.process equals the published log curve of each style')
    lab = Lab()
    jobs = []
    depths = [('16f', '16f'), ('10i', '12i')] if tier == 'quick' else [(a, b) for a in DEPTHS for b in DEPTHS]
    for style in ('log10', 'log2', 'antiLog10', 'antiLog2', 'logToLin', 'linToLog'):
        cineon = style.startswith('lo') and style.endswith('Lin') or style.startswith('lin')
        for nm, calls in histories().items():
            if not cineon and nm not in ('no parameters', 'only G'):
                continue
            for d, (ind, outd) in enumerate(depths):
                if tier == 'quick' and d and nm not in ('R G B', 'no parameters'):
                    continue
                facts, rg = [], {'x': xrange_of(ind)}
                for ch, k, ty in calls:
                    for n in NAMES:
                        rg['%s_%s' % (n, k)] = RG[n] if ty == 'float' else IRG[n]
                    s = {n: sym('%s_%s' % (n, k), ty) for n in NAMES}
                    facts += [s['gamma'].gt(0), s['refBlack'].lt(s['refWhite']), s['shadow'].lt(s['highlight'])]

                def mk(style=style, calls=calls, ind=ind, outd=outd):
                    n = lab.new('Log', ind, outd, 'id', 'nm', style)
                    for ch, k, ty in calls:
                        a = [sym('%s_%s' % (q, k), ty) for q in NAMES]
                        if ch is not None:
                            a.append(ch)
                        lab.call(n, 'setLogParams', *a)
                    return n
                par = []
                for c in 'RGB':
                    v = [Const(x) for x in DEF]
                    for ch, k, ty in calls:
                        if ch is None or ch == c:
                            v = [as_float(sym('%s_%s' % (q, k), ty)) for q in NAMES]
                    par.append(v)

                def spec(px, c, style=style, par=par, ind=ind, outd=outd):
                    if c >= 3:
                        return px(c)
                    return norm_out(curve(style, norm_in(px(c), ind), par[c]), outd)
                lay = (LAYOUTS if d == 0 and nm == 'R G B' else [Layout(4, N)]) if tier == 'quick' else (LAYOUTS_DEEP if d == 0 else [Layout(4, N), Layout(3, 2)])
                if not cineon:
                    lay = LAYOUTS if d == 0 else [Layout(4, N)]
                jobs.append(functools.partial(check_pixels, ck, lab, 'Log %s, %s, %s to %s' % (style, nm, ind, outd), 'Log.process', mk, spec, lay, rg, facts))
                if d == 0 or tier != 'quick':
                    jobs.append(functools.partial(check_pixels, ck, lab, 'read back: Log %s, %s, %s to %s' % (style, nm, ind, outd), 'Log.process', reread(lab, mk), spec, [Layout(4, 1)], rg, facts))
    ck.parallel(jobs)
    return ck.finish('Every log style, parameter history, bit-depth pair; symbolic parameters and pixels.', floor=40)


if __name__ == '__main__':
    main(run)
