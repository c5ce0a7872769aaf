import functools, math
from common import *


def log10(v):
    return ln_(v) / Const(math.log(10.0))


def curve(style, x, e, c, p):
    gain = exp_(e * Const(math.log(2.0)))
    z = Const(0.0)
    if style == 'linear':
        return p * power(tmax(gain * x / p, z), c)
    if style == 'video':
        k = Const(1.0 / 1.83)
        return power(p, k) * power(tmax(x * power(gain / p, k), z), c)
    q = Const(0.6 / 2.046)
    m = log10(p / 0.9) * q + Const(685.0 / 1023.0)
    return (x + e * Const(math.log10(2.0)) * q - m) * c + m


def run(tier):
    ck = Check('C10', tier, 'value graph of ExposureContrast.process equals the formula of each style')
    lab = Lab()
    jobs = []
    depths = [('16f', '16f'), ('8i', '12i')] if tier == 'quick' else [(a, b) for a in DEPTHS for b in DEPTHS]
    for style in ('linear', 'video', 'log'):
        for nm in ('set', 'defaults', 'set twice', 'integers'):
            ty = 'int' if nm == 'integers' else 'float'
            e, c, p = [sym(n, ty) for n in ('exposure', 'contrast', 'pivot')]
            for d, (ind, outd) in enumerate(depths):
                if tier == 'quick' and d and nm != 'set':
                    continue

                def mk(style=style, nm=nm, ind=ind, outd=outd, a=(e, c, p)):
                    n = lab.new('ExposureContrast', ind, outd, 'id', 'nm', style)
                    if nm == 'set twice':
                        lab.call(n, 'setExposureContrastPivot', 2.0, 3.0, 4.0)
                    if nm != 'defaults':
                        lab.call(n, 'setExposureContrastPivot', *a)
                    return n
                v = (Const(0.0), Const(1.0), Const(1.0)) if nm == 'defaults' else tuple(as_float(x) for x in (e, c, p))

                def spec(px, ch, style=style, v=v, ind=ind, outd=outd):
                    if ch >= 3:
                        return px(ch)
                    return norm_out(curve(style, norm_in(px(ch), ind), *v), outd)
                rg = {'x': xrange_of(ind), 'exposure': (-2, 2, -9, 9), 'contrast': (.5, 2, .02, 9) if ty == 'float' else (1, 3), 'pivot': (.1, .9, .004, 40) if ty == 'float' else (1, 3)}
                facts = [p.gt(0), c.gt(0)] if nm != 'defaults' else []
                lay = (LAYOUTS if d == 0 and nm == 'set' else [Layout(4, N), Layout(5, 2)]) if tier == 'quick' else LAYOUTS_DEEP
                jobs.append(functools.partial(check_pixels, ck, lab, 'ExposureContrast %s, %s, %s to %s' % (style, nm, ind, outd), 'ExposureContrast.process', mk, spec, lay, rg, facts))
                if d == 0 or tier != 'quick':
                    jobs.append(functools.partial(check_pixels, ck, lab, 'read back: ExposureContrast %s, %s, %s to %s' % (style, nm, ind, outd), 'ExposureContrast.process', reread(lab, mk), spec, [Layout(4, 1)], rg, facts))
    ck.parallel(jobs)
    return ck.finish('Every exposure/contrast style, parameter history, bit-depth pair; symbolic parameters and pixels.', floor=12)


if __name__ == '__main__':
    main(run)
