import functools, itertools
from common import *

LIM = ['minInValue', 'maxInValue', 'minOutValue', 'maxOutValue']


def val(nm, ty='float'):
    return sym(nm, ty)


def spec(present, clampit, default, ind, outd, ty):
    def f(px, c):
        x = norm_in(px(c), ind)
        v = {}
        for nm in LIM:
            if nm in present:
                v[nm] = as_float(val(nm, ty)) / Const(FACTOR[ind if 'In' in nm else outd])
            elif default:
                v[nm] = Const(0.0 if nm.startswith('min') else 1.0)
        lo = 'minInValue' in v and 'minOutValue' in v
        hi = 'maxInValue' in v and 'maxOutValue' in v
        if lo and hi:
            y = (x - v['minInValue']) * (v['maxOutValue'] - v['minOutValue']) / (v['maxInValue'] - v['minInValue']) + v['minOutValue']
            if clampit:
                y = tmin(tmax(y, v['minOutValue']), v['maxOutValue'])
        elif lo:
            y = x + v['minOutValue'] - v['minInValue']
            if clampit:
                y = tmax(y, v['minOutValue'])
        elif hi:
            y = x + v['maxOutValue'] - v['maxInValue']
            if clampit:
                y = tmin(y, v['maxOutValue'])
        else:
            y = x
        return norm_out(y, outd)
    return f


def run(tier):
    ck = Check('C06', tier, 'value graph of Range.process equals the range definition for every presence combination')
    lab = Lab()
    jobs = []
    styles = [('', True), ('clamp', True), ('noClamp', False)]
    subsets = [tuple(n for n, b in zip(LIM, bits) if b) for bits in itertools.product((0, 1), repeat=4)]
    depths = [('16f', '16f'), ('10i', '8i'), ('8i', '32f')] if tier == 'quick' else [(a, b) for a in DEPTHS for b in DEPTHS]
    n = 0
    for sub in subsets:
        for style, cl in styles:
            for default in (None, True, False, 'viaSetter', 'cleared'):
                n += 1
                dd = depths if tier != 'quick' else [depths[n % 3]]
                for ind, outd in dd:
                    for ty in (('float', 'int') if (tier != 'quick' or n % 4 == 0) else ('float',)):
                        def mk(style=style, sub=sub, default=default, ind=ind, outd=outd, ty=ty):
                            r = lab.new('Range', ind, outd, 'id', 'nm', style, default if default in (True, False) else None)
                            if default == 'viaSetter':
                                lab.call(r, 'setDefaultRange', True)
                            elif default == 'cleared':
                                lab.call(r, 'setDefaultRange', True)
                                lab.call(r, 'setDefaultRange', False)
                            for s in sub:
                                lab.call(r, 'set' + s[0].upper() + s[1:], val(s, ty))
                            return r
                        rg = {'x': xrange_of(ind)}
                        facts = []
                        for s in LIM:
                            f = FACTOR[ind if 'In' in s else outd]
                            rg[s] = (0 if 'min' in s else .5 * f, .4 * f if 'min' in s else 1.3 * f, -3 * f, 9 * f) if ty == 'float' else (0 if 'min' in s else max(2, int(.5 * f)), max(1, int(.4 * f)) if 'min' in s else max(3, int(1.3 * f)))
                        df = default in (True, 'viaSetter')
                        g = {s: (as_float(val(s, ty)) if s in sub else Const(0.0 if s[:3] == 'min' else FACTOR[ind if 'In' in s else outd])) for s in LIM if s in sub or df}
                        if 'minInValue' in g and 'maxInValue' in g:
                            facts.append(compare('lt', g['minInValue'], g['maxInValue']))
                        if 'minOutValue' in g and 'maxOutValue' in g:
                            facts.append(compare('le', g['minOutValue'], g['maxOutValue']))
                        facts = [f for f in facts if not isinstance(f, Const)]
                        lay = [Layout(3, 1, True)] if tier == 'quick' and n % 5 else [Layout(4, 1), Layout(3, N)]
                        jobs.append(functools.partial(check_pixels, ck, lab, 'Range style %r, limits %s, defaultRange %s, %s to %s, %s limits' % (style, '+'.join(sub) or 'none', default, ind, outd, ty),
                                                      'Range.process', mk, spec(sub, cl, df, ind, outd, ty), lay, rg, facts, (), 'f4', 200))
                        if n % 4 == 1 or tier != 'quick':
                            jobs.append(functools.partial(check_pixels, ck, lab, 'read back: Range style %r, limits %s, defaultRange %s, %s to %s, %s limits' % (style, '+'.join(sub) or 'none', default, ind, outd, ty),
                                                          'Range.process', reread(lab, mk), spec(sub, cl, df, ind, outd, ty), [Layout(4, 1)], rg, facts, (), 'f4', 200))

    # the flag as the reader stores it (text)
    for text, df in (('True', True), ('true', True)):
        def mk(text=text):
            r = lab.new('Range', '16f', '16f', 'id', 'nm')
            lab.call(r, 'setAttribute', 'defaultRange', text)
            return r
        jobs.append(functools.partial(check_pixels, ck, lab, 'Range defaultRange text %r' % text, 'Range.process', mk, spec((), True, df, '16f', '16f', 'float'), [Layout(3, 1, True)], {'x': (-.5, 1.5, -90, 70000)}))
    # setter replaces the style
    for style, cl in (('clamp', True), ('noClamp', False)):
        def mk(style=style):
            r = lab.new('Range', '16f', '16f', 'id', 'nm', 'noClamp' if style == 'clamp' else 'clamp')
            lab.call(r, 'setStyle', style)
            for s in LIM:
                lab.call(r, 'set' + s[0].upper() + s[1:], val(s))
            return r
        jobs.append(functools.partial(check_pixels, ck, lab, 'Range setStyle %r' % style, 'Range.setStyle', mk, spec(tuple(LIM), cl, False, '16f', '16f', 'float'), [Layout(3, 1, True)],
                                      {'x': (-.5, 1.5, -90, 70000), 'minInValue': (0, .3), 'maxInValue': (.5, 1), 'minOutValue': (0, .3), 'maxOutValue': (.5, 1)},
                                      [sym('minInValue').lt(sym('maxInValue')), sym('minOutValue').le(sym('maxOutValue'))]))
    ck.parallel(jobs)
    return ck.finish('All 16 limit-presence combinations x style (absent, clamp, noClamp) x default-range flag x bit-depth pairs x float/int limits, symbolic limit values and samples.', floor=200)


if __name__ == '__main__':
    main(run)
