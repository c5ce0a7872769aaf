"""Every kind of process node with its parameter combinations, as builders for scenarios."""
from common import *
from clfstatic import terms as T


class Entry(object):
    def __init__(self, name, cls, mk, facts=(), ranges=None, channels=3, io=True, inplace=False, group=False, run=True):
        self.name, self.cls, self.mk, self.facts, self.ranges, self.io, self.run = name, cls, mk, list(facts), dict(ranges or {}), io, run
        self.channels = channels


def S(n, **k):
    return sym(n, 'float', **k)


def describe(lab, n, texts=('first', 'second')):
    for t in texts:
        lab.call(n, 'addElement', lab.new('Description', t))
    return n


def entries(lab, deep=False, table='rd'):
    E = []

    def add(name, cls, mk, facts=(), ranges=None, **k):
        r = {'x': (-.4, 1.4, -5, 300)}
        r.update(ranges or {})
        E.append(Entry(name, cls, mk, facts, r, **k))

    # ---- ASC CDL
    styles = ['Fwd', 'Rev', 'FwdNoClamp', 'RevNoClamp', 'v1.2_Fwd', 'v1.2_Rev', 'noClampFwd', 'noClampRev']

    def cdl(style, parts, ind='16f', outd='16f', cls='ASCCDL'):
        def mk():
            c = lab.new(cls, ind, outd, 'cdl', 'grade', style)
            if 's' in parts:
                lab.call(c, 'setSlope', S('s0'), S('s1'), S('s2'))
            if 'o' in parts:
                lab.call(c, 'setOffset', S('o0'), S('o1'), S('o2'))
            if 'p' in parts:
                lab.call(c, 'setPower', S('p0'), S('p1'), S('p2'))
            if 't' in parts:
                lab.call(c, 'setSaturation', S('sat'))
            return c
        return mk
    pos = {'s0': (.5, 2, .02, 20), 's1': (.5, 2, .02, 20), 's2': (.5, 2, .02, 20), 'o0': (-.2, .2, -3, 3), 'o1': (-.2, .2, -3, 3), 'o2': (-.2, .2, -3, 3), 'p0': (.5, 2, .1, 6), 'p1': (.5, 2, .1, 6), 'p2': (.5, 2, .1, 6), 'sat': (.4, 1.6, .05, 8)}
    fs = [compare('gt', S(n), Const(0.0)) for n in ('s0', 's1', 's2', 'p0', 'p1', 'p2', 'sat')]
    for i, st in enumerate(styles):
        add('ASC CDL %s' % st, 'ASCCDL', cdl(st, 'sopt', ('16f', '10i')[i % 2], ('16f', '12i')[i % 3 == 1]), fs, pos)
    for parts in ('', 's', 'o', 'p', 't', 'so', 'pt'):
        add('ASC CDL with parameters %r' % parts, 'ASCCDL', cdl('Fwd', parts), fs, pos)
    add('ColorCorrection', 'ColorCorrection', cdl('Fwd', 'sopt', cls='ColorCorrection'), fs, pos, run=False)

    # ---- Range
    def rng(which, style, dr, ind, outd):
        def mk():
            r = lab.new('Range', ind, outd, 'rng', 'limits', style, dr)
            for w, m in (('a', 'setMinInValue'), ('b', 'setMaxInValue'), ('c', 'setMinOutValue'), ('d', 'setMaxOutValue')):
                if w in which:
                    lab.call(r, m, S(w))
            return r
        return mk
    rr = {'a': (-.1, .3, -40, 40), 'b': (.6, 1.2, -40, 400), 'c': (-.1, .3, -40, 40), 'd': (.6, 1.2, -40, 400)}
    rf = [compare('lt', S('a'), S('b')), compare('lt', S('c'), S('d')), compare('lt', S('a'), Const(1.0)), compare('gt', S('b'), Const(0.0))]
    for which in ('abcd', 'ac', 'bd', 'ab', 'a', '') if not deep else [''.join(w for k, w in enumerate('abcd') if m >> k & 1) for m in range(16)]:
        for style in ('', 'clamp', 'noClamp'):
            for dr in (None, True):
                if not deep and dr and style == 'clamp':
                    continue
                f = FACTOR['10i']
                add('Range %s style %r default %s' % (which or 'empty', style, dr), 'Range', rng(which, style, dr, '16f', '16f'), rf, rr)
    add('Range depths', 'Range', rng('abcd', 'noClamp', None, '8i', '12i'), rf, rr)

    # ---- Matrix
    def mat(dims, ind, outd, enc, ty='float'):
        def mk():
            m = lab.new('Matrix', ind, outd, 'mat', 'matrix')
            n = dims[0] * dims[1]
            its = [sym('m%d' % i, ty) for i in range(n)]
            lab.call(m, 'setMatrix', lab.list(dims), lab.list(its), enc)
            return m
        return mk
    for dims in ((3, 3, 3), (3, 3), (3, 4, 3), (3, 4), (4, 4, 4), (4, 5, 4), (2, 3, 2), (1, 1)):
        for enc in ('string',) if dims != (3, 4, 3) else ('string', 'integer32bit', 'integer64bit', 'hex32bit', 'hex64bit'):
            add('Matrix %s %s' % ('x'.join(map(str, dims)), enc), 'Matrix', mat(dims, '16f', '32f', enc), channels=max(3, dims[0]))
    add('Matrix integer input only', 'Matrix', mat((3, 3, 3), '10i', '16f', 'string'))
    add('Matrix integer output', 'Matrix', mat((3, 4, 3), '10i', '12i', 'string', 'int'))

    # ---- 1D LUT
    def tab(n, ty='float', dt=None, half=False):
        v = [sym('t%d' % i, ty) for i in range(n)]
        if half:
            v = [M.half_round(None, x) for x in v]
        return lab.callx('np.array', lab.list(v), Op('ext', ('np.' + dt,), 'ext')) if dt else lab.list(v)

    def im(n, t=''):
        return lab.list([lab.list([S('in%s%d' % (t, i)) for i in range(n)]), lab.list([sym('out%s%d' % (t, i), 'int') for i in range(n)])])

    def imf(n, t=''):
        return [compare('lt', S('in%s%d' % (t, i)), S('in%s%d' % (t, i + 1))) for i in range(n - 1)] + [compare('ge', sym('out%s%d' % (t, i), 'int'), Const(0)) for i in range(n)]

    def imr(n, t=''):
        r = {}
        for i in range(n):
            r['in%s%d' % (t, i)] = (i / float(n), (i + .9) / n)
            r['out%s%d' % (t, i)] = (0, 5)
        return r

    def lut1(size, cols, interp, raw, halfd, enc, maps, ind='16f', outd='16f', ty='float', arr=None):
        def mk():
            l = lab.new('LUT1D', ind, outd, 'l1', 'curve', interp, raw, halfd)
            if maps == 1:
                lab.call(l, 'setIndexMaps', im(3))
            elif maps == 3:
                lab.call(l, 'setIndexMaps', im(3, 'R'), im(2, 'G'), im(4, 'B'))
            lab.call(l, 'setArray', cols, tab(size * cols, ty, arr, bool(raw) or '16bit' in enc), enc)
            return l
        return mk
    mf = {0: [], 1: imf(3), 3: imf(3, 'R') + imf(2, 'G') + imf(4, 'B')}
    mr = {0: {}, 1: imr(3), 3: dict(imr(3, 'R'), **dict(imr(2, 'G'), **imr(4, 'B')))}
    for interp in ('linear', 'cubic', ''):
        for cols in (1, 3):
            add('LUT1D %d columns, %r' % (cols, interp), 'LUT1D', lut1(4, cols, interp, '', '', 'string', 0))
    for raw in ('', True):
        for hd in ('', True):
            if raw or hd:
                add('LUT1D raw halfs %r half domain %r' % (raw, hd), 'LUT1D', lut1(4, 3, 'linear', raw, hd, 'string', 0), run=not hd)
    for enc in ('integer16bit', 'integer32bit', 'integer64bit', 'hex16bit', 'hex32bit', 'hex64bit'):
        add('LUT1D %s' % enc, 'LUT1D', lut1(4, 1, 'linear', '', '', enc, 0, arr={'16': 'float16', '32': 'float32', '64': 'float64'}[enc[-5:-3]]))
    for maps in (1, 3):
        add('LUT1D %d index maps' % maps, 'LUT1D', lut1(4, 3, 'linear', '', '', 'string', maps), mf[maps], mr[maps], run=maps == 1)
    add('LUT1D integer input only', 'LUT1D', lut1(4, 1, 'linear', '', '', 'string', 0, '10i', '16f'))
    add('LUT1D integer output', 'LUT1D', lut1(4, 3, 'linear', '', '', 'string', 0, '10i', '12i', 'int'))

    # ---- 3D LUT
    def lut3(dims, interp, enc, maps, ind='16f', outd='16f', ty='float'):
        def mk():
            l = lab.new('LUT3D', ind, outd, 'l3', 'cube', interp)
            if maps == 1:
                lab.call(l, 'setIndexMaps', im(3))
            elif maps == 3:
                lab.call(l, 'setIndexMaps', im(3, 'R'), im(2, 'G'), im(4, 'B'))
            lab.call(l, 'setArray', lab.list(dims), tab(dims[0] * dims[1] * dims[2] * 3, ty), enc)
            return l
        return mk
    for interp in ('trilinear', 'tetrahedral', ''):
        for dims in ((2, 2, 2), (2, 3, 4)):
            add('LUT3D %s %r' % ('x'.join(map(str, dims)), interp), 'LUT3D', lut3(dims, interp, 'string', 0), run=dims == (2, 2, 2))
    for enc in ('integer32bit', 'hex64bit'):
        add('LUT3D %s' % enc, 'LUT3D', lut3((2, 2, 2), 'trilinear', enc, 0), run=False)
    for maps in (1, 3):
        add('LUT3D %d index maps' % maps, 'LUT3D', lut3((2, 2, 2), 'trilinear', 'string', maps), mf[maps], mr[maps], run=False)
    add('LUT3D integer input only', 'LUT3D', lut3((2, 2, 2), 'trilinear', 'string', 0, '10i', '16f'), run=False)
    add('LUT3D integer output', 'LUT3D', lut3((2, 2, 3), 'tetrahedral', 'string', 0, '10i', '12i', 'int'), run=False)

    # ---- Gamma
    def gam(style, how, ind='16f', outd='16f'):
        def mk():
            g = lab.new('Gamma', ind, outd, 'gm', 'gamma', style)
            if how == 'all':
                lab.call(g, 'setGamma', S('g'), S('off'))
            elif how == 'gamma':
                lab.call(g, 'setGamma', S('g'))
            elif how == 'channels':
                for c in 'RGB':
                    lab.call(g, 'setGamma', S('g' + c), S('off' + c), c)
            elif how == 'mixed':
                lab.call(g, 'setGamma', S('g'), S('off'))
                lab.call(g, 'setGamma', S('gB'), S('offB'), 'B')
            elif how == 'int':
                lab.call(g, 'setGamma', 2, 0)
            return g
        return mk
    gf, gr = [], {}
    for c in ('', 'R', 'G', 'B'):
        gf += [compare('gt', S('g' + c), Const(1.0)), compare('gt', S('off' + c), Const(0.0))]
        gr['g' + c] = (1.5, 2.6, 1.05, 9)
        gr['off' + c] = (.03, .12, .001, 2)
    for i, st in enumerate(('basicFwd', 'basicRev', 'moncurveFwd', 'moncurveRev')):
        add('Gamma %s' % st, 'Gamma', gam(st, 'all'), gf, gr)
        add('Gamma %s per channel' % st, 'Gamma', gam(st, ('channels', 'mixed')[i % 2], ('16f', '10i')[i % 2], '8i'), gf, gr)
    add('Gamma integer', 'Gamma', gam('basicFwd', 'int'), gf, gr)
    add('Gamma only', 'Gamma', gam('basicRev', 'gamma'), gf, gr)
    add('Gamma none', 'Gamma', gam('basicFwd', ''), gf, gr, run=False)

    # ---- Log
    def log(style, how, ind='16f', outd='16f'):
        def mk():
            g = lab.new('Log', ind, outd, 'lg', 'log', style)
            for c in {'': (), 'all': (None,), 'channels': 'RGB', 'mixed': (None, 'G')}.get(how, ()):
                t = c or ''
                lab.call(g, 'setLogParams', S('lg' + t), S('lw' + t), S('lb' + t), S('lh' + t), S('ls' + t), *([c] if c else []))
            if how == 'default':
                lab.call(g, 'setLogParams')
            return g
        return mk
    lf, lr = [], {}
    for c in ('', 'R', 'G', 'B'):
        lf += [compare('gt', S('lg' + c), Const(0.1)), compare('lt', S('lb' + c), S('lw' + c)), compare('lt', S('ls' + c), S('lh' + c)), compare('gt', S('lb' + c), Const(1.0))]
        lr.update({'lg' + c: (.5, .8, .2, 3), 'lw' + c: (600, 800, 200, 3000), 'lb' + c: (60, 120, 2, 900), 'lh' + c: (.8, 1.2, .1, 20), 'ls' + c: (-.01, .01, -2, 2)})
    for st in ('log10', 'antiLog10', 'log2', 'antiLog2'):
        add('Log %s' % st, 'Log', log(st, ''))
    for i, st in enumerate(('logToLin', 'linToLog')):
        for how in ('all', 'channels', 'mixed', 'default'):
            add('Log %s %s' % (st, how), 'Log', log(st, how, ('16f', '10i')[i]), lf, lr)

    # ---- Exposure/contrast
    def ec(style, n=1):
        def mk():
            e = lab.new('ExposureContrast', '16f', '10i' if style == 'video' else '16f', 'ec', 'expo', style)
            if n:
                lab.call(e, 'setExposureContrastPivot', S('ex'), S('co'), S('pi'))
                lab.call(e, 'setDynamicParam', 'exposure')
                lab.call(e, 'setDynamicParam', 'contrast')
            return e
        return mk
    ef = [compare('gt', S('pi'), Const(0.0)), compare('gt', S('co'), Const(0.0))]
    er = {'ex': (-2, 2, -9, 9), 'co': (.5, 1.5, .02, 9), 'pi': (.1, .4, .004, 40)}
    for st in ('linear', 'video', 'log'):
        add('ExposureContrast %s' % st, 'ExposureContrast', ec(st), ef, er)
    add('ExposureContrast default', 'ExposureContrast', ec('linear', 0), ef, er)

    # ---- Reference (not resolvable here)
    def ref(path, base, alias):
        def mk():
            for p in (path, base + '/' + path):
                lab.I.vfs[Const(p)] = T.ABSENT
            return lab.new('Reference', '16f', '16f', 'rf', 'ref', path, base, alias)
        return mk
    add('Reference', 'Reference', ref('nowhere.clf', '', ''))
    add('Reference with base', 'Reference', ref('nowhere.clf', '/no/such', ''))
    add('Reference alias', 'Reference', ref('', '', 'view'))

    # ---- Group
    def grp(*kids):
        def mk():
            g = lab.new('Group', '16f', '16f', 'gp', 'group')
            for k in kids:
                lab.call(g, 'addProcess', k())
            return g
        return mk
    add('Group empty', 'Group', grp())
    add('Group of two', 'Group', grp(cdl('Fwd', 'so'), rng('abcd', 'noClamp', None, '16f', '16f')), fs + rf, dict(pos, **rr))
    add('Group in group', 'Group', grp(mat((3, 3, 3), '16f', '16f', 'string'), grp(gam('basicFwd', 'gamma'), lut1(4, 1, 'linear', '', '', 'string', 0)), log('log10', '')), gf, gr, run=deep)
    return E
