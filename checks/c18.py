import functools
from common import *
import heap, zoo
from clfstatic import terms as T

AUTODESK, DUIKER = 1, 2
EXT_STYLES = ['v1.2_Fwd', 'v1.2_Rev', 'noClampFwd', 'noClampRev']
GATE = {'ExposureContrast': AUTODESK, 'Gamma': AUTODESK, 'Log': AUTODESK, 'Reference': AUTODESK, 'Group': DUIKER}


def save(lab, root, path, gz=False):
    """store a tree the way the library does"""
    I = lab.I
    doc = lab.callx('etree.ElementTree', root)
    text = I.call(I.getattr(lab.cls('ProcessList'), 'xmlPrettify'), [doc, wrap(path)], {})
    f = lab.callx('gzip.open' if gz else 'builtins.open', path, 'wb')
    lab.call(f, 'write', text)
    lab.call(f, 'close')


def reader(lab, root, how, strict):
    """read a tree in one of the ways the library offers; strict None: leave the default"""
    a = [] if strict is None else [strict]
    kw = {} if strict is None else {'strict': strict}
    if how == 'read':
        q = lab.new('ProcessList')
        lab.call(q, 'read', root, *a)
        return q
    if how == 'read keyword':
        q = lab.new('ProcessList')
        lab.call(q, 'read', root, **kw)
        return q
    if how == 'readFile' or how == 'readFile gzip':
        q = lab.new('ProcessList')
        lab.call(q, 'readFile', '/scratch/r.clf', *a)
        return q
    if how == 'readFile keyword':
        q = lab.new('ProcessList')
        lab.call(q, 'readFile', '/scratch/r.clf', **kw)
        return q
    if how == 'constructor' or how == 'constructor gzip':
        return lab.new('ProcessList', '/scratch/r.clf', *a)
    return lab.new('ProcessList', '/scratch/r.clf', **kw)


HOWS = ['read', 'read keyword', 'readFile', 'readFile keyword', 'constructor', 'constructor keyword']
GZ = ['readFile gzip', 'constructor gzip']


def plain(lab, k):
    m = lab.new('Matrix', '16f', '16f', 'm%d' % k, 'm%d' % k)
    lab.call(m, 'setMatrix', lab.list([3, 3]), lab.list([sym('k%d_%d' % (k, i), 'float') for i in range(9)]))
    return m


def run(tier):
    ck = Check('C18', tier, 'for every feature set, the outcome (accepted, skipped, rejected with the unsupported-extension error) of reading, writing, setting and evaluating each extension equals the specified gate on its feature bit')
    lab = Lab()
    deep = tier != 'quick'
    jobs = []
    E = zoo.entries(lab, deep)
    FEATS = list(range(16)) if deep else [0, 1, 2, 3, 4, 13, 14, 15]
    UNSUP = ('UnsupportedExtensionError',)

    def node_read(e, feat, how, strict, nested, dyn=False):
        nm = '%s%s%s, features %#x, %s%s' % (e.name, ' with a dynamic parameter' if dyn else '', ' in a group' if nested else '', feat, how, {None: '', True: ' strict', False: ' strict=False'}[strict])
        need = AUTODESK if dyn else 0
        if e.cls in GATE:
            need |= GATE[e.cls]
        if e.cls == 'ExposureContrast' or 'Group' in e.name:
            pass

        def go():
            def build():
                n = e.mk()
                if dyn:
                    lab.call(n, 'setDynamicParam', 'saturation')
                pl = lab.new('ProcessList')
                kids = [plain(lab, 0), n, plain(lab, 1)]
                if nested:
                    g = lab.new('Group')
                    for x in kids:
                        lab.call(g, 'addProcess', x)
                    kids = [g]
                for x in kids:
                    lab.call(pl, 'addProcess', x)
                root = lab.call(lab.call(pl, 'write'), 'getroot')
                save(lab, root, '/scratch/r.clf', 'gzip' in how)
                return root
            ra = lab.run(build, e.facts)
            if ra.v is None:
                return ck.no_raise(nm + ' | written', ra, e.ranges)
            root = ra.v

            def read():
                lab.features(feat)
                return reader(lab, root, how, strict)
            rb = lab.run(read, start=ra)
            ck.analysed(lab)
            groupok = feat & DUIKER
            has_dyn = dyn or e.cls == 'ExposureContrast' and e.name != 'ExposureContrast default'
            kids_need = extra_need(e)
            ok = (not nested or groupok) and gate_ok(e.cls, feat)
            dyn_ok = not has_dyn or feat & AUTODESK
            kids_ok = all(gate_ok(c, feat) for c in kids_need)
            if strict and not (ok and dyn_ok and kids_ok):
                return ck.must_raise(nm + ' | rejected', 'ProcessList.read', rb, UNSUP)
            if not ck.no_raise(nm + ' | not rejected', rb, e.ranges) or rb.v is None:
                return
            ps = rb.do(lambda: lab.call(rb.v, 'getProcesses'))
            cnt = rb.length(ps)
            if nested and not groupok:
                ck.equal(nm + ' | group skipped', 'ProcessList.read', cnt, Const(0))
                return
            if nested:
                ck.equal(nm + ' | group kept', 'ProcessList.read', cnt, Const(1))
                g = rb.item(ps, 0)
                ps = rb.do(lambda: lab.call(g, 'getProcesses'))
                cnt = rb.length(ps)
            here = gate_ok(e.cls, feat)
            con = 'Group.readChild' if nested else 'ProcessList.read'
            if not isinstance(cnt, Const) or cnt.v != (3 if here else 2):
                return ck.fail('%s | %s' % (nm, 'accepted' if here else 'skipped'), con, '%s nodes are read, expected %d' % (short(cnt, 30), 3 if here else 2)) if isinstance(cnt, Const) else ck.unknown(nm + ' | count', 'not analysed')
            ck.ok('%s | %s' % (nm, 'accepted' if here else 'skipped'))
            want = ['m0', e.cls, 'm1'] if here else ['m0', 'm1']
            for i, w in enumerate(want):
                p = rb.item(ps, i)
                if w == e.cls:
                    nt = rb.attr(p, '_nodeType')
                    ck.true('%s | node kind' % nm, con, rb.obj(p).cls.oid == lab.cls(e.cls).oid, msg='the node in its place is not a ' + e.cls)
                    if has_dyn:
                        d = rb.do(lambda: lab.call(p, 'getDynamicParam', 'saturation' if dyn else 'exposure'))
                        ck.equal(nm + ' | dynamic parameter', 'ProcessNode.read', d, Const(bool(dyn_ok)), rb.facts)
                else:
                    ck.true('%s | neighbour %s' % (nm, w), con, rb.do(lambda: lab.call(p, 'getAttribute', 'name')) is Const(w), msg='neighbour %s is not in its place' % w)
        return functools.partial(ck.scenario, nm, go)

    def extra_need(e):
        """extension nodes inside a group entry"""
        if e.name == 'Group of two':
            return []
        if e.name == 'Group in group':
            return ['Group', 'Gamma', 'Log']
        return []

    def gate_ok(cls, feat):
        g = GATE.get(cls)
        return g is None or bool(feat & g)
    reps = {}
    for e in E:
        reps.setdefault(e.cls, []).append(e)
    i = 0
    for cls in sorted(reps):
        if cls == 'ColorCorrection':
            pass
        es = reps[cls] if deep else reps[cls][:1] + reps[cls][-1:] if cls in GATE else reps[cls][:1]
        for e in es:
            for feat in FEATS:
                for how in HOWS + (GZ if feat & DUIKER else []):
                    for strict in (None, True, False):
                        i += 1
                        hot = cls in GATE
                        if not deep and (i % 3 if hot else i % 11):
                            continue
                        if strict is None and 'keyword' in how:
                            continue
                        jobs.append(node_read(e, feat, how, strict, i % 2 == 0 and feat & DUIKER or i % 5 == 0))
    for cls in ('Range', 'Matrix', 'LUT1D', 'LUT3D', 'ASCCDL', 'Gamma', 'Group'):
        e = reps[cls][0]
        for j, feat in enumerate(FEATS):
            for strict in (None, True, False):
                jobs.append(node_read(e, feat, HOWS[(j * 2) % 6 if strict is None else (j + 1) % 6], strict, j % 3 == 2, dyn=True))

    # ---- evaluation of CDL styles
    def cdl(style, feat, how):
        nm = 'CDL style %s, features %#x, %s' % (style, feat, how)

        def go():
            def th():
                lab.features(feat)
                c = lab.new('ASCCDL', '16f', '16f', 'c', 'c', style)
                lab.call(c, 'setSaturation', sym('sat', 'float'))
                a = lab.callx('np.array', lab.list([xs(i) for i in range(4)]), Op('ext', ('np.float32',), 'ext'))
                if how == 'alone':
                    return lab.call(c, 'process', a, 4)
                if how == 'implicit stride':
                    return lab.call(c, 'process', a)
                pl = lab.new('ProcessList')
                if how == 'group':
                    g = lab.new('Group')
                    lab.call(g, 'addProcess', c)
                    c = g
                lab.call(pl, 'addProcess', c)
                return lab.call(pl, 'process', a, 4)
            r = lab.run(th, [compare('gt', sym('sat', 'float'), Const(0.0))])
            ck.analysed(lab)
            if style in EXT_STYLES and not feat & AUTODESK:
                ck.must_raise(nm + ' | rejected', 'ASCCDL.process', r, UNSUP)
            else:
                ck.no_raise(nm + ' | evaluated', r, {'sat': (.4, 1.6)})
        return functools.partial(ck.scenario, nm, go)
    for st in ['Fwd', 'Rev', 'FwdNoClamp', 'RevNoClamp'] + EXT_STYLES:
        for feat in FEATS:
            for how in ('alone', 'implicit stride', 'list', 'group'):
                jobs.append(cdl(st, feat, how))

    # ---- float encodings and gzip
    encs = ['string', 'integer16bit', 'integer32bit', 'integer64bit', 'hex16bit', 'hex32bit', 'hex64bit']

    def with_array(kind, enc):
        t = {'16': 'float16', '64': 'float64'}.get(enc[-5:-3], 'float32')

        def tab(n):
            return lab.callx('np.array', lab.list([sym('t%d' % i, 'float') for i in range(n)]), Op('ext', ('np.' + t,), 'ext'))
        if kind == 'Matrix':
            m = lab.new('Matrix')
            lab.call(m, 'setMatrix', lab.list([3, 3]), tab(9), enc)
        elif kind == 'LUT1D':
            m = lab.new('LUT1D')
            lab.call(m, 'setArray', 1, tab(4), enc)
        elif kind == 'LUT1D raw':
            m = lab.new('LUT1D', rawHalfs=True)
            lab.call(m, 'setArray', 1, tab(4), enc)
        else:
            m = lab.new('LUT3D')
            lab.call(m, 'setArray', lab.list([2, 2, 2]), tab(24), enc)
        return m

    def write(kind, enc, feat, how):
        nm = 'writing %s as %s, features %#x, %s' % (kind, enc, feat, how)

        def go():
            def th():
                m = with_array(kind, enc)
                lab.features(feat)
                pl = lab.new('ProcessList')
                if how == 'group':
                    g = lab.new('Group')
                    lab.call(g, 'addProcess', m)
                    lab.call(pl, 'addProcess', g)
                else:
                    lab.call(pl, 'addProcess', m)
                if how == 'file':
                    return lab.call(pl, 'writeFile', '/scratch/w.clf')
                return lab.call(pl, 'write')
            r = lab.run(th)
            ck.analysed(lab)
            if enc != 'string' and not feat & DUIKER:
                ck.must_raise(nm + ' | rejected', 'Array.write', r, UNSUP)
            else:
                ck.no_raise(nm + ' | written', r)
        return functools.partial(ck.scenario, nm, go)
    for kind in ('Matrix', 'LUT1D', 'LUT1D raw', 'LUT3D'):
        for enc in encs:
            if kind == 'LUT1D raw' and enc not in ('string', 'integer16bit'):
                continue
            for j, feat in enumerate(FEATS):
                for how in ('tree', 'file', 'group') if deep else (('tree', 'file', 'group')[(j // 2) % 3],):
                    jobs.append(write(kind, enc, feat, how))

    def setter(enc, feat):
        nm = 'setFloatEncoding(%s), features %#x' % (enc, feat)

        def go():
            def th():
                lab.features(feat)
                a = lab.new('Array')
                lab.call(a, 'setFloatEncoding', enc)
                return lab.call(a, 'getFloatEncoding')
            r = lab.run(th)
            ck.analysed(lab)
            if enc != 'string' and not feat & DUIKER:
                return ck.must_raise(nm + ' | rejected', 'Array.setFloatEncoding', r, UNSUP)
            if ck.no_raise(nm + ' | accepted', r):
                ck.true(nm + ' | stored', 'Array.setFloatEncoding', r.v is Const(enc), msg='the encoding is not stored')
        return functools.partial(ck.scenario, nm, go)
    for enc in encs:
        for feat in FEATS:
            jobs.append(setter(enc, feat))

    def gz(feat, flag, selfc):
        nm = 'writeFile gzip=%s self-contained=%s, features %#x' % (flag, selfc, feat)

        def go():
            def th():
                lab.features(feat)
                pl = lab.new('ProcessList')
                lab.call(pl, 'addProcess', plain(lab, 0))
                return lab.call(pl, 'writeFile', '/scratch/z.clf', selfc, flag)
            r = lab.run(th)
            ck.analysed(lab)
            if flag and not feat & DUIKER:
                ck.must_raise(nm + ' | rejected', 'ProcessList.writeFile', r, UNSUP)
            else:
                ck.no_raise(nm + ' | written', r)
        return functools.partial(ck.scenario, nm, go)
    for feat in FEATS:
        for flag in (True, False):
            for selfc in (True, False):
                jobs.append(gz(feat, flag, selfc))

    # ---- the standard features under every feature set: the same graph, the same values
    def standard(e, feat, strict):
        nm = 'standard %s, features %#x%s' % (e.name, feat, ' strict' if strict else '')

        def go():
            def th(f):
                lab.features(f)
                n = e.mk()
                zoo.describe(lab, n)
                pl = lab.new('ProcessList')
                lab.call(pl, 'addElement', lab.new('Info', 'rel', 'copy'))
                lab.call(pl, 'addElement', lab.new('Description', 'text'))
                lab.call(pl, 'addElement', lab.new('InputDescriptor', 'in'))
                lab.call(pl, 'addElement', lab.new('OutputDescriptor', 'out'))
                lab.call(pl, 'addProcess', n)
                lab.call(pl, 'writeFile', '/scratch/s.clf')
                q = lab.new('ProcessList', '/scratch/s.clf', strict)
                out = NONE
                if e.run:
                    out = lab.call(pl, 'process', lab.list([xs(i) for i in range(4)]), 4)
                lab.call(q, 'printInfo')
                return lab.list([q, out])
            ra = lab.run(lambda: th(0xf), e.facts)
            rb = lab.run(lambda: th(feat), e.facts)
            ck.analysed(lab)
            if ra.v is None:
                return ck.no_raise(nm + ' | all features', ra, e.ranges)
            if not ck.no_raise(nm + ' | accepted', rb, e.ranges) or rb.v is None:
                return
            d = heap.Diff(lab, rb.facts, e.ranges)
            d.run(ra.st, ra.v, rb.st, rb.v)
            heap.settle(ck, nm + ' | as with all features', e.cls, d)
        return functools.partial(ck.scenario, nm, go)
    std = [e for e in E if e.cls in ('ASCCDL', 'Range', 'Matrix', 'LUT1D', 'LUT3D') and not any(s in e.name for s in EXT_STYLES) and not any(x in e.name for x in encs[1:])]
    for j, e in enumerate(std):
        for feat in ([0, 1, 2, 12] if deep else [(0, 1, 2)[j % 3]]):
            jobs.append(standard(e, feat, j % 2 == 0))

    def getset():
        for f in range(16):
            r = lab.run(lambda: (lab.features(f), lab.fcall('getFeatureCompatibility'))[1])
            ck.equal('getFeatureCompatibility after setting %#x' % f, 'getFeatureCompatibility', r.v, Const(f))
        r = lab.run(lambda: lab.fcall('getFeatureCompatibility'))
        ck.equal('initial features', 'getFeatureCompatibility', r.v, Const(0xf))
    jobs.append(functools.partial(ck.scenario, 'feature setting', getset))
    ck.parallel(jobs)
    return ck.finish('Every node kind, dynamic parameter, CDL style, float encoding and gzip writing under feature values 0 to 15, by every way of reading, strict and lenient, alone and in groups.',
                     ['feature bits other than Autodesk and Duiker Research have no meaning in this version'], floor=500)


if __name__ == '__main__':
    main(run)
