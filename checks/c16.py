import functools
from common import *
import heap, zoo
from clfstatic import terms as T

MUTABLE = ('list', 'dict', 'inst', 'arr', 'buf', 'elem')


def shared(A, a, b):
    """mutable objects reachable from both roots, other than through classes and functions"""
    def walk(v):
        seen, todo = {}, [('', v)]
        while todo:
            p, x = todo.pop()
            if isinstance(x, Tup):
                todo += [(p, y) for y in x.items]
                continue
            if not isinstance(x, Ref) or x.oid in seen:
                continue
            h = A.peek(x.oid)
            if h is None or h.kind in ('class', 'func', 'module', 'world', 'file'):
                continue
            seen[x.oid] = (p, h.kind)
            todo += [(p + l, y) for l, y in heap.kids(h)]
        return seen
    x, y = walk(a), walk(b)
    return [(x[o][0], o) for o in x if o in y and x[o][1] in MUTABLE]


def run(tier):
    ck = Check('C16', tier, 'write effects of constructors, setters, readers and sampling helpers stay within the object they are called on; no mutable object is shared between independently built objects')
    lab = Lab()
    lut = lab.load(loader.ACES + '/lutFormats/__init__.py', 'lutFormats')
    samp = [m for p, m in lab.basemods.items() if p.endswith('Sampling.py')]
    samp = samp[0] if samp else lab.load(loader.ACES + '/lutFormats/Sampling.py', 'Sampling')
    deep = tier != 'quick'
    jobs = []
    E = zoo.entries(lab, deep)

    # ---- every mutator of one object against another object built the same way
    def mutators(e):
        def common(n):
            lab.call(n, 'setAttribute', 'name', 'another')
            lab.call(n, 'setAttribute', 'extra', 'more')
            lab.call(n, 'setInBitDepth', '8i')
            lab.call(n, 'setOutBitDepth', '12i')
            lab.call(n, 'addElement', lab.new('Description', 'third'))
            lab.call(n, 'addValueElement', 'anything', 3)
            lab.call(n, 'setDynamicParam', 'gamma')
        c = e.cls
        if c in ('ASCCDL', 'ColorCorrection'):
            def own(n):
                lab.call(n, 'setSlope', 9.0, 8.0, 7.0)
                lab.call(n, 'setOffset', 9.0, 8.0, 7.0)
                lab.call(n, 'setPower', 9.0, 8.0, 7.0)
                lab.call(n, 'setSaturation', 9.0)
        elif c == 'Range':
            def own(n):
                for m in ('setMinInValue', 'setMaxInValue', 'setMinOutValue', 'setMaxOutValue'):
                    lab.call(n, m, 9.0)
                lab.call(n, 'setStyle', 'clamp')
                lab.call(n, 'setDefaultRange', True)
        elif c == 'Matrix':
            def own(n):
                lab.call(n, 'setMatrix', lab.list([2, 2]), lab.list([9.0, 8.0, 7.0, 6.0]))
        elif c == 'LUT1D':
            def own(n):
                lab.call(n, 'setArray', 1, lab.list([9.0, 8.0, 7.0, 6.0]))
                lab.call(n, 'setIndexMaps', lab.list([lab.list([0.0, 9.0]), lab.list([0, 1])]))
        elif c == 'LUT3D':
            def own(n):
                lab.call(n, 'setArray', lab.list([1, 1, 2]), lab.list([9.0, 8.0, 7.0, 6.0, 5.0, 4.0]))
                lab.call(n, 'setIndexMaps', lab.list([lab.list([0.0, 9.0]), lab.list([0, 1])]))
        elif c == 'Gamma':
            def own(n):
                lab.call(n, 'setGamma', 9.0)
                lab.call(n, 'setGamma', 9.0, 8.0, 'G')
        elif c == 'Log':
            def own(n):
                lab.call(n, 'setLogParams')
                lab.call(n, 'setLogParams', 9.0, 8.0, 7.0, 6.0, 5.0, 'R')
        elif c == 'ExposureContrast':
            def own(n):
                lab.call(n, 'setExposureContrastPivot', 9.0, 8.0, 7.0)
        elif c == 'Reference':
            def own(n):
                lab.I.vfs[Const('other/else.clf')] = T.ABSENT
                lab.I.vfs[Const('else.clf')] = T.ABSENT
                lab.call(n, 'setPaths', 'else.clf', 'other', 'x')
                lab.call(n, 'setWriteReferencedNodes', True)
        elif c == 'Group':
            def own(n):
                lab.call(n, 'addProcess', lab.new('Range'))
                lab.call(n, 'addProcess', lab.new('Group'))
        else:
            def own(n):
                pass

        def read(n):
            lab.I.vfs[Const('/scratch/in.clf')] = T.ABSENT
            m = e.mk()
            zoo.describe(lab, m)
            lab.call(m, 'setDynamicParam', 'exposure')
            root = lab.callx('etree.Element', 'holder')
            lab.call(m, 'write', root)
            lab.call(n, 'read', lab.I.getitem(root, Const(0)))
        return (('generic setters', common), ('own setters', own), ('read', read))

    def pair(e):
        nm = '%s built twice' % e.name

        def go():
            ra = lab.run(lambda: lab.list([zoo.describe(lab, e.mk()), e.cls and lab.new('ProcessList')]), e.facts)
            if ra.v is None:
                return ck.no_raise(nm + ' | built', ra, e.ranges)
            one = ra.item(ra.v, 0)
            pl = ra.item(ra.v, 1)
            rb = lab.run(lambda: zoo.describe(lab, e.mk()), start=ra)
            if rb.v is None:
                return ck.no_raise(nm + ' | built again', rb, e.ranges)
            ck.analysed(lab)
            heap.frame_check(ck, nm + ' | building a second one', e.cls + '.__init__', lab, ra.st, rb.st, [('the first object', one)], 'building another object changes what existed before')
            two = rb.v
            for what, f in mutators(e):
                rc = lab.run(lambda: f(two), start=rb)
                ck.analysed(lab)
                if rc.st is None:
                    ck.no_raise('%s | %s' % (nm, what), rc, e.ranges)
                    continue
                heap.frame_check(ck, '%s | %s' % (nm, what), e.cls, lab, rb.st, rc.st, [('the first object', one), ('a process list', pl)], 'changing one object changes another')
        return functools.partial(ck.scenario, nm, go)
    seen = set()
    for e in E:
        if deep or e.name not in seen:
            jobs.append(pair(e))
        seen.add(e.name)

    # ---- objects built with no arguments at all
    def bare(cname):
        nm = '%s() twice' % cname

        def fill(o, cname=cname):
            if cname == 'ProcessList':
                lab.call(o, 'addProcess', lab.new('Range'))
                lab.call(o, 'addElement', lab.new('Description', 'text'))
                lab.call(o, 'addValueElement', 'k', 'v')
                for s in ('Name', 'Namespace', 'ID', 'InverseOf', 'CompCLFversion'):
                    lab.call(o, 'set' + s, 'v')
                lab.call(o, 'setAttribute', 'some', 'thing')
                lab.call(o, 'setInBitDepth', '8i')
                lab.call(o, 'setOutBitDepth', '8i')
            elif cname == 'Array':
                lab.call(o, 'setDimensions', lab.list([2, 1]))
                lab.call(o, 'setValues', lab.list([0.0, 1.0]))
                lab.call(o, 'setValuesAreIntegers', True)
                lab.call(o, 'setRawHalfs', True)
                lab.call(o, 'setFloatEncoding', 'hex32bit')
            elif cname == 'IndexMap':
                lab.call(o, 'setDimension', 2)
                lab.call(o, 'setValues', lab.list([lab.list([0.0, 1.0]), lab.list([0, 1])]))
            elif cname in ('Description', 'Comment', 'InputDescriptor', 'OutputDescriptor'):
                el = lab.callx('etree.Element', cname)
                lab.I.setattr(el, 'text', Const('words'))
                lab.call(o, 'read', el)
            elif cname == 'Info':
                el = lab.callx('etree.Element', 'Info')
                for t in ('AppRelease', 'Copyright', 'Description', 'Revision'):
                    c = lab.callx('etree.SubElement', el, t)
                    lab.I.setattr(c, 'text', Const('words'))
                lab.call(o, 'read', el)

        def rd(o):
            if cname == 'Array':
                el = lab.callx('etree.Element', 'Array')
                lab.call(el, 'set', 'dim', '2 1')
                lab.I.setattr(el, 'text', Const('\n0.25\n0.5\n'))
                lab.call(o, 'read', el)
            elif cname == 'IndexMap':
                el = lab.callx('etree.Element', 'IndexMap')
                lab.call(el, 'set', 'dim', '2')
                lab.I.setattr(el, 'text', Const('0.25@0 0.5@1'))
                lab.call(o, 'read', el)
            elif cname == 'ProcessList':
                m = lab.new('ProcessList')
                fill(m)
                lab.call(o, 'read', lab.call(lab.call(m, 'write'), 'getroot'))

        def go():
            ra = lab.run(lambda: lab.new(cname))
            if ra.v is None:
                return ck.no_raise(nm + ' | built', ra)
            rb = lab.run(lambda: lab.new(cname), start=ra)
            if rb.v is None:
                return ck.no_raise(nm + ' | built again', rb)
            one, two = ra.v, rb.v
            heap.frame_check(ck, nm + ' | building a second one', cname + '.__init__', lab, ra.st, rb.st, [('the first object', one)], 'building another object changes what existed before')
            for what, f in (('setters', fill), ('read', rd)):
                rc = lab.run(lambda: f(two), start=rb)
                ck.analysed(lab)
                if rc.st is None:
                    ck.no_raise('%s | %s' % (nm, what), rc)
                    continue
                heap.frame_check(ck, '%s | %s' % (nm, what), cname, lab, rb.st, rc.st, [('the first object', one)], 'changing one object changes another')
                # and an object built afterwards starts out as the first one did
                rd_ = lab.run(lambda: lab.new(cname), start=rc)
                if rd_.v is None:
                    ck.no_raise('%s | %s, then a new one' % (nm, what), rd_)
                    continue
                d = heap.Diff(lab, rd_.facts, strict_types=True)
                d.run(ra.st, one, rd_.st, rd_.v)
                heap.settle(ck, '%s | %s, then a new one' % (nm, what), cname + '.__init__', d)
        return functools.partial(ck.scenario, nm, go)
    for c in ('ProcessList', 'Array', 'IndexMap', 'Description', 'Comment', 'InputDescriptor', 'OutputDescriptor', 'Info', 'ASCCDL', 'ColorCorrection', 'Range', 'Matrix',
              'LUT1D', 'LUT3D', 'Gamma', 'Log', 'ExposureContrast', 'Group', 'Reference', 'ProcessNode'):
        jobs.append(bare(c))

    # ---- arguments
    def S(n):
        return sym(n, 'float')

    def args(name, construct, build, call, facts=(), ranges=None):
        nm = name

        def go():
            ra = lab.run(lambda: lab.list(build()), facts)
            if ra.v is None:
                return ck.no_raise(nm + ' | built', ra, ranges)
            its = ra.obj(ra.v).items
            rb = lab.run(lambda: call(*its), start=ra)
            ck.analysed(lab)
            if rb.st is None:
                return ck.no_raise(nm, rb, ranges)
            heap.frame_check(ck, nm + ' | arguments', construct, lab, ra.st, rb.st, [('argument %d' % i, v) for i, v in enumerate(its)], 'an argument is modified')
            # once more with the same arguments: what the first call made stays as it was
            rc = lab.run(lambda: call(*its), start=rb)
            if rc.st is None:
                return ck.no_raise(nm + ' | again', rc, ranges)
            made = [('the first result', rb.v)] if rb.v is not None else []
            heap.frame_check(ck, nm + ' | same arguments again', construct, lab, rb.st, rc.st, [('argument %d' % i, v) for i, v in enumerate(its)] + made, 'a second object from the same arguments changes the first')
        return functools.partial(ck.scenario, nm, go)

    def vals(n, ty='float'):
        return lab.list([sym('v%d' % i, ty) for i in range(n)])

    def nparr(n, t):
        return lab.callx('np.array', vals(n), Op('ext', ('np.' + t,), 'ext'))

    def imap(n, t=''):
        return lab.list([lab.list([S('in%s%d' % (t, i)) for i in range(n)]), lab.list([sym('out%s%d' % (t, i), 'int') for i in range(n)])])

    def after(o, *calls):
        for c in calls:
            lab.call(o, *c)
        return o
    for kind in ('list', 'float32', 'float16'):
        def mkv(n, kind=kind):
            return vals(n) if kind == 'list' else nparr(n, kind)
        for enc in ('string', 'hex32bit'):
            t = 'values as %s, %s' % (kind, enc)
            jobs.append(args('Matrix.setMatrix %s' % t, 'Matrix.setMatrix', lambda m=mkv: [lab.list([3, 4, 3]), m(12)], lambda d, v, enc=enc: after(lab.new('Matrix'), ('setMatrix', d, v, enc))))
            for ch in (1, 3):
                for depth in ('16f', '10i'):
                    jobs.append(args('LUT1D.setArray %s, %d channels, %s' % (t, ch, depth), 'LUT1D.setArray', lambda m=mkv, ch=ch: [m(4 * ch)],
                                     lambda v, enc=enc, ch=ch, depth=depth: after(lab.new('LUT1D', '16f', depth), ('setArray', ch, v, enc))))
            jobs.append(args('LUT3D.setArray %s' % t, 'LUT3D.setArray', lambda m=mkv: [lab.list([2, 2, 2]), m(24)], lambda d, v, enc=enc: after(lab.new('LUT3D'), ('setArray', d, v, enc))))
            for raw in (False, True):
                jobs.append(args('Array %s raw %s' % (t, raw), 'Array.__init__', lambda m=mkv: [lab.list([4, 1]), m(4)], lambda d, v, enc=enc, raw=raw: lab.new('Array', d, v, False, raw, enc)))
    jobs.append(args('Array setters', 'Array.setValues', lambda: [lab.list([4, 1]), vals(4)], lambda d, v: after(lab.new('Array'), ('setDimensions', d), ('setValues', v))))
    fs = [compare('lt', S('in%s%d' % (t, i)), S('in%s%d' % (t, i + 1))) for t in ('', 'R', 'G', 'B') for i in range(3)]
    for cls in ('LUT1D', 'LUT3D'):
        jobs.append(args('%s.setIndexMaps one' % cls, cls + '.setIndexMaps', lambda: [imap(3)], lambda m, cls=cls: after(lab.new(cls), ('setIndexMaps', m)), fs))
        jobs.append(args('%s.setIndexMaps three' % cls, cls + '.setIndexMaps', lambda: [imap(3, 'R'), imap(2, 'G'), imap(4, 'B')], lambda a, b, c, cls=cls: after(lab.new(cls), ('setIndexMaps', a, b, c)), fs))
    jobs.append(args('IndexMap', 'IndexMap.__init__', lambda: [imap(3)], lambda m: lab.new('IndexMap', 3, m), fs))
    jobs.append(args('IndexMap setters', 'IndexMap.setValues', lambda: [imap(3)], lambda m: after(lab.new('IndexMap'), ('setDimension', 3), ('setValues', m)), fs))

    def sampled(*a):
        return lambda *v: lab.I.call(lab.I.getattr(samp, a[0]), list(v) + [wrap(x) for x in a[1:]], {})
    inc = [compare('lt', sym('v%d' % i, 'float'), sym('v%d' % (i + 3), 'float')) for i in range(6)]
    r9 = {'v%d' % i: (.1 * (i // 3) + .02 * (i % 3), .1 * (i // 3) + .02 * (i % 3) + .01) for i in range(9)}
    for kind in ('list', 'float32'):
        mk = (lambda: vals(9)) if kind == 'list' else (lambda: nparr(9, 'float32'))
        for f in ('generateLUT1DInverseIndexMap', 'generateLUT1DInverseResampled'):
            jobs.append(args('%s %s' % (f, kind), f, lambda mk=mk: [lab.list([3, 3]), mk(), wrap(0.25), wrap(2.0)], sampled(f), inc, r9))

    def somepl():
        pl = lab.new('ProcessList')
        lab.call(pl, 'addProcess', after(lab.new('Range', '16f', '10i', '', '', 'noClamp'), ('setMinInValue', S('a')), ('setMaxInValue', S('b')), ('setMinOutValue', S('c')), ('setMaxOutValue', S('d'))))
        lab.call(pl, 'addProcess', after(lab.new('Matrix'), ('setMatrix', lab.list([3, 3]), vals(9))))
        return pl
    ab = [compare('lt', S('a'), S('b'))]
    rr = {'a': (-.1, .3), 'b': (.6, 1.2), 'c': (-.1, .3), 'd': (.6, 1.2)}
    jobs.append(args('sample1D', 'sample1D', lambda: [somepl(), wrap(3), S('lo'), S('hi')], sampled('sample1D'), ab, rr))
    jobs.append(args('sample3D', 'sample3D', lambda: [somepl(), lab.list([2, 2, 2]), S('lo'), S('hi')], sampled('sample3D'), ab, rr))
    for sh in ('linear', 'log2'):
        jobs.append(args('sample1D3D1D %s' % sh, 'sample1D3D1D', lambda sh=sh: [somepl(), lab.list([2, lab.list([2, 2, 2]), 2]), lab.list([sh, S('lo'), S('hi')]), lab.list([sh, S('lo2'), S('hi2')])],
                         sampled('sample1D3D1D'), ab + [compare('lt', S('lo'), S('hi')), compare('lt', S('lo2'), S('hi2'))], dict(rr, lo=(-4, -2), hi=(1, 3), lo2=(-4, -2), hi2=(1, 3))))
        jobs.append(args('createShaper %s' % sh, 'createShaper', lambda sh=sh: [wrap(sh), S('lo'), S('hi')], sampled('createShaper')))
    jobs.append(args('simpleSampledLUT', 'simpleSampledLUT', lambda: [], lambda: lab.fcall('simpleSampledLUT', 'a', 'b', 3, 4)))
    jobs.append(args('simple3DLUT', 'simple3DLUT', lambda: [lab.list([2, 3, 2])], lambda d: lab.fcall('simple3DLUT', 'a', 'b', d)))
    # the lists given to a process list or group are not taken over
    jobs.append(args('ProcessList from an element', 'ProcessList.read', lambda: [lab.call(lab.call(somepl(), 'write'), 'getroot')], lambda r: after(lab.new('ProcessList'), ('read', r)), ab, rr))
    ck.parallel(jobs)
    return ck.finish('Every node kind built twice with equal arguments and with none, every setter and the reader applied to one of them; every sequence argument of constructors, setters, readers and sampling helpers.',
                     ['a sequence may be kept by reference; changing it afterwards by the caller is outside the property'], floor=200)


if __name__ == '__main__':
    main(run)
