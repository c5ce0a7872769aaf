import functools
from common import *
from clfstatic import terms as T

S = lambda n: sym(n, 'float')
NODES = ['ProcessNode', 'Range', 'Matrix', 'ASCCDL', 'ColorCorrection', 'LUT1D', 'LUT3D', 'Reference', 'ExposureContrast', 'Gamma', 'Log', 'Group']
TYPE = {'ASCCDL': 'ASC_CDL'}
# values that are easily lost: false in a condition, or equal to another one
VALUES = [('a number', lambda: S('v')), ('zero', lambda: wrap(0)), ('0.0', lambda: wrap(0.0)), ('an empty text', lambda: wrap('')),
          ('False', lambda: wrap(False)), ('True', lambda: wrap(True)), ('a text', lambda: wrap('some text')), ('the text "None"', lambda: wrap('None'))]


def run(tier):
    ck = Check('C35', tier, 'the value every accessor returns is the term stored last under that name, None (or nothing) where nothing was stored, and other entries are untouched')
    lab = Lab()
    LAB.append(lab)
    I = lab.I
    deep = tier != 'quick'
    jobs = []

    def case(nm, con, th, want, rng=None, compare_=None):
        """th() returns a python list of interpreted values; want() the expected ones"""
        def go():
            box = []

            def f():
                v = th()
                return I.newlist([wrap(x) for x in v])
            r = lab.run(f)
            ck.analysed(lab)
            if not ck.no_raise(nm + ' | no exception', r, rng or {}, construct=con) or r.v is None:
                return
            if r.unmod:
                return ck.unknown(nm, 'unmodelled: %s' % (r.unmod[:2],))
            w = want() if callable(want) else want
            n = r.length(r.v)
            if n is not Const(len(w)):
                return ck.unknown(nm, 'result count %s' % short(n, 20))
            for i, e in enumerate(w):
                what = nm + (' | result %d' % (i + 1) if len(w) > 1 else '')
                if isinstance(e, tuple):
                    what, e = '%s | %s' % (nm, e[0]), e[1]
                got = r.item(r.v, i)
                if isinstance(e, list):
                    k = r.length(got)
                    ck.equal(what + ' | length', con, k, Const(len(e)), r.facts)
                    if k is Const(len(e)):
                        for j, x in enumerate(e):
                            ck.equal('%s | item %d' % (what, j), con, r.item(got, j), wrap(x), r.facts)
                else:
                    ck.equal(what, con, got, wrap(e), r.facts)
        jobs.append(functools.partial(ck.scenario, nm, go))

    def same(a, b):
        """whether two interpreted values are the same object"""
        if isinstance(a, Ref) and isinstance(b, Ref):
            return Const(a.oid == b.oid)
        return Const(False) if isinstance(a, (Ref, Const)) and isinstance(b, (Ref, Const)) else Unk('conditional object')

    def isin(v, objs):
        """index of the object in a list, -1 if None"""
        if v is NONE:
            return Const(-1)
        for i, o in enumerate(objs):
            if same(v, o) is TRUE:
                return Const(i)
        return Const(-2) if isinstance(v, Ref) else Unk('conditional object')

    # ---- attributes of nodes and lists
    for cls in NODES + ['ProcessList']:
        for label, v in VALUES:
            def th(cls=cls, v=v):
                n = lab.new(cls)
                lab.call(n, 'setAttribute', 'first', S('one'))
                lab.call(n, 'setAttribute', 'key', S('old'))
                lab.call(n, 'setAttribute', 'last', S('two'))
                lab.call(n, 'setAttribute', 'key', v())
                return [lab.call(n, 'getAttribute', k) for k in ('key', 'first', 'last', 'Key', 'absent', '')]
            case('attribute of %s set to %s' % (cls, label), cls + '.getAttribute', th, lambda v=v: [('the value', v()), ('first', S('one')), ('last', S('two')), ('other case', NONE), ('absent', NONE), ('empty name', NONE)])

            def th(cls=cls, v=v):
                n = lab.new(cls)
                lab.call(n, 'addValueElement', 'first', S('one'))
                lab.call(n, 'addValueElement', 'key', S('old'))
                lab.call(n, 'addValueElement', 'key', v())
                lab.call(n, 'setAttribute', 'attr', S('two'))
                return [lab.call(n, 'getValueElement', k) for k in ('key', 'first', 'absent', 'attr')] + [lab.call(n, 'getAttribute', 'key')]
            case('value element of %s set to %s' % (cls, label), cls + '.getValueElement', th, lambda v=v: [('the value', v()), ('first', S('one')), ('absent', NONE), ('name of an attribute', NONE), ('as attribute', NONE)])

    # ---- constructor arguments, by position, by keyword, in part
    ctor = {'ProcessNode': ['nodeType'] + ['inBitDepth', 'outBitDepth', 'id', 'name', 'bypass']}
    for c in NODES[1:]:
        ctor[c] = ['inBitDepth', 'outBitDepth', 'id', 'name']
    vals = {'nodeType': 'Special', 'inBitDepth': '10i', 'outBitDepth': '32f', 'id': 'an id', 'name': 'a name', 'bypass': True}
    extra = {'Range': [('style', 'noClamp'), ('defaultRange', True)], 'ASCCDL': [('style', 'Rev')], 'LUT1D': [('interpolation', 'cubic'), ('rawHalfs', True), ('halfDomain', True)],
             'LUT3D': [('interpolation', 'tetrahedral')], 'Gamma': [('style', 'moncurveRev')], 'Log': [('style', 'linToLog')], 'ExposureContrast': [('style', 'video')]}
    for c in NODES:
        if c == 'ColorCorrection':
            continue
        names = ctor[c] + [k for k, v in extra.get(c, [])]
        val = dict(vals, **dict(extra.get(c, [])))
        sig = None

        def attrs(n, c=c):
            return [lab.call(n, 'getInBitDepth'), lab.call(n, 'getOutBitDepth'), lab.call(n, 'getAttribute', 'inBitDepth'), lab.call(n, 'getAttribute', 'outBitDepth'),
                    lab.call(n, 'getAttribute', 'id'), lab.call(n, 'getAttribute', 'name'), lab.call(n, 'getNodeType')]

        def want(given, c=c):
            g = lambda k, d: Const(vals[k]) if k in given else Const(d)
            return [('input depth', g('inBitDepth', '16f')), ('output depth', g('outBitDepth', '16f')), ('inBitDepth', g('inBitDepth', '16f')), ('outBitDepth', g('outBitDepth', '16f')),
                    ('id', g('id', '')), ('name', g('name', '')), ('type', Const('Special' if c == 'ProcessNode' and 'nodeType' in given else TYPE.get(c, c)))]
        base = ctor[c]
        for k in range(len(base) + 1):
            case('%s made with %d arguments' % (c, k), c + '.__init__', lambda c=c, k=k, base=base, attrs=attrs: attrs(lab.new(c, *[vals[x] for x in base[:k]])), lambda k=k, base=base, want=want: want(base[:k]))
        for x in base + (['bypass'] if False else []):
            case('%s made with %s' % (c, x), c + '.__init__', lambda c=c, x=x, attrs=attrs: attrs(I.call(lab.cls(c), [], {x: wrap(vals[x])})), lambda x=x, want=want: want([x]))
        for x, v in extra.get(c, []):
            case('%s made with %s' % (c, x), c + '.__init__', lambda c=c, x=x, v=v: [lab.call(lab.new(c, **{x: v}), 'getAttribute', x)], [(x, Const(v))])

    # ---- depths
    for c in NODES:
        def th(c=c):
            n = lab.new(c)
            lab.call(n, 'setInBitDepth', '10i')
            lab.call(n, 'setOutBitDepth', '12i')
            a = [lab.call(n, 'getInBitDepth'), lab.call(n, 'getOutBitDepth')]
            lab.call(n, 'setInBitDepth', '32f')
            a += [lab.call(n, 'getInBitDepth'), lab.call(n, 'getOutBitDepth')]
            lab.call(n, 'setAttribute', 'outBitDepth', '8i')
            return a + [lab.call(n, 'getInBitDepth'), lab.call(n, 'getOutBitDepth'), lab.call(n, 'getAttribute', 'inBitDepth')]
        case('bit depths of %s' % c, c + '.getInBitDepth', th, [wrap(x) for x in ('10i', '12i', '32f', '12i', '32f', '8i', '32f')])

    # ---- dynamic parameters
    for c in NODES:
        def th(c=c):
            n = lab.new(c)
            a = [lab.call(n, 'getDynamicParam', 'EXPOSURE')]
            for p in ('EXPOSURE', 'CONTRAST'):
                lab.call(n, 'setDynamicParam', p)
            return a + [lab.call(n, 'getDynamicParam', p) for p in ('EXPOSURE', 'CONTRAST', 'exposure', 'EXPO', '')]
        case('dynamic parameters of %s' % c, c + '.getDynamicParam', th, [wrap(x) for x in (False, True, True, False, False, False)])

    # ---- element types
    for c in ('ProcessNode', 'ProcessList', 'Matrix', 'Info'):
        tags = [('Matrix', 'Matrix'), ('{urn:NATAS:ASC:LUT:v1.2}LUT1D', 'LUT1D'), ('{a}b', 'b'), ('Exposure-Contrast', 'ExposureContrast'), ('ASC_CDL', 'ASCCDL'), ('{x-y_z}A-B_C', 'ABC'), ('{}Log', 'Log')]
        case('element type given by %s' % c, c + '.getElementType', lambda c=c, tags=tags: [lab.call(lab.new(c), 'getElementType', t) for t, e in tags], [(t, wrap(e)) for t, e in tags])

    # ---- named attributes of a process list
    PLA = [('Name', 'name'), ('Namespace', 'xmlns'), ('ID', 'id'), ('InverseOf', 'inverseOf'), ('CompCLFversion', 'compCLFversion')]
    for nm, key in PLA:
        def th(nm=nm, key=key):
            p = lab.new('ProcessList')
            a = [lab.call(p, 'get' + n) for n, k in PLA]
            for n, k in PLA:
                lab.call(p, 'set' + n, 'old ' + n)
            lab.call(p, 'set' + nm, 'new value')
            return a + [lab.call(p, 'get' + n) for n, k in PLA] + [lab.call(p, 'getAttribute', k) for n, k in PLA]
        case('%s of a process list' % nm, 'ProcessList.get' + nm, th, lambda nm=nm: [(n + ' of an empty list', NONE) for n, k in PLA] + 2 * [(n, wrap('new value' if n == nm else 'old ' + n)) for n, k in PLA])

    # ---- the depths of a process list are those of its ends
    for n in (0, 1, 2, 3):
        def th(n=n):
            p = lab.new('ProcessList')
            nodes = [lab.new('Matrix', '8i', '10i'), lab.new('Range', '12i', '16i'), lab.new('Gamma', '16f', '32f')][:n]
            for q in nodes:
                lab.call(p, 'addProcess', q)
            a = [lab.call(p, 'getInBitDepth'), lab.call(p, 'getOutBitDepth')]
            lab.call(p, 'setInBitDepth', 'IN')
            a += [lab.call(p, 'getInBitDepth'), lab.call(p, 'getOutBitDepth')]
            lab.call(p, 'setOutBitDepth', 'OUT')
            a += [lab.call(p, 'getInBitDepth'), lab.call(p, 'getOutBitDepth')]
            for q in nodes:
                a += [lab.call(q, 'getInBitDepth'), lab.call(q, 'getOutBitDepth')]
            return a + [lab.call(p, 'getAttribute', 'inBitDepth'), lab.call(p, 'getAttribute', 'outBitDepth')]

        def want(n=n):
            d = [['8i', '10i'], ['12i', '16i'], ['16f', '32f']][:n]
            if not n:
                return [NONE] * 8
            w = [d[0][0], d[-1][1], 'IN', d[-1][1], 'IN', 'OUT']
            d[0][0] = 'IN'
            d[-1][1] = 'OUT'
            return [wrap(x) for x in w + sum(d, [])] + [NONE, NONE]
        case('bit depths of a list of %d nodes' % n, 'ProcessList.getInBitDepth', th, want)

    # ---- members: by name, by position, in order
    lists = [[], ['a'], ['a', 'b', 'c'], ['a', 'b', 'a', 'c', 'b'], ['', 'x', ''], ['ab', 'a', 'b', 'A']]
    for cls in ('ProcessList', 'Group'):
        for names in lists:
            def th(cls=cls, names=names):
                p = lab.new(cls)
                nodes = [lab.new(('Matrix', 'Gamma', 'Group', 'Reference')[i % 4], '32f', '32f', 'id%d' % i, x) for i, x in enumerate(names)]
                for q in nodes:
                    lab.call(p, 'addProcess', q)
                a = [isin(lab.call(p, 'getProcess', x), nodes) for x in ('a', 'b', 'c', 'A', 'ab', 'id0', 'x', 'Matrix', 'nothing')]
                # renamed afterwards
                if nodes:
                    lab.call(nodes[-1], 'setAttribute', 'name', 'renamed')
                    a.append(isin(lab.call(p, 'getProcess', 'renamed'), nodes))
                g = lab.call(p, 'getProcesses')
                k = lab.callx('builtins.len', g)
                a += [k] + [isin(I.getitem(g, Const(i)), nodes) for i in range(k.v)]
                if cls == 'ProcessList':
                    a.append(lab.callx('builtins.len', p))
                    a += [isin(I.getitem(p, Const(i)), nodes) for i in range(len(nodes))] + [isin(I.getitem(p, Const(-1 - i)), nodes) for i in range(len(nodes))]
                    it = lab.callx('builtins.list', p)
                    a += [isin(I.getitem(it, Const(i)), nodes) for i in range(lab.callx('builtins.len', it).v)]
                return a

            def want(cls=cls, names=names):
                w = [names.index(x) if x in names else -1 for x in ('a', 'b', 'c', 'A', 'ab', 'id0', 'x', 'Matrix', 'nothing')]
                w = [('named %s' % x, wrap(v)) for x, v in zip(('a', 'b', 'c', 'A', 'ab', 'id0', 'x', 'Matrix', 'nothing'), w)]
                n = len(names)
                if n:
                    w.append(('renamed', wrap(n - 1)))
                w += [('members', wrap(n))] + [('member %d' % i, wrap(i)) for i in range(n)]
                if cls == 'ProcessList':
                    w += [('length', wrap(n))] + [('position %d' % i, wrap(i)) for i in range(n)] + [('position -%d' % (i + 1), wrap(n - 1 - i)) for i in range(n)] + [('iteration %d' % i, wrap(i)) for i in range(n)]
                return w
            case('members of a %s with names %s' % (cls, names), cls + '.getProcess', th, want)

    # ---- tables
    def table(cls, how):
        def th():
            l = lab.new(cls)
            if cls == 'LUT1D':
                lab.call(l, 'setArray', 3, lab.list([S('t%d' % i) for i in range(12)]))
            else:
                lab.call(l, 'setArray', lab.list([2, 2, 2]), lab.list([S('t%d' % i) for i in range(24)]))
            if how == 'one':
                lab.call(l, 'setIndexMaps', lab.list([lab.list([S('p%d' % i) for i in range(3)]), lab.list([S('q%d' % i) for i in range(3)])]))
            elif how == 'three':
                lab.call(l, 'setIndexMaps', *[lab.list([lab.list([S('p%d%d' % (c, i)) for i in range(2 + c)]), lab.list([S('q%d%d' % (c, i)) for i in range(2 + c)])]) for c in range(3)])
            a = [lab.call(l, 'getLUTDimensions'), lab.call(l, 'getLUTValues')]
            if how == 'one':
                a += [lab.call(l, 'getIndexMapDimensions', 0)] + [I.getitem(lab.call(l, 'getIndexMapValues', 0), Const(j)) for j in (0, 1)]
            elif how == 'three':
                for c in range(3):
                    a += [lab.call(l, 'getIndexMapDimensions', c)] + [I.getitem(lab.call(l, 'getIndexMapValues', c), Const(j)) for j in (0, 1)]
            return a

        def want():
            w = [('dimensions', [4, 3] if cls == 'LUT1D' else [2, 2, 2, 3]), ('values', [S('t%d' % i) for i in range(12 if cls == 'LUT1D' else 24)])]
            if how == 'one':
                w += [('size of the index map', wrap(3)), ('inputs', [S('p%d' % i) for i in range(3)]), ('outputs', [S('q%d' % i) for i in range(3)])]
            elif how == 'three':
                for c in range(3):
                    w += [('size of index map %d' % c, wrap(2 + c)), ('inputs %d' % c, [S('p%d%d' % (c, i)) for i in range(2 + c)]), ('outputs %d' % c, [S('q%d%d' % (c, i)) for i in range(2 + c)])]
            return w
        case('%s with %s index maps' % (cls, how), cls + '.getLUTValues', th, want)
    for cls in ('LUT1D', 'LUT3D'):
        for how in ('no', 'one', 'three'):
            table(cls, how)
    for ch in (1, 2, 3, 4):
        for n in (1, 2, 5):
            case('dimensions of a 1D table of %d x %d' % (n, ch), 'LUT1D.getLUTDimensions', lambda n=n, ch=ch: [lab.call(T_(lab, 'LUT1D', ch, [S('t%d' % i) for i in range(n * ch)]), 'getLUTDimensions')], [[n, ch]])
    # replaced tables; the node as written has one of them
    def arrays(n):
        el = lab.call(n, 'write', lab.callx('etree.Element', 'ProcessList'))
        return lab.callx('builtins.len', lab.call(el, 'findall', 'Array')), lab.callx('builtins.len', lab.call(el, 'findall', 'IndexMap'))
    for cls in ('LUT1D', 'LUT3D'):
        def th(cls=cls):
            d1, n1, d2, n2 = (1, 3, 3, 6) if cls == 'LUT1D' else ([2, 2, 2], 24, [1, 2, 1], 6)
            l = lab.new(cls)
            for d, n, nm in ((d1, n1, 'o'), (d2, n2, 't')):
                lab.call(l, 'setArray', d if cls == 'LUT1D' else lab.list(d), lab.list([S('%s%d' % (nm, i)) for i in range(n)]))
            for nm in 'op':
                lab.call(l, 'setIndexMaps', lab.list([lab.list([S(nm + 'x0'), S(nm + 'x1')]), lab.list([S(nm + 'y0'), S(nm + 'y1')])]))
            return [lab.call(l, 'getLUTDimensions'), lab.call(l, 'getLUTValues'), I.getitem(lab.call(l, 'getIndexMapValues', 0), Const(0)), I.getitem(lab.call(l, 'getIndexMapValues', 0), Const(1))] + list(arrays(l))
        case('replaced table of %s' % cls, cls + '.setArray', th, [('dimensions', [2, 3] if cls == 'LUT1D' else [1, 2, 1, 3]), ('values', [S('t%d' % i) for i in range(6)]), ('inputs', [S('px0'), S('px1')]), ('outputs', [S('py0'), S('py1')]), ('tables written', wrap(1)), ('index maps written', wrap(1))])

    def th():
        m = lab.new('Matrix', '32f', '32f')
        for nm in 'ot':
            lab.call(m, 'setMatrix', lab.list([3, 3]), lab.list([S('%s%d' % (nm, i)) for i in range(9)]))
        return [arrays(m)[0], lab.call(m, 'process', lab.list([1.0, 0.0, 0.0]))]
    case('replaced coefficients of Matrix', 'Matrix.setMatrix', th, [('arrays written', wrap(1)), ('in effect', [S('t0'), S('t3'), S('t6')])])
    for cls in ('LUT1D', 'LUT3D'):
        def th(cls=cls):
            l = lab.new(cls)
            maps = lambda nm: lab.list([lab.list([S(nm + 'x0'), S(nm + 'x1')]), lab.list([S(nm + 'y0'), S(nm + 'y1')])])
            lab.call(l, 'setIndexMaps', maps('o'), maps('p'), maps('q'))
            lab.call(l, 'setIndexMaps', maps('r'))
            a = [arrays(l)[1]]
            lab.call(l, 'setIndexMaps', maps('s'), maps('t'), maps('u'))
            return a + [arrays(l)[1]] + [I.getitem(lab.call(l, 'getIndexMapValues', c), Const(0)) for c in range(3)]
        case('replaced index maps of %s' % cls, cls + '.setIndexMaps', th, [('one instead of three', wrap(1)), ('three instead of one', wrap(3))] + [('inputs %d' % c, [S('stu'[c] + 'x0'), S('stu'[c] + 'x1')]) for c in range(3)])

    # ---- arrays and index maps themselves
    def th():
        a = lab.new('Array')
        out = []
        lab.call(a, 'setDimensions', lab.list([2, 3]))
        lab.call(a, 'setValues', lab.list([S('t%d' % i) for i in range(6)]))
        out += [lab.call(a, 'getDimensions'), lab.call(a, 'getValues')]
        lab.call(a, 'setValues', lab.list([S('u%d' % i) for i in range(6)]))
        out += [lab.call(a, 'getDimensions'), lab.call(a, 'getValues')]
        for v in (True, False):
            lab.call(a, 'setValuesAreIntegers', v)
            lab.call(a, 'setRawHalfs', not v)
            out += [lab.call(a, 'getValuesAreIntegers'), lab.call(a, 'getRawHalfs')]
        for e in ('integer16bit', 'integer32bit', 'string'):
            lab.call(a, 'setFloatEncoding', e)
            out.append(lab.call(a, 'getFloatEncoding'))
        return out
    case('array', 'Array', th, [('dimensions', [2, 3]), ('values', [S('t%d' % i) for i in range(6)]), ('dimensions afterwards', [2, 3]), ('values replaced', [S('u%d' % i) for i in range(6)]),
                                ('integers', TRUE), ('raw halfs', FALSE), ('integers off', FALSE), ('raw halfs on', TRUE), ('encoding 16', wrap('integer16bit')), ('encoding 32', wrap('integer32bit')), ('encoding text', wrap('string'))])
    for k, (i, h) in enumerate([(False, True), (True, False)]):
        case('array made with arguments %d' % k, 'Array.__init__',
             lambda i=i, h=h: [lab.call(lab.new('Array', lab.list([1, 2]), lab.list([S('a'), S('b')]), i, h, 'integer64bit'), m) for m in ('getDimensions', 'getValues', 'getValuesAreIntegers', 'getRawHalfs', 'getFloatEncoding')],
             [('dimensions', [1, 2]), ('values', [S('a'), S('b')]), ('integers', Const(i)), ('raw halfs', Const(h)), ('encoding', Const('integer64bit'))])

    def th():
        m = lab.new('IndexMap', 2, lab.list([lab.list([S('a'), S('b')]), lab.list([S('c'), S('d')])]))
        out = [lab.call(m, 'getDimension')] + [I.getitem(lab.call(m, 'getValues'), Const(j)) for j in (0, 1)]
        lab.call(m, 'setDimension', 3)
        lab.call(m, 'setValues', lab.list([lab.list([S('p%d' % i) for i in range(3)]), lab.list([S('q%d' % i) for i in range(3)])]))
        out += [lab.call(m, 'getDimension')] + [I.getitem(lab.call(m, 'getValues'), Const(j)) for j in (0, 1)]
        out += [lab.call(m, 'getUseCachedProcessue')]
        lab.call(m, 'setuseCachedProcess', True)
        return out + [lab.call(m, 'getUseCachedProcessue')]
    case('index map', 'IndexMap', th, [('dimension', wrap(2)), ('inputs', [S('a'), S('b')]), ('outputs', [S('c'), S('d')]), ('dimension replaced', wrap(3)),
                                       ('inputs replaced', [S('p%d' % i) for i in range(3)]), ('outputs replaced', [S('q%d' % i) for i in range(3)]), ('cache off', FALSE), ('cache on', TRUE)])

    # ---- references
    for v in (True, False):
        case('reference written self-contained: %s' % v, 'Reference.getWriteReferencedNodes', lambda v=v: [lab.call(after(lab.new('Reference', writeReferencedNodes=not v), ('setWriteReferencedNodes', v)), 'getWriteReferencedNodes'),
                                                                                                  lab.call(lab.new('Reference', writeReferencedNodes=v), 'getWriteReferencedNodes')], [Const(v), Const(v)])
        case('paths of a reference %s' % v, 'Reference.__init__', lambda: I.vfs.update({Const('base/p.clf'): T.ABSENT}) or [lab.call(lab.new('Reference', '16f', '16f', 'i', 'n', 'p.clf', 'base', 'al'), 'getAttribute', k) for k in ('path', 'basePath', 'alias', 'id', 'name')]
             + [lab.call(lab.new('Reference'), 'getAttribute', k) for k in ('path', 'basePath', 'alias')], [wrap('p.clf'), wrap('base'), wrap('al'), wrap('i'), wrap('n'), NONE, NONE, NONE])

    # ---- feature sets
    for v in range(16):
        def th(v=v):
            a = [lab.fcall('getFeatureCompatibility')]
            lab.features(v)
            a.append(lab.fcall('getFeatureCompatibility'))
            lab.features(15 - v)
            a.append(lab.fcall('getFeatureCompatibility'))
            return a
        case('feature set %d' % v, 'getFeatureCompatibility', th, [('by default', wrap(15)), ('set', wrap(v)), ('set again', wrap(15 - v))])

    # ---- parameters read by the setters of ranges
    for which in range(16):
        def th(which=which):
            r = lab.new('Range')
            for j, n in enumerate(('minInValue', 'maxInValue', 'minOutValue', 'maxOutValue')):
                if which >> j & 1:
                    lab.call(r, 'set' + n[0].upper() + n[1:], S(n))
            return [lab.call(r, 'getValueElement', n) for n in ('minInValue', 'maxInValue', 'minOutValue', 'maxOutValue')]
        case('limits of a range, set %d' % which, 'Range.setMinInValue', th, lambda which=which: [(n, S(n) if which >> j & 1 else NONE) for j, n in enumerate(('minInValue', 'maxInValue', 'minOutValue', 'maxOutValue'))])
    case('style and default range', 'Range.setStyle', lambda: [lab.call(after(lab.new('Range', style='clamp'), ('setStyle', 'noClamp')), 'getAttribute', 'style'), lab.call(after(lab.new('Range'), ('setDefaultRange', True)), 'getAttribute', 'defaultRange'),
         lab.call(after(lab.new('Range', defaultRange=True), ('setDefaultRange', False)), 'getAttribute', 'defaultRange'), lab.call(lab.new('Range'), 'getAttribute', 'style')],
         [('style', wrap('noClamp')), ('default range on', TRUE), ('default range off', NONE), ('no style', NONE)])

    # ---- flags in a file are true or false as their text says; other attributes stay text
    for c, flags in (('Range', ('bypass', 'defaultRange')), ('LUT1D', ('bypass', 'halfDomain', 'rawHalfs')), ('Matrix', ('bypass',)), ('Group', ('bypass',))):
        for text, e in (('True', TRUE), ('False', FALSE), ('true', TRUE), ('false', FALSE)):
            def th(c=c, flags=flags, text=text):
                el = lab.callx('etree.Element', c)
                for k in flags + ('id', 'name'):
                    lab.call(el, 'set', k, text)
                n = lab.new(c)
                lab.call(n, 'read', el)
                return [lab.callx('builtins.bool', lab.call(n, 'getAttribute', k)) for k in flags] + [lab.call(n, 'getAttribute', k) for k in ('id', 'name')]
            case('%s flags written %s' % (c, text), c + '.read', th, lambda flags=flags, text=text, e=e: [(k, e) for k in flags] + [('id', wrap(text)), ('name', wrap(text))])

    # ---- errors say why; the base node changes nothing
    for c in ('UnknownProcessNodeError', 'UnsupportedExtensionError'):
        for t in ('the reason', 'Unsupported feature : %s', ''):
            case('%s for %r' % (c, t), c, lambda c=c, t=t: [I.getattr(lab.new(c, t), 'msg'), lab.callx('builtins.str', lab.new(c, t))], [('reason', wrap(t)), ('as text', wrap(repr(t)))])
    for k in (3, 4, 6):
        case('base node on %d values' % k, 'ProcessNode.process', lambda k=k: [lab.call(lab.new('ProcessNode'), 'process', lab.list([S('x%d' % i) for i in range(k)]), *([] if k == 3 else [k]))], [[S('x%d' % i) for i in range(k)]])

    # ---- several objects do not share
    for c in NODES + ['ProcessList']:
        def th(c=c):
            a, b = lab.new(c), lab.new(c)
            lab.call(a, 'setAttribute', 'key', 'of a')
            lab.call(b, 'addValueElement', 'elem', 'of b')
            return [lab.call(b, 'getAttribute', 'key'), lab.call(a, 'getValueElement', 'elem'), lab.call(a, 'getAttribute', 'key'), lab.call(b, 'getValueElement', 'elem'), lab.call(lab.new(c), 'getAttribute', 'key')]
        case('two objects of class %s' % c, c + '.setAttribute', th, [NONE, NONE, wrap('of a'), wrap('of b'), NONE])
    ck.parallel(jobs)
    return ck.finish('Setters followed by getters for every class, with values that are false in conditions; constructor arguments by position and keyword; members by name and position.',
                     ['an attribute or parameter that was never given reads as None'], floor=800)


def after(o, *calls):
    lab = LAB[0]
    for c in calls:
        lab.call(o, *c)
    return o


def T_(lab, cls, *a):
    l = lab.new(cls)
    lab.call(l, 'setArray', a[0], lab.list(a[1]))
    return l


LAB = []

if __name__ == '__main__':
    main(run)
