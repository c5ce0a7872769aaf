import functools, itertools, os
from common import *
import files
from clfstatic import terms as T
import c25, c27
from c25 import fn, STUBS

RGBV = [sym(n, 'float') for n in 'rgb']


def run(tier):
    ck = Check('C28', tier, 'the nodes made from each OCIO transform: their effect on a symbolic pixel equals the effect of the transform; files are requested with the stated inversion, path and interpolation, and nodes come in the order of the transforms')
    B = c27.Bench()
    lab, ocio = B.lab, B.ocio
    tool = B.tools['convertOCIOtoCLF']
    I = lab.I
    deep = tier != 'quick'
    jobs = []

    def ready(nm, r, con):
        ck.analysed(lab)
        if not ck.no_raise(nm + ' | no exception', r, {}, construct=con):
            return False
        if r.unmod:
            ck.unknown(nm, 'unmodelled: %s' % (r.unmod[:2],))
            return False
        return True

    def px(n=3):
        return lab.callx('np.array', lab.list((RGBV + [sym('a', 'float')])[:n]), Op('ext', ('np.float32',), 'ext'))

    def mt(m, o, d='forward'):
        return fn(lab, ocio, 'MatrixTransform', lab.list(m), lab.list(o), d)

    def effect(m, o):
        return [sum([wrap(m[4 * i + j]) * RGBV[j] for j in range(3)], Const(0.0)) + wrap(o[i]) for i in range(3)]
    TRIV = {3: 0.0, 7: 0.0, 11: 0.0, 12: 0.0, 13: 0.0, 14: 0.0, 15: 1.0}

    def triv(name='m'):
        return [Const(TRIV[i]) if i in TRIV else sym('%s%d' % (name, i), 'float') for i in range(16)]

    def convert(t):
        return fn(lab, tool, 'convertTransformsToProcessNodes', t)

    def shape(r, node):
        a = r.attr(node, '_array')
        d, v = r.attr(a, '_dimensions'), r.attr(a, '_values')
        return [r.item(d, i) for i in range(r.length(d).v)], [r.item(v, i) for i in range(r.length(v).v)]

    def matrices(nm, m, o, direct):
        """trivial alpha: the effect of the matrix and the offset on a pixel"""
        def go():
            con = 'convertMatrixToProcessNode'

            def build():
                if direct:
                    ns = lab.list([fn(lab, tool, 'convertMatrixToProcessNode', lab.list(m), lab.list(o), 'forward')])
                else:
                    ns = convert(mt(m, o))
                n0 = I.getitem(ns, Const(0))
                v = lab.call(n0, 'process', px())
                return lab.list([I.getitem(v, Const(i)) for i in range(3)] + [I.getitem(I.getattr(I.getattr(n0, '_array'), '_dimensions'), Const(0)), lab.callx('builtins.len', ns),
                                 I.getitem(I.getattr(I.getattr(n0, '_array'), '_dimensions'), Const(1)), lab.callx('builtins.len', I.getattr(I.getattr(n0, '_array'), '_values'))])
            r = lab.run(build)
            if not ready(nm, r, con):
                return
            ck.equal(nm + ' | nodes', con, r.item(r.v, 4), Const(1), r.facts)
            for i, e in enumerate(effect(m, o)):
                ck.equal('%s | channel %d' % (nm, i), con, r.item(r.v, i), e, r.facts, {})
            # the matrix has three rows
            ck.equal(nm + ' | rows', con, r.item(r.v, 3), Const(3), r.facts)
            # and as many coefficients as its dimensions say
            ck.equal(nm + ' | number of coefficients', con, r.item(r.v, 6), r.item(r.v, 3) * r.item(r.v, 5), r.facts)
        return functools.partial(ck.scenario, nm, go)
    OFF = {'no offset': [0.0] * 4, 'red offset': [sym('o0', 'float'), 0.0, 0.0, 0.0], 'green offset': [0.0, sym('o1', 'float'), 0.0, 0.0], 'blue offset': [0.0, 0.0, sym('o2', 'float'), 0.0],
           'offsets': [sym('o%d' % i, 'float') for i in range(4)], 'a negative offset': [0.0, -.25, 0.0, 0.0], 'only an alpha offset': [0.0, 0.0, 0.0, sym('o3', 'float')], 'tiny offsets': [1e-7, 0.0, -1e-8, 0.0]}
    for on, o in OFF.items():
        for direct in (True, False):
            jobs.append(matrices('matrix with trivial alpha and %s%s' % (on, ', directly' if direct else ''), triv(), o, direct))

    def kept(nm, m, o, dims):
        """other sizes keep coefficients and shape"""
        def go():
            con = 'convertMatrixToProcessNode'
            r = lab.run(lambda: convert(mt(m, o)))
            if not ready(nm, r, con):
                return
            if r.length(r.v) is not Const(1):
                return ck.fail(nm + ' | nodes', con, '%s nodes' % short(r.length(r.v), 10))
            d, v = shape(r, r.item(r.v, 0))
            for i, e in enumerate(dims):
                ck.equal('%s | dimension %d' % (nm, i), con, d[i], Const(e), r.facts)
            if len(v) != len(m):
                return ck.fail(nm + ' | coefficients', con, '%d coefficients' % len(v))
            for i, e in enumerate(m):
                ck.equal('%s | coefficient %d' % (nm, i), con, v[i], wrap(e), r.facts, {})
        return functools.partial(ck.scenario, nm, go)
    for k in sorted(TRIV):
        m = triv()
        m[k] = Const(.25)
        for on in ('no offset', 'offsets'):
            jobs.append(kept('matrix with alpha coefficient %d and %s' % (k, on), m, OFF[on], (4, 4)))
    for n, dims in ((9, (3, 3)), (12, (3, 4)), (16, (4, 4))):
        m = [sym('m%d' % i, 'float') for i in range(n)] if n < 16 else [Const(.5 + i) for i in range(16)]
        jobs.append(kept('matrix of %d coefficients' % n, m, OFF['no offset'], dims))

    def none(nm, t, con):
        def go():
            r = lab.run(lambda: convert(t()))
            if ready(nm, r, con):
                ck.equal(nm + ' | no nodes', con, r.length(r.v), Const(0), r.facts)
        return functools.partial(ck.scenario, nm, go)
    for n, d in itertools.product((0, 1, 3, 8, 10, 15, 17), ('forward', 'inverse')):
        jobs.append(none('matrix of %d coefficients, %s' % (n, d), lambda n=n, d=d: mt([Const(1.0)] * n, [0.0] * 4, d), 'convertMatrixToProcessNode'))

    # ---- logarithms
    def logs(base, direction, style, direct):
        nm = 'log of base %s, %s%s' % (base, direction, ', directly' if direct else '')

        def go():
            con = 'convertLogToProcessNode'
            def build():
                ns = lab.list([fn(lab, tool, 'convertLogToProcessNode', base, direction)]) if direct else convert(fn(lab, ocio, 'LogTransform', base, direction))
                n0 = I.getitem(ns, Const(0))
                # the effect, against a log node of the style made by hand
                q, p = lab.call(n0, 'process', px()), lab.call(lab.new('Log', '16f', '16f', 'l', 'l', style), 'process', px())
                return Tup((ns, lab.call(n0, 'getAttribute', 'style')) + tuple(I.getitem(x, Const(i)) for x in (q, p) for i in range(3)))
            r = lab.run(build)
            if not ready(nm, r, con):
                return
            it = r.v.items
            ck.equal(nm + ' | nodes', con, r.length(it[0]), Const(1), r.facts)
            ck.equal(nm + ' | style', con, it[1], Const(style), r.facts)
            for i in range(3):
                ck.equal('%s | channel %d' % (nm, i), con, it[2 + i], it[5 + i], r.facts, {})
        return functools.partial(ck.scenario, nm, go)
    for b, d, direct in itertools.product((10, 2, 10.0, 2.0), ('forward', 'inverse'), (True, False)):
        jobs.append(logs(b, d, ('log' if d == 'forward' else 'antiLog') + str(int(b)), direct))

    # ---- files
    def file_(nm, direction, interp, search, flags, src='a/b.xa', want=None, depth=0):
        def go():
            con = 'convertTransformsToProcessNodes'

            def build():
                t = fn(lab, ocio, 'FileTransform', src, interp, direction)
                for _ in range(depth):
                    t = fn(lab, ocio, 'GroupTransform', lab.list([t]))
                kw = {} if flags is None else {'inversesUseIndexMaps': flags[0], 'inversesUseHalfDomain': flags[1]}
                if search is not None:
                    kw['lutSearchPath'] = search
                return fn(lab, tool, 'convertTransformsToProcessNodes', t, **kw)
            r = lab.run(build)
            if not ready(nm, r, con):
                return
            c = r.st.get(B.fmts.oid).d['CALLS']
            cs = [r.item(c, i).items for i in range(r.length(c).v)]
            if len(cs) != 1:
                return ck.fail(nm + ' | reading', con, 'the file is read %d times' % len(cs))
            _, _, p, inv, it, maps, half = cs[0]
            for w, got, e in (('path', p, want or src), ('inverse', inv, direction != 'forward'), ('interpolation', it, interp), ('index maps', maps, True if flags is None else flags[0]), ('half domain', half, True if flags is None else flags[1])):
                ck.equal('%s | %s' % (nm, w), con, got, Const(e), r.facts)
            kinds = [r.st.get(r.obj(r.item(r.v, i)).cls.oid).meta.name for i in range(r.length(r.v).v)]
            ck.true(nm + ' | nodes', con, kinds == ['Range', 'Matrix'], msg='nodes %s' % kinds)
        return functools.partial(ck.scenario, nm, go)
    for d, it in itertools.product(('forward', 'inverse', 'unknown'), ('linear', 'nearest', 'tetrahedral', 'best')):
        jobs.append(file_('file %s %s' % (d, it), d, it, None, None))
    for d, fl in itertools.product(('forward', 'inverse'), ((True, False), (False, True), (False, False))):
        jobs.append(file_('file %s, index maps %s, half domain %s' % (d, fl[0], fl[1]), d, 'linear', '/scratch/s', fl, want='/scratch/s/a/b.xa'))
    for dp, d, fl in itertools.product((1, 2), ('forward', 'inverse'), ((True, False), (False, True), (False, False), None)):
        jobs.append(file_('file in %d groups %s, flags %s' % (dp, d, fl), d, 'nearest', '/scratch/s', fl, want='/scratch/s/a/b.xa', depth=dp))
    jobs.append(file_('file with an absolute path', 'inverse', 'linear', '/scratch/s', None, '/abs/c.xa', '/abs/c.xa'))

    # ---- groups: order
    def leaf(k, kind='matrix', numeric=False):
        if kind in ('matrix', 'offset'):
            o = [0.0] * 4 if kind == 'matrix' else [k + i / 8. for i in range(3)] + [0.0] if numeric else [sym('g%d_o%d' % (k, i), 'float') for i in range(3)] + [0.0]
            return mt([Const(TRIV[i]) if i in TRIV else Const(k + i / 32.) if numeric else sym('g%d_%d' % (k, i), 'float') for i in range(16)], o)
        if kind == 'log':
            return fn(lab, ocio, 'LogTransform', 2, 'forward' if k % 2 else 'inverse')
        if kind == 'file':
            return fn(lab, ocio, 'FileTransform', 'f%d.xa' % k, 'linear', 'forward')
        if kind == 'bad file':
            return fn(lab, ocio, 'FileTransform', 'f%d.fa' % k, 'linear', 'forward')
        if kind == 'inverse matrix':
            return mt([sym('g%d_%d' % (k, i), 'float') for i in range(16)], [0.0] * 4, 'inverse')
        if kind == 'none':
            return NONE
        return fn(lab, ocio, kind)

    def tree(spec, n, numeric=False):
        """nested tuples of kinds -> transform, kinds in order"""
        if isinstance(spec, str):
            n[0] += 1
            return leaf(n[0], spec, numeric)
        return fn(lab, ocio, 'GroupTransform', lab.list([tree(s, n, numeric) for s in spec]))

    def leaves(spec):
        return [spec] if isinstance(spec, str) else [x for s in spec for x in leaves(s)]

    def expected(spec):
        out = []
        for k, s in enumerate(leaves(spec)):
            k += 1
            if s == 'matrix' or s == 'offset':
                out.append(('Matrix', sym('g%d_0' % k, 'float')))
            elif s == 'log':
                out.append(('Log', 'log2' if k % 2 else 'antiLog2'))
            elif s == 'file':
                out += [('Range', None), ('Matrix', None)]
        return out

    def order(nm, spec):
        def go():
            con = 'convertTransformsToProcessNodes'
            r = lab.run(lambda: convert(tree(spec, [0])), [compare('lt', Const(0.0), sym('g%d_o0' % k, 'float')) for k in range(12)])
            if not ready(nm, r, con):
                return
            want = expected(spec)
            n = r.length(r.v).v
            kinds = [r.st.get(r.obj(r.item(r.v, i)).cls.oid).meta.name for i in range(n)]
            ck.true(nm + ' | kinds', con, kinds == [w[0] for w in want], msg='nodes %s instead of %s' % (kinds, [w[0] for w in want]))
            if kinds != [w[0] for w in want]:
                return
            for i, (kd, v) in enumerate(want):
                node = r.item(r.v, i)
                if kd == 'Log':
                    ck.equal('%s | node %d style' % (nm, i), con, r.do(lambda: lab.call(node, 'getAttribute', 'style')), Const(v), r.facts)
                elif v is not None:
                    ck.equal('%s | node %d' % (nm, i), con, shape(r, node)[1][0], v, r.facts)
        return functools.partial(ck.scenario, nm, go)
    TREES = [('matrix',), ('matrix', 'log', 'matrix'), (('matrix', 'offset'), 'log', ('matrix',)), ('log', ('matrix', ('log', 'matrix', ('offset',)), 'log'), 'matrix'), ('file', 'matrix', ('file', 'log')),
             (), ((), 'matrix'), ('CDLTransform', 'matrix', 'ExponentTransform', 'log'), ('matrix', 'bad file', 'log'), ('matrix', 'inverse matrix', 'log'), 'none', ('none', 'matrix'), 'CDLTransform', 'inverse matrix', 'bad file']
    for k, t in enumerate(TREES):
        jobs.append(order('transforms %s' % (t,), t))

    # ---- whole conversions: sources before destinations
    SPACES = {'one': (('matrix', 'log'), 'offset'), 'two': ('offset', ('log', 'matrix')), 'three': (('log',), ('matrix',)), 'four': ('file', ('matrix', 'matrix')), 'none': ('none', 'none')}

    def whole(srcs, dsts):
        nm = 'conversion from %s to %s' % (' '.join(srcs) or 'nothing', ' '.join(dsts) or 'nothing')

        def go():
            con = 'convertOCIOtoCLF'
            used = []

            def build():
                n = [0]
                sp = []
                for s, (a, b) in SPACES.items():
                    used.append((s, 0, n[0], a))
                    ta = tree(a, n, True)
                    used.append((s, 1, n[0], b))
                    tb = tree(b, n, True)
                    sp.append(Tup((Const(s), ta, tb)))
                fn(lab, ocio, 'Config', '/scratch/c.ocio', 'luts', lab.list(sp))
                fn(lab, tool, 'convertOCIOtoCLF', '/scratch/c.ocio', lab.list(list(srcs)), lab.list(list(dsts)), '/scratch/o.clf', True, False)
                return NONE
            r = lab.run(build)
            if not ready(nm, r, con):
                return
            # what the file holds, in order
            want = []
            for s, side in [(s, 0) for s in srcs] + [(d, 1) for d in dsts]:
                (_, _, n0, spec), = [u for u in used[:2 * len(SPACES)] if u[0] == s and u[1] == side]
                for k, l in enumerate(leaves(spec)):
                    k += n0 + 1
                    if l in ('matrix', 'offset'):
                        want.append(('Matrix', Const(float(k))))
                    elif l == 'log':
                        want.append(('Log', 'log2' if k % 2 else 'antiLog2'))
                    elif l == 'file':
                        want += [('Range', None), ('Matrix', None)]
            o = [n for n, m in B.opened(r) if m and 'w' in m]
            if not want:
                return ck.true(nm + ' | nothing to write', con, not o, msg='a file was written')
            ck.true(nm + ' | output file', con, o == ['/scratch/o.clf'], msg='wrote %s' % o)
            if o != ['/scratch/o.clf']:
                return
            r2 = lab.run(lambda: lab.new('ProcessList', '/scratch/o.clf'), start=r)
            if not ready(nm + ' read back', r2, con):
                return
            ps = r2.attr(r2.v, '_processes')
            n = r2.length(ps).v
            kinds = [r2.st.get(r2.obj(r2.item(ps, i)).cls.oid).meta.name for i in range(n)]
            ck.true(nm + ' | kinds', con, kinds == [w[0] for w in want], msg='nodes %s instead of %s' % (kinds, [w[0] for w in want]))
            if kinds != [w[0] for w in want]:
                return
            for i, (kd, v) in enumerate(want):
                node = r2.item(ps, i)
                if kd == 'Log':
                    ck.equal('%s | node %d style' % (nm, i), con, r2.do(lambda: lab.call(node, 'getAttribute', 'style')), Const(v), r2.facts)
                elif v is not None:
                    ck.equal('%s | node %d' % (nm, i), con, shape(r2, node)[1][0], v, r2.facts)
        return functools.partial(ck.scenario, nm, go)
    names = list(SPACES)
    sel = [(s,) for s in names] + [()] + list(itertools.permutations(['one', 'two', 'four'], 2))
    for k, (s, d) in enumerate(itertools.product(sel, sel)):
        if deep or len(s) + len(d) < 3 or k % 3 == 0:
            jobs.append(whole(s, d))

    def absent(nm, srcs, dsts):
        def go():
            con = 'convertOCIOtoCLF'

            def build():
                sp = [Tup((Const(s), tree('log', [0], True), tree('offset', [0], True))) for s in ('one', 'two')]
                fn(lab, ocio, 'Config', '/scratch/c.ocio', 'luts', lab.list(sp))
                fn(lab, tool, 'convertOCIOtoCLF', '/scratch/c.ocio', lab.list(srcs), lab.list(dsts), '/scratch/o.clf', True, False)
                return NONE
            r = lab.run(build)
            if ready(nm, r, con):
                ck.true(nm + ' | nothing written', con, not [n for n, m in B.opened(r) if m and 'w' in m], msg='a file was written without the unknown space')
        return functools.partial(ck.scenario, nm, go)
    for s, d in ((['other'], []), ([], ['other']), (['one', 'other'], ['two']), (['one'], ['two', 'other']), (['other'], ['other'])):
        jobs.append(absent('unknown color space, from %s to %s' % (' '.join(s) or 'nothing', ' '.join(d) or 'nothing'), s, d))
    ck.parallel(jobs)
    return ck.finish('matrix transforms with symbolic coefficients and offsets, log transforms, file transforms recorded at the LUT registry, nested groups of all kinds of transforms, and whole configurations read back from the written file.',
                     ['PyOpenColorIO is a stand-in', 'inverse matrices, other transform kinds and directions of groups are not supported by the tool', 'the offset of a matrix with a non-trivial alpha is not judged'], floor=300)


if __name__ == '__main__':
    main(run)
