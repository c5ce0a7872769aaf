import functools, itertools
from common import *
import heap, zoo
from clfstatic import terms as T

HERE = os.path.dirname(os.path.abspath(__file__))


def run(tier):
    ck = Check('C17', tier, 'value graph of a list of nodes equals the composition of the nodes in order with the stride passed on; bypassed nodes replaced by the identity or the unclamped bit-depth rescale')
    lab = Lab()
    probe = lab.load(os.path.join(HERE, 'stubs', 'probe.py'), 'probe')
    deep = tier != 'quick'
    jobs = []

    def S(n):
        return sym(n, 'float')
    PR = {}
    for i in range(6):
        PR.update({'a%d' % i: (.5, 2), 'b%d' % i: (-1, 1), 'c%d' % i: (-.3, .3)})
    PR['x'] = (-400, 900)

    def mk(i, ind, outd):
        p = lab.I.call(lab.cls('Probe', probe), [wrap(ind), wrap(outd), S('a%d' % i), S('b%d' % i), S('c%d' % i)], {})
        return p

    def eff(i, v, stride):
        return v * S('a%d' % i) + S('b%d' % i) + stride * S('c%d' % i)

    def container(kind, nodes):
        pl = lab.new('ProcessList')
        if kind == 'list':
            for n in nodes:
                lab.call(pl, 'addProcess', n)
            return pl
        g = lab.new('Group', '16f', '16f', 'g', 'g')
        for n in nodes:
            lab.call(g, 'addProcess', n)
        if kind == 'group alone':
            return g
        lab.call(pl, 'addProcess', g)
        return pl

    def sequence(kind, depths, flags, stride, features, how, verbose, outer='16f', extra=None, inputs='list', name=None):
        """depths: (in, out) per node; flags: bypass attribute per node (None = not set)"""
        nm = name or '%s of %s, stride %s, features %#x, %s%s, input %s%s' % (kind, '+'.join('%s>%s%s' % (a, b, {None: '', True: ' bypassed', False: ' bypass=False', 'True': ' bypassed (text)', 'False': ' not bypassed (text)'}[f])
                                                                 for (a, b), f in zip(depths, flags)), stride, features, how, ' verbose' if verbose else '', inputs, '' if outer == '16f' else ' ' + outer)
        con = ('Group' if kind != 'list' else 'ProcessList') + '.process'
        count = 8 if stride != 3 else 6

        def go():
            fs = [compare('gt', S('a%d' % i), Const(0.0)) for i in range(len(depths))]

            def thunk():
                lab.features(features)
                nodes = []
                for i, (a, b) in enumerate(depths):
                    n = mk(i, a, b)
                    f = flags[i]
                    if f is not None:
                        lab.call(n, 'setAttribute', 'bypass', f)
                    nodes.append(n)
                c = container(kind, nodes)
                if inputs == 'list':
                    v = lab.list([xs(i) for i in range(count)])
                elif inputs == 'tuple':
                    v = Tup(tuple(xs(i) for i in range(count)))
                elif inputs == 'symbolic':
                    v = lab.arr('x', N * 4)
                else:
                    v = lab.callx('np.array', lab.list([xs(i) for i in range(count)]), Op('ext', ('np.' + inputs,), 'ext'))
                a = [v]
                k = {}
                if how == 'positional':
                    a.append(stride)
                elif how == 'keyword':
                    k['stride'] = stride
                if verbose:
                    k['verbose'] = True
                return lab.call(c, 'process', *a, **k)
            if inputs == 'symbolic':
                fs.append(N.ge(1))
            r = lab.run(thunk, fs)
            ck.analysed(lab)
            if not ck.no_raise(nm + ' | no exception', r, PR) and r.v is None:
                return
            if r.v is None:
                return
            allowed = features & 1
            st = wrap(0) if how == 'default' else wrap(stride)

            def spec(v):
                for i in range(len(depths)):
                    off = flags[i] is True or flags[i] == 'True'
                    if not (off and allowed):
                        v = eff(i, v, st)
                    elif 0 < i < len(depths) - 1:
                        p, q = depths[i - 1][1], depths[i + 1][0]
                        v = v / FACTOR[p] * FACTOR[q] if p != q else v
                return v
            if inputs == 'symbolic':
                ck.equal(nm + ' | length', con, r.length(r.v), N * 4, r.facts, PR)
                f = r.facts.plus(K.ge(0)).plus(K.lt(N * 4))
                rr = Result(lab, r.v, r.st.fork(), [], [], [], {})
                rr.st.facts = f
                ck.equal(nm + ' | every sample', con, rr.item(r.v, K), spec(xs(K)), f, PR)
                return
            ck.equal(nm + ' | length', con, r.length(r.v), Const(count), r.facts, PR)
            for i in range(count):
                if deep or i in (0, count - 1) or i % 4 == 3:
                    ck.equal('%s | sample %d' % (nm, i), con, r.item(r.v, i), spec(xs(i)), r.facts, PR)
        return functools.partial(ck.scenario, nm, go)
    kinds = ('list', 'group in list', 'group alone')
    F = '16f'
    for kind in kinds:
        ins = ('list', 'float32', 'tuple', 'float64') if kind != 'group alone' else ('float32',)
        for n in (0, 1, 2, 3, 5):
            for j, (stride, how) in enumerate(((0, 'default'), (3, 'positional'), (4, 'keyword'), (4, 'positional'), (0, 'positional'))):
                jobs.append(sequence(kind, [(F, F)] * n, [None] * n, stride, 0xf if j % 2 else 0, how, j == n % 5, inputs=ins[(j + n) % len(ins)]))
        jobs.append(sequence(kind, [(F, F)] * 3, [None] * 3, 4, 0xf, 'positional', False, inputs='symbolic'))
        jobs.append(sequence(kind, [(F, F)] * 3, [None, True, None], 4, 0xf, 'positional', False, inputs='symbolic'))
        # bypass: positions, flags, features
        for feat in (0xf, 1, 0, 2):
            for pos in range(3):
                for fl in (True, False):
                    fl3 = [None] * 3
                    fl3[pos] = fl
                    jobs.append(sequence(kind, [(F, F)] * 3, fl3, 4, feat, 'positional', feat == 1, inputs=ins[pos % len(ins)]))
            jobs.append(sequence(kind, [(F, F)] * 3, [True, True, True], 4, feat, 'positional', feat == 1, inputs=ins[0]))
            jobs.append(sequence(kind, [(F, F)] * 4, [None, True, True, None], 4, feat, 'positional', feat == 1, inputs=ins[0]))
            jobs.append(sequence(kind, [(F, F)], [True], 4, feat, 'positional', False, inputs=ins[0]))
            jobs.append(sequence(kind, [(F, F)] * 2, [True, None], 4, feat, 'positional', False, inputs=ins[0]))
            jobs.append(sequence(kind, [(F, F)] * 2, [None, True], 4, feat, 'positional', False, inputs=ins[0]))
        # facing depths
        for p, q in itertools.product(DEPTHS, DEPTHS):
            own = (DEPTHS[(DEPTHS.index(p) + 1) % 6], DEPTHS[(DEPTHS.index(q) + 2) % 6])
            if not deep and kind == 'group alone' and (DEPTHS.index(p) + DEPTHS.index(q)) % 2:
                continue
            jobs.append(sequence(kind, [('32f', p), own, (q, '8i')], [None, True, None], 4, 0xf, 'positional', (p, q) == ('10i', '8i'), inputs=ins[0]))
            if deep or (p, q) in (('8i', '16f'), ('16f', '12i')):
                jobs.append(sequence(kind, [('32f', p), own, (q, '8i')], [None, True, None], 4, 0, 'positional', False, inputs=ins[0]))
                jobs.append(sequence(kind, [('32f', p), own, (q, '8i')], [None, False, None], 4, 0xf, 'positional', False, inputs=ins[0]))
                # the first and the last have no neighbour on one side
                jobs.append(sequence(kind, [own, (q, '8i')], [True, None], 4, 0xf, 'positional', False, inputs=ins[0]))
                jobs.append(sequence(kind, [('32f', p), own], [None, True], 4, 0xf, 'positional', False, inputs=ins[0]))
        # two bypassed nodes apart, each with its own neighbours
        jobs.append(sequence(kind, [('16f', '8i'), ('8i', '8i'), ('10i', '12i'), ('12i', '16i'), ('16f', '16f')], [None, True, None, True, None], 4, 0xf, 'positional', False, inputs=ins[0]))

    # ---- the real nodes: a list of them computes what the nodes compute one after the other
    E = [e for e in zoo.entries(lab, deep) if e.run]

    def real(es, wrapg, read):
        nm = '%s%s%s' % (' then '.join(e.name for e in es), ' in a group' if wrapg else '', ' with a bypass flag read from a file' if read else '')
        ranges = {}
        facts = []
        for e in es:
            ranges.update(e.ranges)
            facts += e.facts

        def go():
            def thunk():
                nodes = [e.mk() for e in es]
                pl = container('group in list' if wrapg else 'list', nodes)
                a = lab.call(pl, 'process', lab.list([xs(i) for i in range(4)]), 4)
                b = lab.callx('np.array', lab.list([xs(i) for i in range(4)]), Op('ext', ('np.float32',), 'ext'))
                for e in es:
                    b = lab.call(e.mk(), 'process', b, 4)
                return lab.list([a, b])
            r = lab.run(thunk, facts)
            ck.analysed(lab)
            if not ck.no_raise(nm + ' | no exception', r, ranges) or r.v is None:
                return
            for i in range(4):
                ck.equal('%s | channel %d' % (nm, i), ('Group' if wrapg else 'ProcessList') + '.process', r.item(r.v, 0, i), r.item(r.v, 1, i), r.facts, ranges)
        return functools.partial(ck.scenario, nm, go)
    simple = [e for e in E if e.cls in ('Matrix', 'Range', 'Log', 'Gamma', 'Reference', 'LUT1D', 'Group')]
    picks = simple if deep else simple[::3]
    for i, e in enumerate(picks):
        o = picks[(i * 7 + 3) % len(picks)]
        if o.cls == e.cls:
            o = picks[(i + len(picks) // 2) % len(picks)]
        if 'Matrix' in (e.cls, o.cls) and (e.channels > 4 or o.channels > 4):
            continue
        jobs.append(real([e, o] if e.cls in ('Matrix', 'Range') else [e], i % 2 == 0, False))

    # ---- a bypass flag that came through a file
    def flagged(text, feat, grouped):
        nm = 'bypass="%s" read from a file%s, features %#x' % (text, ' in a group' if grouped else '', feat)

        def go():
            def thunk():
                pl = lab.new('ProcessList')
                m = lab.new('Matrix')
                lab.call(m, 'setMatrix', lab.list([3, 3]), lab.list([sym('m%d' % i, 'float') for i in range(9)]))
                lab.call(m, 'setAttribute', 'bypass', text)
                if grouped:
                    g = lab.new('Group')
                    lab.call(g, 'addProcess', m)
                    lab.call(pl, 'addProcess', g)
                else:
                    lab.call(pl, 'addProcess', m)
                q = lab.new('ProcessList')
                lab.call(q, 'read', lab.call(lab.call(pl, 'write'), 'getroot'))
                lab.features(feat)
                return lab.call(q, 'process', lab.list([xs(0), xs(1), xs(2)]), 3)
            r = lab.run(thunk)
            ck.analysed(lab)
            if not ck.no_raise(nm + ' | no exception', r) or r.v is None:
                return
            for c in range(3):
                got = r.item(r.v, c)
                if text == 'True' and feat & 1:
                    ck.equal('%s | channel %d' % (nm, c), 'ProcessNode.read', got, xs(c), r.facts)
                else:
                    exp = sum((xs(i) * sym('m%d' % (3 * c + i), 'float') for i in range(1, 3)), xs(0) * sym('m%d' % (3 * c), 'float'))
                    ck.equal('%s | channel %d' % (nm, c), 'ProcessNode.read', got, exp, r.facts, {'m%d' % i: (-1, 1) for i in range(9)})
        return functools.partial(ck.scenario, nm, go)
    for t in ('True', 'False'):
        for feat in (0xf, 1, 0, 2):
            jobs.append(flagged(t, feat, False))
        jobs.append(flagged(t, 0xf, True))
    ck.parallel(jobs)
    return ck.finish('Lists, groups in a list and groups alone of up to five nodes whose effects do not commute and that expose the stride they were given, every bypass position and flag, all feature sets and all 36 pairs of facing depths; symbolic buffer lengths; the real nodes against one-by-one evaluation.',
                     ['a list of more nodes is not enumerated; the loop over nodes is unrolled for the lists above'], floor=300)


if __name__ == '__main__':
    main(run)
