import functools
from common import *
import zoo


def run(tier):
    ck = Check('C04', tier, 'value graph of every output element depends only on its own pixel, equals the graph of that pixel processed alone, and passes channels past the third through')
    lab = Lab()
    jobs = []
    deep = tier != 'quick'
    E = [e for e in zoo.entries(lab, deep) if e.run]

    def one(e, stride, n, wrapd, loc):
        nm = '%s | stride %d, %s pixels%s' % (e.name, stride, 'N' if isinstance(n, Val) else n, ', in a process list' if wrapd else '')

        def go():
            def mk():
                node = e.mk()
                if wrapd:
                    pl = lab.new('ProcessList')
                    lab.call(pl, 'addProcess', node)
                    return pl
                return node

            def buf(items):
                return lab.callx('np.array', lab.list(items), Op('ext', ('np.float32',), 'ext'))
            fs = list(e.facts) + ([n.ge(1)] if isinstance(n, Val) else [])
            size = wrap(n) * stride
            r = lab.run(lambda: lab.call(mk(), 'process', lab.arr('x', size), stride), fs)
            ck.analysed(lab)
            if not ck.no_raise(nm + ' | no exception', r, e.ranges) and r.v is None or r.v is None:
                return
            ck.equal(nm + ' | output length', e.cls + '.process', r.length(r.v), size, r.facts, e.ranges)
            for k in ([K] if isinstance(n, Val) else range(n)):
                ef = [K.ge(0), K.lt(n)] if isinstance(n, Val) else []
                base = wrap(k) * stride
                a = lab.run(lambda: lab.call(mk(), 'process', buf([xs(base + c) for c in range(stride)]), stride), fs + ef)
                if a.v is None:
                    ck.unknown(nm + ' | single pixel', 'not evaluated')
                    return
                f = r.facts
                for x in ef:
                    f = f.plus(x)
                rr = Result(lab, r.v, r.st.fork(), [], [], [], {})
                rr.st.facts = f
                for c in range(stride):
                    got = rr.item(r.v, base + c)
                    ck.equal('%s | pixel %s, channel %d as alone' % (nm, short(k, 8) if isinstance(k, Val) else k, c), e.cls + '.process', got, a.item(a.v, c), a.facts, e.ranges, 60)
                    if c >= max(3, e.channels) and e.cls not in ('Range', 'Group'):
                        ck.equal('%s | pixel %s, channel %d copied' % (nm, short(k, 8) if isinstance(k, Val) else k, c), e.cls + '.process', got, xs(base + c), f, e.ranges, 60)
                # nothing of another pixel is in the graph
                    for o in free_ops(wrap(got)) if got is not None else ():
                        if o.op == 'rd' and o.args[0] in ('x', Const('x')):
                            d = f.decide(compare('le', base, o.args[1])), f.decide(compare('lt', o.args[1], base + stride))
                            if False in d:
                                ck.fail('%s | pixel %s, channel %d reads' % (nm, k, c), e.cls + '.process', 'reads sample %s of another pixel' % short(o.args[1], 40))
        return functools.partial(ck.scenario, nm, go)
    for i, e in enumerate(E):
        heavy = e.cls in ('LUT3D', 'LUT1D')
        shapes = [(4, N), (3, 2), (5, 2)]
        if not deep:
            shapes = [shapes[0]] + ([shapes[1 + i % 2]] if not heavy else [])
        for s, n in shapes:
            if e.channels > s:
                s = e.channels
            jobs.append(one(e, s, n, False, 0))
        if i % (4 if not deep else 1) == 0:
            jobs.append(one(e, max(4, e.channels), 2, True, 0))
    ck.parallel(jobs)
    return ck.finish('Every operator with its styles on interleaved buffers of a symbolic number of pixels (and fixed ones) with three to five channels, compared with the same pixel processed alone.',
                     ['tables hold finite values'], floor=100)


if __name__ == '__main__':
    main(run)
