import functools
from common import *
import heap, zoo


def run(tier):
    ck = Check('C15', tier, 'no write effect of evaluation, writing, printing or querying on the caller data, the transform or global state; a second evaluation has the same value graph')
    lab = Lab()
    jobs = []
    deep = tier != 'quick'
    E = zoo.entries(lab, deep)

    def caller(kind, n):
        vals = [xs(i) for i in range(n)]
        if kind == 'list':
            return lab.list(vals)
        if kind == 'tuple':
            return Tup(tuple(vals))
        if kind == 'ints':
            return lab.list([sym('n%d' % i, 'int') for i in range(n)])
        return lab.callx('np.array', lab.list(vals), Op('ext', ('np.' + kind,), 'ext'))

    def wrapped(e, how, k):
        """the process list that holds the node"""
        n = e.mk()
        zoo.describe(lab, n)
        pl = lab.new('ProcessList')
        lab.call(pl, 'addElement', lab.new('Info', 'rel', 'copy'))
        if how == 'group':
            g = lab.new('Group', '16f', '16f', 'g', 'g')
            lab.call(g, 'addProcess', n)
            n = g
        if how == 'bypassed':
            lab.call(n, 'setAttribute', 'bypass', True)
            lab.call(pl, 'addProcess', lab.new('Range', '16f', '10i', 'r', 'r', 'noClamp'))
            lab.call(pl, 'addProcess', n)
            lab.call(pl, 'addProcess', lab.new('Range', '12i', '16f', 'r', 'r', 'noClamp'))
            return pl
        lab.call(pl, 'addProcess', n)
        if how == 'second':
            lab.call(pl, 'addProcess', lab.new('Range', '16f', '8i', 'r', 'r', 'noClamp'))
        return pl

    def evaluate(e, how, kind, verbose):
        nm = '%s %s, %s input%s' % (e.name, how, kind, ', verbose' if verbose else '')

        def go():
            ra = lab.run(lambda: lab.list([wrapped(e, how, 0), caller(kind, 8)]), e.facts)
            if not ck.no_raise(nm + ' | built', ra, e.ranges) or ra.v is None:
                return
            pl, vals = ra.item(ra.v, 0), ra.item(ra.v, 1)
            args = [vals, 4] + ([True] if verbose else [])
            rb = lab.run(lambda: lab.call(pl, 'process', *args), start=ra)
            ck.analysed(lab)
            if rb.v is None:
                return ck.no_raise(nm + ' | no exception', rb, e.ranges)
            heap.frame_check(ck, nm + ' | frame', e.cls + '.process', lab, ra.st, rb.st, [('input', vals), ('transform', pl)], 'evaluation writes to what it was given')
            d = heap.Diff(lab, rb.facts, e.ranges, strict_types=True)
            d.run(ra.st, pl, rb.st, pl)
            heap.settle(ck, nm + ' | transform as before', e.cls + '.process', d)
            d = heap.Diff(lab, rb.facts, e.ranges, strict_types=True)
            d.run(ra.st, vals, rb.st, vals)
            heap.settle(ck, nm + ' | input as before', e.cls + '.process', d)
            # the result is not an alias of the caller's data
            if isinstance(rb.v, Ref) and isinstance(vals, Ref):
                P = heap.reach(rb.st, [('input', vals)])
                R = heap.reach(rb.st, [('result', rb.v)])
                if set(P) & set(R):
                    ck.fail(nm + ' | result separate', e.cls + '.process', 'the result shares storage with the input sequence')
                else:
                    ck.ok(nm + ' | result separate')
            if kind == 'ints' and not deep:
                return
            rc = lab.run(lambda: lab.call(pl, 'process', vals, 4), start=rb)
            if rc.v is None:
                return ck.no_raise(nm + ' | second evaluation', rc, e.ranges)
            first = Result(lab, rb.v, rc.st, [], [], [], {})
            if rb.unmod or rc.unmod:
                return ck.unknown(nm + ' | same again', 'unmodelled')
            for i in range(8):
                ck.equal('%s | same again | sample %d' % (nm, i), e.cls + '.process', rc.item(rc.v, i), first.item(rb.v, i), rc.facts, e.ranges, 60)
        return functools.partial(ck.scenario, nm, go)

    def quiet(e, what):
        nm = '%s, %s' % (e.name, what)

        def go():
            ra = lab.run(lambda: wrapped(e, 'group' if what == 'write' and e.cls == 'Range' else 'plain', 0), e.facts)
            if ra.v is None:
                return ck.no_raise(nm + ' | built', ra, e.ranges)
            pl = ra.v

            def op():
                if what == 'write':
                    return lab.call(pl, 'write')
                if what == 'self-contained':
                    return lab.call(pl, 'write', writeSelfContained=True)
                if what == 'writeFile':
                    return lab.call(pl, 'writeFile', '/scratch/q.clf')
                if what == 'gzip':
                    return lab.call(pl, 'writeFile', '/scratch/q.clf', writeGzip=True)
                if what == 'print':
                    return lab.call(pl, 'printInfo')
                n = lab.I.getitem(lab.call(pl, 'getProcesses'), Const(0))
                for o, names in ((pl, ('getName', 'getNamespace', 'getID', 'getInverseOf', 'getCompCLFversion', 'getInBitDepth', 'getOutBitDepth', 'getProcesses')),
                                 (n, ('getElement', 'getNodeType', 'getInBitDepth', 'getOutBitDepth'))):
                    for q in names:
                        lab.call(o, q)
                for o in (pl, n):
                    lab.call(o, 'getAttribute', 'no such')
                    lab.call(o, 'getAttribute', 'name')
                    lab.call(o, 'getValueElement', 'no such')
                lab.call(n, 'getDynamicParam', 'exposure')
                lab.call(pl, 'getProcess', 'no such')
                if e.cls in ('LUT1D', 'LUT3D'):
                    lab.call(n, 'getLUTDimensions')
                    lab.call(n, 'getLUTValues')
                return lab.callx('builtins.len', pl)
            rb = lab.run(op, start=ra)
            ck.analysed(lab)
            if rb.v is None:
                return ck.no_raise(nm + ' | no exception', rb, e.ranges)
            heap.frame_check(ck, nm + ' | frame', e.cls + '.' + what, lab, ra.st, rb.st, [('transform', pl)], 'writes to the transform')
            d = heap.Diff(lab, rb.facts, e.ranges, strict_types=True)
            d.run(ra.st, pl, rb.st, pl)
            heap.settle(ck, nm + ' | transform as before', e.cls + '.' + what, d)
        return functools.partial(ck.scenario, nm, go)
    kinds = ('list', 'float32', 'float64', 'tuple', 'float16')
    hows = ('plain', 'second', 'group', 'bypassed')
    for i, e in enumerate(E):
        for what in ('write', 'writeFile', 'gzip', 'print', 'query', 'self-contained'):
            if deep or (i + len(what)) % 3 == 0 or what in ('write', 'print') and i % 2:
                jobs.append(quiet(e, what))
        if not e.run:
            continue
        if deep:
            for h in hows:
                for j, k in enumerate(kinds):
                    jobs.append(evaluate(e, h, k, j == i % 5))
        else:
            jobs.append(evaluate(e, hows[i % 4], kinds[(i // 4) % 5], i % 7 == 3))
            if e.cls not in ('LUT3D', 'LUT1D'):
                jobs.append(evaluate(e, 'plain', 'float32', False))
    ck.parallel(jobs)
    return ck.finish('Every node kind alone, followed by a node, inside a group and bypassed between differing depths; callers giving lists, tuples and arrays of each width; writing in each form, printing and querying.',
                     ['caches that are not part of the written, printed or compared state are ignored'], floor=200)


if __name__ == '__main__':
    main(run)
