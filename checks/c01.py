import functools
from common import *
import heap, zoo


def decorate(lab, n, k, cls):
    """attributes, dynamic parameters and descriptions that any node can carry"""
    if k % 2:
        lab.call(n, 'setAttribute', 'name', 'a name with blanks')
    if k % 3 == 1:
        lab.call(n, 'setAttribute', 'bypass', True)
    if k % 3 == 2:
        lab.call(n, 'setAttribute', 'bypass', False)
    if k % 4 == 1:
        lab.call(n, 'setDynamicParam', 'gamma')
    if k % 4 != 0:
        zoo.describe(lab, n, ('first', 'second')[:k % 4])
    return n


def run(tier):
    ck = Check('C01', tier, 'object graph rebuilt by reading equals the object graph that was written, for every stored field, and writes, evaluates and prints alike')
    lab = Lab()
    jobs = []
    deep = tier != 'quick'
    E = zoo.entries(lab, deep)

    def routes(pl, how):
        """write the process list and read it back"""
        if how == 'memory':
            root = lab.call(lab.call(pl, 'write'), 'getroot')
            q = lab.new('ProcessList')
            lab.call(q, 'read', root)
            return q
        if how == 'file':
            lab.call(pl, 'writeFile', '/scratch/t.clf')
            return lab.new('ProcessList', '/scratch/t.clf')
        if how == 'strict':
            lab.call(pl, 'writeFile', '/scratch/t.clf')
            q = lab.new('ProcessList')
            lab.call(q, 'readFile', '/scratch/t.clf', True)
            return q
        lab.call(pl, 'writeFile', '/scratch/t.clf', writeGzip=True)
        return lab.new('ProcessList', '/scratch/t.clf')

    def one(e, k, how):
        nm = '%s, by %s, variant %d' % (e.name, how, k)

        def go():
            ra = lab.run(lambda: decorate(lab, e.mk(), k, e.cls), e.facts)
            if not ck.no_raise(nm + ' | built', ra, e.ranges) or ra.v is None:
                return
            n = ra.v

            def rt():
                pl = lab.new('ProcessList')
                lab.call(pl, 'addProcess', n)
                q = routes(pl, how)
                ps = lab.call(q, 'getProcesses')
                return lab.list([lab.callx('builtins.len', ps), lab.I.getitem(ps, Const(0))])
            rb = lab.run(rt, start=ra)
            ck.analysed(lab)
            if not ck.no_raise(nm + ' | written and read', rb, e.ranges) or rb.v is None:
                return
            if rb.unmod:
                return ck.unknown(nm, 'unmodelled %s' % (rb.unmod[:1],))
            ck.equal(nm + ' | one node', e.cls + '.write', rb.item(rb.v, 0), Const(1), rb.facts)
            m = rb.item(rb.v, 1)
            d = heap.Diff(lab, rb.facts, e.ranges)
            d.run(ra.st, n, rb.st, m)
            heap.settle(ck, nm + ' | stored state', '%s.read' % e.cls, d)
            # what the two objects answer, write, print and compute
            queries(rb, n, m, nm, e)

        return functools.partial(ck.scenario, nm, go)

    def queries(rb, n, m, nm, e):
        h = rb.st.get(n.oid)

        def zero_arg(I, cls):
            out = []
            c = cls
            names = set()
            todo = [c]
            while todo:
                x = todo.pop()
                hh = I.st.get(x.oid)
                for k, v in hh.d.items():
                    if isinstance(k, str) and (k.startswith('get') or k.startswith('is')):
                        names.add(k)
                todo += [b for b in (getattr(hh.meta, 'bases', None) or []) if isinstance(b, Ref)]
            return sorted(names)
        for what in ('write', 'printInfo') + (('process',) if e.run else ()):
            def th(what=what):
                out = []
                for o in (n, m):
                    if what == 'write':
                        root = lab.callx('etree.Element', 'root')
                        lab.call(o, 'write', root)
                        out.append(root)
                    elif what == 'printInfo':
                        k0 = len(lab.I.prints)
                        e0 = len(lab.I.events)
                        lab.call(o, 'printInfo')
                        out.append(lab.list([x[-1] if isinstance(x, tuple) else x for x in lab.I.prints[k0:]]))
                    else:
                        a = lab.callx('np.array', lab.list([xs(i) for i in range(4)]), Op('ext', ('np.float32',), 'ext'))
                        out.append(lab.call(o, 'process', a, 4))
                return lab.list(out)
            r = lab.run(th, start=rb)
            if not ck.no_raise('%s | %s alike' % (nm, what), r, e.ranges, allow=() if what != 'process' else ('IndexError',)) or r.v is None:
                continue
            p, q = r.item(r.v, 0), r.item(r.v, 1)
            if what == 'process':
                for i in range(4):
                    ck.equal('%s | evaluates alike | channel %d' % (nm, i), '%s.read' % e.cls, r.item(q, i), r.item(p, i), r.facts, e.ranges, 60)
                continue
            d = heap.Diff(lab, r.facts, e.ranges)
            d.run(r.st, p, r.st, q)
            heap.settle(ck, '%s | %s alike' % (nm, what), '%s.read' % e.cls, d)

    hows = ('memory', 'file', 'gzip', 'strict')
    for i, e in enumerate(E):
        ks = range(12) if deep else (i % 12,)
        for k in ks:
            for how in hows if deep and k == i % 12 else (hows[(i + k) % 4],):
                jobs.append(one(e, k, how))

    # ---- whole process lists
    def lists(how, variant):
        nm = 'process list variant %d, by %s' % (variant, how)
        picks = [e for j, e in enumerate(E) if j % 9 == variant % 9][:6]

        def go():
            facts = [f for e in picks for f in e.facts]
            rg = {}
            for e in picks:
                rg.update(e.ranges)

            def build():
                pl = lab.new('ProcessList')
                if variant % 2:
                    lab.call(pl, 'setName', 'list name')
                    lab.call(pl, 'setID', 'urn:id')
                    lab.call(pl, 'setCompCLFversion', '1.0')
                    lab.call(pl, 'setInverseOf', 'other')
                if variant % 4 == 2:
                    lab.call(pl, 'setName', '')
                    lab.call(pl, 'setInverseOf', '')
                    lab.call(pl, 'setID', '0')
                if variant % 3 == 1:
                    lab.call(pl, 'setNamespace', 'urn:clf')
                if variant % 2 == 0:
                    lab.call(pl, 'addElement', lab.new('Info', 'release 1', 'copyright text') if variant % 4 else lab.new('Info', '', 'copyright text'))
                lab.call(pl, 'addElement', lab.new('Description', 'one'))
                lab.call(pl, 'addElement', lab.new('Description', '') if variant == 2 else lab.new('Description', 'two'))
                lab.call(pl, 'addElement', lab.new('InputDescriptor', 'scene'))
                lab.call(pl, 'addElement', lab.new('OutputDescriptor', 'display'))
                for j, e in enumerate(picks):
                    lab.call(pl, 'addProcess', decorate(lab, e.mk(), j + variant, e.cls))
                return pl
            ra = lab.run(build, facts)
            if not ck.no_raise(nm + ' | built', ra, rg) or ra.v is None:
                return
            rb = lab.run(lambda: routes(ra.v, how), start=ra)
            ck.analysed(lab)
            if not ck.no_raise(nm + ' | written and read', rb, rg) or rb.v is None:
                return
            if rb.unmod:
                return ck.unknown(nm, 'unmodelled %s' % (rb.unmod[:1],))
            d = heap.Diff(lab, rb.facts, rg)
            d.run(ra.st, ra.v, rb.st, rb.v)
            heap.settle(ck, nm + ' | stored state', 'ProcessList.read', d)
        return functools.partial(ck.scenario, nm, go)
    for v in range(9):
        for how in hows if deep else (hows[v % 4], hows[(v + 1) % 4]):
            jobs.append(lists(how, v))
    ck.parallel(jobs)
    return ck.finish('Every process node kind with its styles, parameter subsets, encodings, index maps, dynamic parameters, descriptions and bypass flag; symbolic parameter and table values; in memory, through XML files, gzip files and strict reading; whole lists with their own attributes, info and descriptors.',
                     ['numbers survive their decimal text when at least six decimals are printed', 'attribute values are texts or flags', 'index map outputs are whole entry numbers'], floor=150)


if __name__ == '__main__':
    main(run)
