import functools
from common import *
import heap, zoo
from clfstatic import terms as T
from c18 import save, reader, plain, HOWS, GZ

UNSUP = ('UnsupportedExtensionError',)
UNKNOWN = ('UnknownProcessNodeError',)


def run(tier):
    ck = Check('C19', tier, 'strict reading ends in the specified error on every path; lenient reading builds the object graph of the same tree without exactly the skipped element')
    lab = Lab()
    deep = tier != 'quick'
    jobs = []
    E = zoo.entries(lab, deep)
    UNK_TAGS = ['Mystery', 'My-Node', 'my_node', '{http://example.org/x}Other', 'matrix', 'Matrix2', 'Matri', 'LUT2D', 'Unsupported']

    def tree(lab, where, tag, nested, others, at):
        """a process list tree with an extra element; where: list | group | node"""
        pl = lab.new('ProcessList')
        lab.call(pl, 'setName', 'the list')
        lab.call(pl, 'addElement', lab.new('Description', 'text'))
        kids = others()
        holder = pl
        if nested:
            g = lab.new('Group', '16f', '16f', 'g', 'g')
            lab.call(pl, 'addProcess', plain(lab, 7))
            lab.call(pl, 'addProcess', g)
            lab.call(pl, 'addProcess', plain(lab, 8))
            holder = g
            if nested == 2:
                h = lab.new('Group', '16f', '16f', 'h', 'h')
                lab.call(g, 'addProcess', h)
                holder = h
        for k in kids:
            lab.call(holder, 'addProcess', k)
        root = lab.call(lab.call(pl, 'write'), 'getroot')
        return root

    def find(root, nested):
        """the element that holds the nodes"""
        I = lab.I
        cur = root
        if nested:
            for depth in range(nested):
                kids = I.obj(cur).items
                cur = [k for k in kids if I.obj(k).d['tag'] is Const('Group')][0]
        return cur

    def insert(root, nested, tag, at):
        I = lab.I
        cur = find(root, nested)
        el = lab.callx('etree.Element', tag)
        lab.call(el, 'set', 'name', 'unexpected')
        lab.I.setattr(el, 'text', Const('content'))
        sub = lab.callx('etree.SubElement', el, 'Matrix')
        lab.call(sub, 'set', 'name', 'inner')
        n = len(I.obj(cur).items)
        pos = {'first': 0, 'last': n, 'middle': (n + 1) // 2}[at]
        lab.call(cur, 'insert', pos, el)
        return root

    def read_case(nm, con, mk_tree, mk_clean, how, strict, feat, errors):
        def go():
            def build(f):
                def th():
                    r = f()
                    save(lab, r, '/scratch/r.clf', 'gzip' in how)
                    return r
                return th
            # the two trees come from separate starts: read each in its own state
            outs = []
            for f in (mk_tree, mk_clean):
                r = lab.run(build(f))
                if r.v is None:
                    return ck.no_raise(nm + ' | written', r)
                root = r.v
                def rd():
                    lab.features(feat)
                    return reader(lab, root, how, strict)
                outs.append(lab.run(rd, start=r))
            ck.analysed(lab)
            a, b = outs
            if b.v is None:
                return ck.no_raise(nm + ' | without the element', b)
            if strict:
                return ck.must_raise(nm + ' | rejected', con, a, errors, 'strict reading accepts it')
            if not ck.no_raise(nm + ' | not rejected', a) or a.v is None:
                return
            d = heap.Diff(lab, a.facts)
            d.run(b.st, b.v, a.st, a.v)
            heap.settle(ck, nm + ' | everything else unchanged', con, d)
        return functools.partial(ck.scenario, nm, go)

    def two():
        return [plain(lab, 0), plain(lab, 1)]
    i = 0
    # ---- unknown elements
    for tag in UNK_TAGS:
        for nested in (0, 1, 2):
            for at in ('first', 'middle', 'last'):
                for how in HOWS + GZ:
                    for strict in (None, True, False):
                        i += 1
                        if strict is None and 'keyword' in how:
                            continue
                        if not deep and i % 5 not in (0, 3):
                            continue
                        for feat in ((0xf, 2) if nested or 'gzip' in how else (0xf, 0, 1, 2)):
                            if not deep and feat != (0xf, 2, 0, 1)[i % 4]:
                                continue
                            nm = 'unknown element %s %s in %s, %s%s, features %#x' % (tag, at, ('the list', 'a group', 'a group in a group')[nested], how, {None: '', True: ' strict', False: ' strict=False'}[strict], feat)

                            def mk(nested=nested, tag=tag, at=at):
                                return insert(tree(lab, 'list', tag, nested, two, at), nested, tag, at)

                            def clean(nested=nested):
                                return tree(lab, 'list', None, nested, two, None)
                            jobs.append(read_case(nm, 'Group.readChild' if nested else 'ProcessList.read', mk, clean, how, strict, feat, UNKNOWN))

    # ---- node types that the feature set does not allow
    def gamma():
        g = lab.new('Gamma')
        lab.call(g, 'setGamma', 2.0)
        return g

    def logn():
        g = lab.new('Log', style='log10')
        return g

    def expo():
        return lab.new('ExposureContrast')

    def refer():
        lab.I.vfs[Const('nowhere.clf')] = T.ABSENT
        return lab.new('Reference', path='nowhere.clf')

    def grp():
        g = lab.new('Group')
        lab.call(g, 'addProcess', plain(lab, 5))
        return g
    for cls, mkn, feats in (('Gamma', gamma, (0, 2, 14)), ('Log', logn, (0, 2, 14)), ('ExposureContrast', expo, (0, 2, 14)), ('Reference', refer, (0, 2, 14)), ('Group', grp, (0, 1, 13))):
        for nested in (0, 1, 2):
            for feat in feats:
                if nested and not feat & 2:
                    continue
                for how in HOWS + (GZ if feat & 2 else []):
                    for strict in (None, True, False):
                        i += 1
                        if strict is None and 'keyword' in how or not deep and i % 2:
                            continue
                        at = ('first', 'middle', 'last')[i % 3]

                        def withit(mkn=mkn, at=at):
                            k = two()
                            k.insert({'first': 0, 'middle': 1, 'last': 2}[at], mkn())
                            return k
                        nm = '%s %s in %s, %s%s, features %#x' % (cls, at, ('the list', 'a group', 'a group in a group')[nested], how, {None: '', True: ' strict', False: ' strict=False'}[strict], feat)
                        jobs.append(read_case(nm, 'Group.readChild' if nested else 'ProcessList.read', lambda w=withit, n=nested: tree(lab, '', None, n, w, None),
                                              lambda n=nested: tree(lab, '', None, n, two, None), how, strict, feat, UNSUP))

    # ---- dynamic parameters
    kinds = {}
    for e in E:
        if e.cls in ('ASCCDL', 'Range', 'Matrix', 'LUT1D', 'LUT3D') and not e.facts:
            kinds.setdefault(e.cls, e)
    for e in kinds.values():
        for nested in (0, 1):
            for feat in (0, 2, 14):
                if nested and not feat & 2:
                    continue
                for how in HOWS + (GZ if feat & 2 else []):
                    for strict in (None, True, False):
                        i += 1
                        if strict is None and 'keyword' in how or not deep and i % 3 == 0:
                            continue

                        def nodes(dyn, e=e):
                            n = e.mk()
                            zoo.describe(lab, n)
                            for p in dyn:
                                lab.call(n, 'setDynamicParam', p)
                            return [plain(lab, 0), n]
                        nm = 'dynamic parameter of %s in %s, %s%s, features %#x' % (e.cls, ('the list', 'a group')[nested], how, {None: '', True: ' strict', False: ' strict=False'}[strict], feat)
                        jobs.append(read_case(nm, 'ProcessNode.read', lambda n=nested, f=nodes: tree(lab, '', None, n, lambda: f(('gamma', 'exposure')), None),
                                              lambda n=nested, f=nodes: tree(lab, '', None, n, lambda: f(()), None), how, strict, feat, UNSUP))

    # ---- lenient: unknown children of nodes
    def inside(e, how, strict):
        nm = 'unknown child of %s, %s' % (e.name, how)

        def go():
            outs = []
            for extra in (True, False):
                def th():
                    n = e.mk()
                    zoo.describe(lab, n)
                    pl = lab.new('ProcessList')
                    lab.call(pl, 'addProcess', n)
                    root = lab.call(lab.call(pl, 'write'), 'getroot')
                    node = lab.I.getitem(root, Const(0))
                    if extra:
                        for pos, t in ((0, 'Mystery'), (1, 'My-Child')):
                            el = lab.callx('etree.Element', t)
                            lab.I.setattr(el, 'text', Const('1 2 3'))
                            lab.call(node, 'insert', pos, el)
                    save(lab, root, '/scratch/r.clf', 'gzip' in how)
                    return reader(lab, root, how, strict)
                outs.append(lab.run(th, e.facts))
            ck.analysed(lab)
            a, b = outs
            if b.v is None:
                return ck.no_raise(nm + ' | without', b, e.ranges)
            if not ck.no_raise(nm + ' | not rejected', a, e.ranges) or a.v is None:
                return
            d = heap.Diff(lab, a.facts, e.ranges)
            d.run(b.st, b.v, a.st, a.v)
            heap.settle(ck, nm + ' | everything else unchanged', e.cls + '.readChild', d)
        return functools.partial(ck.scenario, nm, go)
    for j, e in enumerate(E):
        if e.cls != 'Group' and e.cls != 'ColorCorrection' and (deep or j % 3 == 0 or e.cls in ('Gamma', 'Log', 'ExposureContrast', 'Reference')):
            jobs.append(inside(e, (HOWS + GZ)[j % 8], None if 'keyword' not in (HOWS + GZ)[j % 8] else False))

    # ---- known content is accepted strictly
    def fine(e, how):
        nm = 'strict reading of %s, %s' % (e.name, how)

        def go():
            def th():
                n = e.mk()
                pl = lab.new('ProcessList')
                g = lab.new('Group')
                lab.call(g, 'addProcess', n)
                lab.call(pl, 'addProcess', g)
                lab.call(pl, 'addElement', lab.new('Info', 'rel', 'copy'))
                for c in ('Description', 'InputDescriptor', 'OutputDescriptor', 'Comment'):
                    lab.call(pl, 'addElement', lab.new(c, 'text'))
                root = lab.call(lab.call(pl, 'write'), 'getroot')
                save(lab, root, '/scratch/r.clf', 'gzip' in how)
                return reader(lab, root, how, True)
            r = lab.run(th, e.facts)
            ck.analysed(lab)
            ck.no_raise(nm + ' | accepted', r, e.ranges)
        return functools.partial(ck.scenario, nm, go)
    for j, e in enumerate(E):
        jobs.append(fine(e, (HOWS + GZ)[j % 8]))
    ck.parallel(jobs)
    return ck.finish('Unknown elements, disallowed node types and dynamic parameters at every position of lists and (nested) groups, by every way of reading with default, positional and keyword strictness, compressed or not.',
                     ['the file a reference points to is read leniently by the reference itself'], floor=400)


if __name__ == '__main__':
    main(run)
