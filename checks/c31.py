import functools, itertools, os
from common import *
import heap, zoo
from clfstatic import terms as T
from c18 import save, reader, plain

STUBS = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'stubs') + '/'
SPACES = ['urn:NATAS:ASC:LUT:v1.2', 'http://www.example.org/a-b_c', 'Matrix', '_', 'a{b', 'x']


def seps(tag):
    """spellings of a tag with dashes and underscores"""
    out = [tag[:i] + s + tag[i:] for i in range(1, len(tag)) for s in '-_']
    return out + ['-'.join(tag), '_' + tag, tag + '_', tag.replace('D', '_-D'), '__'.join(tag)]


def norm(tag):
    return tag[tag.find('}') + 1:].replace('-', '').replace('_', '')


def run(tier):
    ck = Check('C31', tier, 'the registry after loading every module holds each element class under its name; the objects built from each element tree with prefixed and separated tags equal those built from the plain tree')
    lab = Lab()
    custom = lab.load(STUBS + 'custom.py', 'custom')
    I = lab.I
    deep = tier != 'quick'
    jobs = []

    # ---- the registry
    PL = lab.cls('ProcessList')
    box = []

    def look():
        reg = I.getattr(PL, 'serializableClasses')
        classes = {}
        for path, m in sorted(lab.basemods.items()):
            for k, v in sorted(I.obj(m).d.items(), key=str):
                if isinstance(v, Ref) and I.obj(v).kind == 'class' and hasattr(I.obj(v).meta, 'name'):
                    classes[v.oid] = v
        bases = [lab.cls(n) for n in ('ProcessNode', 'Comment', 'Info')]
        mine = []
        for oid, v in sorted(classes.items()):
            if any(I.call(Op('ext', ('builtins.issubclass',), 'ext'), [v, b], {}) is TRUE for b in bases):
                mine.append((I.obj(v).meta.name, v))
        box.append(({k.v: v for k, v in I.obj(reg).d.items()}, mine))
        return NONE
    r0 = lab.run(look)
    if not box or r0.raises:
        ck.unknown('registry', 'not analysed: %s' % lab.raise_text(r0.raises)[:200])
        return ck.finish('the registry', [])
    reg, mine = box[0]
    for name, v in mine:
        ck.true('%s is registered under its name' % name, name, name in reg and reg[name].oid == v.oid, msg='the registry has %s' % ('another class' if name in reg else 'nothing') + ' under this name')
    known = {v.oid for n, v in mine}
    for k, v in sorted(reg.items()):
        ck.true('registered %s is an element class' % k, k, v.oid in known, msg='it is no element class')

    def instance(name, v):
        def go():
            def th():
                n = I.call(v, [], {})
                root = lab.callx('etree.Element', 'holder')
                lab.call(n, 'write', root)
                el = I.getitem(root, Const(0))
                tag = I.getattr(el, 'tag')
                q = I.call(I.getattr(PL, 'getClass'), [lab.call(lab.new('ProcessList'), 'getElementType', tag)], {})
                return Tup((tag, q, I.getattr(n, '__class__')))
            r = lab.run(th)
            ck.analysed(lab)
            if not ck.no_raise(name + ' | can be made without arguments and written', r, {}, construct=name + '.__init__') or r.v is None:
                return
            tag, q, c = r.v.items
            ck.true(name + ' | written under its name', name + '.write', isinstance(tag, Const) and norm(tag.v) == name, msg='written as %s' % short(tag, 40))
            ck.true(name + ' | found by its tag', 'ProcessList.getClass', q is c and c.oid == v.oid, msg='the tag %s finds another class' % short(tag, 40))
        return functools.partial(ck.scenario, name, go)
    for name, v in mine:
        jobs.append(instance(name, v))

    # ---- tags
    def walk(el, f, depth=0):
        for c in list(I.obj(el).items):
            t = I.obj(c).d['tag']
            I.wr(c).d['tag'] = Const(f(t.v, depth))
            walk(c, f, depth + 1)

    def tags(nm, mk, facts, ranges, f, how, group, cls, root_tag=None):
        def go():
            outs = []
            for g in (None, f):
                def th(g=g):
                    n = mk()
                    pl = lab.new('ProcessList')
                    lab.call(pl, 'setName', 'list')
                    if group:
                        gr = lab.new('Group', '16f', '16f', 'g', 'g')
                        lab.call(gr, 'addProcess', n)
                        lab.call(gr, 'addProcess', plain(lab, 3))
                        lab.call(pl, 'addProcess', gr)
                    elif n is not NONE:
                        lab.call(pl, 'addProcess' if cls not in ('Comment', 'Info') else 'addElement', n)
                    lab.call(pl, 'addElement', lab.new('Info', 'release', 'rights'))
                    for c in ('Description', 'InputDescriptor', 'OutputDescriptor', 'Comment'):
                        lab.call(pl, 'addElement', lab.new(c, 'text of ' + c))
                    root = lab.call(lab.call(pl, 'write'), 'getroot')
                    if g is not None:
                        walk(root, g)
                        if root_tag is not None:
                            I.wr(root).d['tag'] = Const(root_tag)
                    if how != 'read':
                        save(lab, root, '/scratch/r.clf', 'gzip' in how)
                    q = reader(lab, root, how, True)
                    if g is None and root_tag is not None:
                        lab.call(q, 'setNamespace', root_tag[1:root_tag.find('}')])
                    return q
                outs.append(lab.run(th, facts))
            ck.analysed(lab)
            a, b = outs
            if a.v is None:
                return ck.unknown(nm, 'the plain tree is not read: %s' % lab.raise_text(a.raises)[:200])
            con = 'getElementType'
            if not ck.no_raise(nm + ' | read', b, ranges, construct=con) or b.v is None:
                return
            if a.unmod or b.unmod:
                return ck.unknown(nm, 'unmodelled: %s' % ((a.unmod + b.unmod)[:2],))
            d = heap.Diff(lab, b.facts, ranges)
            d.run(a.st, a.v, b.st, b.v)
            heap.settle(ck, nm + ' | same objects', con, d)
        jobs.append(functools.partial(ck.scenario, nm, go))

    def dyn(e):
        def mk():
            n = e.mk()
            zoo.describe(lab, n)
            lab.call(n, 'setDynamicParam', 'exposure')
            return n
        return mk
    E = zoo.entries(lab, deep)
    for j, e in enumerate(E):
        R = (lambda ns: lambda t, d: '{%s}%s' % (ns, t))
        mk = dyn(e)
        for k in (range(len(SPACES)) if deep else (j % len(SPACES), (j + 3) % len(SPACES))):
            ns = SPACES[k]
            tags('%s with namespace %r' % (e.name, ns), mk, e.facts, e.ranges, R(ns), 'read', (j + k) % 2, e.cls, '{%s}ProcessList' % ns)
        tags('%s with namespaces by depth' % e.name, mk, e.facts, e.ranges, lambda t, d: '{%s}%s' % (SPACES[d % 5], t) if d != 1 else t, 'read', j % 2, e.cls)
        for k in (range(60) if deep else (j, 7 * j + 3)):
            tags('%s with separated tags %d' % (e.name, k), mk, e.facts, e.ranges, lambda t, d, k=k: seps(t)[k % len(seps(t))], ('read', 'readFile')[k % 2], (j + k) % 2, e.cls)
        tags('%s with namespace and separators' % e.name, mk, e.facts, e.ranges, lambda t, d, j=j: '{%s}%s' % (SPACES[(d + j) % 5], seps(t)[(3 * j + d) % len(seps(t))]), 'read', (j + 1) % 2, e.cls)
    # every position of every separator, for one node of each class
    first = {}
    for e in E:
        if e.cls not in first or len(e.name) > len(first[e.cls].name):
            first[e.cls] = e
    for cls, e in sorted(first.items()):
        for k in range(50):
            tags('%s spelt %d' % (cls, k), dyn(e), e.facts, e.ranges, lambda t, d, k=k: seps(t)[k % len(seps(t))], 'read', k % 2, cls)
    # elements of the list, and elements made by the user
    for n in ('Info', 'Comment', 'Description', 'InputDescriptor', 'OutputDescriptor'):
        for k in range(40):
            tags('%s spelt %d' % (n, k), lambda n=n: lab.new(n, 'words'), [], {}, lambda t, d, k=k: ('' if k % 3 else '{u-r_n}') + seps(t)[k % len(seps(t))], 'read', False, 'Comment')
    for n in ('Custom', 'CustomMatrix'):
        def mk(n=n):
            c = I.call(I.getattr(custom, n), [wrap(x) for x in ('16f', '32f', 'i', 'n')], {})
            if n == 'CustomMatrix':
                lab.call(c, 'setMatrix', lab.list([3, 3]), lab.list([sym('c%d' % i, 'float') for i in range(9)]))
            return c
        for k in range(24):
            tags('user class %s spelt %d' % (n, k), mk, [], {}, lambda t, d, k=k: ('{u-r_n}' if k % 3 else '') + seps(t)[k % len(seps(t))], 'read', k % 2, 'Custom')
    for k in range(12):
        tags('user comment spelt %d' % k, lambda: I.call(I.getattr(custom, 'Note'), [Const('words')], {}), [], {}, lambda t, d, k=k: ('{u-r_n}' if k % 3 else '') + seps(t)[k % len(seps(t))], 'read', False, 'Comment')
    ck.parallel(jobs)
    return ck.finish('every class of the registry; every kind of node with descriptions and dynamic parameters, alone and in groups, the comments and the information block, and classes made by users: read with namespaces and with dashes and underscores at every position.',
                     ['namespace names contain no closing brace'], floor=500)


if __name__ == '__main__':
    main(run)
