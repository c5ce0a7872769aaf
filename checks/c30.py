import functools, itertools, posixpath
from common import *
import heap, zoo
from clfstatic import terms as T
from c18 import save, plain


def run(tier):
    ck = Check('C30', tier, 'the value of a reference on a symbolic pixel equals that of the process list read from the joined path; the element trees of self-contained and ordinary writing equal those of the list with references replaced, or kept')
    lab = Lab()
    I = lab.I
    deep = tier != 'quick'
    jobs = []

    def ready(nm, r, con):
        ck.analysed(lab)
        if not ck.no_raise(nm + ' | no exception', r, {}, construct=con) or r.v is None:
            return False
        if r.unmod:
            ck.unknown(nm, 'unmodelled: %s' % (r.unmod[:2],))
            return False
        return True

    def node(key, n=3):
        m = lab.new('Matrix', '32f', '32f', key, key)
        lab.call(m, 'setMatrix', lab.list([3, 3]), lab.list([sym('%s_%d' % (key, i), 'float') for i in range(9)]))
        return m

    def store(path, nodes, gz=False):
        """a transform file"""
        pl = lab.new('ProcessList')
        lab.call(pl, 'setName', 'file ' + path)
        for n in nodes:
            lab.call(pl, 'addProcess', n)
        save(lab, lab.call(lab.call(pl, 'write'), 'getroot'), path, gz)

    def absent(*paths):
        for p in paths:
            I.vfs[Const(p)] = T.ABSENT

    def px(n=3, more=0):
        return lab.callx('np.array', lab.list([sym('x%d' % i, 'float') for i in range(n + more)]), Op('ext', ('np.float32',), 'ext'))

    def applied(key):
        return [sum([sym('%s_%d' % (key, 3 * c + i), 'float') * sym('x%d' % i, 'float') for i in range(3)], Const(0.0)) for c in range(3)]

    # ---- how a reference is made
    def make(how, path, base, alias=''):
        if how == 'constructor':
            return lab.new('Reference', '32f', '32f', 'r', 'ref', path, base, alias)
        if how == 'keywords':
            return lab.new('Reference', path=path, basePath=base, alias=alias)
        if how == 'setPaths':
            r = lab.new('Reference', '32f', '32f', 'r', 'ref', 'before.clf', 'other')
            lab.call(r, 'setPaths', path, base, alias)
            return r
        el = lab.callx('etree.Element', 'Reference')
        at = [('inBitDepth', '32f'), ('outBitDepth', '32f')] + [x for x in (('path', path), ('basePath', base), ('alias', alias)) if x[1]]
        for k, v in (at if how == 'read' else at[::-1]):
            lab.call(el, 'set', k, v)
        if how == 'read again':
            r = lab.new('Reference', '32f', '32f', 'r', 'ref', 'before.clf', '', '')
        else:
            r = lab.new('Reference')
        lab.call(r, 'read', el)
        return r
    HOW = ['constructor', 'keywords', 'setPaths', 'read', 'read reversed']

    def resolve(path, base, how, there, alias=''):
        nm = 'path %r, base %r%s by %s%s' % (path, base, ', alias' if alias else '', how, '' if there else ', missing')

        def go():
            con = 'Reference.setPaths'
            full = posixpath.join(base, path) if base else path
            decoys = [p for p in dict.fromkeys((path, posixpath.basename(path), base + path, base + '/' + path, posixpath.join(base, posixpath.basename(path)), 'before.clf', 'other/before.clf', './' + path, base, posixpath.dirname(base) + '/' + path, path + '/' + base))
                      if p and posixpath.normpath(p) != posixpath.normpath(full or '.') and posixpath.normpath(p) not in ('.', '/')]

            def build():
                seen = set()
                for p in decoys:
                    if posixpath.normpath(p) not in seen:
                        seen.add(posixpath.normpath(p))
                        store(p, [node('decoy')])
                if path and there:
                    store(full, [node('goal')])
                elif path:
                    absent(full)
                r = make(how, path, base, alias)
                return lab.call(r, 'process', px())
            r = lab.run(build)
            if not ready(nm, r, con):
                return
            want = applied('goal') if path and there else [sym('x%d' % i, 'float') for i in range(3)]
            for c in range(3):
                ck.equal('%s | channel %d' % (nm, c), con, r.item(r.v, c), want[c], r.facts, {})
        return functools.partial(ck.scenario, nm, go)
    PATHS = ['a.clf', 'sub/a.clf', '/abs/a.clf', '../up/a.clf', 'a b.clf', '']
    BASES = ['', 'base', 'base/', '/root/dir', '/root/dir/', '../here', 'a']
    for p, b, h, t in itertools.product(PATHS, BASES, HOW, (True, False)):
        jobs.append(resolve(p, b, h, t))
    for p, b, t in itertools.product(PATHS[:-1], BASES, (True, False)):
        jobs.append(resolve(p, b, 'read again', t))
    for p, h in itertools.product(('a.clf', ''), HOW):
        jobs.append(resolve(p, 'base', h, True, 'view'))

    # ---- a reference pointed elsewhere is stored with its new paths
    def pointed(path, base, alias, how):
        nm = 'path %r, base %r, alias %r by %s' % (path, base, alias, how)

        def go():
            def build():
                absent('before.clf', 'other/before.clf', path or 'none', posixpath.join(base, path) if path else 'none')
                r = make(how, path, base, alias)
                tree = lab.call(r, 'write', lab.callx('etree.Element', 'ProcessList'))
                return lab.list([lab.call(tree, 'get', k) for k in ('path', 'basePath', 'alias')] + [lab.call(r, 'getAttribute', k) for k in ('path', 'basePath', 'alias')])
            r = lab.run(build)
            if not ready(nm, r, 'Reference.setPaths'):
                return
            for i in range(6):
                w = (path, base, alias)[i % 3]
                ck.equal('%s | %s %s' % (nm, ('written', 'stored')[i // 3], ('path', 'base path', 'alias')[i % 3]), 'Reference.setPaths', r.item(r.v, i), Const(w) if w else NONE, r.facts, {})
        return functools.partial(ck.scenario, nm, go)
    for p, b, a in itertools.product(('a.clf', '/abs/a.clf', ''), ('', 'base'), ('', 'view')):
        for h in HOW:
            jobs.append(pointed(p, b, a, h))

    # ---- evaluating: like the transform referred to
    def same(nm, mk_nodes, n, wrapin, facts, ranges, gz=False, more=0, stride=None, prep=lambda: None):
        def go():
            con = 'Reference.process'

            def build():
                prep()
                store('/scratch/t.clf', mk_nodes(), gz)
                store('/scratch/mid.clf', [lab.new('Reference', '32f', '32f', 'q', 'q', 't.clf', '/scratch')])
                ref = lab.new('Reference', '32f', '32f', 'r', 'r', '/scratch/t.clf')
                direct = lab.new('ProcessList', '/scratch/t.clf')
                a = lab.call(direct, 'process', px(n, more), *([] if stride is None else [stride]))
                if wrapin == 'list':
                    o = lab.new('ProcessList')
                    lab.call(o, 'addProcess', ref)
                elif wrapin == 'group':
                    o = lab.new('Group', '32f', '32f', 'g', 'g')
                    lab.call(o, 'addProcess', ref)
                elif wrapin == 'reference':
                    o = lab.new('Reference', '32f', '32f', 'r', 'r', 'mid.clf', '/scratch')
                else:
                    o = ref
                b = lab.call(o, 'process', px(n, more), *([] if stride is None else [stride]))
                return lab.list([I.getitem(v, Const(i)) for v in (a, b) for i in range(n + more)] + [lab.callx('builtins.len', b)])
            r = lab.run(build, facts)
            if not ready(nm, r, con):
                return
            ck.equal(nm + ' | length', con, r.item(r.v, 2 * (n + more)), Const(n + more), r.facts, ranges)
            for i in range(n + more):
                ck.equal('%s | value %d' % (nm, i), con, r.item(r.v, n + more + i), r.item(r.v, i), r.facts, ranges)
        return functools.partial(ck.scenario, nm, go)
    W = ('alone', 'list', 'group', 'reference')
    for k, e in enumerate(zoo.entries(lab, deep)):
        if not e.run or e.cls in ('Reference',):
            continue
        rg = dict(e.ranges, **{'x%d' % i: (-.4, 1.4) for i in range(4)})
        for w in (W if deep else (W[k % 4],)):
            jobs.append(same('reference to %s, %s' % (e.name, w), lambda e=e: [e.mk()], e.channels, w, e.facts, rg, gz=k % 3 == 1))
    for w in W:
        jobs.append(same('reference to several nodes, ' + w, lambda: [node('p'), node('q')], 3, w, [], {}))
        jobs.append(same('reference to an empty list, ' + w, lambda: [], 3, w, [], {}))
        jobs.append(same('reference to alpha, ' + w, lambda: [node('p')], 4, w, [], {}, stride=4))
        jobs.append(same('reference to two pixels, ' + w, lambda: [node('p')], 3, w, [], {}, more=3, stride=3))
        jobs.append(same('reference to two pixels, default stride, ' + w, lambda: [node('p')], 3, w, [], {}, more=3, stride=0))

        def byp():
            b = node('q')
            lab.call(b, 'setAttribute', 'bypass', True)
            return [node('p'), b, node('z')]
        jobs.append(same('reference to a bypassed node, ' + w, byp, 3, w, [], {}))

    # ---- writing
    # structure: 'n' node, 'u' reference that is not resolved, 'R'+list: reference, 'G'+list: group
    def build_list(spec, cnt, files, inline, into):
        """add the items of spec to the container; files: paths are stored first"""
        for s in spec:
            cnt[0] += 1
            k = cnt[0]
            if s == 'n':
                lab.call(into, 'addProcess', node('n%d' % k))
            elif s == 'u':
                absent('none%d.clf' % k)
                lab.call(into, 'addProcess', lab.new('Reference', '32f', '32f', 'u%d' % k, 'u%d' % k, 'none%d.clf' % k, '', 'al%d' % k))
            elif s == 'e':
                lab.call(into, 'addProcess', lab.new('Reference', '32f', '32f', 'e%d' % k, 'e%d' % k))
            elif s[0] == 'G':
                g = lab.new('Group', '32f', '32f', 'g%d' % k, 'g%d' % k)
                lab.call(g, 'addElement', lab.new('Description', 'group %d' % k))
                build_list(s[1:], cnt, files, inline, g)
                lab.call(into, 'addProcess', g)
            elif inline:
                build_list(s[1:], cnt, files, inline, into)
            else:
                pl = lab.new('ProcessList')
                build_list(s[1:], cnt, files, inline, pl)
                p = '/scratch/f%d.clf' % k
                save(lab, lab.call(lab.call(pl, 'write'), 'getroot'), p, k % 2 == 0)
                lab.call(into, 'addProcess', lab.new('Reference', '32f', '32f', 'r%d' % k, 'r%d' % k, 'f%d.clf' % k, '/scratch'))

    def labels(spec, cnt, keep):
        """what the written tree holds"""
        out = []
        for s in spec:
            cnt[0] += 1
            k = cnt[0]
            if s == 'n':
                out.append('n%d' % k)
            elif s == 'u':
                out.append(('Reference', 'u%d' % k, 'none%d.clf' % k, None, 'al%d' % k))
            elif s == 'e':
                out.append(('Reference', 'e%d' % k, None, None, None))
            elif s[0] == 'G':
                out.append(['g%d' % k] + labels(s[1:], cnt, keep))
            else:
                inner = labels(s[1:], cnt, keep)
                out += [('Reference', 'r%d' % k, 'f%d.clf' % k, '/scratch', None)] if keep else inner
        return out

    def seen(r, el):
        out = []
        for c in r.st.get(el.oid).items:
            h = r.st.get(c.oid)
            tag = h.d['tag'].v
            at = {k.v: v for k, v in r.st.get(h.d['attrib'].oid).d.items()}
            nmv = getattr(at.get('name'), 'v', None)
            if tag == 'Reference':
                out.append(('Reference', nmv) + tuple(getattr(at.get(x), 'v', None) for x in ('path', 'basePath', 'alias')))
            elif tag == 'Group':
                out.append([nmv] + seen(r, c))
            elif tag not in ('Description', 'Info'):
                out.append(nmv)
        return out

    def written(spec, hist, how):
        nm = 'writing %s %s, %s' % (spec, ' then '.join('self-contained' if h else 'ordinarily' for h in hist), how)

        def go():
            con = 'ProcessList.write'

            def out(o, sc):
                if how == 'write':
                    return lab.call(lab.call(o, 'write', *([NONE, sc] if sc else [])), 'getroot')
                if how == 'keyword':
                    return lab.call(lab.call(o, 'write', writeSelfContained=sc), 'getroot')
                if how == 'group':
                    root = lab.callx('etree.Element', 'holder')
                    lab.call(o, 'write', root, sc)
                    return root
                lab.call(o, 'writeFile', '/scratch/out.clf', sc, how == 'gzip')
                f = lab.callx('gzip.open' if how == 'gzip' else 'builtins.open', '/scratch/out.clf', 'rb')
                return lab.call(lab.callx('etree.parse', f), 'getroot')

            def build(inline=False):
                # the files of references to files come first, in one numbering
                o = lab.new('Group', '32f', '32f', 'outer', 'outer') if how == 'group' else lab.new('ProcessList')
                build_list(spec, [0], None, inline, o)
                root = NONE
                for h in (hist if not inline else hist[-1:]):
                    root = out(o, h)
                return root
            r = lab.run(build)
            if not ready(nm, r, con):
                return
            got = seen(r, r.v)
            want = labels(spec, [0], not hist[-1])
            if how == 'group':
                want = [['outer'] + want]
            ck.true(nm + ' | elements', con, got == want, msg='writes %s instead of %s' % (got, want))
            if hist[-1] and got == want:
                q = lab.run(lambda: build(True))
                if q.v is None:
                    return ck.unknown(nm, 'the list without references is not analysed')
                d = heap.Diff(lab, r.facts)
                d.run(q.st, q.v, r.st, r.v, 'root')
                heap.settle(ck, nm + ' | contents', con, d)
        return functools.partial(ck.scenario, nm, go)
    R, G = 'R', 'G'
    SPECS = [[(R, 'n')], ['n', (R, 'n'), 'n'], [(R, 'n', 'n')], [(R,)], ['u'], ['n', 'u', (R, 'n')], ['e', 'n'], [(G, (R, 'n'))], [(G, 'n', (R, 'n', 'n'), 'n'), 'n'], [(G, (G, (R, 'n')))], [(R, (R, 'n'), 'n')],
             [(R, (G, (R, 'n'), 'n'))], [(R, (G, 'n'))], [(G, 'u', (R, 'u'))], [(R, (R, (R, 'n')))], [(G, (R, (G, (R, 'n'), 'u')), 'n'), (R, 'n'), 'n'], [(R, 'n'), (R, 'n')], ['n', (G, 'n', (G, 'n', (R, 'n'), 'n'), (R, 'n')), (R, (G,))]]
    HISTS = [(True,), (False,), (True, False), (False, True), (True, True), (False, True, False), (True, False, True)]
    HOWS = ['write', 'keyword', 'file', 'gzip', 'group']
    for i, (s, h) in enumerate(itertools.product(SPECS, HISTS)):
        for j, w in enumerate(HOWS):
            if deep or (i + j) % 2 == 0 or len(h) == 1:
                jobs.append(written(s, h, w))

    # a reference written by itself
    def alone(flag, setter, there):
        nm = 'a reference written alone, %s%s%s' % (flag, ' by its setter' if setter else '', '' if there else ', missing')

        def go():
            def build():
                if there:
                    store('/scratch/f.clf', [node('n1'), node('n2')])
                else:
                    absent('/scratch/f.clf')
                r = lab.new('Reference', '32f', '32f', 'r', 'r', 'f.clf', '/scratch', '', flag if not setter else not flag)
                if setter:
                    lab.call(r, 'setWriteReferencedNodes', flag)
                root = lab.callx('etree.Element', 'holder')
                lab.call(r, 'write', root)
                return root
            r = lab.run(build)
            if not ready(nm, r, 'Reference.write'):
                return
            got = seen(r, r.v)
            want = ['n1', 'n2'] if flag and there else [('Reference', 'r', 'f.clf', '/scratch', None)]
            ck.true(nm + ' | elements', 'Reference.write', got == want, msg='writes %s instead of %s' % (got, want))
        return functools.partial(ck.scenario, nm, go)
    for f, s, t in itertools.product((True, False), repeat=3):
        jobs.append(alone(f, s, t))
    ck.parallel(jobs)
    return ck.finish('every form of path and base path, set by constructor, setter and reading, with decoy files at the other places; references to every kind of node, alone and inside lists, groups and references, with strides; self-contained and ordinary writing (and sequences of both) of lists that nest groups and resolvable and unresolvable references.',
                     ['paths are POSIX paths', 'the alias of a reference is ignored', 'references do not form cycles'], floor=500)


if __name__ == '__main__':
    main(run)
