import functools, re
from common import *
import files, heap, zoo
import c27
from clfstatic import equiv as Q, ext as X, terms as T
from clfstatic.logic import Facts
from c18 import save, reader, plain

LONG = 'a text, longer than the columns: 50% of "it"'


def flat(v):
    """parts of a printed text with the padding taken off"""
    out = []
    for p in X.flat_parts(v):
        if isinstance(p, Op) and p.op == 'pad':
            out.append(Const(' '))
            out += flat(p.args[1])
        elif isinstance(p, Op) and p.op == 'cat':
            out += flat(p)
        else:
            out.append(p)
    return out


class Block(object):
    def __init__(self, kind):
        self.kind, self.pairs, self.tables = kind, {}, []


class Table(object):
    def __init__(self, kind):
        self.kind, self.size, self.rows, self.cut = kind, None, [], None


def parse(lab, events):
    """blocks of the printed text, in order"""
    blocks = []
    table = None
    for ev in events:
        if ev.kind != 'print':
            continue
        for a in (ev.what,):
            t = files.Text(lab, flat(a))
            s = t.s.strip()
            segs = [x.strip() for x in re.split(r'\s:(?:\s|$)', t.s.strip(' \n\r') + (' ' if t.s.rstrip(' ').endswith(':') else ''))]
            if s == 'ProcessList' or segs[0] == 'ProcessNode type':
                blocks.append(Block(None if s == 'ProcessList' else segs[1]))
                table = None
                continue
            if not blocks:
                continue
            b = blocks[-1]
            if s in ('Array', 'IndexMap'):
                table = Table(s)
                b.tables.append(table)
            elif table is not None and segs[0] in ('Dimensions', 'Length', 'map') or (table is not None and s and len(segs) == 1 and s != 'Values'):
                if segs[0] in ('Dimensions', 'Length') and len(segs) == 2:
                    table.size = (t, segs[1])
                elif s == '...':
                    table.cut = len(table.rows)
                elif s in ('Info', 'Process Nodes'):
                    table = None
                elif table.kind == 'IndexMap':
                    body = segs[-1]
                    if segs[0] == 'map':
                        table.rows += [(t, x.split(',')) for x in body.split()]
                    else:
                        table.rows.append((t, [x.strip() for x in body.split(',')]))
                else:
                    table.rows.append((t, s.split()))
            elif len(segs) > 1 and len(segs[0]):
                b.pairs.setdefault(segs[-2], []).append((t, segs[-1]))
    return blocks


def run(tier):
    ck = Check('C32', tier, 'the text printed for each kind of node and list with symbolic parameters, line by line: each label against the value stored for it, each table row against the stored row')
    B = c27.Bench()
    lab = B.lab
    I = lab.I
    deep = tier != 'quick'
    jobs = []

    def value(r, nm, con, t, text, want):
        """one printed value"""
        if isinstance(want, (list, tuple)):
            toks = [x.strip() for x in text.strip('[]()').split(',')] if text.strip('[]()') else []
            if not (text[:1] in '[(' and text[-1:] in '])') or len(toks) != len(want):
                return ck.fail(nm, con, 'printed %s, expected %d values' % (t.shown(text), len(want)))
            for i, (a, w) in enumerate(zip(toks, want)):
                value(r, '%s [%d]' % (nm, i), con, t, a, w)
            return
        want = wrap(want)
        if isinstance(want, Const) and not isinstance(want.v, float) and not isinstance(want.v, int) or isinstance(want, Const) and isinstance(want.v, bool):
            return ck.true(nm, con, text == str(want.v), msg='printed %r, stored %r' % (t.shown(text), want.v))
        n = t.number(text)
        if n is None:
            return ck.fail(nm, con, 'printed %s, stored %s' % (t.shown(text), short(want, 60)))
        if not isinstance(n, Const):
            part = n
            n = r.do(lambda: files.num(lab, part))
        ck.equal(nm, con, n, want, r.facts, ranges=r.ranges)

    def params(r, node, cls):
        """{label: value} of the parameters of a node"""
        def rows(a):
            v = r.attr(node, a)
            return [[r.item(r.item(v, i), j) for j in range(r.length(r.item(v, i)).v)] for i in range(r.length(v).v)]
        if cls == 'ExposureContrast':
            e, c, p = rows('_params')[-1]
            return {'exposure': e, 'contrast': c, 'pivot': p}
        if cls in ('Gamma', 'Log'):
            names, d = (('gamma', 'offset'), (1.0, 0.0)) if cls == 'Gamma' else (('gamma', 'ref white', 'ref black', 'highlight', 'shadow'), (.6, 685.0, 95.0, 1.0, 0.0))
            out = {n: [wrap(x)] * 3 for n, x in zip(names, d)}
            for p in rows('_params'):
                for k, n in enumerate(names):
                    for c in range(3):
                        if p[-1] is NONE or p[-1].v == 'RGB'[c]:
                            out[n] = out[n][:c] + [p[k]] + out[n][c + 1:]
            return out
        if cls in ('ASCCDL', 'ColorCorrection'):
            v = r.obj(r.attr(node, '_values'))
            out = {}
            for k, x in v.d.items():
                out[k.v] = x if not isinstance(x, Ref) else [r.item(x, i) for i in range(r.length(x).v)]
            return out
        return {}

    def pairs(r, h):
        """{label: [values]} common to nodes and lists"""
        out = {}
        for a in ('_attributes', '_valueElements'):
            for k, v in r.obj(h.d[a]).d.items():
                out.setdefault(k.v, []).append(v)
        dp = h.d.get('_dynamicParams')
        if dp is not None:
            for i in range(r.length(dp).v):
                out.setdefault('Dynamic Parameter', []).append(r.item(dp, i))
        return out

    def cls_of(r, v):
        return r.st.get(r.obj(v).cls.oid).meta.name

    def expect(r, v, out):
        """blocks expected for a list or node"""
        h = r.obj(v)
        cls = cls_of(r, v)
        p = pairs(r, h)
        tables = []
        el = h.d['_elements']

        def elements(el):
            for i in range(r.length(el).v):
                e = r.item(el, i)
                eh, ec = r.obj(e), cls_of(r, e)
                if ec == 'Info':
                    elements(eh.d['_children'])
                elif ec == 'Array':
                    tables.append(('Array', e))
                elif ec == 'IndexMap':
                    tables.append(('IndexMap', e))
                elif ec == 'dict' or '_comment' not in eh.d:
                    pass
                else:
                    p.setdefault(eh.d['_elementType'].v, []).append(eh.d['_comment'])
        elements(el)
        for k, x in params(r, v, cls).items():
            p.setdefault(k, []).append(x)
        if cls == 'Reference':
            p['Resolved Path'] = [h.d['_resolvedPath']]
        out.append((None if cls == 'ProcessList' else h.d['_nodeType'].v, cls, p, tables))
        if cls in ('ProcessList', 'Group'):
            for i in range(r.length(h.d['_processes']).v):
                expect(r, r.item(h.d['_processes'], i), out)
        if cls == 'Reference' and h.d['_processList'] is not NONE:
            expect(r, h.d['_processList'], out)
        return out

    def judge(nm, r, blocks, want):
        if not ck.true(nm + ' | parts', 'printInfo', [b.kind for b in blocks] == [w[0] for w in want], msg='printed %s, expected %s' % ([b.kind for b in blocks], [w[0] for w in want])):
            return
        for n, (b, (kind, cls, p, tables)) in enumerate(zip(blocks, want)):
            at = '%s | %d %s' % (nm, n, cls)
            con = cls + '.printInfo'
            for label, vals in sorted(p.items()):
                got = b.pairs.get(label, [])
                if len(got) != len(vals):
                    ck.fail('%s %s' % (at, label), con, 'printed %d times, stored %d times' % (len(got), len(vals)))
                    continue
                for i, ((t, text), w) in enumerate(zip(got, vals)):
                    value(r, '%s %s%s' % (at, label, '' if len(vals) == 1 else ' %d' % i), con, t, text, w)
            if not ck.true(at + ' | tables', con, [t.kind for t in b.tables] == [k for k, v in tables], msg='printed %s' % [t.kind for t in b.tables]):
                continue
            for k, (t, (kind, v)) in enumerate(zip(b.tables, tables)):
                a2 = '%s %s %d' % (at, kind, k)
                con2 = kind + '.printInfo'
                vals = r.attr(v, '_values')
                if kind == 'Array':
                    dims = [r.item(r.attr(v, '_dimensions'), i).v for i in range(r.length(r.attr(v, '_dimensions')).v)]
                    cols = dims[-1] if len(dims) in (2, 4) else dims[1]
                    count = r.length(vals).v // cols
                    row = lambda i: [r.item(vals, i * cols + j) for j in range(cols)]
                    size = dims
                else:
                    count = r.length(r.item(vals, 0)).v
                    row = lambda i: [r.item(r.item(vals, j), i) for j in range(2)]
                    size = count
                if t.size is None:
                    ck.fail(a2 + ' size', con2, 'not printed')
                    continue
                value(r, a2 + ' size', con2, t.size[0], t.size[1], size)
                m = len(t.rows)
                if t.cut is None:
                    idx = list(range(m))
                    ok = m == count
                else:
                    idx = list(range(t.cut)) + list(range(count - (m - t.cut), count))
                    ok = 0 < t.cut < m <= count
                if not ck.true(a2 + ' rows', con2, ok, msg='%d rows printed of %d%s' % (m, count, '' if t.cut is None else ', %d before the gap' % t.cut)):
                    continue
                for (txt, toks), i in zip(t.rows, idx):
                    w = row(i)
                    if len(toks) != len(w):
                        ck.fail('%s row %d' % (a2, i), con2, '%d values instead of %d' % (len(toks), len(w)))
                        continue
                    for j, (tok, x) in enumerate(zip(toks, w)):
                        value(r, '%s row %d %d' % (a2, i, j), con2, txt, tok, x)

    def worlds(nm, th, facts, ranges, con, depth=0):
        """judge what is printed; where a line is printed under a condition, once for each of its outcomes"""
        r = lab.run(th, list(facts))
        r.ranges = dict(ranges or {})
        ck.analysed(lab)
        if not ck.no_raise(nm + ' | no exception', r, r.ranges, construct=con) or r.v is None:
            return
        if r.unmod:
            return ck.unknown(nm, 'unmodelled: %s' % (r.unmod[:2],))
        have = r.facts.set()
        for ev in r.events:
            if ev.kind != 'print' or ev.facts is None:
                continue
            for c in ev.facts.lits:
                if c in have or r.facts.decide(c) is True:
                    continue
                if depth == 5:
                    return ck.unknown(nm, 'too many conditions on what is printed')
                for side in (c, T.neg_cond(c)):
                    if Q.feasible(Facts(list(r.facts.lits) + [side]), r.ranges) is None:
                        continue
                    worlds('%s, %s' % (nm, short(side, 40)), th, list(facts) + [side], ranges, con, depth + 1)
                return
        judge(nm, r, parse(lab, r.events), expect(r, r.v, []))

    def printed(nm, build, facts=(), ranges=None, con='printInfo'):
        def th():
            v = build()
            lab.call(v, 'printInfo')
            return v
        jobs.append(functools.partial(ck.scenario, nm, lambda: worlds(nm, th, facts, ranges, con)))

    def dressed(e, extra=()):
        def mk():
            n = e.mk()
            lab.call(n, 'addElement', lab.new('Description', LONG))
            zoo.describe(lab, n)
            lab.call(n, 'setDynamicParam', 'exposure')
            lab.call(n, 'setDynamicParam', 'contrast')
            lab.call(n, 'setAttribute', 'name', LONG)
            lab.call(n, 'setAttribute', 'custom', 'own value')
            for k, v in extra:
                lab.call(n, 'setAttribute', k, v)
            return n
        return mk

    def whole(nodes, group=False):
        pl = lab.new('ProcessList')
        lab.call(pl, 'setName', LONG)
        lab.call(pl, 'setID', 'identity')
        lab.call(pl, 'setInverseOf', 'other transform')
        lab.call(pl, 'setCompCLFversion', '1.2')
        lab.call(pl, 'addValueElement', 'Note', 'noted')
        lab.call(pl, 'addElement', lab.new('Info', 'release 1.0', 'all rights'))
        for c in ('Description', 'InputDescriptor', 'OutputDescriptor', 'Description'):
            lab.call(pl, 'addElement', lab.new(c, 'words of ' + c))
        for n in nodes():
            lab.call(pl, 'addProcess', n)
        return pl

    E = zoo.entries(lab, deep)
    for k, e in enumerate(E):
        printed(e.name, dressed(e), e.facts, e.ranges)
        printed(e.name + ' bypassed', dressed(e, [('bypass', True)]), e.facts, e.ranges)

        def group(e=e):
            g = lab.new('Group', '10i', '32f', 'gid', 'a group')
            zoo.describe(lab, g, ('of the group',))
            lab.call(g, 'addProcess', plain(lab, 1))
            lab.call(g, 'addProcess', dressed(e)())
            lab.call(g, 'addProcess', plain(lab, 2))
            return g
        f2, r2 = list(e.facts), e.ranges
        printed(e.name + ' in a group', group, f2, r2)
        printed(e.name + ' in a list', lambda e=e: whole(lambda: [plain(lab, 1), dressed(e)(), plain(lab, 2)]), f2, r2)

        def reread(e=e, k=k):
            root = lab.call(lab.call(whole(lambda: [dressed(e)()]), 'write'), 'getroot')
            save(lab, root, '/scratch/r.clf', False)
            return reader(lab, root, ('read', 'readFile')[k % 2], False)
        printed(e.name + ' read', reread, f2, r2)
    # nodes as made
    for c in ('Range', 'Matrix', 'ASCCDL', 'ColorCorrection', 'LUT1D', 'LUT3D', 'Gamma', 'Log', 'ExposureContrast', 'Reference', 'Group', 'ProcessNode', 'ProcessList'):
        printed('new ' + c, lambda c=c: lab.new(c))
    # longer tables
    sizes = [2, 9, 10, 11, 12, 16, 21] if not deep else list(range(2, 26)) + [40]

    def arr(n, ty='float'):
        return lab.list([sym('t%d' % i, ty) for i in range(n)])
    for n in sizes:
        for cols in (1, 3):
            for outd in ('16f', '12i'):
                def mk(n=n, cols=cols, outd=outd):
                    l = lab.new('LUT1D', '16f', outd, 'l', 'l')
                    lab.call(l, 'setArray', cols, arr(n * cols, 'float' if outd == '16f' else 'int'))
                    return l
                printed('LUT1D with %d rows of %d to %s' % (n, cols, outd), mk)
    for n in sizes + [14, 15, 17]:
        for three in (False, True):
            def mk(n=n, three=three):
                l = lab.new('LUT1D', '16f', '16f', 'l', 'l')
                maps = []
                for c in 'RGB'[:3 if three else 1]:
                    m = n + 'RGB'.index(c)
                    maps.append(lab.list([lab.list([sym('in%s%d' % (c, i), 'float') for i in range(m)]), lab.list([sym('out%s%d' % (c, i), 'int') for i in range(m)])]))
                lab.call(l, 'setIndexMaps', *maps)
                lab.call(l, 'setArray', 3, arr(6))
                return l
            printed('LUT1D with %d index maps of %d pairs' % (3 if three else 1, n), mk)
    for dims in ((2, 2, 2), (3, 2, 2), (2, 3, 2), (2, 2, 3), (3, 3, 3)) + (((4, 3, 2), (2, 5, 3)) if deep else ()):
        for outd in ('16f', '10i'):
            def mk(dims=dims, outd=outd):
                l = lab.new('LUT3D', '16f', outd, 'l', 'l')
                lab.call(l, 'setArray', lab.list(list(dims) + [3]), arr(3 * dims[0] * dims[1] * dims[2], 'float' if outd == '16f' else 'int'))
                return l
            printed('LUT3D %dx%dx%d to %s' % (dims + (outd,)), mk)
    # references to lists that are there
    for depth in (1, 2):
        def mk(depth=depth):
            lab.call(whole(lambda: [plain(lab, 1), plain(lab, 2)]), 'writeFile', '/scratch/a.clf')
            lab.call(whole(lambda: [lab.new('Reference', '16f', '16f', 'rid', 'inner', 'a.clf', '/scratch'), plain(lab, 3)]), 'writeFile', '/scratch/b.clf')
            return whole(lambda: [plain(lab, 4), lab.new('Reference', '16f', '16f', 'rid', 'outer', ('a.clf', 'b.clf')[depth - 1], '/scratch', 'nick'), plain(lab, 5)])
        printed('reference of depth %d' % depth, mk)

    # the command-line tool
    def info(nm, e):
        def go():
            def th():
                lab.call(whole(lambda: [plain(lab, 1), dressed(e)(), plain(lab, 2)]), 'writeFile', '/scratch/a.clf')
                B.main('clfinfo', ['--clf', '/scratch/a.clf'])
                return lab.new('ProcessList', '/scratch/a.clf')
            worlds(nm, th, e.facts, e.ranges, 'clfinfo')
        jobs.append(functools.partial(ck.scenario, nm, go))
    seen = set()
    for e in E:
        if e.cls not in seen or deep:
            seen.add(e.cls)
            info('clfinfo of ' + e.name, e)
    ck.parallel(jobs)
    return ck.finish('the text printed for every kind of node, alone, bypassed, in a group, in a list, and read back from a file; for nodes as constructed; for tables of sizes around the sizes at which rows are left out; for references to existing files; and by clfinfo.',
                     ['stored values are finite, and whole numbers where the output depth is an integer one', 'a floating-point value printed with nine decimals counts as printed'], floor=500)


if __name__ == '__main__':
    main(run)
