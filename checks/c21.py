import functools, itertools, re
from common import *
import files
from files import Text, content, text_of, write_file
from clfstatic import terms as T


class Broken(Exception):
    pass


def need(c, msg):
    if not c:
        raise Broken(msg)


def rows(t):
    return [l.split() for l in t.s.split('\n') if l.strip()]


def ints(toks):
    try:
        return [int(x) for x in toks]
    except ValueError:
        raise Broken('%r is not a list of whole numbers' % (toks,))


def parse_spi1d(t):
    R = rows(t)
    head, body, inside = {}, [], False
    for r in R:
        if r[0] == '{':
            need(len(r) == 1 and not inside, 'misplaced {')
            inside = True
        elif r[0] == '}':
            need(inside, 'misplaced }')
            inside = None
        elif inside:
            body.append(r)
        else:
            need(inside is False, 'text after }')
            need(r[0] not in head, '%s given twice' % r[0])
            head[r[0]] = r[1:]
    need(inside is None, 'the table is not enclosed in { }')
    need(head.get('Version') == ['1'], 'Version is not 1')
    need(len(head.get('From', [])) == 2, 'From has not two values')
    n, c = ints(head.get('Length', ['x']))[0], ints(head.get('Components', ['x']))[0]
    need(len(body) == n, '%d rows for a length of %d' % (len(body), n))
    for r in body:
        need(len(r) == c, '%d numbers in a row of %d components' % (len(r), c))
    return head['From'], n, c, body


def parse_spi3d(t):
    R = rows(t)
    need(R[0] == ['SPILUT', '1.0'], 'the first line is not SPILUT 1.0')
    need(ints(R[1]) == [3, 3], 'the second line is not 3 3')
    size = ints(R[2])
    need(len(size) == 3, 'size has %d numbers' % len(size))
    out = []
    for r in R[3:]:
        need(len(r) == 6, '%d numbers in a row' % len(r))
        out.append((tuple(ints(r[:3])), r[3:]))
    return size, out


def parse_csp(t):
    L = t.s.split('\n')
    need(L[0].strip() == 'CSPLUTV100', 'the first line is not CSPLUTV100')
    kind = L[1].strip()
    need(kind in ('1D', '3D'), 'the second line is neither 1D nor 3D')
    S = [l.strip() for l in L]
    need('BEGIN METADATA' in S and 'END METADATA' in S, 'no metadata section')
    R = [l.split() for l in L[S.index('END METADATA') + 1:] if l.strip()]
    pre = []
    for c in range(3):
        n = ints(R[3 * c])[0]
        need(len(R[3 * c + 1]) == n and len(R[3 * c + 2]) == n, 'prelut %d has %d inputs and %d outputs for a length of %d' % (c, len(R[3 * c + 1]), len(R[3 * c + 2]), n))
        pre.append((R[3 * c + 1], R[3 * c + 2]))
    size = ints(R[9])
    need(len(size) == (3 if kind == '3D' else 1), 'size has %d numbers' % len(size))
    return kind, pre, size, R[10:]


def parse_ctl1d(t):
    s = re.sub('//[^\n]*', '', t.s)
    vals = dict(re.findall(r'const\s+float\s+(\w+)\s*=\s*([^;]*?)\s*;', s))
    tabs = {k: [x.strip() for x in v.split(',')] for k, v in re.findall(r'const\s+float\s+(\w+)\s*\[\s*\]\s*=\s*\{([^}]*)\}\s*;', s)}
    use = dict(re.findall(r'\b([rgb])\s*=\s*lookup1D\s*\(\s*([^)]*?)\s*\)', s))
    out = []
    for c in 'rgb':
        need(c in use, 'no lookup of channel %s' % c)
        a = [x.strip() for x in use[c].split(',')]
        need(len(a) == 4 and a[3] == c, 'the lookup of channel %s is not applied to it' % c)
        need(a[0] in tabs, 'table %s is not defined' % a[0])
        need(a[1] in vals and a[2] in vals, 'the range %s, %s is not defined' % (a[1], a[2]))
        out.append((tabs[a[0]], vals[a[1]], vals[a[2]]))
    for c, o in zip('rgb', ('rOut', 'gOut', 'bOut')):
        need(re.search(r'\b%s\s*=\s*%sIn\s*;' % (c, c), s), 'channel %s does not start from its input' % c)
        need(re.search(r'\b%s\s*=\s*%s\s*;' % (o, c), s), '%s is not channel %s' % (o, c))
    return out


def parse_ctl3d(t):
    s = re.sub('//[^\n]*', '', t.s)
    m = re.search(r'const\s+float\s+(\w+)\s*((?:\[\s*\d+\s*\]){2,})\s*=\s*(\{.*?\})\s*;\s*void', s, re.S)
    need(m, 'no table')
    dims = [int(x) for x in re.findall(r'\d+', m.group(2))]
    need(len(dims) == 4 and dims[3] == 3, 'the table has dimensions %s' % dims)
    toks = re.findall(r'[{},]|[^{},\s]+', m.group(3))
    pos = [0]

    def val():
        need(pos[0] < len(toks), 'the table ends early')
        k = toks[pos[0]]
        pos[0] += 1
        if k != '{':
            need(k not in '},', 'misplaced %s' % k)
            return k
        out = []
        while True:
            out.append(val())
            need(pos[0] < len(toks) and toks[pos[0]] in '},', 'a comma or brace is missing')
            pos[0] += 1
            if toks[pos[0] - 1] == '}':
                return out
    tab = val()
    need(pos[0] == len(toks), 'text after the table')

    def shape(x, d):
        if not d:
            need(isinstance(x, str), 'a number is missing')
            return
        need(isinstance(x, list) and len(x) == d[0], '%s entries where the size is %d' % (len(x) if isinstance(x, list) else 1, d[0]))
        for y in x:
            shape(y, d[1:])
    shape(tab, dims)
    arrs = {k: [x.strip() for x in v.split(',')] for k, v in re.findall(r'const\s+float\s+(\w+)\s*\[\s*3\s*\]\s*=\s*\{([^}]*)\}\s*;', s)}
    a = re.search(r'lookup3D_f\s*\(([^)]*)\)', s)
    need(a, 'no lookup')
    a = [x.strip() for x in a.group(1).split(',')]
    need(len(a) == 9 and a[0] == m.group(1) and a[3:6] == list('rgb') and a[6:] == list('rgb'), 'the lookup does not map r, g, b to themselves through the table')
    need(a[1] in arrs and a[2] in arrs, 'the range is not defined')
    for c, o in zip('rgb', ('rOut', 'gOut', 'bOut')):
        need(re.search(r'\b%s\s*=\s*%sIn\s*;' % (c, c), s), 'channel %s does not start from its input' % c)
        need(re.search(r'\b%s\s*=\s*%s\s*;' % (o, c), s), '%s is not channel %s' % (o, c))
    return dims[:3], tab, arrs[a[1]], arrs[a[2]]


def run(tier):
    ck = Check('C21', tier, 'the text a writer produces, as a sequence of literal text and printed terms, parsed by the format\'s grammar: every entry is the printed term of its grid point; the table a reader builds holds the term of each grid point')
    lab = Lab()
    lut = lab.load(loader.ACES + '/lutFormats/__init__.py', 'lutFormats')
    deep = tier != 'quick'
    jobs = []
    LO, HI = sym('lo', 'float'), sym('hi', 'float')
    RNG = {'lo': (-.5, -.1), 'hi': (1.2, 4.0), 'd': (-.2, 1.4), 's': (-.2, 1.4), 'o': (-.2, 1.4)}
    FACTS = [compare('lt', LO, Const(0.0)), compare('gt', HI, Const(1.0))]

    def fmt(name):
        return lab.I.getattr(lut, name)

    def call(c, m, *a, **k):
        return lab.I.call(lab.I.getattr(c, m), [wrap(x) for x in a], {n: wrap(v) for n, v in k.items()})

    def D(*i):
        return M.rd('d', Const(int(''.join('%d' % (k % 10) for k in i)) + 10 ** len(i))) if False else sym('d_' + '_'.join(map(str, i)), 'float')

    def flat(n, ch=3, pre='d'):
        return lab.list([sym('%s_%d_%d' % (pre, i, c), 'float') for i in range(n) for c in range(ch)])

    def cube(size, pre='d', leaf='list'):
        def leafv(r, g, b):
            v = lab.list([sym('%s_%d_%d_%d_%d' % (pre, r, g, b, c), 'float') for c in range(3)])
            return v if leaf == 'list' else lab.callx('np.array', v, Op('ext', ('np.float32',), 'ext'))
        return lab.list([lab.list([lab.list([leafv(r, g, b) for b in range(size[2])]) for g in range(size[1])]) for r in range(size[0])])

    def written(nm, con, write, parse, compare_, path):
        """write: in a scenario; parse(Text) -> structure; compare_(structure) yields (label, token, expected)"""
        def go():
            def th():
                ret = write()
                t = content(lab, path)
                return lab.list([ret, t])
            r = lab.run(th, FACTS)
            ck.analysed(lab)
            if not ck.no_raise(nm + ' | no exception', r, RNG) or r.v is None:
                return
            if r.unmod:
                return ck.unknown(nm, 'unmodelled: %s' % (r.unmod[:2],))
            ret, tv = r.item(r.v, 0), r.item(r.v, 1)
            ck.true(nm + ' | reports success', con, r.do(lambda: M.truth(lab.I, ret)) is TRUE if hasattr(M, 'truth') else ret is TRUE, msg='the writer does not report success')
            if not isinstance(tv, Val) or T.ty_of(tv) != 'str' and not isinstance(tv, Const):
                return ck.unknown(nm + ' | text', 'the text is not analysed')
            t = text_of(lab, tv)
            try:
                st = parse(t)
                its = list(compare_(st))
            except Broken as e:
                return ck.fail(nm + ' | layout', con, str(e).replace(files.LEFT, '<').replace(files.RIGHT, '>'))
            except (IndexError, KeyError) as e:
                return ck.fail(nm + ' | layout', con, 'the file ends early')
            ck.ok(nm + ' | layout')
            for label, tok, exp in its:
                if not isinstance(tok, str):
                    ck.true('%s | %s' % (nm, label), con, tok == exp, msg='%s instead of %s' % (tok, exp))
                    continue
                p = t.number(tok)
                if p is None:
                    ck.fail('%s | %s' % (nm, label), con, '%s is not one number' % t.shown(tok))
                    continue
                v = p if isinstance(p, Const) else r.do(lambda: files.num(lab, p))
                ck.equal('%s | %s' % (nm, label), con, v, exp, r.facts, RNG)
        return functools.partial(ck.scenario, nm, go)

    sizes1 = (1, 2, 3, 5) if not deep else (1, 2, 3, 4, 5, 8, 17)
    sizes3 = ((2, 2, 2), (2, 3, 4), (4, 2, 3), (1, 2, 1), (3, 4, 2)) + (((5, 3, 6), (1, 1, 1), (7, 2, 2), (4, 4, 4), (3, 2, 5)) if deep else ())

    def s1(n, rngtok):
        return lambda st: itertools.chain(
            [('size', st[1], n), ('from', rngtok(st)[0], LO), ('to', rngtok(st)[1], HI)],
            [('entry %d channel %d' % (i, c), st[3][i][c], sym('d_%d_%d' % (i, c), 'float')) for i in range(n) for c in range(3)])
    for n in sizes1:
        jobs.append(written('spi1d of %d entries' % n, 'LutFormatSPI.write1D', lambda n=n: call(fmt('LutFormatSPI'), 'write1D', '/scratch/a.spi1d', flat(n), n, LO, HI), parse_spi1d,
                            lambda st, n=n: [('size', st[1], n), ('components', st[2], 3), ('from', st[0][0], LO), ('to', st[0][1], HI)] +
                            [('entry %d channel %d' % (i, c), st[3][i][c], sym('d_%d_%d' % (i, c), 'float')) for i in range(n) for c in range(3)], '/scratch/a.spi1d'))
        for ch, comp in ((1, 1), (3, 1), (4, 3), (2, 2), (1, 3)):
            eff = min(3, comp, ch)
            jobs.append(written('spi1d of %d entries, %d channels, %d components' % (n, ch, comp), 'LutFormatSPI.writeSPI1D',
                                lambda n=n, ch=ch, comp=comp: call(fmt('LutFormatSPI'), 'writeSPI1D', '/scratch/a.spi1d', LO, HI, flat(n, ch), n, ch, comp), parse_spi1d,
                                lambda st, n=n, eff=eff: [('size', st[1], n), ('components', st[2], eff), ('from', st[0][0], LO), ('to', st[0][1], HI)] +
                                [('entry %d channel %d' % (i, c), st[3][i][c], sym('d_%d_%d' % (i, c), 'float')) for i in range(n) for c in range(eff)], '/scratch/a.spi1d'))

        def csp1(st, n=n, mono=False):
            kind, pre, size, body = st
            need(kind == '1D', 'declared as %s' % kind)
            need(len(body) == n, '%d rows for a size of %d' % (len(body), n))
            for r in body:
                need(len(r) == 3, '%d numbers in a row' % len(r))
            out = [('size', size[0], n)]
            for c in range(3):
                need(len(pre[c][0]) == 2, 'the prelut of a plain range has %d entries' % len(pre[c][0]))
                out += [('prelut %d in 0' % c, pre[c][0][0], LO), ('prelut %d in 1' % c, pre[c][0][1], HI), ('prelut %d out 0' % c, pre[c][1][0], Const(0.0)), ('prelut %d out 1' % c, pre[c][1][1], Const(1.0))]
            return out + [('entry %d channel %d' % (i, c), body[i][c], sym('d_%d_%d' % (i, 0 if mono else c), 'float')) for i in range(n) for c in range(3)]
        jobs.append(written('csp 1D of %d entries' % n, 'LutFormatCSP.write1D', lambda n=n: call(fmt('LutFormatCSP'), 'write1D', '/scratch/a.csp', flat(n), n, LO, HI), parse_csp, csp1, '/scratch/a.csp'))
        jobs.append(written('csp 1D of %d entries, one component' % n, 'LutFormatCSP.writeCSP1D', lambda n=n: call(fmt('LutFormatCSP'), 'writeCSP1D', '/scratch/a.csp', LO, HI, flat(n), n, 3, 1), parse_csp,
                            functools.partial(csp1, mono=True), '/scratch/a.csp'))
        for ch, comp in ((1, 1), (1, 3), (4, 3), (4, 1)):
            jobs.append(written('csp 1D of %d entries, %d channels, %d components' % (n, ch, comp), 'LutFormatCSP.writeCSP1D',
                                lambda n=n, ch=ch, comp=comp: call(fmt('LutFormatCSP'), 'writeCSP1D', '/scratch/a.csp', LO, HI, flat(n, ch), n, ch, comp), parse_csp,
                                functools.partial(csp1, mono=min(ch, comp) == 1), '/scratch/a.csp'))

        def ctl1(st, n=n, mono=False):
            out = []
            for c, (tab, lo, hi) in enumerate(st):
                need(len(tab) == n, '%d entries instead of %d' % (len(tab), n))
                out += [('min channel %d' % c, lo, LO), ('max channel %d' % c, hi, HI)]
                out += [('entry %d channel %d' % (i, c), tab[i], sym('d_%d_%d' % (i, 0 if mono else c), 'float')) for i in range(n)]
            return out
        jobs.append(written('ctl 1D of %d entries' % n, 'LutFormatCTL.write1D', lambda n=n: call(fmt('LutFormatCTL'), 'write1D', '/scratch/a.ctl', flat(n), n, LO, HI), parse_ctl1d, ctl1, '/scratch/a.ctl'))
        for ch in (1, 3):
            jobs.append(written('ctl 1D of %d entries, one component of %d' % (n, ch), 'LutFormatCTL.writeCTL1D', lambda n=n, ch=ch: call(fmt('LutFormatCTL'), 'writeCTL1D', '/scratch/a.ctl', LO, HI, flat(n, ch), n, ch, 1), parse_ctl1d,
                                functools.partial(ctl1, mono=True), '/scratch/a.ctl'))
    for z in sizes3:
        grid = list(itertools.product(range(z[0]), range(z[1]), range(z[2])))
        txt = 'x'.join(map(str, z))
        for leaf in ('list', 'array'):
            def sz(kind=leaf, z=z):
                return lab.list(list(z))

            def spi3(st, z=z, grid=grid):
                size, body = st
                need(len(body) == len(grid), '%d rows for %d grid points' % (len(body), len(grid)))
                out = [('size', tuple(size), tuple(z))]
                for k, (idx, vals) in enumerate(body):
                    need(idx == grid[k], 'row %d is for grid point %s instead of %s' % (k, idx, grid[k]))
                    out += [('entry %s channel %d' % (idx, c), vals[c], sym('d_%d_%d_%d_%d' % (idx + (c,)), 'float')) for c in range(3)]
                return out
            jobs.append(written('spi3d %s of %s' % (txt, leaf), 'LutFormatSPI.write3D', lambda z=z, leaf=leaf: call(fmt('LutFormatSPI'), 'write3D', '/scratch/a.spi3d', cube(z, leaf=leaf), lab.list(list(z)), LO, HI), parse_spi3d, spi3, '/scratch/a.spi3d'))

            def csp3(st, z=z, shaper=None):
                kind, pre, size, body = st
                need(kind == '3D', 'declared as %s' % kind)
                n = z[0] * z[1] * z[2]
                need(len(body) == n, '%d rows for %d grid points' % (len(body), n))
                out = [('size', tuple(size), tuple(z))]
                for c in range(3):
                    m = shaper or 2
                    need(len(pre[c][0]) == m, 'prelut %d has %d entries instead of %d' % (c, len(pre[c][0]), m))
                    if shaper:
                        for i in range(m):
                            out.append(('prelut %d in %d' % (c, i), pre[c][0][i], LO + (HI - LO) * Const(float(i)) / Const(float(m - 1))))
                            out.append(('prelut %d out %d' % (c, i), pre[c][1][i], sym('s_%d_%d' % (i, c), 'float')))
                    else:
                        out += [('prelut %d in 0' % c, pre[c][0][0], LO), ('prelut %d in 1' % c, pre[c][0][1], HI), ('prelut %d out 0' % c, pre[c][1][0], Const(0.0)), ('prelut %d out 1' % c, pre[c][1][1], Const(1.0))]
                k = 0
                for b in range(z[2]):
                    for g in range(z[1]):
                        for r in range(z[0]):
                            need(len(body[k]) == 3, '%d numbers in a row' % len(body[k]))
                            out += [('row %d channel %d' % (k, c), body[k][c], sym('d_%d_%d_%d_%d' % (r, g, b, c), 'float')) for c in range(3)]
                            k += 1
                return out
            jobs.append(written('csp 3D %s of %s' % (txt, leaf), 'LutFormatCSP.write3D', lambda z=z, leaf=leaf: call(fmt('LutFormatCSP'), 'write3D', '/scratch/a.csp', cube(z, leaf=leaf), lab.list(list(z)), LO, HI), parse_csp, csp3, '/scratch/a.csp'))
            for m in (2, 4):
                jobs.append(written('csp 1D/3D %s of %s with a shaper of %d' % (txt, leaf, m), 'LutFormatCSP.write1D3D1D',
                                    lambda z=z, leaf=leaf, m=m: call(fmt('LutFormatCSP'), 'write1D3D1D', '/scratch/a.csp', flat(m, 3, 's'), m, LO, HI, cube(z, leaf=leaf), lab.list(list(z)), NONE, 0, 0.0, 1.0),
                                    parse_csp, functools.partial(csp3, shaper=m), '/scratch/a.csp'))
            jobs.append(written('csp 1D/3D %s of %s without shaper' % (txt, leaf), 'LutFormatCSP.write1D3D1D',
                                lambda z=z, leaf=leaf: call(fmt('LutFormatCSP'), 'write1D3D1D', '/scratch/a.csp', NONE, 7, LO, HI, cube(z, leaf=leaf), lab.list(list(z)), NONE, 0, 0.0, 1.0), parse_csp, csp3, '/scratch/a.csp'))

            def ctl3(st, z=z, grid=grid):
                dims, tab, lo, hi = st
                need(len(lo) == 3 and len(hi) == 3, 'the range has not three channels')
                out = [('size', tuple(dims), tuple(z))]
                out += [('min %d' % c, lo[c], LO) for c in range(3)] + [('max %d' % c, hi[c], HI) for c in range(3)]
                return out + [('entry %s channel %d' % (p, c), tab[p[0]][p[1]][p[2]][c], sym('d_%d_%d_%d_%d' % (p + (c,)), 'float')) for p in grid for c in range(3)]
            jobs.append(written('ctl 3D %s of %s' % (txt, leaf), 'LutFormatCTL.write3D', lambda z=z, leaf=leaf: call(fmt('LutFormatCTL'), 'write3D', '/scratch/a.ctl', cube(z, leaf=leaf), lab.list(list(z)), LO, HI), parse_ctl3d, ctl3, '/scratch/a.ctl'))

    # ---- reading: nodes expected as [('Range', lo, hi)] + [('LUT1D'|'LUT3D', dims, values)]
    def nodes_ok(nm, con, r, lst, want, loose=False):
        n = r.length(lst)
        if not isinstance(n, Const):
            return ck.unknown(nm + ' | nodes', 'number of nodes not analysed')
        if n.v != len(want):
            return ck.fail(nm + ' | nodes', con, '%d nodes instead of %s' % (n.v, ', '.join(w[0] for w in want)))
        for i, w in enumerate(want):
            p = r.item(lst, i)
            kind = r.st.get(r.obj(p).cls.oid).meta.name if isinstance(p, Ref) and r.obj(p).kind == 'inst' else '?'
            if kind != w[0]:
                ck.fail('%s | node %d' % (nm, i), con, '%s instead of %s' % (kind, w[0]))
                continue
            ck.ok('%s | node %d' % (nm, i))
            for d in ('getInBitDepth', 'getOutBitDepth'):
                v = r.do(lambda: lab.call(p, d))
                ck.true('%s | node %d %s' % (nm, i, d), con, v in (Const('16f'), Const('32f')), msg='the depth is %s' % short(v, 20))
            if kind == 'Range':
                for f, e in zip(('minInValue', 'maxInValue', 'minOutValue', 'maxOutValue'), w[1:]):
                    ck.equal('%s | range %s' % (nm, f), con, r.do(lambda: lab.call(p, 'getValueElement', f)), e, r.facts, RNG)
                continue
            dims, vals = w[1], w[2]
            dv = r.attr(r.attr(p, '_array'), '_dimensions')
            for k, e in enumerate(dims):
                ck.equal('%s | %s dimension %d' % (nm, kind, k), con, r.item(dv, k), wrap(e), r.facts, RNG)
            ck.equal('%s | %s dimensions' % (nm, kind), con, r.length(dv), Const(len(dims)), r.facts)
            vv = r.attr(r.attr(p, '_array'), '_values')
            ck.equal('%s | %s entries' % (nm, kind), con, r.length(vv), Const(len(vals)), r.facts)
            if len(w) > 3:
                a = r.do(lambda: lab.call(p, 'getAttribute', 'interpolation'))
                ck.true('%s | %s interpolation' % (nm, kind), con, a is Const(w[3]), msg='interpolation %s instead of %s' % (short(a, 20), w[3]))
            for k, e in enumerate(vals):
                ck.equal('%s | %s entry %d' % (nm, kind, k), con, r.item(vv, k), e, r.facts, RNG)

    def reads(nm, con, make, how, want, facts=None):
        def go():
            def th():
                path = make()
                if how == 'registry':
                    q = call(fmt('Registry'), 'read', path)
                    return lab.call(q, 'getProcesses')
                if how == 'nodes':
                    return call(fmt('Registry'), 'read', path, returnProcessNodes=True)
                return how(path)
            r = lab.run(th, FACTS if facts is None else facts)
            ck.analysed(lab)
            if not ck.no_raise(nm + ' | no exception', r, RNG) or r.v is None:
                return
            if r.unmod:
                return ck.unknown(nm, 'unmodelled: %s' % (r.unmod[:2],))
            nodes_ok(nm, con, r, r.v, want() if callable(want) else want)
        return functools.partial(ck.scenario, nm, go)

    def R01(lo, hi):
        return ('Range', lo, hi, Const(0.0), Const(1.0))

    def d1(n, ch=3, pre='d'):
        return [sym('%s_%d_%d' % (pre, i, c), 'float') for i in range(n) for c in range(ch)]

    def d3(z, pre='d'):
        return [sym('%s_%d_%d_%d_%d' % (pre, r, g, b, c), 'float') for r in range(z[0]) for g in range(z[1]) for b in range(z[2]) for c in range(3)]
    HOW = ('registry', 'nodes')
    for j, n in enumerate(x for x in sizes1 if x > 1):
        for how in HOW:
            jobs.append(reads('spi1d of %d entries written and read (%s)' % (n, how), 'LutFormatSPI.readSPI1D',
                              lambda n=n: (call(fmt('LutFormatSPI'), 'write1D', '/scratch/a.spi1d', flat(n), n, LO, HI), '/scratch/a.spi1d')[1], how, lambda n=n: [R01(LO, HI), ('LUT1D', (n, 3), d1(n), 'linear')]))
            jobs.append(reads('spi1d of %d entries over 0..1 written and read (%s)' % (n, how), 'LutFormatSPI.readSPI1D',
                              lambda n=n: (call(fmt('LutFormatSPI'), 'write1D', '/scratch/a.spi1d', flat(n), n, 0.0, 1.0), '/scratch/a.spi1d')[1], how, lambda n=n: [('LUT1D', (n, 3), d1(n))]))
            jobs.append(reads('csp 1D of %d entries written and read (%s)' % (n, how), 'LutFormatCSP.readCSP',
                              lambda n=n: (call(fmt('LutFormatCSP'), 'write1D', '/scratch/a.csp', flat(n), n, LO, HI), '/scratch/a.csp')[1], how, lambda n=n: [R01(LO, HI), ('LUT1D', (n, 3), d1(n))]))
    for j, z in enumerate(sizes3):
        how = HOW[j % 2]
        jobs.append(reads('spi3d %s written and read' % (z,), 'LutFormatSPI.readSPI3D', lambda z=z: (call(fmt('LutFormatSPI'), 'write3D', '/scratch/a.spi3d', cube(z), lab.list(list(z)), LO, HI), '/scratch/a.spi3d')[1], how,
                          lambda z=z: [('LUT3D', z + (3,), d3(z), 'trilinear')]))
        jobs.append(reads('csp 3D %s written and read' % (z,), 'LutFormatCSP.readCSP', lambda z=z: (call(fmt('LutFormatCSP'), 'write3D', '/scratch/a.csp', cube(z), lab.list(list(z)), LO, HI), '/scratch/a.csp')[1], how,
                          lambda z=z: [R01(LO, HI), ('LUT3D', z + (3,), d3(z))]))
        for si, so in ((0, 0), (3, 0), (0, 2), (3, 2)):
            def mk(z=z, si=si, so=so):
                call(fmt('LutFormatCLF'), 'write1D3D1D', '/scratch/a.clf', flat(si, 3, 's') if si else NONE, si, LO, HI, cube(z), lab.list(list(z)), flat(so, 3, 'o') if so else NONE, so, 0.0, 1.0)
                return '/scratch/a.clf'
            jobs.append(reads('clf 1D/3D/1D %s with shapers %d and %d' % (z, si, so), 'LutFormatCLF.writeCLF1D3D1D', mk, lambda p: lab.call(lab.new('ProcessList', p), 'getProcesses'),
                              lambda z=z, si=si, so=so: ([R01(LO, HI), ('LUT1D', (si, 3), d1(si, 3, 's'))] if si else []) + [('LUT3D', z + (3,), d3(z))] + ([('LUT1D', (so, 3), d1(so, 3, 'o'))] if so else [])))

    # files as other programs write them
    def spi1d_text(n, comps, style):
        def mk():
            P = []
            head = [['Version 1'], ['From ', LO, ' ', HI], ['Length %d' % n], ['Components %d' % comps]]
            if style == 1:
                head = [head[0], head[3], head[2], head[1]]
            nl = '\r\n' if style == 2 else '\n'
            for h in head:
                P += h + [nl]
            if style == 3:
                P += ['\n', '   \n']
            P += ['{', nl]
            for i in range(n):
                P.append('\t' if style else '        ')
                for c in range(comps):
                    P += [sym('d_%d_%d' % (i, c), 'float'), ' ' if c < comps - 1 else nl]
                if style == 3 and i == 1:
                    P += ['\n']
            P += ['}', nl]
            write_file(lab, '/scratch/e.spi1d', P)
            return '/scratch/e.spi1d'
        return mk
    for style in range(4):
        for comps in (1, 3):
            for n in (2, 4):
                jobs.append(reads('spi1d file, style %d, %d components, %d entries' % (style, comps, n), 'LutFormatSPI.readSPI1D', spi1d_text(n, comps, style), HOW[n % 3 % 2], lambda n=n, comps=comps: [R01(LO, HI), ('LUT1D', (n, comps), d1(n, comps))]))

    def spi3d_text(z, order):
        def mk():
            P = ['SPILUT 1.0\n', '3 3\n', '%d %d %d\n' % z]
            for p in sorted(itertools.product(range(z[0]), range(z[1]), range(z[2])), key=order):
                P += ['%d %d %d' % p]
                for c in range(3):
                    P += [' ', sym('d_%d_%d_%d_%d' % (p + (c,)), 'float')]
                P += ['\n']
            if z[0] == 2:
                P += ['\n']
            write_file(lab, '/scratch/e.spi3d', P)
            return '/scratch/e.spi3d'
        return mk
    for on, order in (('blue fastest', lambda p: p), ('red fastest', lambda p: p[::-1]), ('scattered', lambda p: ((p[0] * 7 + p[1] * 5 + p[2] * 3) % 11, p))):
        for z in sizes3[1:4]:
            for interp, w in (('linear', 'trilinear'), ('trilinear', 'trilinear'), ('tetrahedral', 'tetrahedral')):
                jobs.append(reads('spi3d file %s, %s, %s' % (z, on, interp), 'LutFormatSPI.readSPI3D', spi3d_text(z, order), lambda p, interp=interp: call(fmt('Registry'), 'read', p, False, interp, returnProcessNodes=True),
                                  lambda z=z, w=w: [('LUT3D', z + (3,), d3(z), w)]))
    for interp in ('linear', 'cubic'):
        jobs.append(reads('spi1d file, %s' % interp, 'LutFormatSPI.readSPI1D', spi1d_text(3, 3, 0), lambda p, interp=interp: call(fmt('Registry'), 'read', p, False, interp, returnProcessNodes=True), lambda interp=interp: [R01(LO, HI), ('LUT1D', (3, 3), d1(3), interp)]))

    def csp_text(kind, size, pre, meta, blanks):
        """pre: per channel (inputs, outputs)"""
        def mk():
            P = ['CSPLUTV100\n', kind + '\n', '\n']
            P += ['BEGIN METADATA\n'] + [m + '\n' for m in meta] + ['END METADATA\n', '\n' * blanks]
            for ins, outs in pre():
                P += ['%d\n' % len(ins)]
                for v in (ins, outs):
                    for k, x in enumerate(v):
                        P += [x, ' ' if k < len(v) - 1 else '\n']
            P += ['\n' * blanks]
            if kind == '1D':
                P += ['%d\n' % size[0]]
                for i in range(size[0]):
                    for c in range(3):
                        P += [sym('d_%d_%d' % (i, c), 'float'), ' ' if c < 2 else '\n']
            else:
                P += ['%d %d %d\n' % size]
                for b in range(size[2]):
                    for g in range(size[1]):
                        for r in range(size[0]):
                            for c in range(3):
                                P += [sym('d_%d_%d_%d_%d' % (r, g, b, c), 'float'), ' ' if c < 2 else '\n']
            write_file(lab, '/scratch/e.csp', P)
            return '/scratch/e.csp'
        return mk

    def plainpre():
        return [([LO, HI], [0.0, 1.0])] * 3
    for kind, size in (('1D', (3,)), ('3D', (2, 3, 4)), ('3D', (4, 2, 3))):
        for blanks in (1, 2):
            for meta in ([], ['some text'], ['a', 'b c', 'd']):
                jobs.append(reads('csp file %s %s, %d metadata lines, %d blank lines' % (kind, size, len(meta), blanks), 'LutFormatCSP.readCSP', csp_text(kind, size, plainpre, meta, blanks), HOW[blanks - 1],
                                  lambda kind=kind, size=size: [R01(LO, HI), ('LUT1D', size + (3,), d1(size[0])) if kind == '1D' else ('LUT3D', size + (3,), d3(size))]))

    # preluts: piecewise linear, each channel its own
    for lens, end in [(z, 0) for z in (((3, 3, 3), (4, 3, 2), (2, 4, 3), (3, 2, 2), (2, 2, 2)) if deep else ((3, 3, 3), (4, 3, 2), (2, 3, 4), (2, 2, 2)))] + [((2, 2, 2), 1), ((2, 2, 2), 2)]:
        # end: 0 the inputs of all channels end at the same value, else this many of them end earlier
        ins = {c: [LO] + [sym('p_%d_%d' % (c, i), 'float') for i in range(1, lens[c] - 1)] + [sym('e_%d' % c, 'float') if c >= 3 - end else HI] for c in range(3)}
        outs = {c: [sym('q_%d_%d' % (c, i), 'float') for i in range(lens[c])] for c in range(3)}
        fs = list(FACTS)
        if lens == (2, 2, 2) and not end:
            outs[0] = outs[1] = [0.0, 1.0]
            fs += [compare('gt', outs[2][1], Const(1.5))]
            RNG['q_2_1'] = (1.6, 3.0)
        for c in range(3):
            fs += [compare('lt', a, b) for a, b in zip(ins[c], ins[c][1:])]
            if ins[c][-1] is not HI:
                fs += [compare('lt', ins[c][-1], HI)]
        m = max(lens) * 2
        exp = []
        for i in range(m):
            t = Const(float(i)) / Const(float(m - 1)) * (HI - LO) + LO
            for c in range(3):
                x, y = ins[c], [wrap(v) for v in outs[c]]

                def seg(k):
                    return (t - x[k]) / (x[k + 1] - x[k]) * (y[k + 1] - y[k]) + y[k]
                v = seg(len(x) - 2)
                for k in range(len(x) - 3, -1, -1):
                    v = ite(compare('lt', t, x[k + 1]), seg(k), v)
                exp.append(v)
        RNG.update({'p_%d_%d' % (c, i): (-.05 + .35 * i, .2 + .35 * i) for c in range(3) for i in range(1, 3)})
        RNG.update({'e_%d' % c: (.65, .95) for c in range(3)})
        jobs.append(reads('csp file with preluts of %s entries%s' % (lens, ', %d of them ending earlier' % end if end else ''), 'LutFormatCSP.generateCLFPrelut', csp_text('3D', (2, 2, 2), lambda ins=ins, outs=outs: [(ins[c], outs[c]) for c in range(3)], [], 1), 'nodes',
                          lambda exp=exp, m=m: [R01(LO, HI), ('LUT1D', (m, 3), exp), ('LUT3D', (2, 2, 2, 3), d3((2, 2, 2)))], fs))
    ck.parallel(jobs)
    return ck.finish('spi1d, spi3d, csp, ctl and clf writers on symbolic tables of several, also non-cubic, sizes with a symbolic range; readers on what the writers produce and on files in other layouts of the same format, entry by entry.',
                     ['sizes are enumerated, not symbolic', 'numbers printed with six or more digits count as exact'], floor=800)


if __name__ == '__main__':
    main(run)
