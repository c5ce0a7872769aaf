import functools, itertools
from common import *
import files, heap
from clfstatic import terms as T

# what each format is documented to do: extension -> (class, capabilities)
DOC = {'spi1d': ('LutFormatSPI', ('read', 'write1D')), 'spi3d': ('LutFormatSPI', ('read', 'write3D')), 'csp': ('LutFormatCSP', ('read', 'write1D', 'write3D', 'write1D3D1D')),
       'clf': ('LutFormatCLF', ('write1D3D1D',)), 'ctl': ('LutFormatCTL', ('write1D', 'write3D'))}
EXPL = 'every format class found in the package, every extension and capability (declared or not) in several cases of the extension, and three recording formats that cover every subset kind of capabilities, shared extensions and failing formats.'
ASSUME = ['formats are dispatched through Registry.read and Registry.write']
CAPS = ('read', 'write1D', 'write3D', 'write1D3D1D')
STYLE = {'write1D': '1D', 'write3D': '3D', 'write1D3D1D': '1D_3D_1D'}


def cases(e):
    return sorted({e, e.upper(), e.lower(), e[:1].upper() + e[1:].lower(), e[:-1].lower() + e[-1:].upper()})


def run(tier):
    ck = Check('C22', tier, 'for every registered format, extension, capability and case variant: the file or nodes that the registry produces equal those of the declaring class, and without a declaration nothing is called and nothing is opened for writing')
    lab = Lab()
    lut = lab.load(loader.ACES + '/lutFormats/__init__.py', 'lutFormats')
    stub = lab.load(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'stubs', 'fmts.py'), 'recordingformats')
    I = lab.I
    deep = tier != 'quick'
    jobs = []

    def fmt(name):
        return I.getattr(lut, name)

    def call(c, m, *a, **k):
        return I.call(I.getattr(c, m), [wrap(x) for x in a], {n: wrap(v) for n, v in k.items()})

    # ---- which classes exist, which are registered, what they declare
    def table():
        base = fmt('LutFormatSPI')
        out = {}
        found = {}
        for path, m in sorted(lab.basemods.items()):
            for k, v in sorted(I.obj(m).d.items(), key=str):
                if isinstance(v, Ref) and I.obj(v).kind == 'class' and I.obj(v).meta.name.startswith('LutFormat') and isinstance(I.obj(v).d.get('formats'), Ref):
                    found[v.oid] = v
        reg = I.getattr(fmt('Registry'), 'lutFormats')
        regs = {v.oid for v in I.obj(reg).d.values()}
        for oid, v in sorted(found.items()):
            name = I.obj(v).meta.name
            rows = []
            fs = I.getattr(v, 'formats')
            for f in I.obj(fs).items:
                ext = I.getitem(f, Const(1))
                caps = I.getitem(f, Const(2))
                rows.append((ext.v, [c.v for c in I.obj(caps).items]))
            out[name] = (v, rows, oid in regs)
        return out
    box = []
    rt = lab.run(lambda: box.append(table()) or NONE)
    if not box or rt.raises:
        ck.unknown('format tables', 'the tables are not analysed: %s' % lab.raise_text(rt.raises)[:200])
        return ck.finish(EXPL, ASSUME)
    tab = box[0]
    declared = {}
    for name, (c, rows, reg) in sorted(tab.items()):
        if name.startswith('LutFormatRec'):
            continue
        if rows:
            ck.true('%s is registered' % name, name, reg, msg='the class declares formats but is not registered')
        for ext, caps in rows:
            for cap in caps:
                ck.true('%s .%s declares %s' % (name, ext, cap), name, cap in CAPS, msg='%r is no capability' % (cap,))
                if cap in CAPS:
                    declared.setdefault((ext.lower(), cap), []).append(name)
    for ext, (name, caps) in sorted(DOC.items()):
        for cap in caps:
            ck.true('.%s can %s' % (ext, cap), name, name in declared.get((ext, cap), []), msg='%s implements it for .%s but no longer declares it' % (name, ext))
    exts = sorted({e for e, c in declared} | {r[0].lower() for n, (c, rows, g) in tab.items() if not n.startswith('LutFormatRec') for r in rows})

    # ---- the declared operations
    def plist():
        pl = lab.new('ProcessList')
        m = lab.new('Matrix', '16f', '16f', 'm', 'm')
        lab.call(m, 'setMatrix', lab.list([3, 3]), lab.list([sym('k_%d' % i, 'float') for i in range(9)]))
        lab.call(pl, 'addProcess', m)
        return pl

    def opts(cap):
        return dict(lutResolution1d=3, lutResolution3d=2, lutResolution1d3d1d=lab.list([3, 2, 2]), inputMin=0.0, inputMax=1.0,
                    shaperIn=lab.list(['linear', 0.0, 1.0]), shaperOut=lab.list([NONE, 0.0, 1.0]))

    def opened(r):
        v = r.st.get(I.world.oid).d.get('opened')
        return [r.st.get(f.oid) for f in (v.items if v is not None else ())]

    def writes(r):
        return sorted({h.d['name'].v for h in opened(r) if isinstance(h.d['mode'], Const) and isinstance(h.d['name'], Const) and set(h.d['mode'].v) & set('wa+')})

    def write_job(ext, cap, name, shown):
        nm = '%s .%s as .%s' % (cap, ext, shown)
        path = '/scratch/x.' + shown

        def go():
            def th(direct):
                pl = plist()
                if direct:
                    call(fmt(name), 'write', pl, path, cap, **opts(cap))
                else:
                    call(fmt('Registry'), 'write', pl, path, STYLE[cap], **opts(cap))
                return NONE
            rs = [lab.run(lambda d=d: th(d)) for d in (True, False)]
            ck.analysed(lab)
            for r, w in zip(rs, ('directly', 'through the registry')):
                if not ck.no_raise('%s | %s' % (nm, w), r) or r.st is None:
                    return
                if r.unmod:
                    return ck.unknown(nm, 'unmodelled: %s' % (r.unmod[:2],))
            ck.true(nm + ' | implemented', name, writes(rs[0]) == [path], msg='%s.write(%s) writes no file' % (name, cap))
            ck.true(nm + ' | reached', 'Registry.write', writes(rs[1]) == [path], msg='nothing is written')
            if writes(rs[0]) != [path] or writes(rs[1]) != [path]:
                return
            tx = [r.do(lambda: files.content(lab, path)) for r in rs]
            a, b = [T.Op('text', tuple(files.text_of(lab, t).parts), 'str') if False else files.text_of(lab, t) for t in tx]
            ck.true(nm + ' | same text', 'Registry.write', a.s == b.s and len(a.parts) == len(b.parts), msg='the text differs from what the format itself writes')
            if a.s == b.s and len(a.parts) == len(b.parts):
                for k, (p, q) in enumerate(zip(a.parts, b.parts)):
                    if p is q:
                        continue
                    if getattr(p, 'op', '') == 'xmltext' and getattr(q, 'op', '') == 'xmltext':
                        d = heap.Diff(lab, rs[0].facts)
                        d.run(rs[0].st, p.args[0], rs[1].st, q.args[0], 'xml')
                        heap_report(nm + ' | same XML', 'Registry.write', d)
                        continue
                    x, y = rs[0].do(lambda: files.num(lab, p)), rs[1].do(lambda: files.num(lab, q))
                    ck.equal('%s | number %d' % (nm, k), 'Registry.write', y, x, rs[1].facts)
                ck.ok(nm + ' | same numbers')
        return functools.partial(ck.scenario, nm, go)

    def heap_report(nm, con, d):
        bad = [o for o in d.out if o[1] == 'diff']
        if bad:
            ck.fail(nm, con, '%s: %s' % (bad[0][0], bad[0][2]))
        elif d.out:
            ck.unknown(nm, '%s: %s' % (d.out[0][0], d.out[0][2]))
        else:
            ck.ok(nm)

    LO, HI = sym('lo', 'float'), sym('hi', 'float')
    F = [compare('lt', LO, Const(0.0)), compare('gt', HI, Const(1.0))]

    def sample(ext, path):
        def f(p):
            return sym(p, 'float')
        if ext == 'spi1d':
            files.write_file(lab, path, ['Version 1\nFrom ', LO, ' ', HI, '\nLength 3\nComponents 3\n{\n'] + sum([[f('d_%d_0' % i), ' ', f('d_%d_1' % i), ' ', f('d_%d_2' % i), '\n'] for i in range(3)], []) + ['}\n'])
        elif ext == 'spi3d':
            files.write_file(lab, path, ['SPILUT 1.0\n3 3\n2 2 2\n'] + sum([['%d %d %d ' % p] + [f('d_%d%d%d_0' % p), ' ', f('d_%d%d%d_1' % p), ' ', f('d_%d%d%d_2' % p), '\n'] for p in itertools.product((0, 1), repeat=3)], []))
        elif ext == 'csp':
            files.write_file(lab, path, ['CSPLUTV100\n1D\n\nBEGIN METADATA\nEND METADATA\n\n'] + ['2\n', LO, ' ', HI, '\n0.0 1.0\n'] * 3 + ['\n3\n'] + sum([[f('d_%d_0' % i), ' ', f('d_%d_1' % i), ' ', f('d_%d_2' % i), '\n'] for i in range(3)], []))
        else:
            return False
        return True

    def read_job(ext, name, shown, nodes):
        nm = 'read .%s as .%s%s' % (ext, shown, ' as nodes' if nodes else '')
        path = '/scratch/x.' + shown

        def go():
            def th(direct):
                if not sample(ext, path):
                    return T.ABSENT
                if direct:
                    return call(fmt(name), 'read', path)
                if nodes:
                    return call(fmt('Registry'), 'read', path, returnProcessNodes=True)
                q = call(fmt('Registry'), 'read', path)
                return lab.call(q, 'getProcesses')
            rs = [lab.run(lambda d=d: th(d), F) for d in (True, False)]
            ck.analysed(lab)
            if rs[0].v is T.ABSENT:
                return ck.unknown(nm, 'no sample file of a newly declared format .%s' % ext)
            for r, w in zip(rs, ('directly', 'through the registry')):
                if not ck.no_raise('%s | %s' % (nm, w), r) or r.v is None:
                    return
                if r.unmod:
                    return ck.unknown(nm, 'unmodelled: %s' % (r.unmod[:2],))
            n = [r.length(r.v) if isinstance(r.v, Ref) else None for r in rs]
            ck.true(nm + ' | implemented', name, isinstance(n[0], Const) and n[0].v > 0, msg='%s.read gives no nodes' % name)
            ck.true(nm + ' | reached', 'Registry.read', isinstance(n[1], Const) and n[1].v > 0, msg='no nodes are read')
            d = heap.Diff(lab, rs[1].facts)
            d.run(rs[0].st, rs[0].v, rs[1].st, rs[1].v, 'nodes')
            heap_report(nm + ' | same nodes', 'Registry.read', d)
        return functools.partial(ck.scenario, nm, go)

    def nothing_job(ext, cap, shown):
        nm = '%s .%s is not declared' % (cap, shown)
        path = '/scratch/x.' + shown if shown else '/scratch/x'

        def go():
            def th():
                if cap == 'read':
                    return call(fmt('Registry'), 'read', path)
                call(fmt('Registry'), 'write', plist(), path, STYLE[cap], **opts(cap))
                return NONE
            r = lab.run(th)
            ck.analysed(lab)
            if not ck.no_raise(nm + ' | no exception', r) or r.st is None:
                return
            ck.true(nm + ' | nothing written', 'Registry.' + cap[:5].rstrip('1'), writes(r) == [], msg='writes %s' % writes(r))
            ck.true(nm + ' | nothing opened', 'Registry.' + cap[:5], opened(r) == [], msg='opens %s' % [short(h.d['name'], 40) for h in opened(r)])
            if cap == 'read':
                ck.true(nm + ' | nothing read', 'Registry.read', r.v is NONE or isinstance(r.v, Const) and not r.v.v, msg='returns %s' % short(r.v, 40))
        return functools.partial(ck.scenario, nm, go)

    for ext in exts:
        for cap in CAPS:
            names = declared.get((ext, cap), [])
            for name in names:
                for shown in cases(ext):
                    if cap == 'read':
                        jobs.append(read_job(ext, name, shown, False))
                        jobs.append(read_job(ext, name, shown, True))
                    else:
                        jobs.append(write_job(ext, cap, name, shown))
            if not names:
                for shown in cases(ext):
                    jobs.append(nothing_job(ext, cap, shown))
    for shown in ('', 'xyz', 'spi', 'spi1', 'spi1dd', 'xspi1d', 'cs', 'cspp', 'lut', 'cube', 'spi1d.bak', 'csp.txt', '1d'):
        for cap in CAPS:
            if (shown, cap) not in declared:
                jobs.append(nothing_job(shown, cap, shown))

    # ---- what no format of a class can do, the class itself declines
    def decline_job(name, cap, ext):
        nm = '%s itself declines %s' % (name, cap)
        path = '/scratch/x.' + ext

        def go():
            def th():
                if cap == 'read':
                    files.write_file(lab, path, ['1 2 3\n'])
                    return call(fmt(name), 'read', path)
                return call(fmt(name), 'write', plist(), path, cap, **opts(cap))
            r = lab.run(th)
            ck.analysed(lab)
            if not ck.no_raise(nm + ' | no exception', r, construct=name) or r.st is None:
                return
            if r.unmod:
                return ck.unknown(nm, 'unmodelled: %s' % (r.unmod[:2],))
            ck.true(nm + ' | result', name, r.v is NONE or isinstance(r.v, Const) and not r.v.v, msg='returns %s' % short(r.v, 40))
            if cap != 'read':
                ck.true(nm + ' | nothing written', name, writes(r) == [], msg='writes %s' % writes(r))
        return functools.partial(ck.scenario, nm, go)
    for name, (c, rows, reg) in sorted(tab.items()):
        if not name.startswith('LutFormatRec') and rows:
            for cap in CAPS:
                if not any(cap in caps for e, caps in rows):
                    jobs.append(decline_job(name, cap, rows[0][0]))

    # ---- the dispatch itself, with formats that record how they are used
    REC = {n: (c, rows) for n, (c, rows, g) in tab.items() if n.startswith('LutFormatRec')}
    recdecl = {}
    for n, (c, rows) in REC.items():
        for ext, caps in rows:
            for cap in CAPS:
                recdecl.setdefault((ext.lower(), cap), {})
                if cap in caps:
                    recdecl[(ext.lower(), cap)][n[-1]] = True

    def rec_job(ext, cap, shown, dirs=''):
        nm = 'recorded %s .%s%s' % (cap, shown, dirs)
        path = '/scratch%s/x.%s' % (dirs, shown)
        who = recdecl[(ext, cap)]

        def go():
            P = [sym(n, 'float') for n in ('p0', 'p1')]

            def th():
                pl = plist()
                if cap == 'read':
                    ret = call(fmt('Registry'), 'read', path, TRUE, 'cubic', FALSE, sym('useHalf', 'bool'))
                    return lab.list([ret, pl, NONE, NONE, NONE])
                o = opts(cap)
                o.update(inputMin=P[0], inputMax=P[1])
                ret = call(fmt('Registry'), 'write', pl, path, STYLE[cap], **o)
                return lab.list([ret, pl, o['lutResolution1d3d1d'], o['shaperIn'], o['shaperOut']])
            r = lab.run(th, [compare('lt', P[0], P[1])])
            ck.analysed(lab)
            if not ck.no_raise(nm + ' | no exception', r) or r.v is None:
                return
            if r.unmod:
                return ck.unknown(nm, 'unmodelled: %s' % (r.unmod[:2],))
            calls = r.attr(stub, 'CALLS')
            n = r.length(calls)
            if not isinstance(n, Const):
                return ck.unknown(nm, 'number of calls not analysed')
            cs = [[r.item(calls, k, j) for j in range(r.length(r.item(calls, k)).v)] for k in range(n.v)]
            con = 'Registry.' + ('read' if cap == 'read' else 'write')
            got = [c[0].v for c in cs]
            for g in got:
                ck.true('%s | %s is asked' % (nm, g), con, g in who, msg='format %s is asked for %s, which it does not declare for .%s' % (g, cap, ext))
            ck.true(nm + ' | asked once', con, len(set(got)) == len(got), msg='asked %s' % got)
            good = [g for g in who if g != 'C']
            if good:
                ck.true(nm + ' | reached', con, good[0] in got, msg='format %s declares it and is not asked' % good[0])
            elif 'C' in who:
                ck.true(nm + ' | reached', con, got == ['C'], msg='the declaring format is not asked')
            ret = r.item(r.v, 0)
            if cap == 'read' and not good:
                ck.true(nm + ' | nothing read', con, ret is NONE, msg='returns %s' % short(ret, 40))
            if cap == 'read' and good:
                ps = r.do(lambda: lab.call(ret, 'getProcesses'))
                kinds = [r.st.get(r.obj(r.item(ps, k)).cls.oid).meta.name for k in range(r.length(ps).v)]
                ck.true(nm + ' | nodes in order', con, kinds == ['Range', 'Matrix'], msg='nodes %s' % kinds)
            for c in cs:
                ck.true('%s | %s path' % (nm, c[0].v), con, c[2 if c[0].v == 'A' or cap == 'read' else 3] is Const(path), msg='another path is used')
                if cap == 'read':
                    ck.true('%s | %s parameters' % (nm, c[0].v), con, c[3] is TRUE and c[4] is Const('cubic') and c[5] is FALSE and c[6] is sym('useHalf', 'bool'), msg='the read options are %s' % [short(x, 20) for x in c[3:]])
                elif c[0].v != 'A':
                    ck.true('%s | %s style' % (nm, c[0].v), con, c[1] is Const(cap), msg='asked for %s' % short(c[1], 20))
                    ck.true('%s | %s process list' % (nm, c[0].v), con, c[2] is r.item(r.v, 1), msg='another process list')
                    ck.true('%s | %s sizes' % (nm, c[0].v), con, c[4] is Const(3) and c[5] is Const(2) and same(r, c[6], r.item(r.v, 2)), msg='other resolutions')
                    ck.true('%s | %s range' % (nm, c[0].v), con, c[7] is P[0] and c[8] is P[1], msg='another input range')
                    ck.true('%s | %s shapers' % (nm, c[0].v), con, same(r, c[9], r.item(r.v, 3)) and same(r, c[10], r.item(r.v, 4)), msg='other shapers')
                else:
                    ck.true('%s | %s style' % (nm, c[0].v), con, c[1] is Const(cap), msg='asked for %s' % short(c[1], 20))
        return functools.partial(ck.scenario, nm, go)

    def same(r, a, b):
        d = heap.Diff(lab, r.facts)
        d.run(r.st, b, r.st, a)
        return not d.out
    for (ext, cap) in sorted(recdecl):
        for shown in cases(ext):
            jobs.append(rec_job(ext, cap, shown))
        jobs.append(rec_job(ext, cap, ext, '/a.csp/b'))
    ck.parallel(jobs)
    return ck.finish(EXPL, ASSUME, floor=500)


if __name__ == '__main__':
    main(run)
