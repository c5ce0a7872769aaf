import functools, itertools, os
from common import *
import files, zoo
from clfstatic import terms as T, typestate
from c18 import save, reader
from c25 import fn, put
import c25, c27


def run(tier):
    ck = Check('C29', tier, 'open/close typestate of every file handle over the exceptional control flow of each function that opens one; and every file and image of each reader and writer is closed in the final state and in every state an exception leaves, with each file operation allowed to fail and with malformed, truncated and unwritable contents')
    deep = tier != 'quick'
    jobs = []

    # ---- typestate over the syntax trees
    trees = {p: loader.parse_file(p)[1] for p in loader.lib_files()}
    A = typestate.Analysis(trees)
    left = []
    for p, q, f in A.fns:
        for k, (call, var, flag) in enumerate(A.sites(f)):
            nm = 'typestate %s %s: open %d' % (loader.rel(p), q, k)
            msg = A.judge(f, call, var, flag)
            if msg is None:
                ck.ok(nm)
            else:
                left.append(f.name)
                ck.ok(nm + ' is decided by path')

    # ---- the readers and writers
    B = c27.Bench()
    lab = B.lab
    I = lab.I
    lut = B.lut

    def fmt(name):
        return I.getattr(lut, name)

    def call(c, m, *a, **k):
        return I.call(I.getattr(c, m), [wrap(x) for x in a], {n: wrap(v) for n, v in k.items()})

    def job(nm, build, op, con, expect_open=True, must=()):
        """the operation, with file operations that may fail: no file stays open"""
        def go():
            ra = lab.run(build)
            if ra.st is None:
                return ck.unknown(nm, 'the operation is not prepared: %s' % lab.raise_text(ra.raises)[:200])
            n0 = len(I.files)
            I.faults = True
            try:
                r = lab.run(lambda: op(ra.v), start=ra)
            finally:
                I.faults = False
            ck.analysed(lab)
            ends = [(st, 'after ' + lab.raise_text([(st, exc, w)]), w) for st, exc, w in r.raises] + ([(r.st, 'at the end', None)] if r.st is not None else [])
            seen = 0
            for f in I.files[n0:]:
                for st, how, w in ends:
                    try:
                        h = st.peek(f.oid)
                    except AttributeError:
                        h = None
                    if h is None:
                        continue
                    seen += 1
                    c = h.d['closed']
                    path = h.d['name']
                    t = '%s | %s closed %s' % (nm, short(path, 40), how)
                    if c is TRUE:
                        ck.ok(t)
                    elif Q.feasible(st.facts, None) is None:
                        ck.ok(t + ' (unreachable)') if st.facts.infeasible() else ck.unknown(t, 'possibly open')
                    elif c is FALSE:
                        ck.fail(t, con, 'the file stays open (%s)' % how)
                    else:
                        ck.equal(t, con, c, TRUE, st.facts)
            if expect_open and not seen:
                if r.unmod:
                    ck.unknown(nm, 'unmodelled: %s' % (r.unmod[:2],))
                elif not r.raises:
                    ck.unknown(nm, 'no file is opened')
        jobs.append(functools.partial(ck.scenario, nm, go))

    LO, HI = sym('lo', 'float'), sym('hi', 'float')

    # writing a process list
    def plist(bad=None):
        pl = lab.new('ProcessList')
        m = lab.new('Matrix', '16f', '16f', 'm', 'm')
        lab.call(m, 'setMatrix', lab.list([3, 3]), lab.list([sym('k_%d' % i, 'float') for i in range(9)]))
        lab.call(pl, 'addProcess', m)
        if bad == 'attribute':
            lab.call(pl, 'setAttribute', 'extra', 5)
        if bad == 'node attribute':
            lab.call(m, 'setAttribute', 'extra', NONE)
        if bad == 'description':
            lab.call(m, 'addElement', lab.new('Description', 7))
        return pl
    for how, gz, sc in itertools.product((None, 'attribute', 'node attribute', 'description'), (False, True), (False, True)):
        jobs_nm = 'writeFile%s%s%s' % (' gzip' if gz else '', ' self-contained' if sc else '', ' with an unwritable %s' % how if how else '')
        job(jobs_nm, lambda how=how: plist(how), lambda pl, gz=gz, sc=sc: lab.call(pl, 'writeFile', '/scratch/o.clf', sc, gz), 'ProcessList.writeFile', expect_open=how is None)
    for e in zoo.entries(lab, False):
        def build(e=e):
            pl = lab.new('ProcessList')
            lab.call(pl, 'addProcess', e.mk())
            return pl
        job('writeFile of ' + e.name, build, lambda pl: lab.call(pl, 'writeFile', '/scratch/o.clf'), 'ProcessList.writeFile')
        job('writeFile gzip of ' + e.name, build, lambda pl: lab.call(pl, 'writeFile', '/scratch/o.clf', writeGzip=True), 'ProcessList.writeFile')

    # reading one
    def xml(kind):
        def build():
            p = '/scratch/r.clf'
            if kind == 'missing':
                I.vfs[Const(p)] = T.ABSENT
            elif kind == 'malformed':
                I.vfs[Const(p)] = Const('malformed')
            else:
                root = lab.call(lab.call(plist(), 'write'), 'getroot')
                if kind == 'unknown element':
                    lab.callx('etree.SubElement', root, 'Strange')
                if kind == 'bad node':
                    e = lab.callx('etree.SubElement', root, 'Matrix')
                    a = lab.callx('etree.SubElement', e, 'Array')
                    I.setattr(a, 'text', Const('1 2 x'))
                save(lab, root, p, 'gzip' in kind)
            return NONE
        return build
    for kind in ('plain', 'gzip', 'missing', 'malformed', 'unknown element', 'unknown element gzip', 'bad node'):
        for how in ('readFile', 'constructor'):
            for strict in (False, True):
                job('%s of a %s file%s' % (how, kind, ', strict' if strict else ''), xml(kind), lambda _, how=how, strict=strict: reader(lab, NONE, how, strict), 'ProcessList.readFile', expect_open=kind != 'missing')

    # the LUT formats: every cut and every spoilt line of a file
    def text(ext, z=2):
        if ext == 'spi1d':
            return ['Version 1', 'From 0.0 2.0', 'Length %d' % z, 'Components 3', '{'] + ['0.%d 0.5 0.%d' % (i + 1, i + 2) for i in range(z)] + ['}']
        if ext == 'spi3d':
            return ['SPILUT 1.0', '3 3', '2 2 2'] + ['%d %d %d 0.1 0.2 0.3' % p for p in itertools.product((0, 1), repeat=3)]
        if ext == 'csp':
            return ['CSPLUTV100', '1D', '', 'BEGIN METADATA', 'END METADATA', ''] + ['2', '0.0 1.0', '0.0 1.0'] * 3 + ['', '%d' % z] + ['0.%d 0.5 0.%d' % (i + 1, i + 2) for i in range(z)]
        return ['CSPLUTV100', '3D', '', 'BEGIN METADATA', 'words', 'END METADATA', ''] + ['2', '0.0 1.0', '0.0 1.0'] * 3 + ['', '2 2 2'] + ['0.1 0.2 0.3'] * 8

    def lutread(nm, path, lines, inverse, via, opens=True):
        def build():
            if lines is None:
                I.vfs[Const(path)] = T.ABSENT
            else:
                I.vfs[Const(path)] = Const('\n'.join(lines) + ('\n' if lines else ''))
            return NONE

        def op(_):
            if via == 'registry':
                return call(fmt('Registry'), 'read', path, inverse)
            return call(fmt(via), 'read', path, inverse)
        job(nm, build, op, 'read', expect_open=opens and lines is not None)
    for ext, suffix, cls in (('spi1d', 'spi1d', 'LutFormatSPI'), ('spi3d', 'spi3d', 'LutFormatSPI'), ('csp', 'csp', 'LutFormatCSP'), ('csp3d', 'csp', 'LutFormatCSP')):
        L = text(ext)
        p = '/scratch/a.' + suffix
        for via in (cls, 'registry'):
            for inv in (False, True):
                lutread('read %s%s by %s' % (ext, ' inverse' if inv else '', via), p, L, inv, via)
            lutread('read missing %s by %s' % (ext, via), p, None, False, via)
            for k in range(len(L)):
                if via == cls or deep or k % 3 == 0:
                    lutread('read %s cut after %d lines by %s' % (ext, k, via), p, L[:k], False, via)
                    lutread('read %s with line %d spoilt by %s' % (ext, k, via), p, L[:k] + ['x y z'] + L[k + 1:], False, via)
                    lutread('read %s without line %d by %s' % (ext, k, via), p, L[:k] + L[k + 1:], False, via)
    for n in ('a.spimtx', 'a.ctl', 'a.xyz'):
        lutread('read %s by the registry' % n, '/scratch/' + n, ['1 2 3'], False, 'registry', False)

    # writing: complete data, too little data, data that is not numbers
    def flat(n):
        return lambda: lab.list([sym('d%d' % i, 'float') for i in range(n)])

    def grid(n, short_at=None):
        def mk():
            def level(d, idx):
                if d == 3:
                    return lab.list([sym('c%s%d' % (''.join(map(str, idx)), i), 'float') for i in range(3)])
                k = n - 1 if short_at == d else n
                return lab.list([level(d + 1, idx + (i,)) for i in range(k)])
            return level(0, ())
        return mk

    def lutwrite(nm, cls, meth, *args):
        def build():
            return lab.list([a() if callable(a) else lab.list(a) if isinstance(a, list) else a for a in args])

        def op(v):
            return I.call(I.getattr(fmt(cls), meth), [I.getitem(v, Const(i)) for i in range(len(args))], {})
        job(nm, build, op, '%s.%s' % (cls, meth))
    for cls, meth, path in (('LutFormatSPI', 'writeSPI1D', '/scratch/o.spi1d'), ('LutFormatCSP', 'writeCSP1D', '/scratch/o.csp'), ('LutFormatCTL', 'writeCTL1D', '/scratch/o.ctl')):
        for what, data in (('complete', flat(9)), ('short', flat(5)), ('empty', flat(0)), ('no', NONE), ('text', lambda: lab.list(['x'] * 9))):
            for comp in (1, 3):
                lutwrite('%s with %s data, %d components' % (meth, what, comp), cls, meth, path, LO, HI, data, 3, 3, comp)
                lutwrite('%s with %s data, %d components, no range' % (meth, what, comp), cls, meth, path, NONE, 'x', data, 3, 3, comp)
    for cls, meth, path in (('LutFormatSPI', 'writeSPI3D', '/scratch/o.spi3d'), ('LutFormatCSP', 'writeCSP3D', '/scratch/o.csp'), ('LutFormatCTL', 'writeCTL3D', '/scratch/o.ctl')):
        for what, data in (('complete', grid(2)), ('short red', grid(2, 0)), ('short green', grid(2, 1)), ('short blue', grid(2, 2)), ('no', NONE), ('flat', flat(24))):
            for size in ([2, 2, 2], [2, 2]):
                lutwrite('%s with %s data, %d sizes' % (meth, what, len(size)), cls, meth, path, LO, HI, data, size)
            lutwrite('%s with %s data, no range' % (meth, what), cls, meth, path, NONE, NONE, data, [2, 2, 2])

    # whole conversions through the registry
    OPT = dict(lutResolution1d=3, lutResolution3d=2, inputMin=0.0, inputMax=1.0)
    for ext, styles in (('spi1d', ('1D',)), ('spi3d', ('3D',)), ('csp', ('1D', '3D', '1D_3D_1D')), ('ctl', ('1D', '3D')), ('clf', ('1D_3D_1D',)), ('xyz', ('1D', '3D'))):
        for st in styles:
            def op(v, ext=ext, st=st):
                return call(fmt('Registry'), 'write', v, '/scratch/o.' + ext, st, lutResolution1d3d1d=lab.list([3, 2, 2]), shaperIn=lab.list(['linear', 0.0, 1.0]), shaperOut=lab.list([NONE, 0.0, 1.0]), **OPT)
            job('Registry.write %s as .%s' % (st, ext), plist, op, 'Registry.write', expect_open=ext != 'xyz')

    # ---- images
    W = c25.bench()

    def images(nm, build, op, con, known):
        def go():
            r = W.run(lambda: (build(), op())[1])
            ck.analysed(W)
            ends = [(st, 'after ' + W.raise_text([(st, exc, w)])) for st, exc, w in r.raises] + ([(r.st, 'at the end')] if r.st is not None else [])
            if r.unmod:
                return ck.unknown(nm, 'unmodelled: %s' % (r.unmod[:2],))
            n = 0
            for st, how in ends:
                cs = st.get(st.get(W.oiio.oid).d['CALLS'].oid).items
                tags = [tuple(getattr(x, 'v', None) for x in c.items) for c in cs]
                if Q.feasible(st.facts, None) is None:
                    if not st.facts.infeasible():
                        ck.unknown('%s | %s' % (nm, how), 'possibly open')
                    continue
                for kind in ('input', 'output'):
                    o = [t[1] for t in tags if t[0] == kind and t[1] in known]
                    c = [t[1] for t in tags if t[0] == 'closed ' + kind]
                    n += len(o)
                    for p in sorted(set(o)):
                        ck.true('%s | %s %s closed %s' % (nm, kind, p, how), con, c.count(p) >= o.count(p), msg='the %s image stays open (%s)' % (kind, how))
        jobs.append(functools.partial(ck.scenario, nm, go))


    def image(bt, ch=3, attrs=(), px=None, fails=()):
        def build():
            put(W, '/scratch/in.img', bt, 1, 1, ch, list(attrs), [(t, px if px is not None else [Const(0)] * ch) for t in (2, 4, 8, 9)])
            for p, how in fails:
                fn(W, W.oiio, 'fail', p, how)
        return build
    types = {'UINT8': 2, 'INT8': 3, 'UINT16': 4, 'INT16': 5, 'UINT32': 6, 'INT32': 7, 'HALF': 8, 'FLOAT': 9, 'DOUBLE': 12, 'UNKNOWN': 0}

    def rd(*a):
        return lambda: fn(W, W.tool, 'readPixelArray', '/scratch/in.img', *a)
    for n, bt in types.items():
        for a in ((), ('8i',), ('32f',), (NONE,)):
            images('read %s image%s' % (n, ' as %s' % (a,) if a else ''), image(bt), rd(*a), 'readPixelArray', ['/scratch/in.img'])
    for bits in (0, 8, 10, 12, 14, 16, 32, 'x'):
        images('read UINT16 image of %s bits' % bits, image(4, attrs=[('oiio:BitsPerSample', 'int', bits)]), rd(), 'readPixelArray', ['/scratch/in.img'])
    for ov in ('9i', '16i', 'auto'):
        images('read UINT16 image, failing, as ' + ov, image(4, fails=[('/scratch/in.img', 'read')]), rd(ov), 'readPixelArray', ['/scratch/in.img'])

    for d, how in itertools.product(('8i', '10i', '12i', '16i', '16f', '32f'), (None, 'create', 'open', 'write', 'raise')):
        images('write %s image%s' % (d, ', %s fails' % how if how else ''), image(2, fails=[('/scratch/out.img', how)] if how else ()), lambda d=d: write_image(d), 'writePixelArray', [] if how in ('create', 'open') else ['/scratch/out.img'])

    def write_image(d):
        return fn(W, W.tool, 'writePixelArray', '/scratch/out.img', W.list([Const(1)] * 3), d, 1, 1, 3, W.list([]), W.list(['R', 'G', 'B']))

    def whole():
        pl = W.new('ProcessList')
        m = W.new('Matrix', '8i', '8i', 'm', 'm')
        W.call(m, 'setMatrix', W.list([3, 3]), W.list([1.0, 0.0, 0.0, 0.0, 1.0, 0.0, 0.0, 0.0, 1.0]))
        W.call(pl, 'addProcess', m)
        return fn(W, W.tool, 'filterImageWithCLF', '/scratch/in.img', '/scratch/out.img', pl, False)
    for how in (None, 'read'):
        for how2 in (None, 'write', 'raise', 'open', 'create'):
            images('filter%s%s' % (', %s fails' % how if how else '', ', %s fails' % how2 if how2 else ''), image(2, fails=[x for x in (('/scratch/in.img', how), ('/scratch/out.img', how2)) if x[1]]), whole, 'filterImageWithCLF',
                   ['/scratch/in.img'] + ([] if how2 in ('open', 'create') else ['/scratch/out.img']))
    ck.parallel(jobs)
    return ck.finish('every function of the library and the tools that opens a file (typestate); writeFile and readFile in all modes with every node kind; the SPI, CSP and CTL readers on complete, cut, spoilt and missing files; their writers with complete, short and unwritable data; registry conversions; image reading and writing with every sample type and failing image operations.',
                     ['a file operation may fail with IOError, one failure at a time', 'closing itself does not fail', 'files the standard library opens by itself (etree.parse of a path) are not judged', 'OpenImageIO is a stand-in'], floor=500)


if __name__ == '__main__':
    main(run)
