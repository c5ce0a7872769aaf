import functools, itertools, os
from common import *
import files
from clfstatic import terms as T
import c25
from c25 import fn, STUBS


class Bench(object):
    def __init__(self):
        lab = self.lab = Lab()
        lab.I.stubs = {'OpenImageIO': STUBS + 'oiio.py', 'multiprocessing': STUBS + 'mp.py', 'PyOpenColorIO': STUBS + 'ocio.py'}
        self.lut = lab.load(loader.ACES + '/lutFormats/__init__.py', 'lutFormats')
        self.fmts = lab.load(STUBS + 'fmts.py', 'recordingformats')
        lab.oiio = lab.load(STUBS + 'oiio.py', 'OpenImageIO')
        lab.mp = lab.load(STUBS + 'mp.py', 'multiprocessing')
        lab.ocio = self.ocio = lab.load(STUBS + 'ocio.py', 'PyOpenColorIO')
        self.tools = {n: lab.load(loader.ACES + '/%s.py' % n, n) for n in ('convertCLFtoLUT', 'convertLUTtoCLF', 'convertOCIOtoCLF', 'filterImageWithCLF')}
        self.tools['clfinfo'] = lab.load(loader.PYROOT + '/bin/clfinfo', 'clfinfo')

    def clf_file(self, path, key):
        """a CLF file whose transform is identified by its coefficients"""
        lab = self.lab
        pl = lab.new('ProcessList')
        lab.call(pl, 'setID', key)
        m = lab.new('Matrix', '32f', '32f', 'id' + key, 'name' + key)
        lab.call(m, 'setMatrix', lab.list([3, 3, 3]), lab.list([sym('%s%d' % (key, i), 'float') for i in range(9)]))
        lab.call(pl, 'addProcess', m)
        lab.call(pl, 'writeFile', path)

    def main(self, tool, argv):
        I = self.lab.I
        I.cli_args = I.newlist([Const(tool)] + [Const(a) if isinstance(a, str) else self.lab.callx('builtins.repr', a) for a in argv])
        try:
            fn(self.lab, self.tools[tool], 'main')
        finally:
            I.cli_args = None
        return NONE

    def opened(self, r):
        """(name, mode) of the files opened"""
        v = r.st.get(self.lab.I.world.oid).d.get('opened')
        out = []
        for x in (v.items if v is not None else ()):
            d = r.st.get(x.oid).d
            out.append((getattr(d.get('name'), 'v', None), getattr(d.get('mode'), 'v', None)))
        return out


def run(tier):
    ck = Check('C27', tier, 'the arguments that reach the registry, the reader, the image writer and the output file when the main function of each tool is interpreted on argument vectors with symbolic values, one per combination of options')
    B = Bench()
    lab = B.lab
    I = lab.I
    deep = tier != 'quick'
    jobs = []

    def calls(r, mod, name='CALLS'):
        c = r.st.get(mod.oid).d[name]
        n = r.length(c)
        return [r.item(c, i).items for i in range(n.v)]

    def ready(nm, r, con):
        ck.analysed(lab)
        if not ck.no_raise(nm + ' | no exception', r, {}, construct=con):
            return False
        if r.unmod:
            ck.unknown(nm, 'unmodelled: %s' % (r.unmod[:2],))
            return False
        return True

    def vectors(required, options, extra=()):
        """argument vectors: {name: [tokens...]} in several orders and combinations"""
        names = sorted(options)
        combos = [()] + [(a,) for a in names] + list(itertools.combinations(names, 2)) + [tuple(names)] + [tuple(n for n in names if n != a) for a in names]
        if deep:
            combos += list(itertools.combinations(names, 3))
        combos += list(extra)
        for k, c in enumerate(dict.fromkeys(combos)):
            toks = [(n, options[n]) for n in c]
            req = [(n, required[n]) for n in required]
            order = [req + toks, toks + req, toks[::-1] + req[::-1], toks[:len(toks) // 2] + req + toks[len(toks) // 2:]][k % 4]
            yield c, order

    def flat(order, k):
        """long and short spellings in turn"""
        out = []
        for n, (spell, vals) in order:
            out.append(spell[k % len(spell)])
            out += list(vals)
        return out

    # ---- convertCLFtoLUT
    i1, i3, ia, ib, ic = [T.sym(n, 'int', lo=2) for n in ('res1d', 'res3d', 'resin', 'rescube', 'resout')]
    lo, hi, s0, s1, t0, t1 = [sym(n, 'float') for n in ('lo', 'hi', 's0', 's1', 't0', 't1')]
    REQ = {'clf': (['--clf', '-c'], ['/scratch/a.clf']), 'lut': (['--lut', '-l'], ['/scratch/out.fa'])}
    OPT = {'res1d': (['--lutResolution1d'], [i1]), 'res3d': (['--lutResolution3d'], [i3]), 'res131': (['--lutResolution1d3d1d'], [ia, ib, ic]), 'min': (['--inputMinValue'], [lo]), 'max': (['--inputMaxValue'], [hi]),
           'format': (['--format', '-f'], ['clf']), 'sin': (['--shaperIn'], ['log2', s0, s1]), 'sout': (['--shaperOut'], ['linear', t0, t1])}
    GEN = {'none': ([], 'write1D'), '1d': (['--generate1d'], 'write1D'), '3d': (['--generate3d'], 'write3D'), '1d3d1d': (['--generate1d3d1d'], 'write1D3D1D')}

    def tolut(nm, argv, have, style, path='/scratch/out.fa', key='a'):
        def go():
            con = 'convertCLFtoLUT'

            def build():
                B.clf_file('/scratch/a.clf', 'a')
                B.clf_file('/scratch/b.clf', 'b')
                return B.main('convertCLFtoLUT', argv)
            r = lab.run(build)
            if not ready(nm, r, con):
                return
            cs = [c for c in calls(r, B.fmts) if c[0].v == 'C']
            if len(cs) != 1:
                return ck.fail(nm + ' | conversion', con, 'the LUT is written %d times' % len(cs))
            _, st, pl, p, r1, r3, r131, mn, mx, si, so = cs[0]
            ck.equal(nm + ' | path', con, p, Const(path), r.facts)
            ck.equal(nm + ' | style', con, st, Const(style), r.facts)
            node = r.item(r.attr(pl, '_processes'), 0)
            ck.equal(nm + ' | transform', con, r.item(r.attr(r.attr(node, '_array'), '_values'), 0), sym(key + '0', 'float'), r.facts)
            want = [('1D resolution', r1, i1 if 'res1d' in have else Const(1024)), ('3D resolution', r3, i3 if 'res3d' in have else Const(33)),
                    ('minimum', mn, lo if 'min' in have else Const(0.0)), ('maximum', mx, hi if 'max' in have else Const(1.0))]
            for i, (e, d) in enumerate(((ia, 1024), (ib, 33), (ic, 2))):
                want.append(('1D/3D/1D resolution %d' % i, r.item(r131, i), e if 'res131' in have else Const(d)))
            for w, got, kk, e in (('input shaper', si, 'sin', ('log2', s0, s1)), ('output shaper', so, 'sout', ('linear', t0, t1))):
                for i in range(3):
                    want.append(('%s %s' % (w, ('type', 'minimum', 'maximum')[i]), r.item(got, i), wrap(e[i]) if kk in have else (NONE, Const(0.0), Const(1.0))[i]))
            for w, got, e in want:
                ck.equal('%s | %s' % (nm, w), con, got, e, r.facts)
        return functools.partial(ck.scenario, nm, go)
    for k, (c, order) in enumerate(vectors(REQ, OPT)):
        for g, (gt, style) in sorted(GEN.items()):
            if len(c) > 1 and (k + len(g)) % 4 and not deep:
                continue
            argv = flat(order, k)
            argv = gt + argv if k % 2 else argv + gt
            jobs.append(tolut('convertCLFtoLUT with %s, style %s' % (' '.join(c) or 'no option', g), argv, c, style))
    jobs.append(tolut('convertCLFtoLUT of another file', ['-c', '/scratch/b.clf', '-l', '/scratch/other.fa'], (), 'write1D', '/scratch/other.fa', 'b'))
    jobs.append(tolut('convertCLFtoLUT with abbreviated options', ['--clf', '/scratch/b.clf', '--lut', '/scratch/other.fa', '--lutResolution1d', i1], ('res1d',), 'write1D', '/scratch/other.fa', 'b'))

    # an option given twice: whichever occurrence is taken, its values stay together
    def repeated(nm, argv):
        def go():
            con = 'convertCLFtoLUT'

            def build():
                B.clf_file('/scratch/a.clf', 'a')
                return B.main('convertCLFtoLUT', ['-c', '/scratch/a.clf', '-l', '/scratch/out.fa', '--generate1d3d1d'] + argv)
            r = lab.run(build)
            if not ready(nm, r, con):
                return
            cs = [c for c in calls(r, B.fmts) if c[0].v == 'C']
            if len(cs) != 1:
                return ck.fail(nm + ' | conversion', con, 'the LUT is written %d times' % len(cs))
            _, st, pl, p, r1, r3, r131, mn, mx, si, so = cs[0]
            for w, got, one, two in (('input shaper', si, ('log2', s0, s1), ('linear', t0, t1)), ('output shaper', so, ('linear', t0, t1), ('log2', s0, s1)), ('1D/3D/1D resolution', r131, (ia, ib, ic), (ic, ia, ib))):
                first = r.item(got, 0)
                pick = one if first == wrap(one[0]) else two
                for i in range(3):
                    ck.equal('%s | %s, value %d' % (nm, w, i), con, r.item(got, i), wrap(pick[i]), r.facts)
        return functools.partial(ck.scenario, nm, go)
    jobs.append(repeated('convertCLFtoLUT with options given twice', ['--shaperIn', 'log2', s0, s1, '--shaperOut', 'linear', t0, t1, '--lutResolution1d3d1d', ia, ib, ic,
                                                                     '--shaperIn', 'linear', t0, t1, '--shaperOut', 'log2', s0, s1, '--lutResolution1d3d1d', ic, ia, ib]))

    # ---- convertLUTtoCLF
    REQ2 = {'lut': (['--lut', '-l'], ['/scratch/in.xa']), 'clf': (['--clf', '-c'], ['/scratch/out.clf'])}
    OPT2 = {'inverse': (['--inverse'], []), 'maps': (['--inversesUseIndexMaps'], []), 'half': (['--inversesUseHalfDomain'], [])}

    def fromlut(nm, argv, have, src, dst):
        def go():
            con = 'convertLUTtoCLF'
            r = lab.run(lambda: B.main('convertLUTtoCLF', argv))
            if not ready(nm, r, con):
                return
            cs = [c for c in calls(r, B.fmts) if c[1].v == 'read']
            if len(cs) != 1:
                return ck.fail(nm + ' | conversion', con, 'the LUT is read %d times' % len(cs))
            _, _, p, inv, interp, maps, half = cs[0]
            ck.equal(nm + ' | LUT path', con, p, Const(src), r.facts)
            ck.equal(nm + ' | interpolation', con, interp, Const('linear'), r.facts)
            for w, got, kk in (('inverse', inv, 'inverse'), ('index maps', maps, 'maps'), ('half domain', half, 'half')):
                ck.equal('%s | %s' % (nm, w), con, got, Const(kk in have), r.facts)
            o = [n for n, m in B.opened(r) if m and 'w' in m]
            ck.true(nm + ' | output file', con, o == [dst], msg='wrote %s' % (o,))
        return functools.partial(ck.scenario, nm, go)
    for k, (c, order) in enumerate(vectors(REQ2, OPT2)):
        jobs.append(fromlut('convertLUTtoCLF with %s' % (' '.join(c) or 'no option'), flat(order, k), c, '/scratch/in.xa', '/scratch/out.clf'))

    # ---- convertOCIOtoCLF
    REQ3 = {'config': (['--config', '-c'], ['/scratch/config.ocio']), 'output': (['--output', '-o'], ['/scratch/out.clf']), }
    OPT3 = {'maps': (['--inversesUseIndexMaps'], []), 'half': (['--inversesUseHalfDomain'], []), 's1': (['--source', '-s'], ['one']), 's2': (['-s', '--source'], ['two']), 'd1': (['--destination', '-d'], ['three']), 'd2': (['-d', '--destination'], ['four'])}

    def config():
        def ft(name):
            return fn(lab, B.ocio, 'FileTransform', name + '.xa', 'nearest' if name[0] == 't' else 'linear', 'inverse')
        sp = [Tup((Const(n), ft(n + 'to'), ft(n + 'from'))) for n in ('one', 'two', 'three', 'four')]
        fn(lab, B.ocio, 'Config', '/scratch/config.ocio', 'luts', lab.list(sp))
        fn(lab, B.ocio, 'Config', '/scratch/other.ocio', 'other', lab.list(sp))

    def fromocio(nm, argv, have, order, conf='/scratch/config.ocio', dst='/scratch/out.clf', search='luts'):
        def go():
            con = 'convertOCIOtoCLF'

            def build():
                config()
                return B.main('convertOCIOtoCLF', argv)
            r = lab.run(build)
            if not ready(nm, r, con):
                return
            src = [n for o, n in (('s1', 'one'), ('s2', 'two'), ('d1', 'three'), ('d2', 'four')) if o in have]
            names = {'s1': 'oneto', 's2': 'twoto', 'd1': 'threefrom', 'd2': 'fourfrom'}
            given = [o for o, _ in order if o in names]
            want = [names[o] for o in given if o[0] == 's'] + [names[o] for o in given if o[0] == 'd']
            cfg = [c[1].v for c in calls(r, B.ocio)]
            cs = [c for c in calls(r, B.fmts) if c[1].v == 'read']
            o = [n for n, m in B.opened(r) if m and 'w' in m]
            if not want:
                ck.true(nm + ' | nothing runs without a color space', con, not cs and not o and not cfg, msg='a conversion ran')
                return
            ck.true(nm + ' | config', con, cfg == [conf], msg='configs %s' % cfg)
            got = [c[2].v for c in cs]
            exp = ['/scratch/%s/%s.xa' % (search, n) for n in want]
            ck.true(nm + ' | color spaces', con, got == exp, msg='%s instead of %s' % (got, exp))
            if got == exp:
                for c in cs:
                    ck.equal('%s | %s inverse' % (nm, c[2].v), con, c[3], TRUE, r.facts)
                    ck.equal('%s | %s index maps' % (nm, c[2].v), con, c[5], Const('maps' in have), r.facts)
                    ck.equal('%s | %s half domain' % (nm, c[2].v), con, c[6], Const('half' in have), r.facts)
            ck.true(nm + ' | output file', con, o == [dst], msg='wrote %s' % (o,))
        return functools.partial(ck.scenario, nm, go)
    for k, (c, order) in enumerate(vectors(REQ3, OPT3, [('s2', 's1', 'd2', 'd1'), ('d1', 's1', 'd2', 's2')])):
        jobs.append(fromocio('convertOCIOtoCLF with %s' % (' '.join(c) or 'no option'), flat(order, k), c, order))
    jobs.append(fromocio('convertOCIOtoCLF of another config', ['-c', '/scratch/other.ocio', '-s', 'one', '-o', '/scratch/other.clf'], ('s1',), [('s1', 0)], '/scratch/other.ocio', '/scratch/other.clf', 'other'))

    # ---- filterImageWithCLF
    QUAL = T.sym('quality', 'int', lo=1)
    REQ4 = {'input': (['--input', '-i'], ['/scratch/in.img']), 'output': (['--output', '-o'], ['/scratch/out.img']), 'clf': (['--clf', '-c'], ['/scratch/a.clf'])}
    OPT4 = {'verbose': (['--verbose', '-v'], []), 'depth': (['--outputBitDepth'], ['12i']), 'mt': (['--multithreaded', '-m'], [Const(3)]), 'comp': (['--compression'], ['zip']), 'quality': (['--quality'], [QUAL])}

    def filt(nm, argv, have, threads, key='a', src='/scratch/in.img', dst='/scratch/out.img', depth='12i'):
        def go():
            con = 'filterImageWithCLF'

            def build():
                B.clf_file('/scratch/a.clf', 'a')
                B.clf_file('/scratch/b.clf', 'b')
                for n in ('in', 'other'):
                    c25.put(lab, '/scratch/%s.img' % n, c25.FLOAT, 1, 2, 3, [], [(c25.FLOAT, [sym('%s%d' % (n, i), 'float') for i in range(6)])])
                return B.main('filterImageWithCLF', argv)
            r = lab.run(build, [compare('lt', Const(0), QUAL)])
            if not ready(nm, r, con):
                return
            W = c25.written(lab, r)
            if r.length(W) is not Const(1):
                return ck.fail(nm + ' | conversion', con, '%s images were written' % short(r.length(W), 10))
            path, spec, form, px = [r.item(W, 0, i) for i in range(4)]
            ck.equal(nm + ' | output', con, path, Const(dst), r.facts)
            ins = [c[1].v for c in calls(r, lab.oiio) if c[0].v == 'input']
            ck.true(nm + ' | input', con, ins == [src], msg='read %s' % ins)
            ck.equal(nm + ' | output type', con, r.attr(r.attr(spec, 'format'), 'basetype'), Const(c25.TYPE[depth] if 'depth' in have else c25.FLOAT), r.facts)
            at = {}
            ea = r.attr(spec, 'extra_attribs')
            for i in range(r.length(ea).v):
                a = r.item(ea, i)
                at[r.attr(a, 'name').v] = r.attr(a, 'value')
            if 'depth' in have and depth in c25.MAXI:
                ck.equal(nm + ' | output depth', con, at.get('oiio:BitsPerSample', NONE), Const(c25.SIG[depth]), r.facts)
            ck.equal(nm + ' | compression', con, at.get('compression', NONE), Const('zip') if 'comp' in have else NONE, r.facts)
            ck.equal(nm + ' | quality', con, at.get('CompressionQuality', NONE), QUAL if 'quality' in have else NONE, r.facts)
            if 'depth' not in have:
                k = os.path.basename(src)[:-4]
                e = sum([sym('%s%d' % (key, j), 'float') * sym('%s%d' % (k, j), 'float') for j in range(3)], Const(0.0))
                ck.equal(nm + ' | pixels', con, r.item(px, 0), e, r.facts)
            pools = r.st.get(lab.mp.oid).d['POOLS']
            n = r.length(pools)
            got = [r.item(pools, i).v for i in range(n.v)]
            ck.true(nm + ' | processes', con, got == ([] if threads == 1 else [threads]), msg='pools of %s processes' % (got,))
            said = [e for e in r.events if e.kind == 'print' and 'rocess' in str(getattr(e.what, 'v', '')) ]
        return functools.partial(ck.scenario, nm, go)
    for k, (c, order) in enumerate(vectors(REQ4, OPT4)):
        jobs.append(filt('filterImageWithCLF with %s' % (' '.join(c) or 'no option'), flat(order, k), c, 3 if 'mt' in c else 8))
    for m, e in ((1, 1), (0, 1), (-2, 1), (2, 2), (8, 8), (9, 8)):
        jobs.append(filt('filterImageWithCLF with %d processes' % m, ['-i', '/scratch/other.img', '-o', '/scratch/b.img', '-c', '/scratch/b.clf', '-m', Const(m)], (), e, 'b', '/scratch/other.img', '/scratch/b.img'))
    for d in DEPTHS:
        jobs.append(filt('filterImageWithCLF to %s' % d, ['-i', '/scratch/other.img', '-o', '/scratch/b.img', '-c', '/scratch/b.clf', '--outputBitDepth', d], ('depth',), 8, 'b', '/scratch/other.img', '/scratch/b.img', d))

    # ---- clfinfo
    def info(nm, argv, key):
        def go():
            con = 'clfinfo'

            def build():
                B.clf_file('/scratch/a.clf', 'a')
                B.clf_file('/scratch/b.clf', 'b')
                return B.main('clfinfo', argv)
            r = lab.run(build)
            if not ready(nm, r, con):
                return
            text = [files.Text(lab, e.what).shown if False else e.what for e in r.events if e.kind == 'print']
            seen = ' '.join(getattr(t, 'v', '') if isinstance(getattr(t, 'v', None), str) else repr(t) for t in text)
            for k in 'ab':
                ck.true('%s | file %s' % (nm, k), con, ('name' + k in seen) == (k == key), msg='information of file %s %s' % (k, 'is missing' if k == key else 'is shown'))
        return functools.partial(ck.scenario, nm, go)
    for k in 'ab':
        for s in ('--clf', '-c'):
            jobs.append(info('clfinfo %s %s' % (s, k), [s, '/scratch/%s.clf' % k], k))
    jobs.append(info('clfinfo without a file', [], None))

    # ---- a conversion runs only when its paths are given
    def incomplete(tool, argv, nm):
        def go():
            def build():
                B.clf_file('/scratch/a.clf', 'a')
                c25.put(lab, '/scratch/in.img', c25.FLOAT, 1, 1, 3, [], [(c25.FLOAT, [sym('in%d' % i, 'float') for i in range(3)])])
                config()
                before = len(lab.I.obj(lab.I.getattr(lab.I.world, 'opened')).items) if False else 0
                return B.main(tool, argv)
            r = lab.run(build)
            if not ready(nm, r, tool):
                return
            o = [n for n, m in B.opened(r) if m and 'w' in m and n != '/scratch/a.clf']
            done = [c for c in calls(r, B.fmts)] or o or r.length(c25.written(lab, r)) is not Const(0)
            ck.true(nm + ' | nothing is converted', tool, not done, msg='a conversion ran')
        return functools.partial(ck.scenario, nm, go)
    for tool, req, more in (('convertCLFtoLUT', REQ, []), ('convertLUTtoCLF', REQ2, ['--inverse']), ('convertOCIOtoCLF', REQ3, ['-s', 'one']), ('filterImageWithCLF', REQ4, ['-v'])):
        names = sorted(req)
        for n in range(len(names)):
            for sub in itertools.combinations(names, n):
                argv = []
                for x in sub:
                    argv += [req[x][0][0]] + req[x][1]
                jobs.append(incomplete(tool, argv + more, '%s with only %s' % (tool, ' '.join(sub) or 'nothing')))
    ck.parallel(jobs)
    return ck.finish('the main function of every tool on argument vectors that contain no, one, two, all and all but one of the options, with symbolic values, short and long spellings and several orders; and every incomplete set of required paths.',
                     ['optparse is modelled by its documentation', 'the number of processes is limited to the number of processors', '--format of convertCLFtoLUT is documented as not used', 'what is recorded: recording LUT formats, stand-ins for image and color configuration libraries'], floor=400)


if __name__ == '__main__':
    main(run)
