import functools, itertools, os
from common import *
from clfstatic import terms as T

STUBS = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'stubs') + '/'
UINT8, UINT16, HALF, FLOAT = 2, 4, 8, 9
TYPE = {'8i': UINT8, '10i': UINT16, '12i': UINT16, '16i': UINT16, '16f': HALF, '32f': FLOAT}
SIG = {'8i': 8, '10i': 10, '12i': 12, '16i': 16, '16f': 16, '32f': 32}
MAXI = {'8i': 255, '10i': 1023, '12i': 4095, '16i': 65535}
SHIFT = {'8i': 0, '10i': 6, '12i': 4, '16i': 0}


def bench():
    """the filter tool loaded against stand-ins for OpenImageIO and multiprocessing"""
    lab = Lab()
    lab.I.stubs = {'OpenImageIO': STUBS + 'oiio.py', 'multiprocessing': STUBS + 'mp.py'}
    lab.oiio = lab.load(STUBS + 'oiio.py', 'OpenImageIO')
    lab.mp = lab.load(STUBS + 'mp.py', 'multiprocessing')
    lab.tool = lab.load(loader.ACES + '/filterImageWithCLF.py', 'filterImageWithCLF')
    lab.mark = lab.load(STUBS + 'mark.py', 'mark')
    lab.probe = lab.load(STUBS + 'probe.py', 'probe')
    return lab


def fn(lab, mod, name, *a, **k):
    return lab.I.call(lab.I.getattr(mod, name), [wrap(x) for x in a], {n: wrap(v) for n, v in k.items()})


def put(lab, path, basetype, w, h, ch, attrs, data):
    """an image, with the pixels returned for each type"""
    return fn(lab, lab.oiio, 'put', path, basetype, w, h, ch, lab.list(['R', 'G', 'B', 'A', 'Z'][:ch]), lab.list([Tup(tuple(wrap(x) for x in a)) for a in attrs]),
              lab.list([Tup((Const(t), lab.list(px))) for t, px in data]))


def version(lab, v):
    m = lab.I.wr(lab.oiio)
    m.d['VERSION'] = Const(v)


def written(lab, r):
    """the images written: (path, spec ref, format ref, pixels list ref)"""
    return r.st.get(lab.oiio.oid).d['WRITTEN']


def pixels_of(bits, n):
    """stored samples of an image of a bit depth -> (samples as read, value of each)"""
    if bits in MAXI:
        top = 255 if bits == '8i' else 65535
        raw = [T.sym('p%d' % i, 'int', lo=0, hi=top) for i in range(n)]
        if SHIFT[bits]:
            return raw, [floordiv(x, Const(1 << SHIFT[bits])) for x in raw]
        return raw, raw
    if bits == '16f':
        raw = [T.sym('p%d' % i, 'int', lo=0, hi=65535) for i in range(n)]
        return raw, [T.atom('u2h', x) for x in raw]
    raw = [sym('p%d' % i, 'float') for i in range(n)]
    return raw, raw


def spread(bits, n):
    """ranges of the stored samples"""
    r = {'8i': (0, 255), '16f': (0, 31743), '32f': (-2, 3)}.get(bits, (0, 65535))
    return {'p%d' % i: r for i in range(n)}


def run(tier):
    ck = Check('C25', tier, 'the pixels handed to the image writer, as terms in the pixels of the image read, for every pixel position')
    lab = bench()
    I = lab.I
    deep = tier != 'quick'
    jobs = []
    own, other, shift = [[sym('%s%d' % (n, c), 'float') for c in range(5)] for n in 'abs']

    def transform(ib, ob, ch):
        """a process list that mixes the channels of each pixel"""
        pl = lab.new('ProcessList')
        mk = fn(lab, lab.mark, 'Mark', ib, ob, ch, lab.list(own[:ch]), lab.list(other[:ch]), lab.list(shift[:ch]))
        lab.call(pl, 'addProcess', mk)
        return pl

    def spec(vals, ch, img, ib, ob, out):
        """the filtered value of every sample (before storing)"""
        n = [v * Const(FACTOR[ib] / Fraction(FACTOR[img])) if img != ib else v for v in vals]
        r = []
        for i in range(len(n)):
            p, c = divmod(i, ch)
            v = n[i] * own[c] + n[p * ch + (c + 1) % ch] * other[c] + shift[c]
            r.append(v * Const(FACTOR[out] / Fraction(FACTOR[ob])) if ob != out else v)
        return r

    def image(nm, img, ib, ob, out, w, h, ch, threads, ver=20000, verbose=False):
        def stored(raw, ver):
            if img == '16f' and ver < 10800:
                return [T.atom('u2f', T.REBUILD['pack16'](a, b)) for a, b in zip(raw[::2], raw[1::2])]
            return raw

        def go():
            raw, vals = pixels_of(img, w * h * ch)
            attrs = [('oiio:BitsPerSample', 'int', SIG[img])] if img in ('10i', '12i') else []

            def build():
                version(lab, ver)
                put(lab, '/scratch/in.img', TYPE[img], w, h, ch, attrs, [(TYPE[img], stored(raw, ver))])
                pl = transform(ib, ob, ch)
                fn(lab, lab.tool, 'filterImageWithCLF', '/scratch/in.img', '/scratch/out.img', pl, verbose, outBitDepth=out, multithreaded=threads)
                return pl
            r = lab.run(build)
            con = 'filterImageWithCLF'
            ck.analysed(lab)
            if not ck.no_raise(nm + ' | no exception', r, {}):
                return
            if r.unmod:
                return ck.unknown(nm, 'unmodelled: %s' % (r.unmod[:2],))
            W = written(lab, r)
            n = r.length(W)
            if n is not Const(1):
                return ck.fail(nm + ' | images written', con, '%s images were written' % short(n, 20))
            px = r.item(W, 0, 3)
            if r.length(px) is not Const(w * h * ch):
                return ck.fail(nm + ' | samples', con, '%s samples instead of %d' % (short(r.length(px), 20), w * h * ch))
            want = spec(vals, ch, img, ib, ob, out if out in FACTOR else img)
            for i in range(w * h * ch):
                ck.equal('%s | row %d column %d channel %d' % (nm, i // ch // w, i // ch % w, i % ch), con, r.item(px, i), want[i], r.facts, spread(img, w * h * ch))
            s = r.item(W, 0, 1)
            for a, e in (('width', w), ('height', h), ('nchannels', ch)):
                ck.equal('%s | %s' % (nm, a), con, r.attr(s, a), Const(e), r.facts)
        return functools.partial(ck.scenario, nm, go)
    sizes = [(1, 1), (3, 1), (1, 3), (2, 3)] + ([(4, 2), (5, 5), (1, 9)] if deep else [])
    for (w, h), ch, th in itertools.product(sizes, (1, 2, 3, 4, 5), (1, 2, 8)):
        jobs.append(image('float image %dx%d, %d channels, %d processes' % (w, h, ch, th), '32f', '32f', '32f', '32f', w, h, ch, th))
    for img, ib, th in itertools.product(('8i', '10i', '12i', '16i', '16f', '32f'), ('8i', '10i', '16f', '32f') if not deep else ('8i', '10i', '12i', '16i', '16f', '32f'), (1, 4)):
        jobs.append(image('%s image through a %s transform, %d processes' % (img, ib, th), img, ib, '16f', '32f', 2, 2, 3, th))
    for ob, th in itertools.product(('8i', '10i', '12i', '16i', '16f', '32f'), (1, 3)):
        jobs.append(image('float image out of a %s transform, %d processes' % (ob, th), '32f', '16i', ob, '32f', 2, 2, 3, th))
        jobs.append(image('float image out of a %s transform, output depth not given, %d processes' % (ob, th), '32f', '32f', ob, None, 1, 2, 4, th))
    # ---- each row function on its own: only the pixels of its row, the same values
    def rows(nm, func, w, h, row, ch, inr, outr, verbose):
        def go():
            n = w * h * ch
            px = [sym('p%d' % i, 'float') for i in range(n)]
            old = [sym('q%d' % i, 'float') for i in range(n)]

            def build():
                pl = transform('10i' if inr else '32f', '12i' if outr else '32f', ch)
                A = lab.new('Range', '32f', '10i') if inr else NONE
                B = lab.new('Range', '12i', '32f') if outr else NONE
                src = lab.list(px[row * w * ch:(row + 1) * w * ch]) if func == 'filterRow_parallel' else lab.list(px)
                dst = lab.callx('np.array', lab.list(old), Op('ext', ('np.float32',), 'ext'))
                v = fn(lab, lab.tool, func, row, w, h, ch, src, A, pl, B, dst, verbose)
                return Tup((dst, src, v))
            r = lab.run(build)
            ck.analysed(lab)
            if not ck.no_raise(nm + ' | no exception', r, {}, construct=func):
                return
            if r.unmod:
                return ck.unknown(nm, 'unmodelled: %s' % (r.unmod[:2],))
            dst, src, got = r.v.items
            want = spec(px, ch, '32f', '10i' if inr else '32f', '12i' if outr else '32f', '32f')
            lo, hi = row * w * ch, (row + 1) * w * ch
            for i in range(n):
                inside = lo <= i < hi
                if func == 'filterRow_parallel':
                    if inside:
                        ck.equal('%s | sample %d' % (nm, i), func, r.item(got, i - lo), want[i], r.facts, {})
                    continue
                ck.equal('%s | sample %d' % (nm, i), func, r.item(dst, i), want[i] if inside else old[i], r.facts, {})
            for i in range(n if func != 'filterRow_parallel' else hi - lo):
                ck.equal('%s | source sample %d unchanged' % (nm, i), func, r.item(src, i), px[i + (lo if func == 'filterRow_parallel' else 0)], r.facts, {})
        return functools.partial(ck.scenario, nm, go)
    for func in ('filterRow_pixel', 'filterRow_stride', 'filterRow_parallel'):
        for (w, h), ch in itertools.product(sizes, (1, 2, 3, 4, 5)):
            for row in range(h):
                for inr, outr in ((False, False), (True, True)) if (w, h) != (2, 3) else ((False, False), (True, False), (False, True), (True, True)):
                    jobs.append(rows('%s row %d of %dx%d, %d channels%s%s' % (func, row, w, h, ch, ', input range' if inr else '', ', output range' if outr else ''), func, w, h, row, ch, inr, outr, inr and not outr))

    # ---- verbose filtering, and output depths that do not exist
    for th in (1, 4):
        jobs.append(image('verbose, %d processes' % th, '16i', '32f', '32f', '32f', 2, 2, 3, th, verbose=True))
        jobs.append(image('unknown output depth, %d processes' % th, '32f', '10i', '12i', 'deep', 2, 2, 3, th))
        jobs.append(image('old OpenImageIO, half image, %d processes' % th, '16f', '10i', '12i', '32f', 2, 2, 3, th, ver=10700))

    # ---- any width and height: symbolic sizes, a pointwise transform
    W, H, R, m = sym('W', 'int', lo=1), sym('H', 'int', lo=1), sym('R', 'int', lo=0), sym('m', 'int', lo=0)
    # small sizes, and large ones
    size = lambda rng: Fraction(rng.randint(1, 9) if rng.random() < .7 else rng.randint(1, 90000))
    SZ = {'W': size, 'H': size, 'R': lambda rng: size(rng) - 1, 'm': lambda rng: size(rng) - 1}
    SIZES = [compare('le', Const(1), W), compare('le', Const(1), H), compare('le', Const(0), R), compare('le', Const(0), m)]

    def pointwise(own, shift):
        pl = lab.new('ProcessList')
        lab.call(pl, 'addProcess', fn(lab, lab.probe, 'Probe', '32f', '32f', own, shift, Const(0.0)))
        return pl
    A, B = sym('a', 'float'), sym('b', 'float')

    def anyrow(func, ch):
        nm = '%s, %d channels, any width, height and row' % (func, ch)

        def go():
            par = func == 'filterRow_parallel'

            def build():
                src = lab.nlist('px', W * Const(ch) if par else W * H * Const(ch))
                dst = lab.arr('q', W * H * Const(ch))
                v = fn(lab, lab.tool, func, R, W, H, ch, src, NONE, pointwise(A, B), NONE, dst, False)
                return v if par else dst
            # the second fact follows from the first
            r = lab.run(build, SIZES + [compare('lt', R, H), compare('le', W * R + W, W * H)])
            ck.analysed(lab)
            if not ck.no_raise(nm + ' | no exception', r, SZ, construct=func):
                return
            if r.unmod:
                return ck.unknown(nm, 'unmodelled: %s' % (r.unmod[:2],))
            for c in range(ch):
                k = m * Const(ch) + Const(c)
                new = M.rd('px', k) * A + B
                f = r.facts
                if par:
                    f = f.plus(compare('lt', m, W))
                    want = new
                else:
                    f = f.plus(compare('lt', m, W * H))
                    want = ite(and_(compare('le', R * W, m), compare('lt', m, R * W + W)), new, M.rd('q', k))
                ck.equal('%s | pixel m channel %d' % (nm, c), func, r.item(r.v, k), want, f, SZ)
        return functools.partial(ck.scenario, nm, go)

    def anysize(w, h, ch, th):
        nm = 'image of %s columns and %s rows, %d channels, %d processes' % ('any number of' if w is W else w, 'any number of' if h is H else h, ch, th)

        def go():
            n = wrap(w) * wrap(h) * Const(ch)

            def build():
                put(lab, '/scratch/in.img', FLOAT, w, h, ch, [], [])
                lab.I.call(lab.I.getattr(lab.oiio, 'data'), [Const('/scratch/in.img'), Const(FLOAT), lab.nlist('px', n)], {})
                fn(lab, lab.tool, 'filterImageWithCLF', '/scratch/in.img', '/scratch/out.img', pointwise(A, B), outBitDepth='32f', multithreaded=th)
                return written(lab, lab.I)
            r = lab.run(build, SIZES)
            ck.analysed(lab)
            if not ck.no_raise(nm + ' | no exception', r, SZ, construct='filterImageWithCLF'):
                return
            if r.unmod:
                return ck.unknown(nm, 'unmodelled: %s' % (r.unmod[:2],))
            if r.length(r.v) is not Const(1):
                return ck.fail(nm + ' | images written', 'filterImageWithCLF', '%s images were written' % short(r.length(r.v), 20))
            px = r.item(r.v, 0, 3)
            ck.equal(nm + ' | samples', 'filterImageWithCLF', r.length(px), n, r.facts, SZ)
            for x, y in [(m, k) for k in range(h)] if not isinstance(h, Poly) else [(k, m) for k in range(w)]:
                f = r.facts.plus(compare('lt', m, wrap(w if x is m else h)))
                for c in range(ch):
                    k = (wrap(y) * wrap(w) + wrap(x)) * Const(ch) + Const(c)
                    ck.equal('%s | row %s column %s channel %d' % (nm, 'm' if y is m else y, 'm' if x is m else x, c), 'filterImageWithCLF', r.item(px, k), M.rd('px', k) * A + B, f, SZ)
        return functools.partial(ck.scenario, nm, go)
    for func, ch in itertools.product(('filterRow_pixel', 'filterRow_stride', 'filterRow_parallel'), (1, 2, 3, 4, 5)):
        jobs.append(anyrow(func, ch))
    for ch in (1, 2, 3, 4, 5):
        for k in (1, 2, 3):
            jobs.append(anysize(W, k, ch, 1))
            jobs.append(anysize(W, k, ch, 4))
            jobs.append(anysize(k, H, ch, 1))
    def missing():
        def build():
            pl = transform('32f', '32f', 3)
            fn(lab, lab.tool, 'filterImageWithCLF', '/scratch/none.img', '/scratch/out.img', pl)
        r = lab.run(build)
        if ck.no_raise('image that cannot be opened | no exception', r, {}):
            ck.true('image that cannot be opened | nothing is written', 'filterImageWithCLF', r.length(written(lab, r)) is Const(0), msg='an image was written')
    jobs.append(functools.partial(ck.scenario, 'image that cannot be opened', missing))
    ck.parallel(jobs)
    return ck.finish('whole-image filtering in single and multi-process mode and each row function, on images of enumerated sizes and channel counts with symbolic pixels and a symbolic channel-mixing transform, and for any width, height and row (symbolic) with a pointwise transform; what reaches the image writer, sample by sample.',
                     ['both sizes symbolic at once only for the row functions; one of them (or both enumerated) for whole images', 'OpenImageIO and multiprocessing are stand-ins: tasks run on copies of their arguments', 'float rounding is not modelled'], floor=400)


if __name__ == '__main__':
    main(run)
