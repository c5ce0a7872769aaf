import functools, itertools
from common import *
from clfstatic import terms as T
import c25
from c25 import UINT8, UINT16, HALF, FLOAT, TYPE, SIG, MAXI, SHIFT, fn, put, version, written


def run(tier):
    ck = Check('C26', tier, 'what reading returns and what writing hands to the image library, sample by sample, as terms in the stored samples or pixels; the declared depth and attributes')
    lab = c25.bench()
    I = lab.I
    deep = tier != 'quick'
    jobs = []
    NPX = 4 if not deep else 12

    def ready(nm, r, con):
        ck.analysed(lab)
        if not ck.no_raise(nm + ' | no exception', r, {}, construct=con):
            return False
        if r.unmod:
            ck.unknown(nm, 'unmodelled: %s' % (r.unmod[:2],))
            return False
        return True

    def same(nm, con, r, got, want, rng={}):
        n = r.length(got)
        ck.equal(nm + ' | number of samples', con, n, Const(len(want)), r.facts)
        if n is not Const(len(want)):
            return
        for i, w in enumerate(want):
            ck.equal('%s | sample %d' % (nm, i), con, r.item(got, i), w, r.facts, rng)

    # ---- reading
    def halfs(raw, ver):
        return [T.atom('u2f', T.REBUILD['pack16'](a, b)) for a, b in zip(raw[::2], raw[1::2])] if ver < 10800 else raw

    def reading(nm, base, meta, over, want_depth, ver=20000):
        def go():
            con = 'readPixelArray'
            kinds = {}
            for b in ('8i', '16i', '16f', '32f'):
                kinds[TYPE[b]] = c25.pixels_of(b, NPX)
            attrs = [('Make', 'string', 'ACME')] + ([('oiio:BitsPerSample', 'int', meta)] if meta is not None else []) + [('gamma', 'float', 2.2)]

            def build():
                version(lab, ver)
                put(lab, '/scratch/in.img', base, NPX // 2, 1, 2, attrs, [(t, halfs(k[0], ver) if t == HALF else k[0]) for t, k in kinds.items()])
                return fn(lab, lab.tool, 'readPixelArray', '/scratch/in.img', *([] if over == 'auto' else [over]))
            r = lab.run(build)
            if not ready(nm, r, con):
                return
            if not isinstance(r.v, Tup) or len(r.v.items) != 7:
                return ck.fail(nm + ' | result', con, 'unexpected result')
            px, d, w, h, ch, md, names = r.v.items
            ck.equal(nm + ' | bit depth', con, d, Const(want_depth), r.facts)
            for a, v, e in (('width', w, NPX // 2), ('height', h, 1), ('channels', ch, 2)):
                ck.equal('%s | %s' % (nm, a), con, v, Const(e), r.facts)
            t = TYPE[want_depth] if over not in ('auto', None) else base
            vals = kinds[t][1]
            if over == 'auto' and base == UINT16 and want_depth in ('10i', '12i'):
                vals = [floordiv(v, Const(1 << SHIFT[want_depth])) for v in vals]
            same(nm, con, r, px, vals, c25.spread({UINT8: '8i', UINT16: '16i', HALF: '16f', FLOAT: '32f'}[t], NPX))
            ck.true(nm + ' | the file is closed', con, closed(r, 'input', 'closed input'), msg='the image was not closed')
            src = r.st.get(lab.oiio.oid).d['IMAGES']
            ck.equal(nm + ' | attributes', con, r.length(md), Const(len(attrs)), r.facts)
            for i, a in enumerate(attrs):
                ck.equal('%s | attribute %s' % (nm, a[0]), con, r.attr(r.item(md, i), 'value'), wrap(a[2]), r.facts)
        return functools.partial(ck.scenario, nm, go)

    def calls(r):
        c = r.st.get(lab.oiio.oid).d['CALLS']
        n = r.length(c)
        return [[getattr(x, 'v', x) for x in r.item(c, i).items] for i in range(n.v)]

    def closed(r, a, b):
        c = calls(r)
        return len([x for x in c if x[0] == a]) == len([x for x in c if x[0] == b])
    for base, metas in ((UINT8, (None, 8)), (UINT16, (None, 8, 10, 12, 16, 14)), (HALF, (None, 16, 10)), (FLOAT, (None, 32, 12))):
        nat = {UINT8: '8i', UINT16: '16i', HALF: '16f', FLOAT: '32f'}[base]
        for m in metas:
            want = {10: '10i', 12: '12i'}.get(m, nat) if base == UINT16 else nat
            jobs.append(reading('read %s samples, %s significant bits' % (nat, m), base, m, 'auto', want))
            jobs.append(reading('read %s samples as they are stored, %s significant bits' % (nat, m), base, m, None, nat))
            if base == HALF:
                jobs.append(reading('read packed %s samples, %s significant bits' % (nat, m), base, m, 'auto', want, 10700))
        for over in ('8i', '16i', '16f', '32f'):
            jobs.append(reading('read %s samples as %s' % (nat, over), base, 10, over, over))

    # ---- writing
    def writing(nm, depth, ints, meta, comp=None, quality=None, ver=20000):
        def go():
            con = 'writePixelArray'
            n = NPX
            vals = [T.sym('x%d' % i, 'int') for i in range(n)] if ints else [sym('x%d' % i, 'float') for i in range(n)]
            attrs = [('Make', 'string', 'ACME')] + ([('oiio:BitsPerSample', 'int', meta)] if meta is not None else []) + [('gamma', 'float', 2.2)]
            top = MAXI.get(depth)
            rng = {'x%d' % i: (-3 * (top or 1), 3 * (top or 1)) for i in range(n)}

            def build():
                version(lab, ver)
                px = lab.callx('np.array', lab.list(vals), Op('ext', ('np.float32',), 'ext'))
                md = [fn(lab, lab.oiio, 'Attr', *a) for a in attrs]
                a = [] if comp is None else [comp]
                a += [] if quality is None else [quality]
                fn(lab, lab.tool, 'writePixelArray', '/scratch/out.img', px, depth, NPX // 2, 1, 2, lab.list(md), lab.list(['Y', 'A']), *a)
                return NONE
            r = lab.run(build)
            if not ready(nm, r, con):
                return
            W = written(lab, r)
            if r.length(W) is not Const(1):
                return ck.fail(nm + ' | images written', con, '%s images were written' % short(r.length(W), 20))
            path, spec, form, px = [r.item(W, 0, i) for i in range(4)]
            ck.equal(nm + ' | path', con, path, Const('/scratch/out.img'), r.facts)
            for what, f in (('declared type', r.attr(spec, 'format')), ('written type', form)):
                if isinstance(f, Ref):
                    f = r.attr(f, 'basetype')
                ck.equal('%s | %s' % (nm, what), con, f, Const(TYPE[depth]), r.facts)
            for a, e in (('width', NPX // 2), ('height', 1), ('nchannels', 2)):
                ck.equal('%s | %s' % (nm, a), con, r.attr(spec, a), Const(e), r.facts)
            nl = r.attr(spec, 'channelnames')
            for i, e in enumerate('YA'):
                ck.equal('%s | channel name %d' % (nm, i), con, r.item(nl, i), Const(e), r.facts)
            got_attrs = {}
            ea = r.attr(spec, 'extra_attribs')
            for i in range(r.length(ea).v):
                a = r.item(ea, i)
                got_attrs[r.attr(a, 'name').v] = (r.attr(a, 'value'), r.attr(a, 'type'))
            want = {a[0]: wrap(a[2]) for a in attrs}
            if meta is not None or depth in MAXI:
                want['oiio:BitsPerSample'] = Const(SIG[depth])
            if comp:
                want['compression'] = Const(comp)
            if quality is not None and quality > 0:
                want['CompressionQuality'] = Const(quality)
            for a, e in want.items():
                if a not in got_attrs:
                    ck.fail('%s | attribute %s' % (nm, a), con, 'attribute %s is not written' % a)
                else:
                    ck.equal('%s | attribute %s' % (nm, a), con, got_attrs[a][0], e, r.facts)
            for a in got_attrs:
                if a not in want and a != 'oiio:BitsPerSample':
                    ck.fail('%s | attribute %s' % (nm, a), con, 'attribute %s was not asked for' % a)
            ck.true(nm + ' | the file is closed', con, closed(r, 'output', 'closed output'), msg='the image was not closed')
            if depth == '32f':
                return same(nm, con, r, px, vals)
            if depth == '16f':
                bits = [T.mkcast('h2u', v) if hasattr(T, 'mkcast') else T.REBUILD['h2u'](T.REBUILD['f16'](v) if 'f16' in T.REBUILD else T.atom('f16', v)) for v in vals]
                if ver < 10800:
                    bits = [T.atom('u2f', T.REBUILD['pack16'](a, b)) for a, b in zip(bits[::2], bits[1::2])]
                return same(nm, con, r, px, bits)
            s = Const(1 << SHIFT[depth])
            clamped = [tmin(tmax(v, Const(0)), Const(top)) for v in vals]
            if ints:
                return same(nm, con, r, px, [c * s for c in clamped], rng)
            if r.length(px) is not Const(n):
                return ck.fail(nm + ' | number of samples', con, '%s samples' % short(r.length(px), 20))
            for i in range(n):
                d = r.item(px, i) - clamped[i] * s
                ck.true('%s | sample %d' % (nm, i), con, and_(compare('lt', Const(0) - s, d), compare('lt', d, s)), r.facts, rng, msg='the sample is not the clamped pixel')
        return functools.partial(ck.scenario, nm, go)
    for depth in DEPTHS:
        for ints, meta in itertools.product((True, False), (None, 8, 10, 16, 32)):
            jobs.append(writing('write %s samples from %s, %s significant bits before' % (depth, 'whole pixels' if ints else 'pixels', meta), depth, ints, meta))
        jobs.append(writing('write %s samples compressed' % depth, depth, True, None, 'zip', 80))
        jobs.append(writing('write %s samples, no compression given' % depth, depth, True, None, None, None))
        jobs.append(writing('write %s samples, quality of zero' % depth, depth, True, None, 'lzw', 0))
    jobs.append(writing('write 16f samples, packed', '16f', False, None, ver=10700))

    # ---- the correspondence itself
    def tables():
        r = lab.run(lambda: Tup((I.getattr(lab.tool, 'oiioBitDepthToCLFBitDepth'), I.getattr(lab.tool, 'clfBitDepthToOIIOBitDepth'))))
        a, b = r.v.items
        for t, d in ((UINT8, '8i'), (UINT16, '16i'), (HALF, '16f'), (FLOAT, '32f')):
            ck.equal('depth of the image type %s' % d, 'oiioBitDepthToCLFBitDepth', r.item(a, Const(t)), Const(d), r.facts)
        for d in DEPTHS:
            ck.equal('image type of the depth %s' % d, 'clfBitDepthToOIIOBitDepth', r.item(b, Const(d)), Const(TYPE[d]), r.facts)
    jobs.append(functools.partial(ck.scenario, 'correspondence', tables))

    # ---- half floats
    def packing():
        x = sym('x', 'float')
        h0, h1 = [T.atom('u2h', T.sym('h%d' % i, 'int', lo=0, hi=65535)) for i in range(2)]
        f = T.atom('u2f', T.sym('f', 'int', lo=0, hi=2 ** 32 - 1))
        r = lab.run(lambda: fn(lab, lab.tool, 'floatToHalfs', fn(lab, lab.tool, 'halfsToFloat', h0, h1)))
        if ready('unpacking packed halfs', r, 'floatToHalfs'):
            for i, e in enumerate((h0, h1)):
                ck.equal('unpacking packed halfs | half %d' % i, 'floatToHalfs', r.item(r.v, i), e, r.facts)
        r = lab.run(lambda: fn(lab, lab.tool, 'halfsToFloat', *[lab.I.models.getitem(lab.I, t, Const(i)) if hasattr(lab.I.models, 'getitem') else t.items[i] for t in [fn(lab, lab.tool, 'floatToHalfs', f)] for i in (0, 1)]))
        if ready('packing unpacked halfs', r, 'halfsToFloat'):
            ck.equal('packing unpacked halfs', 'halfsToFloat', r.v, f, r.facts)
        for ver, n in ((10700, 2), (10700, 6), (20000, 1), (20000, 3), (20000, 6)):
            nm = 'half pixels to image samples and back, %d values, version %d' % (n, ver)
            hs = [T.atom('u2h', T.sym('h%d' % i, 'int', lo=0, hi=65535)) for i in range(n)]

            def build():
                version(lab, ver)
                px = lab.callx('np.array', lab.list(hs), Op('ext', ('np.float16',), 'ext'))
                o = fn(lab, lab.tool, 'npHalfArrayToOIIOFloatPixels', 1, 1, n, px)
                return Tup((o, fn(lab, lab.tool, 'oiioFloatPixelsToNPHalfArray', 1, 1, n, o)))
            r = lab.run(build)
            if not ready(nm, r, 'npHalfArrayToOIIOFloatPixels'):
                continue
            bits = [T.REBUILD['h2u'](h) for h in hs]
            if ver < 10800:
                bits = [T.atom('u2f', T.REBUILD['pack16'](a, b)) for a, b in zip(bits[::2], bits[1::2])]
            same(nm + ' | samples', 'npHalfArrayToOIIOFloatPixels', r, r.v.items[0], bits)
            same(nm + ' | pixels', 'oiioFloatPixelsToNPHalfArray', r, r.v.items[1], hs)
    jobs.append(functools.partial(ck.scenario, 'half floats', packing))
    ck.parallel(jobs)
    return ck.finish('reading images of every sample type and number of significant bits with symbolic samples, writing every bit depth with symbolic pixels, and the half packing helpers; samples, depth and attributes.',
                     ['OpenImageIO is a stand-in', 'pixels are not NaN', 'explicitly requested 10 and 12 bit depths on reading are not judged'], floor=300)


if __name__ == '__main__':
    main(run)
