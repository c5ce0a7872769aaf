import functools
from common import *

NAMES = {'UINT8': '8i', 'UINT10': '10i', 'UINT12': '12i', 'UINT16': '16i', 'FLOAT16': '16f', 'FLOAT32': '32f'}


def run(tier):
    ck = Check('C03', tier, 'value graph of the bit-depth conversions for every depth')
    lab = Lab()
    x = sym('x')
    rg = {'x': (-3, 70000)}

    def go():
        r = lab.run(lambda: lab.list([lab.I.getitem(lab.cls('bitDepths'), Const(n)) for n in sorted(NAMES)]))
        if ck.no_raise('depth names | no exception', r) and r.v is not None:
            for i, n in enumerate(sorted(NAMES)):
                ck.equal('depth name %s' % n, 'bitDepths', r.item(r.v, i), Const(NAMES[n]))
            r = lab.run(lambda: lab.callx('builtins.len', lab.cls('bitDepths')))
            ck.equal('number of depths', 'bitDepths', r.v, Const(6))
    ck.scenario('names', go)
    for d in DEPTHS:
        f = FACTOR[d]

        def one():
            for v, ty in ((x, 'float'), (sym('n', 'int'), 'int')):
                r = lab.run(lambda: Tup((lab.fcall('bitDepthToNormalized', v, d), lab.fcall('normalizedToBitDepth', v, d),
                                         lab.fcall('normalizedToBitDepth', lab.fcall('bitDepthToNormalized', v, d), d),
                                         lab.fcall('bitDepthToNormalized', lab.fcall('normalizedToBitDepth', v, d), d),
                                         lab.fcall('bitDepthSize', d))))
                nm = 'depth %s, %s value' % (d, ty)
                ck.analysed(lab)
                if not ck.no_raise(nm + ' | no exception', r, rg) or r.v is None:
                    continue
                a = r.v.items
                g = dict(rg, n=(-5, 70000))
                ck.equal(nm + ' | to normalized', 'bitDepthToNormalized', a[0], as_float(v) / Const(f), r.facts, g)
                ck.equal(nm + ' | from normalized', 'normalizedToBitDepth', a[1], v * Const(f), r.facts, g)
                ck.equal(nm + ' | there and back', 'normalizedToBitDepth', a[2], v, r.facts, g)
                ck.equal(nm + ' | back and there', 'bitDepthToNormalized', a[3], v, r.facts, g)
                ck.equal(nm + ' | size', 'bitDepthSize', a[4], Const(f), r.facts, g)
            for fn, want in (('bitDepthIsInteger', f != 1.0), ('bitDepthIsFloatingPoint', f == 1.0)):
                r = lab.run(lambda: lab.callx('builtins.bool', lab.fcall(fn, d)))
                if ck.no_raise('depth %s | %s' % (d, fn), r):
                    ck.equal('depth %s | %s' % (d, fn), fn, r.v, Const(want))
            # constants of the code-value range, arrays and nodes
            for v in (0.0, 1.0, f, -1.0, .5):
                r = lab.run(lambda: lab.fcall('normalizedToBitDepth', lab.fcall('bitDepthToNormalized', v, d), d))
                ck.equal('depth %s | %r there and back' % (d, v), 'normalizedToBitDepth', r.v, Const(v))
            # depths as the nodes store them
            r = lab.run(lambda: (lambda n: Tup((lab.call(n, 'getInBitDepth'), lab.call(n, 'getOutBitDepth'))))(lab.new('Range', d, '32f')))
            if ck.no_raise('depth %s | node' % d, r) and r.v is not None:
                ck.equal('depth %s | node input depth' % d, 'ProcessNode.getInBitDepth', r.v.items[0], Const(d))
                ck.equal('depth %s | node output depth' % d, 'ProcessNode.getOutBitDepth', r.v.items[1], Const('32f'))
            # an empty range and the two-depth conversion use the same factors
            for e in DEPTHS:
                def th():
                    n = lab.new('Range', d, e, style='noClamp')
                    return lab.call(n, 'process', lab.list([x]))
                r = lab.run(th)
                if ck.no_raise('from %s to %s | no exception' % (d, e), r) and r.v is not None:
                    ck.equal('from %s to %s' % (d, e), 'Range.process', r.item(r.v, 0), x / Const(f) * Const(FACTOR[e]), r.facts, rg)
        ck.scenario('depth %s' % d, one)
    return ck.finish('All six depths, symbolic float and integer values, both directions and both compositions, sizes and classification; conversion between every pair of depths.', floor=60)


if __name__ == '__main__':
    main(run)
