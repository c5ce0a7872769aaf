import functools, struct
from common import *
from clfstatic import ext as X, terms as T
from fractions import Fraction

M.EXACT32.append(True)          # rounding to single precision is part of what is decided here

# encoding -> (bits of the float, float -> uint, uint -> float, dtype)
ENC = {'integer16bit': 16, 'hex16bit': 16, 'integer32bit': 32, 'hex32bit': 32, 'integer64bit': 64, 'hex64bit': 64}
TOU = {16: 'h2u', 32: 'f2u', 64: 'd2u'}
TOF = {16: 'u2h', 32: 'u2f', 64: 'u2d'}
DT = {16: 'f2', 32: 'f4', 64: 'f8'}
NP = {16: 'np.float16', 32: 'np.float32', 64: 'np.float64'}


def rounded(v, bits):
    v = wrap(v)
    return M.half_round(None, v) if bits == 16 else M.single_round(v) if bits == 32 else as_float(v)


def pattern(v, bits):
    return X.mk_cast(TOU[bits], rounded(v, bits))


def fine(rng):
    """doubles, singles and halves of all magnitudes"""
    k = rng.random()
    v = rng.uniform(-3, 3) if k < .5 else rng.uniform(-1, 1) * 2.0 ** rng.randint(-20, 15)
    if k > .8:
        v = struct.unpack('<f', struct.pack('<f', v))[0]
    return Fraction(v)


def exact(ck, name, construct, got, exp, facts=None):
    """identical values, to the last bit"""
    if got is None:
        return ck.fail(name, construct, 'no value')
    got, exp = wrap(got), wrap(exp)
    if got is exp:
        return ck.ok(name)
    if isinstance(got, Const) and isinstance(exp, Const):
        a, b = got.v, exp.v
        num = lambda v: isinstance(v, (int, float)) and not isinstance(v, bool)
        if num(a) and num(b) and ((a == b and str(float(a)) == str(float(b))) or (a != a and b != b)):
            return ck.ok(name)
        return ck.fail(name, construct, 'got %r, expected %r' % (a, b))
    if has_unk(got) or isinstance(got, (Ref, Tup)):
        return ck.unknown(name, short(got, 100))
    facts = facts or Q.Facts() if hasattr(Q, 'Facts') else facts
    names = {}
    for v in (got, exp):
        for o in free_ops(v):
            if o.op in ('rd', 'sym'):
                nm = o.args[0]
                names[nm if isinstance(nm, str) else nm.v] = fine if o.ty == 'float' else (lambda r: Fraction(r.randint(0, 64511)))
    n = 0
    for E in Q.valuations((got, exp), facts, names, 200, 5):
        try:
            x, y = Q.ev(got, E), Q.ev(exp, E)
        except Q.Skip:
            continue
        n += 1
        if x != y:
            return ck.fail(name, construct, '%s: got %s, expected %s' % (Q.describe(E), '%.20g' % float(x) if isinstance(x, (Fraction, float, int)) else x, '%.20g' % float(y) if isinstance(y, (Fraction, float, int)) else y))
    ck.unknown(name, 'equal at %d points but not identical: %s / %s' % (n, short(got, 80), short(exp, 80)))


SPECIAL = {16: (0.0, -0.0, 1.0, -1.5, 65504.0, -65504.0, 2.0 ** -24, -2.0 ** -24, 2.0 ** -14, float('inf'), float('-inf'), float('nan')),
           32: (0.0, -0.0, 0.10000000149011612, -1.5, 3.4028234663852886e38, 2.0 ** -149, -2.0 ** -126, float('inf'), float('-inf'), float('nan'), 16777216.0, 16777215.0),
           64: (0.0, -0.0, 0.1, -1.5, 1.7976931348623157e308, 5e-324, -2.2250738585072014e-308, float('inf'), float('-inf'), float('nan'), 1 / 3., 2.0 ** 53 + 2)}


def run(tier):
    ck = Check('C02', tier, 'term identity of decoded and encoded values through the bit casts, at the width the encoding names')
    lab = Lab()
    jobs = []
    deep = tier != 'quick'
    lab.cls('Array')

    # ---- the conversion functions are inverse to each other at their width
    pairs = {16: [('halfToUInt16', 'uint16ToHalf')], 32: [('float32ToUInt32', 'uint32ToFloat32')], 64: [('doubleToUInt64', 'uint64ToDouble')]}
    hexes = {16: ('halfToHex', 'hexToHalf'), 32: ('float32ToHex', 'hexToFloat32'), 64: ('doubleToHex', 'hexToDouble')}

    def conv(bits):
        x = sym('x')
        u = sym('u', 'int', lo=0, hi=2 ** bits - 1)
        fu = [compare('le', Const(0), u), compare('le', u, Const(2 ** bits - 1))]
        for enc, dec in pairs[bits]:
            r = lab.run(lambda: Tup((lab.fcall(enc, x), lab.fcall(dec, lab.fcall(enc, x)), lab.fcall(enc, lab.fcall(dec, u)), lab.fcall(dec, u))), fu)
            ck.analysed(lab)
            nm = '%d-bit integer conversion' % bits
            if ck.no_raise(nm + ' | no exception', r) and r.v is not None:
                exact(ck, nm + ' | pattern of a float', enc, r.v.items[0], pattern(x, bits), r.facts)
                exact(ck, nm + ' | float and back', dec, r.v.items[1], rounded(x, bits), r.facts)
                exact(ck, nm + ' | integer and back', enc, r.v.items[2], u, r.facts)
                exact(ck, nm + ' | float of a pattern', dec, r.v.items[3], X.mk_cast(TOF[bits], u), r.facts)
            for v in SPECIAL[bits]:
                r = lab.run(lambda: lab.fcall(dec, lab.fcall(enc, v)))
                if ck.no_raise('%s | %r' % (nm, v), r):
                    exact(ck, '%s | %r restored' % (nm, v), dec, r.v, Const(v))
            for w in (0, 1, 2 ** (bits - 1), 2 ** bits - 1 if bits == 0 else 2 ** (bits - 1) + 1):
                r = lab.run(lambda: lab.fcall(enc, lab.fcall(dec, w)))
                if ck.no_raise('%s | %d' % (nm, w), r):
                    exact(ck, '%s | %d restored' % (nm, w), enc, r.v, Const(w))
        enc, dec = hexes[bits]
        r = lab.run(lambda: lab.fcall(dec, lab.fcall(enc, x)))
        nm = '%d-bit hexadecimal conversion' % bits
        if ck.no_raise(nm + ' | no exception', r):
            exact(ck, nm + ' | float and back', dec, r.v, rounded(x, bits), r.facts)
        for v in SPECIAL[bits]:
            r = lab.run(lambda: Tup((lab.fcall(enc, v), lab.fcall(dec, lab.fcall(enc, v)))))
            if ck.no_raise('%s | %r' % (nm, v), r) and r.v is not None:
                exact(ck, '%s | %r restored' % (nm, v), dec, r.v.items[1], Const(v))
                if v == v:
                    want = struct.pack('>' + {16: 'e', 32: 'f', 64: 'd'}[bits], v).hex()
                    t = r.v.items[0]
                    if isinstance(t, Const):
                        (ck.ok if t.v.lower() == want else functools.partial(lambda n: ck.fail(n, enc, 'text %r, expected %r' % (t.v, want))))('%s | text of %r' % (nm, v))
                    else:
                        ck.unknown('%s | text of %r' % (nm, v), short(t, 60))
    for b in (16, 32, 64):
        jobs.append(functools.partial(ck.scenario, 'conversions %d' % b, functools.partial(conv, b)))

    # ---- arrays
    def array(enc, bits, dims, src, integers, raw, special=False):
        n = 1
        for d in dims:
            n *= d
        nm = 'array %s %s from %s%s%s%s' % (enc or 'raw halfs', 'x'.join(map(str, dims)), src, ', integer depth' if integers else '', ', raw halfs' if raw else '', ', special values' if special else '')

        def value(i):
            if special:
                return Const(SPECIAL[bits][i % len(SPECIAL[bits])])
            return sym('t%d' % i, 'float')

        def go():
            def th():
                vals = lab.list([value(i) for i in range(n)])
                if src != 'list':
                    vals = lab.callx('np.array', vals, Op('ext', (src,), 'ext'))
                root = lab.callx('etree.Element', 'root')
                a = lab.new('Array', lab.list(dims), vals, integers, raw, enc or 'string')
                lab.call(a, 'write', root)
                e = lab.I.getitem(root, Const(0))
                b = lab.new('Array', rawHalfs=raw)
                lab.call(b, 'read', e)
                return lab.list([lab.call(b, 'getValues'), lab.call(b, 'getFloatEncoding'), e, lab.I.getattr(e, 'text'), lab.call(lab.I.getattr(e, 'text'), 'split')])
            r = lab.run(th)
            ck.analysed(lab)
            if not ck.no_raise(nm + ' | no exception', r) or r.v is None:
                return
            if r.unmod:
                return ck.unknown(nm, 'unmodelled %s' % (r.unmod[:1],))
            vals, fe, e = r.item(r.v, 0), r.item(r.v, 1), r.item(r.v, 2)
            if enc:
                att = r.do(lambda: lab.call(e, 'get', 'floatEncoding'))
                ck.equal(nm + ' | encoding recorded', 'Array.write', att, Const(enc))
                ck.equal(nm + ' | encoding restored', 'Array.read', fe, Const(enc))
            ck.equal(nm + ' | count', 'Array.read', r.length(vals), Const(n))
            h = r.obj(vals)
            if h.kind == 'arr':
                dt = h.meta[-1]
                if dt in DT.values():
                    w = {v: k for k, v in DT.items()}[dt]
                    (ck.ok if w >= bits else (lambda q: ck.fail(q, 'Array.read', 'stored as %d-bit floats' % w)))(nm + ' | stored width')
                else:
                    ck.fail(nm + ' | stored width', 'Array.read', 'stored as %s' % dt)
            for i in range(n):
                v = value(i)
                if src != 'list':
                    v = rounded(v, {v: k for k, v in NP.items()}[src])
                exact(ck, '%s | value %d' % (nm, i), 'Array.read', r.item(vals, i), rounded(v, bits), r.facts)
            # the text holds the bit pattern
            toks = r.item(r.v, 4)
            for i in range(min(n, 3) if not special else 0):
                v = value(i)
                if src != 'list':
                    v = rounded(v, {v: k for k, v in NP.items()}[src])
                if enc and enc.startswith('hex'):
                    fm = {16: '>H', 32: '>I', 64: '>Q'}[bits]
                    t = r.do(lambda: lab.I.getitem(lab.callx('struct.unpack', fm, lab.call(lab.I.getitem(toks, Const(i)), 'decode', 'hex')), Const(0)))
                else:
                    t = r.do(lambda: lab.callx('builtins.int', lab.I.getitem(toks, Const(i))))
                exact(ck, '%s | text %d' % (nm, i), 'Array.write', t, pattern(v, bits), r.facts)
        return functools.partial(ck.scenario, nm, go)
    for enc, bits in sorted(ENC.items()):
        for dims in ([3, 1], [2, 3], [2, 1, 2, 3], [3, 4, 3]):
            n = dims[0] * dims[1] if len(dims) != 4 else 12
            d = dims if len(dims) != 3 else dims[:2]
            for src in ('list', NP[bits], 'np.float64', 'np.float32'):
                if not deep and (len(dims) + len(src) + bits) % 3 == 1 and dims != [3, 1]:
                    continue
                jobs.append(array(enc, bits, d, src, False, False))
        jobs.append(array(enc, bits, [3, 1], 'list', True, False))
        for src in ('list', NP[bits]):
            jobs.append(array(enc, bits, [len(SPECIAL[bits]), 1], src, False, False, True))
    for src in ('list', 'np.float16', 'np.float32'):
        for integers in (False, True):
            jobs.append(array('', 16, [4, 1], src, integers, True))
            jobs.append(array('', 16, [2, 3], src, integers, True))
        jobs.append(array('integer16bit', 16, [4, 1], src, False, True))
    jobs.append(array('', 16, [len(SPECIAL[16]), 1], 'list', False, True, True))

    # ---- nodes
    def node(cls, enc, bits, raw=''):
        nm = '%s with %s' % (cls, enc if not raw else 'raw halfs')
        n = {'LUT1D': 6, 'LUT3D': 24, 'Matrix': 12}[cls]

        def go():
            def th():
                vals = lab.list([sym('t%d' % i, 'float') for i in range(n)])
                if cls == 'LUT1D':
                    a = lab.new('LUT1D', '16f', '16f', 'i', 'n', 'linear', raw)
                    lab.call(a, 'setArray', 3, vals, enc)
                elif cls == 'LUT3D':
                    a = lab.new('LUT3D', '16f', '16f', 'i', 'n')
                    lab.call(a, 'setArray', lab.list([2, 2, 2]), vals, enc)
                else:
                    a = lab.new('Matrix', '16f', '16f', 'i', 'n')
                    lab.call(a, 'setMatrix', lab.list([3, 4, 3]), vals, enc)
                pl = lab.new('ProcessList')
                lab.call(pl, 'addProcess', a)
                lab.call(pl, 'writeFile', '/scratch/n.clf')
                q = lab.new('ProcessList', '/scratch/n.clf')
                m = lab.I.getitem(lab.call(q, 'getProcesses'), Const(0))
                return lab.call(lab.I.getattr(m, '_array'), 'getValues')
            r = lab.run(th)
            ck.analysed(lab)
            if not ck.no_raise(nm + ' | no exception', r) or r.v is None:
                return
            ck.equal(nm + ' | count', cls + '.read', r.length(r.v), Const(n))
            for i in range(n):
                exact(ck, '%s | value %d' % (nm, i), cls + '.read', r.item(r.v, i), rounded(sym('t%d' % i, 'float'), bits), r.facts)
        return functools.partial(ck.scenario, nm, go)
    for enc, bits in sorted(ENC.items()):
        for cls in ('LUT1D', 'LUT3D', 'Matrix'):
            jobs.append(node(cls, enc, bits))
    jobs.append(node('LUT1D', 'string', 16, True))
    ck.parallel(jobs)
    return ck.finish('All six encodings and raw halfs; arrays of several shapes from lists and from arrays of each width, with symbolic values and with the special values of each width; the conversion functions in both directions; 1D, 3D and matrix nodes through files.',
                     ['values given to a narrower encoding are rounded to its width when written', 'NaN payloads are not distinguished'], floor=150)


if __name__ == '__main__':
    main(run)
