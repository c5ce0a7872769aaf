"""Fixtures shared by the property checks."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from clfstatic.check import *
from clfstatic import equiv as Q, models as M, loader
from clfstatic.terms import *

DEPTHS = ['8i', '10i', '12i', '16i', '16f', '32f']
FACTOR = {'8i': 255.0, '10i': 1023.0, '12i': 4095.0, '16i': 65535.0, '16f': 1.0, '32f': 1.0}
RGB = 'rgb'


def clamp01(v):
    return ite(compare('lt', v, Const(0.0)), Const(0.0), ite(compare('gt', v, Const(1.0)), Const(1.0), v))


def tmax(a, b):
    return ite(compare('lt', a, b), b, a)


def tmin(a, b):
    return ite(compare('lt', b, a), b, a)


def xs(i, name='x'):
    return M.rd(name, wrap(i))


N = sym('N', 'int', lo=1)
K = sym('k', 'int', lo=0)


def norm_in(v, d):
    return v if FACTOR[d] == 1.0 else v / Const(FACTOR[d])


def norm_out(v, d):
    return v if FACTOR[d] == 1.0 else v * Const(FACTOR[d])


def xrange_of(d):
    f = FACTOR[d]
    return (-0.3 * f, 1.4 * f, -4 * f, 70000 if d[-1] == 'f' else 9 * f)


class Layout(object):
    """an input buffer shape: stride, pixel count (number or symbol), how stride is passed"""

    def __init__(self, stride, pixels, implicit=False):
        self.stride, self.pixels, self.implicit = stride, pixels, implicit

    def __str__(self):
        return 'stride %s x %s px%s' % (self.stride, 'N' if isinstance(self.pixels, Val) else self.pixels, ' (implicit stride)' if self.implicit else '')

    def size(self):
        return wrap(self.pixels) * self.stride

    def probes(self):
        """(flat index, pixel base, channel, extra facts)"""
        out = []
        if isinstance(self.pixels, Val):
            fs = [K.ge(0), K.lt(self.pixels)]
            for c in range(self.stride):
                out.append((K * self.stride + c, K * self.stride, c, fs))
        else:
            for p in range(self.pixels):
                for c in range(self.stride):
                    out.append((Const(p * self.stride + c), Const(p * self.stride), c, []))
        return out


LAYOUTS = [Layout(3, 1, True), Layout(3, 2), Layout(4, 2), Layout(4, N)]
LAYOUTS_DEEP = LAYOUTS + [Layout(3, N), Layout(5, 2), Layout(5, N), Layout(4, 1, True), Layout(6, 3)]


def reread(lab, mk):
    """the node mk makes, written into a process list and read back"""
    def f():
        pl = lab.new('ProcessList')
        lab.call(pl, 'addProcess', mk())
        root = lab.call(lab.call(pl, 'write'), 'getroot')
        q = lab.new('ProcessList')
        lab.call(q, 'read', root)
        return lab.I.getitem(lab.call(q, 'getProcesses'), Const(0))
    return f


def check_pixels(ck, lab, name, construct, mk, spec, layouts, ranges=None, facts=(), allow=(), dt='f4', n=300):
    """node = mk(); node.process(buffer, stride) must equal spec(read, channel) for every element.
    spec(px, c): px(i) is channel i of the same pixel."""
    for L in layouts:
        nm = '%s | %s' % (name, L)

        def go():
            def thunk():
                node = mk()
                a = lab.arr('x', L.size(), dt)
                if L.implicit:
                    return lab.call(node, 'process', a)
                return lab.call(node, 'process', a, L.stride)
            fs = list(facts)
            if isinstance(L.pixels, Val):
                fs.append(L.pixels.ge(1))
            r = lab.run(thunk, fs)
            ck.analysed(lab)
            if not ck.no_raise(nm + ' | no exception', r, ranges, allow) and r.v is None:
                return
            ln = r.length(r.v)
            if ln is None:
                ck.fail(nm + ' | result', construct, 'result %s is not a sequence' % short(r.v, 80))
                return
            ck.equal(nm + ' | output length', construct, ln, L.size(), r.facts, ranges)
            for idx, base, c, ef in L.probes():
                f = r.facts
                for e in ef:
                    f = f.plus(e)
                rr = Result(lab, r.v, r.st.fork(), [], [], [], {})
                rr.st.facts = f
                got = rr.item(r.v, idx)
                exp = spec(lambda i: xs(base + i), c)
                if exp is None:
                    continue
                ck.equal('%s | channel %d of pixel %s' % (nm, c, short(base / L.stride if not isinstance(base, Const) else Const(base.v // L.stride), 20)),
                         construct, got, exp, f, ranges, n)
        ck.scenario(nm, go)


def main(run):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a = ap.parse_args()
    try:
        rc = run(a.tier)
    except AnchorMissing as e:
        print('ANALYSIS-BROKEN: anchor missing: %s' % e)
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
