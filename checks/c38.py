import functools, itertools
from common import *
from clfstatic import terms as T

STYLE = {'write1D': '1D', 'write3D': '3D', 'write1D3D1D': '1D_3D_1D'}


def run(tier):
    ck = Check('C38', tier, 'the value graph of a transform baked to a file and read back equals the transform at every grid point')
    lab = Lab()
    lut = lab.load(loader.ACES + '/lutFormats/__init__.py', 'lutFormats')
    I = lab.I
    jobs = []
    deep = tier != 'quick'

    def registry(m, *a, **k):
        return I.call(I.getattr(I.getattr(lut, 'Registry'), m), [wrap(x) for x in a], {n: wrap(v) for n, v in k.items()})

    def plist(kind):
        pl = lab.new('ProcessList')
        if kind == 'matrix':
            m = lab.new('Matrix', '16f', '16f', 'm', 'm')
            lab.call(m, 'setMatrix', lab.list([3, 4, 3]), lab.list([sym('k_%d' % i, 'float') for i in range(12)]))
            lab.call(pl, 'addProcess', m)
        elif kind == 'two nodes':
            for t in 'kl':
                m = lab.new('Matrix', '16f', '16f', t, t)
                lab.call(m, 'setMatrix', lab.list([3, 3, 3]), lab.list([sym('%s_%d' % (t, i), 'float') if i // 3 != i % 3 else Const(0.5 + i) for i in range(9)]))
                lab.call(pl, 'addProcess', m)
        elif kind == 'gamma':
            g = lab.new('Gamma', '32f', '32f', 'g', 'g', 'basicFwd')
            lab.call(g, 'setGamma', sym('gam', 'float'))
            lab.call(pl, 'addProcess', g)
        return pl

    def grid(n, lo, hi):
        return [lo + (hi - lo) * i / (n - 1.0) for i in range(n)]

    def job(ext, cap, res, lo, hi, kind, shaper=None, nodes=False):
        nm = '%s to .%s, %s entries from %s to %s, %s%s' % (cap[5:], ext, res, lo, hi, kind, '' if shaper is None else ', shaper %s' % (shaper,))
        path = '/scratch/x.' + ext
        con = 'Registry.write'
        rg = {'gam': (.6, 2.5)}

        def go():
            def th():
                pl = plist(kind)
                k = dict(inputMin=lo, inputMax=hi)
                if cap == 'write1D':
                    k['lutResolution1d'] = res
                elif cap == 'write3D':
                    k['lutResolution3d'] = res
                else:
                    k['lutResolution1d3d1d'] = lab.list(list(res))
                    k['shaperIn'] = lab.list([shaper[0], lo, hi])
                    k['shaperOut'] = lab.list([NONE, 0.0, 1.0])
                registry('write', pl, path, STYLE[cap], **k)
                if ext == 'clf':
                    q = lab.new('ProcessList', path)
                else:
                    q = registry('read', path)
                out = []
                if cap == 'write1D':
                    pts = [(v, v, v) for v in grid(res, lo, hi)]
                elif cap == 'write3D':
                    pts = list(itertools.product(grid(res, lo, hi), repeat=3))
                else:
                    g = grid(res[1], lo, hi)
                    pts = list(itertools.product(g, repeat=3))
                if not deep and len(pts) > 27:
                    pts = pts[::len(pts) // 27]
                for p in pts:
                    out.append(Tup((lab.list(list(p)), lab.call(pl, 'process', lab.list(list(p))), lab.call(q, 'process', lab.list(list(p))))))
                return lab.list(out)
            r = lab.run(th, [compare('gt', sym('gam', 'float'), Const(0.0))])
            ck.analysed(lab)
            if not ck.no_raise(nm + ' | no exception', r, rg, construct=con) or r.v is None:
                return
            if r.unmod:
                return ck.unknown(nm, 'unmodelled: %s' % (r.unmod[:2],))
            for j in range(r.length(r.v).v):
                p, a, b = r.item(r.v, j).items
                shown = ' '.join(short(r.item(p, c), 8) for c in range(3))
                for c in range(3):
                    ck.equal('%s | at %s, channel %d' % (nm, shown, c), con, r.item(b, c), r.item(a, c), r.facts, rg)
        jobs.append(functools.partial(ck.scenario, nm, go))
    for n in (2, 3, 5) if not deep else (2, 3, 5, 9, 17):
        for lo, hi in ((0.0, 1.0), (-0.5, 1.5), (0.25, 8.25)):
            for kind in ('matrix', 'gamma'):
                if kind == 'gamma' and (lo < 0 or n == 3):
                    continue
                for ext in ('spi1d', 'csp'):
                    job(ext, 'write1D', n, lo, hi, kind)
    for n in (2, 3) if not deep else (2, 3, 5):
        for ext in ('spi3d', 'csp'):
            for lo, hi in ((0.0, 1.0), (-0.5, 1.5)) if ext == 'csp' else ((0.0, 1.0),):
                job(ext, 'write3D', n, lo, hi, 'two nodes')
    for ext in ('csp', 'clf'):
        for res in ((3, 2, 2), (5, 3, 2)):
            for lo, hi in ((0.0, 1.0), (-0.5, 1.5)):
                job(ext, 'write1D3D1D', res, lo, hi, 'two nodes', ('linear',))
    ck.parallel(jobs)
    return ck.finish('Every writable and readable format, 1D, 3D and shaped, over several ranges and sizes: written through the registry, read back, evaluated at the grid points.',
                     ['numbers printed with at least six decimals count as exact', 'grid points are exact binary fractions'], floor=300)


if __name__ == '__main__':
    main(run)
