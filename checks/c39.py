import functools, itertools
from common import *
import files
from clfstatic import terms as T


def S(n):
    return sym(n, 'float')


def run(tier):
    ck = Check('C39', tier, 'the value graph of forward reading followed by inverse reading, at the grid points of the table, is the grid point')
    lab = Lab()
    lut = lab.load(loader.ACES + '/lutFormats/__init__.py', 'lutFormats')
    I = lab.I
    jobs = []
    deep = tier != 'quick'
    F4 = Op('ext', ('np.float32',), 'ext')

    def read(inverse, maps=True, half=True):
        return I.call(I.getattr(I.getattr(lut, 'Registry'), 'read'), [wrap('/scratch/a.spi1d'), wrap(inverse)], {'inversesUseIndexMaps': wrap(maps), 'inversesUseHalfDomain': wrap(half)})

    def store(cols, lo, hi):
        n, ch = len(cols[0]), len(cols)
        P = ['Version 1\nFrom %r %r\nLength %d\nComponents %d\n{\n' % (lo, hi, n, ch)]
        for i in range(n):
            for c in range(ch):
                P += [cols[c][i], ' ' if c < ch - 1 else '\n']
        files.write_file(lab, '/scratch/a.spi1d', P + ['}\n'])

    def px(v, more=0):
        return lab.callx('np.array', lab.list(list(v) + [S('alpha')] * more), F4)

    def symbolic(n, ch):
        cols = [[S('t_%d_%d' % (i, c)) for i in range(n)] for c in range(ch)]
        fs = [compare('lt', a, b) for col in cols for a, b in zip(col, col[1:])]
        return cols, fs, {'t_%d_%d' % (i, c): (-.3 + i * 1.5 / n, -.3 + (i + .8) * 1.5 / n) for i in range(n) for c in range(ch)}

    def job(nm, cols, fs, rng, lo, hi, how, points, more=0):
        ch, n = len(cols), len(cols[0])
        maps, half = how == 'index map', how == 'half domain'

        def go():
            con = {'index map': 'generateLUT1DInverseIndexMap', 'half domain': 'generateLUT1DInverseHalfDomain', 'resampled': 'generateLUT1DInverseResampled'}[how]

            def th():
                store(cols, lo, hi)
                f, g = read(False), read(True, maps, half)
                out = []
                for p in points:
                    x = [lo + (hi - lo) * i / (n - 1.0) for i in p]
                    a = lab.call(f, 'process', px(x, more), 3 + more)
                    out.append(Tup((lab.call(g, 'process', a, 3 + more), lab.list(x))))
                    # and the other way round, from the entries of the table
                    if how == 'index map':
                        d = [wrap(cols[c % ch][p[c]]) for c in range(3)]
                        out.append(Tup((lab.call(f, 'process', lab.call(g, 'process', px(d, more), 3 + more), 3 + more), lab.list(d))))
                return lab.list(out)
            r = lab.run(th, fs)
            ck.analysed(lab)
            if not ck.no_raise(nm + ' | no exception', r, rng, construct=con) or r.v is None:
                return
            if r.unmod:
                return ck.unknown(nm, 'unmodelled: %s' % (r.unmod[:2],))
            for j in range(r.length(r.v).v):
                y, x = r.item(r.v, j).items
                w = 'entries %s' % (points[j // (2 if how == 'index map' else 1)],) + (' from the table' if how == 'index map' and j % 2 else '')
                for c in range(3 + more):
                    e = S('alpha') if c == 3 else r.item(x, c)
                    ck.equal('%s | %s, channel %d' % (nm, w, c), con, r.item(y, c), e, r.facts, rng)
        jobs.append(functools.partial(ck.scenario, nm, go))
    RANGES = ((0.0, 1.0), (-0.5, 1.5), (0.25, 8.25), (0.0, 2.0), (-1.0, 1.0), (0.5, 1.0))
    for n in (2, 3, 5) if not deep else (2, 3, 5, 9):
        for ch in (1, 3):
            for k, (lo, hi) in enumerate(RANGES):
                cols, fs, rng = symbolic(n, ch)
                pts = [tuple((i + s * c) % n for c in range(3)) for i in range(n) for s in (0, 1)]
                job('index map, %d entries, %d channels, %s to %s' % (n, ch, lo, hi), cols, fs, rng, lo, hi, 'index map', pts, int((lo, hi) == (0.0, 1.0)))
    # numbers that are exact halfs, inside the range
    TAB = {2: [0.125, 0.75], 3: [-0.25, 0.5, 2.0], 5: [0.0, 0.0625, 0.25, 0.5625, 1.0]}
    for n in (2, 3, 5):
        for ch in (1, 3):
            for lo, hi in RANGES[:4]:
                cols = [[v + c * 0.125 for v in TAB[n]] for c in range(ch)]
                pts = [tuple((i + c) % n for c in range(3)) for i in range(n)]
                job('half domain, %d entries, %d channels, %s to %s' % (n, ch, lo, hi), cols, [], {}, lo, hi, 'half domain', pts)
                job('resampled, %d entries, %d channels, %s to %s' % (n, ch, lo, hi), [cols[0]] * ch, [], {}, lo, hi, 'resampled', [(0, 0, 0), (n - 1, n - 1, n - 1), (0, n - 1, 0)])
    ck.parallel(jobs)
    return ck.finish('spi1d tables with strictly increasing columns read forward and inverse, by index map (symbolic entries, both ways round), by half domain (entries that are halfs) and resampled (first and last entry), over several ranges.',
                     ['columns are strictly increasing', 'sizes and ranges are enumerated'], floor=300)


if __name__ == '__main__':
    main(run)
