import functools
from common import *


def run(tier):
    ck = Check('C07', tier, 'value graph of Matrix.process equals coefficient rows times pixel plus offset column')
    lab = Lab()
    jobs = []

    def spec(rows, cols, ty):
        def f(px, c):
            if c >= rows:
                return px(c)
            t = Const(0.0)
            for j in range(rows):
                t = t + as_float(M.rd('m', Const(c * cols + j), ty)) * px(j)
            if cols == rows + 1:
                t = t + as_float(M.rd('m', Const(c * cols + cols - 1), ty))
            return t
        return f
    shapes = [(3, 3, 3), (3, 3), (3, 4, 3), (3, 4), (4, 4, 4), (4, 5, 4), (1, 1), (1, 2), (2, 3, 2), (2, 2)]
    if tier != 'quick':
        shapes += [(5, 5, 5), (5, 6, 5), (6, 6), (6, 7, 6)]
    for dims in shapes:
        rows, cols = dims[0], dims[1]
        for ind, outd in ([('16f', '16f'), ('8i', '10i')] if tier == 'quick' else [(a, b) for a in DEPTHS for b in DEPTHS]):
            for ty in ('float', 'int'):
                def mk(dims=dims, ind=ind, outd=outd, ty=ty):
                    m = lab.new('Matrix', ind, outd, 'id', 'nm')
                    lab.call(m, 'setMatrix', lab.list(dims), lab.nlist('m', dims[0] * dims[1], ty))
                    return m
                lay = [Layout(rows, 1, True), Layout(rows, 2), Layout(rows + 1, 2), Layout(rows, N), Layout(rows + 1, N)]
                if ty == 'int' or outd != '16f':
                    lay = [Layout(rows + 1, 2)]
                if rows < 3:
                    lay.append(Layout(3, N))
                    lay.append(Layout(4, 2))
                jobs.append(functools.partial(check_pixels, ck, lab, 'Matrix %s %s to %s, %s coefficients' % ('x'.join(map(str, dims)), ind, outd, ty), 'Matrix.process', mk, spec(rows, cols, ty), lay, {'x': (-2, 3, -5000, 70000), 'm': (-2, 3, -900, 900)}))
                if rows <= 4 and (ty == 'float' or tier != 'quick'):
                    jobs.append(functools.partial(check_pixels, ck, lab, 'read back: Matrix %s %s to %s, %s coefficients' % ('x'.join(map(str, dims)), ind, outd, ty), 'Matrix.process', reread(lab, mk), spec(rows, cols, ty), [Layout(4, 1)], {'x': (-2, 3, -5000, 70000), 'm': (-2, 3, -900, 900)}))

    # the caller's buffer is an aliasing view: results of a row must not feed the next row (covered by the equality above)
    ck.parallel(jobs)
    return ck.finish('Every row count and offset-column variant with symbolic coefficients and pixels; fixed and symbolic pixel counts, extra channels.', floor=60)


if __name__ == '__main__':
    main(run)
