import itertools
import functools


def itertools__islice(it, *a):
    its = list(it)
    if len(a) == 1:
        return its[:a[0]]
    if len(a) == 2:
        return its[a[0]:a[1]]
    return its[a[0]:a[1]:a[2]]


def itertools__imap(f, *seqs):
    return [f(*t) for t in zip(*seqs)]


def itertools__starmap(f, seq):
    return [f(*t) for t in seq]


def itertools__ifilter(f, seq):
    return [x for x in seq if f(x)]


def itertools__repeat(x, n):
    return [x for i in range(n)]


def itertools__izip_longest(*seqs, **kw):
    fill = kw.get('fillvalue')
    lists = [list(s) for s in seqs]
    n = max([len(l) for l in lists])
    return zip(*[l + [fill] * (n - len(l)) for l in lists])


def itertools__takewhile(f, seq):
    out = []
    for x in seq:
        if not f(x):
            break
        out.append(x)
    return out


def itertools__dropwhile(f, seq):
    out = []
    on = False
    for x in seq:
        if on or not f(x):
            on = True
            out.append(x)
    return out


def itertools__permutations(seq, *r):
    items = list(seq)
    if not items:
        return [()]
    out = []
    for i in range(len(items)):
        for t in itertools__permutations(items[:i] + items[i + 1:]):
            out.append((items[i],) + tuple(t))
    return out


def operator__sub(a, b):
    return a - b


def operator__truediv(a, b):
    return a * 1.0 / b


def operator__div(a, b):
    return a / b


def operator__floordiv(a, b):
    return a // b


def operator__mod(a, b):
    return a % b


def operator__neg(a):
    return -a


def operator__pow(a, b):
    return a ** b


def operator__lt(a, b):
    return a < b


def operator__le(a, b):
    return a <= b


def operator__gt(a, b):
    return a > b


def operator__ge(a, b):
    return a >= b


def operator__eq(a, b):
    return a == b


def operator__ne(a, b):
    return a != b


def operator__not_(a):
    return not a


def operator__getitem(a, b):
    return a[b]


def operator__setitem(a, b, c):
    a[b] = c


def operator__contains(a, b):
    return b in a


def operator__itemgetter(*ks):
    if len(ks) == 1:
        k = ks[0]
        return lambda x: x[k]
    return lambda x: tuple([x[k] for k in ks])


def operator__attrgetter(n):
    return lambda x: getattr(x, n)


def operator__methodcaller(n, *a):
    return lambda x: getattr(x, n)(*a)


def functools__wraps(f):
    return lambda g: g


class contextlib__closing(object):
    def __init__(self, thing):
        self.thing = thing

    def __enter__(self):
        return self.thing

    def __exit__(self, *a):
        self.thing.close()


def bisect__bisect_left(a, x, lo=0, hi=None):
    if hi is None:
        hi = len(a)
    n = lo
    for i in range(lo, hi):
        if a[i] < x:
            n = n + 1
    return n


def bisect__bisect_right(a, x, lo=0, hi=None):
    if hi is None:
        hi = len(a)
    n = lo
    for i in range(lo, hi):
        if not (x < a[i]):
            n = n + 1
    return n


def bisect__bisect(a, x, lo=0, hi=None):
    return bisect__bisect_right(a, x, lo, hi)


def np__searchsorted(a, x, side='left'):
    if side == 'left':
        return bisect__bisect_left(a, x)
    return bisect__bisect_right(a, x)


def np__interp(x, xp, fp):
    n = len(xp)
    if x != x:
        return x
    if x <= xp[0]:
        return fp[0]
    if x >= xp[n - 1]:
        return fp[n - 1]
    r = fp[n - 1]
    for j in range(n - 1):
        i = n - 2 - j
        if x < xp[i + 1]:
            r = fp[i] + (x - xp[i]) * (fp[i + 1] - fp[i]) / (xp[i + 1] - xp[i])
    return r


class collections__defaultdict(object):
    def __init__(self, f):
        self.f = f
        self.d = {}

    def __getitem__(self, k):
        if k not in self.d:
            self.d[k] = self.f()
        return self.d[k]

    def __setitem__(self, k, v):
        self.d[k] = v

    def __contains__(self, k):
        return k in self.d

    def __iter__(self):
        return iter(self.d.keys())

    def __len__(self):
        return len(self.d)

    def keys(self):
        return self.d.keys()

    def values(self):
        return self.d.values()

    def items(self):
        return self.d.items()

    def get(self, k, v=None):
        return self.d.get(k, v)


def operator__iadd(a, b):
    a += b
    return a


def operator__and_(a, b):
    return a & b


def operator__or_(a, b):
    return a | b


def operator__lshift(a, b):
    return a << b


def operator__rshift(a, b):
    return a >> b
