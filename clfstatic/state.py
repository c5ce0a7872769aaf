"""Abstract heap, program states, fork and merge."""
from .terms import *
from .logic import Facts
from fractions import Fraction


class NeedSplit(Exception):
    """the value of this condition has to be known to interpret the statement:
    the statement is re-interpreted under c and under not c, results merged"""

    def __init__(self, c):
        self.c = c


class Dead(Exception):
    """no normal continuation (an exception was raised in the program)"""


class Unsupported(Exception):
    pass


class HObj(object):
    __slots__ = ('kind', 'cls', 'd', 'items', 'meta')

    def __init__(self, kind, cls=None, d=None, items=None, meta=None):
        self.kind = kind
        self.cls = cls
        self.d = d
        self.items = items
        self.meta = meta

    def copy(self):
        return HObj(self.kind, self.cls,
                    dict(self.d) if self.d is not None else None,
                    list(self.items) if isinstance(self.items, list) else self.items,
                    self.meta)

    def __repr__(self):
        return '<%s %s %r %r %r>' % (self.kind, self.cls, self.d, self.items, self.meta)


class Store(object):
    """for all vars (sym Op, count Val): buf[idx] = val when cond"""
    __slots__ = ('vars', 'cond', 'idx', 'val')

    def __init__(self, vars, cond, idx, val):
        self.vars = vars
        self.cond = cond
        self.idx = idx
        self.val = val

    def __repr__(self):
        return 'Store(%r,%r,%r,%r)' % (self.vars, self.cond, self.idx, self.val)


class FBuf(object):
    """functional array: length, base, tuple of stores (later ones win)"""
    __slots__ = ('n', 'base', 'stores')

    def __init__(self, n, base, stores=()):
        self.n = n
        self.base = base        # ('fill', v) | ('name', str, ty) | ('alt', cond, FBuf, FBuf) | ('over', FBuf) | ('fn', callable, key)
        self.stores = tuple(stores)

    def __repr__(self):
        return 'FBuf(%r,%r,%r)' % (self.n, self.base, self.stores)


class State(object):
    __slots__ = ('heap', 'own', 'facts', 'frame')

    def __init__(self, heap, facts, frame):
        self.heap = heap
        self.own = set()
        self.facts = facts
        self.frame = frame

    def fork(self):
        s = State(dict(self.heap), self.facts, self.frame)
        self.own = set()
        return s

    def get(self, oid):
        o = self.heap.get(oid)
        if o is None:
            o = BASE.get(oid)
            if o is None:
                raise Unsupported('dangling reference %d' % oid)
        if o.kind == 'alt':
            c, a, b = o.meta
            r = self.facts.decide(c)
            if r is None:
                raise NeedSplit(c)
            o = a if r else b
            self.heap[oid] = o
            self.own.discard(oid)
            return self.get(oid)
        return o

    def peek(self, oid):
        o = self.heap.get(oid)
        return BASE.get(oid) if o is None else o

    def wr(self, oid):
        o = self.get(oid)
        if oid not in self.own:
            o = o.copy()
            self.heap[oid] = o
            self.own.add(oid)
        return o

    def alloc(self, o):
        oid = next_oid()
        self.heap[oid] = o
        self.own.add(oid)
        return Ref(oid)

    def assume(self, c):
        self.facts = self.facts.plus(c)


BASE = {}
_ctr = [0]


def next_oid():
    _ctr[0] += 1
    return _ctr[0]


def freeze(st):
    """move everything of st into the shared base heap"""
    for k, v in st.heap.items():
        BASE[k] = v
    st.heap = {}
    st.own = set()


def common_prefix(a, b):
    n = 0
    for x, y in zip(a, b):
        if x is not y:
            break
        n += 1
    return n


def select_cond(l1, l2):
    """condition that selects state 1 (given the merged states cover the merged guard)"""
    k = common_prefix(l1, l2)
    r1, r2 = l1[k:], l2[k:]
    if r1 and r2 and neg_cond(r1[0]) is r2[0]:
        c = r1[0]
    else:
        s2 = set(r2)
        c = None
        for x in r1:
            if neg_cond(x) in s2:
                c = x
                break
        if c is None:
            c = and_(*r1)
    a = tuple(x for x in r1 if x is not c)
    n = neg_cond(c)
    b = tuple(x for x in r2 if x is not n)
    lits = l1[:k]
    if a or b:
        if len(r1) == 1 and len(r2) == 1 and a == b:
            extra = ()
        else:
            e = or_(and_(*r1), and_(*r2))
            extra = (e,) if isinstance(e, Op) and len(free_ops(e)) < 60 else ()
            if e is TRUE:
                extra = ()
    else:
        extra = ()
    return c, tuple(lits) + extra


def merge_fbuf(c, a, b):
    if a is b:
        return a
    if a.n is b.n and a.base == b.base:
        k = 0
        while k < len(a.stores) and k < len(b.stores) and a.stores[k] is b.stores[k]:
            k += 1
        st = list(a.stores[:k])
        for s in a.stores[k:]:
            st.append(Store(s.vars, and_(c, s.cond), s.idx, s.val))
        nc = neg_cond(c)
        for s in b.stores[k:]:
            st.append(Store(s.vars, and_(nc, s.cond), s.idx, s.val))
        return FBuf(a.n, a.base, st)
    if a.n is b.n:
        return FBuf(a.n, ('alt', c, a, b))
    return None


def merge_obj(c, a, b):
    if a is b:
        return a
    if a is None or b is None:
        return a if a is not None else b      # only reachable from one side
    if a.kind == 'alt' or b.kind == 'alt' or a.kind != b.kind or a.cls is not b.cls or a.meta != b.meta:
        return HObj('alt', meta=(c, a, b))
    items = a.items
    if a.items is not b.items:
        if isinstance(a.items, FBuf) or isinstance(b.items, FBuf):
            if isinstance(a.items, FBuf) and isinstance(b.items, FBuf):
                items = merge_fbuf(c, a.items, b.items)
            else:
                items = None
            if items is None:
                return HObj('alt', meta=(c, a, b))
        else:
            if a.items is None or b.items is None or len(a.items) != len(b.items):
                return HObj('alt', meta=(c, a, b))
            items = [x if x is y else ite(c, x, y) for x, y in zip(a.items, b.items)]
    d = a.d
    if a.d is not b.d:
        d = {}
        for k, x in a.d.items():
            y = b.d.get(k, ABSENT)
            d[k] = x if x is y else ite(c, x, y)
        for k, y in b.d.items():
            if k not in d:
                d[k] = ite(c, ABSENT, y)
    return HObj(a.kind, a.cls, d, items, a.meta)


def merge_states(s1, s2):
    """join of two states that cover disjoint guards.  returns (cond, state)"""
    if s1 is None:
        return FALSE, s2
    if s2 is None:
        return TRUE, s1
    c, lits = select_cond(s1.facts.lits, s2.facts.lits)
    heap = {}
    h1, h2 = s1.heap, s2.heap
    for k, o in h1.items():
        p = h2.get(k)
        if p is None:
            p = BASE.get(k)
        heap[k] = o if o is p else merge_obj(c, o, p)
    for k, p in h2.items():
        if k not in h1:
            o = BASE.get(k)
            heap[k] = p if o is None else merge_obj(c, o, p)
    f = s1.facts if s1.facts.lits == lits else (s2.facts if s2.facts.lits == lits else Facts(lits))
    s = State(heap, f, s1.frame)
    return c, s


def mval(c, a, b):
    if a is b:
        return a
    return ite(c, a, b)
