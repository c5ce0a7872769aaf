"""Comparing object graphs between interpreted states."""
from common import *
from clfstatic.state import HObj, FBuf
from clfstatic import terms as T

# stored data of the library's classes; other private fields are caches and bookkeeping
DATA = {'_attributes', '_valueElements', '_elements', '_dynamicParams', '_values', '_params', '_array', '_indexMaps', '_dimensions', '_dimension',
        '_valuesAreIntegers', '_rawHalfs', '_floatEncoding', '_elementType', '_comment', '_children', '_nodeType', '_processes', '_useCachedProcess'}
CACHES = {'_interp1ds', '_processCached', '_strict', '_writeReferencedNodes', '_processList', '_resolvedPath'}


class Diff(object):
    """differences between the values graphs reachable from a (in state A) and b (in state B)"""

    def __init__(self, lab, facts, ranges=None, data=DATA, caches=CACHES, strict_types=False, n=60):
        self.lab, self.facts, self.ranges, self.data, self.caches, self.strict, self.n = lab, facts, ranges, data, caches, strict_types, n
        self.out = []           # (path, 'diff'|'unknown', message, field is known data)
        self.seen = set()
        self.compared = 0

    def add(self, path, kind, msg, known=True):
        self.out.append((path, kind, msg, known))

    def run(self, A, a, B, b, path='', known=True):
        lab = self.lab
        if not isinstance(a, Val) or not isinstance(b, Val):
            if a is not b:
                self.add(path, 'diff', '%s instead of %s' % (shown(b), shown(a)), known)
            return
        if isinstance(a, Unk) or isinstance(b, Unk):
            return self.add(path, 'unknown', 'value not analysed', known)
        if isinstance(a, Op) and a.op == 'ite' or isinstance(b, Op) and b.op == 'ite':
            ra, rb = refs_of(a), refs_of(b)
            if ra or rb:
                return self.add(path, 'unknown', 'conditional object', known)
        self.compared += 1
        if isinstance(a, Tup) and isinstance(b, Tup):
            if len(a.items) != len(b.items):
                return self.add(path, 'diff', '%d items instead of %d' % (len(b.items), len(a.items)), known)
            for i, (x, y) in enumerate(zip(a.items, b.items)):
                self.run(A, x, B, y, '%s[%d]' % (path, i), known)
            return
        if isinstance(a, Ref) and isinstance(b, Ref):
            k = (id(A), a.oid, id(B), b.oid)
            if k in self.seen:
                return
            self.seen.add(k)
            x, y = A.get(a.oid), B.get(b.oid)
            if x is y and a.oid == b.oid:
                # the very same record; its children still have to be compared in both states
                pass
            seq = ('list', 'arr')
            if x.kind in seq and y.kind in seq and (not self.strict or x.kind == y.kind):
                return self.sequence(A, a, x, B, b, y, path, known)
            if x.kind != y.kind:
                return self.add(path, 'diff', 'a %s instead of a %s' % (y.kind, x.kind), known)
            if x.kind == 'inst':
                if x.cls is not None and y.cls is not None and x.cls.oid != y.cls.oid:
                    return self.add(path, 'diff', 'an instance of %s instead of %s' % (B.get(y.cls.oid).meta.name, A.get(x.cls.oid).meta.name), known)
                for f in sorted(set(x.d) | set(y.d)):
                    if f in self.caches:
                        continue
                    kn = known and f in self.data
                    if f not in x.d or f not in y.d:
                        self.add('%s.%s' % (path, f), 'diff', 'field only %s' % ('before' if f in x.d else 'after'), kn)
                    else:
                        self.run(A, x.d[f], B, y.d[f], '%s.%s' % (path, f), kn)
                return
            if x.kind == 'dict':
                return self.mapping(A, x.d, B, y.d, path, known)
            if x.kind == 'elem':
                self.run(A, x.d['tag'], B, y.d['tag'], path + '<tag>', known)
                self.run(A, x.d['attrib'], B, y.d['attrib'], path + '<attributes>', known)
                ta, tb = [NONE if t is Const('') else t for t in (x.d['text'], y.d['text'])]
                self.run(A, ta, B, tb, path + '<text>', known)
                if len(x.items) != len(y.items):
                    return self.add(path, 'diff', 'child tags %s instead of %s' % ([shown(B.get(c.oid).d['tag']) for c in y.items], [shown(A.get(c.oid).d['tag']) for c in x.items]), known)
                for i, (p, q) in enumerate(zip(x.items, y.items)):
                    self.run(A, p, B, q, '%s/%d' % (path, i), known)
                return
            if x.kind in ('class', 'func', 'module', 'file', 'etree'):
                if a.oid != b.oid:
                    self.add(path, 'unknown', 'different %s objects' % x.kind, known)
                return
            return self.add(path, 'unknown', 'objects of kind %s' % x.kind, known)
        if isinstance(a, Ref) or isinstance(b, Ref):
            # a tuple and a list hold the same values
            ia, ib = self.items(A, a), self.items(B, b)
            if ia is not None and ib is not None and not self.strict and len(ia) == len(ib):
                for i, (x, y) in enumerate(zip(ia, ib)):
                    self.run(A, x, B, y, '%s[%d]' % (path, i), known)
                return
            return self.add(path, 'diff', '%s instead of %s' % (shown(b, B), shown(a, A)), known)
        self.scalar(a, b, path, known)

    def items(self, S, v):
        if isinstance(v, Tup):
            return list(v.items)
        if isinstance(v, Ref):
            h = S.get(v.oid)
            if h.kind == 'list' and isinstance(h.items, list):
                return h.items
        return None

    def scalar(self, a, b, path, known):
        if a is b:
            return
        ca, cb = isinstance(a, Const), isinstance(b, Const)
        if ca and cb:
            if isinstance(a.v, bool) != isinstance(b.v, bool) or isinstance(a.v, str) != isinstance(b.v, str) or (a.v is None) != (b.v is None):
                return self.add(path, 'diff', '%r instead of %r' % (b.v, a.v), known)
            if a.v == b.v or (a.v != a.v and b.v != b.v):
                return
        if ca and cb and isinstance(a.v, str) and isinstance(b.v, str) and '<' in path and same_numbers(a.v, b.v):
            return
        na, nb = is_num_like(a), is_num_like(b)
        if na and nb:
            s, w = Q.equal(b, a, self.facts, self.ranges, self.n)
            if s == 'refuted':
                self.add(path, 'diff', 'value changed: %s' % w, known)
            elif s != 'proved':
                self.add(path, 'unknown', 'values not compared: %s' % w, known)
            return
        if na != nb or (ca and cb):
            return self.add(path, 'diff', '%s instead of %s' % (shown(b), shown(a)), known)
        if T.ty_of(a) == 'str' and T.ty_of(b) == 'str':
            s = text_equal(a, b)
            if s is True:
                return
            return self.add(path, 'diff' if s is False else 'unknown', 'text %s instead of %s' % (shown(b), shown(a)), known)
        self.add(path, 'unknown', '%s against %s' % (shown(b), shown(a)), known)

    def mapping(self, A, x, B, y, path, known):
        for k in sorted(set(x) | set(y), key=lambda k: short(k, 60)):
            p = '%s[%s]' % (path, shown(k))
            if k not in x or x[k] is T.ABSENT or k not in y or y[k] is T.ABSENT:
                pa, pb = k in x and x[k] is not T.ABSENT, k in y and y[k] is not T.ABSENT
                if pa != pb:
                    self.add(p, 'diff', 'entry %s' % ('lost' if pa else 'added, value %s' % shown(y[k])), known)
                continue
            self.run(A, x[k], B, y[k], p, known)

    def sequence(self, A, a, x, B, b, y, path, known):
        ra, rb = Result(self.lab, None, A, [], [], [], {}), Result(self.lab, None, B, [], [], [], {})
        la, lb = ra.length(a), rb.length(b)
        if la is None or lb is None:
            return self.add(path, 'unknown', 'length not analysed', known)
        if la is not lb:
            s, w = Q.equal(lb, la, self.facts, self.ranges, self.n)
            if s == 'refuted':
                return self.add(path, 'diff', 'length %s instead of %s' % (shown(lb), shown(la)), known)
            if s != 'proved':
                return self.add(path, 'unknown', 'length: %s' % w, known)
        if x.kind == 'arr' and y.kind == 'arr' and self.strict and x.meta[-1] != y.meta[-1]:
            self.add(path, 'diff', 'stored as %s instead of %s' % (y.meta[-1], x.meta[-1]), known)
        if x is y and isinstance(x.items, FBuf):
            return
        if x.kind == 'list' and y.kind == 'list' and isinstance(x.items, FBuf) and x.items is y.items:
            return
        if isinstance(la, Const) and la.v <= 4096:
            for i in range(la.v):
                p, q = ra.item(a, i), rb.item(b, i)
                if p is None or q is None:
                    self.add('%s[%d]' % (path, i), 'unknown', 'item not analysed', known)
                    break
                self.run(A, p, B, q, '%s[%d]' % (path, i), known)
            return
        k = sym('#i', 'int', lo=0)
        f = self.facts.plus(compare('lt', k, la))
        ra.st = A.fork()
        rb.st = B.fork()
        ra.st.facts = f if f else ra.st.facts
        rb.st.facts = f
        p, q = ra.item(a, k), rb.item(b, k)
        if p is None or q is None:
            return self.add(path, 'unknown', 'items not analysed', known)
        s, w = Q.equal(q, p, f, self.ranges, self.n)
        if s == 'refuted':
            self.add(path + '[i]', 'diff', 'items changed: %s' % w, known)
        elif s != 'proved':
            self.add(path + '[i]', 'unknown', w, known)


def refs_of(v):
    if isinstance(v, Ref):
        return True
    if isinstance(v, Op) and v.op == 'ite':
        return refs_of(v.args[1]) or refs_of(v.args[2])
    return False


def is_num_like(v):
    if isinstance(v, Const):
        return isinstance(v.v, (int, float)) and not isinstance(v.v, bool) or type(v.v).__name__ == 'long'
    return T.ty_of(v) in ('int', 'float', 'num')


def text_equal(a, b):
    """True / False / None for two symbolic texts"""
    from clfstatic import ext as X
    try:
        pa, pb = X.flat_parts(a), X.flat_parts(b)
    except Exception:
        return None
    ca = [p for p in pa]
    cb = [p for p in pb]
    if len(ca) == len(cb) and all(p is q for p, q in zip(ca, cb)):
        return True
    # same shape: constants have to agree; a different symbol in the same place is a different text
    if len(ca) == len(cb):
        for p, q in zip(ca, cb):
            if p is q:
                continue
            if isinstance(p, Const) and isinstance(q, Const):
                if same_numbers(str(p.v), str(q.v)):
                    continue
                return False
            if isinstance(p, Op) and isinstance(q, Op) and p.op == q.op and p.op == 'sym':
                return False
            return None
        return True
    if all(isinstance(p, Const) for p in ca + cb):
        return same_numbers(''.join(str(p.v) for p in ca), ''.join(str(p.v) for p in cb))
    return None


def same_numbers(a, b):
    """two texts of the same words, numbers compared as numbers"""
    x, y = a.split(), b.split()
    if len(x) != len(y):
        return False
    for p, q in zip(x, y):
        if p != q:
            try:
                if float(p) != float(q):
                    return False
            except ValueError:
                return False
    return True


def shown(v, st=None):
    if isinstance(v, Ref):
        return 'an object' if st is None else 'a %s' % st.get(v.oid).kind
    if isinstance(v, Const):
        return repr(v.v)
    return short(v, 80) if isinstance(v, Val) else repr(v)


def settle(ck, name, construct, d, extra=''):
    """turn the differences into verdicts"""
    bad = [x for x in d.out if x[1] == 'diff' and x[3]]
    unk = [x for x in d.out if not (x[1] == 'diff' and x[3])]
    if bad:
        p, _, m, _ = bad[0]
        ck.fail(name, construct, '%s: %s%s%s' % (p or 'value', m, extra, ' (and %d more)' % (len(bad) - 1) if len(bad) > 1 else ''))
        return False
    if unk:
        p, k, m, _ = unk[0]
        ck.unknown(name, '%s: %s%s' % (p, m, ' (and %d more)' % (len(unk) - 1) if len(unk) > 1 else ''))
        return False
    ck.ok(name)
    return True


# ------------------------------------------------------------ frame conditions

def record_changed(x, y):
    if x is y:
        return False
    if x.kind != y.kind or x.cls is not y.cls or x.meta != y.meta:
        return True
    if x.d is not y.d and x.d != y.d:
        ks = set(x.d) | set(y.d)
        for k in ks:
            if x.d.get(k) is not y.d.get(k) and not (isinstance(x.d.get(k), Val) and isinstance(y.d.get(k), Val) and x.d.get(k) is y.d.get(k)):
                return True
    if x.items is not y.items:
        if isinstance(x.items, list) and isinstance(y.items, list):
            return len(x.items) != len(y.items) or any(p is not q for p, q in zip(x.items, y.items))
        return True
    return False


def changed_objects(A, B, skip=()):
    """objects that existed in state A and have another record in state B"""
    from clfstatic.state import BASE
    out = []
    for oid, y in B.heap.items():
        x = A.heap.get(oid)
        if x is None:
            x = BASE.get(oid)
        if x is None or oid in skip:
            continue
        if x.kind in ('world', 'file', 'optparser'):
            continue
        if record_changed(x, y):
            out.append((oid, x, y))
    return out


def kids(h):
    """(label, value) of everything an object refers to"""
    if h.d:
        for k, v in h.d.items():
            yield (shown(k) if isinstance(k, Val) else '.%s' % k), v
    if isinstance(h.items, list):
        for i, v in enumerate(h.items):
            yield '[%d]' % i, v
    if h.kind == 'arr':
        yield '<buffer>', Ref(h.meta[0])


def reach(S, roots, limit=200000):
    """oid -> (path, root name, known data) for everything reachable from the named roots"""
    seen = {}
    todo = [(n, v, n, True) for n, v in roots]
    while todo and len(seen) < limit:
        path, v, root, known = todo.pop(0)
        if isinstance(v, Tup):
            todo += [('%s[%d]' % (path, i), x, root, known) for i, x in enumerate(v.items)]
            continue
        if isinstance(v, Op) and v.op == 'ite':
            todo += [(path, v.args[1], root, known), (path, v.args[2], root, known)]
            continue
        if not isinstance(v, Ref) or v.oid in seen:
            continue
        h = S.peek(v.oid)
        if h is None:
            continue
        seen[v.oid] = (path, root, known)
        for l, x in kids(h):
            f = l.lstrip('.')
            kn = known and (h.kind != 'inst' or f in DATA)
            if h.kind == 'inst' and f in CACHES:
                kn = False
            todo.append((path + l, x, root, kn))
    return seen


def frame_check(ck, name, construct, lab, A, B, protected, what, allow=()):
    """nothing reachable from the protected roots, nor any global state, was written between A and B"""
    ch = changed_objects(A, B)
    if not ch:
        return ck.ok(name)
    mods = [('module %s' % A.peek(m.oid).meta[0], m) for p, m in sorted(lab.I.modules.items()) if A.peek(m.oid) is not None]
    P = reach(A, protected)
    G = reach(A, mods)
    bad, unk = [], []
    for oid, x, y in ch:
        if oid in P:
            path, root, known = P[oid]
        elif oid in G:
            path, root, known = G[oid]
            if x.kind == 'class' or x.kind == 'module':
                known = any(k in x.d and x.d[k] is not y.d.get(k) and not str(k).startswith('_') for k in x.d)
            elif x.kind in ('list', 'dict') and '[' not in path.split('.')[-1]:
                # a module or class level container: entries that were there must stay
                known = any(k not in y.d or y.d[k] is not v for k, v in x.d.items()) if x.kind == 'dict' and not path.split('.')[-1].startswith('_') else False
        else:
            continue
        if any(a in path for a in allow):
            continue
        desc = describe_change(x, y)
        if desc is None:
            continue
        if same_values(lab, A, B, x, y):
            continue
        if x.kind == 'inst' and x.d is not None:
            touched = [k for k in set(x.d) | set(y.d) if x.d.get(k) is not y.d.get(k)]
            if touched and all(k in CACHES for k in touched):
                continue
            known = known and any(k in DATA or not str(k).startswith('_') for k in touched if k not in CACHES)
        (bad if known else unk).append('%s changed: %s' % (path, desc))
    if bad:
        ck.fail(name, construct, '%s; %s' % (what, '; '.join(bad[:3])))
    elif unk:
        ck.unknown(name, '; '.join(unk[:3]))
    else:
        ck.ok(name)


def same_values(lab, A, B, x, y):
    """the record was rewritten with equal scalars"""
    if x.kind != y.kind or x.meta != y.meta:
        return False
    pairs = []
    if isinstance(x.items, list) and isinstance(y.items, list) and len(x.items) == len(y.items):
        pairs += list(zip(x.items, y.items))
    elif x.items is not y.items:
        return False
    if (x.d or {}) or (y.d or {}):
        if set(x.d) != set(y.d):
            return False
        pairs += [(x.d[k], y.d[k]) for k in x.d]
    for p, q in pairs:
        if p is q:
            continue
        if isinstance(p, Const) and isinstance(q, Const) and type(p.v) == type(q.v) and p.v == q.v:
            continue
        if is_num_like(p) and is_num_like(q) and Q.equal(p, q, B.facts, None, 40)[0] == 'proved':
            continue
        return False
    return True


def describe_change(x, y):
    if isinstance(x.items, list) and isinstance(y.items, list):
        if len(x.items) != len(y.items):
            return '%d items instead of %d' % (len(y.items), len(x.items))
        for i, (p, q) in enumerate(zip(x.items, y.items)):
            if p is not q:
                return 'item %d is %s instead of %s' % (i, shown(q), shown(p))
    elif x.items is not y.items:
        return 'contents rewritten'
    for k in sorted(set(x.d or {}) | set(y.d or {}), key=str):
        p, q = (x.d or {}).get(k), (y.d or {}).get(k)
        if p is not q:
            if p is None or p is T.ABSENT:
                return 'entry %s added' % (shown(k) if isinstance(k, Val) else k)
            if q is None or q is T.ABSENT:
                return 'entry %s removed' % (shown(k) if isinstance(k, Val) else k)
            return 'entry %s is %s instead of %s' % (shown(k) if isinstance(k, Val) else k, shown(q), shown(p))
    return None
