"""Equality of value-graph terms.

``equal(a, b, facts)`` decides whether two extracted terms denote the same
value for every input allowed by ``facts``:

  * gates are eliminated by splitting on the gate conditions that the facts do
    not already decide,
  * the gate-free leaves are compared as rational polynomials over
    uninterpreted atoms (congruence on the atoms' arguments),
  * a difference is only reported when a separating valuation of the free
    inputs exists (random interpretation of the value graph); a difference that
    can be neither proved nor separated is 'unknown'.
"""
import math, random, struct, zlib
from fractions import Fraction
from .terms import *
from . import terms as T
from .logic import Facts, first_gate, top_gates, atomic_conds, has_gate, apply_lit

ROUNDING = ('f32', 'f64')


class Skip(Exception):
    pass


def strip_round(v, memo=None):
    """drop f32/f64 rounding wrappers (the properties are stated over the reals)"""
    if not isinstance(v, (Op, Poly, Tup)):
        return v
    fo = [o for o in free_ops(v) if o.op in ROUNDING]
    n = 0
    while fo and n < 50:
        inner = [o for o in fo if not any(p.op in ROUNDING for c in T.children(o) for p in free_ops(c))]
        env = {o: as_float(o.args[0]) for o in inner}
        v = subst(v, env)
        fo = [o for o in free_ops(v) if o.op in ROUNDING]
        n += 1
    return v


# ------------------------------------------------------------------ evaluation

class Env(object):
    def __init__(self, rng, ranges=None):
        self.rng = rng
        self.ranges = ranges or {}
        self.tab = {}
        self.memo = {}

    def draw(self, name, ty):
        r = self.ranges.get(name)
        if callable(r):
            return r(self.rng)
        if isinstance(r, (list, tuple)):
            # a usual range, and possibly a wider one drawn from now and then
            lo, hi = r[2:] if len(r) == 4 and self.rng.random() < .15 else r[:2]
        elif isinstance(r, (set, frozenset)):
            return Fraction(self.rng.choice(sorted(r)))
        else:
            lo, hi = (0, 9) if ty == 'int' else (-2, 3)
        if ty == 'int':
            return Fraction(self.rng.randint(int(math.ceil(lo)), int(math.floor(hi))))
        if self.rng.random() < .12:
            c = [x for x in (Fraction(0), Fraction(1), Fraction(1, 2), Fraction(lo), Fraction(hi)) if lo <= x <= hi]
            if c:
                return self.rng.choice(c)
        return Fraction(lo) + (Fraction(hi) - Fraction(lo)) * Fraction(self.rng.randint(1, 9999), 10000)

    def val(self, key, name, ty):
        v = self.tab.get(key)
        if v is None:
            v = self.tab[key] = self.draw(name, ty)
        return v


class WideEnv(Env):
    """valuation drawn lazily over several magnitudes"""

    def __init__(self, rng, i):
        Env.__init__(self, random.Random(rng.random()))
        self.i = i

    def val(self, key, name, ty):
        v = self.tab.get(key)
        if v is None:
            r = self.rng
            m = r.choice((1, 1, 1, 1, 30, 300, 70000))
            if ty == 'int':
                v = Fraction(r.randint(0, 9 if m == 1 else m)) if r.random() < .85 else Fraction(-r.randint(1, 9))
            elif r.random() < .1:
                v = Fraction(r.choice((0, 1)))
            else:
                v = Fraction(r.randint(-2000, 3000), 1000) * m
            self.tab[key] = v
        return v


def hashv(key):
    h = zlib.crc32(repr(key).encode())
    return Fraction(h % 100003, 50021)


def q(x):
    if isinstance(x, float):
        return '%.8g' % x
    return str(x)


def ev(v, E):
    if isinstance(v, Const):
        if isinstance(v.v, bool):
            return v.v
        if isinstance(v.v, (int, float)):
            if T.is_special_float(v):
                return v.v
            return T.nice(v.v)
        return v.v
    r = E.memo.get(v)
    if r is not None:
        return r
    r = _ev(v, E)
    E.memo[v] = r
    return r


def bounded(v, E):
    """draw a symbol respecting its declared bounds"""
    key = ('sym', v.args[0])
    if key in E.tab:
        x = E.tab[key]
        fresh = False
    else:
        x = E.val(key, v.args[0], v.ty)
        fresh = True
    lo = hi = None
    strict = False
    for k, b in v.args[1]:
        if k == 'lo':
            lo = Fraction(b) if lo is None else max(lo, Fraction(b))
        elif k == 'gt':
            lo, strict = Fraction(b), True
        elif k == 'hi':
            hi = Fraction(b) if hi is None else min(hi, Fraction(b))
        elif k == 'below':
            n = ev(b, E)
            if not isinstance(n, (int, Fraction)):
                raise Skip()
            hi = n - 1 if hi is None else min(hi, n - 1)
    if lo is not None and hi is not None and lo > hi:
        raise Skip()
    ok = (lo is None or x > lo or (x == lo and not strict)) and (hi is None or x <= hi)
    if ok:
        return x
    if not fresh:
        raise Skip()
    if v.ty == 'int' and lo is not None and hi is not None:
        x = lo + (x - lo) % (hi - lo + 1)
    elif lo is not None and x <= lo:
        x = lo + abs(x - lo)
        if strict and x == lo:
            x = lo + 1
        if hi is not None and x > hi:
            x = hi
    elif hi is not None and x > hi:
        x = hi - abs(x - hi)
        if lo is not None and x < lo:
            x = lo
    E.tab[key] = x
    return x


def near0(x):
    return isinstance(x, float) and abs(x) < 1e-9


def _ev(v, E):
    if isinstance(v, Poly):
        a = T.single_atom(v)
        if a is not None and a is not v:
            x = ev(a, E)
            if isinstance(x, (Fraction, float)) and x == 0:
                return x        # keeps the sign of zero
        tot = Fraction(0)
        for m, c in v.t.items():
            p = c
            for a, e in m:
                x = ev(a, E)
                if isinstance(x, bool):
                    x = Fraction(int(x))
                if not isinstance(x, (int, float, Fraction)):
                    raise Skip()
                if isinstance(x, float) and (math.isnan(x) or math.isinf(x)):
                    raise Skip()
                if e < 0 and (x == 0 or near0(x)):
                    raise Skip()
                if isinstance(x, Fraction) and x.denominator.bit_length() > 400:
                    x = float(x)
                try:
                    p = p * x ** e
                except OverflowError:
                    raise Skip()
            tot = tot + p
        if isinstance(tot, float) and (abs(tot) > 1e30):
            raise Skip()
        return tot
    if isinstance(v, Tup):
        return tuple(ev(x, E) for x in v.items)
    if isinstance(v, Unk):
        raise Skip()
    if isinstance(v, Ref):
        return ('ref', v.oid)
    if not isinstance(v, Op):
        raise Skip()
    o = v.op
    if o == 'sym':
        if len(v.args) > 1:
            return bounded(v, E)
        return E.val(('sym', v.args[0]), v.args[0], v.ty)
    if o == 'ite':
        return ev(v.args[1], E) if ev(v.args[0], E) else ev(v.args[2], E)
    if o in ('lt', 'le'):
        x = ev(v.args[0], E)
        if near0(x):
            raise Skip()
        return x < 0 if o == 'lt' else x <= 0
    if o == 'eq':
        x = ev(v.args[0], E)
        if near0(x):
            raise Skip()
        return x == 0
    if o == 'and':
        return all(ev(x, E) for x in v.args)
    if o == 'or':
        return any(ev(x, E) for x in v.args)
    if o == 'not':
        return not ev(v.args[0], E)
    if o == 'unkcond':
        raise Skip()
    args = [ev(a, E) if isinstance(a, Val) else a for a in v.args]
    if o in ROUNDING or o == 'base':
        return args[0]
    if o == 'min':
        return min(args)
    if o == 'max':
        return max(args)
    try:
        if o == 'pow':
            b, e = args
            if b < 0:
                if float(e) == int(e):
                    return float(b) ** int(e)
                raise Skip()
            if b == 0 and e <= 0:
                raise Skip()
            return float(b) ** float(e)
        if o == 'exp':
            return math.exp(float(args[0]))
        if o == 'ln':
            return math.log(float(args[0]))
        if o == 'floor':
            x = args[0]
            if isinstance(x, float) and abs(x - round(x)) < 1e-9:
                raise Skip()
            return Fraction(int(math.floor(x)))
        if o == 'fdiv':
            if args[1] == 0:
                raise Skip()
            return Fraction(int(args[0] // args[1]))
    except (OverflowError, ValueError, ZeroDivisionError):
        raise Skip()
    if o == 'pack16':
        a, b = int(args[0]), int(args[1])
        return a | b << 16
    if o in ('lo16', 'hi16'):
        a = int(args[0])
        return a & 65535 if o == 'lo16' else a >> 16
    if o in BITCASTS:
        return bitval(o, v, args[0])
    if o == 'rd':
        nm = args[0]
        return E.val(('rd', nm) + tuple(q(a) for a in args[1:]), nm, v.ty)
    if o == 'sel':
        return _sel(v, args)
    x = hashv((o,) + tuple(q(a) for a in args))
    if v.ty == 'bool':
        return int(x * 1000) % 2 == 0
    if v.ty == 'int':
        return Fraction(int(x * 7))
    if v.ty in ('float', 'num'):
        return x
    return (o,) + tuple(args)


BITCASTS = {'f16': ('<e', '<e'), 'r32': ('<f', '<f'), 'h2u': ('<e', '<H'), 'u2h': ('<H', '<e'), 'f2u': ('<f', '<I'), 'u2f': ('<I', '<f'), 'd2u': ('<d', '<Q'), 'u2d': ('<Q', '<d')}


def bitval(o, v, x):
    """bit reinterpretation; zero keeps its sign only when it comes straight from another conversion"""
    a, b = BITCASTS[o]
    if isinstance(x, bool) or not isinstance(x, (int, float, Fraction)):
        raise Skip()
    if o not in ('f16', 'r32') and a[1] in 'efd' and x == 0 and T.single_atom(v.args[0]) is None:
        raise Skip()
    try:
        if a[1] in 'efd':
            d = struct.pack(a, float(x))
            if x == 0 and isinstance(x, float):
                d = struct.pack(a, x)
            elif o in ('f16', 'r32') and x < 0 and struct.unpack(a, d)[0] == 0:
                d = struct.pack(a, -0.0)
        else:
            if int(x) != x:
                raise Skip()
            d = struct.pack(a, int(x))
    except (OverflowError, struct.error):
        raise Skip()
    r = struct.unpack(b, d)[0]
    if isinstance(r, float):
        if math.isnan(r) or math.isinf(r):
            raise Skip()
        if r == 0 and math.copysign(1, r) < 0:
            return -0.0
        return Fraction(r)
    return Fraction(r)


def _sel(v, args):
    items, i = args[0], args[-1]
    if isinstance(items, tuple):
        i = int(i)
        if 0 <= i < len(items):
            return items[i]
    raise Skip()


def stable_difference(a, b, x, y, E):
    """small differences count only when they are not an effect of a badly
    conditioned point (the graphs are evaluated in floating point there)"""
    num = (int, float, Fraction)
    if not (isinstance(x, num) and isinstance(y, num)) or isinstance(x, bool) or isinstance(y, bool):
        return True
    try:
        d = abs(float(x) - float(y))
        if not d < 1e-4 * max(1e-2, abs(float(x)), abs(float(y))):
            return True
        E2 = Env(random.Random(3), E.ranges)
        E2.tab = {k: (v * (1 + Fraction(1, 10 ** 9)) + Fraction(1, 10 ** 12) if isinstance(v, Fraction) and v.denominator != 1 else v) for k, v in E.tab.items()}
        x2, y2 = ev(a, E2), ev(b, E2)
        return d > 30 * max(abs(float(x2) - float(x)), abs(float(y2) - float(y)))
    except (Skip, TypeError, OverflowError, ValueError):
        return False


def differ(x, y):
    num = (int, float, Fraction)
    if isinstance(x, bool):
        x = int(x)
    if isinstance(y, bool):
        y = int(y)
    if isinstance(x, num) and isinstance(y, num):
        if isinstance(x, float) and math.isnan(x):
            return not (isinstance(y, float) and math.isnan(y))
        if isinstance(y, float) and math.isnan(y):
            return True
        try:
            d = abs(x - y)
            if math.isinf(d):
                return True
            return d > 1e-7 * max(1e-2, abs(x), abs(y))
        except (OverflowError, ValueError):
            return x != y
    if isinstance(x, tuple) and isinstance(y, tuple):
        if len(x) != len(y):
            return True
        return any(differ(p, r) for p, r in zip(x, y))
    return x != y


# ------------------------------------------------------------------ leaves

def poly_zero(d, ref):
    """d == 0 up to coefficient rounding"""
    if isinstance(d, Const):
        if not isinstance(d.v, (int, float)) or T.is_special_float(d):
            return False
        if isinstance(d.v, float):
            return abs(d.v) <= 1e-9 * max(1e-3, ref)
        return d.v == 0
    t = T.terms_of(d)
    return all(abs(c) <= Fraction(1, 10 ** 10) * Fraction(max(ref, 1e-3)) for c in t.values())


def maxcoef(v):
    if isinstance(v, Const):
        return abs(float(v.v)) if isinstance(v.v, (int, float)) and not T.is_special_float(v) else 0
    try:
        return max([abs(float(c)) for c in T.terms_of(v).values()] or [0])
    except OverflowError:
        return 1e300


def expand(d, limit=40):
    """clear denominators and multiply out 'base' atoms"""
    for _ in range(limit):
        if isinstance(d, Const) or isinstance(d, Unk):
            return d
        t = T.terms_of(d)
        neg = {}
        for m in t:
            for a, e in m:
                if e < 0:
                    neg[a] = min(neg.get(a, 0), e)
        if neg:
            mult = tuple(sorted(((a, -e) for a, e in neg.items()), key=lambda x: T._rank(x[0])))
            d = T.mkpoly({T.mono_mul(m, mult): c for m, c in t.items()}, 'float')
            continue
        bases = [a for m in t for a, e in m if a.op == 'base']
        if not bases:
            return d
        d = T.subst(d, {a: a.args[0] for a in set(bases)})
        if len(T.terms_of(d)) > 4000:
            return d
    return d


def linear_solve(p):
    """p == 0 : (atom, value) for an atom occurring linearly with constant coefficient"""
    t = T.terms_of(p)
    cnt = {}
    for m in t:
        for a, e in m:
            cnt[a] = cnt.get(a, 0) + 1
    for m, c in t.items():
        if len(m) == 1 and m[0][1] == 1 and cnt[m[0][0]] == 1 and m[0][0].op in ('sym', 'rd'):
            a = m[0][0]
            rest = T.mkpoly({k: -x / c for k, x in t.items() if k != m}, 'float' if a.ty != 'int' else a.ty)
            if isinstance(rest, (Poly, Op)) and a in free_ops(rest):
                continue
            return a, rest
    return None


def forced_eqs(facts):
    out = []
    s = facts.set()
    for l in s:
        if isinstance(l, Op):
            if l.op == 'eq':
                out.append(l.args[0])
            elif l.op == 'le':
                n = T.mkcmp('le', T.neg(l.args[0]))
                if n in s:
                    out.append(l.args[0])
    return out


def leaf_equal(a, b, facts, depth=3):
    if a is b:
        return True
    na, nb = isinstance(a, Tup), isinstance(b, Tup)
    if na or nb:
        if na and nb and len(a.items) == len(b.items):
            return all(prove(x, y, facts, depth=depth) for x, y in zip(a.items, b.items))
        return False
    if T.is_special_float(a) or T.is_special_float(b):
        return T.is_special_float(a) and T.is_special_float(b) and repr(a.v) == repr(b.v)
    if isinstance(a, Unk) or isinstance(b, Unk):
        return False
    if T.isbool(a) and T.isbool(b) and not (isinstance(a, Const) and isinstance(b, Const)):
        f1 = facts.plus(a)
        f2 = facts.plus(T.neg_cond(a))
        return (f1.infeasible() or f1.decide(b) is True) and (f2.infeasible() or f2.decide(b) is False)
    if T.numeric_ok(a) and T.numeric_ok(b):
        d = T.sub(a, b)
        ref = max(maxcoef(a), maxcoef(b))
        if not isinstance(d, Unk):
            if poly_zero(d, ref):
                return True
            d2 = expand(d)
            if not isinstance(d2, Unk) and poly_zero(d2, ref if isinstance(d2, Const) else 1e-3):
                return True
            if facts.decide(T.mkcmp('eq', d)) is True:
                return True
            # use equalities forced by the facts
            done = set()
            env = {}
            for p in forced_eqs(facts):
                r = linear_solve(p)
                if r is not None and r[0] not in env:
                    env[r[0]] = r[1]
            if env and depth > 0:
                x, y = T.subst(a, env), T.subst(b, env)
                if (x is not a or y is not b) and leaf_equal(x, y, facts, 0):
                    return True
            # congruence: identify equal atoms
            if depth > 0 and not isinstance(d2, (Const, Unk)):
                atoms = sorted({z for m in T.terms_of(d2) for z, e in m}, key=T._rank)
                env = {}
                for i, x in enumerate(atoms):
                    if x.op in ('sym',) or x in env:
                        continue
                    for y in atoms[i + 1:]:
                        if y in env or y.op != x.op or len(x.args) != len(y.args):
                            continue
                        if all((p is r) or (isinstance(p, Val) and isinstance(r, Val) and prove(p, r, facts, depth=depth - 1)) for p, r in zip(x.args, y.args)):
                            env[y] = T.mkpoly({((x, 1),): Fraction(1)}, x.ty)
                if env:
                    d3 = T.subst(d2, env)
                    if not isinstance(d3, Unk) and poly_zero(d3, ref):
                        return True
        return False
    if isinstance(a, Op) and isinstance(b, Op) and a.op == b.op and len(a.args) == len(b.args) and depth > 0:
        return all((p is r) or (isinstance(p, Val) and isinstance(r, Val) and prove(p, r, facts, depth=depth - 1)) for p, r in zip(a.args, b.args))
    return False


class Budget(Exception):
    pass


def simplify(v, facts):
    """resolve gates the facts decide"""
    for _ in range(60):
        g = None
        if not isinstance(v, (Op, Poly, Tup)):
            return v
        env = {}
        for o in free_ops(v):
            if o.op == 'ite' and not has_gate(o.args[0]):
                r = facts.decide(o.args[0])
                if r is not None:
                    env[o.args[0]] = TRUE if r else FALSE
            elif o.op in ('min', 'max') and not has_gate(o):
                c, va, vb = T.mm_gate(o)
                r = facts.decide(c, 0)
                if r is not None:
                    env[o] = va if r else vb
        if not env:
            return v
        full = {}
        for c, t in env.items():
            full[c] = t
        nv = subst(v, full)
        if nv is v:
            return v
        v = nv
    return v


FAILED = None


def prove(a, b, facts, depth=3, budget=None, gates=40):
    if a is b:
        return True
    if budget is None:
        budget = [600]
    budget[0] -= 1
    if budget[0] < 0:
        raise Budget()
    a, b = simplify(a, facts), simplify(b, facts)
    if a is b:
        return True
    g = None
    for v in (a, b):
        if isinstance(v, (Op, Poly, Tup)):
            x = first_gate(v)
            if x is not None and (g is None or T._rank(x) < T._rank(g)):
                g = x
    if g is None:
        if facts.infeasible():
            return True
        if leaf_equal(a, b, facts, depth):
            return True
        if gates <= 0:
            return False
        ms = mm_atoms(a) + mm_atoms(b)
        if not ms:
            if depth == 3 and FAILED is not None and len(FAILED) < 12:
                FAILED.append(facts)
            return False
        x = ms[0]
        c, va, vb = T.mm_gate(x)
        for lit, val in ((c, va), (T.neg_cond(c), vb)):
            if lit is FALSE:
                continue
            f = facts.plus(lit)
            if f.infeasible():
                continue
            if not prove(subst(a, {x: val}), subst(b, {x: val}), f, depth, budget, gates - 1):
                return False
        return True
    if gates <= 0:
        return False
    # cheap try first: same polynomial in the gates
    if T.numeric_ok(a) and T.numeric_ok(b):
        d = T.sub(a, b)
        if not isinstance(d, Unk) and poly_zero(d, max(maxcoef(a), maxcoef(b))):
            return True
    for x in atomic_conds(g.args[0]):
        if facts.decide(x) is None:
            break
    else:
        x = g.args[0]
    for lit, tv in ((x, True), (T.neg_cond(x), False)):
        f = facts.plus(lit)
        if f.infeasible():
            continue
        if not prove(apply_lit(a, x, tv), apply_lit(b, x, tv), f, depth, budget, gates - 1):
            return False
    return True


def mm_atoms(v):
    """min/max atoms, innermost first"""
    if not isinstance(v, (Op, Poly, Tup)):
        return []
    memo = {}
    return sorted([o for o in free_ops(v) if o.op in ('min', 'max')], key=lambda o: (depth_of(o, memo), T._rank(o)))


def sat_env(E, lits):
    for l in lits:
        if not ev(l, E):
            return False
    return True


def syms_of(*vs):
    out = set()
    for v in vs:
        if isinstance(v, (Op, Poly, Tup)):
            for o in free_ops(v):
                if o.op == 'sym':
                    out.add(o)
                if o.op == 'rd':
                    out.add(o)
    return out


def key_of(o, E):
    if o.op == 'sym':
        return ('sym', o.args[0])
    return ('rd', o.args[0]) + tuple(q(ev(a, E)) for a in o.args[1:])


def move(E, p, s, tgt, ranges):
    """set symbol s so that the expression p takes the value tgt (two-point linear solve)"""
    k = key_of(s, E)
    old = E.tab.get(k)
    x0, x1 = (old if isinstance(old, (int, Fraction)) else E.draw(s.args[0], s.ty)), E.draw(s.args[0], s.ty)
    E.memo = {}
    try:
        if x0 == x1:
            return False
        E.tab[k] = x0
        y0 = ev(p, E)
        E.memo = {}
        E.tab[k] = x1
        y1 = ev(p, E)
        if y0 == y1 or isinstance(y0, (bool, str, tuple)) or isinstance(y1, (bool, str, tuple)):
            return False
        x = x0 + (tgt - y0) * (x1 - x0) / (y1 - y0)
    except (Skip, TypeError, ZeroDivisionError, OverflowError):
        return False
    finally:
        E.memo = {}
        if old is None:
            E.tab.pop(k, None)
        else:
            E.tab[k] = old
    if isinstance(x, float) and (math.isnan(x) or math.isinf(x) or abs(x) > 1e9):
        return False
    rg = ranges.get(s.args[0]) if ranges else None
    if isinstance(rg, (list, tuple)) and not (rg[-2] <= x <= rg[-1]):
        return False
    if s.ty == 'int':
        x = Fraction(int(math.floor(float(x) + E.rng.random())))
    E.tab[k] = x if isinstance(x, Fraction) else Fraction(x).limit_denominator(10 ** 9)
    return True


def repair(E, lits, ranges, rounds=14):
    """move symbols until the literals hold"""
    for _ in range(rounds):
        bad = [l for l in lits if not ev(l, E)]
        if not bad:
            return True
        l = E.rng.choice(bad)
        goal = True
        while l.op in ('not', 'and', 'or'):
            if l.op == 'not':
                goal = not goal
                l = l.args[0]
            else:
                c = [x for x in l.args if isinstance(x, Op) and bool(ev(x, E)) != goal]
                if not c:
                    break
                l = E.rng.choice(c)
        if l.op not in ('lt', 'le', 'eq'):
            return False
        p = l.args[0]
        sy = sorted(syms_of(p), key=T._rank)
        if not sy:
            return False
        try:
            y = ev(p, E)
            mag = Fraction(E.rng.choice((1, 1, 4, 64)), E.rng.choice((8, 64, 4096)))
            if (l.op == 'eq') == goal:
                tgt = Fraction(0)
            elif l.op == 'eq':
                tgt = mag
            else:
                tgt = -mag if goal else mag
        except Skip:
            return False
        for s in E.rng.sample(sy, len(sy)):
            if move(E, p, s, tgt, ranges):
                break
        else:
            return False
    return sat_env(E, lits)


def valuations(terms, facts, ranges, n, seed):
    """environments satisfying the facts, some steered onto comparison boundaries"""
    rng = random.Random(seed)
    lits = [l for l in facts.lits if isinstance(l, Op)]
    conds = set()
    for v in list(terms) + lits:
        if isinstance(v, (Op, Poly, Tup)):
            for o in free_ops(v):
                if o.op in ('lt', 'le', 'eq'):
                    conds.add(o)
                elif o.op == 'floor':
                    conds.add(o)
    conds = sorted(conds, key=T._rank)
    eqs = [l for l in lits if l.op == 'eq']
    for i in range(n):
        E = Env(rng, ranges)
        try:
            todo = list(eqs)
            if conds and i % 3:
                todo.append(rng.choice(conds))
            if conds and i % 3 == 2:
                todo.append(rng.choice(conds))
            used = set()
            for c in todo:
                p = c.args[0]
                sy = [s for s in syms_of(p) if s not in used]
                if not sy:
                    continue
                sy.sort(key=T._rank)
                s = rng.choice(sy)
                tgt = 0
                if c.op == 'floor':
                    tgt = Fraction(rng.randint(-1, 6))
                r = rng.random()
                if c not in eqs:
                    tgt += Fraction(0) if r < .4 else Fraction(1, 4096) * (1 if r < .7 else -1)
                if move(E, p, s, tgt, ranges):
                    used.add(s)
            E.memo = {}
            if not sat_env(E, lits) and not repair(E, lits, ranges):
                continue
        except Skip:
            continue
        except RecursionError:
            return
        yield E


def describe(E, limit=10):
    out = []
    for k, v in E.tab.items():
        nm = k[1] if k[0] == 'sym' else '%s[%s]' % (k[1], ','.join(map(str, k[2:])))
        out.append('%s=%s' % (nm, '%.6g' % float(v) if isinstance(v, (int, float, Fraction)) else v))
    return ', '.join(out[:limit]) + (' ...' if len(out) > limit else '')


def refute(a, b, facts, ranges=None, n=400, seed=1):
    hits = 0
    for E in valuations((a, b), facts, ranges, n, seed):
        try:
            x, y = ev(a, E), ev(b, E)
        except Skip:
            continue
        hits += 1
        if differ(x, y) and stable_difference(a, b, x, y, E):
            return 'differs', '%s: got %s, expected %s' % (describe(E), fmt(x), fmt(y)), hits
    return None, None, hits


def fmt(x):
    if isinstance(x, Fraction):
        return '%.9g' % float(x)
    if isinstance(x, tuple):
        return '(' + ', '.join(fmt(t) for t in x[:6]) + ')'
    return str(x)[:200]


def feasible(facts, ranges=None, n=400, seed=2):
    """a valuation that satisfies the facts, or None"""
    for E in valuations((), facts, ranges, n, seed):
        return describe(E) or 'always'
    return None


SWEEP_OPS = ('ite', 'min', 'max', 'pow', 'exp', 'ln', 'floor', 'fdiv', 'rd', 'base', 'sel')


def depth_of(v, memo):
    if not isinstance(v, (Op, Poly, Tup)):
        return 0
    r = memo.get(v)
    if r is None:
        r = memo[v] = 1 + max([depth_of(c, memo) for c in T.children(v)] or [0])
    return r


def sweep(a, b, facts, ranges):
    """merge internal subterms of a and b that are provably equal, innermost
    first; candidates are found by fingerprinting under random valuations"""
    envs = list(valuations((a, b), facts, ranges, 60, 7))[:14]
    if len(envs) < 3:
        return a, b
    memo = {}
    ops = set()
    for v in (a, b):
        if isinstance(v, (Op, Poly, Tup)):
            ops |= {o for o in free_ops(v) if o.op in SWEEP_OPS and o.ty in T.NUMTY}
    ops = sorted(ops, key=lambda o: (depth_of(o, memo), T._rank(o)))
    classes = {}
    env = {}
    for o in ops:
        fp = []
        good = 0
        for E in envs:
            try:
                x = ev(o, E)
                fp.append('%.6g' % (float(x) + 0.0))
                good += 1
            except (Skip, TypeError, ValueError, OverflowError):
                fp.append('?')
        if good < 3:
            continue
        fp = tuple(fp)
        v = T.mkpoly({((o, 1),): Fraction(1)}, o.ty)
        o2 = subst(v, env) if env else v
        for rep in classes.get(fp, []):
            if rep is o2:
                break
            try:
                if prove(rep, o2, facts, budget=[90]):
                    env[o] = rep
                    a, b = subst(a, {o: rep}), subst(b, {o: rep})
                    break
            except (Budget, RecursionError):
                pass
        else:
            classes.setdefault(fp, []).append(o2)
    if env:
        a, b = subst(a, env), subst(b, env)
    return a, b


_eqmemo = {}


def equal(a, b, facts=None, ranges=None, n=400, budget=250):
    """('proved', None) | ('refuted', witness) | ('unknown', why)"""
    facts = facts or Facts()
    a, b = strip_round(a), strip_round(b)
    if a is b and not has_unk(a):
        return 'proved', None
    k = (a, b, facts.set() if False else frozenset(facts.lits))
    r = _eqmemo.get(k)
    if r is None:
        r = _eqmemo[k] = _equal(a, b, facts, ranges, n, budget)
    return r


def confirmed(a, b, facts, ranges):
    """cross-check of a proof on a few valuations of the graphs"""
    r, w, hits = refute(a, b, facts, ranges, 12, 5)
    return ('refuted', w) if r else ('proved', None)


def _equal(a, b, facts, ranges, n, budget):
    u = has_unk(a) or has_unk(b)
    hits = 0
    if not u:
        try:
            if prove(a, b, facts, budget=[8]):
                return confirmed(a, b, facts, ranges)
        except (Budget, RecursionError):
            pass
    r, w, hits = refute(a, b, facts, ranges, n)
    if r:
        return 'refuted', w
    if not u:
        global FAILED
        try:
            x, y = sweep(a, b, facts, ranges)
            FAILED = []
            if prove(x, y, facts, budget=[budget]):
                return confirmed(a, b, facts, ranges)
        except (Budget, RecursionError):
            pass
        leaves, FAILED = FAILED or [], None
        # look for a witness on the paths where the proof got stuck
        for f in leaves:
            r, w, h = refute(a, b, f, ranges, 60)
            hits += h
            if r:
                return 'refuted', w
    return 'unknown', ('unmodelled: %r' % u) if u else 'not normalised to a common form (%d agreeing valuations)' % hits
