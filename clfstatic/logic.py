"""Decision of branch conditions from dataflow facts.

Facts are the branch conditions that dominate a program point plus interval
facts about inputs; a condition is decided by literal lookup or by a small
linear-inequality (polyhedra domain) argument.  No external solver is used.
"""
from fractions import Fraction
from .terms import *
from . import terms as T

MAXC = 260


def lin(p):
    """poly -> (dict mono->coef, const)"""
    d = {}
    c = Fraction(0)
    for m, k in terms_of(p).items():
        if m == ():
            c += k
        else:
            d[m] = d.get(m, 0) + k
    return d, c


def cons_of(lit):
    """literal -> list of constraints (d, c, strict): d + c < / <= 0"""
    if not isinstance(lit, Op):
        return []
    if lit.op == 'lt' or lit.op == 'le':
        d, c = lin(lit.args[0])
        return [(d, c, lit.op == 'lt')]
    if lit.op == 'eq':
        d, c = lin(lit.args[0])
        return [(d, c, False), ({m: -k for m, k in d.items()}, -c, False)]
    if lit.op == 'and':
        r = []
        for x in lit.args:
            r += cons_of(x)
        return r
    return []


def atom_facts(m):
    """constraints implied by the monomial m being what it is"""
    out = []
    if len(m) == 1 and m[0][1] == 1:
        a = m[0][0]
        if a.op == 'sym' and len(a.args) > 1:
            for k, v in a.args[1]:
                if k == 'lo':
                    out.append(({m: Fraction(-1)}, Fraction(v), False))
                elif k == 'hi':
                    out.append(({m: Fraction(1)}, -Fraction(v), False))
                elif k == 'gt':
                    out.append(({m: Fraction(-1)}, Fraction(v), True))
                elif k == 'below':   # sym <= other poly - 1 (ints)
                    d, c = lin(v)
                    d = {x: -y for x, y in d.items()}
                    d[m] = d.get(m, 0) + 1
                    out.append((d, -c + 1, False))
        elif a.op == 'floor':
            d, c = lin(a.args[0])
            # f - x <= 0 ; x - f - 1 < 0
            e = {k: -v for k, v in d.items()}
            e[m] = e.get(m, 0) + 1
            out.append((e, -c, False))
            e = dict(d)
            e[m] = e.get(m, 0) - 1
            out.append((e, c - 1, True))
        elif a.op == 'fdiv' and isinstance(a.args[1], Const) and a.args[1].v > 0:
            b = Fraction(a.args[1].v)
            d, c = lin(a.args[0])
            e = {k: -v for k, v in d.items()}
            e[m] = e.get(m, 0) + b
            out.append((e, -c, False))
            e = dict(d)
            e[m] = e.get(m, 0) - b
            out.append((e, c - (b - 1), False))
        elif a.op in ('min', 'max'):
            sg = 1 if a.op == 'min' else -1
            for x in a.args:
                d, c = lin(x)
                e = {k: -v * sg for k, v in d.items()}
                e[m] = e.get(m, 0) + sg
                out.append((e, -c * sg, False))
            if a.op == 'min':
                cs = [x for x in a.args if isinstance(x, Const)]
                ys = [x for x in a.args if not isinstance(x, Const)]
                if cs and len(ys) == 1:
                    at = T.single_atom(ys[0])
                    if at is not None and at.op == 'max':
                        ls = [x for x in at.args if isinstance(x, Const)]
                        if ls:
                            out.append(({m: Fraction(-1)}, min(T.nice(ls[0].v), T.nice(cs[0].v)), False))
        elif a.op in ('h2u', 'f2u', 'd2u', 'lo16', 'hi16', 'pack16'):
            out.append(({m: Fraction(-1)}, Fraction(0), False))
            out.append(({m: Fraction(1)}, -Fraction({'h2u': 65535, 'lo16': 65535, 'hi16': 65535, 'pack16': 2 ** 32 - 1, 'f2u': 2 ** 32 - 1, 'd2u': 2 ** 64 - 1}[a.op]), False))
        elif a.op == 'exp':
            out.append(({m: Fraction(-1)}, Fraction(0), True))
        elif a.op in ('pow', 'abs'):
            out.append(({m: Fraction(-1)}, Fraction(0), False))
        elif a.op in ('len',):
            out.append(({m: Fraction(-1)}, Fraction(0), False))
    return out


def const_bounds(m, cons):
    lo = hi = None
    for d, c, s in cons:
        if len(d) == 1 and m in d:
            k = d[m]
            b = -c / k
            if k > 0:
                hi = b if hi is None else min(hi, b)
            else:
                lo = b if lo is None else max(lo, b)
    return lo, hi


def product_facts(m, cons):
    """McCormick facts for a product a*b of two atoms"""
    flat = []
    for a, e in m:
        if e < 0 or e > 2:
            return []
        flat += [a] * e
    if len(flat) != 2:
        return []
    ma, mb = ((flat[0], 1),), ((flat[1], 1),)
    la, ua = const_bounds(ma, cons)
    lb, ub = const_bounds(mb, cons)
    out = []

    def fact(ca, sa, cb, sb):
        # sa*(a-ca) >= 0 and sb*(b-cb) >= 0  =>  sa*sb*(ab - ca*b - cb*a + ca*cb) >= 0
        s = sa * sb
        d = {}
        d[m] = d.get(m, 0) - s
        d[mb] = d.get(mb, 0) + s * ca
        d[ma] = d.get(ma, 0) + s * cb
        out.append(({k: v for k, v in d.items() if v}, Fraction(-s * ca * cb), False))
    for ca, sa in ((la, 1), (ua, -1)):
        if ca is None:
            continue
        for cb, sb in ((lb, 1), (ub, -1)):
            if cb is None:
                continue
            fact(ca, sa, cb, sb)
    return out


def infeasible(cons):
    """True if the conjunction of linear constraints has no solution (exact FM);
    False if undecided/feasible"""
    cons = list(cons)
    # close with atom facts
    seen = set()
    work = True
    rounds = 0
    while work and rounds < 4:
        work = False
        rounds += 1
        for d, c, s in list(cons):
            for m in list(d):
                if m in seen:
                    continue
                seen.add(m)
                nf = atom_facts(m)
                if len(m) == 1 and m[0][1] == 1:
                    pass
                else:
                    for a, e in m:
                        mm = ((a, 1),)
                        if mm not in seen:
                            seen.add(mm)
                            nf += atom_facts(mm)
                if nf:
                    cons += nf
                    work = True
    prods = set()
    for d, c, s in list(cons):
        for m in d:
            if (len(m) == 2 or (len(m) == 1 and m[0][1] == 2)) and m not in prods:
                prods.add(m)
    for m in prods:
        cons += product_facts(m, cons)
    return fm(cons)


def fm(cons):
    def norm(con):
        d, c, s = con
        d = {k: v for k, v in d.items() if v != 0}
        if not d:
            return None if (c < 0 or (c == 0 and not s)) else 'BAD'
        k = abs(next(iter(sorted(d.items(), key=lambda x: repr_key(x[0]))))[1])
        return (frozenset((m, v / k) for m, v in d.items()), c / k, s)
    cur = {}

    def put(con, store):
        n = norm(con)
        if n is None:
            return False
        if n == 'BAD':
            return True
        key, c, s = n
        old = store.get(key)
        if old is None or c > old[0] or (c == old[0] and s and not old[1]):
            store[key] = (c, s)
        return False
    for con in cons:
        if put(con, cur):
            return True
    while cur:
        # choose variable with least fill
        cnt = {}
        for key in cur:
            for m, v in key:
                p, n = cnt.get(m, (0, 0))
                cnt[m] = (p + 1, n) if v > 0 else (p, n + 1)
        best = min(cnt, key=lambda m: (cnt[m][0] * cnt[m][1] - cnt[m][0] - cnt[m][1], repr_key(m)))
        pos, negs, rest = [], [], {}
        for key, (c, s) in cur.items():
            d = dict(key)
            v = d.get(best, 0)
            if v > 0:
                pos.append((d, c, s, v))
            elif v < 0:
                negs.append((d, c, s, v))
            else:
                rest[key] = (c, s)
        if len(pos) * len(negs) + len(rest) > MAXC * 6:
            return False
        for d1, c1, s1, v1 in pos:
            for d2, c2, s2, v2 in negs:
                d = {}
                for m, v in d1.items():
                    d[m] = v / v1
                for m, v in d2.items():
                    d[m] = d.get(m, 0) + v / (-v2)
                d.pop(best, None)
                if put((d, c1 / v1 + c2 / (-v2), s1 or s2), rest):
                    return True
        cur = rest
    return False


def repr_key(m):
    return tuple((T._rank(a), e) for a, e in m)


def relevant(facts_cons, goal):
    """constraints connected to the goal's variables"""
    vs = set()

    def addvars(d):
        for m in d:
            vs.add(m)
            for a, e in m:
                vs.add(((a, 1),))
                for c in free_ops(a):
                    vs.add(((c, 1),))
    for d, c, s in goal:
        addvars(d)
    chosen = list(goal)
    rest = list(facts_cons)
    changed = True
    while changed and len(chosen) < 80:
        changed = False
        for con in list(rest):
            touch = False
            for m in con[0]:
                if m in vs:
                    touch = True
                    break
                for a, e in m:
                    if ((a, 1),) in vs:
                        touch = True
                        break
                if touch:
                    break
            if touch:
                rest.remove(con)
                chosen.append(con)
                addvars(con[0])
                changed = True
    return chosen


ALLSIGNS = frozenset('-0+')


def sign_mul(x, y):
    if x == '0' or y == '0':
        return '0'
    return '+' if x == y else '-'


def sign_add(x, y):
    if x == '0':
        return y
    if y == '0' or x == y:
        return x
    return '-0+'


class Facts(object):
    """persistent set of literals known to hold"""
    __slots__ = ('lits', '_cons', '_memo', '_set', '_parent', '_new', '_pool')

    def __init__(self, lits=(), parent=None, new=None):
        self.lits = tuple(lits)
        self._parent, self._new, self._pool = parent, new, None
        self._cons = None
        self._memo = {}
        self._set = None

    def set(self):
        if self._set is None:
            s = set()
            for l in self.lits:
                s.add(l)
                if isinstance(l, Op) and l.op == 'and':
                    s.update(l.args)
            self._set = s
        return self._set

    def cons(self):
        if self._cons is None:
            r = []
            for l in self.lits:
                r += cons_of(l)
            self._cons = r
        return self._cons

    def plus(self, c):
        if c is TRUE:
            return self
        if isinstance(c, Op) and c.op == 'and':
            return Facts(self.lits + tuple(c.args), self, c)
        return Facts(self.lits + (c,), self, c)

    def pool(self):
        """sample valuations satisfying the facts: a condition that takes both
        values on them cannot be decided (used only to answer 'undecided' fast)"""
        if self._pool is None:
            if self._parent is not None:
                self._pool = [E for E in self._parent.pool() if self._holds(E, self._new)]
            else:
                from . import equiv
                import random
                rng = random.Random(11)
                self._pool = [equiv.WideEnv(rng, i) for i in range(48)]
                for l in self.lits:
                    self._pool = [E for E in self._pool if self._holds(E, l)]
        return self._pool

    def _holds(self, E, l):
        from . import equiv
        try:
            return equiv.ev(l, E) is True
        except equiv.Skip:
            return False

    def mixed(self, c):
        from . import equiv
        seen = set()
        for E in self.pool():
            try:
                seen.add(bool(equiv.ev(c, E)))
            except equiv.Skip:
                continue
            if len(seen) == 2:
                break
        return seen

    def decide(self, c, depth=4):
        if isinstance(c, Const):
            return bool(c.v)
        if isinstance(c, Unk) or not isinstance(c, Op):
            return None
        k = (c, depth)
        if k in self._memo:
            return self._memo[k]
        r = self._decide(c, depth)
        self._memo[k] = r
        return r

    def _decide(self, c, depth):
        s = self.set()
        if c in s:
            return True
        if neg_cond(c) in s:
            return False
        seen = ()
        if c.op in ('lt', 'le', 'eq'):
            seen = self.mixed(c)
            if len(seen) == 2:
                return None
        if c.op == 'and':
            rs = [self.decide(x, depth) for x in c.args]
            if any(r is False for r in rs):
                return False
            if all(r is True for r in rs):
                return True
            return None
        if c.op == 'or':
            rs = [self.decide(x, depth) for x in c.args]
            if any(r is True for r in rs):
                return True
            if all(r is False for r in rs):
                return False
            return None
        if c.op == 'not':
            r = self.decide(c.args[0], depth)
            return None if r is None else (not r)
        if c.op in ('lt', 'le', 'eq') and depth > 0:
            sg = self.signs(c.args[0])
            yes = {'lt': frozenset('-'), 'le': frozenset('-0'), 'eq': frozenset('0')}[c.op]
            if sg <= yes:
                return True
            if not (sg & yes):
                return False
        if c.op in ('lt', 'le'):
            if False not in seen:
                nc = cons_of(neg_cond(c))
                if infeasible(relevant(self.cons(), nc)):
                    return True
            if True not in seen:
                pc = cons_of(c)
                if infeasible(relevant(self.cons(), pc)):
                    return False
        if c.op == 'eq':
            pc = cons_of(c)
            if True not in seen and infeasible(relevant(self.cons(), pc)):
                return False
            p = c.args[0]
            if False not in seen and infeasible(relevant(self.cons(), cons_of(mkcmp('lt', neg(p))))) and infeasible(relevant(self.cons(), cons_of(mkcmp('lt', p)))):
                return True
        # outermost gates first: their conditions are literals over opaque terms
        if depth > 0 and c.op in ('lt', 'le', 'eq'):
            for g in top_gates(c.args[0], True):
                if g.op != 'ite':
                    x, va, vb = T.mm_gate(g)
                    if isinstance(x, Const):
                        return self.decide(subst(c, {g: va if x.v else vb}), depth)
                    d = True if x in s else (False if neg_cond(x) in s else None)
                    if d is not None:
                        return self.decide(subst(c, {g: va if d else vb}), depth)
                    f1, f0 = self.plus(x), self.plus(neg_cond(x))
                    r1 = f1.decide(subst(c, {g: va}), depth - 1)
                    if r1 is None and not f1.infeasible():
                        continue
                    r0 = f0.decide(subst(c, {g: vb}), depth - 1)
                    if r0 == r1 and r0 is not None:
                        return r1
                    if r0 is not None and f1.infeasible():
                        return r0
                    if r1 is not None and f0.infeasible():
                        return r1
                    continue
                lits = atomic_conds(g.args[0])
                x = None
                for y in lits:
                    d = True if y in s else (False if neg_cond(y) in s else None)
                    if d is not None:
                        return self.decide(apply_lit(c, y, d), depth)
                    if x is None and isinstance(y, Op):
                        x = y
                if x is None:
                    continue
                f1, f0 = self.plus(x), self.plus(neg_cond(x))
                r1 = f1.decide(apply_lit(c, x, True), depth - 1)
                if r1 is None and not f1.infeasible():
                    continue
                r0 = f0.decide(apply_lit(c, x, False), depth - 1)
                if r0 == r1 and r0 is not None:
                    return r1
                if f1.infeasible() and r0 is not None:
                    return r0
                if f0.infeasible() and r1 is not None:
                    return r1
        # gate inside the condition: split on it
        g = first_gate(c)
        if g is not None and depth > 0:
            gc = g.args[0]
            for x in atomic_conds(gc):
                d = self.decide(x, depth - 1) if not has_gate(x) else None
                if d is True:
                    return self.decide(apply_lit(c, x, True), depth)
                if d is False:
                    return self.decide(apply_lit(c, x, False), depth)
            x = None
            for y in atomic_conds(gc):
                if not has_gate(y):
                    x = y
                    break
            if x is None:
                return None
            f1, f0 = self.plus(x), self.plus(neg_cond(x))
            r1 = f1.decide(apply_lit(c, x, True), depth - 1)
            if r1 is None:
                if f1.infeasible():
                    return f0.decide(apply_lit(c, x, False), depth - 1)
                return None
            r0 = f0.decide(apply_lit(c, x, False), depth - 1)
            if r0 == r1:
                return r1
            if f1.infeasible():
                return r0
            if f0.infeasible():
                return r1
            return None
        return None

    def signs(self, p, depth=3):
        """possible signs of p: rule-of-signs on its factored form (common
        monomial times cofactor), monotonicity of exp"""
        if isinstance(p, Const):
            if not isinstance(p.v, (int, float)) or T.is_special_float(p):
                return ALLSIGNS
            return frozenset('+' if p.v > 0 else '-' if p.v < 0 else '0')
        if not isinstance(p, (Op, T.Poly)) or depth <= 0 or not T.numeric_ok(p):
            return ALLSIGNS
        k = ('signs', p, depth)
        r = self._memo.get(k)
        if r is None:
            self._memo[k] = ALLSIGNS
            r = self._memo[k] = self._signs(p, depth)
        return r

    def _lsigns(self, p):
        out = set(ALLSIGNS)
        d, c = lin(p)
        n = ({m: -v for m, v in d.items()}, -c)
        rel = relevant(self.cons(), [(d, c, False)])
        rest = [x for x in rel if x != (d, c, False)]
        if infeasible(rest + [(d, c, True)]):
            out.discard('-')
        if infeasible(rest + [n + (True,)]):
            out.discard('+')
        if infeasible(rest + [(d, c, False), n + (False,)]):
            out.discard('0')
        return frozenset(out)

    def _asigns(self, a, depth):
        if a.op == 'exp':
            return frozenset('+')
        if a.op == 'base':
            return self.signs(a.args[0], depth)
        if a.op in ('f32', 'f64'):
            return self.signs(a.args[0], depth)
        if a.op == 'pow':
            b = self.signs(a.args[0], depth - 1)
            return frozenset('+') if b == frozenset('+') else frozenset('0+')
        if a.op == 'ln':
            return self.signs(T.sub(a.args[0], Const(1)), depth - 1)
        if a.op == 'ite' and depth > 1:
            c = self.decide(a.args[0], depth - 1) if not has_gate(a.args[0]) else None
            if c is not None:
                return self.signs(a.args[1] if c else a.args[2], depth - 1)
            f1, f0 = self.plus(a.args[0]), self.plus(neg_cond(a.args[0]))
            return f1.signs(a.args[1], depth - 1) | f0.signs(a.args[2], depth - 1)
        if a.op in ('min', 'max') and depth > 1:
            return frozenset().union(*[self.signs(x, depth - 1) for x in a.args]) & self._lsigns(T.mkpoly({((a, 1),): Fraction(1)}, 'float'))
        return self._lsigns(T.mkpoly({((a, 1),): Fraction(1)}, 'float'))

    def _signs(self, p, depth):
        t = terms_of(p)
        if len(t) == 1:
            (m, c), = t.items()
            r = frozenset('+' if c > 0 else '-')
            for a, e in m:
                s = self._asigns(a, depth)
                if e < 0:
                    s = s - frozenset('0')
                if e % 2 == 0:
                    s = frozenset('+' if x in '+-' else '0' for x in s)
                r = frozenset(sign_mul(x, y) for x in r for y in s)
            return r
        # common factor, with the least exponents (also clears denominators)
        com = {}
        for m in t:
            for a, e in m:
                com.setdefault(a, []).append(e)
        fac = []
        for a, es in com.items():
            lo = min(es + ([0] if len(es) < len(t) else []))
            if lo:
                fac.append((a, lo))
        if fac:
            fac.sort(key=lambda x: T._rank(x[0]))
            inv = tuple((a, -e) for a, e in fac)
            rest = T.mkpoly({T.mono_mul(m, inv): c for m, c in t.items()}, 'float')
            bs = {a: a.args[0] for m in terms_of(rest) for a, e in m if a.op == 'base'}
            if bs:
                rest = T.subst(rest, bs)
            head = T.mkpoly({tuple(fac): Fraction(1)}, 'float')
            return frozenset(sign_mul(x, y) for x in self.signs(head, depth) for y in self.signs(rest, depth - 1))
        bs = {a: a.args[0] for m in t for a, e in m if a.op == 'base'}
        if bs:
            return self.signs(T.subst(p, bs), depth - 1)
        r = self._lsigns(p)
        if len(r) == 1:
            return r
        # c*(1 - exp(y)) has the sign of -c*y
        c0 = t.get((), None)
        if len(t) == 2 and c0 is not None:
            (m, c), = [(m, c) for m, c in t.items() if m != ()]
            if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'exp':
                if c == -c0:
                    y = self.signs(m[0][0].args[0], depth - 1)
                    sc = '+' if c > 0 else '-'
                    return r & frozenset(sign_mul(x, sc) for x in y)
            if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'pow' and c == -c0:
                # pow(b, e) < 1 iff (b < 1 and e > 0) or (b > 1 and e < 0)
                b, e = m[0][0].args
                sb = self.signs(T.sub(b, Const(1)), depth - 1)
                se = self.signs(e, depth - 1)
                sc = '+' if c > 0 else '-'
                return r & frozenset(sign_mul(sign_mul(x, y), sc) for x in sb for y in se)
        # sum of monomials of known sign
        tot = frozenset('0')
        for m, c in t.items():
            s = self.signs(T.mkpoly({m: c}, 'float'), depth - 1)
            tot = frozenset(z for x in tot for y in s for z in sign_add(x, y))
        return r & tot or r

    def infeasible(self):
        k = 'infeasible'
        if k in self._memo:
            return self._memo[k]
        if self.pool():
            self._memo[k] = False
            return False
        s = self.set()
        r = any(neg_cond(l) in s for l in s if isinstance(l, Op)) or FALSE in s
        if not r:
            r = infeasible(self.cons())
        if not r:
            # or-literals: all alternatives refuted
            for l in self.lits:
                if isinstance(l, Op) and l.op == 'or' and len(l.args) <= 4:
                    rest = Facts(tuple(x for x in self.lits if x is not l))
                    if all(rest.decide(x) is False for x in l.args):
                        r = True
                        break
        self._memo[k] = r
        return r


def has_gate(v):
    for o in free_ops(v):
        if o.op == 'ite':
            return True
    return False


def top_gates(v, mm=False):
    """gates that are atoms of the polynomial v itself"""
    ops = ('ite', 'min', 'max') if mm else ('ite',)
    if isinstance(v, Op):
        return [v] if v.op in ops else []
    out = []
    if isinstance(v, T.Poly):
        for m in v.t:
            for a, e in m:
                if a.op in ops and a not in out:
                    out.append(a)
    if isinstance(v, T.Tup):
        for x in v.items:
            for a in top_gates(x, mm):
                if a not in out:
                    out.append(a)
    return sorted(out, key=T._rank)


def first_gate(v):
    best = None
    for o in free_ops(v):
        if o.op == 'ite' and not has_gate(o.args[0]):
            if best is None or T._rank(o) < T._rank(best):
                best = o
    return best


def atomic_conds(c):
    if isinstance(c, Op):
        if c.op in ('and', 'or', 'not'):
            r = []
            for x in c.args:
                r += atomic_conds(x)
            return r
        return [c]
    return []


def apply_lit(v, lit, truth):
    """simplify v knowing atomic condition lit has the given truth value"""
    n = neg_cond(lit)
    env = {lit: TRUE if truth else FALSE}
    if isinstance(n, Op):
        env[n] = FALSE if truth else TRUE
    return subst(v, env)
