"""Value domain of the abstract interpreter.

Values are hash-consed terms.  Numeric values are kept in a polynomial normal
form over *atoms* (inputs, table reads, floor/pow/log/..., gates), so that two
ways of writing the same arithmetic get the same value number.  A gate
``ite(c, a, b)`` is the phi-function of gated SSA: it is created where control
flow joins, paths are never enumerated.
"""
from fractions import Fraction
import math

_intern = {}


class Val(object):
    __slots__ = ('key', '_h', '_fv')

    def __new__(cls, *key):
        k = (cls,) + key
        v = _intern.get(k)
        if v is None:
            v = object.__new__(cls)
            v.key = key
            v._h = hash(k)
            v._fv = None
            v._init(*key)
            _intern[k] = v
        return v

    def _init(self, *key):
        pass

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o


class Const(Val):
    """a Python constant; key = (type name, repr-able value)"""
    __slots__ = ('v',)

    def __new__(cls, v):
        if isinstance(v, float):
            tag = ('float', repr(v))
        else:
            tag = (type(v).__name__, v)
        k = (cls,) + tag
        o = _intern.get(k)
        if o is None:
            o = object.__new__(cls)
            o.key = tag
            o._h = hash(k)
            o._fv = None
            o.v = v
            _intern[k] = o
        return o

    def __repr__(self):
        return repr(self.v)


NONE = Const(None)
TRUE = Const(True)
FALSE = Const(False)


class Op(Val):
    """generic term: op name, argument tuple, type tag"""
    __slots__ = ('op', 'args', 'ty')

    def _init(self, op, args, ty):
        self.op = op
        self.args = args
        self.ty = ty

    def __repr__(self):
        if self.op == 'sym':
            return str(self.args[0])
        if self.op == 'ite':
            return '(%r ? %r : %r)' % self.args
        return '%s(%s)' % (self.op, ', '.join(map(repr, self.args)))


class Poly(Val):
    """numeric polynomial. key=(frozenset of (monomial, coef), ty);
    monomial = tuple of (atom, exp) sorted by id-stable order"""
    __slots__ = ('t', 'ty')

    def _init(self, items, ty):
        self.t = dict(items)
        self.ty = ty

    def __repr__(self):
        out = []
        for m, c in sorted(self.t.items(), key=lambda x: repr(x[0])):
            s = '*'.join(repr(a) if e == 1 else '%r^%s' % (a, e) for a, e in m)
            cs = repr(float(c)) if c.denominator != 1 else str(c.numerator)
            if not m:
                out.append(cs)
            elif c == 1:
                out.append(s)
            else:
                out.append(cs + '*' + s)
        return '(' + ' + '.join(out) + ')'


class Unk(Val):
    __slots__ = ('why',)

    def _init(self, why):
        self.why = why

    def __repr__(self):
        return '<unknown: %s>' % (self.why,)


class Ref(Val):
    __slots__ = ('oid',)

    def _init(self, oid):
        self.oid = oid

    def __repr__(self):
        return '&%d' % self.oid


class Tup(Val):
    __slots__ = ('items',)

    def _init(self, items):
        self.items = items

    def __repr__(self):
        return 'T%r' % (self.items,)


class Special(Val):
    """absent marker and other singletons"""
    __slots__ = ()

    def __repr__(self):
        return '<%s>' % self.key[0]


ABSENT = Special('absent')
NOTIMPL = Special('NotImplemented')
ELLIPSIS = Special('Ellipsis')


class Sym(object):
    pass


def sym(name, ty='float', **attrs):
    """a free input. attrs: lo, hi (numbers) known bounds"""
    a = tuple(sorted(attrs.items()))
    o = Op('sym', (name,) + ((a,) if a else ()), ty)
    if ty in NUMTY:
        return mkpoly({((o, 1),): Fraction(1)}, ty)
    return o


NUMTY = ('int', 'float', 'num')
NAN = Const(float('nan'))
INF = Const(float('inf'))
NINF = Const(float('-inf'))


def is_num(v):
    if isinstance(v, Const):
        return isinstance(v.v, (int, float)) and not isinstance(v.v, bool)
    if isinstance(v, Poly):
        return True
    if isinstance(v, Op):
        return v.ty in NUMTY
    return False


def isbool(v):
    return (isinstance(v, Const) and isinstance(v.v, bool)) or (isinstance(v, Op) and v.ty == 'bool')


def is_special_float(v):
    return isinstance(v, Const) and isinstance(v.v, float) and (math.isnan(v.v) or math.isinf(v.v))


def ty_of(v):
    if isinstance(v, Const):
        if isinstance(v.v, bool):
            return 'bool'
        if isinstance(v.v, int):
            return 'int'
        if isinstance(v.v, float):
            return 'float'
        if isinstance(v.v, str):
            return 'str'
        if v.v is None:
            return 'none'
        return type(v.v).__name__
    if isinstance(v, (Poly, Op)):
        return v.ty
    if isinstance(v, Unk):
        return 'unk'
    return 'any'


# ---------------------------------------------------------------- polynomials

_atom_rank = {}


def _rank(a):
    r = _atom_rank.get(a)
    if r is None:
        r = _atom_rank[a] = len(_atom_rank)
    return r


def mono_mul(m1, m2):
    d = {}
    for a, e in m1:
        d[a] = d.get(a, 0) + e
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e != 0), key=lambda x: _rank(x[0])))


def cancel(t):
    """drop a divisor that all the terms it divides are together a multiple of"""
    while True:
        seen = {}
        for m in t:
            for a, e in m:
                if e < 0 and a.op == 'base':
                    seen[a] = seen.get(a, 0) + 1
        for o, n in seen.items():
            p = terms_of(o.args[0])
            if n < len(p):
                continue
            num, rest = {}, {}
            for m, c in t.items():
                d = dict(m)
                e = d.get(o, 0)
                if e < 0:
                    if e == -1:
                        del d[o]
                    else:
                        d[o] = e + 1
                    num[tuple(sorted(d.items(), key=lambda x: _rank(x[0])))] = c
                else:
                    rest[m] = c
            q = exact_div(num, p)
            if q is not None:
                t = rest
                for m, c in q.items():
                    t[m] = t.get(m, 0) + c
                t = {m: c for m, c in t.items() if c != 0}
                break
        else:
            return t


def exact_div(num, p):
    atoms = sorted({a for m in num for a, _ in m} | {a for m in p for a, _ in m}, key=_rank)
    pos = {a: i for i, a in enumerate(atoms)}

    def vec(m):
        v = [0] * len(atoms)
        for a, e in m:
            v[pos[a]] = e
        return tuple(v)
    n = {vec(m): c for m, c in num.items()}
    d = {vec(m): c for m, c in p.items()}
    lead = max(d)
    q = {}
    for _ in range(len(num)):
        if not n:
            break
        h = max(n)
        k = n[h] / d[lead]
        s = tuple(x - y for x, y in zip(h, lead))
        q[s] = q.get(s, 0) + k
        for m, c in d.items():
            z = tuple(x + y for x, y in zip(m, s))
            w = n.get(z, 0) - k * c
            if w:
                n[z] = w
            else:
                n.pop(z, None)
    if n:
        return None
    return {tuple((a, e) for a, e in zip(atoms, s) if e): c for s, c in q.items()}


def mkpoly(t, ty):
    t = {m: c for m, c in t.items() if c != 0}
    if len(t) > 1 and any(e < 0 and a.op == 'base' for m in t for a, e in m):
        t = cancel(t)
    if not t:
        return Const(0 if ty == 'int' else 0.0)
    if len(t) == 1 and () in t:
        c = t[()]
        if ty == 'int' and c.denominator == 1:
            return Const(int(c))
        try:
            return Const(float(c))
        except OverflowError:
            return INF if c > 0 else NINF
    return Poly(frozenset(t.items()), ty)


_nice = {}


def nice(x):
    """the rational a float literal stands for (0.0039215686274509803 -> 1/255)"""
    if isinstance(x, int):
        return Fraction(x)
    r = _nice.get(x)
    if r is None:
        f = Fraction(x)
        g = f.limit_denominator(1000000)
        if abs(g - f) <= abs(f) * Fraction(1, 10 ** 14) * 4:
            r = g
        else:
            r = Fraction('%.13g' % x)
            if abs(r - f) > abs(f) / 10 ** 12:
                r = f
        _nice[x] = r
    return r


def terms_of(v):
    """dict monomial->Fraction for a numeric value (not nan/inf)"""
    if isinstance(v, Poly):
        return v.t
    if isinstance(v, Const):
        if isinstance(v.v, bool):
            return {(): Fraction(int(v.v))} if v.v else {}
        if v.v == 0:
            return {}
        return {(): nice(v.v)}
    if isinstance(v, Op):
        return {((v, 1),): Fraction(1)}
    raise TypeError(v)


def arith_ty(a, b):
    if a == 'bool':
        a = 'int'
    if b == 'bool':
        b = 'int'
    if a == 'float' or b == 'float':
        return 'float'
    if a == 'int' and b == 'int':
        return 'int'
    return 'num'


def numeric_ok(v):
    return is_num(v) or isbool(v)


def _const(v):
    return isinstance(v, Const)


def unk_of(*vs):
    for v in vs:
        if isinstance(v, Unk):
            return v
    return None


def boolnum(v):
    """a boolean condition used as a number"""
    if isinstance(v, Const) and isinstance(v.v, bool):
        return Const(int(v.v))
    if isinstance(v, Op) and v.ty == 'bool':
        return ite(v, Const(1), Const(0))
    return v


def add(a, b):
    u = unk_of(a, b)
    if u:
        return u
    a, b = boolnum(a), boolnum(b)
    if _const(a) and _const(b):
        return Const(a.v + b.v)
    ty = arith_ty(ty_of(a), ty_of(b))
    if is_special_float(a):
        return a
    if is_special_float(b):
        return b
    t = dict(terms_of(a))
    for m, c in terms_of(b).items():
        t[m] = t.get(m, 0) + c
    return mkpoly(t, ty)


def neg(a):
    return mul(Const(-1), a)


def sub(a, b):
    if _const(a) and _const(b):
        a, b = boolnum(a), boolnum(b)
        return Const(a.v - b.v)
    return add(a, neg(b))


def mul(a, b):
    u = unk_of(a, b)
    if u:
        return u
    a, b = boolnum(a), boolnum(b)
    if _const(a) and _const(b):
        return Const(a.v * b.v)
    ty = arith_ty(ty_of(a), ty_of(b))
    for x, y in ((a, b), (b, a)):
        if is_special_float(x):
            if math.isnan(x.v):
                return x
            return Unk('inf times symbolic')
    r = {}
    tb = terms_of(b)
    ta = terms_of(a)
    if len(ta) * len(tb) > 20000:
        return Unk('polynomial too large')
    for m1, c1 in ta.items():
        for m2, c2 in tb.items():
            m = mono_mul(m1, m2)
            r[m] = r.get(m, 0) + c1 * c2
    return mkpoly(r, ty)


def as_float(v):
    """retag as float"""
    if isinstance(v, Const):
        return Const(float(v.v)) if not isinstance(v.v, float) else v
    if isinstance(v, Poly):
        return Poly(frozenset(v.t.items()), 'float') if v.ty != 'float' else v
    if isinstance(v, Op) and v.ty in NUMTY:
        if v.op == 'ite':
            return ite(v.args[0], as_float(v.args[1]), as_float(v.args[2]))
        return mkpoly({((v, 1),): Fraction(1)}, 'float')
    if isinstance(v, Op) and v.ty == 'bool':
        return as_float(boolnum(v))
    return v


def retag(v, ty):
    if isinstance(v, Poly):
        return Poly(frozenset(v.t.items()), ty) if v.ty != ty else v
    if isinstance(v, Const):
        if ty == 'float' and isinstance(v.v, int):
            return Const(float(v.v))
        return v
    return v


def atom(op, *args, **kw):
    ty = kw.get('ty', 'float')
    o = Op(op, tuple(args), ty)
    return mkpoly({((o, 1),): Fraction(1)}, ty)


def single_atom(v):
    """if v is exactly coefficient*atom^1 with coef 1 return the atom"""
    if isinstance(v, Op):
        return v
    if isinstance(v, Poly) and len(v.t) == 1:
        (m, c), = v.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return None


def strip_poly(v):
    """Poly that is a bare gate -> the gate"""
    a = single_atom(v)
    if a is not None and a.op == 'ite' and a.ty == ty_of(v):
        return a
    return v


def normalise_factor(p):
    """p = k * q with q canonical. returns (k, q)"""
    t = terms_of(p)
    lead = min(t.keys(), key=lambda m: (tuple((_rank(a), e) for a, e in m)))
    k = t[lead]
    q = mkpoly({m: c / k for m, c in t.items()}, 'float')
    return k, q


def recip(b):
    """1/b for symbolic b"""
    t = terms_of(b)
    if len(t) == 1:
        (m, c), = t.items()
        return mkpoly({tuple((a, -e) for a, e in m): 1 / c}, 'float')
    k, q = normalise_factor(b)
    o = Op('base', (q,), 'float')   # the value q as an atom
    return mkpoly({((o, -1),): 1 / k}, 'float')


class DivZero(Exception):
    pass


def truediv(a, b):
    u = unk_of(a, b)
    if u:
        return u
    a, b = boolnum(a), boolnum(b)
    if _const(b) and b.v == 0:
        raise DivZero()
    if _const(a) and _const(b):
        return Const(float(a.v) / b.v)
    if is_special_float(a):
        return a if math.isnan(a.v) else Unk('inf / symbolic')
    if is_special_float(b):
        return b if math.isnan(b.v) else Const(0.0)
    if a is b:
        return Const(1.0)
    return as_float(mul(a, recip(b)) if not _const(b) else mul(a, mkpoly({(): 1 / nice(b.v)}, 'float') if b.v != 1 else Const(1.0)))


def floordiv(a, b):
    u = unk_of(a, b)
    if u:
        return u
    a, b = boolnum(a), boolnum(b)
    if _const(b) and b.v == 0:
        raise DivZero()
    if _const(a) and _const(b):
        return Const(a.v // b.v)
    ty = arith_ty(ty_of(a), ty_of(b))
    if a is b:
        return Const(1)
    if ty == 'int':
        # exact polynomial division by a monomial / constant
        tb = terms_of(b)
        if len(tb) == 1:
            (mb, cb), = tb.items()
            q = {}
            r = {}
            for m, c in terms_of(a).items():
                mm = mono_mul(m, tuple((x, -e) for x, e in mb))
                cc = c / cb
                if cc.denominator == 1 and all(e > 0 for _, e in mm):
                    q[mm] = cc
                else:
                    r[m] = c
            if not r:
                return mkpoly(q, 'int')
            if q:
                rest = mkpoly(r, 'int')
                # exact pull-out: floor(q + rest/b) = q + floor(rest/b)
                return add(mkpoly(q, 'int'), floordiv(rest, b))
        return atom('fdiv', a, b, ty='int')
    q = truediv(a, b)
    return as_float(floor_(q))


def mod(a, b):
    u = unk_of(a, b)
    if u:
        return u
    a, b = boolnum(a), boolnum(b)
    if _const(b) and b.v == 0:
        raise DivZero()
    if _const(a) and _const(b):
        return Const(a.v % b.v)
    return sub(a, mul(b, floordiv(a, b)))


def is_int_poly(v):
    """provably integer valued"""
    if isinstance(v, Const):
        return isinstance(v.v, int) or (isinstance(v.v, float) and not is_special_float(v) and v.v == int(v.v))
    if isinstance(v, Poly):
        for m, c in v.t.items():
            if c.denominator != 1:
                return False
            for a, e in m:
                if e < 0 or not is_int_atom(a):
                    return False
        return True
    if isinstance(v, Op):
        return is_int_atom(v)
    return False


def is_int_atom(a):
    if a.ty == 'int':
        return True
    if a.op in ('floor', 'ceil', 'trunc'):
        return True
    if a.op == 'ite':
        return is_int_poly(a.args[1]) and is_int_poly(a.args[2])
    if a.op in ('min', 'max'):
        return all(is_int_poly(x) for x in a.args)
    return False


def split_int(v):
    """v = int part (integer valued terms) + rest"""
    ip, rp = {}, {}
    for m, c in terms_of(v).items():
        if all(e > 0 and is_int_atom(a) for a, e in m):
            if not m:
                fl = math.floor(c)
                if fl:
                    ip[m] = Fraction(fl)
                if c - fl:
                    rp[m] = c - fl
                continue
            if c.denominator == 1:
                ip[m] = c
            else:
                rp[m] = c
        else:
            rp[m] = c
    return mkpoly(ip, 'int'), rp


def floor_(v):
    if isinstance(v, Unk):
        return v
    if _const(v):
        if is_special_float(v):
            return Unk('floor of nan/inf')
        return Const(int(math.floor(v.v)))
    ip, rp = split_int(v)
    if not rp:
        return retag(ip, 'int')
    rest = mkpoly(rp, 'float')
    return add(ip, atom('floor', rest, ty='int'))


def ceil_(v):
    f = floor_(neg(v))
    return neg(f)


def powi(a, n):
    r = Const(1)
    for _ in range(n):
        r = mul(r, a)
    return r


def power(a, b):
    u = unk_of(a, b)
    if u:
        return u
    a, b = boolnum(a), boolnum(b)
    if _const(a) and _const(b):
        if a.v == 0 and b.v < 0:
            raise DivZero()
        try:
            r = a.v ** b.v
        except OverflowError:
            return INF
        if isinstance(r, complex):
            return Unk('negative base, fractional power')
        return Const(r)
    if _const(b) and not is_special_float(b):
        if b.v == 0:
            return Const(1.0)
        if float(b.v) == int(b.v) and 0 < b.v <= 6 and not is_special_float(a):
            r = powi(a, int(b.v))
            return r if isinstance(b.v, int) else as_float(r)
        if float(b.v) == int(b.v) and -3 <= b.v < 0 and not is_special_float(a):
            return truediv(Const(1.0), powi(a, -int(b.v)))
    if is_special_float(a) or is_special_float(b):
        if math.isnan((a if is_special_float(a) else b).v):
            return NAN
        return Unk('pow with inf')
    if _const(a) and a.v > 0:
        if a.v == 1:
            return Const(1.0)
        return exp_(mul(b, Const(math.log(a.v))))
    # pow(pow(x,p),q) = pow(x,p*q)   (x >= 0 domain)
    at = single_atom(a)
    if at is not None and at.op == 'pow':
        return power(at.args[0], mul(at.args[1], b))
    if at is not None and at.op == 'exp':
        return exp_(mul(at.args[0], b))
    if _const(b) is False:
        one = single_atom(b)
    return atom('pow', a, as_float(b))


def exp_(v):
    if isinstance(v, Unk):
        return v
    if _const(v):
        if is_special_float(v):
            return Const(0.0) if v.v < 0 else v
        return Const(math.exp(v.v))
    # exp(k*ln(x)) -> pow(x,k)
    t = terms_of(v)
    if len(t) == 1:
        (m, c), = t.items()
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'ln':
            x = m[0][0].args[0]
            if abs(float(c) - 1) < 1e-9:
                return x
            return power(x, Const(float(c)))
    return atom('exp', as_float(v))


def ln_(v):
    if isinstance(v, Unk):
        return v
    if _const(v):
        if is_special_float(v):
            return v
        if v.v <= 0:
            return Unk('log of non-positive')
        return Const(math.log(v.v))
    at = single_atom(v)
    if at is not None and at.op == 'exp':
        return at.args[0]
    if at is not None and at.op == 'pow':
        return mul(at.args[1], ln_(at.args[0]))
    return atom('ln', as_float(v))


# ---------------------------------------------------------------- conditions

def neg_cond(c):
    if isinstance(c, Const):
        return FALSE if c.v else TRUE
    if isinstance(c, Unk):
        return c
    if c.op == 'not':
        return c.args[0]
    if c.op == 'lt':       # p < 0  -> -p <= 0
        return mkcmp('le', neg(c.args[0]))
    if c.op == 'le':
        return mkcmp('lt', neg(c.args[0]))
    if c.op == 'and':
        return or_(*[neg_cond(x) for x in c.args])
    if c.op == 'or':
        return and_(*[neg_cond(x) for x in c.args])
    return Op('not', (c,), 'bool')


def mkcmp(op, d):
    """d `op` 0 with op in lt, le, eq"""
    if isinstance(d, Unk):
        return d
    if _const(d):
        v = d.v
        if op == 'lt':
            return TRUE if v < 0 else FALSE
        if op == 'le':
            return TRUE if v <= 0 else FALSE
        return TRUE if v == 0 else FALSE
    t = terms_of(d)
    allint = is_int_poly(d)
    if op == 'eq':
        if () in t and all(e > 0 and is_int_atom(a) for m in t for a, e in m):
            # whole multiples never reach a constant that is none
            num, den = 0, 1
            for m, c in t.items():
                if m:
                    den = den * c.denominator // math.gcd(den, c.denominator)
            for m, c in t.items():
                if m:
                    num = math.gcd(num, int(c * den))
            if (t[()] * den / num).denominator != 1:
                return FALSE
        k, q = normalise_factor(d)
        if allint:
            q = retag(q, ty_of(q))
        return Op('eq', (q,), 'bool')
    if all(e > 0 and is_int_atom(a) for m in t for a, e in m):
        # integer valued atoms: primitive integer coefficients, rounded bound, never strict
        num, den = 0, 1
        for m, c in t.items():
            if m:
                den = den * c.denominator // math.gcd(den, c.denominator)
        for m, c in t.items():
            if m:
                num = math.gcd(num, int(c * den))
        k = Fraction(num, den)
        b = t.get((), Fraction(0)) / k
        b = Fraction(math.floor(b) + 1 if op == 'lt' else math.ceil(b))
        t = {m: c / k for m, c in t.items() if m}
        t[()] = b
        q = mkpoly(t, 'float')
        return mkcmp('le', q) if _const(q) else Op('le', (q,), 'bool')
    lead = min(t.keys(), key=lambda m: (tuple((_rank(a), e) for a, e in m)))
    k = abs(t[lead])
    q = mkpoly({m: c / k for m, c in t.items()}, 'float')
    if _const(q):
        return mkcmp(op, q)
    return Op(op, (q,), 'bool')


def compare(op, a, b):
    """op in lt le gt ge eq ne for numeric values -> condition"""
    assert op in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'), op
    u = unk_of(a, b)
    if u:
        return u
    a, b = boolnum(a), boolnum(b)
    if _const(a) and _const(b):
        x, y = a.v, b.v
        r = {'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y, 'eq': x == y, 'ne': x != y}[op]
        return TRUE if r else FALSE
    for x, y, flip in ((a, b, False), (b, a, True)):
        if is_special_float(x):
            if math.isnan(x.v):
                return TRUE if op == 'ne' else FALSE
            pos = x.v > 0
            o = op
            if flip:   # y op x  where x is special and on the right
                r = {'lt': pos, 'le': pos, 'gt': not pos, 'ge': not pos, 'eq': False, 'ne': True}[o]
            else:
                r = {'lt': not pos, 'le': not pos, 'gt': pos, 'ge': pos, 'eq': False, 'ne': True}[o]
            return TRUE if r else FALSE
    if op == 'gt':
        return compare('lt', b, a)
    if op == 'ge':
        return compare('le', b, a)
    if op == 'ne':
        return neg_cond(compare('eq', a, b))
    d = sub(a, b)
    if isinstance(d, Unk):
        return d
    return mkcmp(op, d)


def and_(*cs):
    out = []
    for c in cs:
        if isinstance(c, Unk):
            return c
        if c is TRUE:
            continue
        if c is FALSE:
            return FALSE
        if isinstance(c, Op) and c.op == 'and':
            for x in c.args:
                if x not in out:
                    out.append(x)
        elif c not in out:
            out.append(c)
    for c in out:
        if neg_cond(c) in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return Op('and', tuple(out), 'bool')


def or_(*cs):
    out = []
    for c in cs:
        if isinstance(c, Unk):
            return c
        if c is FALSE:
            continue
        if c is TRUE:
            return TRUE
        if isinstance(c, Op) and c.op == 'or':
            for x in c.args:
                if x not in out:
                    out.append(x)
        elif c not in out:
            out.append(c)
    for c in out:
        if neg_cond(c) in out:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return Op('or', tuple(out), 'bool')


def ite(c, a, b):
    if isinstance(c, Const):
        return a if c.v else b
    if a is b:
        return a
    if isinstance(c, Unk):
        c = Op('unkcond', (c,), 'bool')
    if c.op == 'not':
        return ite(c.args[0], b, a)
    ta, tb = ty_of(a), ty_of(b)
    if isbool(a) and isbool(b):
        if a is TRUE:
            return or_(c, b)
        if b is FALSE:
            return and_(c, a)
        if a is FALSE:
            return and_(neg_cond(c), b)
        if b is TRUE:
            return or_(neg_cond(c), a)
    # flatten same-condition nesting
    x = strip_poly(a) if isinstance(a, (Op, Poly)) else a
    if isinstance(x, Op) and x.op == 'ite' and x.args[0] is c:
        a = x.args[1]
    y = strip_poly(b) if isinstance(b, (Op, Poly)) else b
    if isinstance(y, Op) and y.op == 'ite' and y.args[0] is c:
        b = y.args[2]
    if a is b:
        return a
    ta, tb = ty_of(a), ty_of(b)
    if ta in NUMTY and tb in NUMTY:
        if ta == tb and ta != 'num' and c.op in ('lt', 'le'):
            r = as_minmax(c, a, b, ta) or as_clip(c, a, b, ta)
            if r is not None:
                return r
        ty = ta if ta == tb else ('num')
        if 'float' in (ta, tb) and 'num' not in (ta, tb):
            ty = 'float' if ta == tb else 'num'
        return Op('ite', (c, a, b), ty)
    if ta == tb:
        return Op('ite', (c, a, b), ta)
    return Op('ite', (c, a, b), 'any')


def as_minmax(c, a, b, ty):
    """ite(a<b, a, b) and friends -> min / max"""
    if is_special_float(a) or is_special_float(b):
        return None
    p = c.args[0]
    if isinstance(p, Const):
        return None
    d = sub(a, b)
    if isinstance(d, (Unk, Const)):
        return None
    tp, td = terms_of(p), terms_of(d)
    keys = [m for m in tp if m]
    if not keys or len([m for m in td if m]) != len(keys):
        return None
    m0 = keys[0]
    if m0 not in td:
        return None
    k = td[m0] / tp[m0]
    for m in keys:
        if td.get(m, 0) != k * tp[m]:
            return None
    e = td.get((), 0) - k * tp.get((), 0)
    if e != 0:
        if not (ty == 'int' and c.op == 'le' and ((k > 0 and e == -1) or (k < 0 and e == 1))):
            return None
    return min_(a, b) if k > 0 else max_(a, b)


def as_clip(c, a, b, ty):
    """ite(x<lo, lo, min(x, hi)) and friends with lo <= hi -> max(lo, min(x, hi))"""
    for k, inner in ((a, b), (b, a)):
        if not _const(k):
            continue
        at = single_atom(inner)
        if at is None or at.op not in ('min', 'max') or len(at.args) != 2 or ty_of(inner) != ty or ty_of(k) != ty:
            continue
        for x, h in (at.args, at.args[::-1]):
            if not _const(h) or _const(x) or (k.v > h.v if at.op == 'min' else k.v < h.v):
                continue
            r = as_minmax(c, k if k is a else x, x if k is a else k, ty)
            q = single_atom(r) if r is not None else None
            if q is not None and q.op == ('max' if at.op == 'min' else 'min'):
                return (max_ if at.op == 'min' else min_)(k, inner)
    return None


def _mm(which, vals):
    other = 'max' if which == 'min' else 'min'
    ty = ty_of(vals[0])
    flat = []
    for v in vals:
        at = single_atom(v)
        if at is not None and at.op == which and ty_of(v) == ty:
            flat += list(at.args)
        else:
            flat.append(v)
    consts = [v for v in flat if _const(v)]
    rest = []
    for v in flat:
        if not _const(v) and v not in rest:
            rest.append(v)
    c = None
    for v in consts:
        if c is None or (v.v < c.v if which == 'min' else v.v > c.v):
            c = v
    # constant differences
    keep = []
    for v in rest:
        dom = False
        for w in rest:
            if w is v:
                continue
            d = sub(w, v)
            if isinstance(d, Const) and not isinstance(d, Unk):
                if (d.v < 0 if which == 'min' else d.v > 0):
                    dom = True
                    break
        if not dom:
            keep.append(v)
    rest = keep
    if c is not None and which == 'max':
        # max(c, min(d, y)) -> min(d, max(c, y)) for c <= d
        out = []
        outer = []
        for v in rest:
            at = single_atom(v)
            if at is not None and at.op == 'min' and ty_of(v) == ty and len(rest) == 1:
                ds = [x for x in at.args if _const(x)]
                if ds and ds[0].v >= c.v:
                    ys = [x for x in at.args if not _const(x)]
                    inner = _mm('min', ys) if len(ys) > 1 else ys[0]
                    return _mm('min', [ds[0], _mm('max', [c, inner])])
                if ds and ds[0].v <= c.v:
                    return c
            out.append(v)
    if c is not None and which == 'min' and len(rest) == 1:
        at = single_atom(rest[0])
        if at is not None and at.op == 'max' and ty_of(rest[0]) == ty:
            ds = [x for x in at.args if _const(x)]
            if ds and ds[0].v >= c.v:
                return c
    if not rest:
        return c
    allv = rest + ([c] if c is not None else [])
    if len(allv) == 1:
        return allv[0]
    allv = sorted(allv, key=lambda v: (isinstance(v, Const), _vrank(v)))
    return atom(which, *allv, ty=ty)


_val_rank = {}


def _vrank(v):
    r = _val_rank.get(v)
    if r is None:
        r = _val_rank[v] = len(_val_rank)
    return r


def min_(*vs):
    return _mm('min', list(vs))


def max_(*vs):
    return _mm('max', list(vs))


def mm_gate(a):
    """min/max atom -> (condition, value when true, value when false)"""
    x = a.args[0]
    rest = a.args[1] if len(a.args) == 2 else _mm(a.op, list(a.args[1:]))
    if a.op == 'min':
        return compare('le', x, rest), x, rest
    return compare('ge', x, rest), x, rest


def is_ite(v):
    if isinstance(v, Op) and v.op == 'ite':
        return v
    if isinstance(v, Poly):
        a = single_atom(v)
        if a is not None and a.op == 'ite':
            if v.ty == 'float' and a.ty != 'float':
                return Op('ite', (a.args[0], as_float(a.args[1]), as_float(a.args[2])), 'float')
            return a
    return None


# ---------------------------------------------------------------- traversal / substitution

def children(v):
    if isinstance(v, Op):
        return [a for a in v.args if isinstance(a, Val)]
    if isinstance(v, Poly):
        return [a for m in v.t for a, e in m]
    if isinstance(v, Tup):
        return list(v.items)
    return []


def free_ops(v, memo=None):
    """set of all Op subterms"""
    if v._fv is not None:
        return v._fv
    s = set()
    if isinstance(v, Op):
        s.add(v)
    for c in children(v):
        s |= free_ops(c)
    s = frozenset(s)
    v._fv = s
    return s


def has_unk(v):
    if isinstance(v, Unk):
        return v
    seen = set()
    st = [v]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if isinstance(x, Unk):
            return x
        st.extend(children(x))
    return None


def rebuild(op, args, ty):
    """re-simplifying constructor for Op"""
    if op == 'ite':
        return ite(*args)
    if op == 'floor':
        return floor_(args[0])
    if op == 'fdiv':
        return floordiv(*args)
    if op == 'pow':
        return power(*args)
    if op == 'exp':
        return exp_(args[0])
    if op == 'ln':
        return ln_(args[0])
    if op == 'base':
        return args[0]
    if op in ('min', 'max'):
        u = unk_of(*args)
        if u:
            return u
        if any(is_special_float(x) for x in args):
            return Unk('min/max of nan or inf')
        if len({ty_of(x) for x in args}) > 1:
            args = [as_float(x) for x in args]
        return _mm(op, list(args))
    if op in ('lt', 'le', 'eq'):
        return mkcmp(op, args[0])
    if op == 'not':
        return neg_cond(args[0])
    if op == 'and':
        return and_(*args)
    if op == 'or':
        return or_(*args)
    f = REBUILD.get(op)
    if f:
        return f(*args)
    return Op(op, tuple(args), ty)


REBUILD = {}


def subst(v, env, memo=None):
    """replace Op subterms according to env (dict Op->Val)"""
    if memo is None:
        memo = {}
    return _subst(v, env, memo)


def _subst(v, env, memo):
    if isinstance(v, (Const, Unk, Ref, Special)):
        return v
    r = memo.get(v)
    if r is not None:
        return r
    if isinstance(v, Op):
        if v in env:
            r = env[v]
        else:
            fo = free_ops(v)
            if not any(k in fo for k in env):
                r = v
            else:
                args = [(_subst(a, env, memo) if isinstance(a, Val) else a) for a in v.args]
                r = rebuild(v.op, args, v.ty)
    elif isinstance(v, Poly):
        fo = free_ops(v)
        if not any(k in fo for k in env):
            r = v
        else:
            r = subst_poly(v, lambda a: _subst(a, env, memo))
    elif isinstance(v, Tup):
        r = Tup(tuple(_subst(x, env, memo) for x in v.items))
    else:
        r = v
    memo[v] = r
    return r


def subst_poly(v, f):
    total = Const(0)
    keep = {}
    parts = []
    for m, c in v.t.items():
        new = [(a, e, f(a)) for a, e in m]
        if all(n is a for a, e, n in new):
            keep[m] = c
            continue
        p = mkpoly({(): c}, v.ty) if c.denominator == 1 or v.ty != 'int' else Const(float(c))
        if v.ty == 'int' and c.denominator == 1:
            p = Const(int(c))
        else:
            p = mkpoly({(): c}, 'float')
            if isinstance(p, Const) and p.v == 0:
                p = Const(0.0)
        for a, e, n in new:
            if isinstance(n, Unk):
                return n
            if not numeric_ok(n):
                return Unk('non numeric in arithmetic')
            if e > 0:
                for _ in range(e):
                    p = mul(p, n)
            else:
                for _ in range(-e):
                    try:
                        p = truediv(p, n)
                    except DivZero:
                        return Unk('division by zero')
            if isinstance(p, Unk):
                return p
        parts.append(p)
    r = mkpoly(keep, v.ty) if keep else Const(0)
    for p in parts:
        r = add(r, p)
    if isinstance(r, Unk):
        return r
    if v.ty == 'float':
        r = as_float(r)
    elif v.ty == 'int' and isinstance(r, Poly):
        r = retag(r, 'int')
    return r


# ---------------------------------------------------------------- operators for writing specifications

def wrap(x):
    return x if isinstance(x, Val) else Const(x)


Val.__add__ = lambda a, b: add(a, wrap(b))
Val.__radd__ = lambda a, b: add(wrap(b), a)
Val.__sub__ = lambda a, b: sub(a, wrap(b))
Val.__rsub__ = lambda a, b: sub(wrap(b), a)
Val.__mul__ = lambda a, b: mul(a, wrap(b))
Val.__rmul__ = lambda a, b: mul(wrap(b), a)
Val.__truediv__ = lambda a, b: truediv(a, wrap(b))
Val.__rtruediv__ = lambda a, b: truediv(wrap(b), a)
Val.__neg__ = lambda a: neg(a)
Val.__pow__ = lambda a, b: power(a, wrap(b))
Val.lt = lambda a, b: compare('lt', a, wrap(b))
Val.le = lambda a, b: compare('le', a, wrap(b))
Val.gt = lambda a, b: compare('gt', a, wrap(b))
Val.ge = lambda a, b: compare('ge', a, wrap(b))
Val.eq = lambda a, b: compare('eq', a, wrap(b))


def short(v, n=400):
    """bounded rendering of a (possibly huge, shared) term"""
    out = []
    left = [n]

    def w(s):
        out.append(s)
        left[0] -= len(s)

    def go(v):
        if left[0] < 0:
            return
        if isinstance(v, Poly):
            w('(')
            first = True
            for m, c in v.t.items():
                if left[0] < 0:
                    break
                if not first:
                    w(' + ')
                first = False
                w('%.6g' % float(c))
                for a, e in m:
                    w('*')
                    go(a)
                    if e != 1:
                        w('^%d' % e)
            w(')')
        elif isinstance(v, Op):
            if v.op == 'sym':
                w(str(v.args[0]))
                return
            w(v.op + '(')
            for i, a in enumerate(v.args):
                if i:
                    w(', ')
                if isinstance(a, Val):
                    go(a)
                else:
                    w(str(a)[:40])
                if left[0] < 0:
                    break
            w(')')
        elif isinstance(v, Tup):
            w('<')
            for a in v.items:
                go(a)
                w(', ')
                if left[0] < 0:
                    break
            w('>')
        else:
            w(repr(v)[:200])
    go(v)
    s = ''.join(out)
    return s if left[0] >= 0 else s[:n] + '...'
