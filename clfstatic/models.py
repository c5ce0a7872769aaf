"""Abstract semantics of Python-2 builtins, containers, numpy, strings, files, XML."""
import ast, math, os, struct, itertools
from .terms import *
from . import terms as T
from .state import *
from .logic import Facts

# ---------------------------------------------------------------- setup

EXC_TREE = {
    'BaseException': 'object', 'Exception': 'BaseException', 'StandardError': 'Exception', 'KeyboardInterrupt': 'BaseException',
    'SystemExit': 'BaseException', 'ArithmeticError': 'StandardError', 'ZeroDivisionError': 'ArithmeticError',
    'OverflowError': 'ArithmeticError', 'AttributeError': 'StandardError', 'LookupError': 'StandardError',
    'IndexError': 'LookupError', 'KeyError': 'LookupError', 'NameError': 'StandardError',
    'UnboundLocalError': 'NameError', 'TypeError': 'StandardError', 'ValueError': 'StandardError',
    'EnvironmentError': 'StandardError', 'IOError': 'EnvironmentError', 'OSError': 'EnvironmentError',
    'ImportError': 'StandardError', 'RuntimeError': 'StandardError', 'NotImplementedError': 'RuntimeError',
    'AssertionError': 'StandardError', 'StopIteration': 'Exception', 'Warning': 'Exception', 'SyntaxError': 'StandardError',
    'RuntimeWarning': 'Warning', 'ParseError': 'SyntaxError', 'EOFError': 'StandardError', 'UnicodeError': 'ValueError', 'UserWarning': 'Warning',
}


def setup(I):
    from .interp import ClassInfo

    def mk(name, base):
        ci = ClassInfo()
        ci.name, ci.path, ci.node, ci.builtin = name, None, None, True
        ci.bases = (I.builtin_classes[base],) if base else ()
        I.builtin_classes[name] = I.new('class', cls=None, d={}, meta=ci)
    mk('object', None)
    mk('type', 'object')
    todo = dict(EXC_TREE)
    while todo:
        for k, b in list(todo.items()):
            if b in I.builtin_classes:
                mk(k, b)
                del todo[k]
    tc = I.st.get(I.builtin_classes['type'].oid)
    tc.d['__new__'] = Op('staticmethod', (Op('ext', ('type.__new__',), 'ext'),), 'sm')
    tc.d['__init__'] = Op('staticmethod', (Op('ext', ('type.__init__',), 'ext'),), 'sm')
    oc = I.st.get(I.builtin_classes['object'].oid)
    oc.d['__new__'] = Op('staticmethod', (Op('ext', ('object.__new__',), 'ext'),), 'sm')
    oc.d['__init__'] = Op('staticmethod', (Op('ext', ('type.__init__',), 'ext'),), 'sm')
    I.world = I.new('world', d={})
    I.vfs = {}
    I.cli_args = None
    I.prints = []
    I.np_tags = {}


BUILTIN_FUNCS = set('''len range xrange map filter zip min max pow int float str bool list dict tuple set abs sum any all
enumerate reversed sorted isinstance issubclass type repr iter next open print getattr setattr hasattr round divmod chr ord
hex reduce callable id long unicode basestring staticmethod classmethod property object super vars dir frozenset cmp unichr
bytes bytearray file raw_input input globals locals hash slice buffer memoryview delattr'''.split())


def builtin(I, name):
    if name in I.builtin_classes:
        return I.builtin_classes[name]
    if name in ('True', 'False'):
        return TRUE if name == 'True' else FALSE
    if name == 'None':
        return NONE
    if name == 'NotImplemented':
        return NOTIMPL
    if name in BUILTIN_FUNCS:
        return Op('ext', ('builtins.' + name,), 'ext')
    if name == '__name__':
        return Const('module')
    if name == '__file__':
        return Const('file')
    return None


EXT_ALIAS = {'numpy': 'np', 'xml.etree.ElementTree': 'etree', 'xml.etree.cElementTree': 'etree', 'OpenImageIO': 'oiio', 'PyOpenColorIO': 'OCIO'}
KNOWN_EXT = set('''numpy math os os.path sys struct gzip optparse timeit time traceback warnings array multiprocessing copy re
string itertools functools operator xml xml.etree xml.etree.ElementTree xml.dom xml.dom.minidom OpenImageIO PyOpenColorIO scipy
scipy.interpolate shutil tempfile collections argparse types io contextlib codecs binascii decimal fractions logging json random
multiprocessing.dummy threading errno glob platform subprocess textwrap locale __future__ datetime hashlib bisect heapq operator weakref abc pprint csv cmath numbers inspect pickle cPickle StringIO cStringIO zlib bz2 base64 uuid stat fnmatch getopt atexit gc signal queue Queue sets dis numpy.lib numpy.core ctypes pkgutil importlib unittest doctest cProfile profile'''.split())


def known_ext(name):
    return name in KNOWN_EXT


def ext_alias(name):
    return EXT_ALIAS.get(name, name)


# ---------------------------------------------------------------- helpers

def num(v):
    """numeric view of a value (bools count, np wrappers stripped)"""
    return strip_np(boolnum(v))


def strip_np(v):
    a = T.single_atom(v) if isinstance(v, (Op, Poly)) else None
    if a is not None and a.op in ('f32', 'f64'):
        return as_float(a.args[0])
    return v


def type_error(I, msg, *vs):
    for v in vs:
        if isinstance(v, Unk):
            return v
    I.raise_name('TypeError', msg)


def is_str(v):
    return (isinstance(v, Const) and isinstance(v.v, str)) or (isinstance(v, Op) and v.ty == 'str')


def kind_of(I, v):
    if isinstance(v, Ref):
        return I.obj(v).kind
    return None


def dedup(I, items):
    out = []
    for x in items:
        if x not in out:
            out.append(x)
    return out


def is_range_items(items):
    if not items or not all(isinstance(x, Const) and isinstance(x.v, int) and not isinstance(x.v, bool) for x in items):
        return False
    if len(items) < 2:
        return True
    d = items[1].v - items[0].v
    return all(items[i + 1].v - items[i].v == d for i in range(len(items) - 1))


# ---------------------------------------------------------------- truth / comparison

def truth(I, v):
    if isinstance(v, Const):
        return TRUE if v.v else FALSE
    if isinstance(v, Unk):
        return v
    if isinstance(v, Poly):
        return neg_cond(compare('eq', v, Const(0)))
    if isinstance(v, Op):
        if v.ty == 'bool':
            if v.op == 'ite':
                return or_(and_(v.args[0], truth(I, v.args[1])), and_(neg_cond(v.args[0]), truth(I, v.args[2])))
            return v
        if v.op == 'ite':
            a, b = truth_or(I, v.args[0], v.args[1], v.args[2])
            return ite(v.args[0], a, b)
        if v.ty in NUMTY:
            return neg_cond(compare('eq', v, Const(0)))
        if v.ty == 'str':
            if v.op == 'cat' and any(isinstance(p, Const) and p.v for p in v.args):
                return TRUE
            if v.op in ('str', 'fmt', 'pad', 'hex', 'xmltext', 'dirname_'):
                return TRUE
            return Op('nonempty', (v,), 'bool')
        return TRUE
    if isinstance(v, Tup):
        return TRUE if v.items else FALSE
    if isinstance(v, Ref):
        o = I.obj(v)
        if o.kind in ('list', 'set'):
            n = seq_len(I, o)
            return neg_cond(compare('eq', n, Const(0)))
        if o.kind == 'dict':
            cs = [present(x) for x in o.d.values()]
            return or_(*cs) if cs else FALSE
        if o.kind == 'elem':
            return TRUE if o.items else FALSE
        if o.kind == 'arr':
            n = arr_size(o)
            if n is Const(1):
                return truth(I, arr_get_flat(I, v, Const(0)))
            if isinstance(n, Const) and n.v == 0:
                return FALSE
            I.raise_name('ValueError', 'truth value of an array is ambiguous')
        if o.kind == 'inst':
            for nm in ('__nonzero__', '__bool__'):
                c = I.class_attr(o.cls, nm)
                if c is not None:
                    return truth(I, I.call(I.bind(c, v, o.cls), [], {}))
            c = I.class_attr(o.cls, '__len__')
            if c is not None:
                return truth(I, I.call(I.bind(c, v, o.cls), [], {}))
        return TRUE
    if v is NOTIMPL or v is ELLIPSIS:
        return TRUE
    return Unk('truth of %r' % (v,))


def truth_or(I, c, a, b):
    return truth(I, a), truth(I, b)


def present(v):
    from .interp import present_cond
    return present_cond(v)


CMP = {ast.Lt: 'lt', ast.LtE: 'le', ast.Gt: 'gt', ast.GtE: 'ge', ast.Eq: 'eq', ast.NotEq: 'ne'}


def compare_op(I, op, a, b):
    t = type(op)
    if t is ast.Is:
        return is_(I, a, b)
    if t is ast.IsNot:
        return neg_cond(is_(I, a, b))
    if t is ast.In:
        return contains(I, b, a)
    if t is ast.NotIn:
        return neg_cond(contains(I, b, a))
    o = CMP[t]
    if isinstance(a, Unk):
        return a
    if isinstance(b, Unk):
        return b
    if o in ('eq', 'ne'):
        r = equals(I, a, b)
        return neg_cond(r) if o == 'ne' and not isinstance(r, Ref) else (r if o == 'eq' or isinstance(r, Ref) else r)
    if numeric_ok(a) and numeric_ok(b):
        return compare(o, num(a), num(b))
    a, b = I.force(a), I.force(b)
    if numeric_ok(a) and numeric_ok(b):
        return compare(o, num(a), num(b))
    # Python 2 ordering of None: smaller than everything
    if a is NONE or b is NONE:
        x = 0 if a is NONE else 1
        y = 0 if b is NONE else 1
        return TRUE if {'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[o] else FALSE
    if isinstance(a, Const) and isinstance(b, Const):
        x, y = a.v, b.v
        if isinstance(x, str) and isinstance(y, str):
            return TRUE if {'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[o] else FALSE
        if isinstance(x, str) != isinstance(y, str):   # py2: numbers < strings
            p, q = (1 if isinstance(x, str) else 0), (1 if isinstance(y, str) else 0)
            return TRUE if {'lt': p < q, 'le': p <= q, 'gt': p > q, 'ge': p >= q}[o] else FALSE
    if is_str(a) and numeric_ok(b) or is_str(b) and numeric_ok(a):
        p, q = (1 if is_str(a) else 0), (1 if is_str(b) else 0)
        return TRUE if {'lt': p < q, 'le': p <= q, 'gt': p > q, 'ge': p >= q}[o] else FALSE
    return I.unk('ordering comparison')


def is_(I, a, b):
    if isinstance(a, Unk) or isinstance(b, Unk):
        return T.unk_of(a, b)
    if isinstance(a, Op) and a.op == 'ite' and a.ty != 'bool':
        return or_(and_(a.args[0], is_(I, a.args[1], b)), and_(neg_cond(a.args[0]), is_(I, a.args[2], b)))
    if isinstance(b, Op) and b.op == 'ite' and b.ty != 'bool':
        return is_(I, b, a)
    if a is b:
        return TRUE
    if isinstance(a, Const) and isinstance(b, Const):
        return FALSE if type(a.v) is not type(b.v) or a.v != b.v else TRUE
    if a is NONE or b is NONE:
        return FALSE
    if isinstance(a, Ref) and isinstance(b, Ref):
        return FALSE
    if isbool(a) and isbool(b):
        return equals(I, a, b)
    if isinstance(a, Op) and a.op == 'ext' and isinstance(b, Op) and b.op == 'ext':
        return FALSE
    if isbool(a) or isbool(b):
        return FALSE
    return I.unk('identity comparison')


def equals(I, a, b, depth=0):
    """== ; returns a condition (or Ref to a bool array for numpy operands)"""
    if isinstance(a, Unk) or isinstance(b, Unk):
        return T.unk_of(a, b)
    if a is b and not is_num(a):
        return TRUE
    if isbool(a) and isbool(b):
        if isinstance(a, Const):
            return b if a.v else neg_cond(b)
        if isinstance(b, Const):
            return a if b.v else neg_cond(a)
        return or_(and_(a, b), and_(neg_cond(a), neg_cond(b)))
    if numeric_ok(a) and numeric_ok(b):
        return compare('eq', num(a), num(b))
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Op) and x.op == 'ite' and x.ty != 'bool':
            c = x.args[0]
            p = equals(I, x.args[1], y, depth)
            q = equals(I, x.args[2], y, depth)
            if isinstance(p, (Unk, Ref)) or isinstance(q, (Unk, Ref)):
                I.split_on(c)
            return or_(and_(c, p), and_(neg_cond(c), q))
    if isinstance(a, Const) and isinstance(b, Const):
        return TRUE if a.v == b.v and type(a.v) == type(b.v) else FALSE
    if a is ABSENT or b is ABSENT:
        return FALSE
    if isinstance(a, Tup) and isinstance(b, Tup):
        if len(a.items) != len(b.items):
            return FALSE
        return and_(*[as_cond(I, equals(I, x, y, depth + 1)) for x, y in zip(a.items, b.items)])
    if is_str(a) and is_str(b):
        return str_eq(I, a, b)
    if isinstance(a, Ref) and isinstance(b, Ref):
        oa, ob = I.obj(a), I.obj(b)
        if oa.kind == 'arr' or ob.kind == 'arr':
            return arr_compare(I, a, b)
        if oa.kind == 'inst' or ob.kind == 'inst':
            for x, o, y in ((a, oa, b), (b, ob, a)):
                if o.kind == 'inst':
                    c = I.class_attr(o.cls, '__eq__')
                    if c is not None:
                        return I.call(I.bind(c, x, o.cls), [y], {})
            return FALSE
        if oa.kind != ob.kind:
            return FALSE
        if oa.kind == 'list':
            na, nb = seq_len(I, oa), seq_len(I, ob)
            c = compare('eq', na, nb)
            r = I.decide(c)
            if r is False:
                return FALSE
            if isinstance(na, Const) and isinstance(nb, Const):
                return and_(*[as_cond(I, equals(I, seq_read(I, a.oid, Const(i)), seq_read(I, b.oid, Const(i)), depth + 1)) for i in range(na.v)])
            return I.unk('equality of lists of unknown length')
        if oa.kind == 'dict':
            if set(oa.d) != set(ob.d):
                return FALSE
            return and_(*[as_cond(I, equals(I, oa.d[k], ob.d[k], depth + 1)) for k in oa.d])
        if oa.kind == 'set':
            return TRUE if set(oa.items) == set(ob.items) else FALSE
        return FALSE
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Ref):
            o = I.obj(x)
            if o.kind == 'arr' and y is not NONE:
                return arr_compare(I, x, y)
            if o.kind == 'arr':
                # numpy: elementwise comparison with None
                return arr_compare(I, x, y)
            if o.kind == 'inst':
                c = I.class_attr(o.cls, '__eq__')
                if c is not None:
                    return I.call(I.bind(c, x, o.cls), [y], {})
            if o.kind in ('opaque', 'ext'):
                return FALSE if y is NONE else Op('opaque_eq', (x, y), 'bool')
            if o.kind == 'list' and isinstance(y, Tup):
                return FALSE
            return FALSE
    if isinstance(a, Op) and a.ty in ('ext', 'bound') or isinstance(b, Op) and b.ty in ('ext', 'bound'):
        return FALSE
    if isinstance(a, Op) and a.ty in ('opaque',) or isinstance(b, Op) and b.ty in ('opaque',):
        if a is NONE or b is NONE:
            return Op('isnone', (b if a is NONE else a,), 'bool') if (a if b is NONE else b).op == 'maybe' else FALSE
        return Op('opaque_eq', (a, b), 'bool')
    ta, tb = T.ty_of(a), T.ty_of(b)
    if ta != tb and {ta, tb} & {'none', 'str'} and 'any' not in (ta, tb):
        return FALSE
    return I.unk('equality of %s and %s' % (ta, tb))


def as_cond(I, r):
    if isinstance(r, Ref):
        return truth(I, r)
    if isinstance(r, Op) and r.ty == 'bool' or isinstance(r, (Const, Unk)):
        return r
    return truth(I, r)


def str_eq(I, a, b):
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Op) and x.op in ('lower', 'upper') and isinstance(y, Const):
            if (x.op == 'lower' and y.v != y.v.lower()) or (x.op == 'upper' and y.v != y.v.upper()):
                return FALSE
    if isinstance(a, Op) and a.op == 'str' and isinstance(b, Op) and b.op == 'str':
        return as_cond(I, equals(I, a.args[0], b.args[0]))
    for x, y in ((a, b), (b, a)):
        if isinstance(y, Const) and isinstance(x, Op):
            if x.op in ('str', 'fmt') and not any(ch.isdigit() for ch in y.v):
                return FALSE
            if x.op == 'cat':
                lits = [p.v for p in x.args if isinstance(p, Const)]
                if any(l not in y.v for l in lits):
                    return FALSE
                if isinstance(x.args[0], Const) and not y.v.startswith(x.args[0].v):
                    return FALSE
                if isinstance(x.args[-1], Const) and not y.v.endswith(x.args[-1].v):
                    return FALSE
            if x.op == 'sym' and len(x.args) > 1 and dict(x.args[1]).get('notin') and y.v in dict(x.args[1])['notin']:
                return FALSE
    if T._rank(a if isinstance(a, Op) else b) > T._rank(b if isinstance(b, Op) else a):
        a, b = b, a
    if isinstance(a, Const):
        a, b = b, a
    return Op('streq', (a, b), 'bool')


def contains(I, c, x):
    c = I.force(c)
    if isinstance(c, Unk):
        return c
    if isinstance(x, Unk):
        return x
    if isinstance(c, Ref):
        o = I.obj(c)
        if o.kind == 'dict':
            cs = []
            for k, v in o.d.items():
                e = as_cond(I, equals(I, k, x))
                if e is FALSE:
                    continue
                cs.append(and_(e, present(v)))
            return or_(*cs) if cs else FALSE
        if o.kind in ('list', 'set', 'arr'):
            items = I.iterate(c)
            if items is None:
                return I.unk('membership in unknown sequence')
            return or_(*[as_cond(I, equals(I, y, x)) for y in items]) if items else FALSE
        if o.kind == 'inst':
            m = I.class_attr(o.cls, '__contains__')
            if m is not None:
                return truth(I, I.call(I.bind(m, c, o.cls), [x], {}))
            items = I.iterate(c)
            if items is not None:
                return or_(*[as_cond(I, equals(I, y, x)) for y in items]) if items else FALSE
        return I.unk('membership')
    if isinstance(c, Tup):
        return or_(*[as_cond(I, equals(I, y, x)) for y in c.items]) if c.items else FALSE
    if is_str(c):
        x = I.force(x)
        if isinstance(c, Const) and isinstance(x, Const):
            return TRUE if x.v in c.v else FALSE
        if isinstance(c, Op) and c.op == 'cat' and isinstance(x, Const) and any(isinstance(p, Const) and x.v in p.v for p in c.args):
            return TRUE
        return Op('strin', (x, c), 'bool')
    if c is NONE:
        I.raise_name('TypeError', "argument of type 'NoneType' is not iterable")
    return I.unk('membership')


# ---------------------------------------------------------------- sequences

def seq_len(I, o):
    if o.kind == 'arr':
        return o.meta[2][0] if o.meta[2] else Const(0)
    if isinstance(o.items, FBuf):
        return o.items.n
    return Const(len(o.items))


def sel(items, idx):
    if isinstance(idx, Const):
        return items.items[idx.v]
    return None


def _rebuild_sel(items, idx):
    if isinstance(idx, Const) and isinstance(idx.v, int) and 0 <= idx.v < len(items.items):
        return items.items[idx.v]
    tys = set(T.ty_of(x) for x in items.items)
    ty = tys.pop() if len(tys) == 1 else ('float' if tys <= {'int', 'float', 'num'} else 'any')
    o = Op('sel', (items, idx), ty)
    return mkpoly({((o, 1),): T.Fraction(1)}, ty) if ty in NUMTY else o


T.REBUILD['sel'] = _rebuild_sel


def rd(name, idx, ty='float'):
    if isinstance(idx, Unk):
        return idx
    if isinstance(idx, Const) and isinstance(idx.v, float):
        idx = Const(int(idx.v))
    if ty in NUMTY:
        return T.atom('rd', name, idx, ty=ty)
    return Op('rd', (name, idx), ty)


T.REBUILD['rd'] = lambda name, idx: rd(name, idx, RDTY.get(name, 'float'))
RDTY = {}


def fdiv_simplify(facts, v):
    """drop floor-division atoms known to be zero"""
    for _ in range(4):
        todo = {}
        for o in free_ops(v):
            if o.op == 'fdiv':
                a, b = o.args
                if facts.decide(compare('le', Const(0), a)) is True and facts.decide(compare('lt', a, b)) is True:
                    todo[o] = Const(0)
        if not todo:
            return v
        v = subst(v, todo)
    return v


def solve_vars(facts, vars_, idx_t, idx):
    """solve idx_t(vars) == idx for the loop variables (mixed radix). returns (env, residual conditions) or None"""
    coef = {}
    rest = {}
    for m, c in terms_of(idx_t).items():
        hit = [(a, e) for a, e in m if a in vars_]
        if not hit:
            if any(v in free_ops(a) for a, e in m for v in vars_):
                return None
            rest[m] = c
            continue
        if len(hit) != 1 or hit[0][1] != 1:
            return None
        v = hit[0][0]
        mm = tuple((a, e) for a, e in m if a is not v)
        if any(w in free_ops(a) for a, e in mm for w in vars_):
            return None
        coef.setdefault(v, {})[mm] = c
    for v in vars_:
        if v not in coef:
            return None
    coefs = {v: mkpoly(coef[v], 'int') for v in vars_}
    e = sub(idx, mkpoly(rest, 'int'))
    # a variable counting down is read as its complement counting up
    down = [v for v in vars_ if facts.decide(compare('lt', coefs[v], Const(0))) is True]
    for v in down:
        e = sub(e, mul(coefs[v], sub(vars_[v], Const(1))))
        coefs[v] = mul(Const(-1), coefs[v])
    # order by coefficient size, largest first
    order = []
    left = list(vars_)
    while left:
        best = None
        for v in left:
            ok = all(w is v or facts.decide(compare('le', mul(coefs[w], vars_[w]), coefs[v])) is True for w in left)
            if ok:
                best = v
                break
        if best is None:
            if len(left) == 1:
                best = left[0]
            else:
                return None
        # the remaining ones must jointly fit below the coefficient
        span = Const(0)
        for w in left:
            if w is not best:
                span = add(span, mul(coefs[w], sub(vars_[w], Const(1))))
        if len(left) > 1 and facts.decide(compare('lt', span, coefs[best])) is not True:
            return None
        order.append(best)
        left.remove(best)
    env = {}
    for v in order:
        A = coefs[v]
        if facts.decide(compare('lt', Const(0), A)) is not True:
            return None
        if A is Const(1):
            q = e
        else:
            q = fdiv_simplify(facts, floordiv(e, A))
        env[v] = q
        e = sub(e, mul(A, q))
    for v in down:
        env[v] = sub(sub(vars_[v], Const(1)), env[v])
    return env, e


def fbuf_read(I, fb, idx, facts=None, limit=None):
    facts = facts or I.st.facts
    if isinstance(idx, Unk):
        return idx
    acc = []       # (cond, val)
    stores = fb.stores
    for s in reversed(stores):
        if s.vars:
            vs = {v: n for v, n in s.vars}
            r = solve_vars(facts, vs, s.idx, idx)
            if r is None:
                f2 = facts
                for v, n in s.vars:
                    vp = mkpoly({((v, 1),): T.Fraction(1)}, 'int')
                    f2 = f2.plus(compare('lt', vp, n))
                if f2.decide(compare('eq', s.idx, idx)) is False:
                    continue
                return Unk('array element written at an unresolved index')
            env, resid = r
            cs = [compare('eq', resid, Const(0))]
            for v, n in s.vars:
                cs.append(compare('le', Const(0), env[v]))
                cs.append(compare('lt', env[v], n))
            cs.append(subst(s.cond, env))
            val = subst(s.val, env)
        else:
            cs = [compare('eq', s.idx, idx), s.cond]
            val = s.val
        live = []
        dead = False
        for c in cs:
            d = facts.decide(c) if not isinstance(c, Unk) else None
            if d is False:
                dead = True
                break
            if d is None:
                live.append(c)
        if dead:
            continue
        if not live:
            out = val
            break
        acc.append((and_(*live), val))
        if len(acc) > 40:
            return Unk('too many aliasing stores')
    else:
        b = fb.base
        if b[0] == 'fill':
            out = b[1]
        elif b[0] == 'name':
            out = rd(b[1], idx, b[2])
        elif b[0] == 'items':
            out = read_items(I, b[1], idx, facts)
        elif b[0] == 'alt':
            d = facts.decide(b[1])
            if d is True:
                out = fbuf_read(I, b[2], idx, facts)
            elif d is False:
                out = fbuf_read(I, b[3], idx, facts)
            else:
                out = ite(b[1], fbuf_read(I, b[2], idx, facts), fbuf_read(I, b[3], idx, facts))
        elif b[0] == 'fn':
            out = b[1](idx)
        else:
            out = Unk('buffer base')
    for c, v in reversed(acc):
        out = ite(c, v, out)
    return out


def read_items(I, items, idx, facts):
    if isinstance(idx, Const):
        return items[idx.v]
    if not items:
        return Unk('read of empty list')
    if any(isinstance(x, Ref) for x in items):
        # resolve by splitting
        for i in range(len(items)):
            c = compare('eq', idx, Const(i))
            d = facts.decide(c)
            if d is True:
                return items[i]
            if d is None:
                raise NeedSplit(c)
        return items[-1]
    if len(items) <= 12:
        out = None
        for i in reversed(range(len(items))):
            c = compare('eq', idx, Const(i))
            d = facts.decide(c)
            if d is True:
                return items[i]
            if d is False:
                continue
            out = items[i] if out is None else ite(c, items[i], out)
        return out if out is not None else items[-1]
    return _rebuild_sel(Tup(tuple(items)), idx)


def log_read(I, oid, idx):
    if I.loop_reads and not I.quiet:
        I.loop_reads.append((oid, idx, 0, I.st.facts))


def seq_read(I, oid, idx):
    """raw read, idx already in range"""
    o = I.st.get(oid)
    if isinstance(idx, Unk):
        return idx
    if isinstance(o.items, FBuf):
        log_read(I, oid, idx)
        return fbuf_read(I, o.items, idx)
    if isinstance(idx, Const):
        return o.items[int(idx.v)]
    log_read(I, oid, idx)
    return read_items(I, o.items, idx, I.st.facts)


def seq_write(I, oid, idx, v):
    o = I.st.wr(oid)
    if isinstance(idx, Unk):
        n = o.items.n if isinstance(o.items, FBuf) else Const(len(o.items))
        o.items = FBuf(n, ('fill', Unk('written at unknown index')))
        return
    if isinstance(o.items, FBuf):
        if isinstance(v, Ref):
            v = I.unk('object stored in symbolic list')
        o.items = FBuf(o.items.n, o.items.base, o.items.stores + (Store((), TRUE, idx, v),))
        return
    if isinstance(idx, Const):
        o.items[int(idx.v)] = v
        return
    if any(isinstance(x, Ref) for x in o.items):
        for i in range(len(o.items)):
            c = compare('eq', idx, Const(i))
            d = I.decide(c)
            if d is None:
                raise NeedSplit(c)
            if d:
                o.items[i] = v
                return
    o.items = FBuf(Const(len(o.items)), ('items', tuple(o.items)), (Store((), TRUE, idx, v),))


def norm_index(I, idx, n, what):
    """python index -> non negative, raising IndexError when outside"""
    idx = num(idx) if numeric_ok(idx) else I.force(idx)
    if isinstance(idx, Unk):
        return idx
    if not numeric_ok(idx):
        I.raise_name('TypeError', '%s indices must be integers' % what)
    idx = num(idx)
    if T.ty_of(idx) == 'float':
        if isinstance(idx, Const):
            I.raise_name('TypeError', '%s indices must be integers, not float' % what)
        if not T.is_int_poly(idx):
            I.raise_name('TypeError', '%s indices must be integers, not float' % what)
    if isinstance(idx, Const) and isinstance(n, Const):
        i = int(idx.v)
        if i < 0:
            i += n.v
        if i < 0 or i >= n.v:
            I.event('index', 'index %d out of range for %s of length %d' % (idx.v, what, n.v))
            I.raise_name('IndexError', '%s index out of range' % what)
        return Const(i)
    if isinstance(n, Unk):
        return idx
    neg_ = compare('lt', idx, Const(0))
    d = I.decide(neg_)
    if d is True:
        idx = add(idx, n)
    elif d is None:
        idx2 = ite(neg_, add(idx, n), idx)
        hi = compare('le', n, idx)
        I.raise_if(hi, 'IndexError', '%s index out of range' % what)
        I.raise_if(compare('lt', idx, neg(n)), 'IndexError', '%s index out of range' % what)
        return idx2
    hi = compare('le', n, idx)
    I.raise_if(hi, 'IndexError', '%s index out of range' % what)
    if d is True:
        I.raise_if(compare('lt', idx, Const(0)), 'IndexError', '%s index out of range' % what)
    return idx


def slice_bounds(I, k, n):
    """(start, stop) clipped to [0,n] for a unit-step slice"""
    def clip(v, dflt):
        if v is NONE:
            return dflt
        v = num(v) if numeric_ok(v) else I.force(v)
        if v is NONE:
            return dflt
        if isinstance(v, Unk) or isinstance(n, Unk):
            return T.unk_of(v, n)
        if not numeric_ok(v):
            I.raise_name('TypeError', 'slice indices must be integers')
        v = num(v)
        if T.ty_of(v) == 'float':
            I.raise_name('TypeError', 'slice indices must be integers, not float')
        c = compare('lt', v, Const(0))
        d = I.decide(c)
        if d is None:
            v = ite(c, tmax(I, Const(0), add(v, n)), v)
        elif d:
            v = tmax(I, Const(0), add(v, n))
        return tmin(I, v, n)
    a = clip(k[1], Const(0))
    b = clip(k[2], n)
    return a, b


def tmin(I, a, b):
    c = compare('le', a, b)
    d = I.decide(c) if not isinstance(c, Unk) else None
    if isinstance(c, Unk):
        return c
    if d is True:
        return a
    if d is False:
        return b
    return ite(c, a, b)


def tmax(I, a, b):
    c = compare('le', a, b)
    if isinstance(c, Unk):
        return c
    d = I.decide(c)
    if d is True:
        return b
    if d is False:
        return a
    return ite(c, b, a)


def getitem(I, o, k):
    o = I.force(o)
    if isinstance(o, Unk):
        return I.unk('subscript of unknown')
    if isinstance(o, Ref):
        h = I.obj(o)
        if h.kind == 'dict':
            k = I.force(k)
            return dict_get(I, o, k, None)
        if h.kind == 'list':
            if isinstance(k, tuple):
                return list_slice(I, o, h, k)
            n = seq_len(I, h)
            i = norm_index(I, k, n, 'list')
            return seq_read(I, o.oid, i)
        if h.kind == 'arr':
            return arr_getitem(I, o, h, k)
        if h.kind == 'elem':
            if isinstance(k, Const) and isinstance(k.v, int):
                if -len(h.items) <= k.v < len(h.items):
                    return h.items[k.v]
                I.raise_name('IndexError', 'child index out of range')
            return I.unk('element subscript')
        if h.kind == 'inst':
            m = I.class_attr(h.cls, '__getitem__')
            if m is not None:
                return I.call(I.bind(m, o, h.cls), [k if not isinstance(k, tuple) else I.unk('slice')], {})
            I.raise_name('TypeError', 'object is not subscriptable')
        if h.kind == 'opaque':
            return opaque_term(I, 'item', o, [k])
        if h.kind in ('func', 'class', 'module'):
            I.raise_name('TypeError', 'object is not subscriptable')
        return I.unk('subscript of %s' % h.kind)
    if isinstance(o, Tup):
        if isinstance(k, tuple):
            a, b = slice_bounds(I, k, Const(len(o.items)))
            st = 1 if k[3] is NONE else k[3].v
            if isinstance(a, Const) and isinstance(b, Const):
                if k[3] is not NONE and st < 0:
                    return Tup(tuple(o.items[None if k[1] is NONE else k[1].v:None if k[2] is NONE else k[2].v:st]))
                return Tup(tuple(o.items[a.v:b.v:st]))
            return I.unk('tuple slice')
        i = norm_index(I, k, Const(len(o.items)), 'tuple')
        return read_items(I, list(o.items), i, I.st.facts)
    if is_str(o):
        return str_getitem(I, o, k)
    if o is NONE:
        I.raise_name('TypeError', "'NoneType' object is not subscriptable")
    if numeric_ok(o):
        I.raise_name('TypeError', 'number is not subscriptable')
    if isinstance(o, Op) and o.ty == 'opaque':
        return Op('item', (o, k if isinstance(k, Val) else Const('slice')), 'opaque')
    return I.unk('subscript of %r' % (o,))


def list_slice(I, o, h, k):
    n = seq_len(I, h)
    if k[0] != 'slice':
        return I.unk('tuple index of list')
    step = k[3]
    if step is not NONE and step is not Const(1):
        if isinstance(h.items, list) and isinstance(step, Const) and all(x is NONE or isinstance(x, Const) for x in k[1:3]):
            g = lambda x: None if x is NONE else x.v
            return I.newlist(h.items[g(k[1]):g(k[2]):step.v])
        if isinstance(step, Const) and step.v > 0:
            a, b = slice_bounds(I, k, n)
            cnt = floordiv(add(sub(b, a), Const(step.v - 1)), step)
            fb = as_fbuf(h)
            return I.new('list', items=FBuf(cnt, ('fn', lambda i, fb=fb, a=a: fbuf_read(I, fb, add(a, mul(step, i))), (o.oid, a, step))))
        return I.unk('extended slice')
    a, b = slice_bounds(I, k, n)
    if isinstance(a, Const) and isinstance(b, Const) and isinstance(h.items, list):
        return I.newlist(h.items[a.v:b.v])
    d = sub(b, a)
    if isinstance(d, Unk):
        return I.unk('slice bounds')
    if isinstance(d, Const):
        cnt = max(0, d.v)
        return I.newlist([seq_read(I, o.oid, add(a, Const(i))) for i in range(cnt)])
    if isinstance(T.is_ite(d), Op) and all(isinstance(x, Const) for x in T.is_ite(d).args[1:]):
        I.split_on(T.is_ite(d).args[0])
    for x in sorted(free_ops(d), key=lambda x: len(free_ops(x))):
        if x.op == 'ite' and any(isinstance(y, Const) for y in x.args[1:]) and I.decide(x.args[0]) is None \
                and all(isinstance(y, Const) or T.is_ite(y) is not None for y in x.args[1:]):
            I.split_on(x.args[0])
    log_read(I, o.oid, Unk('slice'))
    fb = as_fbuf(h)
    return I.new('list', items=FBuf(tmax(I, Const(0), d), ('fn', lambda i, fb=fb, a=a: fbuf_read(I, fb, add(a, i)), (o.oid, a))))


def as_fbuf(h):
    if isinstance(h.items, FBuf):
        return h.items
    return FBuf(Const(len(h.items)), ('items', tuple(h.items)))


def setitem(I, o, k, v):
    o = I.force(o)
    if isinstance(o, Unk):
        I.unk('subscript store on unknown')
        return
    if isinstance(o, Ref):
        h = I.obj(o)
        if h.kind == 'dict':
            k = I.force(k)
            dict_set(I, o, k, v)
            return
        if h.kind == 'list':
            if isinstance(k, tuple):
                items = I.iterate(I.force(v))
                a, b = slice_bounds(I, k, seq_len(I, h))
                d = sub(b, a)
                if items is not None and isinstance(a, Const) and isinstance(b, Const) and isinstance(h.items, list) and k[3] is NONE:
                    w = I.wr(o)
                    w.items[a.v:max(a.v, b.v)] = items
                    return
                if items is not None and isinstance(d, Const) and d.v == len(items):
                    for i, x in enumerate(items):
                        seq_write(I, o.oid, add(a, Const(i)), x)
                    return
                I.unk('slice assignment')
                seq_write(I, o.oid, Unk('slice'), NONE)
                return
            i = norm_index(I, k, seq_len(I, h), 'list')
            seq_write(I, o.oid, i, v)
            return
        if h.kind == 'arr':
            return arr_setitem(I, o, h, k, v)
        if h.kind == 'inst':
            m = I.class_attr(h.cls, '__setitem__')
            if m is not None:
                I.call(I.bind(m, o, h.cls), [k, v], {})
                return
            I.raise_name('TypeError', 'object does not support item assignment')
        I.unk('subscript store on %s' % h.kind)
        return
    if o is NONE or isinstance(o, (Tup, Const)):
        I.raise_name('TypeError', 'object does not support item assignment')
    I.unk('subscript store')


def delitem(I, o, k):
    h = I.obj(o)
    if h.kind == 'dict':
        k = I.force(k)
        if k not in h.d:
            I.raise_name('KeyError', repr(k))
        I.wr(o).d.pop(k)
        return
    if h.kind == 'list' and isinstance(k, Const) and isinstance(h.items, list):
        n = norm_index(I, k, Const(len(h.items)), 'list')
        del I.wr(o).items[n.v]
        return
    if h.kind == 'list' and isinstance(k, tuple) and isinstance(h.items, list):
        a, b = slice_bounds(I, k, Const(len(h.items)))
        if isinstance(a, Const) and isinstance(b, Const):
            del I.wr(o).items[a.v:b.v]
            return
    I.unk('del item')


def hashable_key(I, k):
    if isinstance(k, Const) and isinstance(k.v, float) and k.v == int(k.v) if isinstance(k, Const) and isinstance(k.v, float) and not T.is_special_float(k) else False:
        return Const(int(k.v))
    return k


def dict_lookup_key(I, h, k):
    """the stored key equal to k, or None"""
    k = hashable_key(I, k)
    if k in h.d:
        return k
    if isinstance(k, Const):
        for x in h.d:
            if not isinstance(x, Const) and not isinstance(x, Ref):
                e = as_cond(I, equals(I, x, k))
                r = I.decide(e)
                if r is True:
                    return x
                if r is None:
                    raise NeedSplit(e)
        return None
    if isinstance(k, (Ref, Unk)):
        return None
    for x in list(h.d):
        e = as_cond(I, equals(I, x, k))
        r = I.decide(e) if not isinstance(e, Unk) else None
        if r is True:
            return x
        if r is None and not isinstance(e, Unk):
            raise NeedSplit(e)
    return None


def dict_get(I, o, k, default):
    h = I.obj(o)
    if isinstance(k, Unk):
        return I.unk('dict lookup of unknown key')
    kk = dict_lookup_key(I, h, k)
    if kk is None:
        if default is not None:
            return default
        I.raise_name('KeyError', repr(k))
    v = h.d[kk]
    pc = present(v)
    if pc is TRUE:
        return v
    from .interp import strip_absent
    if default is not None:
        return ite(pc, strip_absent(v) if pc is not FALSE else default, default)
    I.raise_if(neg_cond(pc), 'KeyError', repr(k))
    return strip_absent(v)


def dict_set(I, o, k, v):
    if isinstance(k, Unk):
        I.unk('dict store at unknown key')
        return
    if isinstance(k, Ref) and I.obj(k).kind in ('list', 'dict', 'set'):
        I.raise_name('TypeError', 'unhashable type')
    kk = dict_lookup_key(I, I.obj(o), k)
    I.wr(o).d[hashable_key(I, k) if kk is None else kk] = v


def dict_items(I, o):
    """list of (key, value) - splits when presence is conditional"""
    out = []
    for k, v in list(I.obj(o).d.items()):
        pc = present(v)
        if pc is not TRUE:
            r = I.decide(pc)
            if r is None:
                I.split_on(pc)
            if r is False:
                continue
            from .interp import strip_absent
            v = strip_absent(v)
        out.append((k, v))
    return out


def iter_desc(I, v):
    """('items', [..]) or ('fn', n, f) or None"""
    v = I.force(v)
    if isinstance(v, Unk):
        return None
    if isinstance(v, Tup):
        return ('items', list(v.items))
    if isinstance(v, Ref):
        h = I.obj(v)
        if h.kind in ('list', 'set'):
            if isinstance(h.items, FBuf):
                n = h.items.n
                if isinstance(n, Const) and n.v <= 256:
                    return ('items', [seq_read(I, v.oid, Const(i)) for i in range(n.v)])
                if isinstance(n, Unk):
                    return None
                return ('fn', n, lambda t: seq_read(I, v.oid, t))
            return ('items', list(h.items))
        if h.kind == 'iter':
            return ('items', list(h.items))
        if h.kind == 'dict':
            return ('items', [k for k, x in dict_items(I, v)])
        if h.kind == 'arr':
            n = h.meta[2][0]
            if isinstance(n, Const) and n.v <= 4096:
                return ('items', [arr_getitem(I, v, I.obj(v), Const(i)) for i in range(n.v)])
            if isinstance(n, Unk):
                return None
            return ('fn', n, lambda t: arr_getitem(I, v, I.obj(v), t))
        if h.kind == 'elem':
            return ('items', list(h.items))
        if h.kind == 'inst':
            m = I.class_attr(h.cls, '__iter__')
            if m is not None:
                return iter_desc(I, I.call(I.bind(m, v, h.cls), [], {}))
            if I.class_attr(h.cls, '__getitem__') is not None and I.class_attr(h.cls, '__len__') is not None:
                n = I.call(I.bind(I.class_attr(h.cls, '__len__'), v, h.cls), [], {})
                if isinstance(n, Const):
                    return ('items', [getitem(I, v, Const(i)) for i in range(n.v)])
            return None
        if h.kind == 'file':
            from . import ext
            return ('items', ext.file_lines(I, v))
        if h.kind == 'opaque':
            return None
        return None
    if isinstance(v, Op) and v.op == 'rangefn':
        start, stop, step = v.args
        n = range_len(I, start, stop, step)
        if isinstance(n, Unk):
            return None
        if isinstance(n, Const) and isinstance(start, Const) and isinstance(step, Const) and n.v <= 200:
            return ('items', [Const(start.v + step.v * i) for i in range(n.v)])
        return ('fn', n, lambda t: add(start, mul(step, t)))
    if isinstance(v, Op) and v.op == 'enum':
        d = iter_desc(I, v.args[0])
        s = v.args[1]
        if d is None:
            return None
        if d[0] == 'items':
            return ('items', [Tup((add(s, Const(i)), x)) for i, x in enumerate(d[1])])
        return ('fn', d[1], lambda t: Tup((add(s, t), d[2](t))))
    if isinstance(v, Op) and v.op == 'zipv':
        ds = [iter_desc(I, x) for x in v.args]
        if any(d is None for d in ds):
            return None
        if all(d[0] == 'items' for d in ds):
            return ('items', [Tup(t) for t in zip(*[d[1] for d in ds])])
        ns = [Const(len(d[1])) if d[0] == 'items' else d[1] for d in ds]
        n = ns[0]
        for m in ns[1:]:
            n = tmin(I, n, m)
        fs = [(lambda t, it=d[1]: read_items(I, it, t, I.st.facts)) if d[0] == 'items' else d[2] for d in ds]
        return ('fn', n, lambda t: Tup(tuple(f(t) for f in fs)))
    if isinstance(v, Const) and isinstance(v.v, str):
        return ('items', [Const(c) for c in v.v])
    if v is NONE or numeric_ok(v):
        I.raise_name('TypeError', 'object is not iterable')
    return None


def range_len(I, start, stop, step):
    if isinstance(step, Const) and step.v != 0:
        if step.v > 0:
            n = floordiv(add(sub(stop, start), Const(step.v - 1)), step)
        else:
            n = floordiv(add(sub(start, stop), Const(-step.v - 1)), Const(-step.v))
        if isinstance(n, Unk):
            return n
        n = fdiv_simplify(I.st.facts, n)
        return tmax(I, Const(0), n)
    # symbolic positive step
    d = I.decide(compare('lt', Const(0), step))
    if d is True:
        n = floordiv(add(sub(stop, start), sub(step, Const(1))), step)
        n = fdiv_simplify(I.st.facts, n)
        return tmax(I, Const(0), n)
    return Unk('range step')


# ---------------------------------------------------------------- arithmetic

def distribute(I, f, a, b):
    """apply f over gated operands whose type depends on the gate"""
    for i, x in enumerate((a, b)):
        if isinstance(x, Op) and x.op == 'ite' and (x.ty == 'num' or x.ty not in NUMTY and x.ty != 'bool'):
            I.split_on(x.args[0]) if I.decide(x.args[0]) is None else None
            r = I.decide(x.args[0])
            y = x.args[1] if r else x.args[2]
            return distribute(I, f, y, b) if i == 0 else distribute(I, f, a, y)
    return f(a, b)


def binop(I, op, a, b, node=None):
    if isinstance(a, Unk):
        return a
    if isinstance(b, Unk):
        return b
    t = type(op)
    if numeric_ok(a) and numeric_ok(b):
        a, b = num(a), num(b)
        if t is ast.Add:
            return chk(I, add(a, b))
        if t is ast.Sub:
            return chk(I, sub(a, b))
        if t is ast.Mult:
            return chk(I, mul(a, b))
        if t is ast.Div:
            return divide(I, a, b)
        if t is ast.FloorDiv:
            return divide(I, a, b, True)
        if t is ast.Mod:
            c = compare('eq', b, Const(0))
            I.raise_if(c, 'ZeroDivisionError', 'modulo by zero')
            r = mod(a, b)
            return fdiv_simplify(I.st.facts, r) if isinstance(r, Poly) else r
        if t is ast.Pow:
            return do_pow(I, a, b)
        if isinstance(a, Const) and isinstance(b, Const) and isinstance(a.v, int) and isinstance(b.v, int):
            if t is ast.BitAnd:
                return Const(a.v & b.v)
            if t is ast.BitOr:
                return Const(a.v | b.v)
            if t is ast.BitXor:
                return Const(a.v ^ b.v)
            if t is ast.LShift:
                return Const(a.v << b.v)
            if t is ast.RShift:
                return Const(a.v >> b.v)
        if t is ast.BitAnd:
            return bitand(I, a, b)
        if t is ast.LShift and isinstance(b, Const):
            return mul(a, Const(1 << b.v))
        if t is ast.RShift and isinstance(b, Const):
            return fdiv_simplify(I.st.facts, floordiv(a, Const(1 << b.v)))
        if t is ast.BitOr:
            return T.atom('bitor', a, b, ty='int')
        return I.unk('operator %s' % t.__name__, node)
    if (isinstance(a, Op) and a.op == 'ite') or (isinstance(b, Op) and b.op == 'ite'):
        a, b = I.force(a), I.force(b)
        return binop(I, op, a, b, node)
    ka, kb = kind_of(I, a), kind_of(I, b)
    if ka == 'arr' or kb == 'arr':
        return arr_binop(I, op, a, b)
    if ka == 'inst' or kb == 'inst':
        names = {ast.Add: ('__add__', '__radd__'), ast.Mult: ('__mul__', '__rmul__'), ast.Sub: ('__sub__', '__rsub__'), ast.Div: ('__div__', '__rdiv__'), ast.Mod: ('__mod__', '__rmod__')}.get(t)
        if names:
            for x, k, nm, y in ((a, ka, names[0], b), (b, kb, names[1], a)):
                if k == 'inst':
                    m = I.class_attr(I.obj(x).cls, nm)
                    if m is not None:
                        return I.call(I.bind(m, x, I.obj(x).cls), [y], {})
        if t is not ast.Mod or not is_str(a):
            I.raise_name('TypeError', 'unsupported operand type(s)')
    if t is ast.Add:
        if ka == 'list' and kb == 'list':
            return list_concat(I, a, b)
        if isinstance(a, Tup) and isinstance(b, Tup):
            return Tup(a.items + b.items)
        if is_str(a) and is_str(b):
            return cat(I, [a, b])
        if ka == 'opaque' or kb == 'opaque' or is_opq(a) or is_opq(b):
            return Op('opq_add', (a, b), 'opaque')
        I.raise_name('TypeError', 'unsupported operand type(s) for +')
    if t is ast.Mult:
        for x, kx, y in ((a, ka, b), (b, kb, a)):
            if kx == 'list' and numeric_ok(y):
                return list_repeat(I, x, num(y))
            if isinstance(x, Tup) and isinstance(y, Const):
                return Tup(x.items * max(0, y.v))
            if is_str(x) and numeric_ok(y):
                if isinstance(x, Const) and isinstance(y, Const):
                    return Const(x.v * y.v)
                return Op('strrep', (x, y), 'str')
    if t is ast.Mod and is_str(a):
        from . import ext
        return ext.percent(I, a, b)
    if t is ast.Sub and ka == 'set' and kb == 'set':
        bs = I.obj(b).items
        return I.new('set', items=[x for x in I.obj(a).items if x not in bs])
    if t is ast.BitOr and ka == 'set' and kb == 'set':
        return I.new('set', items=dedup(I, I.obj(a).items + I.obj(b).items))
    if is_opq(a) or is_opq(b) or ka == 'opaque' or kb == 'opaque':
        return Op('opq_' + t.__name__, (a, b), 'opaque')
    I.raise_name('TypeError', 'unsupported operand type(s) for %s' % t.__name__)


def is_opq(v):
    return isinstance(v, Op) and v.ty == 'opaque'


def chk(I, v):
    if isinstance(v, Unk):
        return I.unk(v.why) if '@' not in v.why else v
    return v


def divide(I, a, b, floor=False):
    def f(x, y):
        c = compare('eq', y, Const(0))
        d = I.decide(c) if not isinstance(c, Unk) else None
        if d is not False:
            tyx, tyy = T.ty_of(x), T.ty_of(y)
            I.raise_if(c, 'ZeroDivisionError', 'division by zero')
        if T.ty_of(x) == 'int' and T.ty_of(y) == 'int' or floor:
            r = floordiv(x, y)
            if isinstance(r, Poly):
                r = fdiv_simplify(I.st.facts, r)
            return r
        return truediv(x, y)
    try:
        return chk(I, distribute(I, f, a, b))
    except DivZero:
        I.raise_name('ZeroDivisionError', 'division by zero')


def bitand(I, a, b):
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Const) and isinstance(x.v, int):
            m = x.v
            if m == 0:
                return Const(0)
            if m & (m + 1) == 0 and I.decide(compare('le', Const(0), y)) is True:      # 2^k-1
                r = mod(y, Const(m + 1))
                return fdiv_simplify(I.st.facts, r) if isinstance(r, Poly) else r
            if m & (m - 1) == 0 and I.decide(compare('le', Const(0), y)) is True:      # single bit
                q = floordiv(y, Const(m))
                return mul(Const(m), mod(q, Const(2)))
    return T.atom('bitand', a, b, ty='int')


def do_pow(I, a, b):
    def f(x, y):
        try:
            if isinstance(y, Const) and not T.is_special_float(y) and y.v < 0:
                I.raise_if(compare('eq', x, Const(0)), 'ZeroDivisionError', '0.0 cannot be raised to a negative power')
            # negative base with a fractional exponent raises ValueError
            if not (isinstance(y, Const) and not T.is_special_float(y) and y.v == int(y.v)):
                c = compare('lt', x, Const(0))
                if not isinstance(c, Unk):
                    if not (T.ty_of(y) == 'int'):
                        I.raise_if(c, 'ValueError', 'negative number cannot be raised to a fractional power')
            return power(x, y)
        except DivZero:
            I.raise_name('ZeroDivisionError', '0.0 cannot be raised to a negative power')
    r = f(a, b)
    return chk(I, r)


def list_concat(I, a, b):
    oa, ob = I.obj(a), I.obj(b)
    if isinstance(oa.items, list) and isinstance(ob.items, list):
        return I.newlist(oa.items + ob.items)
    fa, fb = as_fbuf(oa), as_fbuf(ob)
    n = add(fa.n, fb.n)

    def read(i):
        c = compare('lt', i, fa.n)
        d = I.decide(c)
        if d is True:
            return fbuf_read(I, fa, i)
        if d is False:
            return fbuf_read(I, fb, sub(i, fa.n))
        return ite(c, fbuf_read(I, fa, i), fbuf_read(I, fb, sub(i, fa.n)))
    return I.new('list', items=FBuf(n, ('fn', read, ('concat', a.oid, b.oid, id(fa), id(fb)))))


def list_repeat(I, x, n):
    h = I.obj(x)
    if T.ty_of(n) == 'float':
        I.raise_name('TypeError', "can't multiply sequence by non-int of type 'float'")
    if isinstance(n, Const) and isinstance(h.items, list) and len(h.items) * max(0, n.v) <= 1200:
        return I.newlist(h.items * max(0, n.v))
    if isinstance(h.items, list) and h.items and all(y is h.items[0] for y in h.items) and not isinstance(h.items[0], Ref):
        return I.new('list', items=FBuf(mul(Const(len(h.items)), n), ('fill', h.items[0])))
    fb = as_fbuf(h)
    if fb.base[0] == 'fill' and not fb.stores:
        return I.new('list', items=FBuf(mul(fb.n, n), fb.base))
    ln = fb.n
    return I.new('list', items=FBuf(mul(ln, n), ('fn', lambda i: fbuf_read(I, fb, mod(i, ln)), ('rep', x.oid, id(fb)))))


def list_extend(I, o, other):
    items = I.iterate(I.force(other))
    h = I.obj(o)
    if items is None:
        src = I.force(other)
        if isinstance(src, Ref) and I.obj(src).kind == 'list':
            r = list_concat(I, o, src)
            I.wr(o).items = I.obj(r).items
            return
        I.unk('extend by unknown sequence')
        I.wr(o).items = FBuf(Unk('len'), ('fill', Unk('extend')))
        return
    if isinstance(h.items, list):
        I.wr(o).items.extend(items)
    else:
        for x in items:
            list_append(I, o, x)


def list_append(I, o, v):
    h = I.wr(o)
    if isinstance(h.items, FBuf):
        fb = h.items
        if isinstance(v, Ref):
            v = I.unk('object appended to symbolic list')
        h.items = FBuf(add(fb.n, Const(1)), fb.base, fb.stores + (Store((), TRUE, fb.n, v),))
    else:
        h.items.append(v)


# ---------------------------------------------------------------- numpy arrays
# arr: meta = (buffer oid, offset, shape tuple, strides tuple, dtype)

FLOAT_DT = ('f2', 'f4', 'f8')


def arr_size(h):
    n = Const(1)
    for s in h.meta[2]:
        n = mul(n, s)
    return n


def conv_dtype(I, v, dt):
    if isinstance(v, Unk) or dt == 'O':
        return v
    if not numeric_ok(v):
        v = I.force(v)
        if isinstance(v, Unk):
            return v
    if is_str(v):
        from . import ext
        v = ext.parse_float(I, v)
    if v is NONE:
        if dt in FLOAT_DT:
            return NAN
        I.raise_name('TypeError', 'int() argument must be a number')
    if not numeric_ok(v):
        if isinstance(v, Ref) and I.obj(v).kind == 'arr' and arr_size(I.obj(v)) is Const(1):
            v = arr_get_flat(I, v, Const(0))
        else:
            I.raise_name('ValueError', 'setting an array element with a sequence')
    v = num(v)
    if dt == 'f2':
        return half_round(I, v)
    if dt == 'f4' and EXACT32:
        return single_round(v)
    if dt in FLOAT_DT:
        return as_float(v)
    if dt == 'b1':
        return truth(I, v)
    if T.ty_of(v) == 'int':
        return wrap_int(I, v, dt)
    return wrap_int(I, trunc(I, v), dt)


INT_RANGE = {'u1': (0, 255), 'u2': (0, 65535), 'u4': (0, 2 ** 32 - 1), 'u8': (0, 2 ** 64 - 1), 'i1': (-128, 127), 'i2': (-32768, 32767),
             'i4': (-2 ** 31, 2 ** 31 - 1), 'i8': (-2 ** 63, 2 ** 63 - 1)}


def wrap_int(I, v, dt):
    if dt not in INT_RANGE or isinstance(v, Unk):
        return v
    lo, hi = INT_RANGE[dt]
    if isinstance(v, Const):
        return Const((int(v.v) - lo) % (hi - lo + 1) + lo)
    if I.decide(compare('le', Const(lo), v)) is True and I.decide(compare('le', v, Const(hi))) is True:
        return v
    if dt in ('i4', 'i8', 'u8', 'u4'):
        return v
    a = T.single_atom(v)
    return T.atom('wrap', Const(dt), v, ty='int')


def trunc(I, v):
    if isinstance(v, Unk):
        return v
    if isinstance(v, Const):
        if T.is_special_float(v):
            I.raise_name('ValueError', 'cannot convert float NaN/infinity to integer')
        return Const(int(v.v))
    if T.is_int_poly(v):
        return retag_int(v)
    c = compare('lt', v, Const(0))
    d = I.decide(c)
    if d is False:
        return floor_(v)
    if d is True:
        return ceil_(v)
    return ite(c, ceil_(v), floor_(v))


def retag_int(v):
    if isinstance(v, Poly):
        return Poly(frozenset(v.t.items()), 'int') if v.ty != 'int' else v
    if isinstance(v, Const):
        return Const(int(v.v))
    if isinstance(v, Op) and v.ty != 'int' and v.op == 'ite':
        return ite(v.args[0], retag_int(v.args[1]), retag_int(v.args[2]))
    return v


# rounding to single precision is invisible unless a check turns it on
EXACT32 = []


def single_round(v):
    if isinstance(v, Const):
        if T.is_special_float(v):
            return v
        try:
            return Const(struct.unpack('<f', struct.pack('<f', v.v))[0])
        except OverflowError:
            return INF if v.v > 0 else NINF
    a = T.single_atom(v)
    if a is not None and a.op in ('r32', 'f16', 'u2h', 'u2f'):
        return v
    return T.atom('r32', as_float(v))


T.REBUILD['r32'] = lambda v: single_round(v)


def half_round(I, v):
    if isinstance(v, Const):
        if T.is_special_float(v):
            return v
        try:
            return Const(struct.unpack('<e', struct.pack('<e', v.v))[0])
        except OverflowError:
            return INF if v.v > 0 else NINF
    a = T.single_atom(v)
    if a is not None and a.op in ('u2h', 'f16'):
        return v
    return T.atom('f16', as_float(v))


def new_arr(I, items, dt, shape=None):
    """items: list or FBuf"""
    n = items.n if isinstance(items, FBuf) else Const(len(items))
    b = I.new('buf', items=items if isinstance(items, FBuf) else list(items), meta=dt)
    shape = shape or (n,)
    return I.new('arr', meta=(b.oid, Const(0), tuple(shape), c_strides(shape), dt))


def c_strides(shape):
    st = []
    s = Const(1)
    for d in reversed(shape):
        st.append(s)
        s = mul(s, d)
    return tuple(reversed(st))


def named_arr(I, name, n, ty='float', dt='f4', shape=None):
    RDTY[name] = ty
    return new_arr(I, FBuf(n, ('name', name, ty)), dt, shape)


def named_list(I, name, n, ty='float'):
    RDTY[name] = ty
    return I.new('list', items=FBuf(n, ('name', name, ty)))


def arr_getitem(I, o, h, k):
    buf, off, shape, strides, dt = h.meta
    keys = k[1] if isinstance(k, tuple) and k[0] == 'tuple' else ([k] if not isinstance(k, Tup) else list(k.items))
    if not isinstance(k, tuple) and isinstance(k, Ref):
        kh = I.obj(k)
        if kh.kind in ('list', 'arr'):
            return I.unk('fancy indexing')
    if len(keys) > len(shape):
        I.raise_name('IndexError', 'too many indices')
    nshape, nstr = [], []
    for d, kk in enumerate(keys):
        if isinstance(kk, tuple) and kk[0] == 'slice':
            step = kk[3]
            if step is not NONE and not (isinstance(step, Const) and step.v > 0):
                if isinstance(step, Const) and step.v == -1 and kk[1] is NONE and kk[2] is NONE:
                    off = add(off, mul(sub(shape[d], Const(1)), strides[d]))
                    nshape.append(shape[d])
                    nstr.append(neg(strides[d]))
                    continue
                return I.unk('array slice step')
            a, b = slice_bounds(I, kk, shape[d])
            cnt = sub(b, a)
            if isinstance(cnt, Unk):
                return I.unk('array slice bounds')
            if step is not NONE and step.v != 1:
                cnt = floordiv(add(cnt, Const(step.v - 1)), step)
                nstr.append(mul(strides[d], step))
            else:
                nstr.append(strides[d])
            cnt = tmax(I, Const(0), cnt)
            g = T.is_ite(cnt)
            if g is not None and all(isinstance(x, Const) for x in g.args[1:]):
                I.split_on(g.args[0])
            off = add(off, mul(a, strides[d]))
            nshape.append(cnt)
        elif kk is ELLIPSIS:
            return I.unk('ellipsis index')
        else:
            kk = I.force(kk) if not numeric_ok(kk) else kk
            if isinstance(kk, Unk):
                return I.unk('array index')
            i = norm_index(I, kk, shape[d], 'array')
            if isinstance(i, Unk):
                return i
            off = add(off, mul(i, strides[d]))
    nshape += shape[len(keys):]
    nstr += strides[len(keys):]
    if isinstance(off, Unk):
        return I.unk('array offset')
    if not nshape:
        return seq_read(I, buf, off)
    return I.new('arr', meta=(buf, off, tuple(nshape), tuple(nstr), dt))


def arr_flat_off(h, i):
    buf, off, shape, strides, dt = h.meta
    if len(shape) == 1:
        return add(off, mul(i, strides[0]))
    # row-major decomposition
    if strides == c_strides(shape):
        return add(off, i)
    r = i
    total = off
    for d in range(len(shape)):
        inner = Const(1)
        for s in shape[d + 1:]:
            inner = mul(inner, s)
        q = floordiv(r, inner)
        total = add(total, mul(q, strides[d]))
        r = sub(r, mul(q, inner))
    return total


def arr_get_flat(I, o, i):
    h = I.obj(o)
    return seq_read(I, h.meta[0], arr_flat_off(h, i))


def arr_items(I, o):
    h = I.obj(o)
    n = arr_size(h)
    if not isinstance(n, Const) or n.v > 100000:
        return None
    return [arr_get_flat(I, o, Const(i)) for i in range(n.v)]


def arr_setitem(I, o, h, k, v):
    if isinstance(k, Ref) and I.obj(k).kind in ('arr', 'list'):
        I.unk('fancy index store')
        seq_write(I, h.meta[0], Unk('fancy'), NONE)
        return
    keys = k[1] if isinstance(k, tuple) and k[0] == 'tuple' else ([k] if not isinstance(k, Tup) else list(k.items))
    scalar_key = not any(isinstance(x, tuple) for x in keys) and len(keys) == len(h.meta[2])
    if scalar_key:
        buf, off, shape, strides, dt = h.meta
        for d, kk in enumerate(keys):
            i = norm_index(I, kk, shape[d], 'array')
            if isinstance(i, Unk):
                seq_write(I, buf, i, NONE)
                return
            off = add(off, mul(i, strides[d]))
        seq_write(I, buf, off, conv_dtype(I, v, dt))
        return
    view = arr_getitem(I, o, h, k)
    if isinstance(view, Unk):
        seq_write(I, h.meta[0], view, NONE)
        return
    arr_assign(I, view, v)


def arr_assign(I, view, v):
    vh = I.obj(view)
    buf, off, shape, strides, dt = vh.meta
    v = I.force(v) if not numeric_ok(v) else v
    if isinstance(v, Unk):
        seq_write(I, buf, v, NONE)
        return
    n = arr_size(vh)
    if numeric_ok(v):
        v = conv_dtype(I, v, dt)
        if isinstance(n, Const) and n.v <= 512:
            for i in range(n.v):
                seq_write(I, buf, arr_flat_off(vh, Const(i)), v)
            return
        quant_store(I, buf, n, lambda t: arr_flat_off(vh, t), lambda t: v)
        return
    # sequence source
    if isinstance(v, Ref) and I.obj(v).kind == 'arr':
        sh = I.obj(v)
        m = arr_size(sh)
        src = lambda t: arr_get_flat(I, v, t)
    else:
        d = iter_desc(I, v)
        if d is None:
            seq_write(I, buf, Unk('array slice assignment'), NONE)
            I.unk('array slice assignment')
            return
        if d[0] == 'items':
            its = flatten_items(I, d[1])
            m = Const(len(its))
            src = lambda t: read_items(I, its, t, I.st.facts)
        else:
            m = d[1]
            src = d[2]
    if m is Const(1) and n is not Const(1):
        x = conv_dtype(I, src(Const(0)), dt)
        return arr_assign(I, view, x)
    c = compare('eq', m, n)
    if I.decide(c) is not True:
        if isinstance(c, Unk):
            seq_write(I, buf, c, NONE)
            return
        # trailing-dimension broadcast
        if len(shape) > 1 and I.decide(compare('eq', m, shape[-1])) is True and isinstance(n, Const) and isinstance(m, Const):
            for i in range(n.v):
                seq_write(I, buf, arr_flat_off(vh, Const(i)), conv_dtype(I, src(Const(i % m.v)), dt))
            return
        I.raise_if(neg_cond(c), 'ValueError', 'could not broadcast input array')
        if isinstance(n, Const) is False and isinstance(m, Const):
            n = m
    if isinstance(n, Const) and n.v <= 512:
        vals = [src(Const(i)) for i in range(n.v)]
        for i, x in enumerate(vals):
            seq_write(I, buf, arr_flat_off(vh, Const(i)), conv_dtype(I, x, dt))
        return
    quant_store(I, buf, n, lambda t: arr_flat_off(vh, t), lambda t: conv_dtype(I, src(t), dt))


def flatten_items(I, items):
    out = []
    for x in items:
        if isinstance(x, Tup) or (isinstance(x, Ref) and I.obj(x).kind in ('list', 'arr')):
            sub_ = arr_items(I, x) if isinstance(x, Ref) and I.obj(x).kind == 'arr' else I.iterate(x)
            if sub_ is None:
                raise Unsupported('nested sequence of unknown length')
            out += flatten_items(I, sub_)
        else:
            out.append(x)
    return out


def fresh_t(n):
    from .interp import Interp
    Interp._tctr[0] += 1
    return T.sym('t%d' % Interp._tctr[0], 'int', lo=0, below=n)


def quant_store(I, buf, n, off, val):
    """for t in [0,n): buf[off(t)] = val(t)"""
    t = fresh_t(n)
    top = T.single_atom(t)
    save = I.st.facts
    I.st.facts = save.plus(compare('lt', t, n)) if not isinstance(n, Const) else save
    v = val(t)
    ix = off(t)
    I.st.facts = save
    o = I.st.wr(buf)
    fb = as_fbuf(o)
    o.items = FBuf(fb.n, fb.base, fb.stores + (Store(((top, n),), TRUE, ix, v),))


def arr_build(I, n, val, dt):
    """fresh 1-D array [val(t) for t in range(n)]"""
    if isinstance(n, Const) and n.v <= 4096:
        return new_arr(I, [val(Const(i)) for i in range(n.v)], dt)
    t = fresh_t(n)
    top = T.single_atom(t)
    save = I.st.facts
    I.st.facts = save.plus(compare('lt', t, n)) if not isinstance(n, Const) else save
    v = val(t)
    I.st.facts = save
    return new_arr(I, FBuf(n, ('fill', Unk('array')), (Store(((top, n),), TRUE, t, v),)), dt)


def arr_like(I, o):
    """(size, reader, shape, dtype) of an array, sequence or scalar"""
    if numeric_ok(o):
        return None, (lambda t: o), None, ('f4' if T.ty_of(o) == 'float' else 'i8')
    if isinstance(o, Ref) and I.obj(o).kind == 'arr':
        h = I.obj(o)
        return arr_size(h), (lambda t: arr_get_flat(I, o, t)), h.meta[2], h.meta[4]
    d = iter_desc(I, o)
    if d is None:
        return None
    if d[0] == 'items':
        shape = None
        its = d[1]
        if its and all(isinstance(x, (Ref, Tup)) for x in its):
            fl = flatten_items(I, its)
            shape = (Const(len(its)), Const(len(fl) // len(its)))
            its = fl
        fl = any(T.ty_of(x) in ('float', 'num') for x in its)
        dt = 'f8' if fl or not its else ('i8' if all(numeric_ok(x) for x in its) else 'O')
        if its and all(isbool(x) for x in its):
            dt = 'b1'
        return Const(len(its)), (lambda t: read_items(I, its, t, I.st.facts)), shape or (Const(len(its)),), dt
    v = d[2](Const(0)) if not isinstance(d[1], Const) or d[1].v > 0 else Const(0.0)
    return d[1], d[2], (d[1],), ('f8' if T.ty_of(v) != 'int' else 'i8')


def res_dt(a, b):
    if a == b:
        return a
    for x in ('f8', 'f4', 'f2'):
        if x in (a, b):
            return x
    return a


def arr_ew(I, f, *ops, **kw):
    """elementwise operation with scalar / trailing broadcast"""
    ls = [arr_like(I, o) for o in ops]
    if any(l is None for l in ls):
        return I.unk('elementwise operation on unknown')
    shapes = [l[2] for l in ls if l[0] is not None]
    big = max(shapes, key=lambda s: len(s))
    n = Const(1)
    for s in big:
        n = mul(n, s)
    rds = []
    for l in ls:
        if l[0] is None:
            rds.append(l[1])
            continue
        c = compare('eq', l[0], n)
        if I.decide(c) is True:
            rds.append(l[1])
        elif l[0] is Const(1):
            rds.append(lambda t, r=l[1]: r(Const(0)))
        elif len(l[2]) < len(big) and isinstance(l[0], Const) and isinstance(n, Const):
            rds.append(lambda t, r=l[1], m=l[0]: r(Const(t.v % m.v)))
        else:
            # maybe broadcast of the smaller one
            alln = [x[0] for x in ls if x[0] is not None]
            if isinstance(c, Unk) or I.decide(c) is None:
                return I.unk('broadcast of unknown shapes')
            if isinstance(l[0], Const) and l[0].v != 1 and n is Const(1):
                big = l[2]
                n = l[0]
                return arr_ew(I, f, *[o if x[0] is not Const(1) else x[1](Const(0)) for o, x in zip(ops, ls)], **kw)
            I.raise_name('ValueError', 'operands could not be broadcast together')
    dt = kw.get('dt')
    if dt is None:
        dts = [l[3] for l in ls]
        arrs = [l[3] for l, o in zip(ls, ops) if l[0] is not None]
        dt = arrs[0]
        for d in arrs[1:]:
            dt = res_dt(dt, d)
        for d, l in zip(dts, ls):
            if l[0] is None and d in FLOAT_DT and dt not in FLOAT_DT:
                dt = 'f8'
    r = arr_build(I, n, lambda t: f(*[rd_(t) for rd_ in rds]), dt)
    if len(big) > 1:
        h = I.obj(r)
        return I.new('arr', meta=(h.meta[0], h.meta[1], tuple(big), c_strides(big), dt))
    return r


def arr_binop(I, op, a, b):
    t = type(op)

    def f(x, y):
        x, y = num(x), num(y)
        if t is ast.Div and not (T.ty_of(x) == 'int' and T.ty_of(y) == 'int'):
            c = compare('eq', y, Const(0))
            if not isinstance(c, Unk) and I.decide(c) is True:
                return NAN
            try:
                return truediv(x, y)
            except DivZero:
                return NAN
        if t is ast.Pow:
            try:
                return power(x, y)
            except DivZero:
                return INF
        return binop(I, op, x, y)
    return arr_ew(I, f, a, b)


def arr_inplace(I, op, cur, rhs):
    r = arr_binop(I, op, cur, rhs)
    if isinstance(r, Unk):
        seq_write(I, I.obj(cur).meta[0], r, NONE)
        return cur
    arr_assign(I, cur, r)
    return cur


def arr_map(I, o, f):
    return arr_ew(I, f, o)


def arr_compare(I, a, b):
    """elementwise =="""
    if a is NONE or b is NONE:
        x = a if b is NONE else b
        return arr_ew(I, lambda t: FALSE, x, dt='b1')
    la, lb = arr_like(I, a), arr_like(I, b)
    if la is None or lb is None:
        if is_str(a) or is_str(b):
            return FALSE
        return I.unk('array comparison')
    if la[0] is not None and lb[0] is not None:
        c = compare('eq', la[0], lb[0])
        if I.decide(c) is False and la[0] is not Const(1) and lb[0] is not Const(1):
            return FALSE
    return arr_ew(I, lambda x, y: as_cond(I, equals(I, x, y)), a, b, dt='b1')


# ---------------------------------------------------------------- attribute dispatch on non-instance values

LIST_METHODS = set('append extend insert pop remove index count sort reverse'.split())
DICT_METHODS = set('get keys values items iteritems itervalues iterkeys has_key pop update setdefault copy clear popitem'.split())
SET_METHODS = set('add remove discard union update issubset intersection difference copy'.split())
STR_METHODS = set('''split join strip rstrip lstrip lower upper replace find startswith endswith splitlines format encode decode
rfind index count isdigit rsplit title capitalize zfill ljust rjust partition rpartition swapcase isalpha isspace center'''.split())
ARR_METHODS = set('''astype copy reshape tolist flatten ravel fill min max sum mean any all view item transpose clip tostring tobytes round dot swapaxes squeeze byteswap'''.split())


# every attribute the real types have; those without a model give an unknown value, not an AttributeError
REAL_NAMES = {k: set(v.split()) for k, v in {
    'list': 'append count extend index insert pop remove reverse sort',
    'dict': 'clear copy fromkeys get has_key items iteritems iterkeys itervalues keys pop popitem setdefault update values viewitems viewkeys viewvalues',
    'set': """add clear copy difference difference_update discard intersection intersection_update isdisjoint issubset issuperset pop remove
symmetric_difference symmetric_difference_update union update""",
    'str': """capitalize center count decode encode endswith expandtabs find format index isalnum isalpha isdecimal isdigit islower isnumeric isspace istitle isupper
join ljust lower lstrip partition replace rfind rindex rjust rpartition rsplit rstrip split splitlines startswith strip swapcase title translate upper zfill""",
    'file': """close closed encoding errors fileno flush isatty mode name newlines next read readinto readline readlines seek softspace tell truncate write
writelines xreadlines fileobj myfileobj filename readable writable seekable peek rewind""",
    'elem': """append attrib clear copy extend find findall findtext get getchildren getiterator insert items iter iterfind itertext keys makeelement remove
set tag tail text""",
    'etree': 'find findall findtext getiterator getroot iter iterfind parse write write_c14n _setroot _root',
    'arr': """T all any argmax argmin argpartition argsort astype base byteswap choose clip compress conj conjugate copy ctypes cumprod cumsum data diagonal
dot dtype dump dumps fill flags flat flatten getfield imag item itemset itemsize max mean min nbytes ndim newbyteorder nonzero partition prod ptp put ravel
real repeat reshape resize round searchsorted setfield setflags shape size sort squeeze std strides sum swapaxes take tobytes tofile tolist tostring trace
transpose var view"""}.items()}


def obj_attr(I, o, h, name, node, default):
    k = h.kind
    if k == 'list' and name in LIST_METHODS or k == 'dict' and name in DICT_METHODS or k == 'set' and name in SET_METHODS:
        return Op('bmeth', (o, name), 'bmeth')
    if k == 'arr':
        if name == 'shape':
            return Tup(h.meta[2])
        if name == 'size':
            return arr_size(h)
        if name == 'ndim':
            return Const(len(h.meta[2]))
        if name == 'dtype':
            return Op('ext', ('dtype.' + h.meta[4],), 'ext')
        if name == 'T':
            return I.new('arr', meta=(h.meta[0], h.meta[1], tuple(reversed(h.meta[2])), tuple(reversed(h.meta[3])), h.meta[4]))
        if name in ARR_METHODS:
            return Op('bmeth', (o, name), 'bmeth')
    if k in ('list', 'dict', 'set', 'arr', 'iter'):
        if default is not None:
            return default
        if k == 'iter':
            return Op('bmeth', (o, name), 'bmeth')
        if name in REAL_NAMES[k] or name.startswith('__'):
            return I.unk('attribute %s of %s' % (name, k), node)
        I.raise_name('AttributeError', "'%s' object has no attribute '%s'" % (k, name))
    from . import ext
    return ext.obj_attr(I, o, h, name, node, default)


def val_attr(I, o, name, node, default):
    if is_str(o):
        if name in STR_METHODS:
            return Op('bmeth', (o, name), 'bmeth')
        if default is not None:
            return default
        if name in REAL_NAMES['str'] or name.startswith('__'):
            return I.unk('attribute %s of str' % name, node)
        I.raise_name('AttributeError', "'str' object has no attribute '%s'" % name)
    if isinstance(o, Tup) and name in ('index', 'count'):
        return Op('bmeth', (o, name), 'bmeth')
    if isinstance(o, Op) and o.op == 'bound' and name in ('__name__', 'im_self', '__self__'):
        return Const(I.obj(o.args[1]).meta.qual.split('.')[-1]) if name == '__name__' else o.args[0]
    from . import ext
    return ext.val_attr(I, o, name, node, default)


def inst_attr(I, o, h, name):
    from . import ext
    return ext.inst_attr(I, o, h, name)


def set_obj_attr(I, o, h, name, v):
    from . import ext
    return ext.set_obj_attr(I, o, h, name, v)


def ext_attr(I, o, name):
    from . import ext
    return ext.ext_attr(I, o, name)


def call_ext(I, name, args, kw, node):
    from . import ext
    return ext.call_ext(I, name, args, kw, node)


def number_method(I, v, name, args, kw, node=None):
    from . import ext
    return ext.number_method(I, v, name, args, kw, node)


def call_method(I, o, name, args, kw, node):
    from . import ext
    return ext.call_method(I, o, name, args, kw, node)


def call_inst(I, f, h, args, kw, node):
    I.raise_name('TypeError', 'object is not callable')


def call_obj(I, f, h, args, kw, node):
    from . import ext
    if h.kind == 'opaque':
        return opaque_call(I, f, '__call__', args, kw)
    return I.unk('call of %s' % h.kind, node)


def ctx_enter(I, m):
    from . import ext
    return ext.ctx_enter(I, m)


def ctx_exit(I, m, how):
    from . import ext
    return ext.ctx_exit(I, m, how)


def instantiate_builtin(I, c, h, args, kw):
    if h.meta.name == 'object':
        return I.new('inst', cls=c, d={})
    if h.meta.name == 'type':
        return builtin_type(I, args[0])
    o = I.new('inst', cls=c, d={'args': Tup(tuple(args)), 'message': args[0] if args else Const('')})
    return o


def init_builtin(I, o, args):
    h = I.wr(o)
    h.d['args'] = Tup(tuple(args))
    h.d['message'] = args[0] if args else Const('')


def builtin_type(I, v):
    v = I.force(v)
    if isinstance(v, Ref):
        o = I.obj(v)
        if o.kind == 'inst':
            return o.cls
        if o.kind == 'class':
            return o.cls or I.builtin_classes['type']
        return Op('ext', ('builtins.' + {'arr': 'ndarray'}.get(o.kind, o.kind),), 'ext')
    t = T.ty_of(v)
    if isinstance(v, Tup):
        t = 'tuple'
    return Op('ext', ('builtins.' + t,), 'ext')


def cat(I, parts):
    from . import ext
    return ext.cat(I, parts)


def to_str(I, v):
    from . import ext
    return ext.to_str(I, v)


def str_getitem(I, o, k):
    from . import ext
    return ext.str_getitem(I, o, k)


# opaque stub objects: every method call is an uninterpreted, logged term

def opaque_call(I, o, name, args, kw):
    h = I.obj(o)
    hook = h.meta.get(name) if isinstance(h.meta, dict) else None
    if hook is not None:
        return hook(I, o, args, kw)
    w = I.wr(o)
    w.items.append(Tup((Const(name), Tup(tuple(args)), Tup(tuple(Tup((Const(k), v)) for k, v in sorted(kw.items()))))))
    return Op('call', (o, Const(name), Const(len(w.items))) + tuple(args), 'opaque')


def opaque_term(I, what, o, args):
    return Op(what, (o,) + tuple(a if isinstance(a, Val) else Const(str(a)) for a in args), 'opaque')
