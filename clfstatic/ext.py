"""Abstract semantics: strings, files, XML trees, builtin functions, numpy and other external modules."""
import ast, math, os, re, struct
from .terms import *
from . import terms as T
from .state import *
from .models import *
from . import models as M

# ================================================================ strings


def cat(I, parts):
    out = []
    for p in parts:
        if isinstance(p, Unk):
            return p
        if isinstance(p, Op) and p.op == 'cat':
            ps = p.args
        else:
            ps = (p,)
        for q in ps:
            if isinstance(q, Const) and q.v == '':
                continue
            if out and isinstance(q, Const) and isinstance(out[-1], Const):
                out[-1] = Const(out[-1].v + q.v)
            else:
                out.append(q)
    if not out:
        return Const('')
    if len(out) == 1:
        return out[0]
    return Op('cat', tuple(out), 'str')


T.REBUILD['cat'] = lambda *ps: cat(None, ps)


def py2_float_str(x, prec=12):
    if math.isnan(x):
        return 'nan'
    if math.isinf(x):
        return 'inf' if x > 0 else '-inf'
    s = '%.*g' % (prec, x)
    if 'e' not in s and '.' not in s and 'n' not in s:
        s += '.0'
    return s


def to_str(I, v, rep=False):
    if isinstance(v, Unk):
        return v
    if isinstance(v, Const):
        if isinstance(v.v, bool) or v.v is None:
            return Const(str(v.v))
        if isinstance(v.v, float):
            return Const(repr(v.v) if rep else py2_float_str(v.v))
        if isinstance(v.v, str):
            return Const(repr(v.v)) if rep else v
        return Const(str(v.v))
    if isinstance(v, Op) and v.op == 'ite' and v.ty not in NUMTY:
        return T.ite(v.args[0], to_str(I, v.args[1], rep), to_str(I, v.args[2], rep))
    if is_str(v):
        return Op('repr', (v,), 'str') if rep else v
    if is_num(v):
        return Op('str', (strip_np(v),), 'str')
    if isbool(v):
        return T.ite(v, Const('True'), Const('False'))
    if isinstance(v, Tup):
        ps = [Const('(')]
        for i, x in enumerate(v.items):
            ps += ([Const(', ')] if i else []) + [to_str(I, x, True)]
        return cat(I, ps + [Const(',)') if len(v.items) == 1 else Const(')')])
    if isinstance(v, Ref):
        o = I.obj(v)
        if o.kind in ('list', 'arr'):
            items = I.iterate(v)
            if items is None or len(items) > 200:
                return Op('strseq', (v,), 'str')
            ps = [Const('[')]
            for i, x in enumerate(items):
                ps += ([Const(', ' if o.kind == 'list' else ' ')] if i else []) + [to_str(I, x, True)]
            return cat(I, ps + [Const(']')])
        if o.kind == 'dict':
            ps = [Const('{')]
            for i, (k, x) in enumerate(dict_items(I, v)):
                ps += ([Const(', ')] if i else []) + [to_str(I, k, True), Const(': '), to_str(I, x, True)]
            return cat(I, ps + [Const('}')])
        if o.kind == 'inst':
            for nm in ('__str__', '__repr__'):
                m = I.class_attr(o.cls, nm)
                if m is not None:
                    return I.call(I.bind(m, v, o.cls), [], {})
            if 'message' in o.d:
                return to_str(I, o.d['message'])
            return Op('strobj', (Const(I.obj(o.cls).meta.name),), 'str')
        if o.kind == 'class':
            return Op('strobj', (Const(o.meta.name),), 'str')
        return Op('strobj', (Const(o.kind),), 'str')
    return Op('str', (v,), 'str')


SPEC = re.compile(r'%(?:\((\w+)\))?([-+ #0]*)(\*|\d+)?(?:\.(\d+))?[hlL]?([a-zA-Z%])')


def percent(I, f, arg):
    f = I.force(f)
    if not isinstance(f, Const):
        return Op('percent', (f,), 'str') if not isinstance(f, Unk) else f
    if isinstance(arg, Unk):
        return arg
    named = None
    arg = I.force(arg) if isinstance(arg, Op) and arg.op == 'ite' and arg.ty == 'any' else arg
    if isinstance(arg, Ref) and I.obj(arg).kind == 'dict':
        named = arg
        args = [arg]
    elif isinstance(arg, Tup):
        args = list(arg.items)
    else:
        args = [arg]
    out = []
    pos = 0
    n = 0
    for m in SPEC.finditer(f.v):
        out.append(Const(f.v[pos:m.start()]))
        pos = m.end()
        key, flags, width, prec, conv = m.groups()
        if conv == '%':
            out.append(Const('%'))
            continue
        if key is not None and named is not None:
            v = dict_get(I, named, Const(key), None)
        else:
            if width == '*':
                return I.unk('star width')
            if n >= len(args):
                I.raise_name('TypeError', 'not enough arguments for format string')
            v = args[n]
            n += 1
        out.append(fmt_one(I, flags or '', width, prec, conv, v))
    out.append(Const(f.v[pos:]))
    if n < len(args) and named is None:
        I.raise_name('TypeError', 'not all arguments converted during string formatting')
    return cat(I, out)


def fmt_one(I, flags, width, prec, conv, v):
    if isinstance(v, Unk):
        return v
    spec = '%' + flags + (width or '') + ('.' + prec if prec is not None else '') + conv
    if conv in 'sr':
        s = to_str(I, v, conv == 'r')
        if isinstance(s, Unk):
            return s
        if isinstance(s, Op) and s.op == 'ite':
            return T.ite(s.args[0], fmt_one(I, flags, width, prec, 's', s.args[1]), fmt_one(I, flags, width, prec, 's', s.args[2]))
        if isinstance(s, Const):
            return Const(('%' + flags + (width or '') + ('.' + prec if prec else '') + 's') % s.v)
        if prec is not None:
            s = Op('cut', (s, Const(int(prec))), 'str')
        if width:
            return Op('pad', (Const(flags + width), s), 'str')
        return s
    if not numeric_ok(v):
        v = I.force(v)
        if isinstance(v, Unk):
            return v
        if isinstance(v, Ref) and I.obj(v).kind == 'arr' and arr_size(I.obj(v)) is Const(1):
            v = arr_get_flat(I, v, Const(0))
        if not numeric_ok(v):
            I.raise_name('TypeError', '%%%s format: a number is required' % conv)
    v = num(v)
    if isinstance(v, Const):
        try:
            if conv in 'diuxXoc':
                return Const(spec.replace('u', 'd').replace('i', 'd') % int(v.v))
            return Const(spec % v.v)
        except (ValueError, TypeError, OverflowError):
            return Unk('format')
    if conv in 'diu':
        return Op('fmtd', (Const(flags + (width or '')), trunc(I, v)), 'str')
    if conv in 'fFeEgG':
        return Op('fmt', (Const(spec), as_float(v)), 'str')
    if conv in 'xX':
        return Op('fmtx', (Const(spec), v), 'str')
    return I.unk('format %s' % spec)


def flat_parts(s):
    return list(s.args) if isinstance(s, Op) and s.op == 'cat' else [s]


WS = ' \t\n\r\x0b\x0c'
NOWS = ('str', 'fmt', 'fmtd', 'fmtx', 'hex')


def tokens(I, s):
    """whitespace tokens of a string value, or None"""
    toks = []
    cur = []

    def flush():
        if cur:
            toks.append(cat(I, cur))
            del cur[:]
    for p in flat_parts(s):
        if isinstance(p, Const):
            buf = ''
            for ch in p.v:
                if ch in WS:
                    if buf:
                        cur.append(Const(buf))
                        buf = ''
                    flush()
                else:
                    buf += ch
            if buf:
                cur.append(Const(buf))
        elif isinstance(p, Op) and p.op == 'pad':
            if '-' in str(p.args[0].v):
                cur.append(p.args[1])
                flush()
            else:
                sub_ = tokens(I, p.args[1])
                if sub_ is None or len(sub_) != 1:
                    return None
                cur.append(sub_[0])
        elif isinstance(p, Op) and p.op in NOWS:
            cur.append(p)
        elif isinstance(p, Op) and p.op == 'sym' and len(p.args) > 1 and dict(p.args[1]).get('token'):
            cur.append(p)
        elif isinstance(p, Op) and p.op == 'ite':
            I.split_on(p.args[0])
        else:
            return None
    flush()
    return toks


def split_sep(I, s, sep):
    """split on a constant separator"""
    out = [[]]
    for p in flat_parts(s):
        if isinstance(p, Const):
            bits = p.v.split(sep)
            for i, b in enumerate(bits):
                if i:
                    out.append([])
                if b:
                    out[-1].append(Const(b))
        elif isinstance(p, Op) and p.op in NOWS and not any(c.isdigit() or c in '.-+eE' for c in sep):
            out[-1].append(p)
        elif isinstance(p, Op) and p.op == 'pad' and sep.strip():
            out[-1].append(p)
        elif isinstance(p, Op) and p.op == 'sym' and len(p.args) > 1 and dict(p.args[1]).get('token'):
            out[-1].append(p)
        elif isinstance(p, Op) and p.op == 'ite':
            I.split_on(p.args[0])
        else:
            return None
    return [cat(I, x) for x in out]


def strip_parts(I, s, left=True, right=True, chars=None):
    ps = flat_parts(s)
    ch = chars if chars is not None else WS
    changed = True
    if left:
        while ps:
            p = ps[0]
            if isinstance(p, Const):
                q = p.v.lstrip(ch)
                if q:
                    ps[0] = Const(q)
                    break
                ps.pop(0)
            elif isinstance(p, Op) and p.op == 'pad' and '-' not in p.args[0].v and chars is None:
                ps[0] = p.args[1]
                break
            else:
                if not (isinstance(p, Op) and p.op in NOWS) and chars is None:
                    return None if p.op != 'sym' else cat(I, ps)
                break
    if right:
        while ps:
            p = ps[-1]
            if isinstance(p, Const):
                q = p.v.rstrip(ch)
                if q:
                    ps[-1] = Const(q)
                    break
                ps.pop()
            else:
                break
    return cat(I, ps)


def printed(spec, x):
    """the number that a printed float denotes: fewer than six decimals is a visible rounding"""
    m = re.search(r'\.(\d+)', str(spec))
    p = int(m.group(1)) if m else 6
    if p >= 6:
        return x
    k = Const(float(10 ** p))
    return as_float(T.floor_(mul(x, k) + Const(0.5))) / k


def parse_float(I, s):
    """float(string value)"""
    if isinstance(s, Unk):
        return s
    if isinstance(s, Const):
        try:
            return Const(float(s.v.strip()))
        except ValueError:
            I.raise_name('ValueError', 'could not convert string to float: %r' % s.v)
    if isinstance(s, Op):
        if s.op == 'ite':
            return T.ite(s.args[0], parse_float(I, s.args[1]), parse_float(I, s.args[2]))
        if s.op == 'str':
            return as_float(s.args[0])
        if s.op == 'fmt':
            return printed(s.args[0].v, as_float(s.args[1]))
        if s.op == 'fmtd':
            return as_float(s.args[1])
        if s.op == 'pad':
            return parse_float(I, s.args[1])
        if s.op == 'cat':
            t = tokens(I, s)
            if t is not None and len(t) == 1 and t[0] is not s:
                return parse_float(I, t[0])
            if any(isinstance(p, Const) and re.search(r'[^0-9eE+.\-\s]', p.v) for p in s.args):
                I.raise_name('ValueError', 'could not convert string to float')
            if len([p for p in s.args if isinstance(p, Op) and p.op == 'fmt']) > 1:
                I.raise_name('ValueError', 'could not convert string to float: numbers run together')
        return T.atom('tofloat', s, ty='float')
    I.raise_name('TypeError', 'float() argument must be a string or a number')


def parse_int(I, s, base=None):
    if isinstance(s, Unk):
        return s
    if isinstance(s, Const):
        try:
            return Const(int(s.v, base or 10))
        except ValueError:
            I.raise_name('ValueError', 'invalid literal for int(): %r' % s.v)
    if isinstance(s, Op):
        if s.op == 'ite':
            return T.ite(s.args[0], parse_int(I, s.args[1], base), parse_int(I, s.args[2], base))
        if s.op == 'str':
            if T.ty_of(s.args[0]) == 'int' or T.is_int_poly(s.args[0]) and T.ty_of(s.args[0]) != 'float':
                return s.args[0]
            I.raise_name('ValueError', 'invalid literal for int() with base 10 (a float)')
        if s.op == 'fmtd':
            return s.args[1]
        if s.op == 'fmtx' and base == 16:
            return s.args[1]
        if s.op == 'fmt':
            I.raise_name('ValueError', 'invalid literal for int() with base 10 (a float)')
        if s.op == 'pad':
            return parse_int(I, s.args[1], base)
        if s.op == 'cat':
            t = tokens(I, s)
            if t is not None and len(t) == 1 and t[0] is not s:
                return parse_int(I, t[0], base)
            if any(isinstance(p, Const) and re.search(r'[^0-9+\-\s]', p.v) for p in s.args):
                I.raise_name('ValueError', 'invalid literal for int()')
        return T.atom('toint', s, ty='int')
    I.raise_name('TypeError', 'int() argument must be a string or a number')


def str_getitem(I, o, k):
    if isinstance(o, Const):
        if isinstance(k, tuple):
            g = []
            for x in k[1:]:
                if x is NONE:
                    g.append(None)
                elif isinstance(x, Const):
                    g.append(int(x.v))
                else:
                    return Op('strslice', (o,) + tuple(k[1:]), 'str')
            return Const(o.v[g[0]:g[1]:g[2]])
        i = norm_index(I, k, Const(len(o.v)), 'string')
        if isinstance(i, Const):
            return Const(o.v[i.v])
        return I.unk('string index')
    if isinstance(k, tuple):
        if k[1] in (NONE, Const(0)) and k[2] is NONE:
            return o
        # slices inside a leading / trailing constant part
        ps = flat_parts(o)
        if isinstance(k[1], Const) and isinstance(k[1].v, int) and k[2] is NONE and k[3] is NONE and isinstance(ps[0], Const) and 0 <= k[1].v <= len(ps[0].v):
            return cat(I, [Const(ps[0].v[k[1].v:])] + ps[1:])
        if k[1] in (NONE, Const(0)) and isinstance(k[2], Const) and k[3] is NONE and isinstance(k[2].v, int):
            if k[2].v >= 0 and isinstance(ps[0], Const) and k[2].v <= len(ps[0].v):
                return Const(ps[0].v[:k[2].v])
            if k[2].v < 0 and isinstance(ps[-1], Const) and -k[2].v <= len(ps[-1].v):
                return cat(I, ps[:-1] + [Const(ps[-1].v[:k[2].v])])
        if isinstance(k[1], Const) and isinstance(k[1].v, int) and k[1].v < 0 and k[2] is NONE and isinstance(ps[-1], Const) and -k[1].v <= len(ps[-1].v):
            return Const(ps[-1].v[k[1].v:])
        return Op('strslice', (o,) + tuple(k[1:]), 'str')
    return Op('strslice', (o, k), 'str')


def str_method(I, s, name, args, kw):
    s = I.force(s)
    args = [I.force(a) if not is_num(a) else a for a in args]
    for a in [s] + args:
        if isinstance(a, Unk):
            return a
    if name == 'join':
        items = I.iterate(args[0])
        if items is None:
            v = args[0]
            if isinstance(v, Ref) and isinstance(I.obj(v).items, FBuf):
                fb = I.obj(v).items
                return Op('joinseq', (s, fb.n, Const(repr(fb))), 'str')
            return I.unk('join of unknown sequence')
        out = []
        for i, x in enumerate(items):
            if not is_str(x) and not isinstance(x, Unk):
                x = I.force(x)
                if not is_str(x) and not isinstance(x, Unk):
                    I.raise_name('TypeError', 'sequence item %d: expected string' % i)
            if i:
                out.append(s)
            out.append(x)
        return cat(I, out)
    if name == 'encode' or name == 'decode':
        if args and isinstance(args[0], Const) and args[0].v == 'hex':
            if name == 'encode':
                if isinstance(s, Op) and s.op == 'bytes':
                    return Op('hex', s.args, 'str')
                if isinstance(s, Const):
                    return Const(s.v.encode('latin-1').hex())
                return Op('hex', (Const('?'), s), 'str')
            t = s
            if isinstance(s, Op) and s.op in ('pad', 'cat'):
                tt = tokens(I, s)
                if tt and len(tt) == 1:
                    t = tt[0]
            if isinstance(t, Op) and t.op == 'hex':
                return Op('bytes', t.args, 'str')
            if isinstance(t, Const):
                try:
                    return Const(bytes.fromhex(t.v).decode('latin-1'))
                except ValueError:
                    I.raise_name('TypeError', 'Non-hexadecimal digit found')
            return Op('unhex', (t,), 'str')
        return s
    cargs = [a.v if isinstance(a, Const) else a for a in args]
    allc = isinstance(s, Const) and all(isinstance(a, Const) for a in args) and not kw
    if name == 'split':
        if allc and (not cargs or cargs[0] is None or cargs[0] != ''):
            return I.newlist([Const(x) for x in s.v.split(*cargs)])
        if not args or args[0] is NONE:
            t = tokens(I, s)
            if t is None:
                return I.new('list', items=FBuf(T.atom('ntok', s, ty='int'), ('fn', lambda i, s=s: Op('tok', (s, i), 'str'), ('split', s))))
            return I.newlist(t)
        if isinstance(args[0], Const):
            t = split_sep(I, s, args[0].v)
            if t is not None:
                if len(args) > 1 and isinstance(args[1], Const) and len(t) > args[1].v + 1:
                    k = args[1].v
                    rest = []
                    for i, x in enumerate(t[k:]):
                        if i:
                            rest.append(args[0])
                        rest.append(x)
                    t = t[:k] + [cat(I, rest)]
                return I.newlist(t)
            sy = s
            return I.new('list', items=FBuf(T.atom('nsplit', s, args[0], ty='int'), ('fn', lambda i: Op('splitpart', (sy, args[0], i), 'str'), ('splits', s, args[0]))))
        return I.unk('split')
    if name == 'rsplit' and allc:
        return I.newlist([Const(x) for x in s.v.rsplit(*cargs)])
    if name == 'splitlines':
        if allc:
            return I.newlist([Const(x) for x in s.v.splitlines()])
        t = split_sep(I, s, '\n')
        if t is None:
            return I.unk('splitlines')
        if t and t[-1] is Const(''):
            t = t[:-1]
        return I.newlist(t)
    if name in ('strip', 'lstrip', 'rstrip'):
        if allc:
            return Const(getattr(s.v, name)(*cargs))
        ch = cargs[0] if cargs and isinstance(cargs[0], str) else None
        r = strip_parts(I, s, name != 'rstrip', name != 'lstrip', ch)
        return r if r is not None else Op(name, (s,), 'str')
    if name in ('lower', 'upper', 'title', 'capitalize', 'swapcase'):
        if allc:
            return Const(getattr(s.v, name)())
        ps = [Const(getattr(p.v, name)()) if isinstance(p, Const) else (p if isinstance(p, Op) and p.op in ('str', 'fmt', 'fmtd', 'hex', name) else Op(name, (p,), 'str')) for p in flat_parts(s)]
        return cat(I, ps)
    if name == 'replace':
        if allc:
            return Const(s.v.replace(*cargs))
        if isinstance(args[0], Const):
            ps = []
            for p in flat_parts(s):
                if isinstance(p, Const):
                    bits = p.v.split(args[0].v)
                    for i, b in enumerate(bits):
                        if i:
                            ps.append(args[1])
                        ps.append(Const(b))
                elif isinstance(p, Op) and p.op in NOWS and not any(c.isdigit() or c in '.-+eEnainf' for c in args[0].v):
                    ps.append(p)
                else:
                    ps.append(Op('replace', (p, args[0], args[1]), 'str'))
            return cat(I, ps)
        return Op('replace', (s,) + tuple(args), 'str')
    if name in ('find', 'rfind', 'index', 'rindex'):
        if allc:
            r = s.v.find(*cargs) if name in ('find', 'index') else s.v.rfind(*cargs)
            if r < 0 and name in ('index', 'rindex'):
                I.raise_name('ValueError', 'substring not found')
            return Const(r)
        ps = flat_parts(s)
        if isinstance(args[0], Const) and isinstance(ps[0], Const) and args[0].v in ps[0].v and name in ('find', 'index'):
            return Const(ps[0].v.find(args[0].v))
        return T.atom('strfind', s, *args, ty='int')
    if name in ('startswith', 'endswith'):
        if isinstance(args[0], Tup):
            return or_(*[truth(I, str_method(I, s, name, [x], {})) for x in args[0].items])
        if allc:
            return TRUE if getattr(s.v, name)(cargs[0]) else FALSE
        ps = flat_parts(s)
        p = ps[0] if name == 'startswith' else ps[-1]
        if isinstance(p, Const) and isinstance(args[0], Const) and len(p.v) >= len(args[0].v):
            return TRUE if getattr(p.v, name)(args[0].v) else FALSE
        return Op(name, (s, args[0]), 'bool')
    if name in ('isdigit', 'isalpha', 'isspace', 'count', 'zfill', 'ljust', 'rjust', 'center', 'partition', 'rpartition'):
        if allc:
            r = getattr(s.v, name)(*cargs)
            return Tup(tuple(Const(x) for x in r)) if isinstance(r, tuple) else Const(r)
        if name in ('rjust', 'ljust', 'center') and len(args) == 1 and isinstance(args[0], Const):
            return Op('pad', (Const(('-' if name == 'ljust' else '') + str(args[0].v)), s), 'str')
        if name == 'partition' and isinstance(args[0], Const):
            t = split_sep(I, s, args[0].v)
            if t is not None:
                if len(t) == 1:
                    return Tup((t[0], Const(''), Const('')))
                r = t[1:]
                rest = []
                for i, x in enumerate(r):
                    if i:
                        rest.append(args[0])
                    rest.append(x)
                return Tup((t[0], args[0], cat(I, rest)))
        return I.unk('str.%s' % name)
    if name == 'format':
        return str_format(I, s, args, kw)
    return I.unk('str.%s' % name)


def str_format(I, s, args, kw):
    if not isinstance(s, Const):
        return I.unk('format string')
    import string
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(s.v):
        if lit:
            out.append(Const(lit))
        if field is None:
            continue
        if field == '':
            v = args[auto]
            auto += 1
        elif field.isdigit():
            v = args[int(field)]
        elif field in kw:
            v = kw[field]
        else:
            return I.unk('format field')
        m = re.match(r'^(?:([<>^]))?(\d+)?(?:\.(\d+))?([a-zA-Z])?$', spec or '')
        if not m:
            return I.unk('format spec')
        al, w, pr, cv = m.groups()
        if cv is None:
            cv = 's' if not is_num(v) or not pr else 'g'
        flags = '-' if al == '<' or (al is None and cv == 's' and not is_num(v)) else ''
        out.append(fmt_one(I, flags if w else '', w, pr, cv, v))
    return cat(I, out)


# ================================================================ containers

def call_method(I, o, name, args, kw, node):
    if not isinstance(o, Ref):
        if is_str(o):
            return str_method(I, o, name, args, kw)
        if isinstance(o, Tup):
            if name == 'index':
                for i, x in enumerate(o.items):
                    e = as_cond(I, equals(I, x, args[0]))
                    if I.decide(e) is True:
                        return Const(i)
                I.raise_name('ValueError', 'not in tuple')
        return I.unk('method %s' % name, node)
    h = I.obj(o)
    k = h.kind
    if k == 'list':
        return list_method(I, o, h, name, args, kw)
    if k == 'dict':
        return dict_method(I, o, h, name, args, kw)
    if k == 'set':
        if name == 'add':
            if args[0] not in h.items:
                I.wr(o).items.append(args[0])
            return NONE
        if name in ('update', 'union'):
            its = I.iterate(args[0])
            if name == 'union':
                return I.new('set', items=dedup(I, h.items + its))
            I.wr(o).items = dedup(I, h.items + its)
            return NONE
        if name in ('remove', 'discard'):
            if args[0] in h.items:
                I.wr(o).items.remove(args[0])
            return NONE
        if name == 'issubset':
            its = I.iterate(args[0])
            return TRUE if all(x in its for x in h.items) else FALSE
        if name in ('intersection', 'difference'):
            its = I.iterate(args[0])
            return I.new('set', items=[x for x in h.items if (x in its) == (name == 'intersection')])
    if k == 'iter':
        if name == 'next':
            if not h.items:
                I.raise_name('StopIteration', '')
            w = I.wr(o)
            v = w.items[0]
            w.items = w.items[1:]
            return v
    if k == 'arr':
        return arr_method(I, o, h, name, args, kw)
    f = OBJ_METHODS.get((k, name))
    if f:
        return f(I, o, h, args, kw)
    if k == 'opaque':
        return opaque_call(I, o, name, args, kw)
    return I.unk('method %s of %s' % (name, k), node)


def list_method(I, o, h, name, args, kw):
    if name == 'append':
        list_append(I, o, args[0])
        return NONE
    if name == 'extend':
        list_extend(I, o, args[0])
        return NONE
    if not isinstance(h.items, list):
        if name in ('insert', 'pop', 'remove', 'sort', 'reverse'):
            I.wr(o).items = FBuf(h.items.n, ('fill', Unk('list.%s' % name)))
        return I.unk('list.%s on symbolic list' % name)
    if name == 'insert':
        if isinstance(args[0], Const):
            I.wr(o).items.insert(args[0].v, args[1])
            return NONE
        return I.unk('insert')
    if name == 'pop':
        if not h.items:
            I.raise_name('IndexError', 'pop from empty list')
        i = args[0] if args else Const(-1)
        n = norm_index(I, i, Const(len(h.items)), 'list')
        if isinstance(n, Const):
            return I.wr(o).items.pop(n.v)
        return I.unk('pop')
    if name in ('index', 'remove', 'count'):
        c = 0
        for i, x in enumerate(h.items):
            e = as_cond(I, equals(I, x, args[0]))
            r = I.decide(e) if not isinstance(e, Unk) else None
            if r is None:
                if isinstance(e, Unk):
                    return I.unk('list.%s' % name)
                raise NeedSplit(e)
            if r:
                if name == 'index':
                    return Const(i)
                if name == 'remove':
                    del I.wr(o).items[i]
                    return NONE
                c += 1
        if name == 'count':
            return Const(c)
        I.raise_name('ValueError', 'value not in list')
    if name == 'reverse':
        I.wr(o).items.reverse()
        return NONE
    if name == 'sort':
        r = do_sorted(I, h.items, kw)
        if r is None:
            I.wr(o).items = FBuf(Const(len(h.items)), ('fill', I.unk('sort')))
            return NONE
        I.wr(o).items = r
        return NONE
    return I.unk('list.%s' % name)


def do_sorted(I, items, kw):
    keyf = kw.get('key')
    ks = [I.call(keyf, [x], {}) for x in items] if keyf is not None and keyf is not NONE else items

    def pk(v):
        if isinstance(v, Const):
            return (0 if v.v is None else 1 if not isinstance(v.v, str) else 2, v.v if v.v is not None else 0)
        if isinstance(v, Tup):
            return (3, tuple(pk(x) for x in v.items))
        raise TypeError
    try:
        order = sorted(range(len(items)), key=lambda i: pk(ks[i]))
    except TypeError:
        if len(items) <= 1:
            return list(items)
        return None
    rev = kw.get('reverse')
    if rev is not None and rev is TRUE:
        order = order[::-1]
    return [items[i] for i in order]


def dict_method(I, o, h, name, args, kw):
    if name == 'get':
        return dict_get(I, o, I.force(args[0]), args[1] if len(args) > 1 else NONE)
    if name == 'has_key':
        return contains(I, o, args[0])
    if name in ('keys', 'iterkeys'):
        return I.newlist([k for k, v in dict_items(I, o)])
    if name in ('values', 'itervalues'):
        return I.newlist([v for k, v in dict_items(I, o)])
    if name in ('items', 'iteritems'):
        return I.newlist([Tup((k, v)) for k, v in dict_items(I, o)])
    if name == 'pop':
        k = I.force(args[0])
        kk = dict_lookup_key(I, h, k)
        if kk is None:
            if len(args) > 1:
                return args[1]
            I.raise_name('KeyError', repr(k))
        v = dict_get(I, o, kk, args[1] if len(args) > 1 else None)
        I.wr(o).d.pop(kk, None)
        return v
    if name == 'setdefault':
        k = I.force(args[0])
        kk = dict_lookup_key(I, h, k)
        d = args[1] if len(args) > 1 else NONE
        if kk is None:
            dict_set(I, o, k, d)
            return d
        v = dict_get(I, o, kk, d)
        dict_set(I, o, kk, v)
        return v
    if name == 'update':
        if args:
            src = I.force(args[0])
            if isinstance(src, Ref) and I.obj(src).kind == 'dict':
                for k, v in dict_items(I, src):
                    dict_set(I, o, k, v)
            else:
                for x in I.iterate(src) or []:
                    k, v = I.iterate(x)
                    dict_set(I, o, k, v)
        for k, v in kw.items():
            dict_set(I, o, Const(k), v)
        return NONE
    if name == 'copy':
        return I.newdict(h.d)
    if name == 'clear':
        I.wr(o).d = {}
        return NONE
    return I.unk('dict.%s' % name)


def arr_method(I, o, h, name, args, kw):
    if name == 'copy' or name == 'flatten':
        return np_copy(I, o, h.meta[4], None if name == 'flatten' else h.meta[2])
    if name == 'astype':
        dt = dtype_of(I, args[0] if args else kw.get('dtype'))
        return np_copy(I, o, dt, h.meta[2])
    if name in ('reshape', 'ravel', 'view'):
        if name == 'view' and (args or kw):
            b = np_getbuffer(I, [o], {})
            dt = dtype_of(I, args[0] if args else kw.get('dtype'))
            if isinstance(b, Unk) or len(h.meta[2]) != 1 or BITS.get(dt) != BITS.get(h.meta[4]):
                return I.unk('array.view')
            # (a copy: nothing here writes through such a view)
            return np_frombuffer(I, [b, Op('ext', ('dtype.' + dt,), 'ext')], {})
        n = arr_size(h)
        if name == 'ravel':
            shape = [n]
        elif name == 'view':
            return o
        else:
            sh = args[0] if len(args) == 1 and not numeric_ok(args[0]) else Tup(tuple(args))
            shape = I.iterate(sh)
            if any(x is Const(-1) for x in shape):
                k = Const(1)
                for x in shape:
                    if x is not Const(-1):
                        k = mul(k, x)
                shape = [floordiv(n, k) if x is Const(-1) else x for x in shape]
        p = Const(1)
        for x in shape:
            p = mul(p, x)
        I.raise_if(neg_cond(compare('eq', p, n)), 'ValueError', 'cannot reshape array')
        if h.meta[3] == c_strides(h.meta[2]):
            return I.new('arr', meta=(h.meta[0], h.meta[1], tuple(shape), c_strides(shape), h.meta[4]))
        c = np_copy(I, o, h.meta[4], None)
        ch = I.obj(c)
        return I.new('arr', meta=(ch.meta[0], ch.meta[1], tuple(shape), c_strides(shape), ch.meta[4]))
    if name == 'tolist':
        if len(h.meta[2]) == 1:
            its = I.iterate(o)
            if its is not None:
                return I.newlist(its)
            return I.new('list', items=FBuf(h.meta[2][0], ('fn', snapshot_reader(I, o), ('tolist', o))))
        return I.unk('tolist')
    if name == 'fill':
        arr_assign(I, o, args[0])
        return NONE
    if name in ('min', 'max', 'sum', 'any', 'all', 'mean'):
        its = arr_items(I, o)
        if its is None:
            return I.unk('array reduction')
        l = I.newlist(its)
        if name == 'mean':
            return divide(I, as_float(num(call_ext(I, 'builtins.sum', [l], {}, None))), Const(len(its)))
        return call_ext(I, 'builtins.' + name, [l], {}, None)
    if name == 'item':
        return arr_get_flat(I, o, args[0] if args else Const(0))
    if name in ('transpose', 'T') and not args:
        return I.new('arr', meta=(h.meta[0], h.meta[1], tuple(reversed(h.meta[2])), tuple(reversed(h.meta[3])), h.meta[4]))
    if name == 'clip':
        return call_ext(I, 'np.clip', [o] + args, kw, None)
    if name == 'dot':
        return call_ext(I, 'np.dot', [o] + args, kw, None)
    return I.unk('array.%s' % name)


def snapshot_reader(I, o):
    h = I.obj(o)
    fb = as_fbuf(I.st.get(h.meta[0]))
    hh = h
    return lambda t: fbuf_read(I, fb, arr_flat_off(hh, t))


def np_copy(I, o, dt, shape=None):
    l = arr_like(I, o)
    if l is None:
        return I.unk('np copy of unknown')
    n, rdr, sh, sdt = l
    dt = dt or sdt
    shape = shape or sh
    if n is None:
        return rdr(None)
    if isinstance(n, Const) and n.v <= 2048:
        return new_arr(I, [conv_dtype(I, rdr(Const(i)), dt) for i in range(n.v)], dt, tuple(shape))
    # whole-buffer copy of a contiguous functional buffer
    if isinstance(o, Ref):
        h = I.obj(o)
        src = None
        if h.kind == 'arr' and h.meta[3] == c_strides(h.meta[2]) and h.meta[1] is Const(0):
            src = I.st.get(h.meta[0])
        elif h.kind == 'list' and isinstance(h.items, FBuf):
            src = h
        if src is not None and isinstance(src.items, FBuf) and src.items.n is n and (dt in FLOAT_DT and dt != 'f2' and not EXACT32 or dt == sdt):
            log_read(I, h.meta[0] if h.kind == 'arr' else o.oid, Unk('copy'))
            return new_arr(I, src.items, dt, tuple(shape))
    r = arr_build(I, n, lambda t: conv_dtype(I, rdr(t), dt), dt)
    if len(shape) > 1:
        h = I.obj(r)
        return I.new('arr', meta=(h.meta[0], h.meta[1], tuple(shape), c_strides(shape), dt))
    return r


# ================================================================ external names

DTYPES = {'float16': 'f2', 'float32': 'f4', 'float64': 'f8', 'float': 'f8', 'double': 'f8', 'half': 'f2', 'single': 'f4', 'float_': 'f8',
          'uint8': 'u1', 'uint16': 'u2', 'uint32': 'u4', 'uint64': 'u8', 'int8': 'i1', 'int16': 'i2', 'int32': 'i4', 'int64': 'i8',
          'int': 'i8', 'int_': 'i8', 'bool': 'b1', 'bool_': 'b1', 'object': 'O', 'object_': 'O', 'uint': 'u8', 'long': 'i8'}
BITS = {'f2': 16, 'u2': 16, 'i2': 16, 'f4': 32, 'u4': 32, 'i4': 32, 'f8': 64, 'u8': 64, 'i8': 64, 'u1': 8, 'i1': 8}


def dtype_of(I, v):
    if v is None or v is NONE:
        return 'f8'
    if isinstance(v, Op) and v.op == 'ext':
        nm = v.args[0]
        if nm.startswith('dtype.'):
            return nm[6:]
        return DTYPES.get(nm.split('.')[-1], 'f8')
    if isinstance(v, Const) and isinstance(v.v, str):
        s = v.v.lstrip('<>=|')
        return DTYPES.get(s, s if s in BITS else 'f8')
    if isinstance(v, Op) and v.op == 'ite':
        I.split_on(v.args[0])
    return 'f8'


OPAQUE_MODULES = ('oiio', 'OCIO')


def ext_attr(I, o, name):
    q = o.args[0]
    full = q + '.' + name
    if full in EXT_CONST:
        return EXT_CONST[full]
    if q == 'sys' and name == 'argv':
        return I.cli_args if I.cli_args is not None else I.newlist([])
    if q == 'sys' and name == 'modules':
        return I.newdict({})
    if q == 'os' and name in ('sep', 'pathsep'):
        return Const('/' if name == 'sep' else ':')
    if q == 'os' and name == 'environ':
        return I.newdict({})
    if q.split('.')[0] in OPAQUE_MODULES:
        hook = I.ext_overrides.get(full)
        if isinstance(hook, Val):
            return hook
        return Op('ext', (full,), 'ext')
    if full in M.EXT_ALIAS:
        return Op('ext', (M.EXT_ALIAS[full],), 'ext')
    return Op('ext', (full,), 'ext')


EXT_CONST = {
    'math.pi': Const(math.pi), 'math.e': Const(math.e), 'np.pi': Const(math.pi), 'np.nan': NAN, 'np.NaN': NAN, 'np.inf': INF, 'np.e': Const(math.e),
    'sys.maxint': Const(2 ** 63 - 1), 'sys.maxsize': Const(2 ** 63 - 1), 'sys.version_info': Tup((Const(2), Const(7), Const(18))),
    'sys.platform': Const('linux2'), 'os.name': Const('posix'), 'np.newaxis': NONE, 'sys.byteorder': Const('little'),
    'np.Inf': INF, 'sys.version': Const('2.7.18'),
}


def inst_attr(I, o, h, name):
    if name == '__dict__':
        return I.newdict({Const(k): v for k, v in h.d.items()})
    return None


def set_obj_attr(I, o, h, name, v):
    if h.kind == 'elem':
        I.wr(o).d[name] = v
        return True
    if h.kind == 'opaque':
        I.wr(o).d[name] = v
        return True
    if h.kind in ('options', 'file', 'optparser', 'etree'):
        I.wr(o).d[name] = v
        return True
    return False


def obj_attr(I, o, h, name, node, default):
    k = h.kind
    if k in ('elem',):
        if name in h.d:
            return h.d[name]
    if k in ('file', 'options', 'opaque', 'etree', 'optparser'):
        if name in h.d:
            return h.d[name]
    if k == 'options':
        if default is not None:
            return default
        I.raise_name('AttributeError', "Values instance has no attribute '%s'" % name)
    if (k, name) in OBJ_METHODS:
        return Op('bmeth', (o, name), 'bmeth')
    if k == 'opaque':
        return Op('bmeth', (o, name), 'bmeth')
    if default is not None:
        return default
    if k in ('elem', 'file', 'etree'):
        from . import models
        if name in models.REAL_NAMES[k] or name.startswith('__'):
            return I.unk('attribute %s of %s' % (name, k), node)
        I.raise_name('AttributeError', "'%s' object has no attribute '%s'" % (k, name))
    return I.unk('attribute %s of %s' % (name, k), node)


def val_attr(I, o, name, node, default):
    if isinstance(o, Op) and o.ty == 'opaque':
        return Op('oattr', (o, Const(name)), 'opaque')
    if numeric_ok(o):
        if name in ('dtype',):
            return Op('ext', ('dtype.f4',), 'ext')
        if name in ('real',):
            return o
        if name in ('item', 'tolist', 'astype', 'tostring', 'tobytes', 'is_integer', 'view', 'copy', 'byteswap', 'newbyteorder'):
            return Op('bmeth_num', (o, name), 'bmeth_num')
        if default is not None:
            return default
        I.raise_name('AttributeError', "number has no attribute '%s'" % name)
    if default is not None:
        return default
    return I.unk('attribute %s' % name, node)


# ------------------------------------------------------------ files

def new_file(I, path, mode, kind='file', gz=False):
    f = I.new('file', d={'closed': FALSE, 'name': path, 'mode': mode, 'gz': TRUE if gz else FALSE, 'pos': Const(0)}, items=[])
    w = I.wr(I.world)
    lst = w.d.get('opened')
    w.d['opened'] = Tup((lst.items if lst is not None else ()) + (f,))
    I.event('open', path)
    I.files.append(f)
    return f


def same_path(a, b):
    return a is b or isinstance(a, Const) and isinstance(b, Const) and isinstance(a.v, str) and isinstance(b.v, str) and os.path.normpath(a.v) == os.path.normpath(b.v)


def vfs_get(I, path):
    # what was written under this name since the start of the scenario comes first
    lst = I.obj(I.world).d.get('opened')
    for f in reversed(lst.items if lst is not None else ()):
        h = I.obj(f)
        if same_path(h.d['name'], path) and isinstance(h.d['mode'], Const) and 'w' in h.d['mode'].v:
            if len(h.items) == 1 and isinstance(h.items[0], Op) and h.items[0].op == 'xmltext':
                return Op('gzxml', (h.items[0],), 'str') if h.d['gz'] is TRUE else h.items[0]
            return cat(I, list(h.items)) if h.items else Const('')
    for k, v in I.vfs.items():
        if same_path(k, path):
            return v
    return None


def xml_copy(I, e, ns=None):
    """the element as it is after serialising and parsing: strings only, empty text is no text"""
    h = I.obj(e)

    def text(v, what):
        v = I.force(v) if not isinstance(v, Unk) else v
        if v is NONE and what == 'text':
            return v
        if isinstance(v, Unk):
            return v
        if not is_str(v):
            I.raise_name('TypeError', 'cannot serialize %s of <%s>' % (what, short_name(h.d['tag'])))
        if what == 'text' and v is Const(''):
            return NONE
        return v
    a = I.newdict({k: text(v, 'attribute ' + short_name(k)) for k, v in dict_items(I, h.d['attrib'])})
    tag = h.d['tag']
    if ns is not None:
        # parsing turns the default namespace into a prefix of the tags
        x = I.obj(a).d.get(Const('xmlns'))
        if x is not None:
            ns = x
            I.wr(a).d.pop(Const('xmlns'))
        if ns is not Const('') and not (isinstance(tag, Const) and tag.v.startswith('{')):
            tag = cat(I, [Const('{'), ns, Const('}'), tag])
    n = I.new('elem', d={'tag': tag, 'attrib': a, 'text': text(h.d['text'], 'text'), 'tail': NONE}, items=[])
    kids = [xml_copy(I, c, ns) for c in h.items]
    I.wr(n).items = kids
    return n


def short_name(v):
    return str(v.v) if isinstance(v, Const) else '?'


def x_tostring(I, e):
    if isinstance(e, Ref) and I.obj(e).kind == 'elem':
        return Op('xmltext', (xml_copy(I, e),), 'str')
    return Op('xmltext', (e,), 'str')


def f_open(I, args, kw, gz=False):
    path = I.force(args[0])
    mode = I.force(args[1]) if len(args) > 1 else kw.get('mode', Const('rb' if gz else 'r'))
    if isinstance(path, Unk) or not isinstance(mode, Const):
        return I.unk('open')
    if 'r' in mode.v and '+' not in mode.v:
        c = vfs_get(I, path)
        if c is ABSENT:
            I.raise_name('IOError', 'No such file')
    if I.faults:
        I.raise_if(sym('fault!open!%s:%s' % I.where()[:2], 'bool'), 'IOError', 'the file cannot be opened')
    return new_file(I, path, mode, gz=gz)


def file_content(I, o):
    h = I.obj(o)
    c = vfs_get(I, h.d['name'])
    if c is None:
        return Op('content', (h.d['name'],), 'str')
    return c


def check_open(I, o):
    h = I.obj(o)
    if h.d['closed'] is TRUE:
        I.raise_name('ValueError', 'I/O operation on closed file')
    if I.faults:
        # the operation may fail (a scenario asked for it)
        pos = h.d['pos']
        n = 'fault!%s!%d!%s!%s' % ('%s:%s' % I.where()[:2], len(h.items), pos.v if isinstance(pos, Const) else '?', short_name(h.d['name']))
        I.raise_if(sym(n, 'bool'), 'IOError', 'the file operation fails')
    return h


def file_lines(I, o):
    h = check_open(I, o)
    c = file_content(I, o)
    if isinstance(c, Tup):          # explicit list of lines (each ending in newline)
        ls = list(c.items)
    else:
        t = split_sep(I, c, '\n')
        if t is None:
            raise Unsupported('lines of unknown content')
        ls = [cat(I, [x, Const('\n')]) for x in t[:-1]] + ([t[-1]] if t[-1] is not Const('') else [])
    pos = h.d['pos'].v
    I.wr(o).d['pos'] = Const(len(ls))
    return ls[pos:]


def m_file_write(I, o, h, args, kw):
    check_open(I, o)
    v = args[0]
    if not is_str(v) and not isinstance(v, Unk):
        v = I.force(v)
        if not is_str(v):
            I.raise_name('TypeError', 'expected a string')
    I.wr(o).items.append(v)
    return NONE


def m_file_close(I, o, h, args, kw):
    I.wr(o).d['closed'] = TRUE
    return NONE


def m_file_read(I, o, h, args, kw):
    check_open(I, o)
    c = file_content(I, o)
    if isinstance(c, Tup):
        return cat(I, file_lines(I, o))
    return c


def m_file_readline(I, o, h, args, kw):
    pos = h.d['pos'].v
    I.wr(o).d['pos'] = Const(0)
    ls = file_lines(I, o)
    if pos >= len(ls):
        I.wr(o).d['pos'] = Const(pos)
        return Const('')
    I.wr(o).d['pos'] = Const(pos + 1)
    return ls[pos]


def ctx_enter(I, m):
    if isinstance(m, Ref):
        h = I.obj(m)
        if h.kind == 'file':
            return m
        if h.kind == 'inst':
            return I.call(I.getattr(m, '__enter__'), [], {})
        if h.kind == 'opaque':
            return m
    if isinstance(m, Op) and m.op == 'ctxnull':
        return NONE
    return I.unk('context manager')


def ctx_exit(I, m, how):
    if isinstance(m, Ref):
        h = I.obj(m)
        if h.kind == 'file':
            I.wr(m).d['closed'] = TRUE
        elif h.kind == 'inst':
            I.call(I.getattr(m, '__exit__'), [NONE, NONE, NONE], {})


# ------------------------------------------------------------ XML

def new_elem(I, tag, attrib=None):
    a = attrib if attrib is not None else I.newdict()
    return I.new('elem', d={'tag': tag, 'attrib': a, 'text': NONE, 'tail': NONE}, items=[])


def x_SubElement(I, args, kw):
    a = I.newdict({Const(k): v for k, v in kw.items()})
    if len(args) > 2:
        for k, v in dict_items(I, args[2]):
            dict_set(I, a, k, v)
    e = new_elem(I, args[1], a)
    p = I.force(args[0])
    if p is NONE:
        I.raise_name('TypeError', 'SubElement parent is None')
    if not (isinstance(p, Ref) and I.obj(p).kind == 'elem'):
        I.unk('SubElement parent')
        return e
    I.wr(p).items.append(e)
    return e


def x_Element(I, args, kw):
    a = I.newdict({Const(k): v for k, v in kw.items()})
    if len(args) > 1:
        for k, v in dict_items(I, args[1]):
            dict_set(I, a, k, v)
    return new_elem(I, args[0], a)


def x_ElementTree(I, args, kw):
    return I.new('etree', d={'root': args[0] if args else NONE})


def x_parse(I, args, kw):
    src = I.force(args[0])
    if isinstance(src, Ref) and I.obj(src).kind == 'file':
        check_open(I, src)
        h = I.obj(src)
        c = vfs_get(I, h.d['name'])
        gz = h.d['gz'] is TRUE
    else:
        c = vfs_get(I, src)
        gz = False
    if c is None:
        I.raise_name('IOError', 'cannot open')
    if c is ABSENT:
        I.raise_name('IOError', 'No such file')
    if isinstance(c, Op) and c.op == 'gzxml':
        if not gz:
            I.raise_name('ParseError', 'not well-formed')
        c = c.args[0]
    elif gz:
        I.raise_name('IOError', 'Not a gzipped file')
    if isinstance(c, Op) and c.op == 'xmltext':
        return I.new('etree', d={'root': xml_copy(I, c.args[0], Const('')) if isinstance(c.args[0], Ref) else c.args[0]})
    if isinstance(c, Ref) and I.obj(c).kind == 'elem':
        return I.new('etree', d={'root': c})
    if c is Const('malformed'):
        I.raise_name('ParseError', 'not well-formed')
    return I.unk('XML parse')


def elem_iter(I, o, out):
    out.append(o)
    for c in I.obj(o).items:
        elem_iter(I, c, out)


def m_elem_find(I, o, h, args, kw):
    t = I.force(args[0])
    for c in h.items:
        if I.decide(as_cond(I, equals(I, I.obj(c).d['tag'], t))) is True:
            return c
    return NONE


def m_elem_findall(I, o, h, args, kw):
    t = I.force(args[0])
    return I.newlist([c for c in h.items if I.decide(as_cond(I, equals(I, I.obj(c).d['tag'], t))) is True])


def m_elem_iter(I, o, h, args, kw):
    out = []
    elem_iter(I, o, out)
    if args and args[0] is not NONE and args[0] is not Const('*'):
        out = [c for c in out if I.decide(as_cond(I, equals(I, I.obj(c).d['tag'], args[0]))) is True]
    return I.newlist(out)


def m_elem_append(I, o, h, args, kw):
    I.wr(o).items.append(args[0])
    return NONE


def m_elem_insert(I, o, h, args, kw):
    i = I.force(args[0])
    if not isinstance(i, Const):
        return I.unk('insertion at a symbolic position')
    I.wr(o).items.insert(i.v, args[1])
    return NONE


def m_elem_remove(I, o, h, args, kw):
    e = I.force(args[0])
    for i, c in enumerate(h.items):
        if c is e:
            del I.wr(o).items[i]
            return NONE
    I.raise_name('ValueError', 'list.remove(x): x not in list')


def m_elem_extend(I, o, h, args, kw):
    for x in list(I.iterate(args[0])):
        I.wr(o).items.append(x)
    return NONE


def m_elem_clear(I, o, h, args, kw):
    w = I.wr(o)
    del w.items[:]
    w.d['attrib'] = I.newdict({})
    w.d['text'] = w.d['tail'] = NONE
    return NONE


OBJ_METHODS = {
    ('file', 'write'): m_file_write, ('file', 'close'): m_file_close, ('file', 'read'): m_file_read,
    ('file', 'readline'): m_file_readline, ('file', 'readlines'): lambda I, o, h, a, k: I.newlist(file_lines(I, o)),
    ('file', 'flush'): lambda I, o, h, a, k: NONE,
    ('file', 'writelines'): lambda I, o, h, a, k: [m_file_write(I, o, I.obj(o), [x], {}) for x in I.iterate(a[0])] and NONE or NONE,
    ('elem', 'set'): lambda I, o, h, a, k: dict_set(I, h.d['attrib'], I.force(a[0]), a[1]) or NONE,
    ('elem', 'get'): lambda I, o, h, a, k: dict_get(I, h.d['attrib'], I.force(a[0]), a[1] if len(a) > 1 else NONE),
    ('elem', 'keys'): lambda I, o, h, a, k: dict_method(I, h.d['attrib'], I.obj(h.d['attrib']), 'keys', [], {}),
    ('elem', 'items'): lambda I, o, h, a, k: dict_method(I, h.d['attrib'], I.obj(h.d['attrib']), 'items', [], {}),
    ('elem', 'find'): m_elem_find, ('elem', 'findall'): m_elem_findall, ('elem', 'iter'): m_elem_iter,
    ('elem', 'getiterator'): m_elem_iter,
    ('elem', 'getchildren'): lambda I, o, h, a, k: I.newlist(h.items),
    ('elem', 'append'): m_elem_append, ('elem', 'insert'): m_elem_insert, ('elem', 'remove'): m_elem_remove, ('elem', 'extend'): m_elem_extend,
    ('elem', 'clear'): m_elem_clear, ('elem', 'iterfind'): m_elem_findall,
    ('elem', 'findtext'): lambda I, o, h, a, k: (lambda e: NONE if e is NONE else I.obj(e).d['text'])(m_elem_find(I, o, h, a, k)),
    ('etree', 'getroot'): lambda I, o, h, a, k: h.d['root'],
    ('etree', 'write'): lambda I, o, h, a, k: etree_write(I, o, h, a, k),
    ('dom', 'toprettyxml'): lambda I, o, h, a, k: Op('xmltext', (h.d['root'],), 'str'),
    ('dom', 'toxml'): lambda I, o, h, a, k: Op('xmltext', (h.d['root'],), 'str'),
    ('optparser', 'add_option'): lambda I, o, h, a, k: opt_add(I, o, h, a, k),
    ('optparser', 'parse_args'): lambda I, o, h, a, k: opt_parse(I, o, h, a, k),
    ('optparser', 'print_help'): lambda I, o, h, a, k: NONE,
    ('optparser', 'print_usage'): lambda I, o, h, a, k: NONE,
    ('optparser', 'set_usage'): lambda I, o, h, a, k: NONE,
    ('optparser', 'set_defaults'): lambda I, o, h, a, k: opt_defaults(I, o, h, k),
    ('optparser', 'error'): lambda I, o, h, a, k: I.raise_name('SystemExit', 'option error'),
}


def etree_write(I, o, h, a, k):
    f = new_file(I, I.force(a[0]), Const('w'))
    I.wr(f).items.append(x_tostring(I, I.force(h.d['root'])))
    I.wr(f).d['closed'] = TRUE
    return NONE


def elem_len(I, o):
    return Const(len(I.obj(o).items))


# ------------------------------------------------------------ option parsing

def opt_add(I, o, h, args, kw):
    names = [n for n in [I.force(a).v for a in args] if n]
    longs = [n for n in names if n.startswith('--')]
    dest = kw.get('dest')
    if dest is None:
        dest = Const((longs[0][2:] if longs else names[0][1:]).replace('-', '_'))
    act = kw.get('action', Const('store')).v
    ty = kw.get('type', NONE)
    if isinstance(ty, Op) and ty.op == 'ext':
        ty = Const(ty.args[0].split('.')[-1])
    tyn = ty.v if isinstance(ty, Const) and ty.v else 'string'
    nargs = kw.get('nargs', Const(1)).v
    default = kw.get('default', ABSENT)
    cv = kw.get('const', NONE)
    I.wr(o).items.append(Tup((Tup(tuple(Const(n) for n in names)), dest, Const(act), Const(tyn), Const(nargs), default, cv, kw.get('help', NONE))))
    return NONE


def opt_defaults(I, o, h, kw):
    w = I.wr(o)
    for k, v in kw.items():
        w.d['def:' + k] = v
    return NONE


def opt_parse(I, o, h, args, kw):
    src = args[0] if args else I.cli_args
    if src is None:
        src = I.newlist([])
        argv = []
    else:
        argv = I.iterate(I.force(src))
    if argv is None:
        return Tup((I.unk('parse_args'), I.unk('parse_args')))
    if not args:
        argv = argv[1:] if argv else argv
    vals = {}
    table = {}
    for it in h.items:
        names, dest, act, ty, nargs, default, cv, hl = it.items
        for n in names.items:
            if n.v in table:
                I.raise_name('RuntimeError', 'OptionConflictError: conflicting option string %s' % n.v)
            table[n.v] = it
        if dest.v not in vals or default is not ABSENT:
            dv = default if default is not ABSENT else NONE
            # optparse converts string defaults with the option type
            if dest.v in vals and default is ABSENT:
                continue
            if is_str(dv) and ty.v in ('int', 'float'):
                dv = parse_int(I, dv) if ty.v == 'int' else parse_float(I, dv)
            vals[dest.v] = dv
    for k, v in h.d.items():
        if k.startswith('def:'):
            vals[k[4:]] = v
    pos = []
    i = 0
    while i < len(argv):
        a = argv[i]
        i += 1
        if not (isinstance(a, Const) and a.v.startswith('-') and len(a.v) > 1):
            pos.append(a)
            continue
        if a.v == '--':
            pos += argv[i:]
            break
        nm = a.v
        if nm not in table:
            cand = [n for n in table if n.startswith(nm)] if nm.startswith('--') else []
            if len(cand) == 1:
                nm = cand[0]
            elif not nm.startswith('--') and nm[:2] in table:      # -xVALUE
                argv = argv[:i] + [Const(nm[2:])] + argv[i:]
                nm = nm[:2]
            else:
                I.raise_name('SystemExit', 'no such option %s' % nm)
        names, dest, act, ty, nargs, default, cv, hl = table[nm].items

        def conv(x):
            if ty.v in ('float', 'int', 'long'):
                if is_num(x):
                    return x
                return parse_float(I, x) if ty.v == 'float' else parse_int(I, x)
            if ty.v in ('string', 'str'):
                return x
            if ty.v == 'choice':
                return x
            return x
        if act.v in ('store', 'append'):
            if i + nargs.v > len(argv):
                I.raise_name('SystemExit', 'option requires an argument')
            got = [conv(x) for x in argv[i:i + nargs.v]]
            i += nargs.v
            v = got[0] if nargs.v == 1 else Tup(tuple(got))
            if act.v == 'store':
                vals[dest.v] = v
            else:
                cur = vals.get(dest.v, NONE)
                base = I.iterate(cur) if cur is not NONE else []
                vals[dest.v] = I.newlist(base + [v])
        elif act.v == 'store_true':
            vals[dest.v] = TRUE
        elif act.v == 'store_false':
            vals[dest.v] = FALSE
        elif act.v == 'store_const':
            vals[dest.v] = cv
        elif act.v == 'count':
            cur = vals.get(dest.v, NONE)
            vals[dest.v] = add(cur, Const(1)) if cur is not NONE else Const(1)
        else:
            return Tup((I.unk('option action'), I.unk('option action')))
    opts = I.new('options', d=vals)
    return Tup((opts, I.newlist(pos)))


# ------------------------------------------------------------ bit patterns

FMT = {'e': 'f2', 'H': 'u2', 'h': 'i2', 'f': 'f4', 'I': 'u4', 'i': 'i4', 'L': 'u4', 'd': 'f8', 'Q': 'u8', 'q': 'i8', 'B': 'u1', 'b': 'i1'}
PYF = {'f2': 'e', 'u2': 'H', 'i2': 'h', 'f4': 'f', 'u4': 'I', 'i4': 'i', 'f8': 'd', 'u8': 'Q', 'i8': 'q', 'u1': 'B', 'i1': 'b'}
CASTN = {('u2', 'f2'): 'u2h', ('f2', 'u2'): 'h2u', ('u4', 'f4'): 'u2f', ('f4', 'u4'): 'f2u', ('u8', 'f8'): 'u2d', ('f8', 'u8'): 'd2u'}
INV = {'u2h': 'h2u', 'h2u': 'u2h', 'u2f': 'f2u', 'f2u': 'u2f', 'u2d': 'd2u', 'd2u': 'u2d'}


def np_scalar(I, dt, v):
    """value rounded / wrapped to dtype dt"""
    if isinstance(v, Unk):
        return v
    if is_str(v):
        v = parse_float(I, v) if dt in FLOAT_DT else parse_int(I, v)
    if isinstance(v, Ref):
        return np_copy(I, v, dt)
    v = I.force(v) if not numeric_ok(v) else v
    if isinstance(v, Unk):
        return v
    if not numeric_ok(v):
        I.raise_name('TypeError', 'a number is required')
    v = num(v)
    if dt == 'f2':
        return half_round(I, v)
    if dt == 'f4' and EXACT32:
        return single_round(v)
    if dt in FLOAT_DT:
        return as_float(v)
    if dt == 'b1':
        return truth(I, v)
    if T.ty_of(v) != 'int':
        v = trunc(I, v)
    return wrap_int(I, v, dt)


def bitcast(I, a, b, v):
    """reinterpret a value of dtype a as dtype b"""
    if isinstance(v, Unk):
        return v
    if a == b:
        return v
    if BITS.get(a) != BITS.get(b):
        I.raise_name('ValueError', 'buffer size mismatch')
    if isinstance(v, Const):
        try:
            return Const(struct.unpack('<' + PYF[b], struct.pack('<' + PYF[a], v.v))[0])
        except (struct.error, OverflowError):
            return Unk('bitcast constant')
    n = CASTN.get((a, b))
    if n is None:
        return I.unk('bitcast %s->%s' % (a, b))
    return mk_cast(n, v)


def mk_cast(n, v):
    g = T.is_ite(v)
    a = T.single_atom(v)
    if a is not None and a.op == INV[n]:
        return a.args[0]
    if isinstance(v, Const):
        src = [k for k, x in CASTN.items() if x == n][0]
        try:
            return Const(struct.unpack('<' + PYF[src[1]], struct.pack('<' + PYF[src[0]], int(v.v) if src[0][0] == 'u' else v.v))[0])
        except (struct.error, OverflowError):
            return Unk('bitcast constant')
    return T.atom(n, v, ty='int' if n[1] == '2' and n[2] == 'u' else 'float')


for _n in INV:
    T.REBUILD[_n] = (lambda n: lambda v: mk_cast(n, v))(_n)


def _rb_f16(v):
    return half_round(None, v)


T.REBUILD['f16'] = _rb_f16
T.REBUILD['f32'] = lambda v: as_float(v)
T.REBUILD['str'] = lambda v: to_str(None, v) if isinstance(v, Const) or is_num(v) else Op('str', (v,), 'str')


def struct_pack(I, args):
    f = I.force(args[0])
    if not isinstance(f, Const):
        return I.unk('struct.pack')
    fm = f.v.lstrip('<>=!@')
    end = f.v[0] if f.v and f.v[0] in '<>=!@' else '@'
    if len(fm) == 1 and fm in FMT:
        dt = FMT[fm]
        v = np_scalar(I, dt, args[1])
        if isinstance(v, Const):
            e = '<' if end in '<=@' else '>'
            try:
                return Const(struct.pack(e + PYF[dt], v.v).decode('latin-1'))
            except (struct.error, OverflowError):
                I.raise_name('ValueError', 'struct.error')
        e = 'le' if end in '<=@' else 'be'
        return Op('bytes', (Const(dt + e), v), 'str')
    return I.unk('struct.pack %s' % f.v)


def struct_unpack(I, args):
    f = I.force(args[0])
    s = I.force(args[1])
    if isinstance(s, Unk):
        return s
    if not isinstance(f, Const):
        return I.unk('struct.unpack')
    fm = f.v.lstrip('<>=!@')
    end = f.v[0] if f.v and f.v[0] in '<>=!@' else '@'
    e = 'le' if end in '<=@' else 'be'
    if len(fm) == 1 and fm in FMT:
        dt = FMT[fm]
        if isinstance(s, Const):
            try:
                return Tup((Const(struct.unpack(('<' if e == 'le' else '>') + PYF[dt], s.v.encode('latin-1'))[0]),))
            except struct.error:
                I.raise_name('ValueError', 'struct.error: wrong size')
        if isinstance(s, Op) and s.op == 'bytes':
            src, se = s.args[0].v[:2], s.args[0].v[2:]
            if BITS[src] != BITS[dt]:
                I.raise_name('ValueError', 'struct.error: wrong size')
            if se != e:
                return Tup((T.atom('byteswap', Const(dt), s.args[1], ty='int' if dt[0] != 'f' else 'float'),))
            return Tup((bitcast(I, src, dt, s.args[1]),))
        return Tup((T.atom('unpack', Const(dt + e), s, ty='int' if dt[0] != 'f' else 'float'),))
    return I.unk('struct.unpack')


# ------------------------------------------------------------ calls of external functions

def call_ext(I, name, args, kw, node):
    ov = I.ext_overrides.get(name)
    if ov is not None and not isinstance(ov, Val):
        r = ov(I, args, kw)
        if r is not None:
            return r
    f = FUNCS.get(name)
    if f is not None:
        return f(I, args, kw)
    last = name.split('.')[-1]
    if name.startswith('np.') and last in DTYPES:
        if not args:
            return Const(0.0)
        dt = DTYPES[last]
        v = np_scalar(I, dt, args[0])
        I.last_np = (v, dt)
        return Op('npv', (Const(dt), v), 'npv') if False else tag_np(I, v, dt)
    if name.split('.')[0] in OPAQUE_MODULES:
        return Op('ocall', (Const(name),) + tuple(args), 'opaque')
    f = prelude(I, name)
    if f is not None:
        return I.call(f, list(args), dict(kw))
    return I.unk('external function %s' % name, node)


PRELUDE = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'prelude.py')
PRELUDE_NAMES = set(re.findall(r'^(?:def|class) (\w+__\w+)', open(PRELUDE).read(), re.M))


def prelude(I, name):
    """library functions given as source"""
    n = name.replace('.', '__')
    if n not in PRELUDE_NAMES:
        return None
    m = I.load_module(PRELUDE, '__prelude__')
    return I.obj(m).d[n]


def tag_np(I, v, dt):
    """remember the numpy type of the freshly converted scalar for getbuffer"""
    I.np_tags[v] = dt
    return v


def reg(*names):
    def deco(f):
        for n in names:
            FUNCS[n] = f
        return f
    return deco


FUNCS = {}


def b_len(I, a, k):
    v = I.force(a[0])
    if isinstance(v, Unk):
        return v
    if isinstance(v, Tup):
        return Const(len(v.items))
    if isinstance(v, Ref):
        o = I.obj(v)
        if o.kind in ('list', 'set', 'arr'):
            return seq_len(I, o)
        if o.kind == 'dict':
            return Const(len(dict_items(I, v)))
        if o.kind == 'elem':
            return Const(len(o.items))
        if o.kind == 'inst':
            m = I.class_attr(o.cls, '__len__')
            if m is not None:
                return I.call(I.bind(m, v, o.cls), [], {})
        if o.kind == 'opaque':
            return T.atom('olen', v, ty='int')
        I.raise_name('TypeError', 'object has no len()')
    if isinstance(v, Const) and isinstance(v.v, str):
        return Const(len(v.v))
    if is_str(v):
        return T.atom('len', v, ty='int')
    if isinstance(v, Op) and v.op == 'rangefn':
        return range_len(I, *v.args)
    if isinstance(v, Op) and v.ty == 'opaque':
        return T.atom('olen', v, ty='int')
    I.raise_name('TypeError', 'object has no len()')


FUNCS['builtins.len'] = b_len


def int_arg(I, v):
    v = num(v) if numeric_ok(v) else I.force(v)
    if isinstance(v, Unk):
        return v
    if not numeric_ok(v):
        I.raise_name('TypeError', 'an integer is required')
    v = num(v)
    if T.ty_of(v) == 'float':
        if isinstance(v, Const):
            I.raise_name('TypeError', 'range() integer argument expected, got float')
        if not T.is_int_poly(v):
            I.raise_name('TypeError', 'range() integer argument expected, got float')
    return v


def b_range(I, a, k):
    a = [int_arg(I, x) for x in a]
    u = T.unk_of(*a)
    if u:
        return u
    if len(a) == 1:
        st, en, sp = Const(0), a[0], Const(1)
    elif len(a) == 2:
        st, en, sp = a[0], a[1], Const(1)
    else:
        st, en, sp = a
    if sp is Const(0):
        I.raise_name('ValueError', 'range() step argument must not be zero')
    n = range_len(I, st, en, sp)
    if isinstance(n, Unk):
        return n
    if isinstance(n, Const) and isinstance(st, Const) and isinstance(sp, Const):
        if n.v <= 4096:
            return I.newlist([Const(st.v + sp.v * i) for i in range(n.v)])
    g = T.is_ite(n)
    if g is not None and all(isinstance(x, Const) for x in g.args[1:]):
        I.split_on(g.args[0])
    return I.new('list', items=FBuf(n, ('fn', lambda i: add(st, mul(sp, i)), ('range', st, sp))))


FUNCS['builtins.range'] = FUNCS['builtins.xrange'] = b_range


def b_map(I, a, k):
    f = I.force(a[0])
    ds = [iter_desc(I, I.force(x)) for x in a[1:]]
    if any(d is None for d in ds):
        return I.unk('map over unknown sequence')
    if all(d[0] == 'items' for d in ds):
        n = max(len(d[1]) for d in ds)
        out = []
        for i in range(n):
            xs = [d[1][i] if i < len(d[1]) else NONE for d in ds]
            if f is NONE:
                out.append(Tup(tuple(xs)) if len(xs) > 1 else xs[0])
            else:
                out.append(I.call(f, xs, {}))
        return I.newlist(out)
    if len(ds) > 1:
        return I.unk('map over several symbolic sequences')
    return I.generic_map(ds[0][1], lambda t: I.call(f, [ds[0][2](t)], {}))


FUNCS['builtins.map'] = b_map


def b_filter(I, a, k):
    f = I.force(a[0])
    its = I.iterate(I.force(a[1]))
    if its is None:
        return I.unk('filter')
    out = []
    for x in its:
        c = truth(I, x if f is NONE else I.call(f, [x], {}))
        r = I.decide(c) if not isinstance(c, Unk) else None
        if r is None:
            if isinstance(c, Unk):
                return I.unk('filter')
            I.split_on(c)
        if r:
            out.append(x)
    return I.newlist(out)


FUNCS['builtins.filter'] = b_filter


def b_zip(I, a, k):
    ds = [iter_desc(I, I.force(x)) for x in a]
    if any(d is None for d in ds):
        return I.unk('zip')
    if all(d[0] == 'items' for d in ds):
        return I.newlist([Tup(t) for t in zip(*[d[1] for d in ds])])
    return Op('zipv', tuple(a), 'zipv')


FUNCS['builtins.zip'] = b_zip
FUNCS['itertools.izip'] = b_zip
FUNCS['builtins.enumerate'] = lambda I, a, k: (lambda d: I.newlist([Tup((add(a[1] if len(a) > 1 else Const(0), Const(i)), x)) for i, x in enumerate(d[1])]) if d is not None and d[0] == 'items' else Op('enum', (I.force(a[0]), a[1] if len(a) > 1 else Const(0)), 'enum'))(iter_desc(I, a[0]))


def b_minmax(which):
    def f(I, a, k):
        if not a:
            I.raise_name('TypeError', '%s expected 1 argument, got 0' % which)
        if len(a) == 1:
            if numeric_ok(a[0]):
                I.raise_name('TypeError', "object is not iterable")
            its = I.iterate(I.force(a[0]))
            if its is None:
                return I.unk(which)
        else:
            its = list(a)
        if not its:
            I.raise_name('ValueError', '%s() arg is an empty sequence' % which)
        keyf = k.get('key')
        out = its[0]
        ko = I.call(keyf, [out], {}) if keyf is not None else out
        for x in its[1:]:
            kx = I.call(keyf, [x], {}) if keyf is not None else x
            c = compare_op(I, ast.Lt(), kx, ko) if which == 'min' else compare_op(I, ast.Gt(), kx, ko)
            c = as_cond(I, c)
            if isinstance(c, Unk):
                return c
            r = I.decide(c)
            if r is True:
                out, ko = x, kx
            elif r is None:
                out = ite(c, x, out)
                ko = ite(c, kx, ko) if keyf is not None else out
        return out
    return f


FUNCS['builtins.min'] = b_minmax('min')
FUNCS['builtins.max'] = b_minmax('max')


def nargs(lo, hi):
    """builtin called with the wrong number of arguments raises TypeError"""
    def deco(f):
        def g(I, a, k):
            if not (lo <= len(a) + len(k) <= hi):
                I.raise_name('TypeError', 'expected %d to %d arguments, got %d' % (lo, hi, len(a)))
            return f(I, a, k)
        return g
    return deco


FUNCS['builtins.pow'] = nargs(2, 2)(lambda I, a, k: binop(I, ast.Pow(), a[0], a[1]))
FUNCS['math.pow'] = nargs(2, 2)(lambda I, a, k: (lambda r: as_float(r) if numeric_ok(r) else r)(binop(I, ast.Pow(), num(a[0]) if numeric_ok(a[0]) else a[0], num(a[1]) if numeric_ok(a[1]) else a[1])))


def b_int(I, a, k):
    if not a:
        return Const(0)
    v = a[0]
    if not numeric_ok(v):
        v = I.force(v)
    if isinstance(v, Unk):
        return v
    if is_str(v):
        return parse_int(I, v, a[1].v if len(a) > 1 and isinstance(a[1], Const) else None)
    if isinstance(v, Ref) and I.obj(v).kind == 'arr' and arr_size(I.obj(v)) is Const(1):
        v = arr_get_flat(I, v, Const(0))
    if isinstance(v, Op) and v.ty == 'opaque':
        return T.atom('oint', v, ty='int')
    if not numeric_ok(v):
        I.raise_name('TypeError', 'int() argument must be a string or a number')
    return trunc(I, num(v))


FUNCS['builtins.int'] = FUNCS['builtins.long'] = b_int


def b_float(I, a, k):
    if not a:
        return Const(0.0)
    v = a[0]
    if not numeric_ok(v):
        v = I.force(v)
    if isinstance(v, Unk):
        return v
    if is_str(v):
        return parse_float(I, v)
    if isinstance(v, Ref) and I.obj(v).kind == 'arr' and arr_size(I.obj(v)) is Const(1):
        v = arr_get_flat(I, v, Const(0))
    if isinstance(v, Op) and v.ty == 'opaque':
        return T.atom('ofloat', v, ty='float')
    if not numeric_ok(v):
        I.raise_name('TypeError', 'float() argument must be a string or a number')
    return as_float(num(v))


FUNCS['builtins.float'] = b_float
FUNCS['builtins.str'] = lambda I, a, k: to_str(I, a[0]) if a else Const('')
FUNCS['builtins.unicode'] = FUNCS['builtins.str']
FUNCS['builtins.repr'] = lambda I, a, k: to_str(I, a[0], True)
FUNCS['builtins.bool'] = lambda I, a, k: truth(I, a[0]) if a else FALSE


def b_list(I, a, k):
    if not a:
        return I.newlist([])
    v = I.force(a[0])
    if isinstance(v, Ref) and isinstance(I.obj(v).items, FBuf):
        return I.new('list', items=I.obj(v).items)
    its = I.iterate(v)
    if its is None:
        if isinstance(v, Ref) and I.obj(v).kind == 'arr':
            return I.new('list', items=FBuf(I.obj(v).meta[2][0], ('fn', snapshot_reader(I, v), ('list', v))))
        return I.unk('list()')
    return I.newlist(its)


FUNCS['builtins.list'] = b_list


def b_tuple(I, a, k):
    if not a:
        return Tup(())
    its = I.iterate(I.force(a[0]))
    return Tup(tuple(its)) if its is not None else I.unk('tuple()')


FUNCS['builtins.tuple'] = b_tuple


def b_dict(I, a, k):
    d = I.newdict({})
    if a:
        dict_method(I, d, I.obj(d), 'update', a, {})
    for kk, v in k.items():
        dict_set(I, d, Const(kk), v)
    return d


FUNCS['builtins.dict'] = b_dict
FUNCS['builtins.set'] = FUNCS['builtins.frozenset'] = lambda I, a, k: I.new('set', items=dedup(I, I.iterate(I.force(a[0])) if a else []))


def b_abs(I, a, k):
    v = a[0]
    if not numeric_ok(v):
        v = I.force(v)
    if isinstance(v, Unk):
        return v
    if isinstance(v, Ref):
        return arr_ew(I, lambda x: b_abs(I, [x], {}), v)
    if not numeric_ok(v):
        I.raise_name('TypeError', 'bad operand type for abs()')
    v = num(v)
    c = compare('lt', v, Const(0))
    r = I.decide(c)
    if r is True:
        return neg(v)
    if r is False:
        return v
    return ite(c, neg(v), v)


FUNCS['builtins.abs'] = FUNCS['np.abs'] = FUNCS['np.fabs'] = FUNCS['np.absolute'] = b_abs
FUNCS['math.fabs'] = lambda I, a, k: (lambda r: as_float(r) if numeric_ok(r) else r)(b_abs(I, a, k))


def b_sum(I, a, k):
    its = I.iterate(I.force(a[0]))
    if its is None:
        return I.unk('sum over symbolic sequence')
    r = a[1] if len(a) > 1 else Const(0)
    for x in its:
        r = binop(I, ast.Add(), r, x)
    return r


FUNCS['builtins.sum'] = FUNCS['np.sum'] = b_sum


def b_any(isand):
    def f(I, a, k):
        v = I.force(a[0])
        its = arr_items(I, v) if isinstance(v, Ref) and I.obj(v).kind == 'arr' else I.iterate(v)
        if its is None:
            return I.unk('any/all')
        cs = [truth(I, x) for x in its]
        return (and_ if isand else or_)(*cs) if cs else (TRUE if isand else FALSE)
    return f


FUNCS['builtins.any'] = FUNCS['np.any'] = b_any(False)
FUNCS['builtins.all'] = FUNCS['np.all'] = b_any(True)
def b_reversed(I, a, k):
    v = I.force(a[0])
    if isinstance(v, Ref):
        h = I.obj(v)
        if h.kind == 'list' and isinstance(h.items, FBuf) and not isinstance(h.items.n, (Unk, Const)) and not h.items.stores and h.items.base[0] == 'fn':
            n, f = h.items.n, h.items.base[1]
            last = sub(n, Const(1))
            base = ('fn', lambda i: f(sub(last, i)))
            if len(h.items.base) > 2 and h.items.base[2] is not None:
                w, st, sp = h.items.base[2]
                base += ((w, add(st, mul(sp, last)), mul(Const(-1), sp)),)
            return I.new('list', items=FBuf(n, base))
    its = I.iterate(v)
    return I.newlist(its[::-1]) if its is not None else I.unk('reversed')


FUNCS['builtins.reversed'] = b_reversed


def b_sorted(I, a, k):
    its = I.iterate(I.force(a[0]))
    r = do_sorted(I, its, k) if its is not None else None
    return I.newlist(r) if r is not None else I.unk('sorted')


FUNCS['builtins.sorted'] = b_sorted


def type_match(I, v, t):
    """isinstance for one type"""
    if isinstance(t, Ref):
        if isinstance(v, Ref) and I.obj(v).kind == 'inst':
            return TRUE if I.is_subclass(I.obj(v).cls, t) else FALSE
        if isinstance(v, Ref) and I.obj(v).kind == 'class' and I.obj(t).meta.name == 'type':
            return TRUE
        return TRUE if I.obj(t).meta.name == 'object' else FALSE
    if t is NONE:
        I.raise_name('TypeError', 'isinstance() arg 2 must be a class')
    if isinstance(t, Op) and t.op == 'ext':
        n = t.args[0].split('.')[-1]
        ty = T.ty_of(v)
        if isinstance(v, Tup):
            ty = 'tuple'
        if isinstance(v, Ref):
            ty = {'arr': 'ndarray'}.get(I.obj(v).kind, I.obj(v).kind)
        if n in ('str', 'basestring', 'unicode'):
            return TRUE if ty == 'str' and n != 'unicode' else FALSE
        if n in ('int', 'long', 'Integral'):
            return TRUE if ty in ('int', 'bool') and n != 'long' else FALSE
        if n in ('float',):
            return TRUE if ty == 'float' else (FALSE if ty != 'num' else Op('isfloat', (v,), 'bool'))
        if n == 'bool':
            return TRUE if ty == 'bool' else FALSE
        if n in ('list', 'tuple', 'dict', 'set', 'ndarray'):
            return TRUE if ty == n else FALSE
        if n in ('float32', 'float64', 'floating', 'number', 'Number', 'Real', 'integer'):
            return TRUE if ty in ('float', 'int') and n in ('number', 'Number', 'Real') else (FALSE if ty not in ('float',) else Op('isnp', (Const(n), v), 'bool'))
    return I.unk('isinstance')


def b_isinstance(I, a, k):
    v = I.force(a[0]) if not is_num(a[0]) else a[0]
    if isinstance(v, Op) and v.op == 'ite' and v.ty == 'num':
        I.split_on(v.args[0]) if I.decide(v.args[0]) is None else None
        v = v.args[1] if I.decide(v.args[0]) else v.args[2]
    t = I.force(a[1])
    if isinstance(v, Unk):
        return v
    if isinstance(t, Tup):
        return or_(*[type_match(I, v, x) for x in t.items])
    return type_match(I, v, t)


FUNCS['builtins.isinstance'] = b_isinstance


def b_issubclass(I, a, k):
    c, t = I.force(a[0]), I.force(a[1])
    if isinstance(c, Ref) and I.obj(c).kind == 'class':
        ts = t.items if isinstance(t, Tup) else (t,)
        for x in ts:
            if not (isinstance(x, Ref) and I.obj(x).kind == 'class'):
                I.raise_name('TypeError', 'issubclass() arg 2 must be a class')
        return TRUE if any(I.is_subclass(c, x) for x in ts) else FALSE
    I.raise_name('TypeError', 'issubclass() arg 1 must be a class')


FUNCS['builtins.issubclass'] = b_issubclass
FUNCS['builtins.type'] = lambda I, a, k: builtin_type(I, a[0])


def b_iter(I, a, k):
    its = I.iterate(I.force(a[0]))
    return I.new('iter', items=its) if its is not None else I.unk('iter')


FUNCS['builtins.iter'] = b_iter


def b_next(I, a, k):
    o = I.force(a[0])
    h = I.obj(o)
    if h.kind == 'file':
        r = m_file_readline(I, o, h, [], {})
        if r is Const(''):
            I.raise_name('StopIteration', '')
        return r
    if h.kind == 'iter' or h.kind == 'list' and h.meta == ('gen',):
        if not h.items:
            if len(a) > 1:
                return a[1]
            I.raise_name('StopIteration', '')
        w = I.wr(o)
        v = w.items[0]
        w.items = w.items[1:]
        return v
    return I.unk('next')


FUNCS['builtins.next'] = b_next


def b_print(I, a, k):
    parts = []
    for i, x in enumerate(a):
        if i:
            parts.append(Const(' '))
        parts.append(to_str(I, x))
    I.event('print', cat(I, parts))
    return NONE


FUNCS['builtins.print'] = b_print
FUNCS['builtins.open'] = FUNCS['builtins.file'] = f_open
FUNCS['io.open'] = FUNCS['codecs.open'] = f_open
FUNCS['gzip.open'] = FUNCS['gzip.GzipFile'] = lambda I, a, k: f_open(I, a if a else [k.get('filename', NONE)], k, gz=True)


def b_getattr(I, a, k):
    n = I.force(a[1])
    if not isinstance(n, Const):
        return I.unk('getattr')
    return I.getattr(a[0], n.v, None, a[2] if len(a) > 2 else None)


FUNCS['builtins.getattr'] = b_getattr


def b_hasattr(I, a, k):
    n = I.force(a[1])
    mark = Special('nohas')
    return FALSE if I.getattr(a[0], n.v, None, mark) is mark else TRUE


FUNCS['builtins.hasattr'] = b_hasattr
FUNCS['builtins.setattr'] = lambda I, a, k: I.setattr(a[0], I.force(a[1]).v, a[2]) or NONE


def b_round(I, a, k):
    v = a[0]
    if not numeric_ok(v):
        v = I.force(v)
    if isinstance(v, Unk) or not numeric_ok(v):
        return I.unk('round')
    v = num(v)
    if len(a) > 1 and a[1] is not Const(0):
        if isinstance(v, Const) and isinstance(a[1], Const):
            return Const(round(v.v, a[1].v))
        return T.atom('roundn', v, a[1])
    if isinstance(v, Const):
        return Const(float(math.floor(abs(v.v) + 0.5)) * (1 if v.v >= 0 else -1))
    c = compare('lt', v, Const(0))
    d = I.decide(c)
    p = floor_(add(v, Const(0.5)))
    q = ceil_(sub(v, Const(0.5)))
    r = q if d is True else p if d is False else ite(c, q, p)
    return as_float(r)


FUNCS['builtins.round'] = b_round
FUNCS['builtins.divmod'] = lambda I, a, k: Tup((binop(I, ast.FloorDiv(), a[0], a[1]), binop(I, ast.Mod(), a[0], a[1])))
FUNCS['builtins.chr'] = lambda I, a, k: Const(chr(a[0].v)) if isinstance(a[0], Const) else I.unk('chr')
FUNCS['builtins.ord'] = lambda I, a, k: Const(ord(a[0].v)) if isinstance(a[0], Const) else I.unk('ord')
FUNCS['builtins.hex'] = lambda I, a, k: Const(hex(a[0].v)) if isinstance(a[0], Const) else Op('fmtx', (Const('0x%x'), a[0]), 'str')
FUNCS['builtins.id'] = lambda I, a, k: T.atom('id', a[0], ty='int')


def b_callable(I, a, k):
    v = I.force(a[0])
    if isinstance(v, Op) and v.op in ('ext', 'bound', 'bmeth', 'partial', 'pyfn'):
        return TRUE
    if isinstance(v, Ref):
        h = I.obj(v)
        return TRUE if h.kind in ('func', 'class') or (h.kind == 'inst' and I.class_attr(h.cls, '__call__') is not None) else FALSE
    return FALSE


FUNCS['builtins.callable'] = b_callable


def b_reduce(I, a, k):
    its = I.iterate(I.force(a[1]))
    if its is None:
        return I.unk('reduce')
    if len(a) > 2:
        r = a[2]
    else:
        if not its:
            I.raise_name('TypeError', 'reduce() of empty sequence')
        r, its = its[0], its[1:]
    for x in its:
        r = I.call(a[0], [r, x], {})
    return r


FUNCS['builtins.reduce'] = FUNCS['functools.reduce'] = b_reduce
FUNCS['builtins.staticmethod'] = lambda I, a, k: Op('staticmethod', (a[0],), 'sm')
FUNCS['builtins.classmethod'] = lambda I, a, k: Op('classmethod', (a[0],), 'sm')
FUNCS['builtins.property'] = lambda I, a, k: Op('property', (a[0],), 'sm')
FUNCS['builtins.vars'] = lambda I, a, k: I.getattr(a[0], '__dict__')
FUNCS['builtins.dir'] = lambda I, a, k: I.unk('dir')
FUNCS['builtins.cmp'] = lambda I, a, k: ite(as_cond(I, compare_op(I, ast.Lt(), a[0], a[1])), Const(-1), ite(as_cond(I, compare_op(I, ast.Gt(), a[0], a[1])), Const(1), Const(0)))
FUNCS['builtins.object'] = lambda I, a, k: I.new('inst', cls=I.builtin_classes['object'], d={})
FUNCS['builtins.super'] = lambda I, a, k: Op('super', (I.force(a[0]), I.force(a[1])), 'super') if len(a) == 2 else I.unk('super')
FUNCS['builtins.noop'] = lambda I, a, k: NONE
FUNCS['builtins.slice'] = lambda I, a, k: I.unk('slice()')
FUNCS['functools.partial'] = lambda I, a, k: Op('partial', (a[0], Tup(tuple(a[1:]))), 'partial') if not k else I.unk('partial')


def t_new(I, a, k):
    return I.build_class(a[0], I.force(a[1]), a[2], a[3])


def o_new(I, a, k):
    return I.new('inst', cls=a[0], d={})


FUNCS['type.__new__'] = t_new
FUNCS['type.__init__'] = lambda I, a, k: NONE
FUNCS['object.__new__'] = o_new


# ---------------- math / numpy scalar functions

def m1(f):
    def g(I, a, k):
        v = a[0]
        if not numeric_ok(v):
            v = I.force(v)
        if isinstance(v, Unk):
            return v
        if isinstance(v, Ref) and I.obj(v).kind in ('arr', 'list'):
            return arr_ew(I, lambda x: f(I, num(x)), v)
        if not numeric_ok(v):
            if is_str(v):
                I.raise_name('TypeError', 'a float is required')
            I.raise_name('TypeError', 'a float is required')
        return f(I, num(v))
    return g


FUNCS['math.floor'] = m1(lambda I, v: v if T.is_special_float(v) else as_float(floor_(v)))
FUNCS['math.ceil'] = m1(lambda I, v: v if T.is_special_float(v) else as_float(ceil_(v)))
FUNCS['np.floor'], FUNCS['np.ceil'] = FUNCS['math.floor'], FUNCS['math.ceil']


def mod_f(I, v):
    if T.is_special_float(v):
        return Tup((Const(0.0) if math.isinf(v.v) else v, v))
    w = as_float(trunc(I, v))
    if isinstance(w, Unk):
        return Tup((w, w))
    return Tup((as_float(sub(v, w)), w))


FUNCS['math.modf'] = FUNCS['np.modf'] = m1(mod_f)
FUNCS['math.trunc'] = m1(trunc)
FUNCS['np.trunc'] = m1(lambda I, v: as_float(trunc(I, v)))
FUNCS['np.rint'] = FUNCS['np.round'] = FUNCS['np.around'] = m1(lambda I, v: b_round(I, [v], {}))
FUNCS['math.fmod'] = lambda I, a, k: binop(I, ast.Mod(), as_float(num(a[0])), a[1]) if numeric_ok(a[0]) and numeric_ok(a[1]) else I.unk('fmod')


def log_dom(I, v, strict=True):
    c = compare('le', v, Const(0))
    if not isinstance(c, Unk):
        I.raise_if(c, 'ValueError', 'math domain error')


def f_log(base):
    def f(I, v):
        if T.is_special_float(v):
            return v
        log_dom(I, v)
        r = ln_(v)
        if base is None or isinstance(r, Unk):
            return r
        return truediv(r, Const(math.log(base)))
    return f


FUNCS['math.log10'] = m1(f_log(10))
FUNCS['math.log2'] = FUNCS['np.log2'] = m1(f_log(2))
FUNCS['np.log10'] = m1(f_log(10))
FUNCS['np.log'] = m1(f_log(None))


def f_mlog(I, a, k):
    r = m1(f_log(None))(I, a[:1], k)
    if len(a) > 1 and not isinstance(r, Unk):
        b = m1(f_log(None))(I, a[1:2], k)
        return divide(I, r, b)
    return r


FUNCS['math.log'] = f_mlog
FUNCS['math.log1p'] = m1(lambda I, v: f_log(None)(I, add(v, Const(1))))
FUNCS['math.exp'] = FUNCS['np.exp'] = m1(lambda I, v: exp_(v))
FUNCS['np.exp2'] = m1(lambda I, v: power(Const(2.0), v))
FUNCS['math.sqrt'] = FUNCS['np.sqrt'] = m1(lambda I, v: do_pow(I, v, Const(0.5)))
FUNCS['np.square'] = m1(lambda I, v: mul(v, v))
for _n in ('sin', 'cos', 'tan', 'atan', 'sinh', 'cosh', 'tanh', 'asinh'):
    FUNCS['math.' + _n] = FUNCS['np.' + _n] = m1((lambda n: lambda I, v: Const(getattr(math, n)(v.v)) if isinstance(v, Const) else T.atom(n, as_float(v)))(_n))
FUNCS['np.power'] = lambda I, a, k: binop(I, ast.Pow(), a[0], a[1])
FUNCS['math.isnan'] = FUNCS['np.isnan'] = m1(lambda I, v: (TRUE if math.isnan(v.v) else FALSE) if isinstance(v, Const) else nanc(I, v, math.isnan))
FUNCS['math.isinf'] = FUNCS['np.isinf'] = m1(lambda I, v: (TRUE if math.isinf(v.v) else FALSE) if isinstance(v, Const) else inf_f16(I, v))
FUNCS['np.isfinite'] = m1(lambda I, v: and_(neg_cond(FUNCS['np.isnan'](I, [v], {})), neg_cond(FUNCS['np.isinf'](I, [v], {}))))
FUNCS['math.copysign'] = lambda I, a, k: I.unk('copysign')


def has_special(v):
    for o in free_ops(v):
        for x in o.args:
            if isinstance(x, Const) and T.is_special_float(x):
                return o
    return None


def half_bits(v):
    """the 16 bits a half value is a reinterpretation of"""
    a = T.single_atom(v)
    return a.args[0] if a is not None and a.op == 'u2h' else None


def nanc(I, v, f):
    j = half_bits(v)
    if j is not None:
        return or_(and_(compare('lt', Const(31744), j), compare('lt', j, Const(32768))), compare('lt', Const(64512), j))
    if has_special(v) is None and not any(o.op == 'u2h' for o in free_ops(v)):
        return FALSE
    g = T.is_ite(v)
    if g is not None:
        return ite(g.args[0], FUNCS['np.isnan'](I, [g.args[1]], {}), FUNCS['np.isnan'](I, [g.args[2]], {}))
    return FALSE


def inf_f16(I, v):
    """finite inputs are assumed, but rounding to half may overflow"""
    j = half_bits(v)
    if j is not None:
        return or_(compare('eq', j, Const(31744)), compare('eq', j, Const(64512)))
    a = T.single_atom(v)
    if a is not None and a.op == 'f16':
        x = a.args[0]
        return or_(compare('le', Const(65520.0), x), compare('le', x, Const(-65520.0)))
    g = T.is_ite(v)
    if g is not None:
        return ite(g.args[0], FUNCS['np.isinf'](I, [g.args[1]], {}), FUNCS['np.isinf'](I, [g.args[2]], {}))
    return FALSE


def np_minmax(which):
    f = b_minmax(which)

    def g(I, a, k):
        if any(isinstance(x, Ref) for x in a[:2]):
            return arr_ew(I, lambda x, y: f(I, [x, y], {}), a[0], a[1])
        return f(I, a[:2], {})
    return g


FUNCS['np.minimum'] = FUNCS['np.fmin'] = np_minmax('min')
FUNCS['np.maximum'] = FUNCS['np.fmax'] = np_minmax('max')


def np_clip(I, a, k):
    lo = a[1] if len(a) > 1 else k.get('a_min', NONE)
    hi = a[2] if len(a) > 2 else k.get('a_max', NONE)

    def f(x):
        if lo is not NONE:
            x = FUNCS['builtins.max'](I, [x, lo], {})
        if hi is not NONE:
            x = FUNCS['builtins.min'](I, [x, hi], {})
        return x
    if isinstance(a[0], Ref):
        return arr_ew(I, f, a[0])
    return f(a[0])


FUNCS['np.clip'] = np_clip
FUNCS['np.add'] = lambda I, a, k: binop(I, ast.Add(), a[0], a[1])
FUNCS['np.subtract'] = lambda I, a, k: binop(I, ast.Sub(), a[0], a[1])
FUNCS['np.multiply'] = lambda I, a, k: binop(I, ast.Mult(), a[0], a[1])
FUNCS['np.divide'] = FUNCS['np.true_divide'] = lambda I, a, k: binop(I, ast.Div(), a[0], a[1])
for _n in ('min', 'max', 'amin', 'amax'):
    FUNCS['np.' + _n] = (lambda w: lambda I, a, k: arr_method(I, a[0], I.obj(a[0]), w, [], {}) if isinstance(a[0], Ref) and I.obj(a[0]).kind == 'arr' else FUNCS['builtins.' + w](I, a, {}))(_n[-3:])


def np_where(I, a, k):
    if len(a) != 3:
        return I.unk('np.where')

    def f(c, x, y):
        return ite(as_cond(I, truth(I, c)), x, y)
    if any(isinstance(x, Ref) for x in a):
        return arr_ew(I, f, *a, dt='f8')
    return f(*a)


FUNCS['np.where'] = np_where


def shape_of(I, v):
    v = I.force(v) if not is_num(v) else v
    if numeric_ok(v):
        return (int_arg(I, v),)
    its = I.iterate(v)
    return tuple(int_arg(I, x) for x in its)


def np_fill(val):
    def f(I, a, k):
        sh = shape_of(I, a[0] if a else k['shape'])
        dt = dtype_of(I, a[1] if len(a) > 1 else k.get('dtype'))
        v = conv_dtype(I, val, dt)
        n = Const(1)
        for s in sh:
            n = mul(n, s)
        if isinstance(n, Unk):
            return n
        if isinstance(n, Const):
            if n.v < 0:
                I.raise_name('ValueError', 'negative dimensions are not allowed')
            if n.v <= 2048:
                return new_arr(I, [v] * n.v, dt, sh)
        return new_arr(I, FBuf(n, ('fill', v)), dt, sh)
    return f


FUNCS['np.zeros'] = np_fill(Const(0))
FUNCS['np.ones'] = np_fill(Const(1))
FUNCS['np.empty'] = np_fill(Const(0))


def np_full(I, a, k):
    r = FUNCS['np.zeros'](I, [a[0]] + ([k['dtype']] if 'dtype' in k else a[2:3]), {})
    if isinstance(r, Ref):
        arr_assign(I, r, a[1])
    return r


FUNCS['np.full'] = np_full
FUNCS['np.zeros_like'] = lambda I, a, k: (lambda l: FUNCS['np.zeros'](I, [Tup(tuple(l[2])), Op('ext', ('dtype.' + l[3],), 'ext')], {}))(arr_like(I, a[0]))
FUNCS['np.empty_like'] = FUNCS['np.zeros_like']


def np_array(I, a, k):
    v = I.force(a[0]) if not is_num(a[0]) else a[0]
    if isinstance(v, Unk):
        return v
    d = a[1] if len(a) > 1 else k.get('dtype')
    dt = dtype_of(I, d) if d is not None and d is not NONE else None
    if isinstance(v, Ref) and I.obj(v).kind == 'arr':
        if k.get('copy') is FALSE and (dt is None or dt == I.obj(v).meta[4]):
            return v
        return np_copy(I, v, dt, I.obj(v).meta[2])
    return np_copy(I, v, dt)


FUNCS['np.array'] = np_array


def np_asarray(I, a, k):
    v = I.force(a[0]) if not is_num(a[0]) else a[0]
    d = a[1] if len(a) > 1 else k.get('dtype')
    dt = dtype_of(I, d) if d is not None and d is not NONE else None
    if isinstance(v, Ref) and I.obj(v).kind == 'arr' and (dt is None or dt == I.obj(v).meta[4]):
        return v
    return np_array(I, a, k)


FUNCS['np.asarray'] = FUNCS['np.ascontiguousarray'] = FUNCS['np.asanyarray'] = np_asarray
FUNCS['np.copy'] = lambda I, a, k: np_array(I, a[:1], {})


def np_arange(I, a, k):
    if all(T.ty_of(num(x)) == 'int' for x in a if numeric_ok(x)):
        return np_array(I, [b_range(I, a, {})], {'dtype': k['dtype']} if 'dtype' in k else {})
    return I.unk('np.arange of floats')


FUNCS['np.arange'] = np_arange


def np_linspace(I, a, k):
    n = a[2] if len(a) > 2 else k.get('num', Const(50))
    st, en = num(a[0]), num(a[1])
    return arr_build(I, n, lambda t: as_float(add(st, divide(I, mul(sub(en, st), t), as_float(sub(n, Const(1)))))), 'f8')


FUNCS['np.linspace'] = np_linspace


def np_dot(I, a, k):
    x, y = I.force(a[0]), I.force(a[1])
    lx, ly = arr_like(I, x), arr_like(I, y)
    if lx is None or ly is None or not isinstance(lx[0], Const) or not isinstance(ly[0], Const):
        return I.unk('np.dot')
    sx, sy = lx[2], ly[2]
    if len(sx) == 1 and len(sy) == 1:
        r = Const(0.0)
        for i in range(lx[0].v):
            r = add(r, mul(num(lx[1](Const(i))), num(ly[1](Const(i)))))
        return r
    if len(sx) == 2 and len(sy) == 1:
        rows, cols = sx[0].v, sx[1].v
        out = []
        for r_ in range(rows):
            s = Const(0.0)
            for c in range(cols):
                s = add(s, mul(num(lx[1](Const(r_ * cols + c))), num(ly[1](Const(c)))))
            out.append(s)
        return new_arr(I, out, 'f8')
    return I.unk('np.dot')


FUNCS['np.dot'] = FUNCS['np.matmul'] = np_dot


def np_concat(I, a, k):
    parts = I.iterate(I.force(a[0]))
    if parts is None:
        return I.unk('concatenate')
    l = None
    for p in parts:
        its = arr_items(I, p) if kind_of(I, p) == 'arr' else I.iterate(p)
        if its is None:
            return I.unk('concatenate')
        l = (l or []) + its
    return new_arr(I, l, arr_like(I, parts[0])[3])


FUNCS['np.concatenate'] = FUNCS['np.hstack'] = np_concat


def np_getbuffer(I, a, k):
    v = a[0]
    if isinstance(v, Unk):
        return v
    if isinstance(v, Ref) and I.obj(v).kind == 'arr':
        h = I.obj(v)
        its = arr_items(I, v)
        if its is not None:
            return Op('rawbytes', (Const(h.meta[4]), Tup(tuple(its))), 'rawbytes')
        return I.unk('getbuffer')
    dt = I.np_tags.get(v)
    if dt is None:
        return I.unk('getbuffer of untyped scalar')
    return Op('rawbytes', (Const(dt), Tup((v,))), 'rawbytes')


def number_method(I, v, name, args, kw, node=None):
    """methods of numpy scalars"""
    dt = I.np_tags.get(v)
    if name in ('item', 'copy', 'tolist'):
        return v
    if name == 'is_integer':
        return compare('eq', num(v), as_float(floor_(num(v))))
    if name == 'astype':
        d = dtype_of(I, args[0] if args else kw.get('dtype'))
        return tag_np(I, np_scalar(I, d, v), d)
    if dt is not None and name in ('tobytes', 'tostring'):
        return np_getbuffer(I, [v], {})
    if dt is not None and name == 'view' and (args or kw):
        d = dtype_of(I, args[0] if args else kw.get('dtype'))
        if BITS.get(d) == BITS.get(dt):
            return tag_np(I, bitcast(I, dt, d, v), d)
    return I.unk('number.%s' % name, node)


FUNCS['np.getbuffer'] = FUNCS['builtins.buffer'] = FUNCS['builtins.memoryview'] = np_getbuffer


def is_packed(x):
    a = T.single_atom(x)
    return isinstance(x, Const) or a is not None and a.op == 'pack16'


def packed(x):
    if isinstance(x, Const):
        return Const(x.v & 65535), Const(x.v >> 16)
    return T.single_atom(x).args


def pack16(a, b):
    x, y = T.single_atom(a), T.single_atom(b)
    if isinstance(a, Const) and isinstance(b, Const):
        return Const(a.v | b.v << 16)
    if x is not None and y is not None and x.op == 'lo16' and y.op == 'hi16' and x.args[0] is y.args[0]:
        return x.args[0]
    return T.atom('pack16', a, b, ty='int', lo=0, hi=2 ** 32 - 1)


T.REBUILD['pack16'] = pack16
T.REBUILD['lo16'] = lambda x: packed(x)[0] if is_packed(x) else T.atom('lo16', x, ty='int', lo=0, hi=65535)
T.REBUILD['hi16'] = lambda x: packed(x)[1] if is_packed(x) else T.atom('hi16', x, ty='int', lo=0, hi=65535)


def np_frombuffer(I, a, k):
    v = I.force(a[0])
    dt = dtype_of(I, a[1] if len(a) > 1 else k.get('dtype'))
    if isinstance(v, Op) and v.op == 'rawbytes':
        sd = v.args[0].v
        if BITS.get(sd) == BITS.get(dt):
            return new_arr(I, [bitcast(I, sd, dt, x) for x in v.args[1].items], dt)
        total = BITS[sd] * len(v.args[1].items)
        if total % BITS[dt]:
            I.raise_name('ValueError', 'buffer size must be a multiple of element size')
        if BITS[sd] == 32 and BITS[dt] == 16:
            out = []
            for x in v.args[1].items:
                x = bitcast(I, sd, 'u4', x)
                for w in (T.atom('lo16', x, ty='int', lo=0, hi=65535), T.atom('hi16', x, ty='int', lo=0, hi=65535)) if not is_packed(x) else packed(x):
                    out.append(bitcast(I, 'u2', dt, w))
            return new_arr(I, out, dt)
        if BITS[sd] == 16 and BITS[dt] == 32:
            xs = [bitcast(I, sd, 'u2', x) for x in v.args[1].items]
            return new_arr(I, [bitcast(I, 'u4', dt, pack16(a, b)) for a, b in zip(xs[::2], xs[1::2])], dt)
        return I.unk('frombuffer size change')
    if isinstance(v, Op) and v.op == 'bytes':
        sd, e = v.args[0].v[:2], v.args[0].v[2:]
        if BITS[sd] == BITS[dt] and e == 'le':
            return new_arr(I, [bitcast(I, sd, dt, v.args[1])], dt)
    return I.unk('frombuffer')


FUNCS['np.frombuffer'] = FUNCS['np.fromstring'] = np_frombuffer
FUNCS['struct.pack'] = lambda I, a, k: struct_pack(I, a)
FUNCS['struct.unpack'] = lambda I, a, k: struct_unpack(I, a)
FUNCS['np.seterr'] = lambda I, a, k: NONE
FUNCS['np.dtype'] = lambda I, a, k: Op('ext', ('dtype.' + dtype_of(I, a[0]),), 'ext')
FUNCS['np.allclose'] = lambda I, a, k: I.unk('allclose')
FUNCS['np.array_equal'] = lambda I, a, k: (lambda r: truth(I, call_ext(I, 'np.all', [r], {}, None)) if isinstance(r, Ref) else r)(arr_compare(I, a[0], a[1]))
FUNCS['np.reshape'] = lambda I, a, k: arr_method(I, np_asarray(I, a[:1], {}), I.obj(np_asarray(I, a[:1], {})), 'reshape', a[1:], {})

# ---------------- XML, os, misc
FUNCS['etree.SubElement'] = x_SubElement
FUNCS['etree.Element'] = x_Element
FUNCS['etree.ElementTree'] = x_ElementTree
FUNCS['etree.parse'] = x_parse
FUNCS['etree.tostring'] = lambda I, a, k: x_tostring(I, I.force(a[0]))
FUNCS['etree.fromstring'] = FUNCS['etree.XML'] = lambda I, a, k: (lambda s: s.args[0] if isinstance(s, Op) and s.op == 'xmltext' else I.unk('fromstring'))(I.force(a[0]))
FUNCS['xml.dom.minidom.parseString'] = lambda I, a, k: (lambda s: I.new('dom', d={'root': s.args[0]}) if isinstance(s, Op) and s.op == 'xmltext' else I.unk('parseString'))(I.force(a[0]))
FUNCS['optparse.OptionParser'] = lambda I, a, k: I.new('optparser', d={}, items=[])


def path1(name, f):
    def g(I, a, k):
        v = I.force(a[0])
        if isinstance(v, Const) and isinstance(v.v, str):
            r = f(v.v)
            return Tup(tuple(Const(x) for x in r)) if isinstance(r, tuple) else Const(r)
        if isinstance(v, Unk):
            return v
        if v is NONE:
            I.raise_name('AttributeError', "'NoneType' object has no attribute 'rfind'")
        if name == 'splitext':
            ps = flat_parts(v)
            if isinstance(ps[-1], Const) and '.' in ps[-1].v and '/' not in ps[-1].v:
                i = ps[-1].v.rfind('.')
                return Tup((cat(I, ps[:-1] + [Const(ps[-1].v[:i])]), Const(ps[-1].v[i:])))
            return Tup((Op('splitext0', (v,), 'str'), Op('splitext1', (v,), 'str')))
        if name == 'split':
            return Tup((Op('dirname', (v,), 'str'), Op('basename', (v,), 'str')))
        return Op(name, (v,), 'str')
    return g


for _n in ('dirname', 'basename', 'splitext', 'split', 'normpath', 'expanduser', 'abspath', 'realpath', 'expandvars'):
    FUNCS['os.path.' + _n] = path1(_n, getattr(os.path, _n) if _n in ('dirname', 'basename', 'splitext', 'split', 'normpath') else (lambda s: s))


def path_join(I, a, k):
    a = [I.force(x) for x in a]
    for x in a:
        if isinstance(x, Unk):
            return x
        if x is NONE:
            I.raise_name('AttributeError', "'NoneType' object has no attribute 'endswith'")
    if all(isinstance(x, Const) for x in a):
        return Const(os.path.join(*[x.v for x in a]))
    return Op('pathjoin', tuple(a), 'str')


FUNCS['os.path.join'] = path_join
FUNCS['os.path.exists'] = lambda I, a, k: (lambda p: (FALSE if vfs_get(I, p) is ABSENT else TRUE) if vfs_get(I, p) is not None else (Op('exists', (p,), 'bool') if not isinstance(p, Unk) else p))(I.force(a[0]))
FUNCS['os.path.isfile'] = FUNCS['os.path.exists']
FUNCS['os.path.isabs'] = lambda I, a, k: (lambda p: (TRUE if p.v.startswith('/') else FALSE) if isinstance(p, Const) else Op('isabs', (p,), 'bool'))(I.force(a[0]))
FUNCS['os.getpid'] = lambda I, a, k: T.sym('pid', 'int', lo=1)
FUNCS['timeit.default_timer'] = FUNCS['time.time'] = FUNCS['time.clock'] = lambda I, a, k: T.sym('time', 'float')
FUNCS['traceback.print_exc'] = lambda I, a, k: NONE
FUNCS['warnings.warn'] = lambda I, a, k: NONE
FUNCS['sys.exit'] = lambda I, a, k: I.raise_name('SystemExit', 'exit')
FUNCS['os.getcwd'] = lambda I, a, k: T.sym('cwd', 'str')
FUNCS['sys.stdout.write'] = FUNCS['sys.stderr.write'] = lambda I, a, k: I.event('print', a[0]) or NONE
FUNCS['sys.stdout.flush'] = lambda I, a, k: NONE


def chain_it(I, a, k):
    out = []
    for x in a:
        its = I.iterate(I.force(x))
        if its is None:
            return I.unk('chain')
        out += its
    return I.newlist(out)


FUNCS['itertools.chain'] = chain_it
FUNCS['itertools.chain.from_iterable'] = lambda I, a, k: (lambda its: chain_it(I, its, {}) if its is not None else I.unk('chain'))(I.iterate(I.force(a[0])))


def it_product(I, a, k):
    import itertools
    ls = [I.iterate(I.force(x)) for x in a]
    if any(l is None for l in ls):
        return I.unk('product')
    rep = k.get('repeat', Const(1)).v
    return I.newlist([Tup(t) for t in itertools.product(*(ls * rep))])


FUNCS['itertools.product'] = it_product


def deep_copy(I, v, memo):
    if isinstance(v, Tup):
        return Tup(tuple(deep_copy(I, x, memo) for x in v.items))
    if isinstance(v, Op) and v.op == 'ite' and v.ty not in NUMTY:
        v = I.force(v)
    if not isinstance(v, Ref):
        return v
    if v in memo:
        return memo[v]
    h = I.obj(v)
    if h.kind in ('func', 'class', 'module'):
        return v
    if h.kind == 'arr':
        r = np_copy(I, v, h.meta[4], h.meta[2])
        memo[v] = r
        return r
    r = I.st.alloc(h.copy())
    memo[v] = r
    w = I.wr(r)
    if w.d is not None:
        for k in list(w.d):
            w.d[k] = deep_copy(I, w.d[k], memo)
    if isinstance(w.items, list):
        w.items = [deep_copy(I, x, memo) for x in w.items]
    return r


FUNCS['copy.deepcopy'] = lambda I, a, k: deep_copy(I, I.force(a[0]) if not is_num(a[0]) else a[0], {})


def shallow_copy(I, a, k):
    v = I.force(a[0]) if not is_num(a[0]) else a[0]
    if isinstance(v, Ref):
        h = I.obj(v)
        if h.kind == 'arr':
            return np_copy(I, v, h.meta[4], h.meta[2])
        return I.st.alloc(h.copy())
    return v


FUNCS['copy.copy'] = shallow_copy
FUNCS['re.compile'] = lambda I, a, k: I.unk('re')
FUNCS['operator.mul'] = lambda I, a, k: binop(I, ast.Mult(), a[0], a[1])
FUNCS['operator.add'] = lambda I, a, k: binop(I, ast.Add(), a[0], a[1])
FUNCS['string.join'] = lambda I, a, k: str_method(I, a[1] if len(a) > 1 else Const(' '), 'join', [a[0]], {})
FUNCS['array.array'] = lambda I, a, k: np_array(I, [a[1] if len(a) > 1 else I.newlist([])], {'dtype': Op('ext', ('dtype.' + {'f': 'f4', 'd': 'f8', 'H': 'u2', 'h': 'i2', 'B': 'u1', 'I': 'u4', 'i': 'i4'}.get(I.force(a[0]).v, 'f8'),), 'ext')})
FUNCS['collections.OrderedDict'] = b_dict
