"""Abstract interpreter for the Python-2 sources.

Interprets every function over *merged* abstract states: an `if` whose
condition is not decided interprets both arms and joins them with a gate
(gated SSA); paths are never enumerated.  Numbers are value-graph terms
(terms.py), the heap is an explicit set of abstract objects (state.py).
"""
import ast, os, builtins as _pb
from .terms import *
from . import terms as T
from .logic import Facts
from .state import *
from . import loader

MAX_UNROLL = 140
MAX_DEPTH = 90


class FuncInfo(object):
    __slots__ = ('node', 'module', 'closure', 'qual', 'path', 'defaults', 'locals', 'globals', 'nested', 'cls', 'args', 'vararg', 'kwarg', 'isgen')


class ClassInfo(object):
    __slots__ = ('name', 'bases', 'path', 'node', 'builtin')


class Event(object):
    __slots__ = ('kind', 'path', 'line', 'func', 'what', 'facts')

    def __init__(self, kind, path, line, func, what, facts):
        self.kind, self.path, self.line, self.func, self.what, self.facts = kind, path, line, func, what, facts

    def where(self):
        return '%s:%s (%s)' % (loader.rel(self.path) if self.path else '?', self.line, self.func)

    def __repr__(self):
        return '<%s %s %s>' % (self.kind, self.where(), self.what)


_scope_cache = {}


_eager_cache = {}
FAILED = object()
MAX_WHILE = 24        # undecided iterations of a while loop that has no summary


def eager(node):
    """a generator function as a function that returns the list of what it yields"""
    r = _eager_cache.get(node)
    if r is not None:
        return r
    import copy

    class Rw(ast.NodeTransformer):
        depth = 0

        def visit_FunctionDef(self, n):
            if self.depth:
                return n
            self.depth = 1
            n.body = [self.visit(x) for x in n.body]
            return n

        def visit_Lambda(self, n):
            return n

        def visit_ClassDef(self, n):
            return n

        def visit_Yield(self, n):
            v = n.value if n.value is not None else ast.Constant(None)
            return ast.Call(ast.Attribute(ast.Name('__yields__', ast.Load()), 'append', ast.Load()), [v], [])

        def visit_Return(self, n):
            return ast.Return(ast.Name('__yields__', ast.Load()))
    r = Rw().visit(copy.deepcopy(node))
    r.body.insert(0, ast.Assign([ast.Name('__yields__', ast.Store())], ast.List([], ast.Load())))
    r.body.append(ast.Return(ast.Name('__yields__', ast.Load())))
    r.decorator_list = node.decorator_list
    for n in ast.walk(r):
        if isinstance(n, (ast.expr, ast.stmt)) and not hasattr(n, 'lineno'):
            n.lineno = node.lineno
            n.end_lineno = n.col_offset = n.end_col_offset = 0
    _eager_cache[node] = r
    return r


def scope_info(node):
    """names assigned in a function body (excluding nested scopes), globals, has nested functions"""
    r = _scope_cache.get(node)
    if r:
        return r
    loc, glo = set(), set()
    nested = [False]
    isgen = [False]

    def tgt(t):
        if isinstance(t, ast.Name):
            loc.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                tgt(x)
        elif isinstance(t, ast.Starred):
            tgt(t.value)

    def visit(n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            loc.add(n.name)
            nested[0] = True
            for d in n.decorator_list:
                visit(d)
            return
        if isinstance(n, ast.Lambda):
            nested[0] = True
            return
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            isgen[0] = True
        if isinstance(n, ast.Global):
            glo.update(n.names)
        elif isinstance(n, ast.Assign):
            for t in n.targets:
                tgt(t)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.For)):
            tgt(n.target)
        elif isinstance(n, ast.NamedExpr):
            tgt(n.target)
        elif isinstance(n, ast.With):
            for i in n.items:
                if i.optional_vars is not None:
                    tgt(i.optional_vars)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                loc.add((a.asname or a.name).split('.')[0])
        elif isinstance(n, ast.ExceptHandler):
            if n.name:
                loc.add(n.name)
        elif isinstance(n, ast.Delete):
            for t in n.targets:
                tgt(t)
        elif isinstance(n, ast.ListComp):      # py2: leaks the variable
            for g in n.generators:
                tgt(g.target)
        elif isinstance(n, (ast.GeneratorExp, ast.SetComp, ast.DictComp)):
            nested[0] = True
            visit(n.generators[0].iter)
            return
        for c in ast.iter_child_nodes(n):
            visit(c)
    body = node.body if isinstance(node.body, list) else [node.body]
    for s in body:
        visit(s)
    a = node.args
    for x in list(a.posonlyargs) + list(a.args) + list(a.kwonlyargs):
        loc.add(x.arg)
    if a.vararg:
        loc.add(a.vararg.arg)
    if a.kwarg:
        loc.add(a.kwarg.arg)
    loc -= glo
    r = _scope_cache[node] = (frozenset(loc), frozenset(glo), nested[0], isgen[0])
    return r


class LoopCtx(object):
    __slots__ = ('brks', 'conts')

    def __init__(self):
        self.brks = []
        self.conts = []


class Interp(object):
    def __init__(self, facts=()):
        self.st = State({}, Facts(facts), None)
        self.raises = []          # innermost raise collector
        self.rets = None
        self.loops = []
        self.events = []
        self.depth = 0
        self.callstack = []       # (path, func, line)
        self.modules = {}
        self.files = []       # every file object made
        self.faults = False   # file operations may fail
        self.stubs = {}       # module name -> path of a stand-in
        self.funcs_seen = {}      # (path, qual) -> line
        self.stmts_seen = set()   # id of syntax tree
        self.unmodelled = []
        self.quant = []           # generic loop variables in scope
        self.loop_reads = []
        self.quiet = 0
        self.steps = 0
        self.max_steps = 4000000
        self.ext_overrides = {}
        self.opaque_ctr = {}
        from . import models
        self.models = models
        self.builtin_classes = {}
        models.setup(self)

    # ------------------------------------------------------------ utilities
    def where(self, node=None):
        if self.callstack:
            p, f, l = self.callstack[-1]
            return p, (node.lineno if node is not None and hasattr(node, 'lineno') else self.curline), f
        return None, None, None

    curline = 0

    def event(self, kind, what, node=None):
        if self.quiet:
            return
        p, l, f = self.where(node)
        self.events.append(Event(kind, p, l, f, what, self.st.facts if self.st else None))

    def unk(self, why, node=None):
        p, l, f = self.where(node)
        if not self.quiet:
            self.unmodelled.append((loader.rel(p) if p else '?', l, f, why))
        return Unk('%s @%s:%s' % (why, os.path.basename(p) if p else '?', l))

    def new(self, kind, cls=None, d=None, items=None, meta=None):
        return self.st.alloc(HObj(kind, cls, d, items, meta))

    def newlist(self, items):
        return self.new('list', items=list(items))

    def newdict(self, d=None):
        return self.new('dict', d=dict(d or {}))

    def obj(self, v):
        return self.st.get(v.oid)

    def wr(self, v):
        return self.st.wr(v.oid)

    def decide(self, c):
        if isinstance(c, Unk):
            c = Op('unkcond', (c,), 'bool')
        return self.st.facts.decide(c)

    def force(self, v):
        """resolve a gated value to an ungated one (splitting if undecided)"""
        n = 0
        while True:
            g = v if isinstance(v, Op) and v.op == 'ite' else None
            if g is None:
                return v
            r = self.decide(g.args[0])
            if r is None:
                self.split_on(g.args[0])
            v = g.args[1] if r else g.args[2]

    def split_on(self, c):
        if isinstance(c, Op) and c.op in ('and', 'or'):
            for x in c.args:
                if self.decide(x) is None:
                    self.split_on(x)
        raise NeedSplit(c)

    # ------------------------------------------------------------ exceptions
    def make_exc(self, name, msg=''):
        cls = self.builtin_classes[name]
        return self.new('inst', cls=cls, d={'args': Tup((Const(msg),)), 'message': Const(msg)})

    def raise_exc(self, exc):
        self.raises.append((self.st, exc, self.where()))
        self.st = None
        raise Dead()

    def raise_name(self, name, msg=''):
        self.event('raise', '%s: %s' % (name, msg))
        self.raise_exc(self.make_exc(name, msg))

    def raise_if(self, c, name, msg=''):
        """exception when c"""
        if c is FALSE:
            return
        r = self.decide(c)
        if r is True:
            self.raise_name(name, msg)
        if r is False:
            return
        s = self.st.fork()
        s.assume(c if not isinstance(c, Unk) else Op('unkcond', (c,), 'bool'))
        keep = self.st
        self.st = s
        self.event('raise-if', '%s: %s when %r' % (name, msg, c))
        exc = self.make_exc(name, msg)
        self.raises.append((self.st, exc, self.where()))
        self.st = keep
        if not isinstance(c, Unk):
            self.st.assume(neg_cond(c))

    # ------------------------------------------------------------ join helpers
    def join(self, outs):
        """outs: list of (State, value). returns value, sets self.st"""
        outs = [o for o in outs if o[0] is not None]
        if not outs:
            self.st = None
            raise Dead()
        st, v = outs[-1]
        for s, x in reversed(outs[:-1]):
            c, st = merge_states(s, st)
            if v is None or x is None:
                v = None
            else:
                v = mval(c, x, v)
        self.st = st
        return v

    def branch(self, c, f1, f2):
        """evaluate f1 under c and f2 otherwise; join"""
        if isinstance(c, Unk):
            c = Op('unkcond', (c,), 'bool')
        r = self.decide(c)
        if r is True:
            return f1()
        if r is False:
            return f2()
        base = self.st
        s1 = base.fork()
        s2 = base
        s2.own = set()
        s1.assume(c)
        s2.assume(neg_cond(c))
        outs = []
        self.st = s1
        try:
            v = f1()
            outs.append((self.st, v))
        except Dead:
            pass
        self.st = s2
        try:
            v = f2()
            outs.append((self.st, v))
        except Dead:
            pass
        return self.join(outs)

    def split_eval(self, thunk, depth=0):
        """run thunk, re-interpreting under both outcomes of a needed condition"""
        if depth > 40:
            return self.unk('too many splits')
        save = self.st
        self.st = save.fork()
        marks = (len(self.raises), len(self.rets) if self.rets is not None else 0,
                 [(len(l.brks), len(l.conts)) for l in self.loops], len(self.events), len(self.unmodelled), len(self.loop_reads),
                 len(self.callstack), self.depth, self.curline)
        rs, rt = self.raises, self.rets
        try:
            return thunk()
        except NeedSplit as e:
            c = e.c
            self.raises, self.rets = rs, rt
            del rs[marks[0]:]
            if rt is not None:
                del rt[marks[1]:]
            for l, (a, b) in zip(self.loops, marks[2]):
                del l.brks[a:]
                del l.conts[b:]
            del self.events[marks[3]:]
            del self.unmodelled[marks[4]:]
            del self.loop_reads[marks[5]:]
            del self.callstack[marks[6]:]
            self.depth = marks[7]
            self.curline = marks[8]
        if isinstance(c, Unk):
            c = Op('unkcond', (c,), 'bool')
        nl = len(self.loops)
        outs = []
        for lit in (c, neg_cond(c)):
            self.st = save.fork()
            if self.st.facts.decide(lit) is False:
                continue
            self.st.assume(lit)
            try:
                v = self.split_eval(thunk, depth + 1)
                outs.append((self.st, v))
            except Dead:
                pass
        return self.join(outs)

    # ------------------------------------------------------------ modules
    def load_module(self, path, name):
        path = os.path.abspath(path)
        if path in self.modules:
            return self.modules[path]
        src, tree = loader.parse_file(path)
        m = self.new('module', d={'__name__': Const(name), '__file__': Const(path)}, meta=(name, path))
        self.modules[path] = m
        self.exec_module(m, tree, path)
        return m

    def exec_module(self, m, tree, path):
        fr = self.new('frame', d={}, meta=('module', m.oid, None, frozenset(), frozenset()))
        save = (self.st.frame, self.rets, self.loops, self.curline)
        self.st.frame = fr.oid
        self.rets, self.loops = [], []
        self.callstack.append((path, '<module>', 0))
        try:
            self.exec_block(tree.body)
        finally:
            self.callstack.pop()
            self.rets, self.loops, self.curline = save[1:]
        if self.st is None:
            raise Dead()
        self.st.frame = save[0]

    def stubbed(self, path):
        return bool(self.stubs) and path is not None and os.path.abspath(path) in [os.path.abspath(p) for p in self.stubs.values()]

    def find_module(self, name, frompath):
        """implicit relative import, then sys.path (python/aces, python)"""
        dirs = []
        if frompath:
            dirs.append(os.path.dirname(frompath))
        dirs += [loader.ACES, loader.PYROOT]
        parts = name.split('.')
        for d in dirs:
            p = os.path.join(d, *parts)
            if os.path.isfile(p + '.py'):
                return p + '.py'
            if os.path.isfile(os.path.join(p, '__init__.py')):
                return os.path.join(p, '__init__.py')
        return None

    def import_name(self, name, frompath):
        """module object for a dotted name"""
        if name in self.stubs:
            return self.load_module(self.stubs[name], name)
        p = self.find_module(name, frompath)
        if p:
            return self.load_module(p, name)
        if self.models.known_ext(name):
            return Op('ext', (self.models.ext_alias(name),), 'ext')
        return None

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts):
        for s in stmts:
            if self.st is None:
                return
            self.exec_stmt(s)

    def exec_stmt(self, s):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Unsupported('step budget exhausted')
        self.curline = s.lineno
        self.stmts_seen.add(id(s))
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement %s' % type(s).__name__)
        try:
            self.split_eval(lambda: m(s))
        except Dead:
            self.st = None

    def s_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value)

    def s_Pass(self, s):
        pass

    def s_Global(self, s):
        pass

    def s_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value))

    def s_AugAssign(self, s):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, t)
            rhs = self.ev(s.value)
            v = self.inplace(s.op, cur, rhs)
            self.assign(t, v)
        elif isinstance(t, ast.Attribute):
            o = self.force(self.ev(t.value))
            cur = self.getattr(o, t.attr)
            rhs = self.ev(s.value)
            self.setattr(o, t.attr, self.inplace(s.op, cur, rhs))
        elif isinstance(t, ast.Subscript):
            o = self.force(self.ev(t.value))
            k = self.ev_index(t.slice)
            cur = self.getitem(o, k)
            rhs = self.ev(s.value)
            self.setitem(o, k, self.inplace(s.op, cur, rhs))
        else:
            raise Unsupported('augmented assignment target')

    def inplace(self, op, cur, rhs):
        cur = self.force(cur) if not is_num(cur) else cur
        if isinstance(cur, Ref):
            o = self.obj(cur)
            if o.kind == 'list' and isinstance(op, ast.Add):
                self.models.list_extend(self, cur, rhs)
                return cur
            if o.kind == 'list' and isinstance(op, ast.Mult):
                return self.binop(op, cur, rhs)
            if o.kind == 'arr':
                return self.models.arr_inplace(self, op, cur, rhs)
        return self.binop(op, cur, rhs)

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            v = self.force(v)
            items = self.iterate(v)
            if items is None:
                for x in t.elts:
                    self.assign(x, self.unk('unpacking of unknown sequence'))
                return
            if any(isinstance(x, ast.Starred) for x in t.elts):
                k = [isinstance(x, ast.Starred) for x in t.elts].index(True)
                n = len(t.elts) - 1
                mid = items[k:len(items) - (n - k)]
                parts = items[:k] + [self.newlist(mid)] + items[len(items) - (n - k):]
                for x, y in zip(t.elts, parts):
                    self.assign(x.value if isinstance(x, ast.Starred) else x, y)
                return
            if len(items) != len(t.elts):
                self.raise_name('ValueError', 'unpack %d values into %d names' % (len(items), len(t.elts)))
            for x, y in zip(t.elts, items):
                self.assign(x, y)
        elif isinstance(t, ast.Attribute):
            o = self.force(self.ev(t.value))
            self.setattr(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.force(self.ev(t.value))
            k = self.ev_index(t.slice)
            self.setitem(o, k, v)
        else:
            raise Unsupported('assignment target %s' % type(t).__name__)

    def store_name(self, name, v):
        fr = self.st.get(self.st.frame)
        kind, mod, parent, loc, glo = fr.meta
        if kind == 'module' or name in glo:
            self.st.wr(mod).d[name] = v
        else:
            self.st.wr(self.st.frame).d[name] = v

    def lookup(self, name, node=None):
        fo = self.st.frame
        first = True
        while fo is not None:
            fr = self.st.get(fo)
            kind, mod, parent, loc, glo = fr.meta
            if kind == 'module' or name in glo:
                break
            if name in loc or (kind == 'class' and name in fr.d):
                if kind == 'class' and not first:
                    fo = parent
                    continue
                v = fr.d.get(name)
                if v is None or v is ABSENT:
                    if kind == 'class':
                        break
                    self.raise_name('UnboundLocalError' if first else 'NameError', name)
                if isinstance(v, Op) and v.op == 'ite':
                    pc = present_cond(v)
                    if pc is not TRUE:
                        self.raise_if(neg_cond(pc), 'UnboundLocalError', name)
                        v = strip_absent(v)
                return v
            first = False
            fo = parent
        md = self.st.get(mod).d
        v = md.get(name)
        if v is not None and v is not ABSENT:
            if isinstance(v, Op) and v.op == 'ite' and present_cond(v) is not TRUE:
                self.raise_if(neg_cond(present_cond(v)), 'NameError', name)
                v = strip_absent(v)
            return v
        b = self.models.builtin(self, name)
        if b is not None:
            return b
        self.raise_name('NameError', name)

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                fr = self.st.get(self.st.frame)
                if fr.meta[0] == 'module':
                    self.st.wr(fr.meta[1]).d.pop(t.id, None)
                else:
                    self.st.wr(self.st.frame).d.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.force(self.ev(t.value))
                k = self.ev_index(t.slice)
                self.models.delitem(self, o, k)
            elif isinstance(t, ast.Attribute):
                o = self.force(self.ev(t.value))
                self.wr(o).d.pop(t.attr, None)

    def s_Return(self, s):
        v = NONE if s.value is None else self.ev(s.value)
        self.rets.append((self.st, v))
        self.st = None
        raise Dead()

    def s_Break(self, s):
        self.loops[-1].brks.append((self.st, NONE))
        self.st = None
        raise Dead()

    def s_Continue(self, s):
        self.loops[-1].conts.append((self.st, NONE))
        self.st = None
        raise Dead()

    def s_If(self, s):
        c = self.truth(self.ev(s.test))
        self.exec_cond(c, lambda: self.exec_block(s.body), lambda: self.exec_block(s.orelse))

    def exec_cond(self, c, f1, f2):
        def wrap(f):
            def g():
                f()
                if self.st is None:
                    raise Dead()
                return NONE
            return g
        self.branch(c, wrap(f1), wrap(f2))

    def s_Assert(self, s):
        c = self.truth(self.ev(s.test))
        if isinstance(c, Unk):
            return
        self.raise_if(neg_cond(c), 'AssertionError', 'assert')

    def s_Raise(self, s):
        if s.exc is None:
            cur = getattr(self, 'handling', None)
            if cur:
                self.raise_exc(cur[-1])
            self.raise_name('RuntimeError', 're-raise')
        v = self.force(self.ev(s.exc))
        if isinstance(v, Ref) and self.obj(v).kind == 'class':
            v = self.call(v, [], {})
        self.event('raise', 'explicit raise')
        self.raise_exc(v)

    handling = ()

    def s_Try(self, s):
        loops = self.loops
        outer_raises = self.raises
        outer_rets = self.rets
        my_raises = []
        my_rets = [] if s.finalbody and outer_rets is not None else None
        marks = [(len(l.brks), len(l.conts)) for l in loops]
        self.raises = my_raises
        if my_rets is not None:
            self.rets = my_rets
        outs = []
        frame = self.st.frame
        cs, dp = list(self.callstack), self.depth
        try:
            try:
                self.exec_block(s.body)
            except Dead:
                self.st = None
            if self.st is not None and s.orelse:
                # exceptions of the else clause are not caught here
                tmp = self.raises
                self.raises = else_raises = []
                try:
                    self.exec_block(s.orelse)
                except Dead:
                    self.st = None
                self.raises = tmp
            else:
                else_raises = []
            if self.st is not None:
                outs.append((self.st, NONE))
            pending = list(else_raises)
            esc = []
            self.raises = esc
            for st, exc, w in my_raises:
                self.st = st
                st.frame = frame
                self.handle(s.handlers, exc, w, outs, esc)
            pending += esc
        finally:
            self.raises = outer_raises
            self.rets = outer_rets
            self.callstack[:] = cs
            self.depth = dp
        if not s.finalbody:
            outer_raises.extend(pending)
            self.join(outs)
            return

        def run_final(st):
            self.st = st
            st.frame = frame
            try:
                self.exec_block(s.finalbody)
            except Dead:
                self.st = None
            return self.st
        fin = []
        for st, v in outs:
            r = run_final(st)
            if r is not None:
                fin.append((r, NONE))
        for st, exc, w in pending:
            r = run_final(st)
            if r is not None:
                outer_raises.append((r, exc, w))
        if my_rets is not None:
            for st, v in my_rets:
                r = run_final(st)
                if r is not None:
                    outer_rets.append((r, v))
        for l, (a, b) in zip(loops, marks):
            for lst, k in ((l.brks, a), (l.conts, b)):
                new = lst[k:]
                del lst[k:]
                for st, v in new:
                    r = run_final(st)
                    if r is not None:
                        lst.append((r, v))
        self.join(fin)

    s_TryStar = None

    def handle(self, handlers, exc, w, outs, esc):
        cls = self.exc_class(exc)
        for h in handlers:
            if h.type is None:
                match = True
            else:
                tv = self.force(self.ev(h.type))
                tvs = list(tv.items) if isinstance(tv, Tup) else [tv]
                match = False
                for t in tvs:
                    if isinstance(t, Ref) and cls is not None and self.is_subclass(cls, t):
                        match = True
                    elif cls is None or not isinstance(t, Ref):
                        match = None if not match else match
            if match is None:
                # unknown exception class: may or may not match
                s2 = self.st.fork()
                esc.append((s2, exc, w))
                match = True
            if match:
                if h.name:
                    self.store_name(h.name, exc)
                prev = self.handling
                self.handling = tuple(prev) + (exc,)
                try:
                    self.exec_block(h.body)
                except Dead:
                    self.st = None
                finally:
                    self.handling = prev
                if self.st is not None:
                    outs.append((self.st, NONE))
                return
        esc.append((self.st, exc, w))

    def exc_class(self, exc):
        if isinstance(exc, Ref):
            o = self.st.peek(exc.oid)
            if o is not None and o.kind == 'inst':
                return o.cls
        return None

    def s_With(self, s):
        self.with_items(s, 0)

    def with_items(self, s, k):
        if k == len(s.items):
            self.exec_block(s.body)
            if self.st is None:
                raise Dead()
            return
        it = s.items[k]
        mgr = self.force(self.ev(it.context_expr))
        v = self.models.ctx_enter(self, mgr)
        loops, outer_raises, outer_rets = self.loops, self.raises, self.rets
        my_raises, my_rets = [], []
        marks = [(len(l.brks), len(l.conts)) for l in loops]
        self.raises, self.rets = my_raises, my_rets
        frame = self.st.frame
        cs, dp = list(self.callstack), self.depth
        outs = []
        try:
            try:
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, v)
                self.with_items(s, k + 1)
                outs.append((self.st, NONE))
            except Dead:
                pass
        finally:
            self.raises, self.rets = outer_raises, outer_rets
            self.callstack[:] = cs
            self.depth = dp

        def fin(st, how):
            self.st = st
            st.frame = frame
            try:
                self.models.ctx_exit(self, mgr, how)
            except Dead:
                self.st = None
            return self.st
        res = []
        for st, v in outs:
            r = fin(st, None)
            if r is not None:
                res.append((r, NONE))
        for st, exc, w in my_raises:
            r = fin(st, exc)
            if r is not None:
                outer_raises.append((r, exc, w))
        for st, v in my_rets:
            r = fin(st, None)
            if r is not None:
                outer_rets.append((r, v))
        for l, (a, b) in zip(loops, marks):
            for lst, kk in ((l.brks, a), (l.conts, b)):
                new = lst[kk:]
                del lst[kk:]
                for st, v in new:
                    r = fin(st, None)
                    if r is not None:
                        lst.append((r, v))
        self.join(res)

    def s_Import(self, s):
        path = self.callstack[-1][0] if self.callstack else None
        for a in s.names:
            m = self.import_name(a.name, path)
            if m is None:
                self.raise_name('ImportError', a.name)
            if a.asname:
                self.store_name(a.asname, m)
            else:
                top = a.name.split('.')[0]
                if top != a.name:
                    m = self.import_name(top, path)
                    if m is None:
                        m = Op('ext', (top,), 'ext')
                self.store_name(top, m)

    def s_ImportFrom(self, s):
        path = self.callstack[-1][0] if self.callstack else None
        m = self.import_name(s.module, path) if s.module else None
        if m is None:
            self.raise_name('ImportError', s.module or '.')
        for a in s.names:
            if a.name == '*':
                if isinstance(m, Ref):
                    for k, v in list(self.obj(m).d.items()):
                        if not k.startswith('_'):
                            self.store_name(k, v)
                continue
            if isinstance(m, Ref) and a.name not in self.obj(m).d:
                sub = self.find_module(s.module + '.' + a.name, path)
                if sub:
                    v = self.load_module(sub, s.module + '.' + a.name)
                elif s.module in self.stubs:
                    v = self.unk('%s.%s' % (s.module, a.name))
                else:
                    self.raise_name('ImportError', a.name)
            else:
                v = self.getattr(m, a.name)
            self.store_name(a.asname or a.name, v)

    def s_FunctionDef(self, s):
        f = self.make_func(s)
        for d in reversed(s.decorator_list):
            f = self.call(self.ev(d), [f], {})
        self.store_name(s.name, f)

    def make_func(self, s):
        fi = FuncInfo()
        if not isinstance(s, ast.Lambda) and scope_info(s)[3]:
            s = eager(s)
        fi.node = s
        fr = self.st.get(self.st.frame)
        fi.module = fr.meta[1]
        fi.closure = None if fr.meta[0] == 'module' else self.st.frame
        path, outer, _ = self.callstack[-1]
        nm = getattr(s, 'name', '<lambda>')
        fi.qual = nm if outer == '<module>' else outer + '.' + nm
        fi.path = path
        fi.locals, fi.globals, fi.nested, fi.isgen = scope_info(s)
        fi.defaults = tuple(self.ev(d) for d in s.args.defaults)
        fi.args = [a.arg for a in list(s.args.posonlyargs) + list(s.args.args)]
        fi.vararg = s.args.vararg.arg if s.args.vararg else None
        fi.kwarg = s.args.kwarg.arg if s.args.kwarg else None
        fi.cls = None
        # defaults live in the function object so that mutation of a default is visible
        return self.new('func', d={}, items=list(fi.defaults), meta=fi)

    def s_ClassDef(self, s):
        bases = [self.force(self.ev(b)) for b in s.bases]
        path, outer, _ = self.callstack[-1]
        fr = self.st.get(self.st.frame)
        cf = self.new('frame', d={}, meta=('class', fr.meta[1], None if fr.meta[0] == 'module' else self.st.frame, frozenset(), frozenset()))
        save = self.st.frame
        self.st.frame = cf.oid
        qual = s.name if outer == '<module>' else outer + '.' + s.name
        self.callstack.append((path, qual, s.lineno))
        try:
            self.exec_block(s.body)
        finally:
            self.callstack.pop()
        if self.st is None:
            raise Dead()
        self.st.frame = save
        d = dict(self.st.get(cf.oid).d)
        d.setdefault('__module__', Const(os.path.basename(path)))
        meta = d.get('__metaclass__')
        if meta is None:
            for b in bases:
                if isinstance(b, Ref) and self.obj(b).kind == 'class' and self.obj(b).cls is not None:
                    meta = self.obj(b).cls
                    break
        for k in s.keywords:
            if k.arg == 'metaclass':
                meta = self.ev(k.value)
        ci = ClassInfo()
        ci.name, ci.bases, ci.path, ci.node, ci.builtin = s.name, tuple(b for b in bases if isinstance(b, Ref)), path, s, False
        self.pending_class = ci
        if meta is not None:
            dd = self.newdict({Const(k): v for k, v in d.items()})
            new = self.class_attr(meta, '__new__')
            self.class_infos[s.name] = ci
            if new is not None:
                c = self.call(self.unwrap_static(new), [meta, Const(s.name), Tup(tuple(bases)), dd], {})
            else:
                c = self.build_class(meta, Const(s.name), Tup(tuple(bases)), dd)
            init = self.class_attr(meta, '__init__')
            if init is not None and isinstance(c, Ref):
                self.call(self.unwrap_static(init), [c, Const(s.name), Tup(tuple(bases)), dd], {})
        else:
            c = self.new('class', cls=None, d=d, meta=ci)
        self.store_name(s.name, c)

    class_infos = {}

    def build_class(self, meta, name, bases, dd):
        """type.__new__(meta, name, bases, dict)"""
        nm = name.v if isinstance(name, Const) else '?'
        base_ci = self.class_infos.get(nm)
        ci = ClassInfo()
        ci.name = nm
        ci.bases = tuple(b for b in bases.items if isinstance(b, Ref))
        ci.path = base_ci.path if base_ci else None
        ci.node = base_ci.node if base_ci else None
        ci.builtin = False
        d = {}
        for k, v in self.obj(dd).d.items():
            if isinstance(k, Const):
                d[k.v] = v
        return self.new('class', cls=meta if isinstance(meta, Ref) else None, d=d, meta=ci)

    # ------------------------------------------------------------ loops
    def s_For(self, s):
        it = self.force(self.ev(s.iter))
        seq = self.models.iter_desc(self, it)
        if seq is None:
            self.havoc_loop(s, 'iteration over unknown sequence')
            return
        kind = seq[0]
        if kind == 'items':
            items = seq[1]
            if len(items) <= MAX_UNROLL * 40 and not (len(items) > MAX_UNROLL and self.models.is_range_items(items)):
                self.unrolled_for(s, items)
                return
            if self.models.is_range_items(items):
                start = items[0]
                step = Const(items[1].v - items[0].v)
                self.generic_for(s, lambda t: add(start, mul(step, t)), Const(len(items)))
                return
            self.havoc_loop(s, 'long loop')
            return
        # ('fn', n, fn(t))
        self.generic_for(s, seq[2], seq[1])

    def unrolled_for(self, s, items):
        lc = LoopCtx()
        self.loops.append(lc)
        brks = []
        try:
            for x in items:
                self.assign(s.target, x)
                try:
                    self.exec_block(s.body)
                except Dead:
                    self.st = None
                brks += lc.brks
                lc.brks = []
                outs = lc.conts + ([(self.st, NONE)] if self.st is not None else [])
                lc.conts = []
                if not outs:
                    self.st = None
                    break
                self.join(outs)
        finally:
            self.loops.pop()
        if self.st is not None and s.orelse:
            try:
                self.exec_block(s.orelse)
            except Dead:
                self.st = None
        self.join(brks + ([(self.st, NONE)] if self.st is not None else []))

    def s_While(self, s):
        lc = LoopCtx()
        self.loops.append(lc)
        brks = []
        n = 0
        first = self.st.fork()
        self.st.own = set()
        logs = (self.rets, self.raises, self.events, self.unmodelled, self.loop_reads)
        marks = [len(x) for x in logs]
        try:
            while True:
                c = self.truth(self.ev(s.test))
                r = self.decide(c)
                if r is None and not isinstance(c, Unk):
                    # the first iterations may be certain: the summary covers them too
                    if n == 0 or n <= 9 and not brks and marks[:2] == [len(x) for x in logs[:2]] and logs[0] is self.rets and logs[1] is self.raises:
                        self.loops.pop()
                        now, self.st = self.st, first if n else self.st
                        tails = [x[m:] for x, m in zip(logs, marks)]
                        if n:
                            for x, m in zip(logs, marks):
                                del x[m:]
                        try:
                            if self.generic_while(s):
                                return
                        finally:
                            self.loops.append(lc)
                        if n:
                            for x, m, y in zip(logs, marks, tails):
                                x[m:] = y
                        self.st = now
                    if n > MAX_WHILE:
                        self.loops.pop()
                        try:
                            self.havoc_loop(s, 'while loop with undecided condition')
                        finally:
                            self.loops.append(lc)
                        break
                    # undecided exit: leave under not c, continue under c
                    s1 = self.st.fork()
                    s1.assume(neg_cond(c))
                    brks.append((s1, NONE))
                    self.st.own = set()
                    self.st.assume(c)
                elif isinstance(c, Unk) or n > 400:
                    self.loops.pop()
                    try:
                        self.havoc_loop(s, 'while loop')
                    finally:
                        self.loops.append(lc)
                    break
                elif r is False:
                    if s.orelse:
                        try:
                            self.exec_block(s.orelse)
                        except Dead:
                            self.st = None
                    break
                n += 1
                try:
                    self.exec_block(s.body)
                except Dead:
                    self.st = None
                brks += lc.brks
                lc.brks = []
                outs = lc.conts + ([(self.st, NONE)] if self.st is not None else [])
                lc.conts = []
                if not outs:
                    self.st = None
                    break
                self.join(outs)
        finally:
            self.loops.pop()
        self.join(brks + ([(self.st, NONE)] if self.st is not None else []))

    # --- summarised loops -------------------------------------------------
    def body_once(self, s, target_value, cond=None):
        """interpret the loop body once from self.st; returns (state or None, problems)"""
        lc = LoopCtx()
        self.loops.append(lc)
        orets, oraises = self.rets, self.raises
        self.rets, self.raises = [], []
        prob = None
        try:
            if target_value is not None:
                self.assign(s.target, target_value)
            try:
                self.exec_block(s.body)
            except Dead:
                self.st = None
            outs = lc.conts + ([(self.st, NONE)] if self.st is not None else [])
            if lc.brks:
                prob = 'break in summarised loop'
            if self.rets:
                prob = 'return in summarised loop'
            raised = self.raises
            if outs:
                try:
                    self.join(outs)
                except Dead:
                    self.st = None
        finally:
            self.loops.pop()
            self.rets, self.raises = orets, oraises
        return self.st, prob, raised

    def diff_states(self, before, after):
        """cells of objects existing before that changed: list of (oid, field)"""
        out = []
        for oid, o in after.heap.items():
            p = before.heap.get(oid)
            if p is None:
                p = BASE.get(oid)
            if p is None or p is o:
                continue
            if o.kind == 'alt' or p.kind != o.kind:
                out.append((oid, ('whole',)))
                continue
            if o.d is not p.d and o.d is not None:
                for k in set(o.d) | set(p.d):
                    if o.d.get(k, ABSENT) is not p.d.get(k, ABSENT):
                        out.append((oid, ('d', k)))
            if o.items is not p.items:
                if isinstance(o.items, FBuf) or isinstance(p.items, FBuf):
                    if isinstance(o.items, FBuf) and isinstance(p.items, FBuf) and o.items.base == p.items.base \
                            and o.items.n is p.items.n and o.items.stores[:len(p.items.stores)] == p.items.stores:
                        if len(o.items.stores) != len(p.items.stores):
                            out.append((oid, ('stores', len(p.items.stores))))
                    else:
                        out.append((oid, ('whole',)))
                elif len(o.items) != len(p.items):
                    out.append((oid, ('len',)))
                else:
                    for i, (x, y) in enumerate(zip(o.items, p.items)):
                        if x is not y:
                            out.append((oid, ('i', i)))
        return out

    def cell_get(self, st, cell):
        oid, f = cell
        o = st.peek(oid)
        if o is None or o.kind == 'alt':
            return None
        if f[0] == 'd':
            return o.d.get(f[1], ABSENT)
        if f[0] == 'i':
            return o.items[f[1]]
        return None

    def cell_set(self, st, cell, v):
        oid, f = cell
        o = st.wr(oid)
        if f[0] == 'd':
            o.d[f[1]] = v
        elif f[0] == 'i':
            o.items[f[1]] = v

    def havoc_loop(self, s, why):
        """body interpreted once only to find what it may modify; modified cells become unknown"""
        self.unk(why, s)
        before = self.st.fork()
        self.quiet += 1
        ev = len(self.events)
        try:
            u = Unk('loop variable') if isinstance(s, ast.For) else None
            try:
                st, prob, raised = self.body_once(s, u)
            except Unsupported:
                st, prob, raised = None, 'unsupported', []
        finally:
            self.quiet -= 1
        self.st = before
        if st is not None:
            for cell in self.diff_states(before, st):
                self.havoc_cell(cell, why)
        return

    def havoc_cell(self, cell, why):
        oid, f = cell
        u = Unk(why)
        if f[0] in ('d', 'i'):
            self.cell_set(self.st, cell, u)
        else:
            o = self.st.wr(oid)
            if o.items is not None:
                n = o.items.n if isinstance(o.items, FBuf) else Const(len(o.items))
                if f[0] in ('len', 'whole'):
                    n = u
                o.items = FBuf(n, ('fill', u))

    _tctr = [0]

    def generic_for(self, s, fn, n):
        """summarise `for t in [0,n)` with target value fn(t)"""
        if isinstance(n, Const) and n.v <= 0:
            return
        if isinstance(n, Const) and n.v <= 8:
            return self.unrolled_for(s, [fn(Const(i)) for i in range(n.v)])
        if s.orelse:
            return self.havoc_loop(s, 'for-else')
        Interp._tctr[0] += 1
        tname = 't%d' % Interp._tctr[0]
        t = T.sym(tname, 'int', lo=0, below=n)
        top = T.single_atom(t)
        self.summarise(s, lambda: fn(t), None, t, top, n)

    def generic_while(self, s):
        Interp._tctr[0] += 1
        tname = 't%d' % Interp._tctr[0]
        t = T.sym(tname, 'int', lo=0)
        top = T.single_atom(t)
        base, ev, unm, quant, reads = self.st, len(self.events), len(self.unmodelled), list(self.quant), len(self.loop_reads)
        orets, oraises = self.rets, self.raises
        self.rets, self.raises = [], []
        try:
            r = self.summarise(s, None, s.test, t, top, None)
        except (Dead, Unsupported):
            r = FAILED
        finally:
            mine = self.rets, self.raises
            self.rets, self.raises = orets, oraises
        if r is not FAILED:
            if mine[0]:
                self.rets += mine[0]
            self.raises += mine[1]
            return True
        # no summary: what the attempt met says nothing about real iterations
        self.st = base
        del self.events[ev:], self.unmodelled[unm:], self.loop_reads[reads:]
        self.quant[:] = quant
        return False

    def summarise(self, s, target, test, t, top, n):
        base = self.st
        why = 'loop summary at line %d' % s.lineno

        def one_pass(init_cells):
            self.st = base.fork()
            for cell, v in init_cells.items():
                self.cell_set(self.st, cell, v)
            tc = None
            if test is not None:
                tc = self.truth(self.ev(test))
                if isinstance(tc, Unk):
                    return self.st, None, 'unknown while condition', [], tc
                self.st.assume(tc)
            elif n is not None:
                # facts about t come from its bounds
                self.st.assume(compare('lt', t, n)) if not isinstance(n, Const) else None
            start = self.st.fork()
            st, prob, raised = self.body_once(s, target() if target else None)
            return start, st, prob, raised, tc
        nraised = len(self.raises)
        # pass 1: discover modified cells
        self.quiet += 1
        lr = len(self.loop_reads)
        try:
            cells = {}
            ph = {}
            for rnd in range(6):
                start, st, prob, raised, tc = one_pass({c: p for c, p in ph.items()})
                if prob or st is None:
                    break
                new = [c for c in self.diff_states(start, st) if c[1][0] in ('d', 'i') and c not in ph]
                new = [c for c in new if not self.is_loop_target(s, c, base)]
                if not new:
                    break
                for c in new:
                    v0 = self.cell_get(base, c)
                    ty = T.ty_of(v0) if v0 is not None else 'any'
                    nm = 'ph%d' % (len(ph) + 1000 * Interp._tctr[0])
                    if v0 is ABSENT or v0 is None:
                        ph[c] = ABSENT
                    elif ty in NUMTY:
                        ph[c] = T.sym(nm, 'float' if ty == 'num' else ty)
                    else:
                        ph[c] = Unk('loop-carried non-numeric value')
        finally:
            self.quiet -= 1
        if prob or st is None:
            self.st = base
            return FAILED if test is not None else self.havoc_loop(s, prob or 'loop body never completes')
        # classify
        phs = {}
        for c, p in ph.items():
            a = T.single_atom(p) if isinstance(p, Poly) else None
            if a is not None:
                phs[a] = c
        init = {}
        kind = {}
        for c, p in ph.items():
            e = self.cell_get(st, c)
            if p is ABSENT or isinstance(p, Unk):
                kind[c] = 'reassigned' if e is not None else 'unk'
                continue
            if e is None:
                kind[c] = 'unk'
                continue
            if e is p:
                kind[c] = 'same'
                continue
            deps = [a for a in phs if a in free_ops(e)]
            if not deps:
                kind[c] = 'reassigned'
            elif is_num(e) and not isinstance(e, Unk):
                d = sub(e, p)
                if isinstance(d, Unk) or any(a in free_ops(d) for a in phs) or top in free_ops(d):
                    kind[c] = 'unk'
                else:
                    kind[c] = ('ind', d)
            else:
                kind[c] = 'unk'
        trip = n
        v0s = {c: self.cell_get(base, c) for c in ph}
        for c, p in ph.items():
            if isinstance(kind[c], tuple):
                init[c] = add(v0s[c], mul(kind[c][1], t))
            elif kind[c] == 'same':
                init[c] = v0s[c]
            elif p is ABSENT:
                init[c] = ABSENT
            else:
                init[c] = Unk('loop-carried value')
        # trip count of a while loop
        if test is not None:
            self.st = base.fork()
            for c, v in init.items():
                self.cell_set(self.st, c, v)
            self.quiet += 1
            try:
                tc = self.truth(self.ev(test))
            finally:
                self.quiet -= 1
            trip = self.trip_count(tc, top)
            if trip is None:
                self.st = base
                return FAILED
            below = T.sym('%s_b' % top.args[0], 'int', lo=0, below=trip)
            t2, top2 = below, T.single_atom(below)
            init = {c: subst(v, {top: t2}) for c, v in init.items()}
            t, top = t2, top2
            n = trip
        # what the discovery passes met under arbitrary loop-carried values is no real failure
        del self.raises[nraised:]
        # final pass, with events
        lr = len(self.loop_reads)
        self.loop_reads.append(None)
        self.quant.append((top, n))
        start, st, prob, raised, tc = one_pass(init)
        self.quant.pop()
        reads = [r for r in self.loop_reads[lr:] if r is not None]
        del self.loop_reads[lr:]
        if prob or st is None:
            self.st = base
            return FAILED if test is not None else self.havoc_loop(s, prob or 'loop body never completes')
        for r in raised:
            self.raises.append(r)
        if self.quant:
            self.loop_reads += reads
        # after the loop
        self.st = base.fork()
        nlast = sub(n, Const(1))
        diffs = self.diff_states(start, st)
        for c in list(ph) + [x for x in diffs if x not in ph]:
            f = c[1]
            if f[0] in ('d', 'i'):
                k = kind.get(c, 'reassigned')
                if k == 'same':
                    continue
                if isinstance(k, tuple):
                    self.cell_set(self.st, c, add(v0s[c], mul(k[1], n)))
                elif k == 'unk':
                    self.cell_set(self.st, c, Unk('loop-carried value'))
                else:
                    e = self.cell_get(st, c)
                    v0 = self.cell_get(base, c)
                    if e is None:
                        e = Unk(why)
                    e2 = self.close(e, top, nlast)
                    r = self.decide(compare('le', Const(1), n))
                    if r is True:
                        v = e2
                    elif r is False:
                        v = v0
                    else:
                        v = ite(compare('le', Const(1), n), e2, v0 if v0 is not None else ABSENT)
                    self.cell_set(self.st, c, v)
            elif f[0] == 'stores':
                o2 = st.peek(c[0])
                newst = o2.items.stores[f[1]:]
                if self.quant_conflict(c[0], newst, reads, top):
                    self.havoc_cell(c, 'loop reads values written by earlier iterations')
                    self.unk('loop-carried array dependence', s)
                    continue
                o = self.st.wr(c[0])
                o.items = FBuf(o.items.n, o.items.base,
                               o.items.stores + tuple(Store(((top, n),) + x.vars, x.cond, x.idx, x.val) for x in newst))
            elif f[0] == 'len' and self.append_pattern(c, base, st, top, n):
                pass
            else:
                self.unk('loop modifies structure', s)
                self.havoc_cell(c, 'loop modifies structure')

    def append_pattern(self, c, base, st, top, n):
        """list grows by k elements per iteration: becomes a functional list"""
        o0, o1 = base.peek(c[0]), st.peek(c[0])
        if o0.kind != 'list' or isinstance(o0.items, FBuf) or isinstance(o1.items, FBuf):
            return False
        k = len(o1.items) - len(o0.items)
        if k <= 0 or any(x is not y for x, y in zip(o0.items, o1.items)):
            return False
        new = o1.items[len(o0.items):]
        if any(isinstance(x, Ref) for x in new):
            return False
        n0 = len(o0.items)
        total = add(Const(n0), mul(Const(k), n))
        stores = [Store((), TRUE, Const(i), v) for i, v in enumerate(o0.items)]
        for j, v in enumerate(new):
            stores.append(Store(((top, n),), TRUE, add(Const(n0 + j), mul(Const(k), T.mkpoly({((top, 1),): T.Fraction(1)}, 'int'))), v))
        o = self.st.wr(c[0])
        o.items = FBuf(total, ('fill', Unk('append')), stores)
        return True

    def close(self, e, top, last):
        if isinstance(e, Unk) or e is ABSENT:
            return e
        return subst(e, {top: last})

    def is_loop_target(self, s, cell, base):
        return False

    def trip_count(self, tc, top):
        """tc: condition linear in t that holds while looping"""
        if not (isinstance(tc, Op) and tc.op in ('lt', 'le')):
            return None
        p = tc.args[0]
        a = T.Fraction(0)
        rest = {}
        for m, c in terms_of(p).items():
            ex = [e for x, e in m if x is top]
            if ex:
                if len(m) != 1 or ex[0] != 1:
                    return None
                a += c
            else:
                if any(top in free_ops(x) for x, e in m):
                    return None
                rest[m] = c
        if a <= 0:
            return None
        b = mkpoly({m: -c / a for m, c in rest.items()}, 'float')   # t < b or t <= b
        if tc.op == 'le':
            n = add(floor_(b), Const(1))
        else:
            n = ceil_(b)
        r = self.st.facts.decide(compare('le', Const(0), n))
        if r is True:
            return n
        if r is False:
            return Const(0)
        return ite(compare('le', Const(0), n), n, Const(0))

    def quant_conflict(self, oid, stores, reads, top):
        """may iteration t read a cell another iteration wrote?"""
        Interp._tctr[0] += 1
        t2 = T.sym('t%d' % Interp._tctr[0], 'int', lo=0)
        tt = T.mkpoly({((top, 1),): T.Fraction(1)}, 'int')
        t2a = T.single_atom(t2)
        for rd_oid, idx, nst, facts in reads:
            if rd_oid != oid:
                continue
            for x in stores:
                w = subst(x.idx, {top: t2})
                f = Facts(facts.lits + (compare('lt', t2, tt),))
                if f.decide(compare('eq', w, idx)) is not False:
                    return True
        return False

    # ------------------------------------------------------------ expressions
    def ev(self, e):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            return self.unk('expression %s' % type(e).__name__, e)
        return m(e)

    def e_Constant(self, e):
        v = e.value
        if v is Ellipsis:
            return ELLIPSIS
        if isinstance(v, bytes):
            v = v.decode('latin-1')
        return Const(v)

    def e_Name(self, e):
        return self.lookup(e.id, e)

    def e_Attribute(self, e):
        return self.getattr(self.force(self.ev(e.value)), e.attr, e)

    def e_Tuple(self, e):
        return Tup(tuple(self.ev_elts(e.elts)))

    def e_List(self, e):
        return self.newlist(self.ev_elts(e.elts))

    def ev_elts(self, elts):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                it = self.iterate(self.force(self.ev(x.value)))
                if it is None:
                    raise Unsupported('star of unknown sequence')
                out += it
            else:
                out.append(self.ev(x))
        return out

    def e_Set(self, e):
        return self.new('set', items=self.models.dedup(self, self.ev_elts(e.elts)))

    def e_Dict(self, e):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                raise Unsupported('dict star')
            kk = self.force(self.ev(k))
            d[kk] = self.ev(v)
        return self.newdict(d)

    def e_Lambda(self, e):
        return self.make_func(e)

    def e_IfExp(self, e):
        c = self.truth(self.ev(e.test))
        return self.branch(c, lambda: self.ev(e.body), lambda: self.ev(e.orelse))

    def e_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)

        def rest(i):
            v = self.ev(e.values[i])
            if i == len(e.values) - 1:
                return v
            c = self.truth(v)
            if isand:
                return self.branch(c, lambda: rest(i + 1), lambda: FALSE if c is v else v)
            return self.branch(c, lambda: TRUE if v is c else v, lambda: rest(i + 1))
        return rest(0)

    def e_UnaryOp(self, e):
        v = self.ev(e.operand)
        if isinstance(e.op, ast.Not):
            c = self.truth(v)
            return neg_cond(c)
        if isinstance(v, Unk):
            return v
        if not numeric_ok(v):
            v = self.force(v)
        if isinstance(e.op, ast.USub):
            if isinstance(v, Ref):
                return self.models.arr_map(self, v, lambda x: neg(x))
            if not numeric_ok(v):
                return self.models.type_error(self, 'bad operand for unary -', v)
            return neg(boolnum(v))
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert) and isinstance(v, Const) and isinstance(v.v, int):
            return Const(~v.v)
        return self.unk('unary operator', e)

    def e_BinOp(self, e):
        a = self.ev(e.left)
        b = self.ev(e.right)
        return self.binop(e.op, a, b, e)

    def binop(self, op, a, b, node=None):
        return self.models.binop(self, op, a, b, node)

    def e_Compare(self, e):
        left = self.ev(e.left)
        if len(e.ops) == 1:
            return self.compare_op(e.ops[0], left, self.ev(e.comparators[0]))

        def rest(i, l):
            r = self.ev(e.comparators[i])
            v = self.compare_op(e.ops[i], l, r)
            if i == len(e.ops) - 1:
                return v
            c = self.truth(v)
            return self.branch(c, lambda: rest(i + 1, r), lambda: FALSE)
        return rest(0, left)

    def compare_op(self, op, a, b):
        return self.models.compare_op(self, op, a, b)

    def e_Call(self, e):
        # super() etc. not used in py2 sources
        if isinstance(e.func, ast.Attribute):
            recv = self.force(self.ev(e.func.value))
            f = self.getattr(recv, e.func.attr, e.func)
        else:
            f = self.ev(e.func)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                it = self.iterate(self.force(self.ev(a.value)))
                if it is None:
                    raise Unsupported('star argument of unknown length')
                args += it
            else:
                args.append(self.ev(a))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.force(self.ev(k.value))
                for kk, vv in self.obj(d).d.items():
                    kw[kk.v] = vv
            else:
                kw[k.arg] = self.ev(k.value)
        self.curline = e.lineno
        return self.call(f, args, kw, e)

    def e_JoinedStr(self, e):
        parts = []
        for p in e.values:
            if isinstance(p, ast.Constant):
                parts.append(Const(p.value))
            else:
                parts.append(self.models.to_str(self, self.ev(p.value)))
        return self.models.cat(self, parts)

    def e_Subscript(self, e):
        o = self.force(self.ev(e.value))
        k = self.ev_index(e.slice)
        return self.getitem(o, k)

    def ev_index(self, s):
        if isinstance(s, ast.Slice):
            return ('slice', NONE if s.lower is None else self.ev(s.lower),
                    NONE if s.upper is None else self.ev(s.upper),
                    NONE if s.step is None else self.ev(s.step))
        if isinstance(s, ast.Tuple) and any(isinstance(x, ast.Slice) for x in s.elts):
            return ('tuple', [self.ev_index(x) for x in s.elts])
        return self.ev(s)

    def comp_items(self, gens, k, emit):
        g = gens[k]
        it = self.force(self.ev(g.iter))
        items = self.iterate(it)
        if items is None:
            raise Unsupported('comprehension over unknown sequence')
        for x in items:
            self.assign(g.target, x)

            def body():
                if k + 1 < len(gens):
                    self.comp_items(gens, k + 1, emit)
                else:
                    emit()
            ok = True
            for c in g.ifs:
                cv = self.truth(self.ev(c))
                r = self.decide(cv)
                if r is None:
                    self.split_on(cv) if not isinstance(cv, Unk) else None
                    raise Unsupported('undecided comprehension filter')
                if not r:
                    ok = False
                    break
            if ok:
                body()

    def e_ListComp(self, e):
        if len(e.generators) == 1 and not e.generators[0].ifs:
            g = e.generators[0]
            it = self.force(self.ev(g.iter))
            seq = self.models.iter_desc(self, it)
            if seq is not None and seq[0] == 'fn':
                return self.generic_comp(e, seq)
            if seq is not None:
                out = []
                for x in seq[1]:
                    self.assign(g.target, x)
                    out.append(self.ev(e.elt))
                return self.newlist(out)
        out = []
        try:
            self.comp_items(e.generators, 0, lambda: out.append(self.ev(e.elt)))
        except Unsupported as x:
            return self.unk(str(x), e)
        return self.newlist(out)

    def generic_comp(self, e, seq):
        n, fn = seq[1], seq[2]
        g = e.generators[0]
        return self.generic_map(n, lambda t: (self.assign(g.target, fn(t)), self.ev(e.elt))[1], e)

    def generic_map(self, n, f, node=None):
        """functional list [f(t) for t in range(n)] for symbolic n; f must be effect free"""
        Interp._tctr[0] += 1
        t = T.sym('t%d' % Interp._tctr[0], 'int', lo=0, below=n)
        top = T.single_atom(t)
        before = self.st.fork()
        self.st.assume(compare('lt', t, n))
        self.quant.append((top, n))
        try:
            v = f(t)
        finally:
            self.quant.pop()
        ch = [c for c in self.diff_states(before, self.st) if not (c[1][0] == 'd' and self.st.peek(c[0]).kind == 'frame')]
        bad = bool(ch) or isinstance(v, Ref)
        after = self.st
        self.st = before
        if bad:
            return self.unk('effects in symbolic comprehension', node)
        return self.new('list', items=FBuf(n, ('fill', Unk('comp')), (Store(((top, n),), TRUE, t, v),)))

    def own_scope(self, e, f):
        """evaluate with the comprehension's variables in a scope of their own"""
        fr = self.st.get(self.st.frame)
        if fr.meta[0] == 'module':
            return f()
        names = frozenset(n.id for g in e.generators for n in ast.walk(g.target) if isinstance(n, ast.Name))
        outer = self.st.frame
        inner = self.new('frame', d={}, meta=('func', fr.meta[1], outer, names, frozenset()))
        self.st.frame = inner.oid
        v = f()
        self.st.frame = outer
        return v

    def e_GeneratorExp(self, e):
        v = self.own_scope(e, lambda: self.e_ListComp(e))
        if isinstance(v, Ref) and self.st.get(v.oid).kind == 'list' and isinstance(self.st.get(v.oid).items, (list, tuple)) and self.st.get(v.oid).meta is None:
            self.wr(v).meta = ('gen',)
        return v

    def e_SetComp(self, e):
        l = self.e_GeneratorExp(e)
        if isinstance(l, Unk):
            return l
        return self.new('set', items=self.models.dedup(self, self.obj(l).items))

    def e_DictComp(self, e):
        d = {}

        def emit():
            k = self.force(self.ev(e.key))
            d[k] = self.ev(e.value)
        outer = self.st.frame
        try:
            self.own_scope(e, lambda: self.comp_items(e.generators, 0, emit))
        except Unsupported as x:
            self.st.frame = outer
            return self.unk(str(x), e)
        return self.newdict(d)

    def e_Starred(self, e):
        raise Unsupported('starred expression')

    def e_NamedExpr(self, e):
        v = self.ev(e.value)
        self.assign(e.target, v)
        return v

    # ------------------------------------------------------------ truth
    def truth(self, v):
        return self.models.truth(self, v)

    def iterate(self, v):
        """list of items, or None when unknown"""
        d = self.models.iter_desc(self, v)
        if d is None:
            return None
        if d[0] == 'items':
            return list(d[1])
        if isinstance(d[1], Const) and d[1].v <= 4096:
            return [d[2](Const(i)) for i in range(d[1].v)]
        return None

    # ------------------------------------------------------------ attributes
    def mro(self, cls):
        out = []

        def walk(c):
            if c in out:
                return
            out.append(c)
            o = self.obj(c)
            for b in o.meta.bases:
                walk(b)
        walk(cls)
        return out

    def class_attr(self, cls, name):
        for c in self.mro(cls):
            v = self.obj(c).d.get(name)
            if v is not None and v is not ABSENT:
                return v
        return None

    def is_subclass(self, a, b):
        return b in self.mro(a)

    def unwrap_static(self, v):
        if isinstance(v, Op) and v.op in ('staticmethod', 'classmethod'):
            return v.args[0]
        return v

    def getattr(self, o, name, node=None, default=None):
        o = self.force(o)
        if isinstance(o, Unk):
            return self.unk('attribute %s of unknown' % name, node)
        if isinstance(o, Ref):
            h = self.obj(o)
            if h.kind == 'inst':
                v = h.d.get(name)
                if v is not None and v is not ABSENT:
                    v = self.present(v, name)
                    return v
                cv = self.class_attr(h.cls, name)
                if cv is not None:
                    return self.bind(cv, o, h.cls)
                if name == '__class__':
                    return h.cls
                if name == '__dict__':
                    return self.newdict({Const(k): x for k, x in h.d.items()})
                if default is not None:
                    return default
                ga = self.class_attr(h.cls, '__getattr__')
                if ga is not None:
                    return self.call(self.bind(ga, o, h.cls), [Const(name)], {})
                m = self.models.inst_attr(self, o, h, name)
                if m is not None:
                    return m
                if self.stubbed(self.obj(h.cls).meta.path):
                    return self.unk('stand-in without %s' % name)
                self.raise_name('AttributeError', '%s has no attribute %s' % (self.obj(h.cls).meta.name, name))
            if h.kind == 'class':
                cv = self.class_attr(o, name)
                if cv is not None:
                    if isinstance(cv, Op) and cv.op == 'ite':
                        cv = self.force(cv)
                    if isinstance(cv, Op) and cv.op == 'staticmethod':
                        return cv.args[0]
                    if isinstance(cv, Op) and cv.op == 'classmethod':
                        return Op('bound', (o, cv.args[0]), 'bound')
                    return cv
                if name in ('__name__', 'func_name'):
                    return Const(h.meta.name)
                if name == '__bases__':
                    return Tup(h.meta.bases)
                if name == '__class__':
                    return h.cls or Op('ext', ('builtins.type',), 'ext')
                if h.cls is not None:
                    mv = self.class_attr(h.cls, name)
                    if mv is not None:
                        return self.bind(mv, o, h.cls)
                if default is not None:
                    return default
                if self.stubbed(h.meta.path):
                    return self.unk('stand-in without %s' % name)
                self.raise_name('AttributeError', 'class %s has no attribute %s' % (h.meta.name, name))
            if h.kind == 'module':
                v = h.d.get(name)
                if v is not None and v is not ABSENT:
                    return self.present(v, name)
                sub = self.find_module(name, h.meta[1]) if os.path.basename(h.meta[1]) == '__init__.py' else None
                if sub and os.path.abspath(sub) in self.modules:
                    return self.modules[os.path.abspath(sub)]
                if default is not None:
                    return default
                if self.stubbed(h.meta[1]):
                    return self.unk('stand-in without %s' % name)
                self.raise_name('AttributeError', 'module %s has no attribute %s' % (h.meta[0], name))
            if h.kind == 'func':
                if name in ('__name__', 'func_name'):
                    return Const(getattr(h.meta.node, 'name', '<lambda>'))
                if name in h.d:
                    return h.d[name]
            return self.models.obj_attr(self, o, h, name, node, default)
        if isinstance(o, Op) and o.op == 'ext':
            return self.models.ext_attr(self, o, name)
        if isinstance(o, Op) and o.op == 'super':
            return self.super_attr(o, name, default)
        if o is NONE:
            if default is not None:
                return default
            self.raise_name('AttributeError', "'NoneType' object has no attribute '%s'" % name)
        return self.models.val_attr(self, o, name, node, default)

    def super_attr(self, o, name, default):
        start, obj = o.args
        if not isinstance(start, Ref) or not isinstance(obj, Ref):
            return self.unk('super')
        h = self.obj(obj)
        cls = obj if h.kind == 'class' else h.cls
        line = self.mro(cls)
        if start not in line:
            self.raise_name('TypeError', 'super(type, obj): obj must be an instance or subtype of type')
        for c in line[line.index(start) + 1:]:
            v = self.obj(c).d.get(name)
            if v is None or v is ABSENT:
                continue
            v = self.force(v) if isinstance(v, Op) and v.op == 'ite' else v
            if h.kind == 'class':
                if isinstance(v, Op) and v.op == 'staticmethod':
                    return v.args[0]
                if isinstance(v, Op) and v.op == 'classmethod':
                    return Op('bound', (cls, v.args[0]), 'bound')
                return v
            return self.bind(v, obj, cls)
        if name == '__init__':
            return Op('ext', ('builtins.noop',), 'ext')
        if default is not None:
            return default
        self.raise_name('AttributeError', "'super' object has no attribute '%s'" % name)

    def present(self, v, name):
        if isinstance(v, Op) and v.op == 'ite':
            pc = present_cond(v)
            if pc is not TRUE:
                r = self.decide(pc)
                if r is None:
                    self.split_on(pc)
                if r is False:
                    self.raise_name('AttributeError', name)
                return strip_absent(v)
        return v

    def bind(self, cv, self_v, cls):
        if isinstance(cv, Op) and cv.op == 'ite':
            cv = self.force(cv)
        if isinstance(cv, Op) and cv.op == 'staticmethod':
            return cv.args[0]
        if isinstance(cv, Op) and cv.op == 'classmethod':
            return Op('bound', (cls, cv.args[0]), 'bound')
        if isinstance(cv, Op) and cv.op == 'property':
            return self.call(cv.args[0], [self_v], {})
        if isinstance(cv, Ref) and self.obj(cv).kind == 'func':
            return Op('bound', (self_v, cv), 'bound')
        return cv

    def setattr(self, o, name, v):
        o = self.force(o)
        if isinstance(o, Unk):
            self.unk('attribute store on unknown object')
            return
        if isinstance(o, Ref):
            h = self.obj(o)
            if h.kind in ('inst', 'class', 'module', 'func'):
                if h.kind == 'inst':
                    cv = self.class_attr(h.cls, '__setattr__')
                    if cv is not None:
                        self.call(self.bind(cv, o, h.cls), [Const(name), v], {})
                        return
                self.wr(o).d[name] = v
                return
            if self.models.set_obj_attr(self, o, h, name, v):
                return
        if o is NONE:
            self.raise_name('AttributeError', "'NoneType' object has no attribute '%s'" % name)
        self.unk('attribute store %s' % name)

    # ------------------------------------------------------------ items
    def getitem(self, o, k):
        return self.models.getitem(self, o, k)

    def setitem(self, o, k, v):
        return self.models.setitem(self, o, k, v)

    # ------------------------------------------------------------ calls
    def call(self, f, args, kw, node=None):
        f = self.force(f)
        if isinstance(f, Unk):
            return self.unk('call of unknown', node)
        if isinstance(f, Op):
            if f.op == 'bound':
                return self.call(f.args[1], [f.args[0]] + list(args), kw, node)
            if f.op == 'ext':
                return self.models.call_ext(self, f.args[0], args, kw, node)
            if f.op == 'bmeth':
                return self.models.call_method(self, f.args[0], f.args[1], args, kw, node)
            if f.op == 'bmeth_num':
                return self.models.number_method(self, f.args[0], f.args[1], args, kw, node)
            if f.op == 'pyfn':
                return PYFNS[f.args[0]](self, args, kw)
            if f.op == 'partial':
                return self.call(f.args[0], list(f.args[1].items) + list(args), kw, node)
        if isinstance(f, Ref):
            h = self.obj(f)
            if h.kind == 'func':
                return self.call_func(f, h, args, kw, node)
            if h.kind == 'class':
                return self.instantiate(f, h, args, kw, node)
            if h.kind == 'inst':
                c = self.class_attr(h.cls, '__call__')
                if c is not None:
                    return self.call(self.bind(c, f, h.cls), args, kw, node)
                return self.models.call_inst(self, f, h, args, kw, node)
            return self.models.call_obj(self, f, h, args, kw, node)
        if isinstance(f, Const):
            self.raise_name('TypeError', "'%s' object is not callable" % type(f.v).__name__)
        return self.unk('call of %r' % (f,), node)

    def instantiate(self, c, h, args, kw, node=None):
        if h.meta.builtin:
            return self.models.instantiate_builtin(self, c, h, args, kw)
        if any(self.obj(b).meta.builtin and self.obj(b).meta.name == 'type' for b in self.mro(c)):
            return self.build_class(c, args[0], args[1], args[2])
        new = self.class_attr(c, '__new__')
        new = self.unwrap_static(new) if new is not None else None
        if isinstance(new, Ref):
            o = self.call(new, [c] + list(args), kw, node)
            if not (isinstance(o, Ref) and self.obj(o).kind == 'inst' and self.is_subclass(self.obj(o).cls, c)):
                return o
        else:
            o = self.new('inst', cls=c, d={})
        init = self.class_attr(c, '__init__')
        if isinstance(self.unwrap_static(init), Op):
            init = None
        if init is not None:
            self.call(self.bind(init, o, c), args, kw, node)
        elif isinstance(new, Ref):
            pass
        elif any(self.obj(b).meta.builtin and self.obj(b).meta.name not in ('object', 'type') for b in self.mro(c)):
            self.models.init_builtin(self, o, args)
        elif args or kw:
            self.raise_name('TypeError', '%s() takes no arguments' % h.meta.name)
        return o

    def bind_args(self, fi, h, args, kw):
        loc = {}
        names = fi.args
        if len(args) > len(names) and not fi.vararg:
            self.raise_name('TypeError', '%s() takes at most %d arguments (%d given)' % (fi.qual, len(names), len(args)))
        for nm, v in zip(names, args):
            loc[nm] = v
        if fi.vararg:
            loc[fi.vararg] = Tup(tuple(args[len(names):]))
        extra = {}
        for k, v in kw.items():
            if k in loc and k in names:
                self.raise_name('TypeError', '%s() got multiple values for argument %s' % (fi.qual, k))
            if k in names:
                loc[k] = v
            elif fi.kwarg:
                extra[Const(k)] = v
            else:
                self.raise_name('TypeError', "%s() got an unexpected keyword argument '%s'" % (fi.qual, k))
        if fi.kwarg:
            loc[fi.kwarg] = self.newdict(extra)
        nd = len(h.items)
        for i, nm in enumerate(names):
            if nm not in loc:
                j = i - (len(names) - nd)
                if j >= 0:
                    loc[nm] = h.items[j]
                else:
                    self.raise_name('TypeError', '%s() missing argument %s' % (fi.qual, nm))
        return loc

    def call_func(self, f, h, args, kw, node=None):
        fi = h.meta
        ov = self.ext_overrides.get(fi.qual)
        if ov is not None:
            r = ov(self, args, kw)
            if r is not None:
                return r
        if fi.isgen:
            return self.unk('generator function', node)
        loc = self.bind_args(fi, h, args, kw)
        if self.depth > MAX_DEPTH:
            return self.unk('recursion too deep', node)
        caller = self.st.frame
        callline = self.curline
        fr = self.new('frame', d=loc, meta=('func', fi.module, fi.closure, fi.locals, fi.globals))
        self.st.frame = fr.oid
        saved = (self.rets, self.loops)
        self.rets, self.loops = [], []
        self.callstack.append((fi.path, fi.qual, callline))
        self.funcs_seen[(fi.path, fi.qual)] = fi.node.lineno
        self.depth += 1
        ncs = len(self.callstack)
        try:
            try:
                if isinstance(fi.node, ast.Lambda):
                    v = self.ev(fi.node.body)
                    self.rets.append((self.st, v))
                    self.st = None
                else:
                    self.exec_block(fi.node.body)
            except Dead:
                self.st = None
            outs = self.rets
            if self.st is not None:
                outs = outs + [(self.st, NONE)]
        finally:
            self.rets, self.loops = saved
            self.callstack[ncs - 1:] = []
            self.depth -= 1
            self.curline = callline
        v = self.join(outs)
        self.st.frame = caller
        if not fi.nested:
            self.st.heap.pop(fr.oid, None)
            self.st.own.discard(fr.oid)
        return v

    # ------------------------------------------------------------ driver API
    def run(self, thunk):
        """evaluate thunk (engine-level code) with splitting; returns (value or None, raised list)"""
        self.raises = []
        try:
            v = self.split_eval(thunk)
        except Dead:
            self.st = None
            v = None
        return v


PYFNS = {}


def present_cond(v):
    if v is ABSENT:
        return FALSE
    if isinstance(v, Op) and v.op == 'ite':
        a, b = present_cond(v.args[1]), present_cond(v.args[2])
        if a is TRUE and b is TRUE:
            return TRUE
        return or_(and_(v.args[0], a), and_(neg_cond(v.args[0]), b))
    return TRUE


def strip_absent(v):
    if isinstance(v, Op) and v.op == 'ite':
        a, b = v.args[1], v.args[2]
        if a is ABSENT:
            return strip_absent(b)
        if b is ABSENT:
            return strip_absent(a)
        return ite(v.args[0], strip_absent(a), strip_absent(b))
    return v
