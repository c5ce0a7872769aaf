"""Open/close typestate of files, over the syntax trees (Python 2 sources parsed by the loader).

For every place that opens a file: which states can the function leave the handle in, on every
path, when any call, subscript, formatting or raise may fail?  The states are 'none' (not open),
'open' and 'closed'; 'pending' is an open() whose success is held by a flag variable.
"""
import ast

OPENERS = {'open', 'file', 'gzip.open', 'gzip.GzipFile', 'io.open', 'codecs.open', 'os.fdopen', 'bz2.BZ2File', 'zipfile.ZipFile', 'tarfile.open',
           'tempfile.TemporaryFile', 'tempfile.NamedTemporaryFile'}
SAFE = {'print', 'len', 'isinstance', 'repr', 'str', 'id', 'bool', 'callable', 'type', 'range', 'list', 'dict', 'tuple', 'set'}


def dotted(e):
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        b = dotted(e.value)
        return b + '.' + e.attr if b else None
    return None


def functions(tree):
    """(qualified name, node) of every function"""
    out = []

    def walk(n, pre):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                if isinstance(c, ast.FunctionDef):
                    out.append((pre + c.name, c))
                walk(c, pre + c.name + '.')
            else:
                walk(c, pre)
    walk(tree, '')
    return out


def own(fn):
    """the nodes of a function without nested functions"""
    st = list(fn.body)
    while st:
        n = st.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
            st.extend(ast.iter_child_nodes(n))


class Analysis:
    def __init__(self, trees):
        """trees: {path: module tree}"""
        self.trees = trees
        self.fns = [(p, q, f) for p, t in sorted(trees.items()) for q, f in functions(t)]
        self.producers = set()
        while True:
            n = len(self.producers)
            for p, q, f in self.fns:
                vs = {v for c, v, flag in self.sites(f) if v}
                for x in own(f):
                    if isinstance(x, ast.Return) and x.value is not None and (self.opens(x.value, f) or isinstance(x.value, ast.Name) and x.value.id in vs):
                        self.producers.add(f.name)
            if len(self.producers) == n:
                break

    def opens(self, e, f):
        if not isinstance(e, ast.Call):
            return False
        d = dotted(e.func)
        if d is None:
            return False
        if d in OPENERS or d.endswith('ImageInput.open'):
            return True
        return d.split('.')[-1] in self.producers

    def sites(self, f):
        """(opening call, variable or None, flag variable or None)"""
        created = {t.id for x in own(f) if isinstance(x, ast.Assign) and isinstance(x.value, ast.Call) and (dotted(x.value.func) or '').endswith('ImageOutput.create')
                   for t in x.targets if isinstance(t, ast.Name)}
        asg = {}
        for x in own(f):
            if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name):
                asg[id(x.value)] = x.targets[0].id
        out = []
        for x in own(f):
            if isinstance(x, ast.Call):
                if self.opens(x, f):
                    out.append((x, asg.get(id(x)), None))
                elif isinstance(x.func, ast.Attribute) and x.func.attr == 'open' and isinstance(x.func.value, ast.Name) and x.func.value.id in created:
                    out.append((x, x.func.value.id, asg.get(id(x))))
        return out

    def judge(self, f, call, var, flag):
        """None when the file is closed on every path, else how it is left open"""
        for x in own(f):
            if isinstance(x, ast.With):
                for i in x.items:
                    e = i.context_expr
                    if e is call or isinstance(e, ast.Call) and (dotted(e.func) or '').split('.')[-1] == 'closing' and e.args and e.args[0] is call:
                        return None
            if isinstance(x, ast.Return) and x.value is call:
                return None
        if var is None:
            return 'the handle is not kept in a variable'
        r = Run(call, var, flag)
        out = r.block(f.body, {'none'})
        bad = sorted(k for k in ('next', 'return', 'raise') if out.get(k, set()) & {'open', 'pending'})
        if bad:
            return 'it can stay open when the function ends by %s' % ' or '.join({'next': 'reaching its end', 'return': 'return', 'raise': 'an exception'}[k] for k in bad)
        return None


def merge(a, b):
    for k, v in b.items():
        a.setdefault(k, set()).update(v)
    return a


class Run:
    def __init__(self, call, var, flag):
        self.call, self.var, self.flag = call, var, flag

    def has(self, n):
        return any(x is self.call for x in ast.walk(n))

    def risky(self, n):
        for x in ast.walk(n):
            if isinstance(x, ast.Call):
                if dotted(x.func) not in SAFE:
                    return True
            elif isinstance(x, (ast.Subscript, ast.Raise, ast.Assert, ast.Import, ast.ImportFrom, ast.BinOp)):
                return True
        return False

    def closes(self, n):
        return isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute) and n.value.func.attr == 'close' \
            and isinstance(n.value.func.value, ast.Name) and n.value.func.value.id == self.var and not n.value.args

    def refine(self, t, S):
        """states when the test holds, when it does not"""
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            a, b = self.refine(t.operand, S)
            return b, a
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name) and isinstance(t.comparators[0], (ast.Constant, ast.NameConstant)) and t.comparators[0].value is None:
            a, b = self.refine(t.left, S) if t.left.id == self.var else (S, S)
            return (b, a) if isinstance(t.ops[0], (ast.Is, ast.Eq)) else (a, b)
        if isinstance(t, ast.Name) and t.id == self.flag:
            return {'open' if s == 'pending' else s for s in S}, {'none' if s == 'pending' else s for s in S}
        if isinstance(t, ast.Name) and t.id == self.var and self.flag is None:
            # an opened handle is true; a false one is not open
            return set(S), {'none' if s == 'open' else s for s in S}
        return set(S), set(S)

    def block(self, stmts, S):
        out = {}
        for s in stmts:
            if not S:
                break
            o = self.stmt(s, set(S))
            S = o.pop('next', set())
            merge(out, o)
        if S:
            merge(out, {'next': set(S)})
        return out

    def stmt(self, s, S):
        if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Pass, ast.Global)):
            return {'next': S}
        if isinstance(s, ast.Return):
            if isinstance(s.value, ast.Name) and s.value.id == self.var:
                return {'return': {'closed'}}
            out = {'return': set(S)}
            if s.value is not None and self.risky(s.value):
                out['raise'] = set(S)
            return out
        if isinstance(s, ast.Raise):
            return {'raise': S}
        if isinstance(s, ast.Break):
            return {'break': S}
        if isinstance(s, ast.Continue):
            return {'continue': S}
        if isinstance(s, ast.If):
            a, b = self.refine(s.test, S)
            out = {'raise': set(S)} if self.risky(s.test) else {}
            merge(out, self.block(s.body, a))
            return merge(out, self.block(s.orelse, b)) if s.orelse else merge(out, {'next': b})
        if isinstance(s, (ast.While, ast.For)):
            seen, out, work = set(), {}, set(S)
            ends = set()
            while work:
                seen |= work
                o = self.block(s.body, work)
                again = o.pop('next', set()) | o.pop('continue', set())
                ends |= o.pop('break', set())
                merge(out, o)
                work = again - seen
            if self.risky(s.test if isinstance(s, ast.While) else s.iter) or isinstance(s, ast.For):
                merge(out, {'raise': set(seen)})
            merge(out, self.block(s.orelse, seen) if s.orelse else {'next': set(seen)})
            return merge(out, {'next': ends}) if ends else out
        if isinstance(s, ast.With):
            out = {'raise': set(S)}
            mine = any(isinstance(i.context_expr, ast.Name) and i.context_expr.id == self.var for i in s.items)
            o = self.block(s.body, S)
            if mine:
                o = {k: {'closed'} for k in o}
                out = {}
            return merge(out, o)
        if isinstance(s, ast.Try) or s.__class__.__name__ == 'TryFinally':
            o = self.block(s.body, S)
            if s.orelse and 'next' in o:
                nxt = o.pop('next')
                e = self.block(s.orelse, nxt)
            else:
                e = {}
            if s.handlers and 'raise' in o:
                rs = o['raise']
                for h in s.handlers:
                    merge(e, self.block(h.body, set(rs)))
                if any(h.type is None or dotted(h.type) in ('BaseException', 'Exception', 'StandardError') for h in s.handlers):
                    o.pop('raise')
            merge(o, e)
            if s.finalbody:
                out = {}
                for k, v in o.items():
                    f = self.block(s.finalbody, v)
                    n = f.pop('next', None)
                    merge(out, f)
                    if n:
                        merge(out, {k: n})
                return out
            return o
        # simple statements
        if self.closes(s):
            return {'next': {'none' if x == 'none' else 'closed' for x in S}, 'raise': {'closed'}}
        if self.has(s):
            return {'next': {'pending' if self.flag else 'open'}, 'raise': S}
        out = {}
        if self.risky(s):
            out['raise'] = set(S)
        nxt = set(S)
        if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == self.flag for t in s.targets):
            nxt = {'open' if x == 'pending' else x for x in nxt}
            out['raise'] = {'open' if x == 'pending' else x for x in out.get('raise', set())} or out.get('raise', set())
        merge(out, {'next': nxt})
        return out
