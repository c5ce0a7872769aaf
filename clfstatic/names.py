"""Names, attributes and arguments over the syntax trees (Python 2 sources parsed by the loader).

Module namespaces and class hierarchies come from the interpreted modules, so star imports, re-exports
and inheritance are exact.  Types of expressions are inferred only where they are evident (self,
constructor calls, literals, modules); nothing is claimed about the others.
"""
import ast, importlib
from . import loader
from .terms import Ref, Op

PY2 = set('''abs all any apply basestring bin bool buffer bytearray bytes callable chr classmethod cmp coerce compile complex copyright credits delattr dict
dir divmod enumerate eval execfile exit file filter float format frozenset getattr globals hasattr hash help hex id input int intern isinstance issubclass iter
len license list locals long map max memoryview min next object oct open ord pow print property quit range raw_input reduce reload repr reversed round set
setattr slice sorted staticmethod str sum super tuple type unichr unicode vars xrange zip __import__ __name__ __file__ __doc__ __package__ __builtins__
__debug__ None True False Ellipsis NotImplemented ArithmeticError AssertionError AttributeError BaseException BufferError BytesWarning
DeprecationWarning EOFError EnvironmentError Exception FloatingPointError FutureWarning GeneratorExit IOError ImportError ImportWarning IndentationError
IndexError KeyError KeyboardInterrupt LookupError MemoryError NameError NotImplementedError OSError OverflowError PendingDeprecationWarning ReferenceError
RuntimeError RuntimeWarning StandardError StopIteration SyntaxError SyntaxWarning SystemError SystemExit TabError TypeError UnboundLocalError UnicodeDecodeError
UnicodeEncodeError UnicodeError UnicodeTranslateError UnicodeWarning UserWarning ValueError Warning ZeroDivisionError'''.split())
OPAQUE = {'OpenImageIO', 'PyOpenColorIO', 'scipy', 'cv2', 'PIL'}
EXTRA = {dict: {'iteritems', 'iterkeys', 'itervalues', 'has_key', 'viewitems', 'viewkeys', 'viewvalues'}, str: {'decode'}, list: set(), tuple: set(), set: set(), float: set(), int: set(), bool: set()}
NPOLD = {'getbuffer', 'newbuffer', 'float', 'int', 'bool', 'object', 'str', 'long', 'unicode', 'complex', 'asscalar', 'alen', 'rank'}
STDOLD = {'sys.maxint', 'string.maketrans', 'string.letters', 'itertools.izip', 'itertools.imap', 'itertools.ifilter', 'itertools.izip_longest', 'os.getcwdu', 'types.StringTypes', 'os.popen2', 'os.spawnvp',
          'time.clock', 'string.join', 'string.split', 'string.atof', 'string.atoi', 'sys.exc_clear', 'sys.setdefaultencoding', 'math.long', 'types.ListType', 'types.StringType', 'array.ArrayType'}


class Finding(object):
    def __init__(self, kind, path, line, where, text, sure=True):
        self.kind, self.path, self.line, self.where, self.text, self.sure = kind, path, line, where, text, sure

    def construct(self):
        return '%s:%s' % (loader.rel(self.path), self.where)


class Scope(object):
    """names bound in a function, class or module"""

    def __init__(self, node, parent):
        self.node, self.parent = node, parent
        self.bound, self.globals, self.params = set(), set(), []
        self.star = False
        if isinstance(node, (ast.FunctionDef, ast.Lambda)):
            a = node.args
            ps = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]
            self.params = ps
            self.bound |= set(ps)
        for n in own(node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                self.bound.add(n.id)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n is not node:
                self.bound.add(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for x in n.names:
                    if x.name == '*':
                        self.star = True
                    else:
                        self.bound.add((x.asname or x.name).split('.')[0])
            elif isinstance(n, ast.ExceptHandler) and n.name:
                self.bound.add(n.name)
            elif isinstance(n, (ast.Global, ast.Nonlocal)):
                self.globals |= set(n.names)
        self.bound -= self.globals


def own(node):
    """nodes of a scope, without the bodies of nested scopes; list comprehensions belong to the scope (Python 2)"""
    out = []

    def walk(n, top=False):
        out.append(n)
        if not top and isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            for d in getattr(n, 'decorator_list', []) + getattr(n, 'bases', []):
                walk(d)
            if not isinstance(n, ast.ClassDef):
                for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
                    walk(d)
            return
        if top and isinstance(n, (ast.FunctionDef, ast.Lambda)):
            for c in (n.body if isinstance(n.body, list) else [n.body]):
                walk(c)
            return
        if top and isinstance(n, ast.ClassDef):
            for c in n.body:
                walk(c)
            return
        for c in ast.iter_child_nodes(n):
            walk(c)
    walk(node, True)
    return out


class Analysis(object):
    def __init__(self, lab):
        self.lab, self.I = lab, lab.I
        self.I.st = lab.base.fork()
        self.I.modules = dict(lab.basemods)
        self.found = []
        self.counts = {'names': 0, 'attributes': 0, 'calls': 0, 'formats': 0, 'imports': 0, 'functions': 0, 'uses of locals': 0}
        self.classnames = {}
        self.attrs = {}
        for p, m in sorted(self.I.modules.items()):
            for k, v in self.I.obj(m).d.items():
                if self.iscls(v):
                    self.classnames[(self.I.obj(v).meta.path, self.I.obj(v).meta.name)] = v
        self.subs = {}
        for v in set(self.classnames.values()):
            for b in self.I.mro(v):
                self.subs.setdefault(b, set()).add(v)
        self.trees = {}
        self.universe = None

    # ------------------------------------------------------------ heap helpers
    def iscls(self, v):
        return isinstance(v, Ref) and self.I.obj(v).kind == 'class' and hasattr(self.I.obj(v).meta, 'bases')

    def instance_attrs(self, c):
        """attributes assigned on instances of the class: self.x = in methods of its hierarchy, and x.a = elsewhere on evident instances"""
        if c in self.attrs:
            return self.attrs[c]
        out = set()
        for b in self.I.mro(c):
            meta = self.I.obj(b).meta
            if meta.node is None:
                if not meta.builtin or meta.name not in ('object',):
                    out |= {'args', 'message'} if meta.name.endswith(('Error', 'Exception')) else set()
                continue
            for f in meta.node.body:
                if isinstance(f, ast.FunctionDef) and f.args.args:
                    s = f.args.args[0].arg
                    for n in ast.walk(f):
                        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == s:
                            out.add(n.attr)
                        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr':
                            out.add('*')
                        if isinstance(n, ast.Attribute) and n.attr == '__dict__':
                            out.add('*')
        self.attrs[c] = out
        return out

    def outside_bases(self, c):
        """does the class have a base that is not analysed?"""
        for b in self.I.mro(c):
            m = self.I.obj(b).meta
            if m.node is None:
                if m.name not in ('object', 'type'):
                    return True
            elif len(m.node.bases) != len(m.bases):
                return True
        return False

    def add(self, kind, node, text, sure=True):
        self.found.append(Finding(kind, self.path, node.lineno, self.where, text, sure))

    # ------------------------------------------------------------ run
    def run(self, paths):
        for p in paths:
            self.path = p
            self.tree = loader.parse_file(p)[1]
            m = self.I.modules.get(p)
            self.ns = dict(self.I.obj(m).d) if m is not None else None
            top = Scope(self.tree, None)
            self.module_scope = top
            self.where = '<module>'
            self.stores = set()
            for n in ast.walk(self.tree):
                if isinstance(n, (ast.Global,)):
                    self.stores |= set(n.names)
            self.visit_scope(self.tree, top, None)
        return self.found

    def visit_scope(self, node, scope, cls):
        save = self.where
        if isinstance(node, (ast.FunctionDef, ast.ClassDef)):
            self.where = node.name if self.where == '<module>' else self.where + '.' + node.name
        self.counts['functions'] += isinstance(node, (ast.FunctionDef, ast.Lambda))
        nodes = own(node)
        types = self.local_types(node, nodes, scope, cls)
        self.protected = set()
        for n in nodes:
            if isinstance(n, ast.Try):
                for h in n.handlers:
                    names = {x.id for x in ast.walk(h.type) if isinstance(x, ast.Name)} if h.type is not None else {'*'}
                    if names & {'*', 'Exception', 'StandardError', 'ImportError', 'AttributeError', 'NameError', 'TypeError', 'BaseException'}:
                        for b in n.body:
                            self.protected |= set(map(id, ast.walk(b)))
        prot = self.protected
        if isinstance(node, ast.FunctionDef):
            self.assigned(node, scope)
        for n in nodes:
            self.protected = prot
            self.visit(n, scope, cls, types)
        for n in nodes:
            if n is node:
                continue
            if isinstance(n, ast.ClassDef):
                c = self.classnames.get((self.path, n.name)) if isinstance(node, ast.Module) else None
                self.visit_scope(n, Scope(n, scope), c)
            elif isinstance(n, ast.FunctionDef):
                self.visit_scope(n, Scope(n, scope), cls if isinstance(node, ast.ClassDef) else None)
            elif isinstance(n, ast.Lambda):
                self.outer_types = types
                self.visit_scope(n, Scope(n, scope), None)
        self.where = save

    # ------------------------------------------------------------ names
    def lookup(self, name, scope):
        """'local', 'global', 'builtin' or None"""
        s = scope
        first = True
        while s is not None and not isinstance(s.node, ast.Module):
            if name in s.bound and (first or not isinstance(s.node, ast.ClassDef)):
                return s
            if name in s.globals:
                break
            if s.star:
                return s
            first = False
            s = s.parent
        if self.ns is not None and name in self.ns or name in self.module_scope.bound or name in self.stores:
            return 'global'
        if self.ns is None and self.module_scope.star:
            return 'global'
        if name in PY2:
            return 'builtin'
        return None

    def local_types(self, node, nodes, scope, cls):
        """evident types of the locals: name -> type"""
        seen = {}
        bad = set()
        if isinstance(node, (ast.FunctionDef, ast.Lambda)):
            bad |= set(scope.params)
            if cls is not None and node.args.args and isinstance(node, ast.FunctionDef):
                decs = [d.id for d in node.decorator_list if isinstance(d, ast.Name)]
                a = node.args.args[0].arg
                if not decs:
                    bad.discard(a)
                    seen[a] = ('inst', cls, True)
                elif decs == ['classmethod']:
                    bad.discard(a)
                    seen[a] = ('class', cls)
        simple = {}
        for n in nodes:
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                simple.setdefault(n.targets[0].id, []).append(n.value)
        stores = {}
        for n in nodes:
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                stores[n.id] = stores.get(n.id, 0) + 1
        for n in nodes:
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                for x in n.names:
                    bad.add((x.asname or x.name).split('.')[0])
        if isinstance(node, ast.Module):
            return seen
        for k, vs in simple.items():
            if stores.get(k) != len(vs) or k in seen or k in bad or k in scope.globals:
                bad.add(k)
        for rnd in range(2):
            for k, vs in simple.items():
                if k in bad or k in seen:
                    continue
                ts = [self.typeof(v, scope, cls, seen) for v in vs]
                if ts and ts[0] is not None and all(t == ts[0] for t in ts):
                    seen[k] = ts[0]
        return {k: v for k, v in seen.items() if k not in bad}

    def of_value(self, v):
        if isinstance(v, Ref):
            h = self.I.obj(v)
            if h.kind == 'module':
                return ('module', v)
            if self.iscls(v):
                return ('class', v)
            if h.kind == 'func':
                return ('func', v, False)
        if isinstance(v, Op) and v.op == 'ext':
            return ('ext', v.args[0])
        if isinstance(v, Op) and v.op in ('staticmethod', 'classmethod'):
            t = self.of_value(v.args[0])
            return ('func', t[1], v.op == 'classmethod') if t else None
        return None

    def typeof(self, e, scope, cls, types):
        if isinstance(e, ast.Name):
            s = self.lookup(e.id, scope)
            if s is scope and not isinstance(scope.node, ast.Module):
                return types.get(e.id)
            if s == 'global' and self.ns is not None and e.id not in self.stores:
                return self.of_value(self.ns.get(e.id))
            return None
        if isinstance(e, ast.Attribute):
            t = self.typeof(e.value, scope, cls, types)
            return self.member(t, e.attr)[1] if t else None
        if isinstance(e, ast.Call):
            t = self.typeof(e.func, scope, cls, types)
            if t and t[0] == 'class' and not self.I.obj(t[1]).meta.builtin:
                return ('inst', t[1], False)
            return None
        for k, ty in ((ast.List, list), (ast.ListComp, list), (ast.Dict, dict), (ast.Set, set), (ast.Tuple, tuple)):
            if isinstance(e, k):
                return ('py', ty)
        if isinstance(e, ast.Constant) and type(e.value) in EXTRA:
            return ('py', type(e.value))
        return None

    def member(self, t, name):
        """(exists: True, False or None, type)"""
        if t[0] == 'module':
            v = self.I.obj(t[1]).d.get(name)
            if v is None:
                if name.startswith('__') and name.endswith('__'):
                    return None, None
                for p, m in self.I.modules.items():
                    if m == t[1]:
                        stores = {x for n in ast.walk(loader.parse_file(p)[1]) if isinstance(n, ast.Global) for x in n.names} if p.endswith('.py') else set()
                        if name in stores:
                            return True, None
                return False, None
            return True, self.of_value(v)
        if t[0] == 'class':
            v = self.I.class_attr(t[1], name)
            if v is None:
                if name.startswith('__') or self.outside_bases(t[1]) or self.I.obj(t[1]).cls is not None and name in ('mro',):
                    return None, None
                return False, None
            ty = self.of_value(v)
            if ty and ty[0] == 'func' and not isinstance(v, Op):
                ty = ('func', ty[1], False)
            return True, ty
        if t[0] == 'inst':
            c, sure_self = t[1], t[2]
            v = self.I.class_attr(c, name)
            if v is not None:
                ty = self.of_value(v)
                if ty and ty[0] == 'func':
                    return True, ('func', ty[1], not (isinstance(v, Op) and v.op == 'staticmethod'), sure_self)
                return True, ty if not sure_self else None
            if name.startswith('__') and name.endswith('__'):
                return None, None
            cs = self.subs.get(c, {c}) if sure_self else {c}
            for k in cs:
                at = self.instance_attrs(k)
                if name in at or '*' in at:
                    return True, None
                if self.I.class_attr(k, name) is not None or self.I.class_attr(k, '__getattr__') is not None:
                    return True, None
            if self.outside_bases(c):
                return None, None
            if name in self.assigned_anywhere():
                return None, None
            return False, None
        if t[0] == 'ext':
            full = t[1] + '.' + name
            ok = self.real(full)
            return ok, ('ext', full) if ok else None
        if t[0] == 'py':
            return hasattr(t[1], name) or name in EXTRA.get(t[1], ()), None
        return None, None

    def assigned_anywhere(self):
        """attribute names stored on anything but self"""
        if not hasattr(self, '_anywhere'):
            self._anywhere = set()
            for p in loader.lib_files():
                for n in ast.walk(loader.parse_file(p)[1]):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and not (isinstance(n.value, ast.Name) and n.value.id == 'self'):
                        self._anywhere.add(n.attr)
        return self._anywhere

    ALIAS = {'np': 'numpy', 'etree': 'xml.etree.ElementTree', 'minidom': 'xml.dom.minidom', 'builtins': 'builtins'}

    def real(self, full):
        """does the dotted name exist in the standard library or numpy? None when unknown"""
        parts = full.split('.')
        parts = self.ALIAS.get(parts[0], parts[0]).split('.') + parts[1:]
        if parts[0] in OPAQUE or '.'.join(parts) in STDOLD:
            return None if parts[0] in OPAQUE else True
        if parts[0] == 'numpy' and len(parts) == 2 and parts[1] in NPOLD:
            return True
        if parts[0] == 'builtins':
            return None
        for k in range(len(parts), 0, -1):
            try:
                m = importlib.import_module('.'.join(parts[:k]))
            except Exception:
                continue
            for a in parts[k:]:
                if not hasattr(m, a):
                    return False
                m = getattr(m, a)
            return True
        return None

    # ------------------------------------------------------------ nodes
    def visit(self, n, scope, cls, types):
        prot = id(n) in self.protected
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            self.counts['names'] += 1
            if self.lookup(n.id, scope) is None:
                self.add('name', n, "name '%s' is not defined" % n.id, not prot)
        elif isinstance(n, ast.Attribute):
            self.counts['attributes'] += 1
            t = self.typeof(n.value, scope, cls, types)
            if t is not None and isinstance(n.ctx, ast.Load):
                ok, _ = self.member(t, n.attr)
                if ok is False:
                    self.add('attribute', n, "%s has no attribute '%s'" % (self.show(t), n.attr), not prot)
            elif isinstance(n.ctx, ast.Load) and n.attr not in self.all_names():
                self.add('attribute', n, "no object has an attribute '%s'" % n.attr, not prot and not self.opaque())
        elif isinstance(n, ast.Call):
            self.counts['calls'] += 1
            self.call(n, scope, cls, types, prot)
        elif isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod):
            self.format(n, prot)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            self.counts['imports'] += 1
            self.imports(n, prot)

    def opaque(self):
        for n in ast.walk(self.tree):
            if isinstance(n, ast.Import) and any(x.name.split('.')[0] in OPAQUE for x in n.names):
                return True
        return False

    def show(self, t):
        if t[0] in ('module', 'class', 'inst'):
            m = self.I.obj(t[1]).meta
            nm = getattr(m, 'name', None)
            if nm is None:
                nm = next((loader.rel(p) for p, x in self.I.modules.items() if x == t[1]), 'module')
            return {'module': 'module %s', 'class': 'class %s', 'inst': '%s object'}[t[0]] % nm
        if t[0] == 'py':
            return t[1].__name__
        return t[1]

    def all_names(self):
        if self.universe is None:
            u = set()
            import types as _t
            for ty in (int, float, complex, str, bytes, list, dict, tuple, set, frozenset, slice, object, type, bytearray, memoryview, property, Exception, OSError, SyntaxError,
                       UnicodeDecodeError, SystemExit, StopIteration, ImportError, range, enumerate, zip, _t.FunctionType, _t.MethodType, _t.ModuleType, _t.CodeType, _t.FrameType, _t.TracebackType, _t.GeneratorType):
                u |= set(dir(ty))
            for s in EXTRA.values():
                u |= s
            mods = '''os os.path sys math struct array io gzip string itertools functools collections copy re random time datetime xml.etree.ElementTree xml.dom.minidom
                xml.dom numpy optparse argparse multiprocessing multiprocessing.pool multiprocessing.context multiprocessing.managers multiprocessing.synchronize timeit traceback json
                tempfile shutil glob logging operator bisect decimal fractions contextlib subprocess codecs zipfile tarfile urllib.parse pprint warnings threading queue types'''.split()
            for m in mods:
                try:
                    mod = importlib.import_module(m)
                except Exception:
                    continue
                for k in dir(mod):
                    u.add(k)
                    v = getattr(mod, k, None)
                    if isinstance(v, type):
                        u |= set(dir(v))
            u |= {'next', 'func_name', 'im_func', 'im_class', 'im_self', 'message', 'maxint', 'text', 'tail', 'attrib', 'tag', 'clear', 'st_size', 'st_mtime', 'exc_info', 'filename', 'errno', 'strerror', 'pid',
                  'toprettyxml', 'toxml', 'getElementsByTagName', 'firstChild', 'nodeValue', 'childNodes', 'documentElement', 'add_option', 'dtype', 'shape', 'flat'}
            for p in loader.lib_files():
                for n in ast.walk(loader.parse_file(p)[1]):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                        u.add(n.attr)
                    elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                        u.add(n.name)
                    elif isinstance(n, ast.ClassDef):
                        pass
                    elif isinstance(n, (ast.Import, ast.ImportFrom)):
                        for x in n.names:
                            u |= set((x.asname or x.name).split('.'))
                    elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        u.add(n.id)
                    elif isinstance(n, ast.keyword) and n.arg:
                        u.add(n.arg)
                    elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('add_option', 'add_argument'):
                        for a in n.args:
                            if isinstance(a, ast.Constant) and isinstance(a.value, str):
                                u.add(a.value.lstrip('-').replace('-', '_'))
                        for k in n.keywords:
                            if k.arg == 'dest' and isinstance(k.value, ast.Constant):
                                u.add(k.value.value)
            # the attributes of OpenImageIO and PyOpenColorIO objects that the stand-ins have
            import os
            d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'checks', 'stubs')
            for f in ('oiio.py', 'ocio.py', 'mp.py'):
                for n in ast.walk(ast.parse(open(os.path.join(d, f)).read())):
                    if isinstance(n, ast.FunctionDef):
                        u.add(n.name)
                    elif isinstance(n, ast.Attribute):
                        u.add(n.attr)
                    elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        u.add(n.id)
            self.universe = u
        return self.universe

    def imports(self, n, prot):
        import os
        here = os.path.dirname(self.path)

        def exists(name):
            p = os.path.join(here, *name.split('.'))
            if os.path.isfile(p + '.py') or os.path.isfile(os.path.join(p, '__init__.py')):
                return p + '.py' if os.path.isfile(p + '.py') else os.path.join(p, '__init__.py')
            for base in (loader.PYROOT, loader.ACES):
                p = os.path.join(base, *name.split('.'))
                if os.path.isfile(p + '.py') or os.path.isfile(os.path.join(p, '__init__.py')):
                    return p + '.py' if os.path.isfile(p + '.py') else os.path.join(p, '__init__.py')
            return self.real(name)
        for x in n.names:
            if isinstance(n, ast.Import):
                if exists(x.name) is False or exists(x.name) is None and x.name.split('.')[0] not in OPAQUE:
                    self.add('import', n, 'no module named %s' % x.name, not prot)
            elif n.level == 0:
                w = exists(n.module)
                if w is None and n.module.split('.')[0] not in OPAQUE:
                    self.add('import', n, 'no module named %s' % n.module, not prot)
                elif isinstance(w, str) and x.name != '*':
                    m = self.I.modules.get(os.path.abspath(w))
                    if m is not None and x.name not in self.I.obj(m).d and exists(n.module + '.' + x.name) in (None, False):
                        self.add('import', n, 'module %s has no %s' % (n.module, x.name), not prot)
                elif w is True and x.name != '*' and self.real(n.module + '.' + x.name) is False:
                    self.add('import', n, 'module %s has no %s' % (n.module, x.name), not prot)

    def format(self, n, prot):
        if not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            return
        self.counts['formats'] += 1
        s = n.left.value
        import re
        specs = re.findall(r'%(\(\w+\))?[-+ #0]*(\*|\d+)?(?:\.(\*|\d+))?[hlL]?(.)', s)
        if any(x[0] for x in specs):
            return
        want = 0
        for _, w, p, c in specs:
            if c == '%':
                continue
            if c not in 'diouxXeEfFgGcrsa':
                self.add('format', n, 'format %r has the unknown conversion %%%s' % (s[:40], c), not prot)
                return
            want += 1 + (w == '*') + (p == '*')
        if isinstance(n.right, ast.Tuple):
            if any(isinstance(e, ast.Starred) for e in n.right.elts):
                return
            if len(n.right.elts) != want:
                self.add('format', n, 'format %r takes %d arguments, %d are given' % (s[:40], want, len(n.right.elts)), not prot)
        elif isinstance(n.right, (ast.Constant, ast.List, ast.BinOp, ast.ListComp)) and not (isinstance(n.right, ast.BinOp)) and want != 1:
            self.add('format', n, 'format %r takes %d arguments, 1 is given' % (s[:40], want), not prot)

    def call(self, n, scope, cls, types, prot):
        if any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
            return
        t = self.typeof(n.func, scope, cls, types)
        if t is None:
            return
        extra = 0
        if t[0] == 'class':
            if self.I.obj(t[1]).meta.builtin or self.outside_bases(t[1]):
                return
            init = self.I.class_attr(t[1], '__init__')
            if init is None:
                if n.args or n.keywords:
                    self.add('arguments', n, '%s() takes no arguments' % self.I.obj(t[1]).meta.name, not prot)
                return
            f = self.of_value(init)
            if f is None:
                return
            fns, extra = [f[1]], 1
        elif t[0] == 'func':
            fns = [t[1]]
            extra = 1 if t[2] else 0
            if len(t) > 3 and t[3]:
                # self.method: any overriding method may be the target; each has to accept the call
                nm = n.func.attr
                for k in sorted(self.subs.get(types[n.func.value.id][1] if isinstance(n.func.value, ast.Name) and n.func.value.id in types else None, ()), key=lambda r: r.oid):
                    v = self.I.class_attr(k, nm)
                    f = self.of_value(v) if v is not None and not isinstance(v, Op) else None
                    if f and f[0] == 'func' and f[1] not in fns:
                        fns.append(f[1])
        else:
            return
        for f in fns:
            node = self.fnode(f)
            if node is None:
                continue
            msg = arity(node.args, len(n.args) + extra, [k.arg for k in n.keywords])
            if msg:
                self.add('arguments', n, '%s() %s' % (getattr(node, 'name', '<lambda>'), msg), not prot)
                break

    def fnode(self, f):
        m = self.I.obj(f).meta
        for x in (m if isinstance(m, tuple) else (m,)):
            if isinstance(x, (ast.FunctionDef, ast.Lambda)):
                return x
            if hasattr(x, 'node') and isinstance(x.node, (ast.FunctionDef, ast.Lambda)):
                return x.node
        return None

    # ------------------------------------------------------------ definite assignment
    def assigned(self, fn, scope):
        """uses of locals that no or not every path assigns before"""
        locs = scope.bound - set(scope.params)
        ever = {}

        def targets(t):
            return {x.id for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}

        def use(e, st, may):
            """uses inside an expression, in evaluation order as far as it matters"""
            if e is None:
                return
            if isinstance(e, ast.Lambda) or isinstance(e, (ast.FunctionDef, ast.ClassDef)):
                return
            if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                s2, m2 = set(st), set(may)
                for g in e.generators:
                    use(g.iter, s2, m2)
                    s2 |= targets(g.target)
                    m2 |= targets(g.target)
                    for c in g.ifs:
                        use(c, s2, m2)
                for x in ([e.elt] if not isinstance(e, ast.DictComp) else [e.key, e.value]):
                    use(x, s2, m2)
                return
            if isinstance(e, ast.Name):
                if isinstance(e.ctx, (ast.Load, ast.Del)) and e.id in locs:
                    self.counts['uses of locals'] += 1
                    if st is not None and e.id not in st:
                        self.add('unbound', e, "local variable '%s' is %s assigned before it is used" % (e.id, 'not always' if e.id in may else 'never'), e.id not in may)
                return
            for c in ast.iter_child_nodes(e):
                use(c, st, may)

        # state: (must, may) or None when unreachable
        class L(object):
            pass

        def join(*ss):
            ss = [s for s in ss if s is not None]
            if not ss:
                return None
            must, may = set(ss[0][0]), set()
            for a, b in ss:
                must &= a
                may |= b
            return must, may

        def block(body, s, loop):
            for x in body:
                if s is None:
                    return None
                s = stmt(x, s, loop)
            return s

        def E(e, s):
            if s is not None and e is not None:
                use(e, s[0], s[1])

        def store(t, s):
            for x in ast.walk(t):
                if isinstance(x, (ast.Subscript, ast.Attribute)):
                    for c in ast.iter_child_nodes(x):
                        E(c, s)
                    break
            ns = targets(t)
            return s[0] | ns, s[1] | ns

        def true(e):
            return isinstance(e, ast.Constant) and bool(e.value) or isinstance(e, ast.Name) and e.id == 'True'

        def stmt(x, s, loop):
            if isinstance(x, ast.Assign):
                E(x.value, s)
                for t in x.targets:
                    s = store(t, s)
                return s
            if isinstance(x, ast.AugAssign):
                if isinstance(x.target, ast.Name):
                    E(ast.copy_location(ast.Name(x.target.id, ast.Load()), x), s)
                else:
                    E(x.target, s)
                E(x.value, s)
                return store(x.target, s)
            if isinstance(x, (ast.Expr, ast.Assert, ast.Delete, ast.Print if hasattr(ast, 'Print') else ast.Expr)):
                for c in ast.iter_child_nodes(x):
                    E(c, s)
                if isinstance(x, ast.Delete):
                    d = {t.id for t in x.targets if isinstance(t, ast.Name)}
                    return s[0] - d, s[1] - d
                return s
            if isinstance(x, (ast.Return, ast.Raise)):
                for c in ast.iter_child_nodes(x):
                    E(c, s)
                return None
            if isinstance(x, ast.Break):
                if loop:
                    loop.brk.append(s)
                return None
            if isinstance(x, ast.Continue):
                if loop:
                    loop.cont.append(s)
                return None
            if isinstance(x, ast.If):
                E(x.test, s)
                return join(block(x.body, s, loop), block(x.orelse, s, loop))
            if isinstance(x, (ast.For, ast.While)):
                lp = L()
                lp.brk, lp.cont = [], []
                may0 = set(s[1])
                for b in x.body:
                    for n in ast.walk(b):
                        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                            may0.add(n.id)
                if isinstance(x, ast.For):
                    E(x.iter, s)
                    inn = store(x.target, (s[0], may0))
                    block(x.body, inn, lp)
                    out = join(s, (s[0], may0 | targets(x.target)))
                    out = block(x.orelse, out, loop) if x.orelse else out
                else:
                    E(x.test, s)
                    end = block(x.body, (s[0], may0), lp)
                    out = None if true(x.test) else (s[0], may0)
                    if x.orelse and out is not None:
                        out = block(x.orelse, out, loop)
                return join(out, *lp.brk)
            if isinstance(x, ast.Try):
                may0 = set(s[1])
                for b in x.body:
                    for n in ast.walk(b):
                        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                            may0.add(n.id)
                end = block(x.body, s, loop)
                if x.orelse and end is not None:
                    end = block(x.orelse, end, loop)
                outs = [end]
                for h in x.handlers:
                    hs = (s[0] | ({h.name} if h.name else set()), may0 | ({h.name} if h.name else set()))
                    E(h.type, s)
                    outs.append(block(h.body, hs, loop))
                o = join(*outs)
                if x.finalbody:
                    f = block(x.finalbody, join(o, (s[0], may0)), loop)
                    if o is None or f is None:
                        return None
                    add = {n.id for b in x.finalbody for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} & f[0]
                    return o[0] | add, o[1] | f[1]
                return o
            if isinstance(x, ast.With):
                for i in x.items:
                    E(i.context_expr, s)
                    if i.optional_vars is not None:
                        s = store(i.optional_vars, s)
                return block(x.body, s, loop)
            if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                for d in x.decorator_list + (x.bases if isinstance(x, ast.ClassDef) else x.args.defaults):
                    E(d, s)
                return s[0] | {x.name}, s[1] | {x.name}
            if isinstance(x, (ast.Import, ast.ImportFrom)):
                ns = {(a.asname or a.name).split('.')[0] for a in x.names}
                return s[0] | ns, s[1] | ns
            for c in ast.iter_child_nodes(x):
                E(c, s)
            return s
        block(fn.body, (set(scope.params), set(scope.params)), None)


def arity(a, npos, kws):
    """None when a call with npos positional and these keyword arguments fits, else why not"""
    pos = [x.arg for x in a.posonlyargs + a.args]
    if npos > len(pos) and a.vararg is None:
        return 'takes at most %d arguments, %d are given' % (len(pos), npos)
    got = set(pos[:npos])
    for k in kws:
        if k in got:
            return "gets several values for the argument '%s'" % k
        if k not in pos and k not in [x.arg for x in a.kwonlyargs] and a.kwarg is None:
            return "has no argument '%s'" % k
        got.add(k)
    need = pos[:len(pos) - len(a.defaults)]
    miss = [x for x in need if x not in got]
    if miss:
        return "misses the argument '%s'" % miss[0]
    return None
