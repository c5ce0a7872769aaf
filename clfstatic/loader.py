"""Locates and parses the Python-2 sources of /repo (no execution)."""
import ast, os, sys, warnings

REPO = os.environ.get('CLF_REPO', '/repo')
PYROOT = os.path.join(REPO, 'python')
ACES = os.path.join(PYROOT, 'aces')

_cache = {}


class LoadError(Exception):
    pass


def parse_file(path):
    path = os.path.abspath(path)
    if path in _cache:
        return _cache[path]
    try:
        src = open(path, encoding='utf-8', errors='replace').read()
    except IOError as e:
        raise LoadError('cannot read %s: %s' % (path, e))
    src = src.replace('\r\n', '\n')
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            tree = ast.parse(src, path)
        except SyntaxError:
            tree = ast.parse(_py2_to_3(src, path), path)
    _cache[path] = (src, tree)
    return src, tree


def _py2_to_3(src, path):
    """lib2to3 with syntax-only fixers (semantics are interpreted as Python 2)"""
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        from lib2to3 import refactor
        for fixers in (['except', 'raise', 'exec', 'numliterals', 'ne', 'repr', 'paren', 'tuple_params'],
                       ['except', 'raise', 'exec', 'numliterals', 'ne', 'repr', 'paren', 'tuple_params', 'print']):
            rt = refactor.RefactoringTool(['lib2to3.fixes.fix_' + f for f in fixers],
                                          None if 'print' in fixers else {'print_function': True})
            try:
                out = str(rt.refactor_string(src if src.endswith('\n') else src + '\n', path))
                ast.parse(out)
                return out
            except Exception as e:
                err = e
    raise LoadError('cannot parse %s: %s' % (path, err))


def lib_files():
    """all non-test library and tool sources"""
    out = []
    for base, dirs, files in os.walk(PYROOT):
        dirs[:] = sorted(d for d in dirs if d not in ('tests', '__pycache__'))
        for f in sorted(files):
            p = os.path.join(base, f)
            if f.endswith('.py'):
                out.append(p)
            elif os.path.basename(base) == 'bin':
                with open(p, 'rb') as fh:
                    if b'python' in fh.readline():
                        out.append(p)
    return out


def rel(path):
    return os.path.relpath(path, REPO)
