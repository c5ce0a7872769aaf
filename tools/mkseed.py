"""builds /verif/seeded/<id> from tools/seeds/*.py descriptions and confirms each one in a scratch copy of /repo (development helper)"""
import sys, os, subprocess, shutil, json, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOTC = subprocess.check_output(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD'], text=True).strip()
DEMO_SH = '''#!/bin/sh
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH=${PY2COMPAT:-/opt/vp/py2} PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python "$here/demo.py"
'''
DEMO_HEAD = '''import sys, os, tempfile, shutil
sys.path.insert(0, os.path.join(os.getcwd(), 'python'))
import py2compat
import numpy as np
'''


def stable(b):
    return b['stable'] if 'stable' in b else b['passed']


def passed(r):
    p = r.get('passed', r)
    return set(p)


def make(seed, full=True):
    d = os.path.join(V, 'seeded', seed['id'])
    w = tempfile.mkdtemp(prefix='seed', dir='/tmp')
    try:
        subprocess.check_call(['cp', '-a', '/repo/.', w])
        for f, old, new in seed['edits']:
            p = os.path.join(w, f)
            s = open(p).read()
            if s.count(old) != 1:
                return '%s: %d matches of %r in %s' % (seed['id'], s.count(old), old[:60], f)
            # the changed lines must come from the original repository
            s2 = s.replace(old, new)
            open(p, 'w').write(s2)
        diff = subprocess.check_output(['git', '-C', w, 'diff'], text=True)
        # removed lines: check origin
        cur, ln = None, 0
        removed = 0
        for l in diff.split('\n'):
            if l.startswith('--- a/'):
                cur = l[6:]
                bl = subprocess.check_output(['git', '-C', '/repo', 'blame', '-l', '--root', cur], text=True).split('\n')
            elif l.startswith('@@'):
                ln = int(l.split()[1][1:].split(',')[0]) - 1
            elif l.startswith('-') and not l.startswith('---'):
                if not bl[ln].lstrip('^').startswith(ROOTC[:38]):
                    return '%s: changes a line that is not original: %s' % (seed['id'], l)
                removed += 1
                ln += 1
            elif l.startswith(' '):
                ln += 1
        if not removed:
            return '%s: no original line is changed' % seed['id']
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.sh', 'w').write(DEMO_SH)
        open(d + '/demo.py', 'w').write(DEMO_HEAD + seed['demo'].strip('\n') + '\n')
        json.dump({'property': seed['property'], 'needs': seed['needs'], 'what_it_breaks': seed['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        r0 = subprocess.run(['sh', d + '/demo.sh'], cwd='/repo', capture_output=True, text=True)
        py2 = os.path.join(w, '.git', 'py2')
        shutil.copytree('/opt/vp/py2', py2)
        t = open(py2 + '/py2compat.py').read()
        open(py2 + '/py2compat.py', 'w').write(t.replace('"/repo', '"' + w))
        r1 = subprocess.run(['sh', d + '/demo.sh'], cwd=w, capture_output=True, text=True, env=dict(os.environ, PY2COMPAT=py2))
        if '-v' in sys.argv:
            print(seed['id'], r1.stderr[-300:])
        if r0.returncode != 0:
            return '%s: demo fails on the unchanged tree: %s' % (seed['id'], r0.stderr[-600:])
        if r1.returncode == 0:
            return '%s: demo passes with the patch' % seed['id']
        if full:
            # stable tests in a private copy
            env = dict(os.environ, LC_ALL='C.UTF-8', PYTHONPATH=py2, PYTEST_DISABLE_PLUGIN_AUTOLOAD='1', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', HOME='/root')
            t = tempfile.mkdtemp(prefix='seedt', dir='/tmp')
            env['TMPDIR'] = t
            x = os.path.join(t, 'junit.xml')
            r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'py2compat', '--assert=plain', '-p', 'no:cacheprovider', '--rootdir=' + w + '/python',
                                '--continue-on-collection-errors', '-o', 'junit_family=xunit2', '--junitxml=' + x,
                                '-o', 'python_files=UnitTests*.py test_*.py *_test.py', 'aces'], cwd=w + '/python', env=env, capture_output=True, text=True)
            subprocess.run(['python3', '/opt/vp/results.py', t + '/out.json', 'junit:' + x], capture_output=True)
            got = open(t + '/out.json').read() if os.path.exists(t + '/out.json') else ''
            shutil.rmtree(t)
            base = json.load(open('/opt/vp/BASELINE.json'))
            res = json.loads(got) if got else {}
            miss = [b for b in stable(base) if b not in passed(res)]
            if miss:
                return '%s: stable tests fail: %s' % (seed['id'], miss)
        return None
    finally:
        shutil.rmtree(w)


if __name__ == '__main__':
    from concurrent.futures import ThreadPoolExecutor
    files = [a for a in sys.argv[1:] if a.endswith('.py')]
    only = [a for a in sys.argv[1:] if not a.endswith('.py') and a != '-v']
    seeds = []
    for f in files:
        ns = {}
        exec(open(f).read(), ns)
        seeds += ns['SEEDS']
    if only:
        seeds = [s for s in seeds if s['id'] in only]
    with ThreadPoolExecutor(4) as ex:
        for s, r in zip(seeds, ex.map(make, seeds)):
            print(s['id'], 'OK' if r is None else 'BAD ' + r)
