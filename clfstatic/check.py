"""Common driver: scenarios, obligations, verdicts, evidence."""
import sys, os, json, time, traceback, hashlib, signal
from . import interp, loader, models as M, equiv as Q
from . import terms as T
from .terms import *
from .state import *
from .logic import Facts

sys.setrecursionlimit(20000)
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class AnchorMissing(Exception):
    pass


class OutOfTime(BaseException):
    pass


def _alarm(*a):
    raise OutOfTime()


class Result(object):
    """outcome of interpreting one scenario"""

    def __init__(self, lab, value, state, raises, unmod, events, funcs):
        self.lab, self.v, self.st, self.raises, self.unmod, self.events, self.funcs = lab, value, state, raises, unmod, events, funcs

    @property
    def facts(self):
        return self.st.facts if self.st is not None else Facts()

    def do(self, fn):
        """evaluate engine-level code in the final state (does not disturb it)"""
        I = self.lab.I
        if self.st is None:
            return None
        save = I.st
        I.st = self.st.fork()
        I.quiet += 1
        rs, I.raises = I.raises, []
        try:
            try:
                return I.split_eval(fn)
            except Dead:
                return None
        finally:
            I.quiet -= 1
            I.st = save
            I.raises = rs

    def item(self, v, *idx):
        def f():
            x = v
            for i in idx:
                x = self.lab.I.getitem(x, wrap(i))
            return x
        return self.do(f)

    def length(self, v):
        return self.do(lambda: self.lab.callx('builtins.len', v))

    def attr(self, o, name):
        return self.do(lambda: self.lab.I.getattr(o, name, default=T.ABSENT if hasattr(T, 'ABSENT') else None))

    def obj(self, v):
        return self.st.get(v.oid)


RUN_HOOKS = []


class Lab(object):
    """an interpreter with the CLF packages loaded; every scenario starts from the same state"""

    def __init__(self, facts=()):
        self.I = interp.Interp()
        self.facts0 = facts
        I = self.I
        self.clf = self._load(loader.ACES + '/clf/__init__.py', 'clf')
        self._lut = None
        self.base = I.st.fork()
        self.basemods = dict(I.modules)
        self.funcs = {}

    def _load(self, path, name):
        if not os.path.exists(path):
            raise AnchorMissing('module %s' % path)
        I = self.I
        m = I.run(lambda: I.load_module(path, name))
        if m is None:
            raise AnchorMissing('module %s cannot be imported: %s' % (loader.rel(path), self.raise_text(I.raises)))
        return m

    def load(self, path, name):
        """load another module into the base state"""
        self.I.st = self.base.fork()
        self.I.modules = dict(self.basemods)
        m = self._load(path, name)
        self.base = self.I.st.fork()
        self.basemods = dict(self.I.modules)
        return m

    def raise_text(self, raises):
        out = []
        for st, exc, w in raises:
            h = st.get(exc.oid) if isinstance(exc, Ref) else None
            nm = st.get(h.cls.oid).meta.name if h is not None and h.cls is not None else '?'
            msg = h.d.get('message') if h is not None else None
            if isinstance(h.d.get('args') if h else None, Tup) and h.d['args'].items:
                msg = h.d['args'].items[0]
            out.append('%s(%s) at %s:%s in %s' % (nm, short(msg, 120) if msg is not None else '', loader.rel(w[0]) if w[0] else '?', w[1], w[2]))
        return '; '.join(out)

    def exc_name(self, r):
        st, exc, w = r
        if not isinstance(exc, Ref):
            return '?'
        h = st.get(exc.oid)
        return st.get(h.cls.oid).meta.name

    def run(self, fn, facts=(), start=None):
        I = self.I
        I.st = (start.st if start is not None else self.base).fork()
        if start is None:
            I.modules = dict(self.basemods)
            I.vfs = {}
        I.prints = []
        I.events = []
        I.unmodelled = []
        I.callstack = []
        I.depth = 0
        I.loops = []
        I.rets = None
        I.quant = []
        I.loop_reads = []
        I.quiet = 0
        I.funcs_seen = {}
        for f in facts:
            I.st.assume(f)
        v = I.run(fn)
        self.funcs.update(I.funcs_seen)
        r = Result(self, v, I.st, list(I.raises), list(I.unmodelled), list(I.events), dict(I.funcs_seen))
        for h in RUN_HOOKS:
            h(r)
        return r

    # ---- helpers usable inside a scenario
    def cls(self, name, mod=None):
        m = mod if mod is not None else self.clf
        h = self.I.obj(m)
        if name not in h.d and mod is None:
            for path in sorted(self.I.modules):
                m2 = self.I.modules[path]
                if self.I.st.peek(m2.oid) is not None and name in self.I.obj(m2).d:
                    return self.I.getattr(m2, name)
        if name not in h.d:
            raise AnchorMissing('%s in module %s' % (name, h.meta[0]))
        return self.I.getattr(m, name)

    def new(self, name, *a, **k):
        return self.I.call(self.cls(name), [wrap(x) for x in a], {n: wrap(x) for n, x in k.items()})

    def call(self, o, meth, *a, **k):
        return self.I.call(self.I.getattr(o, meth), [wrap(x) for x in a], {n: wrap(x) for n, x in k.items()})

    def fcall(self, name, *a, **k):
        return self.I.call(self.cls(name), [wrap(x) for x in a], {n: wrap(x) for n, x in k.items()})

    def callx(self, ext, *a, **k):
        return self.I.call(Op('ext', (ext,), 'ext'), [wrap(x) for x in a], {n: wrap(x) for n, x in k.items()})

    def list(self, items):
        return self.I.newlist([wrap(x) for x in items])

    def arr(self, name, n, dt='f4'):
        return M.named_arr(self.I, name, wrap(n), dt=dt)

    def nlist(self, name, n, ty='float'):
        return M.named_list(self.I, name, wrap(n), ty)

    def features(self, v):
        self.I.call(self.cls('setFeatureCompatibility'), [wrap(v)], {})

    def where_of(self, clsname, meth=None):
        """construct name for reports"""
        return clsname + ('.' + meth if meth else '')


class Check(object):
    def __init__(self, pid, tier='quick', rule=''):
        self.pid, self.tier, self.rule = pid, tier, rule
        self.t0 = time.time()
        self.proved = 0
        self.total = 0
        self.violations = []
        self.undecided = []
        self.known_hit = []
        self.obligs = []
        self.notes = []
        self.funcs = {}
        self.seen = set()
        self.known = load_known(pid)
        # seconds for the whole check and for one scenario
        self.limit, self.each = (600, 150) if tier == 'quick' else (3000, 900)

    # ---------------------------------------------------------------- verdicts
    def ok(self, name, n=1):
        self.total += n
        self.proved += n
        self.obligs.append((name, 'proved'))

    def unknown(self, name, why):
        self.total += 1
        self.undecided.append((name, why))
        self.obligs.append((name, 'undecided'))

    def fail(self, name, construct, msg):
        self.total += 1
        self.obligs.append((name, 'violated'))
        key = '%s @ %s' % (name.split(' | ')[0], construct)
        for k in self.known:
            if k in key or k in ('%s @ %s' % (name, construct)):
                self.known_hit.append((k, name, construct, msg))
                return
        if key in self.seen:
            return
        self.seen.add(key)
        self.violations.append((name, construct, msg))

    def equal(self, name, construct, actual, expected, facts=None, ranges=None, n=400):
        if actual is None:
            self.fail(name, construct, 'no value is produced')
            return False
        s, w = Q.equal(wrap(actual), wrap(expected), facts, ranges, n)
        if s == 'proved':
            self.ok(name)
            return True
        if s == 'refuted':
            self.fail(name, construct, w)
        else:
            self.unknown(name, '%s (%s)' % (w, construct))
        return False

    def true(self, name, construct, cond, facts=None, ranges=None, msg=None):
        """the condition must hold under the facts"""
        if isinstance(cond, bool):
            cond = Const(cond)
        facts = facts or Facts()
        if isinstance(cond, Unk):
            return self.unknown(name, repr(cond))
        if facts.decide(cond) is True:
            self.ok(name)
            return True
        s, w = Q.equal(cond, TRUE, facts, ranges)
        if s == 'proved':
            self.ok(name)
            return True
        elif s == 'refuted':
            self.fail(name, construct, (msg + ': ' if msg else '') + w)
        else:
            self.unknown(name, w)
        return False

    def no_raise(self, name, res, ranges=None, allow=(), construct=None):
        """no exception (other than allowed) escapes the scenario"""
        bad = False
        for r in res.raises:
            nm = res.lab.exc_name(r)
            if nm in allow:
                continue
            text = res.lab.raise_text([r])
            w = Q.feasible(r[0].facts, ranges)
            con = construct or r[2][2]
            if w is not None:
                self.fail(name, con, '%s raised for %s' % (text, w))
                bad = True
            elif not r[0].facts.infeasible():
                self.unknown(name, 'possible %s' % text)
                bad = True
        if not bad:
            self.ok(name)
        return not bad

    def must_raise(self, name, construct, res, excs, msg=''):
        """the scenario ends in one of the exceptions on every path"""
        if res.st is not None and not res.facts.infeasible():
            if res.unmod:
                self.unknown(name, 'unmodelled: %s' % (res.unmod[:2],))
            else:
                self.fail(name, construct, msg or 'accepted; expected %s' % '/'.join(excs))
            return False
        for r in res.raises:
            if excs and res.lab.exc_name(r) not in excs:
                self.fail(name, construct, 'raised %s instead of %s' % (res.lab.raise_text([r]), '/'.join(excs)))
                return False
        self.ok(name)
        return True

    def scenario(self, name, fn):
        """run engine-level checking code; engine incompleteness becomes 'undecided'"""
        left = self.limit - (time.time() - self.t0)
        if left <= 0 or (self.violations and left < self.limit - 90):
            return self.unknown(name, 'not analysed: time budget used')
        old = signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, max(1, min(left, self.each)))
        try:
            return fn()
        except AnchorMissing:
            raise
        except OutOfTime:
            self.unknown(name, 'not analysed within the time budget')
        except Exception as e:
            if os.environ.get('CLF_DEBUG'):
                traceback.print_exc()
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.unknown(name, 'analysis incomplete: %s %s (%s:%s)' % (type(e).__name__, str(e)[:160], os.path.basename(tb.filename), tb.lineno))
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)

    def analysed(self, lab):
        for (p, qn), l in lab.funcs.items():
            self.funcs['%s:%s' % (loader.rel(p), qn)] = l

    # ---------------------------------------------------------------- parallel evaluation
    def parallel(self, thunks, workers=8):
        """run independent groups of obligations in forked workers"""
        import pickle
        workers = max(1, min(workers, len(thunks), os.cpu_count() or 1))
        if os.environ.get('CLF_SERIAL') or workers == 1:
            for t in thunks:
                t()
            return
        procs = []
        sys.stdout.flush()
        for w in range(workers):
            r, wfd = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                code = 0
                try:
                    self.proved = self.total = 0
                    self.violations, self.undecided, self.known_hit, self.obligs, self.notes, self.funcs = [], [], [], [], [], {}
                    missing = None
                    try:
                        for t in thunks[w::workers]:
                            t()
                    except AnchorMissing as e:
                        missing = str(e)
                    data = pickle.dumps((self.proved, self.total, self.violations, self.undecided, self.known_hit, self.obligs, self.notes, self.funcs, missing))
                    with os.fdopen(wfd, 'wb') as f:
                        f.write(data)
                except BaseException:
                    traceback.print_exc()
                    code = 3
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
            os.close(wfd)
            procs.append((pid, r))
        missing = None
        for pid, r in procs:
            with os.fdopen(r, 'rb') as f:
                data = f.read()
            _, status = os.waitpid(pid, 0)
            if status or not data:
                self.unknown('worker', 'an analysis worker ended with status %s' % status)
                continue
            p, t, vi, un, kn, ob, no, fu, mi = pickle.loads(data)
            self.proved += p
            self.total += t
            for n, c, m in vi:
                key = '%s @ %s' % (n.split(' | ')[0], c)
                if key not in self.seen:
                    self.seen.add(key)
                    self.violations.append((n, c, m))
            self.undecided += un
            self.known_hit += kn
            self.obligs += ob
            self.notes += no
            self.funcs.update(fu)
            missing = missing or mi
        if missing:
            raise AnchorMissing(missing)

    # ---------------------------------------------------------------- finish
    def finish(self, explanation, assumptions=(), floor=1):
        ev = {
            'property': self.pid, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'other',
            'coverage': {
                'explanation': explanation,
                'rule': self.rule,
                'obligations': self.total, 'proved': self.proved, 'undecided': len(self.undecided),
                'violated': len(self.violations), 'known': len(self.known_hit),
                'functions_analysed': sorted(self.funcs)[:400],
                'functions_analysed_count': len(self.funcs),
                'undecided_list': ['%s: %s' % u for u in self.undecided][:60],
                'samples': [n for n, _ in self.obligs][:80],
                'notes': self.notes[:60],
            },
            'assumptions': list(assumptions),
            'wall_s': round(time.time() - self.t0, 2),
            'violations': len(self.violations),
        }
        d = os.environ.get('CLF_EVIDENCE') or os.path.join(VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for n, w in self.undecided[:40]:
            print('UNDECIDED property=%s %s: %s' % (self.pid, n, w[:300]))
        shown = set()
        for k, n, c, m in self.known_hit:
            if k not in shown:
                shown.add(k)
                print('KNOWN-FINDING: property=%s %s: %s' % (self.pid, k, m[:300]))
        print('%s: %d obligations, %d proved, %d undecided, %d violated, %d known; %d functions analysed; %.1fs' % (
            self.pid, self.total, self.proved, len(self.undecided), len(self.violations), len(self.known_hit), len(self.funcs), time.time() - self.t0))
        if self.violations:
            rp = os.path.join(d, self.pid + '.violations.txt')
            with open(rp, 'w') as f:
                for n, c, m in self.violations:
                    f.write('rule instance: %s\nconstruct: %s\n%s\n\n' % (n, c, m))
            for n, c, m in self.violations[:15]:
                print('  %s @ %s: %s' % (n, c, m[:500]))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        if self.proved < floor:
            print('ANALYSIS-BROKEN property=%s: only %d obligations decided (floor %d)' % (self.pid, self.proved, floor))
            return 2
        return 0


def load_known(pid):
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            pre = 'known: property=%s ' % pid
            if l.startswith(pre):
                body = l[len(pre):]
                out.append(body.split(' -- ')[0].strip())
    return out
