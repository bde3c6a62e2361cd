"""Runs the cases of a property: symbolic exploration of the real code, solver verdict per path, replay of
every candidate counterexample (and one witness per path) on the unmodified code."""
import os, sys, json, time, math, random, signal, traceback, tempfile, shutil, struct, select
import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SX_REPO', '/repo')
INF = float('inf')


class AssumeFailed(BaseException):
    pass


class Case:
    def __init__(self, name, fn, bounds='', query_s=20, max_paths=3000, budget=300, probes=24, group=None):
        self.name, self.fn, self.bounds, self.query_s, self.max_paths, self.budget, self.probes = name, fn, bounds, query_s, max_paths, budget, probes


def flat(x):
    """values of an array / nested list / Series / scalar, in order"""
    if type(x).__name__ in ('Series', 'Index', 'DatetimeIndex', 'RangeIndex'):
        return [v for v in x.array] if type(x).__name__ == 'Series' else list(x)
    if isinstance(x, np.ndarray):
        return [v for v in (x.reshape(-1).view(np.ndarray) if x.ndim else [x[()]])]
    if isinstance(x, (list, tuple)):
        out = []
        for v in x:
            out.extend(flat(v))
        return out
    return [x]


def shape(x):
    if type(x).__name__ in ('Series', 'Index', 'DatetimeIndex', 'RangeIndex'):
        return (len(x),)
    if isinstance(x, np.ndarray):
        return x.shape
    if isinstance(x, (list, tuple)):
        if len(x) and isinstance(x[0], (list, tuple, np.ndarray)):
            return (len(x),) + shape(x[0])
        return (len(x),)
    return ()


def conc(v):
    """concrete float of a value or None"""
    if isinstance(v, np.generic):
        v = v.item()
    if isinstance(v, (bool, int, float)):
        return float(v)
    return None


# --------------------------------------------------------------------------- concrete environment
class ConEnv:
    sym = False

    def __init__(self, vals, tmp, tols=None, known=()):
        self.vals, self.tmp, self.tols, self.knownids = vals, tmp, tols or {}, set(known)
        self.res = []          # (label, ok, got, known_ok)
        self.np = np
        import pandas
        self.pd = pandas
        self.n = 0

    def _v(self, name, lo, hi):
        v = self.vals.get(name)
        if v is None:
            lo2, hi2 = max(lo, -1e3), min(hi, 1e3)
            if lo2 > hi2:
                lo2, hi2 = lo, hi
            v = 0.37 * lo2 + 0.63 * hi2
        if not lo <= v <= hi:
            if abs(v - min(max(v, lo), hi)) > 1e-9 * max(1.0, abs(v)):
                raise AssumeFailed()
            v = min(max(v, lo), hi)
        return v

    def real(self, name, lo, hi):
        return float(self._v(name, lo, hi))

    def int(self, name, lo, hi):
        return int(round(self._v(name, lo, hi)))

    def reals(self, name, n, lo, hi):
        return [self.real('%s%d' % (name, i), lo, hi) for i in range(n)]

    def choice(self, name, opts):
        opts = list(opts)
        return opts[min(len(opts) - 1, int(round(self.vals.get(name, 0))))]

    def array(self, xs):
        return np.array(xs, dtype=float)

    def iarray(self, xs):
        return np.array(xs, dtype=int)

    def field(self, name, n, lo=0, hi=None):
        hi = 10 ** n - 1 if hi is None else hi
        ds = [int(round(self.vals.get('%s.%d' % (name, i), int(str(lo).zfill(n)[i])))) for i in range(n)]
        t = ''.join(str(d) for d in ds)
        v = int(t)
        if not lo <= v <= hi:
            raise AssumeFailed()
        return t, v

    def char(self, name, chars):
        return chr(int(round(self.vals.get(name, ord(sorted(chars)[0])))))

    def num(self, name, lo, hi, isint=False):
        v = self._v('num:' + name, lo, hi)
        if isint:
            v = int(round(v))
            return str(v), v
        t = '%.6f' % v
        return t, float(t)

    def cat(self, *parts):
        return ''.join(parts)

    def file(self, name, text):
        p = os.path.join(self.tmp, name)
        with open(p, 'w', encoding='utf-8', errors='surrogateescape') as f:
            f.write(text)
        return p

    def path(self, name):
        return os.path.join(self.tmp, name)

    def read(self, path):
        with open(path) as f:
            return f.read()

    def files(self):
        return sorted(os.listdir(self.tmp))

    def mod(self, name):
        import importlib
        return importlib.import_module('shipgrav.' + name)

    def fresh(self):
        """the next mod() gives modules as in a new interpreter"""
        import sys
        for k in [k for k in sys.modules if k == 'shipgrav' or k.startswith('shipgrav.')]:
            del sys.modules[k]

    def assume(self, c):
        if not bool(c):
            raise AssumeFailed()

    def _lab(self, label):
        self.n += 1
        return '%03d %s' % (self.n, label)

    def true(self, label, c):
        try:
            ok = bool(c)
        except Exception as e:
            ok = False
        self.res.append((self._lab(label), ok, None, None))

    def fail(self, label):
        self.res.append((self._lab(label), False, None, None))

    def eq(self, label, a, b):
        self.true(label, a == b)

    def close(self, label, got, want, tol=None, rel=1e-9, known=None):
        label = self._lab(label)
        try:
            g, w = [complex_or_float(v) for v in flat(got)], [complex_or_float(v) for v in flat(want)]
        except Exception as e:
            self.res.append((label, False, None, None))
            return
        if shape(got) != shape(want) and not (len(g) == len(w) == 1):
            self.res.append((label, False, g, None))
            return
        if label in self.tols:
            tol = self.tols[label]
        if tol is None:
            tol = rel * max([abs(v) for v in w if v == v] + [1e-300])
        ok = len(g) == len(w) and all((a != a and b != b) or a == b or abs(a - b) <= tol for a, b in zip(g, w))
        kn = None
        if known and known[0] in self.knownids:
            k = [float(v) for v in flat(known[1])]
            kn = len(g) == len(k) and all((a != a and b != b) or a == b or abs(a - b) <= tol for a, b in zip(g, k))
        self.res.append((label, ok, [v if not isinstance(v, complex) else v.real for v in g], kn))

    def instant(self, label, d, us, tol=0):
        """d is the UTC instant us microseconds after 1970; naive times count as UTC"""
        import datetime, pandas as pd
        label = self._lab(label)
        try:
            t = pd.Timestamp(d)
            if t.tzinfo is None:
                t = t.tz_localize('UTC')
            g = t.value / 1000
            self.res.append((label, abs(g - us) <= tol, None, None))
        except Exception:
            self.res.append((label, False, None, None))

    def aware(self, d):
        return getattr(d, 'tzinfo', None) is not None

    def raises(self, label, exc, fn):
        try:
            fn()
        except exc:
            self.res.append((self._lab(label), True, None, None))
            return
        self.res.append((self._lab(label), False, None, None))

    def snap(self, a):
        return a.copy()

    def same(self, label, a, b):
        self.close(label, a, b, tol=0.0)

    def isnan(self, v):
        return v != v

    def And(self, *xs):
        return all(bool(x) for x in xs)

    def Or(self, *xs):
        return any(bool(x) for x in xs)

    def Not(self, x):
        return not x

    def text(self, x):
        return str(x)

    def datetime(self, *a, **k):
        import datetime
        return datetime.datetime(*a, **k)

    def let(self, x):
        return x

    def erf(self, x):
        import scipy.special
        return scipy.special.erf(x)

    def erfcinv(self, x):
        import scipy.special
        return scipy.special.erfcinv(x)

    def delta(self, seconds):
        import datetime
        return datetime.timedelta(seconds=seconds)

    def tz(self, minutes):
        import datetime
        return datetime.timezone(datetime.timedelta(minutes=minutes))

    def localtz(self, minutes):
        """the machine's own time zone is this far ahead of UTC"""
        import time
        m = int(round(minutes))
        os.environ['TZ'] = 'LOC%s%02d:%02d' % ('-' if m >= 0 else '+', abs(m) // 60, abs(m) % 60)
        time.tzset()

    def toint(self, t):
        return int(t)

    def validdate(self, y, m, d):
        import calendar
        return 1 <= d <= calendar.monthrange(int(y), int(m))[1]

    def leap(self, y):
        import calendar
        return calendar.isleap(int(y))

    def days(self, y, m, d):
        import datetime
        return datetime.date(int(y), int(m), int(d)).toordinal() - 719163


def complex_or_float(v):
    if isinstance(v, (complex, np.complexfloating)):
        v = complex(v)
        return v if v.imag else v.real
    return float(v)


# --------------------------------------------------------------------------- symbolic environment
class Obl:
    __slots__ = ('label', 'bad', 'known', 'badk', 'tol', 'got', 'pairs', 'note', 'pairsk')

    def __init__(self, label, bad, tol=None, got=None, pairs=None, known=None, badk=None, note=None):
        self.label, self.bad, self.tol, self.got, self.pairs, self.known, self.badk, self.note = label, bad, tol, got, pairs, known, badk, note
        self.pairsk = None


class SymEnv:
    sym = True

    def __init__(self, C, known=()):
        from . import npx
        self.C = C
        self.np = npx.PROXY
        from . import pdx
        self.pd = pdx.PANDAS
        self.obls = []
        self.n = 0
        self.knownids = set(known)

    def _lab(self, label):
        self.n += 1
        return '%03d %s' % (self.n, label)

    # ---- inputs
    def real(self, name, lo, hi):
        return self.C.var(name, float(lo), float(hi))

    def int(self, name, lo, hi):
        return self.C.var(name, lo, hi, isint=True)

    def reals(self, name, n, lo, hi):
        return [self.real('%s%d' % (name, i), lo, hi) for i in range(n)]

    def choice(self, name, opts):
        opts = list(opts)
        return opts[self.C.choose(name, len(opts))] if len(opts) > 1 else opts[0]

    def array(self, xs):
        from . import npx
        return npx.SArr.wrap(npx.build(xs), 'f')

    def iarray(self, xs):
        from . import npx
        return npx.SArr.wrap(npx.build(xs), 'i')

    def field(self, name, n, lo=0, hi=None):
        from .strs import SC, mk
        from .sym import S
        full = hi is None and lo == 0
        hi = 10 ** n - 1 if hi is None else hi
        ls, hs = str(lo).zfill(n), str(hi).zfill(n)
        cells = []
        v = S.const(0)
        same = True
        for i in range(n):
            a, b = (int(ls[i]), int(hs[i])) if same else (0, 9)
            if a == b:
                cells.append(str(a))
                v = v * 10 + a
                continue
            same = False
            d = self.C.var('%s.%d' % (name, i), a, b, isint=True)
            cells.append(SC(d + 48, range(48 + a, 49 + b)))
            v = v * 10 + d
        if not full:
            self.assume(v >= lo)
            self.assume(v <= hi)
        return mk(cells), v

    def char(self, name, chars):
        from .strs import SC, mk
        dom = sorted(set(ord(c) for c in chars))
        d = self.C.var(name, dom[0], dom[-1], isint=True, dom=dom)
        return mk((SC(d, dom),))

    def num(self, name, lo, hi, isint=False):
        from .strs import Num, SymStr
        v = self.C.var('num:' + name, lo, hi, isint=isint)
        return SymStr((Num(v, isint=isint, signed=lo < 0),)), v

    def cat(self, *parts):
        from .strs import join
        return join('', parts)

    def file(self, name, text):
        from .load import FS
        FS.files['/sx/' + name] = text
        return '/sx/' + name

    def path(self, name):
        return '/sx/' + name

    def read(self, path):
        from .load import FS
        return FS.files[path]

    def files(self):
        from .load import FS
        return sorted(p[4:] for p in FS.files)

    def mod(self, name):
        from .load import load
        return load('shipgrav.' + name)

    def fresh(self):
        from .load import MODS
        MODS.clear()

    def assume(self, c):
        from .sym import SymBool, Infeasible
        if isinstance(c, SymBool):
            self.C.add(c)
        elif not c:
            raise Infeasible()

    # ---- obligations
    def true(self, label, c):
        from .sym import Not, SymBool
        label = self._lab(label)
        if not isinstance(c, SymBool):
            try:
                c = bool(c)
            except Exception:
                c = False
        self.obls.append(Obl(label, Not(c)))

    def fail(self, label):
        self.obls.append(Obl(self._lab(label), True))

    def eq(self, label, a, b):
        self.true(label, a == b)

    def close(self, label, got, want, tol=None, rel=1e-9, known=None):
        from .sym import S, SymC, SymBool, And, Or
        from . import npx
        label = self._lab(label)
        try:
            g, w = [scal(v) for v in flat(got)], [scal(v) for v in flat(want)]
        except (TypeError, ValueError):
            self.obls.append(Obl(label, True, note='not numeric'))
            return
        if shape(got) != shape(want) and not (len(g) == len(w) == 1):
            self.obls.append(Obl(label, True, note='shape %s, expected %s' % (shape(got), shape(want))))
            return
        if tol is None:
            m = 0.0
            for v in w:
                m = max(m, bound(v))
            if m == INF:
                raise RuntimeError('unbounded reference: tolerance needed')
            tol = rel * max(m, 1e-300)
        bad, pairs = diffs(g, w, tol)
        o = Obl(label, bad, tol, g, pairs)
        if known and known[0] in self.knownids:
            k = [scal(v) for v in flat(known[1])]
            o.known = known[0]
            o.badk, o.pairsk = diffs(g, k, tol) if len(k) == len(g) else (True, None)
        self.obls.append(o)

    def same(self, label, a, b):
        self.close(label, a, b, tol=0.0)

    def instant(self, label, d, us, tol=0):
        from .dt import SymDT
        from .sym import lift, Or
        import pandas as pd
        label = self._lab(label)
        s = SymDT.of(d if not isinstance(d, pd.Timestamp) else d.to_pydatetime(warn=False))
        if s is None or d is pd.NaT:
            self.obls.append(Obl(label, True, note='not a time'))
            return
        df = s.inst - us
        if tol:
            bad = Or(df > tol, df < -tol)
        else:
            bad = df != 0
        self.obls.append(Obl(label, bad, tol, None, [(s.inst.p, lift(us).p)]))

    def aware(self, d):
        return getattr(d, 'tzinfo', None) is not None

    def raises(self, label, exc, fn):
        label = self._lab(label)
        try:
            fn()
        except exc:
            self.obls.append(Obl(label, False))
            return
        self.obls.append(Obl(label, True))

    def snap(self, a):
        return a.copy()

    def isnan(self, v):
        return isinstance(v, float) and v != v

    def And(self, *xs):
        from .sym import And
        return And(*xs)

    def Or(self, *xs):
        from .sym import Or
        return Or(*xs)

    def Not(self, x):
        from .sym import Not
        return Not(x)

    def text(self, x):
        from .strs import to_str
        return to_str(x)

    def datetime(self, *a, **k):
        from .dt import DatetimeShim
        return DatetimeShim(*a, **k)

    def let(self, x):
        from .load import sdef
        return sdef(x)

    def erf(self, x):
        from . import sym
        return sym.erf(sym.lift(x))

    def erfcinv(self, x):
        from . import sym
        return sym.erfcinv(sym.lift(x))

    def delta(self, seconds):
        from .dt import SymTD
        from .sym import lift
        return SymTD(lift(seconds) * 1000000)

    def tz(self, minutes):
        from .dt import SymTZ
        from .sym import lift
        return SymTZ(lift(minutes) * 60000000)

    def localtz(self, minutes):
        from .sym import lift
        self.C.local_us = lift(minutes) * 60000000

    def validdate(self, y, m, d):
        from .dt import valid_date
        return valid_date(y, m, d)

    def leap(self, y):
        from .dt import leap
        return leap(y)

    def days(self, y, m, d):
        from .dt import civil
        return civil(y, m, d)

    def toint(self, t):
        from .strs import to_int
        return to_int(t)


def scal(v):
    from .sym import S, SymC, SymBool
    if isinstance(v, np.generic):
        v = v.item()
    if isinstance(v, SymBool):
        v = bool(v)
    if isinstance(v, SymC):
        return v
    if isinstance(v, S):
        return v.cval() if v.is_const() else v
    if isinstance(v, complex):
        return v if v.imag else v.real
    if isinstance(v, (bool, int, float)):
        return float(v)
    if isinstance(v, np.ndarray) and v.ndim == 0:
        return scal(v[()])
    raise TypeError('not a number: %s' % type(v).__name__)


def bound(v):
    from .sym import S, SymC
    if isinstance(v, S):
        lo, hi = v.bounds()
        return max(abs(lo), abs(hi))
    if isinstance(v, SymC):
        return max(bound(v.re), bound(v.im))
    return abs(v) if v == v and abs(v) != INF else 0.0


def diffs(g, w, tol):
    from .sym import Or, SymC, S, lift
    if len(g) != len(w):
        return True, None
    bads = []
    pairs = []
    for a, b in zip(g, w):
        if isinstance(a, (SymC, complex)) or isinstance(b, (SymC, complex)):
            a, b = SymC.of(a), SymC.of(b)
            for x, y in ((a.re, b.re), (a.im, b.im)):
                _one(x, y, tol, bads, pairs)
            continue
        if _one(a, b, tol, bads, pairs):
            return True, None
    return Or(*bads), pairs


def _one(a, b, tol, bads, pairs):
    from .sym import S, lift
    ca, cb = isinstance(a, float), isinstance(b, float)
    if (ca and (a != a or abs(a) == INF)) or (cb and (b != b or abs(b) == INF)):
        if ca and cb and (a == b or (a != a and b != b)):
            return False
        bads.append(True)
        return True
    if ca and cb:
        if abs(a - b) > tol:
            bads.append(True)
            return True
        return False
    d = lift(a) - b
    if tol == 0.0:
        bads.append(d != 0)
    else:
        bads.append(d > tol)
        bads.append(d < -tol)
    pairs.append((lift(a).p, lift(b).p))
    return False


# --------------------------------------------------------------------------- replay on the real code
class Replayer:
    """child process running the unmodified code on concrete inputs"""

    def __init__(self, cases, known):
        self.cases, self.known = cases, known
        self.start()

    def start(self):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(w1)
                os.close(r2)
                self.serve(r1, w2)
            finally:
                os._exit(0)
        os.close(r1)
        os.close(w2)
        self.pid, self.w, self.r = pid, w1, r2

    def serve(self, r, w):
        dn = os.open(os.devnull, os.O_WRONLY)
        os.dup2(dn, 1)
        os.dup2(dn, 2)
        tmpbase = tempfile.mkdtemp(prefix='sxr_')
        try:
            while True:
                m = _recv(r)
                if m is None:
                    return
                out = run_concrete(self.cases[m['case']], m['vals'], m.get('tols'), self.known, tmpbase)
                _send(w, out)
        finally:
            shutil.rmtree(tmpbase, ignore_errors=True)

    def run(self, i, vals, tols=None, timeout=60):
        _send(self.w, dict(case=i, vals=vals, tols=tols or {}))
        rd, _, _ = select.select([self.r], [], [], timeout)
        m = _recv(self.r) if rd else None
        if m is None:
            self.stop(kill=True)
            self.start()
            return dict(status='timeout', res=[], error='no answer within %ss' % timeout)
        return m

    def stop(self, kill=False):
        try:
            os.close(self.w)
            if kill:
                os.kill(self.pid, signal.SIGKILL)
            os.close(self.r)
            os.waitpid(self.pid, 0)
        except OSError:
            pass


def run_concrete(case, vals, tols, known, tmpbase):
    tmp = tempfile.mkdtemp(dir=tmpbase)
    E = ConEnv(vals, tmp, tols, known)
    status, err = 'ok', None
    import time
    import warnings
    zone = os.environ.get('TZ')
    try:
        with warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            case.fn(E)
    except AssumeFailed:
        status = 'assume'
    except Exception as e:
        status = 'exception'
        err = '%s: %s' % (type(e).__name__, str(e)[:200])
        tb = traceback.extract_tb(e.__traceback__)
        err += ' @ ' + ' < '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in tb[::-1][:4])
    finally:
        if os.environ.get('TZ') != zone:
            if zone is None:
                os.environ.pop('TZ', None)
            else:
                os.environ['TZ'] = zone
            time.tzset()
    shutil.rmtree(tmp, ignore_errors=True)
    return dict(status=status, error=err, res=[[l, bool(ok), None if g is None else [float(v) for v in g], kn] for l, ok, g, kn in E.res])


def failures(out):
    """labels that fail in a concrete run (beyond a known finding)"""
    f = [l for l, ok, g, kn in out['res'] if not ok and not kn]
    if out['status'] == 'exception':
        f.append('exception: ' + out['error'])
    return f


def kfailures(out):
    return [l for l, ok, g, kn in out['res'] if not ok and kn]


def _send(fd, m):
    b = json.dumps(m).encode()
    b = struct.pack('<Q', len(b)) + b
    while b:
        n = os.write(fd, b)
        b = b[n:]


def _recv(fd):
    h = b''
    while len(h) < 8:
        x = os.read(fd, 8 - len(h))
        if not x:
            return None
        h += x
    n = struct.unpack('<Q', h)[0]
    parts = []
    while n:
        x = os.read(fd, min(n, 1 << 20))
        if not x:
            return None
        parts.append(x)
        n -= len(x)
    return json.loads(b''.join(parts))


# --------------------------------------------------------------------------- exploration of one case
class Explorer:
    def __init__(self, cases, i, known, seed, deadline):
        self.cases, self.i, self.case = cases, i, cases[i]
        self.known, self.deadline = known, deadline
        self.rng = random.Random(seed * 1000003 + i)
        self.R = dict(case=self.case.name, bounds=self.case.bounds, paths=0, obligations=0, proven=0, undecided=[], unsupported=[], mismatch=[],
                      witnessed=0, violations=[], known={}, functions=[], assumptions=[], restricted=[], stats={}, samples=[], nra=0)

    def run(self):
        self.rep = Replayer(self.cases, self.known)
        from . import sym, load, pdx
        import z3
        pdx.install()
        t0 = time.time()
        self.deadline = min(self.deadline, t0 + self.case.budget)
        C = sym.Ctx(query_timeout=int(self.case.query_s * 1000), max_paths=self.case.max_paths)
        sym.Ctx.cur = C
        self.C = C
        load.TRACE = set()
        work = [[]]
        R = self.R
        while work:
            if R['paths'] >= self.case.max_paths:
                R['undecided'].append('path limit %d reached, %d branches unexplored' % (self.case.max_paths, len(work)))
                break
            if time.time() > self.deadline:
                R['undecided'].append('time limit reached, %d branches unexplored' % len(work))
                break
            prefix = work.pop()
            C.reset_path(prefix)
            load.reset()
            E = SymEnv(C, self.known)
            exc = None
            status = 'ok'
            try:
                with np.errstate(all='ignore'):
                    self.case.fn(E)
            except sym.Infeasible:
                status = 'infeasible'
            except sym.Unsupported as e:
                status = 'unsupported'
                tb = traceback.extract_tb(e.__traceback__)
                R['unsupported'].append('%s @ %s' % (e, where(tb)))
            except sym.PathLimit:
                status = 'unsupported'
                R['unsupported'].append('path limit')
            except RecursionError as e:
                status = 'unsupported'
                R['unsupported'].append('recursion')
            except Exception as e:
                tb = traceback.extract_tb(e.__traceback__)
                exc = '%s: %s @ %s' % (type(e).__name__, str(e)[:160], where(tb))
                if os.environ.get('SX_DEBUG'):
                    traceback.print_exc()
            work.extend(C.pending)
            if status == 'infeasible':
                continue
            R['paths'] += 1
            if status == 'unsupported':
                # undecided by the solver; a replay of some inputs of this path may still expose a failure
                self.probe_only(E)
                if R['violations']:
                    break
                if len(R['unsupported']) >= 40 and R['proven'] == 0:
                    R['undecided'].append('40 paths outside the encoding and none inside; %d branches unexplored' % len(work))
                    break
                continue
            self.judge(E, exc)
            if R['violations']:
                break
        R['functions'] = sorted(load.TRACE)
        R['assumptions'] = sorted(C.assumptions)
        R['stats'] = C.stats
        R['wall'] = time.time() - t0
        self.rep.stop()
        return R

    # ---- points
    def fill(self, vals, rnd=None):
        out = {}
        for name, a in self.C.vars.items():
            v = vals.get(name)
            if v is None:
                from .sym import default_value
                v = default_value(a)
            if a.isint:
                v = int(round(v))
            elif name.startswith('num:'):
                v = round(float(v), 6)
            else:
                v = float(v)
            out[name] = v
        return out

    def random_vals(self):
        out = {}
        for name, a in self.C.vars.items():
            lo, hi = max(a.lo, -1e6), min(a.hi, 1e6)
            if lo > hi:
                lo, hi = a.lo, a.hi
            if a.dom is not None:
                out[name] = self.rng.choice(sorted(a.dom))
            elif a.isint:
                out[name] = self.rng.randint(int(lo), int(hi))
            else:
                u = self.rng.random()
                if u < 0.08:
                    out[name] = lo
                elif u < 0.16:
                    out[name] = hi
                else:
                    out[name] = lo + (hi - lo) * self.rng.random()
        return out

    def holds(self, vals):
        memo = {}
        return all(b.ev(vals, memo) if not isinstance(b, bool) else b for b in self.C.pc)

    def model_vals(self, m):
        from .sym import _zval
        vals = {}
        for name, a in self.C.vars.items():
            z = self.C.zvars.get(a.id)
            if z is not None:
                d = m.eval(z)
                if not (d.eq(z)):
                    vals[name] = _zval(d)
        return vals

    def witness(self, extra=None):
        """an input of this path (checked by evaluation), or None"""
        import z3
        C = self.C

        def ok(v):
            return self.holds(v) and (extra is None or ev(extra, v))
        if extra is None or True:
            for _ in range(self.case.probes):
                v = self.fill(self.random_vals())
                if ok(v):
                    return v
        zs = [] if extra is None else [extra.z3()] if not isinstance(extra, bool) else [z3.BoolVal(extra)]
        s = C._solver()
        r = C.check(*zs)
        if r == z3.sat:
            v = self.model_vals(s.model())
            for k in range(8):
                vv = self.fill({**(self.random_vals() if k else {}), **v})
                if ok(vv):
                    return vv
        # exact translation
        try:
            cons, za = C.nl_translate([b for b in C.pc] + ([extra] if extra is not None and not isinstance(extra, bool) else []))
        except BaseException:
            return None
        s2 = z3.Solver()
        s2.set('timeout', 5000)
        for c in cons:
            s2.add(c)
        r = self.zcheck(s2)
        if r == z3.unsat:
            return False
        if r == z3.sat:
            m = s2.model()
            from .sym import _zval
            vals = {}
            for name, a in C.vars.items():
                z = za.get(a.id)
                if z is not None:
                    vals[name] = _zval(m.eval(z, model_completion=True))
            for k in range(8):
                v = self.fill({**(self.random_vals() if k else {}), **vals})
                if ok(v):
                    return v
        return None

    def zcheck(self, s):
        import z3
        t = time.time()
        r = s.check()
        st = self.C.stats
        st['solver_s'] += time.time() - t
        st['queries'] += 1
        st[str(r)] = st.get(str(r), 0) + 1
        return r

    def tols(self, E):
        return {o.label: o.tol for o in E.obls if o.tol is not None}

    def replay(self, vals, E):
        return self.rep.run(self.i, vals, self.tols(E))

    def report(self, vals, out, E, label):
        self.R['violations'].append(dict(case=self.case.name, index=self.i, values=vals, tols=self.tols(E), failed=failures(out)[:8], label=label))

    def probe_only(self, E):
        for k in range(6):
            v = self.fill(self.random_vals())
            if not self.holds(v) and k < 5:
                continue
            out = self.replay(v, E)
            if out['status'] in ('ok', 'exception') and failures(out):
                self.report(v, out, E, 'unsupported path')
                return

    # ---- verdict for one path
    def judge(self, E, exc):
        import z3
        from .sym import SymBool, Or, And, Not, clear_denominators, S
        C, R = self.C, self.R
        if exc is not None:
            E.obls.append(Obl('exception: ' + exc, True))
        R['obligations'] += len(E.obls)
        w = self.witness()
        if w is False:
            R['paths'] -= 1
            R['obligations'] -= len(E.obls)
            return            # infeasible path
        if w is not None:
            out = self.replay(w, E)
            if out['status'] == 'assume':
                R['mismatch'].append('witness rejected by the concrete run')
            elif out['status'] == 'timeout':
                R['mismatch'].append('witness run timed out')
            else:
                f = failures(out)
                if f:
                    self.report(w, out, E, f[0])
                    return
                self.note_known(out, E, w)
                mm = self.compare(E, out, w)
                if mm:
                    R['mismatch'].append(mm)
                elif exc is None:
                    R['witnessed'] += 1
                if len(R['samples']) < 2:
                    R['samples'].append({'case': self.case.name, 'witness': {k: w[k] for k in list(w)[:12]}, 'checked': [o.label for o in E.obls][:6]})
        if exc is not None:
            if w is None:
                R['undecided'].append('path ends in ' + exc + ' (no witness)')
            else:
                R['mismatch'].append('engine-only ' + exc)
            return
        mains = []
        for o in E.obls:
            mains.append(o.bad if o.badk is None else And(o.bad, o.badk))
        # one query for the whole path, over the unsimplified sides where that is affordable
        zs = []
        for o, b in zip(E.obls, mains):
            zs.append(self.zbad(o, b))
        if not zs:
            return
        r = self.lin(z3.Or(zs), 3000)
        if r == z3.unsat:
            R['proven'] += len(E.obls)
            self.find_known(E)
            return
        for o, b in zip(E.obls, mains):
            if b is False:
                R['proven'] += 1
                continue
            v = self.decide(o, b, E)
            if v == 'proven':
                R['proven'] += 1
            elif v == 'violated':
                return
            elif v == 'dead':
                return
            else:
                R['undecided'].append(o.label + ': ' + v)
            if time.time() > self.deadline:
                R['undecided'].append('time limit')
                return
        self.find_known(E)

    def zbad(self, o, b):
        import z3
        from .sym import SymBool
        if isinstance(b, bool):
            if b is False and o.pairs and o.badk is None and sum(len(p) + len(q) for p, q in o.pairs) < 4000:
                t = o.tol or 0.0
                from .sym import q as Q
                zp = self.C.zpoly
                tt = max(t, 1e-15)
                # both sides have the same normal form; the solver confirms it up to rounding of the coefficients
                cs = []
                for p, r in o.pairs:
                    d = zp(p) - zp(r)
                    sc = tt
                    if t < 1e-12:
                        cs.append(z3.BoolVal(False))
                        continue
                    cs += [d > Q(sc), d < -Q(sc)]
                return z3.Or(cs)
            return z3.BoolVal(b)
        return b.z3()

    def lin(self, z, limit=None):
        """query under the path condition, nonlinear terms as bounded unknowns"""
        import z3
        C = self.C
        s = C._solver()
        s.set('timeout', min(limit or C.query_timeout, C.query_timeout))
        t = time.time()
        r = s.check(z)
        C.stats['solver_s'] += time.time() - t
        C.stats['queries'] += 1
        C.stats[str(r)] = C.stats.get(str(r), 0) + 1
        s.set('timeout', C.feas_timeout)
        self.lastmodel = s.model() if r == z3.sat else None
        return r

    def decide(self, o, b, E):
        import z3
        if o.badk is not None and not isinstance(b, bool):
            # all values as specified, or all as in the recorded finding
            for bad, pairs in ((o.badk, o.pairsk), (o.bad, o.pairs)):
                if not isinstance(bad, bool):
                    c = Obl(o.label, bad, o.tol, o.got, pairs)
                    if self.decide(c, bad, None) == 'proven':
                        return 'proven'
        from .sym import SymBool
        C = self.C
        if not isinstance(b, bool):
            parts = b.a if b.k == 'or' else [b]
        else:
            parts = [b]
        rest = []
        parts = [p for p in parts if p is not False]
        if len(parts) > 12:
            todo = []
            for i in range(0, len(parts), 24):
                ps = parts[i:i + 24]
                if self.lin(z3.Or([p.z3() if isinstance(p, SymBool) else z3.BoolVal(p) for p in ps])) != z3.unsat:
                    todo += ps
            parts = todo
        for p in parts:
            r = self.lin(p.z3() if isinstance(p, SymBool) else z3.BoolVal(p))
            if r == z3.unsat:
                continue
            rest.append((p, self.model_vals(self.lastmodel) if self.lastmodel is not None else {}))
            if self.lastmodel is not None and E is not None:
                v = self.try_point(self.fill(rest[-1][1]), p, o, E)
                if v:
                    return v
            elif E is None and len(rest) > 3:
                break
        if not rest:
            return 'proven'
        if self.cleared(o):
            return 'proven'
        if E is None:
            for k in range(6):
                v = self.fill(self.random_vals())
                if self.holds(v) and any(ev(p, v) for p, _ in rest):
                    return 'not all'
            for p, _ in rest:
                if time.time() > self.deadline or self.nra(p, o, None) != 'proven':
                    return 'not all'
            return 'proven'
        # search concrete candidates
        for k in range(60):
            if k < 2 * len(rest):
                base = rest[k % len(rest)][1]
                v = self.fill({**self.random_vals(), **{n: x for n, x in base.items() if self.rng.random() < 0.6}})
            else:
                v = self.fill(self.random_vals())
            for p, _ in rest:
                r = self.try_point(v, p, o, E)
                if r:
                    return r
        und = []
        for p, _ in rest:
            if time.time() > self.deadline:
                return 'time limit'
            r = self.nra(p, o, E)
            if r == 'proven':
                continue
            if r in ('violated', 'dead'):
                return r
            und.append(r)
        return 'proven' if not und else und[0]

    def cleared(self, o):
        """the comparison with denominators multiplied out, still as a linear query"""
        import z3
        from .sym import clear_denominators, padd, q
        C = self.C
        if not o.pairs or o.tol is None or o.badk is not None:
            return False
        zs = []
        for p, r in o.pairs:
            d = padd(p, r, -1.0)
            if not d:
                continue
            try:
                d, mult = clear_denominators(d)
            except BaseException:
                return False
            if d is None:
                return False
            lim = o.tol
            for a, k in mult:
                lo = C.atoms[a].lo
                if lo <= 0:
                    return False
                lim *= lo ** k
            z = C.zpoly(d)
            zs += [z > q(lim), z < -q(lim)]
        return not zs or self.lin(z3.Or(zs)) == z3.unsat

    def try_point(self, v, p, o, E):
        if not self.holds(v) or not ev(p, v):
            return None
        self.tried = getattr(self, 'tried', 0) + 1
        if self.tried > 40:
            return None
        out = self.replay(v, E)
        if out['status'] in ('ok', 'exception') and failures(out):
            self.report(v, out, E, o.label)
            return 'violated'
        self.R['mismatch'].append('%s: counterexample not confirmed by the real code (%s)' % (o.label, out['status']))
        return 'dead'

    def nra(self, p, o, E):
        """exact nonlinear query, then with denominators cleared, then on restricted inputs"""
        import z3
        from .sym import SymBool, clear_denominators, _zval
        C = self.C
        if isinstance(p, bool):
            return 'not decided'
        qs = [p]
        if p.k in ('<', '<=', '==', '!='):
            try:
                d, mult = clear_denominators(p.a)
            except BaseException:
                d = None
            if d is not None and mult:
                # sign of the multipliers is known (bases are positive within their bounds)
                if all(C.atoms[a].lo > 0 or k % 2 == 0 for a, k in mult):
                    qs.insert(0, SymBool(p.k, d) if d else SymBool.cmp(p.k, d))
        last = 'unknown'
        for b in qs:
            if b is False:
                return 'proven'
            try:
                cons, za = C.nl_translate(list(C.pc) + ([b] if not isinstance(b, bool) else []))
            except BaseException as e:
                last = 'not encodable exactly (%s)' % e
                continue
            for tac in ('', 'qfnra-nlsat'):
                s = z3.Solver() if not tac else z3.Then('simplify', 'solve-eqs', tac).solver()
                s.set('timeout', int(self.case.query_s * 1000 / 2))
                for c in cons:
                    s.add(c)
                r = self.zcheck(s)
                self.R['nra'] += 1
                if r == z3.unsat:
                    return 'proven'
                if r == z3.sat:
                    if E is None:
                        return 'not all'
                    m = s.model()
                    vals = {n: _zval(m.eval(za[a.id], model_completion=True)) for n, a in C.vars.items() if a.id in za}
                    v = self.try_point(self.fill(vals), p, o, E)
                    if v:
                        return v
                    last = 'solver model is not an input (abstraction of elementary functions)'
                    break
        if E is None:
            return last
        # restricted claim: all but a few inputs fixed
        for k in range(3):
            v = self.fill(self.random_vals())
            if not self.holds(v):
                continue
            names = [n for n, a in C.vars.items()]
            free = set(self.rng.sample(names, min(len(names), 2)))
            try:
                cons, za = C.nl_translate(list(C.pc) + [p])
            except BaseException:
                break
            s = z3.Solver()
            s.set('timeout', 4000)
            for c in cons:
                s.add(c)
            from .sym import q
            for n, a in C.vars.items():
                if a.id in za and n not in free:
                    s.add(za[a.id] == (int(v[n]) if a.isint else q(v[n])))
            if self.zcheck(s) == z3.unsat:
                self.R['restricted'].append('%s: shown only with all inputs but %s fixed' % (o.label, sorted(free)))
        return last

    # ---- comparisons with the concrete run
    def compare(self, E, out, w):
        res = {l: (ok, g) for l, ok, g, kn in out['res']}
        memo = {}
        for o in E.obls:
            if o.label not in res:
                return 'obligation %s absent from the concrete run' % o.label
            ok, g = res[o.label]
            if o.got is None or g is None:
                continue
            if len(g) != len(o.got):
                return '%s: %d values, %d in the real run' % (o.label, len(o.got), len(g))
            e = [evs(v, w, memo) for v in o.got]
            sc = max([abs(x) for x in e + g if x == x and abs(x) != INF] + [0.0])
            for a, b in zip(e, g):
                if a != a and b != b or a == b:
                    continue
                if not abs(a - b) <= 1e-6 * sc + 10 * (o.tol or 0.0) + 1e-12:
                    return '%s: engine computes %.9g, real code %.9g' % (o.label, a, b)
        return None

    def note_known(self, out, E, w):
        for l in kfailures(out):
            for o in E.obls:
                if o.label == l and o.known:
                    self.R['known'].setdefault(o.known, dict(case=self.case.name, label=l, values=w))

    def find_known(self, E):
        for o in E.obls:
            if o.known and o.known not in self.R['known'] and o.bad is not False:
                for _ in range(10):
                    v = self.fill(self.random_vals())
                    if self.holds(v) and ev(o.bad, v):
                        self.note_known(self.replay(v, E), E, v)
                        break


def ev(b, v):
    return b.ev(v, {}) if not isinstance(b, bool) else b


def evs(v, w, memo):
    from .sym import S, SymC, Ctx
    if isinstance(v, S):
        return float(Ctx.cur.eval_poly(v.p, w, memo))
    if isinstance(v, SymC):
        return evs(v.re, w, memo)
    if isinstance(v, complex):
        return v.real
    return float(v)


def where(tb):
    fs = [f for f in tb]
    r = [f for f in fs if f.filename.startswith(REPO)]
    p = ['%s:%d' % (os.path.basename(f.filename), f.lineno) for f in r[-1:]]
    p += ['%s:%d' % (os.path.basename(f.filename), f.lineno) for f in fs[::-1][:3]]
    return ' < '.join(p)


# --------------------------------------------------------------------------- all cases of a property
def run_property(pid, cases, tier, seed, known, jobs=8, total=600):
    deadline = time.time() + total
    pending = list(range(len(cases)))
    running = {}
    results = {}
    stop = False
    while pending or running:
        while pending and len(running) < jobs and not stop:
            i = pending.pop(0)
            r, w = os.pipe()
            pid_ = os.fork()
            if pid_ == 0:
                os.close(r)
                try:
                    os.setpgid(0, 0)
                    out = Explorer(cases, i, known, seed, deadline).run()
                except BaseException as e:
                    out = dict(case=cases[i].name, crash='%s: %s' % (type(e).__name__, traceback.format_exc()[-1500:]))
                try:
                    _send(w, out)
                except BaseException:
                    pass
                os._exit(0)
            os.close(w)
            running[r] = (i, pid_, time.time())
        if not running:
            break
        rd, _, _ = select.select(list(running), [], [], 1.0)
        for r in rd:
            i, p, t = running.pop(r)
            out = _recv(r)
            os.close(r)
            os.waitpid(p, 0)
            results[i] = out or dict(case=cases[i].name, crash='worker died')
            if results[i].get('violations'):
                stop = True
                pending = []
        now = time.time()
        for r, (i, p, t) in list(running.items()):
            if now > deadline + 20 or now - t > cases[i].budget + 60 or stop:
                try:
                    os.killpg(p, signal.SIGKILL)
                except OSError:
                    pass
                running.pop(r)
                os.close(r)
                os.waitpid(p, 0)
                results[i] = dict(case=cases[i].name, crash='stopped' if stop else 'time limit')
        if now > deadline:
            for i in pending:
                results[i] = dict(case=cases[i].name, crash='not started: time limit')
            pending = []
    return [results.get(i, dict(case=cases[i].name, crash='not run')) for i in range(len(cases))]
