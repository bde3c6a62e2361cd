"""Symbolic reals/integers/complex numbers and booleans, with path exploration state.

A symbolic number S is a polynomial {monomial: float coefficient}; a monomial is a tuple of
(atom id, exponent) pairs.  Atoms are input variables and applications of elementary functions
(sin, exp, sqrt-like powers of a polynomial, floor, ...), unified when their arguments agree.
Comparisons give SymBool values; taking the truth value of one asks z3 which outcomes are
feasible under the current path condition and forks (see Ctx).
"""
import math, sys, time, bisect
from fractions import Fraction
_VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _VT not in sys.path:
    sys.path.append(_VT)
import z3

INF = float('inf')
PI = math.pi


HASHOK = [0]         # > 0: symbolic keys are hashed by identity (sx.coll compared them before)


class Unsupported(BaseException):
    """The engine cannot encode something the code does."""


class Infeasible(BaseException):
    """The current path turned out to be infeasible."""


class PathLimit(BaseException):
    pass


class Atom:
    __slots__ = ('id', 'kind', 'args', 'lo', 'hi', 'isint', 'name', 'pair', 'dom', 'extra')

    def __init__(self, id, kind, args, lo, hi, isint=False, name=None):
        self.id, self.kind, self.args, self.lo, self.hi, self.isint, self.name = id, kind, args, lo, hi, isint, name
        self.pair = None
        self.dom = None
        self.extra = None

    @property
    def pos(self):
        return self.lo > 0

    def __repr__(self):
        return '%s#%d' % (self.name or self.kind, self.id)


# --------------------------------------------------------------------------- context
class Ctx:
    cur = None

    def __init__(self, feas_timeout=4000, query_timeout=20000, max_paths=4000):
        self.atoms = []
        self.bykey = {}
        self.bykind = {}
        self.vars = {}           # name -> Atom
        self.monocache = {}
        self.boundcache = {}
        self.zvars = {}
        self.zmono = {}
        self.side = []           # z3 constraints (bounds, axioms) that always hold
        self.nside = 0
        self.expvals = {}        # base atom id -> sorted exponents seen
        self.escale = {}         # exponential atom id -> scale of its argument
        self.feas_timeout, self.query_timeout, self.max_paths = feas_timeout, query_timeout, max_paths
        self.stats = dict(paths=0, decisions=0, queries=0, solver_s=0.0, unsat=0, sat=0, unknown=0, feas=0)
        self.assumptions = set()
        self.reset_path([])

    # ----- path state
    def reset_path(self, prefix):
        self.prefix = prefix
        self.decisions = []
        self.local_us = None
        self.pc = []             # SymBool / z3 constraints assumed on this path
        self.zpc = []
        self.solver = None
        self.pending = []

    def _solver(self):
        if self.solver is None:
            s = z3.Solver()
            s.set('timeout', self.feas_timeout)
            self.solver = s
            self.nside = 0
            for c in self.zpc:
                s.add(c)
        if self.nside < len(self.side):
            for c in self.side[self.nside:]:
                self.solver.add(c)
            self.nside = len(self.side)
        return self.solver

    def add(self, b):
        """Assume b (SymBool) on this path."""
        if b is True:
            return
        if b is False:
            raise Infeasible()
        v = b.quick()
        if v is True:
            return
        if v is False:
            raise Infeasible()
        zc = b.z3()
        self.pc.append(b)
        self.zpc.append(zc)
        if self.solver is not None:
            self._solver().add(zc)

    def check(self, *extra):
        s = self._solver()
        t = time.time()
        r = s.check(*extra)
        self.stats['solver_s'] += time.time() - t
        self.stats['feas'] += 1
        return r

    def decide(self, b):
        v = b.quick()
        if v is not None:
            return v
        k = b.key()
        known = self.known.get(k) if hasattr(self, 'known') else None
        zc = b.z3()
        i = len(self.decisions)
        if i < len(self.prefix):
            d = self.prefix[i]
            self.decisions.append(d)
            self._assume(b if d else ~b, zc if d else z3.Not(zc))
            return d
        rt = self.check(zc)
        rf = self.check(z3.Not(zc)) if rt != z3.unsat else z3.sat
        if rt == z3.unsat:
            d = False
            if not self.pc_checked(False, zc):
                raise Infeasible()
        elif rf == z3.unsat:
            d = True
        else:
            d = True
            self.pending.append(self.decisions + [False])
            self.stats['decisions'] += 1
        self.decisions.append(d)
        self._assume(b if d else ~b, zc if d else z3.Not(zc))
        return d

    def pc_checked(self, d, zc):
        return self.check(z3.Not(zc)) != z3.unsat

    def _assume(self, b, zc):
        self.pc.append(b)
        self.zpc.append(zc)
        if self.solver is not None:
            self.solver.add(zc)

    def choose(self, name, n):
        """Concretise a fresh choice among 0..n-1 by forking."""
        v = self.var(name, 0, n - 1, isint=True)
        for i in range(n - 1):
            if bool(v == i):
                return i
        return n - 1

    # ----- atoms
    def new_atom(self, kind, args, lo=-INF, hi=INF, isint=False, name=None):
        a = Atom(len(self.atoms), kind, args, lo, hi, isint, name)
        self.atoms.append(a)
        return a

    def var(self, name, lo=-INF, hi=INF, isint=False, dom=None):
        a = self.vars.get(name)
        if a is None:
            a = self.new_atom('var', None, lo, hi, isint, name)
            a.dom = dom
            self.vars[name] = a
        return S({((a.id, 1),): 1.0})

    def fn_atom(self, kind, polys, lo, hi, isint=False, tol=1e-10, absolute=False):
        """Atom for an application; arguments approximately equal -> same atom."""
        sig = (kind,) + tuple(tuple(sorted(p)) for p in polys)
        lst = self.bykey.setdefault(sig, [])
        for a in lst:
            if all(approx_eq(p, q, tol, absolute) for p, q in zip(a.args, polys)):
                return a
        # keys may differ by rounding-size terms only
        for a in self.bykind.get(kind, ()):
            if len(a.args) == len(polys) and all(approx_eq(p, q, tol, absolute) for p, q in zip(a.args, polys)):
                lst.append(a)
                return a
        a = self.new_atom(kind, tuple(dict(p) for p in polys), lo, hi, isint)
        lst.append(a)
        self.bykind.setdefault(kind, []).append(a)
        return a

    def snap_exp(self, aid, c):
        """Unify almost equal non-trivial exponents of an exponential atom."""
        r = round(c)
        if abs(c - r) < 1e-12 * max(1.0, abs(c)):
            return int(r)
        r2 = round(c * 12)
        if abs(c * 12 - r2) < 1e-11:
            return r2 / 12
        lst = self.expvals.setdefault(aid, [])
        i = bisect.bisect_left(lst, c)
        for j in (i - 1, i):
            if 0 <= j < len(lst) and abs(lst[j] - c) <= 1e-11 * max(abs(c), 1e-3):
                return lst[j]
        lst.insert(i, c)
        return c

    # ----- bounds
    def apow(self, aid, e):
        a = self.atoms[aid]
        lo, hi = a.lo, a.hi
        if e == 1:
            return lo, hi
        if isinstance(e, int) or e == int(e):
            e = int(e)
            if e > 0:
                if e % 2 == 1:
                    return _pw(lo, e), _pw(hi, e)
                if lo >= 0:
                    return _pw(lo, e), _pw(hi, e)
                if hi <= 0:
                    return _pw(hi, e), _pw(lo, e)
                return 0.0, max(_pw(lo, e), _pw(hi, e))
            else:
                if lo > 0 or hi < 0:
                    x, y = _pw(lo, e), _pw(hi, e)
                    return min(x, y), max(x, y)
                if e % 2 == 0:
                    m = max(abs(lo), abs(hi))
                    return (_pw(m, e) if m < INF else 0.0), INF
                if lo >= 0:
                    return _pw(hi, e), INF
                return -INF, INF
        lo = max(lo, 0.0)
        x, y = _pw(lo, e), _pw(hi, e)
        return min(x, y), max(x, y)

    def monobound(self, m):
        b = self.boundcache.get(m)
        if b is None:
            lo, hi = 1.0, 1.0
            for aid, e in m:
                l, h = self.apow(aid, e)
                c = [_mul(lo, l), _mul(lo, h), _mul(hi, l), _mul(hi, h)]
                lo, hi = min(c), max(c)
            b = (lo, hi)
            self.boundcache[m] = b
        return b

    def bounds(self, p):
        lo = hi = 0.0
        for m, c in p.items():
            if not m:
                lo += c
                hi += c
                continue
            l, h = self.monobound(m)
            if c > 0:
                lo += _mul(c, l)
                hi += _mul(c, h)
            else:
                lo += _mul(c, h)
                hi += _mul(c, l)
        return lo, hi

    # ----- z3 translation
    def zatom(self, aid):
        z = self.zvars.get(aid)
        if z is None:
            a = self.atoms[aid]
            nm = (a.name or a.kind) + '!%d' % aid
            z = z3.Int(nm) if a.isint else z3.Real(nm)
            self.zvars[aid] = z
            if a.dom is not None:
                d = sorted(a.dom)
                if d[-1] - d[0] + 1 == len(d):
                    self.side += [z >= d[0], z <= d[-1]]
                else:
                    self.side.append(z3.Or([z == v for v in d]))
            else:
                if a.lo > -INF:
                    self.side.append(z >= q(a.lo))
                if a.hi < INF:
                    self.side.append(z <= q(a.hi))
            if a.kind == 'floor':
                pz = self.zpoly(a.args[0])
                self.side += [pz - z >= 0, pz - z < 1]
            elif a.kind == 'max':
                ps = [self.zpoly(p) for p in a.args]
                self.side += [z >= p for p in ps]
                self.side.append(z3.Or([z == p for p in ps]))
            elif a.kind == 'bit':
                pass
            elif a.kind == 'civil':
                from . import dt
                self.side += dt.civil_axiom(self, a, z)
            elif a.kind in ('ymd0', 'ymd1', 'ymd2'):
                from . import dt
                self.side += dt.ymd_axiom_z(self.zpoly, a, z, int(a.kind[3]))
        return z

    def zmonoexpr(self, m):
        if len(m) == 1 and m[0][1] == 1:
            return self.zatom(m[0][0])
        if all(self.atoms[a].isint and isinstance(e, int) and e > 0 for a, e in m):
            # small integer products: exact
            z = None
            for a, e in m:
                for _ in range(e):
                    z = self.zatom(a) if z is None else z * self.zatom(a)
            return z
        z = self.zmono.get(m)
        if z is None:
            z = z3.Real('m!' + '_'.join('%d^%s' % (a, e) for a, e in m))
            self.zmono[m] = z
            lo, hi = self.monobound(m)
            if lo > -INF:
                self.side.append(z >= q(lo - 1e-12 * abs(lo)))
            if hi < INF:
                self.side.append(z <= q(hi + 1e-12 * abs(hi)))
        return z

    def zpoly(self, p):
        ts = []
        for m, c in p.items():
            if not m:
                ts.append(q(c))
            else:
                z = self.zmonoexpr(m)
                if z.is_int() and c != int(c):
                    z = z3.ToReal(z)
                if c == 1:
                    ts.append(z)
                elif z.is_int():
                    ts.append(z3.IntVal(int(c)) * z)
                else:
                    ts.append(q(c) * z)
        if not ts:
            return q(0)
        if len(ts) == 1:
            return ts[0]
        return z3.Sum(ts)

    # ----- exact (nonlinear) translation, used when the linear abstraction is too weak
    def nl_translate(self, polys_bools):
        """Return (constraints) translating SymBools exactly in the atoms, with axioms."""
        cons = []
        done = {}

        def za(aid):
            if aid in done:
                return done[aid]
            a = self.atoms[aid]
            z = z3.Int('n%d' % aid) if a.isint else z3.Real('n%d' % aid)
            done[aid] = z
            if a.dom is not None:
                cons.append(z3.Or([z == v for v in a.dom]) if len(a.dom) < 40 else z3.And(z >= min(a.dom), z <= max(a.dom)))
            if a.lo > -INF:
                cons.append(z >= q(a.lo))
            if a.hi < INF:
                cons.append(z <= q(a.hi))
            if a.kind in ('sin', 'cos') and a.pair is not None:
                zp = za(a.pair)
                if a.kind == 'sin':
                    cons.append(z * z + zp * zp == 1)
            elif a.kind in ('base', 'def'):
                cons.append(z == zp_(a.args[0]))
            elif a.kind == 'floor':
                pz = zp_(a.args[0])
                cons.append(pz - z >= 0)
                cons.append(pz - z < 1)
            elif a.kind == 'max':
                ps = [zp_(p) for p in a.args]
                cons.extend(z >= p for p in ps)
                cons.append(z3.Or([z == p for p in ps]))
            elif a.kind == 'civil':
                from . import dt
                cons.extend(dt.civil_axiom_z(zp_, a, z))
            elif a.kind in ('ymd0', 'ymd1', 'ymd2'):
                from . import dt
                cons.extend(dt.ymd_axiom_z(zp_, a, z, int(a.kind[3])))
            return z
        pw = {}

        def zpow(aid, e):
            k = (aid, e)
            if k in pw:
                return pw[k]
            z = za(aid)
            if z.is_int():
                z = z3.ToReal(z) if (not isinstance(e, int) or e < 0) else z
            if isinstance(e, int) and e > 0:
                r = z
                for _ in range(e - 1):
                    r = r * z
            elif isinstance(e, int):
                r = z3.Real('p%d_%d' % (aid, -e))
                cons.append(r * zpow(aid, -e) == 1)
            else:
                r = z3.Real('p%d_%s' % (aid, e))
                lo, hi = self.apow(aid, e)
                cons.append(r >= 0)
                if lo > 0:
                    cons.append(r >= q(lo))
                if hi < INF:
                    cons.append(r <= q(hi))
                f = Fraction(e).limit_denominator(4)
                if abs(float(f) - e) < 1e-15 and f.denominator == 2:
                    n = f.numerator
                    if n > 0:
                        cons.append(r * r == zpow(aid, n))
                    else:
                        cons.append(r * r * zpow(aid, -n) == 1)
            pw[k] = r
            return r

        def zp_(p):
            ts = []
            for m, c in p.items():
                t = q(c) if not (c == int(c) and all(self.atoms[a].isint for a, _ in m)) else z3.IntVal(int(c))
                for aid, e in m:
                    f = zpow(aid, e)
                    t = t * f
                ts.append(t)
            return z3.Sum(ts) if ts else q(0)
        body = [b.z3(zp_) for b in polys_bools]
        return cons + body, done

    def eval_atom(self, aid, vals, memo):
        if aid in memo:
            return memo[aid]
        a = self.atoms[aid]
        k = a.kind
        if k == 'var':
            v = vals.get(a.name)
            if v is None:
                v = default_value(a)
        else:
            xs = [self.eval_poly(p, vals, memo) for p in a.args]
            v = EVAL[k](*xs)
        memo[aid] = v
        return v

    def eval_poly(self, p, vals, memo=None):
        if memo is None:
            memo = {}
        t = 0.0
        for m, c in p.items():
            for aid, e in m:
                v = self.eval_atom(aid, vals, memo)
                try:
                    c = c * (v ** e)
                except (ZeroDivisionError, OverflowError):
                    c = float('nan')
                if isinstance(c, complex):
                    c = float('nan')
            t += c
        return t


def default_value(a):
    if a.dom is not None:
        d = sorted(a.dom)
        return d[len(d) // 2]
    lo = a.lo if a.lo > -INF else -10.0
    hi = a.hi if a.hi < INF else lo + 20.0
    v = 0.37 * lo + 0.63 * hi
    return int(round(v)) if a.isint else v


def _pw(x, e):
    try:
        return float(x) ** e
    except (OverflowError,):
        return INF if x > 0 or e % 2 == 0 else -INF
    except ZeroDivisionError:
        return INF


def _mul(a, b):
    if a == 0 or b == 0:
        return 0.0
    return a * b


_qc = {}


def q(c):
    """float -> exact (or nicely rounded to 1e-15 relative) rational for z3"""
    r = _qc.get(c)
    if r is None:
        if c in (INF, -INF) or c != c:
            raise Unsupported('non-finite constant')
        if c == int(c) and abs(c) < 1e18:
            r = z3.RealVal(int(c))
        else:
            f = Fraction(c).limit_denominator(10 ** 9)
            if float(f) != c:
                f = Fraction(c)
                if f.denominator.bit_length() > 300:
                    f = Fraction(repr(c)) if abs(c) > 1e-280 else Fraction(0)
            r = z3.Q(f.numerator, f.denominator)
        _qc[c] = r
    return r


def _civil(y, m, d):
    y, m, d = int(round(y)), int(round(m)), int(round(d))
    y0 = y - (m <= 2)
    era = y0 // 400
    yoe = y0 - era * 400
    doy = (153 * (m + (-3 if m > 2 else 9)) + 2) // 5 + d - 1
    doe = yoe * 365 + yoe // 4 - yoe // 100 + doy
    return era * 146097 + doe - 719468


def _ymd(n):
    s = int(round(n)) + 719468
    era = s // 146097
    doe = s - era * 146097
    yoe = (doe - doe // 1460 + doe // 36524 - doe // 146096) // 365
    doy = doe - (365 * yoe + yoe // 4 - yoe // 100)
    mp = (5 * doy + 2) // 153
    m = mp + 3 if mp < 10 else mp - 9
    return float(yoe + era * 400 + (m <= 2)), float(m), float(doy - (153 * mp + 2) // 5 + 1)


def _safe(f):
    def g(*a):
        try:
            return f(*a)
        except (ValueError, OverflowError, ZeroDivisionError):
            return float('nan')
    return g


def _erfcinv(x):
    from scipy.special import erfcinv
    return float(erfcinv(x))


EVAL = {
    'sin': _safe(math.sin), 'cos': _safe(math.cos), 'tan': _safe(math.tan), 'E': _safe(math.exp), 'log': _safe(math.log),
    'atan': _safe(math.atan), 'asin': _safe(math.asin), 'acos': _safe(math.acos), 'atan2': _safe(math.atan2),
    'erf': _safe(math.erf), 'erfcinv': _safe(_erfcinv), 'base': lambda x: x, 'def': lambda x: x,
    'floor': lambda x: float(math.floor(x)) if x == x and abs(x) < 1e300 else float('nan'),
    'civil': lambda y, m, d: float(_civil(y, m, d)),
    'ymd0': lambda n: _ymd(n)[0], 'ymd1': lambda n: _ymd(n)[1], 'ymd2': lambda n: _ymd(n)[2],
    'max': lambda *x: max(x),
    'bit': lambda x, k: float((int(round(x)) >> int(k)) & 1),
    'tanh': _safe(math.tanh), 'sinh': _safe(math.sinh), 'cosh': _safe(math.cosh),
}


# --------------------------------------------------------------------------- polynomials
def approx_eq(p, r, tol=1e-10, absolute=False):
    if p is r:
        return True
    C = Ctx.cur
    scale = 0.0
    err = 0.0
    for m, c in p.items():
        d = r.get(m)
        if d == c:
            scale = max(scale, abs(c))
            continue
        if d is None:
            d = 0.0
        rel = abs(c - d) / max(abs(c), abs(d))
        if d and rel < tol:
            scale = max(scale, abs(c))
            continue
        lo, hi = C.monobound(m)
        b = max(abs(lo), abs(hi))
        if b == INF:
            return False
        err += abs(c - d) * b
    for m, d in r.items():
        if m not in p:
            lo, hi = C.monobound(m)
            b = max(abs(lo), abs(hi))
            if b == INF:
                return False
            err += abs(d) * b
    if err == 0.0:
        return True
    if absolute:
        return err < 1e-9
    mag = 0.0
    for m, c in p.items():
        lo, hi = C.monobound(m)
        b = max(abs(lo), abs(hi))
        if b < INF:
            mag = max(mag, abs(c) * b)
    return err < tol * mag * 0.1


def padd(p, r, k=1.0):
    if len(p) < len(r) and k == 1.0:
        p, r = r, p
    o = dict(p)
    for m, c in r.items():
        c = c * k
        d = o.get(m)
        if d is None:
            if c != 0.0:
                o[m] = c
        else:
            s = d + c
            if s == 0.0:
                del o[m]
            elif abs(s) < 4e-15 * abs(c) and not (d == int(d) and c == int(c) and abs(c) < 9e15):
                del o[m]
            else:
                o[m] = s
    return o


def _mulmono(m1, m2):
    """-> (mono, reducible?)"""
    C = Ctx.cur
    key = (m1, m2)
    r = C.monocache.get(key)
    if r is not None:
        return r
    d = dict(m1)
    red = False
    for a, e in m2:
        if a in d:
            n = d[a] + e
            if not isinstance(n, int):
                n = C.snap_exp(a, n)
            if n == 0:
                del d[a]
            else:
                d[a] = n
        else:
            d[a] = e
    for a, e in d.items():
        k = C.atoms[a].kind
        if k == 'cos':
            if isinstance(e, int) and e >= 2:
                red = True
        elif k == 'base':
            if e >= 1:
                red = True
    r = (tuple(sorted(d.items())), red)
    C.monocache[key] = r
    return r


def _reduce(m, c):
    """expand reducible factors of a monomial: returns poly"""
    C = Ctx.cur
    out = {(): c}
    rest = []
    for a, e in m:
        at = C.atoms[a]
        if at.kind == 'cos' and isinstance(e, int) and e >= 2:
            n, r = divmod(e, 2)
            f = {(): 1.0, ((at.pair, 2),): -1.0}
            out = pmul(out, ppow(f, n))
            if r:
                rest.append((a, 1))
        elif at.kind == 'base' and e >= 1:
            n = int(math.floor(e))
            fr = e - n
            out = pmul(out, ppow(at.args[0], n))
            if fr:
                rest.append((a, fr))
        else:
            rest.append((a, e))
    if rest:
        out = pmul(out, {tuple(rest): 1.0})
    return out


def pmul(p, r):
    if len(p) == 1 and () in p:
        k = p[()]
        return {m: c * k for m, c in r.items()} if k != 1.0 else dict(r)
    if len(r) == 1 and () in r:
        k = r[()]
        return {m: c * k for m, c in p.items()} if k != 1.0 else dict(p)
    if len(p) * len(r) > 4000000:
        raise Unsupported('expression too large')
    o = {}
    mag = {}
    extra = None
    for m1, c1 in p.items():
        for m2, c2 in r.items():
            if not m1:
                m, red = m2, False
            elif not m2:
                m, red = m1, False
            else:
                m, red = _mulmono(m1, m2)
            c = c1 * c2
            if red:
                e = _reduce(m, c)
                extra = e if extra is None else padd(extra, e)
                continue
            if m in o:
                o[m] += c
                mag[m] = max(mag[m], abs(c))
            else:
                o[m] = c
                mag[m] = abs(c)
    o = {m: c for m, c in o.items() if abs(c) > 4e-15 * mag[m]}
    if extra is not None:
        o = padd(o, extra)
    return o


def ppow(p, n):
    if n == 0:
        return {(): 1.0}
    r = None
    b = p
    while n:
        if n & 1:
            r = b if r is None else pmul(r, b)
        n >>= 1
        if n:
            b = pmul(b, b)
    return r


ONE = {(): 1.0}


def is_num(x):
    import numpy as np
    return isinstance(x, (int, float, np.number, np.bool_)) and not isinstance(x, S)


def lift(x):
    if isinstance(x, S):
        return x
    if isinstance(x, SymBool):
        return S.const(1.0 if bool(x) else 0.0)
    import numpy as np
    if isinstance(x, (bool, int, float, np.number, np.bool_)) and not isinstance(x, complex):
        f = float(x)
        return S.const(f)
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return lift(x.item())
    if isinstance(x, Fraction):
        return S.const(float(x))
    return None


class S:
    __slots__ = ('p', 'lit')
    __array_priority__ = 1000

    def __init__(self, p, lit=None):
        self.p = p
        self.lit = lit      # optional textual provenance (SymStr)

    @staticmethod
    def const(c):
        c = float(c)
        return S({(): c} if c != 0.0 else {})

    # -- inspection
    def is_const(self):
        return not self.p or (len(self.p) == 1 and () in self.p)

    def cval(self):
        return self.p.get((), 0.0)

    def bounds(self):
        return Ctx.cur.bounds(self.p)

    def isint(self):
        at = Ctx.cur.atoms
        for m, c in self.p.items():
            if c != int(c):
                return False
            for a, e in m:
                if not at[a].isint or not isinstance(e, int) or e < 0:
                    return False
        return True

    def ev(self, vals, memo=None):
        return Ctx.cur.eval_poly(self.p, vals, memo)

    def __repr__(self):
        C = Ctx.cur
        if self.is_const():
            return 'S(%r)' % self.cval()
        ts = []
        for m, c in list(self.p.items())[:6]:
            ts.append('%.6g%s' % (c, ''.join('*%r^%s' % (C.atoms[a], e) for a, e in m)))
        return 'S(' + ' + '.join(ts) + (' ...' if len(self.p) > 6 else '') + ')'
    __str__ = __repr__

    # -- arithmetic
    def __add__(self, o):
        if isinstance(o, float) and o != o:
            return o
        if isinstance(o, (complex, SymC)):
            return SymC.of(self) + o
        o2 = lift(o)
        if o2 is None:
            return NotImplemented
        if o2.is_const() and not math.isfinite(o2.cval()):
            return o2.cval()
        return S(padd(self.p, o2.p))
    __radd__ = __add__

    def __neg__(self):
        return S({m: -c for m, c in self.p.items()})

    def __pos__(self):
        return self

    def __sub__(self, o):
        if isinstance(o, float) and o != o:
            return o
        if isinstance(o, (complex, SymC)):
            return SymC.of(self) - o
        o2 = lift(o)
        if o2 is None:
            return NotImplemented
        if o2.is_const() and not math.isfinite(o2.cval()):
            return -o2.cval()
        return S(padd(self.p, o2.p, -1.0))

    def __rsub__(self, o):
        if isinstance(o, (complex, SymC)):
            return SymC.of(o) - self
        o2 = lift(o)
        if o2 is None:
            return NotImplemented
        if o2.is_const() and not math.isfinite(o2.cval()):
            return o2.cval()
        return o2 - self

    def __mul__(self, o):
        if isinstance(o, float) and o != o:
            return o
        if isinstance(o, (complex, SymC)):
            return SymC.of(self) * o
        if isinstance(o, (str, list, tuple)):
            return NotImplemented
        o2 = lift(o)
        if o2 is None:
            return NotImplemented
        if o2.is_const() and not math.isfinite(o2.cval()):
            if bool(self == 0):
                return float('nan')
            return o2.cval() if bool(self > 0) else -o2.cval()
        return S(pmul(self.p, o2.p))
    __rmul__ = __mul__

    def inv(self):
        return self ** -1

    def __truediv__(self, o):
        if isinstance(o, float) and o != o:
            return o
        if isinstance(o, (complex, SymC)):
            return SymC.of(self) / o
        o2 = lift(o)
        if o2 is None:
            return NotImplemented
        if o2.is_const():
            c = o2.cval()
            if c == 0.0:
                return div_zero(self)
            if not math.isfinite(c):
                return 0.0
            return S({m: v / c for m, v in self.p.items()})
        if len(o2.p) > 1 and len(self.p) == len(o2.p) and self.p.keys() == o2.p.keys():
            m0 = max(o2.p, key=lambda m: abs(o2.p[m]))
            q = self.p[m0] / o2.p[m0]
            if q and all(abs(self.p[m] - q * c) <= 4e-16 * abs(self.p[m]) for m, c in o2.p.items()):
                spow(o2.p, -1)    # a multiple of the divisor (which must not be 0)
                return S({(): q})
        return S(pmul(self.p, spow(o2.p, -1)))

    def __rtruediv__(self, o):
        if isinstance(o, float) and o != o:
            return o
        if isinstance(o, (complex, SymC)):
            return SymC.of(o) / self
        o2 = lift(o)
        if o2 is None:
            return NotImplemented
        return o2 / self

    def __pow__(self, e):
        if isinstance(e, S):
            if e.is_const():
                e = e.cval()
            else:
                return exp(e * log(self))
        if isinstance(e, SymBool):
            e = 1 if bool(e) else 0
        e = float(e)
        if e == int(e):
            e = int(e)
            if e == 0:
                return S.const(1.0)
            if e > 0:
                return S(ppow(self.p, e))
        if self.is_const():
            c = self.cval()
            try:
                r = c ** e
                return float('nan') if isinstance(r, complex) else S.const(r)
            except ZeroDivisionError:
                return INF
        if not isinstance(e, int):
            lo, hi = self.bounds()
            if lo < 0:
                if bool(SymBool.cmp('<', self.p)):
                    return float('nan')
        return S(spow(self.p, e))

    def __rpow__(self, b):
        b2 = lift(b)
        if b2 is None:
            return NotImplemented
        return b2 ** self

    def __floordiv__(self, o):
        r = self / o
        return floor(r)

    def __rfloordiv__(self, o):
        return floor(lift(o) / self)

    def __mod__(self, o):
        o2 = lift(o)
        if o2 is None:
            return NotImplemented
        if o2.is_const() and o2.cval() != o2.cval() or self.is_const() and not math.isfinite(self.cval()):
            return float('nan')
        return self - o2 * floor(self / o2)

    def __rmod__(self, o):
        o2 = lift(o)
        if o2 is None:
            return NotImplemented
        return o2 % self

    def __divmod__(self, o):
        f = floor(self / o)
        return f, self - o * f

    def __abs__(self):
        lo, hi = self.bounds()
        if lo >= 0:
            return self
        if hi <= 0:
            return -self
        return LazyAbs(self)

    # -- comparisons
    def _cmp(self, o, op, flip=False):
        if isinstance(o, SymC):
            return NotImplemented
        if isinstance(o, float) and (o != o or o in (INF, -INF)):
            if o != o:
                return op == '!='
            if op in ('==',):
                return False
            if op == '!=':
                return True
            return (o > 0) if op in ('<', '<=') else (o < 0)
        o2 = lift(o)
        if o2 is None:
            return NotImplemented
        if op == '>':
            return SymBool.cmp('<', padd(o2.p, self.p, -1.0))
        if op == '>=':
            return SymBool.cmp('<=', padd(o2.p, self.p, -1.0))
        return SymBool.cmp(op, padd(self.p, o2.p, -1.0))

    def __lt__(self, o):
        return self._cmp(o, '<')

    def __le__(self, o):
        return self._cmp(o, '<=')

    def __gt__(self, o):
        return self._cmp(o, '>')

    def __ge__(self, o):
        return self._cmp(o, '>=')

    def __eq__(self, o):
        r = self._cmp(o, '==')
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, '!=')
        return True if r is NotImplemented else r

    def __hash__(self):
        if self.is_const():
            return hash(self.cval())
        if HASHOK[0]:
            return id(self)
        raise Unsupported('hash of a symbolic number')

    def __bool__(self):
        r = (self != 0)
        return bool(r)

    def __index__(self):
        return concretize(self)

    def __int__(self):
        if self.is_const():
            return int(self.cval())
        return concretize(trunc(self))

    def __float__(self):
        if self.is_const():
            return self.cval()
        raise Unsupported('float() of a symbolic number by compiled code')

    # -- integer bit operations
    def __and__(self, k):
        if isinstance(k, S) and k.is_const() and k.isint():
            k = int(k.cval())
        if isinstance(k, S) and k.isint() and self.isint():
            return self._bits(k, lambda a, b: a * b)
        if isinstance(k, (int,)) and not isinstance(k, bool) and self.isint():
            if k < 0:
                raise Unsupported('bit operation with a negative number')
            r = S.const(0)
            i = 0
            while k >> i:
                if (k >> i) & 1:
                    r = r + bit(self, i) * (1 << i)
                i += 1
            return r
        return NotImplemented
    __rand__ = __and__

    def _bits(self, k, f):
        k = lift(k)
        C = Ctx.cur
        (la, ha), (lb, hb) = C.bounds(self.p), C.bounds(k.p)
        if la < 0 or lb < 0 or max(ha, hb) >= 1 << 32:
            raise Unsupported('bit operation on numbers of unknown size')
        r = S.const(0)
        for i in range(int(max(ha, hb)).bit_length()):
            r = r + f(bit(self, i), bit(k, i)) * (1 << i)
        return r

    def __or__(self, k):
        if isinstance(k, bool) or not isinstance(k, (int, S)) or not (self.isint() and lift(k).isint()):
            return NotImplemented
        return self._bits(k, lambda a, b: a + b - a * b)
    __ror__ = __or__

    def __xor__(self, k):
        if isinstance(k, bool) or not isinstance(k, (int, S)) or not (self.isint() and lift(k).isint()):
            return NotImplemented
        return self._bits(k, lambda a, b: a + b - 2 * a * b)
    __rxor__ = __xor__

    def __rshift__(self, k):
        return floor(self / (1 << int(k)))

    def __lshift__(self, k):
        return self * (1 << int(k))

    def __round__(self, n=None):
        if n is None or n == 0:
            return floor(self + 0.5)
        return floor(self * 10 ** n + 0.5) / 10 ** n

    def __trunc__(self):
        return trunc(self)

    def __floor__(self):
        return floor(self)

    def __ceil__(self):
        return -floor(-self)

    # -- numpy object-dtype ufunc hooks
    def sin(self): return sin(self)
    def cos(self): return cos(self)
    def tan(self): return tan(self)
    def exp(self): return exp(self)
    def expm1(self): return exp(self) - 1
    def log(self): return log(self)
    def log1p(self): return log(self + 1)
    def log10(self): return log(self) / math.log(10)
    def sqrt(self): return sqrt(self)
    def cbrt(self): return self ** (1 / 3)
    def arctan(self): return atan(self)
    def arcsin(self): return asin(self)
    def arccos(self): return acos(self)
    def arctan2(self, o): return atan2(self, o)
    def hypot(self, o): return sqrt(self * self + o * o)
    def sinh(self): return (exp(self) - exp(-self)) / 2
    def cosh(self): return (exp(self) + exp(-self)) / 2
    def tanh(self):
        e = exp(2 * self)
        return (e - 1) / (e + 1)
    def deg2rad(self): return self * (PI / 180)
    def radians(self): return self * (PI / 180)
    def rad2deg(self): return self * (180 / PI)
    def degrees(self): return self * (180 / PI)
    def floor(self): return floor(self)
    def ceil(self): return -floor(-self)
    def trunc(self): return trunc(self)
    def rint(self): return floor(self + 0.5)
    def fabs(self): return abs(self)
    def conjugate(self): return self
    conj = conjugate
    def square(self): return self * self
    def reciprocal(self): return 1 / self
    def sign(self):
        if bool(self > 0):
            return 1
        return -1 if bool(self < 0) else 0

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0

    def item(self):
        return self

    def is_integer(self):
        if self.isint():
            return True
        return bool(self == floor(self))

    def bit_length(self):
        raise Unsupported('bit_length')

    def as_integer_ratio(self):
        raise Unsupported('as_integer_ratio')

    def astype(self, t):
        if t in (int, 'int', 'i8', 'int64'):
            return trunc(self)
        return self

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def div_zero(x):
    if isinstance(x, S) and not x.is_const():
        if bool(x == 0):
            return float('nan')
        return INF if bool(x > 0) else -INF
    v = x.cval() if isinstance(x, S) else x
    return float('nan') if v == 0 else (INF if v > 0 else -INF)


def bit(x, i):
    """i-th bit of a nonnegative integer-valued S."""
    C = Ctx.cur
    if x.is_const():
        return S.const((int(x.cval()) >> i) & 1)
    # x = sum of distinct single-bit variables times powers of two?  pick it directly
    ok = True
    seen = set()
    found = 0.0
    const = int(x.p.get((), 0.0)) if x.p.get((), 0.0) >= 0 else None
    if const is None:
        ok = False
    r = S.const(0)
    if ok:
        used = const
        for m, c in x.p.items():
            if not m:
                continue
            a = C.atoms[m[0][0]] if len(m) == 1 and m[0][1] == 1 else None
            if a is None or not a.isint or a.lo < 0 or a.hi > 1 or c < 1 or c != int(c) or (int(c) & (int(c) - 1)):
                ok = False
                break
            if used & int(c):
                ok = False
                break
            used |= int(c)
            if int(c) == (1 << i):
                r = S({m: 1.0})
        if ok and (const >> i) & 1:
            r = S.const(1)
    if ok:
        return r
    return floor(x / (1 << i)) - 2 * floor(x / (1 << (i + 1)))


def spow(p, e):
    """p ** e for non-(positive integer) e, p not constant."""
    C = Ctx.cur
    lo, hi = C.bounds(p)
    if len(p) == 1:
        (m, c), = p.items()
        okm = isinstance(e, int) or (c > 0 and all(C.atoms[a].lo >= 0 or _evenpow(x, e) for a, x in m))
        if okm:
            if isinstance(e, int) and e < 0 and lo <= 0 <= hi:
                nonzero(p)
            out = {(): c ** e}
            mm = []
            red = False
            for a, x in m:
                n = x * e
                if not isinstance(n, int):
                    n = C.snap_exp(a, n)
                if C.atoms[a].lo < 0 and not isinstance(e, int):
                    # (a^2)^(1/2) -> |a|
                    sa = abs(S({((a, 1),): 1.0}))
                    out = pmul(out, (sa ** (x * e)).p)
                    continue
                k = C.atoms[a].kind
                if (k == 'base' and n >= 1) or (k == 'cos' and isinstance(n, int) and n >= 2):
                    red = True
                mm.append((a, n))
            mono = tuple(mm)
            if red:
                return pmul(out, _reduce(mono, 1.0))
            return pmul(out, {mono: 1.0}) if mono else out
    # common factor of positive atoms
    common = None
    for m in p:
        d = dict(m)
        if common is None:
            common = {a: x for a, x in d.items() if C.atoms[a].lo > 0 or (isinstance(e, int))}
        else:
            for a in list(common):
                common[a] = min(common[a], d.get(a, 0))
        for a, x in d.items():
            if x < 0 and a not in common and C.atoms[a].lo > 0:
                common[a] = x
    common = {a: x for a, x in common.items() if x != 0}
    pre = ONE
    if common:
        cm = tuple(sorted(common.items()))
        ci = tuple(sorted((a, -x) for a, x in common.items()))
        p = pmul(p, {ci: 1.0})
        pre = spow({cm: 1.0}, e) if not (isinstance(e, int) and e > 0) else ppow({cm: 1.0}, e)
        lo, hi = C.bounds(p)
        if len(p) == 1 and () in p:
            return pmul(pre, {(): p[()] ** e})
    # multi-term: normalise by the largest coefficient
    mx = max(p.items(), key=lambda t: (round(math.log(abs(t[1])), 6), t[0]))
    k = abs(mx[1])
    if isinstance(e, int) and mx[1] < 0:
        k = -k
    pn = {m: c / k for m, c in p.items()}
    if isinstance(e, int) and lo <= 0 <= hi:
        nonzero(p)
    # a power of a base seen before
    if len(pn) > 2:
        vs = {a for m in pn for a, _ in m}
        for at in C.bykind.get('base', ()):
            f = at.args[0]
            if len(f) < len(pn) <= 400 and (isinstance(e, int) or at.lo > 0) and {a for m in f for a, _ in m} == vs:
                for n in (2, 3, 4):
                    fn = ppow(f, n)
                    if len(fn) >= len(pn):
                        m0 = mx[0]
                        if m0 in fn and fn[m0] and max(map(abs, C.bounds(padd(pn, fn, -(1 if mx[1] / k > 0 else -1) / fn[m0])))) < 1e-10:
                            kk = k / fn[m0] if mx[1] / k > 0 else -k / fn[m0]
                            if isinstance(e, int) or kk > 0:
                                r = {((at.id, n * e),): kk ** e}
                                return pmul(pre, _reduce(((at.id, n * e),), kk ** e) if e >= 1 else r)
    b = C.bounds(pn)
    blo, bhi = b
    if not isinstance(e, int):
        blo = max(blo, 0.0)
    a = C.fn_atom('base', (pn,), blo, bhi)
    if e >= 1:
        return pmul(pre, pmul({(): k ** e}, _reduce(((a.id, e),), 1.0)))
    return pmul(pre, {((a.id, e),): k ** e})


def _evenpow(x, e):
    return isinstance(x, int) and x % 2 == 0


def nonzero(p):
    C = Ctx.cur
    C.assumptions.add('divisors are nonzero')
    C.add(SymBool.cmp('!=', p))


def sqrt(x):
    if not isinstance(x, S):
        return math.sqrt(x) if x >= 0 else float('nan')
    return x ** 0.5


def _expand_multiple(n, base, fn):
    """sin/cos of n*u by recurrence, n in 2..4"""
    s, c = sin(base), cos(base)
    S1, C1 = s, c
    for _ in range(n - 1):
        S1, C1 = S1 * c + C1 * s, C1 * c - S1 * s
    return S1 if fn == 'sin' else C1


def _trig(x, fn):
    x = lift(x)
    if x.is_const():
        return S.const(getattr(math, fn)(x.cval()))
    C = Ctx.cur
    p = x.p
    # atom arguments with closed forms
    if len(p) == 1:
        (m, c), = p.items()
        if len(m) == 1 and m[0][1] == 1:
            a = C.atoms[m[0][0]]
            if a.kind in ('atan', 'asin', 'acos', 'atan2'):
                if abs(c) == 1.0:
                    return _trig_inv(a, fn) * (c if fn == 'sin' else 1.0)
                if abs(c) == 2.0:
                    s, co = _trig_inv(a, 'sin'), _trig_inv(a, 'cos')
                    return (2 * s * co) * (1 if c > 0 else -1) if fn == 'sin' else 1 - 2 * s * s
                if abs(c) == 0.5 and a.kind == 'acos':
                    u = S(a.args[0])
                    h = ((1 - u) / 2) ** 0.5 if fn == 'sin' else ((1 + u) / 2) ** 0.5
                    return h * (1 if c > 0 or fn == 'cos' else -1)
    # multiples 2..4 of an angle with integer coefficients (in degrees or radians), or of an angle seen before
    for u in (PI / 180, 1.0):
        g = 0
        for m, c in p.items():
            if m:
                n = c / u
                r = round(n)
                if r == 0 or abs(n - r) > 1e-11 * abs(n):
                    g = 0
                    break
                g = math.gcd(g, abs(r))
        if 2 <= g <= 4:
            return _expand_multiple(g, S({m: c / g for m, c in p.items()}), fn)
    if len(p) > 1:
        m0 = min((m for m in p if m), default=())
        for g in (2, 3, 4):
            h = {m: c / g for m, c in p.items()}
            if h[m0] < 0:
                h = {m: -c for m, c in h.items()}
            if any(approx_eq(a.args[0], h, 1e-10, True) for a in C.bykey.get(('sin', tuple(sorted(h))), ())):
                return _expand_multiple(g, S({m: c / g for m, c in p.items()}), fn)
    # whole turns: coefficients of integer-valued monomials count modulo a turn
    for m, c in list(p.items()):
        n = round(c / (2 * PI))
        if m and n and all(C.atoms[a].isint and isinstance(e, int) and e > 0 for a, e in m):
            if p is x.p:
                p = dict(p)
            if abs(c - n * 2 * PI) < 1e-11 * abs(c):
                del p[m]
            else:
                p[m] = c - n * 2 * PI
            if not any(p):
                return S.const(getattr(math, fn)(p.get((), 0.0)))
    # constant term: reduce modulo quarter turns
    k = p.get((), 0.0)
    if k != 0.0:
        qn = round(k / (PI / 2))
        rest = k - qn * (PI / 2)
        p2 = dict(p)
        if abs(rest) < 1e-11 * max(1.0, abs(k)):
            del p2[()]
        else:
            p2[()] = rest
        if qn:
            qn %= 4
            y = S(p2)
            if fn == 'sin':
                return (_trig(y, 'sin'), _trig(y, 'cos'), -_trig(y, 'sin'), -_trig(y, 'cos'))[qn]
            return (_trig(y, 'cos'), -_trig(y, 'sin'), -_trig(y, 'cos'), _trig(y, 'sin'))[qn]
        p = p2
    sgn = 1.0
    m0 = min((m for m in p if m), default=())
    if p[m0] < 0:
        p = {m: -c for m, c in p.items()}
        sgn = -1.0
    sa = C.fn_atom('sin', (p,), -1.0, 1.0, absolute=True)
    if sa.pair is None:
        ca = C.new_atom('cos', sa.args, -1.0, 1.0)
        sa.pair, ca.pair = ca.id, sa.id
        lo, hi = C.bounds(sa.args[0])
        if lo > -PI / 2 - 1e-12 and hi < PI / 2 + 1e-12:
            ca.lo = max(0.0, min(math.cos(lo), math.cos(hi)))
            sa.lo, sa.hi = math.sin(max(lo, -PI / 2)), math.sin(min(hi, PI / 2))
        elif lo >= 0 and hi <= PI:
            sa.lo = 0.0
        elif lo >= -PI and hi <= 0:
            sa.hi = 0.0
    if fn == 'sin':
        return S({((sa.id, 1),): sgn})
    return S({((sa.pair, 1),): 1.0})


def _trig_inv(a, fn):
    u = S(a.args[0])
    if a.kind == 'atan':
        h = (1 + u * u) ** -0.5
        return u * h if fn == 'sin' else h
    if a.kind == 'asin':
        return u if fn == 'sin' else sqrt(1 - u * u)
    if a.kind == 'acos':
        return u if fn == 'cos' else sqrt(1 - u * u)
    v = S(a.args[1])
    h = (u * u + v * v) ** -0.5
    return (u if fn == 'sin' else v) * h


def sin(x):
    return _trig(x, 'sin')


def cos(x):
    return _trig(x, 'cos')


def tan(x):
    x = lift(x)
    if x.is_const():
        return S.const(math.tan(x.cval()))
    return sin(x) / cos(x)


def exp(x):
    if isinstance(x, SymC):
        e = exp(x.re)
        return SymC(e * cos(x.im), e * sin(x.im))
    x = lift(x)
    C = Ctx.cur
    k = 1.0
    out = []
    for m, c in x.p.items():
        if not m:
            try:
                k = math.exp(c)
            except OverflowError:
                return INF
            continue
        if len(m) == 1 and m[0][1] == 1 and C.atoms[m[0][0]].kind == 'log':
            (inner,) = C.atoms[m[0][0]].args
            o = S(inner) ** c
            out.append(o.p)
            continue
        a = C.bykey.get(('Em', m))
        if a is None:
            # the atom is exp(monomial / scale) with a power of two that keeps it in the range of floats
            lo, hi = C.monobound(m)
            big = max(abs(lo), abs(hi))
            sc = 1.0
            if big > 16:
                sc = 2.0 ** math.ceil(math.log2(big / 16)) if big < INF else 2.0 ** max(0, math.ceil(-math.log2(abs(c))))
            a = C.new_atom('E', ({m: 1.0 / sc},), _safe_exp(lo / sc), _safe_exp(hi / sc))
            C.bykey[('Em', m)] = a
            C.escale[a.id] = sc
        out.append({((a.id, C.snap_exp(a.id, c * C.escale[a.id])),): 1.0})
    r = {(): k}
    for o in out:
        r = pmul(r, o)
    return S(r)


def _safe_exp(x):
    if x == -INF:
        return 1e-300
    if x < -690:
        return 1e-300
    if x > 690:
        return INF
    return math.exp(x)


def log(x):
    x = lift(x)
    if x.is_const():
        c = x.cval()
        return S.const(math.log(c)) if c > 0 else (-INF if c == 0 else float('nan'))
    C = Ctx.cur
    if len(x.p) == 1:
        (m, c), = x.p.items()
        if c > 0 and all(C.atoms[a].lo > 0 for a, _ in m):
            r = S.const(math.log(c))
            for a, e in m:
                at = C.atoms[a]
                if at.kind == 'E':
                    r = r + S(at.args[0]) * e
                else:
                    l = C.fn_atom('log', ({((a, 1),): 1.0},), math.log(at.lo), math.log(at.hi) if at.hi < INF else INF)
                    r = r + S({((l.id, 1),): float(e)})
            return r
    lo, hi = x.bounds()
    if lo <= 0:
        if not bool(x > 0):
            return float('nan')
    l = C.fn_atom('log', (x.p,), math.log(lo) if lo > 0 else -INF, math.log(hi) if 0 < hi < INF else INF)
    return S({((l.id, 1),): 1.0})


def _odd(kind, x, lo, hi, f):
    x = lift(x)
    if x.is_const():
        return S.const(f(x.cval()))
    C = Ctx.cur
    m0 = min(x.p)
    sgn = 1.0
    p = x.p
    if p[m0] < 0:
        p = {m: -c for m, c in p.items()}
        sgn = -1.0
    l, h = C.bounds(p)
    l2 = f(l) if l > -INF else lo
    h2 = f(h) if h < INF else hi
    a = C.fn_atom(kind, (p,), l2, h2)
    return S({((a.id, 1),): sgn})


def atan(x):
    return _odd('atan', x, -PI / 2, PI / 2, math.atan)


def asin(x):
    return _odd('asin', x, -PI / 2, PI / 2, lambda v: math.asin(max(-1, min(1, v))))


def acos(x):
    x = lift(x)
    if x.is_const():
        return S.const(math.acos(x.cval()))
    C = Ctx.cur
    l, h = x.bounds()
    f = lambda v: math.acos(max(-1.0, min(1.0, v)))
    a = C.fn_atom('acos', (x.p,), f(h), f(l))
    return S({((a.id, 1),): 1.0})


def padd_is_zero(p, r, k):
    """p equals k times r exactly"""
    if k == 0.0:
        return not p
    return len(p) == len(r) and all(m in r and r[m] * k == c for m, c in p.items())


def atan2(y, x):
    if isinstance(y, float) and y != y or isinstance(x, float) and x != x:
        return float('nan')
    y, x = lift(y), lift(x)
    if y.is_const() and x.is_const():
        return S.const(math.atan2(y.cval(), x.cval()))
    C = Ctx.cur
    lo, hi = -PI, PI
    ly, hy = y.bounds()
    lx, hx = x.bounds()
    # both multiples of one polynomial of known sign
    base = x if not x.is_const() else y
    m0 = next(iter(base.p))
    ky, kx = y.p.get(m0, 0.0) / base.p[m0], x.p.get(m0, 0.0) / base.p[m0]
    if all(padd_is_zero(v.p, base.p, k) for v, k in ((y, ky), (x, kx))):
        if bool(base > 0):
            return S.const(math.atan2(ky, kx))
        if bool(base < 0):
            return S.const(math.atan2(-ky if ky else 0.0, -kx if kx else 0.0))
        return S.const(0.0)
    if lx > 0:
        lo, hi = -PI / 2, PI / 2
    if ly >= 0:
        lo = max(lo, 0.0)
    a = C.fn_atom('atan2', (y.p, x.p), lo, hi)
    return S({((a.id, 1),): 1.0})


def erf(x):
    x = lift(x)
    if not x.is_const() and len(x.p) == 1:
        (m, c), = x.p.items()
        if len(m) == 1 and m[0][1] == 1 and Ctx.cur.atoms[m[0][0]].kind == 'erfcinv' and abs(abs(c) - 1) < 1e-12:
            r = 1 - S(Ctx.cur.atoms[m[0][0]].args[0])
            return r if c > 0 else -r
    return _odd('erf', x, -1.0, 1.0, math.erf)


def erfc(x):
    return 1 - erf(x)


def erfcinv(x):
    x = lift(x)
    if x.is_const():
        return S.const(_erfcinv(x.cval()))
    C = Ctx.cur
    l, h = x.bounds()
    a = C.fn_atom('erfcinv', (x.p,), _erfcinv(h) if h < 2 else -INF, _erfcinv(l) if l > 0 else INF)
    return S({((a.id, 1),): 1.0})


def erfinv(x):
    return erfcinv(1 - x)


def smax(xs):
    """largest of three or more numbers, as one term"""
    xs = [lift(x) for x in xs]
    C = Ctx.cur
    b = [x.bounds() for x in xs]
    top = max(l for l, _ in b)
    k, seen = [], []
    for x, (l, h) in zip(xs, b):
        if h < top or any(approx_eq(x.p, y.p, 1e-12) for y in k):
            continue
        k.append(x)
    if len(k) == 1:
        return k[0]
    k.sort(key=lambda x: sorted(x.p.items()))
    a = C.fn_atom('max', tuple(x.p for x in k), top, max(h for _, h in b), tol=1e-12)
    return S({((a.id, 1),): 1.0})


def smin(xs):
    return -smax([-lift(x) for x in xs])


def floor(x):
    if not isinstance(x, S):
        return math.floor(x)
    if x.is_const():
        return S.const(math.floor(x.cval()))
    if x.isint():
        return x
    C = Ctx.cur
    lo, hi = x.bounds()
    if lo > -INF and hi < INF:
        # tolerate rounding in the interval ends
        fl, fh = math.floor(lo), math.floor(hi)
        if fl == fh:
            return S.const(fl)
    # split off the integer part of the polynomial
    ip, fp = {}, {}
    for m, c in x.p.items():
        if c == int(c) and all(C.atoms[a].isint and isinstance(e, int) and e > 0 for a, e in m):
            ip[m] = c
        else:
            fp[m] = c
    if ip:
        return S(ip) + floor(S(fp))
    a = C.fn_atom('floor', (fp,), math.floor(lo) if lo > -INF else -INF, math.floor(hi) if hi < INF else INF, isint=True, tol=1e-13)
    return S({((a.id, 1),): 1.0})


def trunc(x):
    if not isinstance(x, S):
        return math.trunc(x)
    if x.isint():
        return x
    lo, hi = x.bounds()
    if lo >= 0:
        return floor(x)
    if hi <= 0:
        return -floor(-x)
    if bool(x >= 0):
        return floor(x)
    return -floor(-x)


def concretize(x):
    """Fork over the feasible integer values of x (small range)."""
    if x.is_const():
        return int(x.cval())
    C = Ctx.cur
    if not x.isint():
        raise Unsupported('index from a symbolic real')
    for _ in range(64):
        lo, hi = x.bounds()
        v = None
        if hi - lo <= 32:
            for v in range(int(lo), int(hi) + 1):
                if v == int(hi) or bool(x == v):
                    return v
        z = C.zpoly(x.p)
        if C.check() == z3.unsat:
            raise Infeasible()
        m = C.solver.model()
        vv = m.eval(z, model_completion=True)
        v = _zval(vv)
        v = int(v)
        if bool(x == v):
            return v
    raise Unsupported('too many values to concretise')


def _zval(v):
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return float(v.as_fraction())
    if z3.is_algebraic_value(v):
        return float(v.approx(20).as_fraction())
    return 0


# --------------------------------------------------------------------------- booleans
class SymBool:
    __slots__ = ('k', 'a', 'b', '_key')

    def __init__(self, k, a=None, b=None):
        self.k, self.a, self.b = k, a, b
        self._key = None

    @staticmethod
    def cmp(op, p):
        """p op 0, op in < <= == !="""
        if not p or (len(p) == 1 and () in p):
            c = p.get((), 0.0)
            return {'<': c < 0, '<=': c <= 0, '==': c == 0, '!=': c != 0}[op]
        return SymBool(op, p)

    def key(self):
        return id(self)

    def quick(self):
        k = self.k
        if k in ('<', '<=', '==', '!='):
            lo, hi = Ctx.cur.bounds(self.a)
            if k == '<':
                return True if hi < 0 else False if lo >= 0 else None
            if k == '<=':
                return True if hi <= 0 else False if lo > 0 else None
            if lo > 0 or hi < 0:
                return k == '!='
            return None
        if k == 'and':
            vs = [_quick(x) for x in self.a]
            if any(v is False for v in vs):
                return False
            return True if all(v is True for v in vs) else None
        if k == 'or':
            vs = [_quick(x) for x in self.a]
            if any(v is True for v in vs):
                return True
            return False if all(v is False for v in vs) else None
        if k == 'not':
            v = _quick(self.a)
            return None if v is None else not v
        return None

    def z3(self, zp=None):
        zp = zp or Ctx.cur.zpoly
        k = self.k
        if k == '<':
            return zp(self.a) < 0
        if k == '<=':
            return zp(self.a) <= 0
        if k == '==':
            return zp(self.a) == 0
        if k == '!=':
            return zp(self.a) != 0
        if k == 'and':
            return z3.And([_z(x, zp) for x in self.a])
        if k == 'or':
            return z3.Or([_z(x, zp) for x in self.a])
        if k == 'not':
            return z3.Not(_z(self.a, zp))
        raise AssertionError(k)

    def ev(self, vals, memo=None):
        k = self.k
        if k in ('<', '<=', '==', '!='):
            v = Ctx.cur.eval_poly(self.a, vals, memo)
            if v != v:
                return False
            return {'<': v < 0, '<=': v <= 0, '==': v == 0, '!=': v != 0}[k]
        if k == 'and':
            return all(_ev(x, vals, memo) for x in self.a)
        if k == 'or':
            return any(_ev(x, vals, memo) for x in self.a)
        return not _ev(self.a, vals, memo)

    def polys(self):
        if self.k in ('<', '<=', '==', '!='):
            yield self.a
        elif self.k == 'not':
            if isinstance(self.a, SymBool):
                yield from self.a.polys()
        else:
            for x in self.a:
                if isinstance(x, SymBool):
                    yield from x.polys()

    def __bool__(self):
        return Ctx.cur.decide(self)

    def __invert__(self):
        k = self.k
        if k == '<':
            return SymBool.cmp('<=', {m: -c for m, c in self.a.items()})
        if k == '<=':
            return SymBool.cmp('<', {m: -c for m, c in self.a.items()})
        if k == '==':
            return SymBool('!=', self.a)
        if k == '!=':
            return SymBool('==', self.a)
        if k == 'not':
            return self.a
        return SymBool('not', self)
    logical_not = __invert__

    def __and__(self, o):
        if o is True:
            return self
        if o is False:
            return False
        if isinstance(o, SymBool):
            return SymBool('and', [self, o])
        return bool(self) & o
    __rand__ = __and__

    def __or__(self, o):
        if o is False:
            return self
        if o is True:
            return True
        if isinstance(o, SymBool):
            return SymBool('or', [self, o])
        return bool(self) | o
    __ror__ = __or__

    def __xor__(self, o):
        return bool(self) ^ bool(o)

    # numbers
    def __add__(self, o):
        return int(bool(self)) + o
    __radd__ = __add__

    def __mul__(self, o):
        return int(bool(self)) * o
    __rmul__ = __mul__

    def __sub__(self, o):
        return int(bool(self)) - o

    def __rsub__(self, o):
        return o - int(bool(self))

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def __eq__(self, o):
        return bool(self) == o

    def __ne__(self, o):
        return bool(self) != o

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return 'SymBool(%s)' % self.k


def _quick(x):
    return x.quick() if isinstance(x, SymBool) else bool(x)


def _z(x, zp):
    return x.z3(zp) if isinstance(x, SymBool) else z3.BoolVal(bool(x))


def _ev(x, vals, memo):
    return x.ev(vals, memo) if isinstance(x, SymBool) else bool(x)


def And(*xs):
    o = []
    for x in xs:
        if isinstance(x, SymBool):
            o.append(x)
        elif not x:
            return False
    return True if not o else o[0] if len(o) == 1 else SymBool('and', o)


def Or(*xs):
    o = []
    for x in xs:
        if isinstance(x, SymBool):
            o.append(x)
        elif x:
            return True
    return False if not o else o[0] if len(o) == 1 else SymBool('or', o)


def Not(x):
    return ~x if isinstance(x, SymBool) else not x


# --------------------------------------------------------------------------- complex
class LazyAbs(S):
    """|x|: comparisons need no case split on the sign of x, anything else makes one"""
    __slots__ = ('x', 'q')

    def __init__(self, x):
        self.x, self.q, self.lit = x, None, None

    @property
    def p(self):
        if self.q is None:
            x = self.x
            self.q = x.p if bool(x >= 0) else (-x).p
        return self.q

    def _cmp(self, o, op, flip=False):
        if self.q is None and not isinstance(o, (SymC, LazyAbs)) and not (isinstance(o, float) and (o != o or o in (INF, -INF))):
            x = self.x
            if op in ('<', '<='):
                return And(x._cmp(o, op), (-x)._cmp(o, op))
            if op in ('>', '>='):
                return Or(x._cmp(o, op), (-x)._cmp(o, op))
            if op == '==' and not isinstance(o, S):
                return Or(x._cmp(o, op), (-x)._cmp(o, op)) if o >= 0 else False
            if op == '!=' and not isinstance(o, S):
                return And(x._cmp(o, op), (-x)._cmp(o, op)) if o >= 0 else True
        return S._cmp(self, o, op)


class SymC:
    __slots__ = ('re', 'im')
    __array_priority__ = 1000

    def __init__(self, re, im=0.0):
        self.re = re if isinstance(re, S) else S.const(re)
        self.im = im if isinstance(im, S) else S.const(im)

    @staticmethod
    def of(x):
        if isinstance(x, SymC):
            return x
        if isinstance(x, S):
            return SymC(x, 0.0)
        if isinstance(x, SymBool):
            return SymC(1.0 if bool(x) else 0.0)
        try:
            z = complex(x)
        except TypeError:
            return None
        return SymC(z.real, z.imag)

    def __add__(self, o):
        o = SymC.of(o)
        return NotImplemented if o is None else SymC(self.re + o.re, self.im + o.im)
    __radd__ = __add__

    def __sub__(self, o):
        o = SymC.of(o)
        return NotImplemented if o is None else SymC(self.re - o.re, self.im - o.im)

    def __rsub__(self, o):
        return SymC.of(o) - self

    def __neg__(self):
        return SymC(-self.re, -self.im)

    def __pos__(self):
        return self

    def __mul__(self, o):
        o = SymC.of(o)
        if o is None:
            return NotImplemented
        return SymC(self.re * o.re - self.im * o.im, self.re * o.im + self.im * o.re)
    __rmul__ = __mul__

    def __truediv__(self, o):
        o = SymC.of(o)
        if o is None:
            return NotImplemented
        if o.im.is_const() and o.im.cval() == 0:
            return SymC(self.re / o.re, self.im / o.re)
        d = o.re * o.re + o.im * o.im
        return self * SymC(o.re / d, -o.im / d)

    def __rtruediv__(self, o):
        return SymC.of(o) / self

    def __pow__(self, n):
        if isinstance(n, S) and n.is_const():
            n = n.cval()
        if n == int(n) and n >= 0:
            r = SymC(1.0)
            for _ in range(int(n)):
                r = r * self
            return r
        raise Unsupported('complex power')

    def conjugate(self):
        return SymC(self.re, -self.im)
    conj = conjugate

    def __abs__(self):
        return sqrt(self.re * self.re + self.im * self.im)

    def exp(self):
        return exp(self)

    @property
    def real(self):
        return self.re

    @property
    def imag(self):
        return self.im

    def __eq__(self, o):
        o = SymC.of(o)
        return And(self.re == o.re, self.im == o.im)

    def __ne__(self, o):
        return Not(self == o)

    def __hash__(self):
        return id(self)

    def __bool__(self):
        return bool(self != 0)

    def __complex__(self):
        if self.re.is_const() and self.im.is_const():
            return complex(self.re.cval(), self.im.cval())
        raise Unsupported('complex() of symbolic by compiled code')

    def __float__(self):
        raise Unsupported('float of symbolic complex')

    def __lt__(self, o):
        raise Unsupported('ordering of complex numbers')
    __gt__ = __le__ = __ge__ = __lt__

    def __repr__(self):
        return 'C(%r,%r)' % (self.re, self.im)


def symbolic(x):
    return isinstance(x, (S, SymC, SymBool))


# --------------------------------------------------------------------------- proof-time normalisation
def clear_denominators(p, maxterms=20000):
    """Multiply p by powers of 'base' atoms to make their exponents nonnegative, then expand.
    Returns (poly, list of (atom, power)) with p * prod(atom^power) == poly."""
    C = Ctx.cur
    mult = []
    for _ in range(12):
        worst = {}
        for m in p:
            for a, e in m:
                if C.atoms[a].kind == 'base' and e < 0:
                    worst[a] = min(worst.get(a, 0), e)
        if not worst:
            break
        # innermost last: take the highest id first (later atoms may contain earlier ones)
        a = max(worst)
        k = int(math.ceil(-worst[a]))
        out = {}
        f = C.atoms[a].args[0]
        for m, c in p.items():
            d = dict(m)
            e = d.pop(a, 0) + k
            n = int(math.floor(e + 1e-12))
            fr = e - n
            if abs(fr) > 1e-12:
                d[a] = fr if isinstance(fr, float) else float(fr)
            mono = tuple(sorted(d.items()))
            t = pmul({mono: c}, ppow(f, n)) if n else {mono: c}
            out = padd(out, t)
            if len(out) > maxterms:
                return None, None
        mult.append((a, k))
        p = out
    # common laurent denominators of plain atoms need no clearing
    return p, mult
