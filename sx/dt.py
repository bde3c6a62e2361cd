"""Symbolic datetimes: microseconds since the epoch as an integer-valued polynomial."""
import re as _re
import collections, datetime as _dt, math
import z3
from . import sym
from .sym import S, SymBool, Ctx, And, Or, Not, Unsupported, floor, lift, q, _civil, _ymd
from .strs import SymStr, cells_of, mk, is_s, cell_pred, cell_eq, to_int, SC, Num, digitval, int_digits, all_digits, DIG

DAY = 86400 * 10 ** 6
REAL = _dt.datetime
UTC = _dt.timezone.utc


def civil(y, m, d):
    """days since 1970-01-01 of a civil date"""
    if not any(isinstance(v, S) and not v.is_const() for v in (y, m, d)):
        return S.const(_civil(_c(y), _c(m), _c(d)))
    C = Ctx.cur
    y, m, d = lift(y), lift(m), lift(d)
    n = _day_of(C, y, m)  # year and month of a known day number
    if n is not None:
        return n - civil_field(2, n) + d
    # the day of month enters linearly
    a = C.fn_atom('civil', (y.p, m.p, {(): 1.0}), -800000.0, 2950000.0, isint=True)
    return S({((a.id, 1),): 1.0}) + d - 1


def _day_of(C, y, m):
    ya, ma = (_whole(C, v) for v in (y, m))
    if ya is not None and ma is not None and ya.kind == 'ymd0' and ma.kind == 'ymd1' and dict(ya.args[0]) == dict(ma.args[0]):
        return S(dict(ya.args[0]))
    return None


def _whole(C, v):
    """the atom that v is, if it is just one"""
    if len(v.p) != 1:
        return None
    (m, c), = v.p.items()
    return C.atoms[m[0][0]] if c == 1 and len(m) == 1 and m[0][1] == 1 else None


def _c(v):
    return int(v.cval()) if isinstance(v, S) else int(v)


def civil_axiom(C, a, z):
    return civil_axiom_z(C.zpoly, a, z)


def civil_axiom_z(zp, a, z):
    y, m, d = (zp(p) for p in a.args)
    y, m, d = (z3.ToInt(v) if v.is_real() else v for v in (y, m, d))
    y0 = z3.If(m <= 2, y - 1, y)
    mp = z3.If(m > 2, m - 3, m + 9)
    doy = (153 * mp + 2) / 5 + d - 1
    return [z == y0 * 365 + y0 / 4 - y0 / 100 + y0 / 400 + doy - 719468]


def civil_field(i, n):
    """year, month or day (i = 0, 1, 2) of a number of days since 1970-01-01"""
    n = lift(n)
    if n.is_const():
        return S.const(_ymd(n.cval())[i])
    C = Ctx.cur
    lo, hi = ((1.0, 9999.0), (1.0, 12.0), (1.0, 31.0))[i]
    a = C.fn_atom('ymd%d' % i, (n.p,), lo, hi, isint=True)
    return S({((a.id, 1),): 1.0})


def ymd_axiom_z(zp, a, z, i):
    n = zp(a.args[0])
    n = z3.ToInt(n) if n.is_real() else n
    s = n + 719468
    era = s / 146097
    doe = s - era * 146097
    yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365
    doy = doe - (365 * yoe + yoe / 4 - yoe / 100)
    mp = (5 * doy + 2) / 153
    if i == 2:
        return [z == doy - (153 * mp + 2) / 5 + 1]
    m = z3.If(mp < 10, mp + 3, mp - 9)
    if i == 1:
        return [z == m]
    return [z == yoe + era * 400 + z3.If(m <= 2, 1, 0)]


def leap(y):
    y = lift(y)
    if y.is_const():
        v = int(y.cval())
        return v % 4 == 0 and (v % 100 != 0 or v % 400 == 0)
    return And(y % 4 == 0, Or(Not(y % 100 == 0), y % 400 == 0))


def valid_date(y, m, d):
    y, m, d = lift(y), lift(m), lift(d)
    n = _day_of(Ctx.cur, y, m) if Ctx.cur is not None else None
    if n is not None:
        if d.is_const() and 1 <= d.cval() <= 28:
            return True
        if not (d - civil_field(2, n)).p:
            return True
    r = And(m >= 1, m <= 12, d >= 1, d <= 31, lift(y) >= 1, lift(y) <= 9999)
    if r is False:
        return False
    lo, hi = d.bounds()
    if hi <= 28:
        return r
    r30 = Or(*[m == k for k in (4, 6, 9, 11)])
    return And(r, Or(Not(r30), d <= 30), Or(Not(m == 2), d <= 28, And(d == 29, leap(y)) if hi >= 29 else False))


def _clock(v, hi):
    v = lift(v)
    k = Ctx.cur.__dict__.get('clockfields', {}).get(tuple(sorted(v.p.items())))
    return True if k is not None and k <= hi else And(v >= 0, v <= hi)


def snapint(p):
    """round coefficients that are within rounding of an integer"""
    o = {}
    for m, c in p.items():
        r = round(c)
        o[m] = float(r) if abs(c - r) < 1e-6 * max(1.0, min(abs(c), 1e3) * 1e-3) and abs(c) < 2e15 else c
    return o


def symv(*vs):
    return any(isinstance(v, S) and not v.is_const() for v in vs)


class SymTD:
    """time difference in microseconds"""
    __slots__ = ('us',)

    def __init__(self, us):
        self.us = lift(us)

    @property
    def days(self):
        return floor(self.us / DAY)

    @property
    def seconds(self):
        r = self.us - self.days * DAY
        if all(c % 1000000 == 0 for c in r.p.values()):
            return S({m: c / 1000000 for m, c in r.p.items()})
        return floor(r / 1000000)

    @property
    def microseconds(self):
        return self.us - floor(self.us / 1000000) * 1000000

    def total_seconds(self):
        return self.us / 1000000

    def __truediv__(self, o):
        if isinstance(o, SymTD):
            return self.us / o.us
        if isinstance(o, _dt.timedelta):
            return self.us / tdus(o)
        return SymTD(self.us / o)

    def __mul__(self, k):
        return SymTD(self.us * k)
    __rmul__ = __mul__

    def __neg__(self):
        return SymTD(-self.us)

    def __abs__(self):
        return SymTD(abs(self.us))

    def __add__(self, o):
        if isinstance(o, SymTD):
            return SymTD(self.us + o.us)
        if isinstance(o, _dt.timedelta):
            return SymTD(self.us + tdus(o))
        if isinstance(o, (SymDT, REAL)):
            return SymDT.of(o) + self
        return NotImplemented
    __radd__ = __add__

    def __sub__(self, o):
        return self + (-(o if isinstance(o, SymTD) else SymTD(tdus(o))))

    def __rsub__(self, o):
        return (-self) + o

    def __pos__(self):
        return self

    def __rtruediv__(self, o):
        return lift(tdus(o)) / self.us

    def __floordiv__(self, o):
        if isinstance(o, (SymTD, _dt.timedelta)):
            return floor(self.us / tdus(o))
        return SymTD(floor(self.us / o))

    def __mod__(self, o):
        return SymTD(self.us - floor(self.us / tdus(o)) * tdus(o))

    def __divmod__(self, o):
        return self // o, self % o

    def __bool__(self):
        return bool(self.us != 0)

    def _cmp(self, o):
        if isinstance(o, _dt.timedelta):
            return lift(tdus(o))
        return o.us if isinstance(o, SymTD) else None

    def __lt__(self, o): return self.us < self._cmp(o)
    def __le__(self, o): return self.us <= self._cmp(o)
    def __gt__(self, o): return self.us > self._cmp(o)
    def __ge__(self, o): return self.us >= self._cmp(o)

    def __eq__(self, o):
        c = self._cmp(o)
        return False if c is None else self.us == c

    def __ne__(self, o):
        return Not(self == o)

    def __hash__(self):
        if sym.HASHOK[0]:
            return id(self)
        raise Unsupported('hash of a symbolic time')


def tdus(td):
    return td.days * DAY + td.seconds * 1000000 + td.microseconds


def offus(tz):
    """offset of a tzinfo in microseconds"""
    if isinstance(tz, SymTZ):
        return tz.us
    o = tz.utcoffset(None)
    if o is None:
        raise Unsupported('tzinfo without a fixed offset')
    return S.const(tdus(o))


def local_us():
    """offset of the machine's own time zone (used for naive times); UTC unless the case says otherwise"""
    C = Ctx.cur
    if C is None or C.local_us is None:
        if C is not None:
            C.assumptions.add('naive local time is UTC (the sandbox time zone)')
        return S.const(0)
    return C.local_us


def _loc(d):
    """naive times of a machine in another zone stay symbolic"""
    C = Ctx.cur
    if C is not None and C.local_us is not None and isinstance(d, REAL) and d.tzinfo is None:
        return SymDT.of(d)
    return d


class SymTZ(_dt.tzinfo):
    """fixed symbolic offset"""

    def __init__(self, us=0):
        self.us = lift(us)

    def utcoffset(self, d):
        return SymTD(self.us)


class SymTime:
    """time of day"""
    __slots__ = ('us', 'f', 'tz')

    def __init__(self, us, f, tz=None):
        self.us, self.f, self.tz = us, f, tz

    hour = property(lambda s: s.f[0])
    minute = property(lambda s: s.f[1])
    second = property(lambda s: s.f[2])
    microsecond = property(lambda s: s.f[3])
    tzinfo = property(lambda s: s.tz)

    def replace(self, **k):
        tz = k.pop('tzinfo', self.tz)
        f = [k.get(n, v) for n, v in zip(('hour', 'minute', 'second', 'microsecond'), self.f)]
        return TimeShim(*f, tzinfo=tz)

    def _c(self, o):
        if isinstance(o, SymTime):
            return o.us
        if isinstance(o, _dt.time):
            return ((o.hour * 60 + o.minute) * 60 + o.second) * 1000000 + o.microsecond
        raise TypeError('not a time')

    def __lt__(self, o): return self.us < self._c(o)
    def __le__(self, o): return self.us <= self._c(o)
    def __gt__(self, o): return self.us > self._c(o)
    def __ge__(self, o): return self.us >= self._c(o)
    def __eq__(self, o): return isinstance(o, (SymTime, _dt.time)) and lift(self.us) == self._c(o)
    def __ne__(self, o): return Not(self == o) if isinstance(self == o, SymBool) else not (self == o)
    __hash__ = None

    def isoformat(self, *a):
        raise Unsupported('isoformat')


class SymDate:
    """n: days since 1970; f: (y, m, d) when known"""
    __slots__ = ('n', 'f')

    def __init__(self, n, f=None):
        self.n, self.f = lift(n), f

    @staticmethod
    def of(x):
        if isinstance(x, SymDate):
            return x
        return SymDate(_civil(x.year, x.month, x.day), (x.year, x.month, x.day))

    def _fld(self, i):
        return self.f[i] if self.f is not None else civil_field(i, self.n)

    year = property(lambda s: s._fld(0))
    month = property(lambda s: s._fld(1))
    day = property(lambda s: s._fld(2))

    def toordinal(self): return self.n + 719163

    def weekday(self):
        return (self.n + 3) - 7 * floor((self.n + 3) / 7)

    def __sub__(self, o):
        if isinstance(o, (SymTD, _dt.timedelta)):
            return SymDate(self.n - floor(tdus(o) / DAY))
        return SymTD((self.n - SymDate.of(o).n) * DAY)

    def __rsub__(self, o): return SymTD((SymDate.of(o).n - self.n) * DAY)

    def __add__(self, o):
        return SymDate(self.n + floor(lift(tdus(o)) / DAY))
    __radd__ = __add__

    def __lt__(self, o): return self.n < SymDate.of(o).n
    def __le__(self, o): return self.n <= SymDate.of(o).n
    def __gt__(self, o): return self.n > SymDate.of(o).n
    def __ge__(self, o): return self.n >= SymDate.of(o).n
    def __eq__(self, o): return isinstance(o, (SymDate, _dt.date)) and self.n == SymDate.of(o).n
    def __ne__(self, o): return isinstance(o, (SymDate, _dt.date)) and self.n != SymDate.of(o).n or not isinstance(o, (SymDate, _dt.date))
    __hash__ = None

    def strftime(self, fmt):
        return SymDT(self.n * DAY, None, None if self.f is None else self.f + (0, 0, 0, 0)).strftime(fmt)

    def isoformat(self):
        return self.strftime('%Y-%m-%d')


_TT = collections.namedtuple('struct_time', 'tm_year tm_mon tm_mday tm_hour tm_min tm_sec tm_wday tm_yday tm_isdst')


class SymDT:
    """wall: microseconds of the wall clock since 1970; tz: tzinfo or None; f: (y,m,d,H,M,S,us) when known"""
    __slots__ = ('wall', 'tz', 'f')

    def __init__(self, wall, tz=None, f=None):
        self.wall, self.tz, self.f = wall, tz, f

    @staticmethod
    def of(x):
        if isinstance(x, SymDT):
            return x
        if isinstance(x, REAL):
            w = _civil(x.year, x.month, x.day) * DAY + ((x.hour * 60 + x.minute) * 60 + x.second) * 1000000 + x.microsecond
            return SymDT(S.const(w), x.tzinfo, (x.year, x.month, x.day, x.hour, x.minute, x.second, x.microsecond))
        return None

    @staticmethod
    def make(y, m, d, H=0, M=0, s=0, us=0, tz=None, check=True):
        vs = [v.__index__() if hasattr(v, '__index__') and not isinstance(v, S) else v for v in (y, m, d, H, M, s, us)]
        if any(isinstance(v, float) for v in vs):
            raise TypeError('integer argument expected, got float')
        if not symv(*vs) and not isinstance(tz, SymTZ):
            return _loc(REAL(*[_c(v) for v in vs], tzinfo=tz))
        for v in vs:
            if isinstance(v, S) and not v.isint():
                raise TypeError('integer argument expected, got float')
        y, m, d, H, M, s, us = vs
        if check:
            ok = And(valid_date(y, m, d), *[_clock(v, hi) for v, hi in ((H, 23), (M, 59), (s, 59), (us, 999999))])
            if not bool(ok):
                raise ValueError('date or time value out of range')
        w = civil(y, m, d) * DAY + ((lift(H) * 60 + M) * 60 + s) * 1000000 + us
        return SymDT(w, tz, (y, m, d, H, M, s, us))

    @property
    def inst(self):
        if self.tz is None:
            return self.wall
        return self.wall - offus(self.tz)

    @property
    def tzinfo(self):
        return self.tz

    def tod(self):
        return self.wall - floor(self.wall / DAY) * DAY

    def _fld(self, i):
        if self.f is not None:
            return self.f[i]
        if i < 3:
            return civil_field(i, floor(self.wall / DAY))
        t = self.tod()
        if i == 3:
            r = floor(t / 3600000000)
        elif i == 4:
            r = floor(t / 60000000) - 60 * floor(t / 3600000000)
        elif i == 5:
            r = floor(t / 1000000) - 60 * floor(t / 60000000)
        else:
            r = t - 1000000 * floor(t / 1000000)
        r = lift(r)
        # remembered as being in the range of its field
        Ctx.cur.__dict__.setdefault('clockfields', {})[tuple(sorted(r.p.items()))] = (23, 59, 59, 999999)[i - 3]
        return r

    year = property(lambda s: s._fld(0))
    month = property(lambda s: s._fld(1))
    day = property(lambda s: s._fld(2))
    hour = property(lambda s: s._fld(3))
    minute = property(lambda s: s._fld(4))
    second = property(lambda s: s._fld(5))
    microsecond = property(lambda s: s._fld(6))

    def timestamp(self):
        if self.tz is None:
            return (self.wall - local_us()) / 1000000
        return self.inst / 1000000

    def utcoffset(self):
        return None if self.tz is None else SymTD(offus(self.tz))

    def replace(self, **k):
        tz = k.pop('tzinfo', self.tz)
        if not k:
            return SymDT(self.wall, tz, self.f)
        names = ['year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond']
        if self.f is None and not set(k) & set(names[:3]):
            w = self.wall
            for n, u, hi in zip(names[3:], (3600000000, 60000000, 1000000, 1), (23, 59, 59, 999999)):
                if n in k:
                    v = lift(k[n])
                    if not v.isint():
                        raise TypeError('integer argument expected, got float')
                    if not bool(And(v >= 0, v <= hi)):
                        raise ValueError('%s out of range' % n)
            if set(k) == set(names[3:]):
                w = floor(w / DAY) * DAY + ((lift(k['hour']) * 60 + k['minute']) * 60 + k['second']) * 1000000 + k['microsecond']
            elif set(k) == {'microsecond'}:
                w = floor(w / 1000000) * 1000000 + k['microsecond']
            else:
                for i, (n, u) in enumerate(zip(names[3:], (3600000000, 60000000, 1000000, 1))):
                    if n in k:
                        w = w + (lift(k[n]) - self._fld(i + 3)) * u
            return SymDT(w, tz, None)
        f = [k[n] if n in k else self._fld(i) for i, n in enumerate(names)]
        return SymDT.make(*f, tz=tz)

    def astimezone(self, tz=None):
        tz = SymTZ(local_us()) if tz is None else tz
        inst = self.inst if self.tz is not None else self.wall - local_us()
        w = inst + offus(tz)
        if self.f is not None and not (w - self.wall).p:
            return SymDT(w, tz, self.f)
        return SymDT(w, tz, None)

    def tz_convert(self, tz):
        return self.astimezone(UTC)

    def tz_localize(self, tz):
        return SymDT(self.wall, UTC if tz in ('UTC', 'utc', UTC) else tz, self.f)

    def to_pydatetime(self, *a, **k):
        return self

    def _snap(self, freq, how):
        m = _re.fullmatch(r'(\d*)(us|ms|s|min|h|D|U|L|S|T|H)', freq) if isinstance(freq, str) else None
        if not m:
            raise Unsupported('rounding of a time to %r' % (freq,))
        u = int(m[1] or 1) * {'us': 1, 'ms': 1000, 's': 1000000, 'min': 60000000, 'h': 3600000000, 'D': DAY,
                              'U': 1, 'L': 1000, 'S': 1000000, 'T': 60000000, 'H': 3600000000}[m[2]]
        if self.tz is not None and not isinstance(self.tz, _dt.timezone):
            raise Unsupported('rounding of a zoned time')
        lo = floor(self.wall / u)
        r = self.wall - u * lo
        if how == 'floor':
            k = 0
        elif how == 'ceil':
            k = 1 if bool(r > 0) else 0
        elif bool(2 * r == u):          # half to even
            k = lo - 2 * floor(lo / 2)
        else:
            k = 1 if bool(2 * r > u) else 0
        return SymDT((lo + k) * u, self.tz)

    def round(self, freq, *a, **k):
        return self._snap(freq, 'round')

    def floor(self, freq, *a, **k):
        return self._snap(freq, 'floor')

    def ceil(self, freq, *a, **k):
        return self._snap(freq, 'ceil')

    def normalize(self):
        return self._snap('D', 'floor')

    def utctimetuple(self):
        return self.astimezone(UTC)

    def date(self):
        return SymDate(floor(self.wall / DAY), self.f[:3] if self.f is not None else None)

    def time(self):
        return SymTime(self.tod(), tuple(self._fld(i) for i in (3, 4, 5, 6)))

    def timetz(self):
        return SymTime(self.tod(), tuple(self._fld(i) for i in (3, 4, 5, 6)), self.tz)

    def isoweekday(self):
        return self.date().weekday() + 1

    def dst(self):
        return None

    def weekday(self):
        return self.date().weekday()

    def timetuple(self):
        y, m, d, H, M, s = [self._fld(i) for i in range(6)]
        return _TT(y, m, d, H, M, s, self.weekday(), floor(self.wall / DAY) - civil(y, 1, 1) + 1, -1)

    def toordinal(self):
        return floor(self.wall / DAY) + 719163

    def isoformat(self, sep='T', timespec='auto'):
        F = {'auto': '%H:%M:%S', 'hours': '%H', 'minutes': '%H:%M', 'seconds': '%H:%M:%S', 'microseconds': '%H:%M:%S.%f'}.get(timespec)
        if F is None:
            raise Unsupported('isoformat')
        if timespec == 'auto' and not bool(lift(self._fld(6)) == 0):
            F += '.%f'
        out = list(cells_of(self.strftime('%Y-%m-%d' + sep + F)))
        if self.tz is not None:
            off = lift(offus(self.tz))
            if not off.is_const() or off.cval() % 60000000:
                raise Unsupported('isoformat')
            m = int(off.cval()) // 60000000
            out.extend('%s%02d:%02d' % ('-' if m < 0 else '+', abs(m) // 60, abs(m) % 60))
        return mk(out)

    def strftime(self, fmt):
        out = []
        i = 0
        W = {'Y': (0, 4), 'm': (1, 2), 'd': (2, 2), 'H': (3, 2), 'M': (4, 2), 'S': (5, 2), 'f': (6, 6)}
        while i < len(fmt):
            if fmt[i] == '%':
                k, w = W.get(fmt[i + 1], (None, None))
                if fmt[i + 1] in 'jy':
                    y = lift(self._fld(0))
                    v, w = (floor(self.wall / DAY) - civil(y, 1, 1) + 1, 3) if fmt[i + 1] == 'j' else (y - 100 * floor(y / 100), 2)
                    out.extend(cells_of(int_digits(v, w)))
                    i += 2
                    continue
                if k is None:
                    raise Unsupported('strftime')
                out.extend(cells_of(int_digits(self._fld(k), w)))
                i += 2
            else:
                out.append(fmt[i])
                i += 1
        return mk(out)

    def _aware(self, o):
        if (self.tz is None) != (o.tz is None):
            raise TypeError("can't compare or subtract offset-naive and offset-aware datetimes")

    def __sub__(self, o):
        if isinstance(o, SymTD):
            return SymDT(self.wall - o.us, self.tz)
        if isinstance(o, _dt.timedelta):
            return SymDT(self.wall - tdus(o), self.tz)
        o = SymDT.of(o)
        if o is None:
            return NotImplemented
        self._aware(o)
        return SymTD(self.inst - o.inst)

    def __rsub__(self, o):
        o = SymDT.of(o)
        if o is None:
            return NotImplemented
        return o - self

    def __add__(self, o):
        if isinstance(o, SymTD):
            return SymDT(self.wall + o.us, self.tz)
        if isinstance(o, _dt.timedelta):
            return SymDT(self.wall + tdus(o), self.tz)
        return NotImplemented
    __radd__ = __add__

    def _c(self, o):
        o = SymDT.of(o)
        if o is None:
            return None
        self._aware(o)
        return o.inst

    def __lt__(self, o): return self.inst < self._c(o)
    def __le__(self, o): return self.inst <= self._c(o)
    def __gt__(self, o): return self.inst > self._c(o)
    def __ge__(self, o): return self.inst >= self._c(o)

    def __eq__(self, o):
        o = SymDT.of(o)
        if o is None or (self.tz is None) != (o.tz is None):
            return False
        return self.inst == o.inst

    def __ne__(self, o):
        return Not(self == o)

    def __hash__(self):
        if sym.HASHOK[0]:
            return id(self)
        raise Unsupported('hash of a symbolic time')

    def __repr__(self):
        return 'SymDT(%r,%r)' % (self.wall, self.tz)
    __str__ = __repr__

    def __copy__(self):
        return self

    def __deepcopy__(self, m):
        return self


# --------------------------------------------------------------------------- parsing
def _digits(c, i, lo, hi):
    """take lo..hi digits greedily; returns (int value, count) or None"""
    k = 0
    while k < hi and i + k < len(c) and not isinstance(c[i + k], Num) and bool(cell_pred(c[i + k], lambda ch: ch in '0123456789')):
        k += 1
    if k < lo:
        return None
    v = S.const(0)
    for x in c[i:i + k]:
        v = v * 10 + digitval(x)
    return v, k


_MON = {m.lower(): i + 1 for i, m in enumerate(['Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct', 'Nov', 'Dec'])}


def strptime(s, fmt, tz=None):
    """datetime.strptime on text with symbolic characters.  Numeric fields take the widest digit run allowed."""
    if isinstance(s, str):
        return _loc(REAL.strptime(s, fmt))
    c = s.c
    i = 0
    f = dict(Y=1900, m=1, d=1, H=0, M=0, S=0, f=0)
    doy = None
    k = 0
    width = {'Y': (4, 4), 'm': (1, 2), 'd': (1, 2), 'H': (1, 2), 'M': (1, 2), 'S': (1, 2), 'j': (1, 3), 'y': (2, 2), 'f': (1, 6)}
    while k < len(fmt):
        ch = fmt[k]
        if ch == '%':
            d = fmt[k + 1]
            k += 2
            if d == '%':
                if i >= len(c) or not bool(cell_eq(c[i], '%')):
                    raise ValueError('time data does not match format')
                i += 1
                continue
            if d == 'z':
                if i < len(c) and bool(cell_eq(c[i], 'Z')):
                    tz = UTC
                    i += 1
                    continue
                m = None
                if i < len(c) and c[i] in ('+', '-'):
                    for form in ('dd:dd', 'dddd'):
                        t = c[i + 1:i + 1 + len(form)]
                        if len(t) == len(form) and all(isinstance(x, str) and (x.isdigit() if f == 'd' else x == ':') for x, f in zip(t, form)):
                            m = ''.join(x for x in t if x != ':')
                            break
                if m is None or (i + 1 + len(form) < len(c) and c[i + 1 + len(form)] == ':'):
                    raise Unsupported('%z')
                tz = _dt.timezone((1 if c[i] == '+' else -1)*_dt.timedelta(hours=int(m[:2]), minutes=int(m[2:])))
                i += 1 + len(form)
                continue
            if d == 'T':
                fmt = fmt[:k] + '%H:%M:%S' + fmt[k:]
                continue
            if d not in width:
                raise Unsupported('strptime directive %%%s' % d)
            r = _digits(c, i, *width[d])
            if r is None:
                raise ValueError('time data does not match format')
            v, n = r
            i += n
            if d == 'j':
                doy = v
            elif d == 'y':
                f['Y'] = v + 2000 if bool(v < 69) else v + 1900
            elif d == 'f':
                f['f'] = v * 10 ** (6 - n)
            else:
                f[d] = v
        elif ch in ' \t\n':
            k += 1
            n = 0
            while i < len(c) and bool(cell_pred(c[i], lambda x: x.isspace())):
                i += 1
                n += 1
            if n == 0:
                raise ValueError('time data does not match format')
        else:
            if i >= len(c) or not bool(cell_eq(c[i], ch)):
                raise ValueError('time data does not match format')
            i += 1
            k += 1
    if i != len(c):
        raise ValueError('unconverted data remains')
    if bool(lift(f['S']) > 59):
        raise Unsupported('second 60')
    if doy is not None:
        if not bool(And(doy >= 1, doy <= 366, Or(doy <= 365, leap(f['Y'])))):
            raise ValueError('day of year out of range')
        if not bool(And(lift(f['H']) <= 23, lift(f['M']) <= 59)):
            raise ValueError('time out of range')
        w = (civil(f['Y'], 1, 1) + doy - 1) * DAY + ((lift(f['H']) * 60 + f['M']) * 60 + f['S']) * 1000000 + f['f']
        if w.is_const():
            return _loc(REAL(1970, 1, 1, tzinfo=tz) + _dt.timedelta(microseconds=w.cval()))
        return SymDT(w, tz, None)
    return SymDT.make(f['Y'], f['m'], f['d'], f['H'], f['M'], f['S'], f['f'], tz=tz)


def parse_iso_like(s, utc):
    """what pandas' default parser does for the layouts met in these files"""
    tz = UTC if utc else None
    c = cells_of(s.strip() if isinstance(s, str) else s.strip())
    z = False
    if c and isinstance(c[-1], str) and c[-1] in 'Zz':
        c = c[:-1]
        tz = UTC
    t = SymStr(c)
    # yyyy-mm-dd or yyyy/mm/dd or mm/dd/yyyy
    seps = [x for x in c[:5] if isinstance(x, str) and x in '-/']
    if not seps:
        raise ValueError('unknown datetime string')
    sp = seps[0]
    pos = [i for i, x in enumerate(c) if x == sp][:2]
    if len(pos) < 2:
        raise ValueError('unknown datetime string')
    tpos = [i for i, x in enumerate(c) if isinstance(x, str) and x in ' T:']
    date_end = tpos[0] if tpos else len(c)
    fmt = ('%Y{0}%m{0}%d' if pos[0] == 4 else '%m{0}%d{0}%Y').format(sp)
    if date_end < len(c):
        x = c[date_end]
        rest = c[date_end + 1:]
        ncol = sum(1 for y in rest if y == ':')
        fmt += x + ('%H', '%H:%M', '%H:%M:%S')[ncol]
        if any(y == '.' for y in rest):
            dot = [i for i, y in enumerate(rest) if y == '.'][0]
            frac = rest[dot + 1:]
            if len(frac) > 6:                 # nanoseconds: pandas keeps 9 digits; below a microsecond is dropped here
                c = c[:date_end + 1] + rest[:dot + 1] + frac[:6]
            fmt += '.%f'
    return strptime(mk(c), fmt, tz=None) if tz is None else _aware(strptime(mk(c), fmt), tz)


def _aware(d, tz):
    return d.replace(tzinfo=tz)


# --------------------------------------------------------------------------- shims for the datetime module
class _DTMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (SymDT, REAL))

    def __call__(cls, *a, **k):
        names = ['year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond', 'tzinfo']
        d = dict(zip(names, a))
        d.update(k)
        return SymDT.make(d['year'], d['month'], d['day'], d.get('hour', 0), d.get('minute', 0), d.get('second', 0),
                          d.get('microsecond', 0), tz=d.get('tzinfo'))


class DatetimeShim(metaclass=_DTMeta):
    min = REAL.min
    max = REAL.max

    @staticmethod
    def strptime(s, fmt):
        if isinstance(fmt, SymStr):
            raise Unsupported('symbolic format')
        return strptime(s, fmt)

    @staticmethod
    def fromtimestamp(t, tz=None):
        if isinstance(t, S) and not t.is_const():
            us = S(snapint((t * 1000000).p))
            if not us.isint():
                us = floor(us + 0.5)
            off = offus(tz) if tz is not None else local_us()
            return SymDT(us + off, tz, None)
        t = float(t.cval()) if isinstance(t, S) else t
        if isinstance(tz, SymTZ) or (tz is None and Ctx.cur.local_us is not None):
            d = SymDT.of(REAL.fromtimestamp(t, UTC))
            return SymDT(d.wall + (offus(tz) if tz is not None else local_us()), tz, None)
        return REAL.fromtimestamp(t, tz)

    @staticmethod
    def utcfromtimestamp(t):
        d = DatetimeShim.fromtimestamp(t, UTC)
        return d.replace(tzinfo=None)

    @staticmethod
    def fromisoformat(s):
        if isinstance(s, str):
            return _loc(REAL.fromisoformat(s))
        return parse_iso_like(s, False)

    @staticmethod
    def combine(d, t, tzinfo=True):
        tz = t.tzinfo if tzinfo is True else tzinfo
        if isinstance(d, (_dt.date, REAL)) and isinstance(t, _dt.time):
            return _loc(REAL.combine(d, t).replace(tzinfo=tz))
        if isinstance(d, SymDT):
            d = d.date()
        d = SymDate.of(d)
        if isinstance(t, _dt.time):
            t = SymTime(((t.hour * 60 + t.minute) * 60 + t.second) * 1000000 + t.microsecond, (t.hour, t.minute, t.second, t.microsecond))
        return SymDT(d.n * DAY + t.us, tz, None if d.f is None else tuple(d.f) + tuple(t.f))

    @staticmethod
    def now(tz=None):
        raise Unsupported('current time')
    utcnow = now


class _TDMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (SymTD, _dt.timedelta))

    def __call__(cls, days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
        vs = (days, seconds, microseconds, milliseconds, minutes, hours, weeks)
        if not symv(*vs):
            vs = [v.cval() if isinstance(v, S) else v for v in vs]
            return _dt.timedelta(*vs)
        us = (lift(days) + lift(weeks) * 7) * DAY + (lift(hours) * 3600 + lift(minutes) * 60 + seconds) * 1000000 + lift(milliseconds) * 1000 + microseconds
        us = S(snapint(us.p))
        if not us.isint():
            us = floor(us + 0.5)
        return SymTD(us)


class TimedeltaShim(metaclass=_TDMeta):
    pass


class _TZMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (SymTZ, _dt.timezone))

    def __call__(cls, off=None, name=None):
        if isinstance(off, SymTD):
            return SymTZ(off.us)
        return _dt.timezone(off) if off is not None else UTC

    utc = UTC


class TimezoneShim(metaclass=_TZMeta):
    utc = UTC


class _DMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (SymDate, _dt.date, SymDT))

    def __call__(cls, year, month, day):
        d = SymDT.make(year, month, day)
        return SymDate(floor(d.wall / DAY), d.f[:3]) if isinstance(d, SymDT) and symv(*d.f[:3]) else _dt.date(_c(year), _c(month), _c(day))


class DateShim(metaclass=_DMeta):
    min, max = _dt.date.min, _dt.date.max

    @staticmethod
    def fromisoformat(s):
        if isinstance(s, str):
            return _dt.date.fromisoformat(s)
        return strptime(s, '%Y-%m-%d').date()

    @staticmethod
    def fromordinal(n):
        return SymDate(n - 719163) if symv(n) else _dt.date.fromordinal(n)

    @staticmethod
    def fromtimestamp(t):
        return DatetimeShim.fromtimestamp(t).date()

    @staticmethod
    def today():
        raise Unsupported('current time')


class _TiMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (SymTime, _dt.time))

    def __call__(cls, hour=0, minute=0, second=0, microsecond=0, tzinfo=None):
        vs = [v.__index__() if hasattr(v, '__index__') and not isinstance(v, S) else v for v in (hour, minute, second, microsecond)]
        if not symv(*vs):
            return _dt.time(*[_c(v) for v in vs], tzinfo=tzinfo)
        d = SymDT.make(1970, 1, 1, *vs)
        return SymTime(d.wall, tuple(vs), tzinfo)


class TimeShim(metaclass=_TiMeta):
    min, max = _dt.time.min, _dt.time.max

    @staticmethod
    def fromisoformat(s):
        if isinstance(s, str):
            return _dt.time.fromisoformat(s)
        raise Unsupported('time.fromisoformat')


class DatetimeModule:
    datetime = DatetimeShim
    timedelta = TimedeltaShim
    timezone = TimezoneShim
    UTC = UTC
    date = DateShim
    time = TimeShim
    tzinfo = _dt.tzinfo
