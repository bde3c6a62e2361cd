"""Symbolic strings: sequences of concrete characters, symbolic characters with a finite domain, and
opaque numeric literals; a regular-expression matcher over them; number <-> text conversions."""
import math, re as _re
try:
    from re import _parser as sre_parse, _constants as sre_c
except ImportError:                                     # pragma: no cover
    import sre_parse, sre_constants as sre_c
from . import sym
from .sym import S, SymBool, SymC, Ctx, And, Or, Not, Unsupported, floor, lift

WS = ' \t\n\r\x0b\x0c'
DIG = frozenset(range(48, 58))


class SC:
    """symbolic character"""
    __slots__ = ('code', 'dom')

    def __init__(self, code, dom):
        self.code, self.dom = code, frozenset(dom)

    def __repr__(self):
        return '<%s>' % ''.join(chr(c) for c in sorted(self.dom))[:12]

    def among(self, vals):
        ins = [v for v in self.dom if v in vals]
        if not ins:
            return False
        if len(ins) == len(self.dom):
            return True
        outs = [v for v in self.dom if v not in vals]
        if len(ins) <= len(outs):
            return Or(*[self.code == v for v in ins])
        return And(*[self.code != v for v in outs])

    def pred(self, f):
        return self.among({v for v in self.dom if f(chr(v))})


NUMLEN = 24     # an opaque number has 1 to NUMLEN characters


class Num:
    """opaque numeric literal of unknown length (1 to NUMLEN characters)"""
    __slots__ = ('val', 'isint', 'signed')

    def __init__(self, val, isint=False, signed=True):
        self.val, self.isint, self.signed = val, isint, signed

    def chars(self):
        return '0123456789' + ('' if self.isint else '.') + ('-' if self.signed else '')

    def __repr__(self):
        return '<num>'

    def pred(self, f):
        r = [f(c) for c in self.chars()]
        if all(r):
            return True
        if not any(r):
            return False
        raise Unsupported('character test inside an opaque number')


def cell_eq(a, b):
    if isinstance(a, str):
        if isinstance(b, str):
            return a == b
        a, b = b, a
    if isinstance(a, Num):
        if isinstance(b, Num):
            return And(a.val == b.val)
        if isinstance(b, str):
            if b not in a.chars():
                return False
        elif not any(chr(v) in a.chars() for v in b.dom):
            return False
        raise Unsupported('comparison with an opaque number')
    if isinstance(b, str):
        return a.among({ord(b)})
    if isinstance(b, Num):
        return cell_eq(b, a)
    if a is b:
        return True
    common = a.dom & b.dom
    if not common:
        return False
    return a.code == b.code


def cell_pred(c, f):
    return f(c) if isinstance(c, str) else c.pred(f)


def cells_of(x):
    if isinstance(x, SymStr):
        return x.c
    if isinstance(x, str):
        return tuple(x)
    raise TypeError('expected str, got %s' % type(x).__name__)


def mk(cells):
    """str if every cell is concrete"""
    cells = tuple(cells)
    for c in cells:
        if not isinstance(c, str):
            return SymStr(cells)
    return ''.join(cells)


def is_s(x):
    return isinstance(x, (str, SymStr))


class SymStr:
    __slots__ = ('c',)
    __array_priority__ = 2000

    def __init__(self, cells):
        self.c = tuple(cells)

    def __repr__(self):
        return 'SymStr(%s)' % ''.join(x if isinstance(x, str) else repr(x) for x in self.c)
    __str__ = __repr__

    # -- basics
    def has_num(self):
        return any(isinstance(x, Num) for x in self.c)

    def __len__(self):
        if self.has_num():
            raise Unsupported('length of text with an opaque number')
        return len(self.c)

    def __bool__(self):
        return len(self.c) > 0

    def __getitem__(self, i):
        if isinstance(i, slice):
            if self.has_num():
                try:
                    i = self._guard_slice(i)
                except Unsupported:
                    if i.start in (None, 0) and i.step in (None, 1) and type(i.stop) is int and i.stop > 0:
                        return Cut(self.c)
                    raise
            return mk(self.c[i])
        if isinstance(i, S):
            i = i.__index__()
        if self.has_num():
            part = self.c[:i + 1] if i >= 0 else self.c[i:]
            if any(isinstance(x, Num) for x in part):
                raise Unsupported('indexing through an opaque number')
        return mk((self.c[i],))

    def _guard_slice(self, s):
        first = min(i for i, x in enumerate(self.c) if isinstance(x, Num))
        last = max(i for i, x in enumerate(self.c) if isinstance(x, Num)) - len(self.c)
        if s.step not in (None, 1):
            raise Unsupported('strided slice through an opaque number')
        longest = len(self.c) + (NUMLEN - 1)*sum(isinstance(x, Num) for x in self.c)
        out = []
        for b in (s.start, s.stop):
            if b is not None:
                b = b.__index__()
                if b >= longest:        # beyond the end, whatever the lengths of the numbers are
                    b = len(self.c)
                elif b <= -longest:
                    b = 0
                elif b > first or (b < 0 and b <= last):
                    raise Unsupported('slice through an opaque number')
            out.append(b)
        return slice(*out)

    def __iter__(self):
        return iter([mk((x,)) for x in self.c])

    def __hash__(self):
        if sym.HASHOK[0]:
            return id(self)
        raise Unsupported('hash of symbolic text')

    def __add__(self, o):
        if not is_s(o):
            return NotImplemented
        return mk(self.c + cells_of(o))

    def __radd__(self, o):
        if not is_s(o):
            return NotImplemented
        return mk(cells_of(o) + self.c)

    def __mul__(self, n):
        return mk(self.c * n)
    __rmul__ = __mul__

    def eq(self, o):
        if not is_s(o):
            return False
        oc = cells_of(o)
        if len(oc) != len(self.c):
            if (self.has_num() or (isinstance(o, SymStr) and o.has_num())) and oc and self.c:
                if differ(self.c, oc):
                    return False
                raise Unsupported('comparison of text with an opaque number')
            return False
        out = []
        for a, b in zip(self.c, oc):
            r = cell_eq(a, b)
            if r is False:
                return False
            out.append(r)
        return And(*out)

    def __eq__(self, o):
        return self.eq(o)

    def __ne__(self, o):
        return Not(self.eq(o))

    def __lt__(self, o):
        oc = cells_of(o)
        for a, b in zip(self.c, oc):
            if bool(cell_eq(a, b)):
                continue
            va = ord(a) if isinstance(a, str) else a.code
            vb = ord(b) if isinstance(b, str) else b.code
            return va < vb
        return len(self.c) < len(oc)

    def __gt__(self, o):
        return (SymStr(cells_of(o)) < self)

    def __le__(self, o):
        return Not(self > o)

    def __ge__(self, o):
        return Not(self < o)

    def match_at(self, sub, i):
        out = []
        for k, b in enumerate(sub):
            r = cell_eq(self.c[i + k], b)
            if r is False:
                return False
            out.append(r)
        return And(*out)

    def __contains__(self, sub):
        sub = cells_of(sub)
        if not sub:
            return True
        return bool(Or(*[self.match_at(sub, i) for i in range(len(self.c) - len(sub) + 1)]))

    def find(self, sub, start=0, end=None):
        sub = cells_of(sub)
        n = len(self.c) if end is None else min(end, len(self.c))
        for i in range(start, n - len(sub) + 1):
            if bool(self.match_at(sub, i)):
                if any(isinstance(x, Num) for x in self.c[:i]):
                    raise Unsupported('position behind an opaque number')
                return i
        return -1

    def _find(self, sub, start=0):
        for i in range(start, len(self.c) - len(sub) + 1):
            if bool(self.match_at(sub, i)):
                return i
        return -1

    def _rfind(self, sub, end=None):
        end = len(self.c) if end is None else end
        for i in range(end - len(sub), -1, -1):
            if bool(self.match_at(sub, i)):
                return i
        return -1

    def rfind(self, sub):
        i = self._rfind(cells_of(sub))
        if any(isinstance(x, Num) for x in self.c[:max(i, 0)]):
            raise Unsupported('position behind an opaque number')
        return i

    def rindex(self, sub):
        r = self.rfind(sub)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def index(self, sub, *a):
        r = self.find(sub, *a)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def count(self, sub):
        return len(self.split(sub)) - 1

    def startswith(self, p, start=0):
        if isinstance(p, tuple):
            return any(self.startswith(x, start) for x in p)
        p = cells_of(p)
        if len(p) > len(self.c) - start:
            return False
        return bool(self.match_at(p, start))

    def endswith(self, p):
        if isinstance(p, tuple):
            return any(self.endswith(x) for x in p)
        p = cells_of(p)
        if len(p) > len(self.c):
            return False
        return bool(self.match_at(p, len(self.c) - len(p)))

    def removeprefix(self, p):
        return mk(self.c[len(p):]) if self.startswith(p) else self

    def removesuffix(self, p):
        return mk(self.c[:len(self.c) - len(p)]) if len(p) and self.endswith(p) else self

    def _inset(self, cell, chars):
        return bool(cell_pred(cell, lambda ch: ch in chars))

    def lstrip(self, chars=None):
        chars = WS if chars is None else chars
        i = 0
        while i < len(self.c) and self._inset(self.c[i], chars):
            i += 1
        return mk(self.c[i:])

    def rstrip(self, chars=None):
        chars = WS if chars is None else chars
        i = len(self.c)
        while i > 0 and self._inset(self.c[i - 1], chars):
            i -= 1
        return mk(self.c[:i])

    def strip(self, chars=None):
        r = self.lstrip(chars)
        return r.rstrip(chars)

    def split(self, sep=None, maxsplit=-1):
        out = []
        if sep is None:
            i, n = 0, len(self.c)
            while i < n:
                while i < n and self._inset(self.c[i], WS):
                    i += 1
                if i >= n:
                    break
                if maxsplit >= 0 and len(out) >= maxsplit:
                    out.append(mk(self.c[i:]).rstrip())
                    return out
                j = i
                while j < n and not self._inset(self.c[j], WS):
                    j += 1
                out.append(mk(self.c[i:j]))
                i = j
            return out
        sub = cells_of(sep)
        if not sub:
            raise ValueError('empty separator')
        i = 0
        while maxsplit < 0 or len(out) < maxsplit:
            j = self._find(sub, i)
            if j < 0:
                break
            out.append(mk(self.c[i:j]))
            i = j + len(sub)
        out.append(mk(self.c[i:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        if sep is None:
            raise Unsupported('rsplit on whitespace')
        sub = cells_of(sep)
        out = []
        end = len(self.c)
        while len(out) < maxsplit:
            j = self._rfind(sub, end)
            if j < 0:
                break
            out.insert(0, mk(self.c[j + len(sub):end]))
            end = j
        out.insert(0, mk(self.c[:end]))
        return out

    def partition(self, sep):
        sub = cells_of(sep)
        j = self._find(sub)
        if j < 0:
            return self, '', ''
        return mk(self.c[:j]), sep, mk(self.c[j + len(sub):])

    def rpartition(self, sep):
        sub = cells_of(sep)
        j = self._rfind(sub)
        if j < 0:
            return '', '', self
        return mk(self.c[:j]), sep, mk(self.c[j + len(sub):])

    def splitlines(self, keepends=False):
        out = []
        cur = []
        i = 0
        while i < len(self.c):
            x = self.c[i]
            if self._inset(x, '\n\r'):
                e = [x]
                if i + 1 < len(self.c) and bool(cell_eq(x, '\r')) and bool(cell_eq(self.c[i + 1], '\n')):
                    i += 1
                    e.append(self.c[i])
                out.append(mk(cur + (e if keepends else [])))
                cur = []
            else:
                cur.append(x)
            i += 1
        if cur:
            out.append(mk(cur))
        return out

    def replace(self, old, new, count=-1):
        o, n = cells_of(old), cells_of(new)
        out = []
        i = 0
        k = 0
        while i < len(self.c):
            if (count < 0 or k < count) and i + len(o) <= len(self.c) and bool(self.match_at(o, i)):
                out.extend(n)
                i += len(o)
                k += 1
            else:
                out.append(self.c[i])
                i += 1
        return mk(out)

    def _case(self, f):
        out = []
        for x in self.c:
            if isinstance(x, str):
                out.append(f(x))
            elif isinstance(x, Num) or all(f(chr(v)) == chr(v) for v in x.dom):
                out.append(x)
            else:       # characters moved by the same distance are taken together
                g = {}
                for v in x.dom:
                    w = f(chr(v))
                    g.setdefault(ord(w) - v if len(w) == 1 else w, []).append(v)
                for d in sorted(g, key=lambda d: (-len(g[d]), str(d))):
                    r = x.among(set(g[d]))
                    if r is True or r is not False and bool(r):
                        out.append(d if isinstance(d, str) else SC(x.code + d, {v + d for v in g[d]}))
                        break
        return mk(out)

    def upper(self):
        return self._case(str.upper)

    def lower(self):
        return self._case(str.lower)

    def casefold(self):
        return self._case(str.casefold)

    def _all(self, f):
        return len(self.c) > 0 and bool(And(*[cell_pred(x, f) for x in self.c]))

    def isdigit(self):
        return self._all(str.isdigit)
    isnumeric = isdecimal = isdigit

    def isalpha(self):
        return self._all(str.isalpha)

    def isalnum(self):
        return self._all(str.isalnum)

    def isspace(self):
        return self._all(str.isspace)

    def isupper(self):
        raise Unsupported('isupper')

    def join(self, xs):
        return join(self, xs)

    def encode(self, *a, **k):
        return SymBytes(self)

    def zfill(self, n):
        return mk(('0',) * max(0, n - len(self)) + self.c)

    def ljust(self, n, f=' '):
        return mk(self.c + (f,) * max(0, n - len(self)))

    def rjust(self, n, f=' '):
        return mk((f,) * max(0, n - len(self)) + self.c)

    def expandtabs(self, n=8):
        raise Unsupported('expandtabs')

    def format(self, *a, **k):
        raise Unsupported('format of symbolic template')

    def __mod__(self, o):
        raise Unsupported('symbolic format template')

    def __format__(self, spec):
        raise Unsupported('format of symbolic text by compiled code')

    def translate(self, t):
        raise Unsupported('translate')

    def __copy__(self):
        return self

    def __deepcopy__(self, m):
        return self


class SymBytes:
    """text content read in binary mode"""
    __slots__ = ('s',)

    def __init__(self, s):
        self.s = s

    def decode(self, *a, **k):
        return self.s

    def __len__(self):
        return len(self.s)

    def __getattr__(self, n):
        f = getattr(self.s if isinstance(self.s, SymStr) else SymStr(self.s), n)

        def g(*a, **k):
            a = [x.decode('latin-1') if isinstance(x, bytes) else x.s if isinstance(x, SymBytes) else x for x in a]
            r = f(*a, **k)
            if isinstance(r, (str, SymStr)):
                return SymBytes(r)
            if isinstance(r, list):
                return [SymBytes(x) for x in r]
            if isinstance(r, tuple):
                return tuple(SymBytes(x) for x in r)
            return r
        return g

    def __getitem__(self, k):
        x = self.s if isinstance(self.s, SymStr) else SymStr(self.s)
        if isinstance(k, slice):
            return SymBytes(x[k])
        raise Unsupported('byte value')

    def __add__(self, o):
        return SymBytes(mk(list(cells_of(self.s)) + list(cells_of(o.decode('latin-1') if isinstance(o, bytes) else o.s))))

    def __radd__(self, o):
        return SymBytes(mk(list(cells_of(o.decode('latin-1'))) + list(cells_of(self.s))))

    def __ne__(self, o):
        r = self == o
        return Not(r) if isinstance(r, SymBool) else not r

    def __contains__(self, b):
        x = self.s if isinstance(self.s, SymStr) else SymStr(self.s)
        return x.__contains__(b.decode('latin-1') if isinstance(b, bytes) else b.s)

    def __eq__(self, o):
        if isinstance(o, bytes):
            o = SymBytes(o.decode('latin-1'))
        return isinstance(o, SymBytes) and (self.s == o.s)

    def __bool__(self):
        return len(cells_of(self.s)) > 0

    def __hash__(self):
        raise Unsupported('hash')


def differ(a, b):
    """texts that surely differ before the length of a number matters"""
    for x, y in zip(a, b):
        nums = isinstance(x, Num), isinstance(y, Num)
        if all(nums):
            return False
        try:
            if cell_eq(x, y) is False:
                return True
        except Unsupported:
            return False
        if any(nums):
            return False
    return False


class Cut:
    """the beginning of a text, cut somewhere inside an opaque number: good for comparing with other texts only"""
    __slots__ = ('c',)

    def __init__(self, cells):
        self.c = cells

    def __eq__(self, o):
        if not is_s(o) or not cells_of(o) or differ(self.c, cells_of(o)):
            return False
        raise Unsupported('comparison of text cut inside an opaque number')

    def __ne__(self, o):
        return Not(self.__eq__(o))

    def __hash__(self):
        raise Unsupported('hash of text cut inside an opaque number')

    def startswith(self, o):
        if isinstance(o, tuple):
            return Or(*[self.startswith(x) for x in o])
        if not cells_of(o):
            return True
        if differ(self.c, cells_of(o)):
            return False
        raise Unsupported('beginning of text cut inside an opaque number')

    def __getattr__(self, n):
        raise Unsupported('%s of text cut inside an opaque number' % n)

    def __bool__(self):
        return True


def join(sep, xs):
    out = []
    for i, x in enumerate(xs):
        if i:
            out.extend(cells_of(sep))
        out.extend(cells_of(x))
    return mk(out)


# --------------------------------------------------------------------------- numbers <-> text
def digitval(c):
    if isinstance(c, str):
        return int(c)
    return c.code - 48


def all_digits(cells):
    return bool(And(*[cell_pred(x, lambda ch: ch in '0123456789') for x in cells]))


def to_int(s, base=10):
    """int(text)"""
    if isinstance(s, str):
        return int(s, base)
    t = s.strip()
    if isinstance(t, str):
        return int(t, base)
    c = t.c
    neg = False
    if base == 2:
        r = S.const(0)
        for x in c:
            if not bool(cell_pred(x, lambda ch: ch in '01')):
                raise ValueError('invalid literal for int()')
            r = r * 2 + digitval(x)
        return r
    if len(c) == 1 and isinstance(c[0], Num):
        if not c[0].isint:
            raise ValueError('invalid literal for int()')
        return c[0].val
    if c and not isinstance(c[0], Num) and bool(cell_pred(c[0], lambda ch: ch in '+-')):
        neg = bool(cell_eq(c[0], '-'))
        c = c[1:]
        if len(c) == 1 and isinstance(c[0], Num):
            return -c[0].val if neg else c[0].val
    if not c or any(isinstance(x, Num) for x in c):
        if c:
            if any(isinstance(x, str) and x not in '0123456789+-_' for x in c):
                raise ValueError('invalid literal for int() with base 10')
            raise Unsupported('int() of mixed opaque text')
        raise ValueError('invalid literal for int()')
    if not all_digits(c):
        raise ValueError('invalid literal for int() with base 10')
    r = S.const(0)
    for x in c:
        r = r * 10 + digitval(x)
    if neg:
        r = -r
    if r.is_const():
        return int(r.cval())
    return S(r.p, lit=('int', mk(c) if not neg else None))


def to_float(s):
    if isinstance(s, str):
        return float(s)
    t = s.strip()
    if isinstance(t, str):
        return float(t)
    c = t.c
    neg = False
    if not isinstance(c[0], Num) and bool(cell_pred(c[0], lambda ch: ch in '+-')):
        neg = bool(cell_eq(c[0], '-'))
        c = c[1:]
    if len(c) == 1 and isinstance(c[0], Num):
        return -c[0].val if neg else S(c[0].val.p)
    if len(c) == 2 and c[0] in ('.',) and isinstance(c[1], Num):
        raise Unsupported('float of .num')
    if any(isinstance(x, Num) for x in c):
        if any(isinstance(x, str) and x not in '0123456789+-_.eE' for x in c):
            raise ValueError('could not convert string to float')
        raise Unsupported('float() of mixed opaque text')
    k = None
    for i, x in enumerate(c):
        if not bool(cell_pred(x, lambda ch: ch in '0123456789')):
            if k is None and bool(cell_eq(x, '.')):
                k = i
            elif bool(cell_pred(x, lambda ch: ch in 'eE')) and i > 0:
                return _exp_float(c, i, neg)
            else:
                raise ValueError('could not convert string to float')
    ip, fp = (c, ()) if k is None else (c[:k], c[k + 1:])
    if not ip and not fp:
        raise ValueError('could not convert string to float')
    r = S.const(0)
    n = len(ip)
    for i, x in enumerate(ip):
        r = r + digitval(x) * float(10 ** (n - 1 - i))
    for i, x in enumerate(fp):
        r = r + digitval(x) * float('1e-%d' % (i + 1))
    if neg:
        r = -r
    if r.is_const():
        return float(r.cval())
    return S(r.p, lit=None if neg else ('float', ip, fp))


def _exp_float(c, i, neg):
    e = mk(c[i + 1:])
    if not isinstance(e, str):
        raise Unsupported('symbolic exponent')
    v = to_float(mk(c[:i]))
    v = v * 10.0 ** int(e)
    return -v if neg else v


def to_str(x):
    """str(x)"""
    if is_s(x):
        return x
    if isinstance(x, S):
        if x.is_const() and x.lit is None:
            v = x.cval()
            return str(int(v)) if v == int(v) else str(v)
        if x.lit is not None:
            if x.lit[0] == 'int' and x.lit[1] is not None:
                return _strip_lead(x.lit[1])
            if x.lit[0] == 'float':
                return _float_repr(x, x.lit[1], x.lit[2])
        if x.isint():
            return int_digits(x)
        return SymStr((Num(x),))
    if isinstance(x, SymBool):
        return str(bool(x))
    if hasattr(x, 'sx_str'):
        return x.sx_str()
    return str(x)


def _strip_lead(s):
    c = cells_of(s)
    i = 0
    while i < len(c) - 1 and bool(cell_eq(c[i], '0')):
        i += 1
    return mk(c[i:])


def _float_repr(x, ip, fp):
    ip = cells_of(_strip_lead(mk(ip or ('0',))))
    fp = list(fp)
    while len(fp) > 1 and bool(cell_eq(fp[-1], '0')):
        fp.pop()
    if not fp:
        fp = ['0']
    if len(ip) + len(fp) > 15:
        raise Unsupported('float repr of a long literal')
    if len(fp) > 4:
        if bool(And(x < 1e-4, x > 0)):
            raise Unsupported('exponent repr')
    return mk(tuple(ip) + ('.',) + tuple(fp))


def digit_cell(v):
    if not isinstance(v, S):
        return chr(48 + int(v))
    if v.is_const():
        return chr(48 + int(v.cval()))
    lo, hi = v.bounds()
    return SC(v + 48, range(48 + max(0, int(lo)), 48 + min(9, int(hi)) + 1))


def int_digits(x, width=0, fill='0'):
    """decimal text of an integer S"""
    if not isinstance(x, S):
        x = S.const(x)
    if x.is_const():
        s = str(abs(int(x.cval())))
        neg = x.cval() < 0
        return ('-' if neg else '') + s.rjust(width - (1 if neg else 0), fill)
    neg = False
    if bool(x < 0):
        neg = True
        x = -x
    n = max(1, width - (1 if neg else 0)) if fill == '0' else 1
    while n < 18 and not bool(x < 10 ** n):
        n += 1
    cells = digit_cells(x, n)
    pad = max(0, width - n - (1 if neg else 0))
    if fill == '0':
        return mk((('-',) if neg else ()) + ('0',) * pad + cells)
    return mk((fill,) * pad + (('-',) if neg else ()) + cells)


def digit_cells(x, n):
    """n decimal digits of 0 <= x < 10**n.  Direct when x is already a sum of digit variables."""
    C = Ctx.cur
    d = direct_digits(x, n)
    if d is not None:
        return tuple(digit_cell(v) for v in d)
    out = []
    hi = x
    prev = S.const(0)
    qs = [floor(x / 10 ** k) for k in range(n)] + [S.const(0)]
    for k in range(n - 1, -1, -1):
        v = qs[k] - 10 * qs[k + 1]
        v2 = S(v.p)
        out.append(SC(v2 + 48, DIG) if not v2.is_const() else chr(48 + int(v2.cval())))
    return tuple(out)


def direct_digits(x, n):
    C = Ctx.cur
    const = int(x.p.get((), 0.0))
    if const < 0:
        return None
    out = [None] * n
    for m, c in x.p.items():
        if not m:
            continue
        if len(m) != 1 or m[0][1] != 1:
            return None
        a = C.atoms[m[0][0]]
        if not a.isint or a.lo < 0 or a.hi > 9 or c < 1:
            return None
        k = round(math.log10(c))
        if c != 10 ** k or k >= n or out[k] is not None:
            return None
        out[k] = S({m: 1.0})
    cd = str(const).rjust(n, '0')[::-1]
    if len(cd) > n:
        return None
    for k in range(n):
        d = int(cd[k])
        if d and out[k] is not None:
            return None
        if out[k] is None:
            out[k] = d
    return out[::-1]


def fmt_value(v, spec):
    """format(v, spec) for symbolic v"""
    if isinstance(v, SymStr):
        m = _re.fullmatch(r'(?:(.)?([<>^]))?(\d+)?s?', spec)
        if not m:
            raise Unsupported('format spec %r' % spec)
        if m.group(3):
            fill, al, w = m.group(1) or ' ', m.group(2) or '<', int(m.group(3))
            return v.ljust(w, fill) if al == '<' else v.rjust(w, fill)
        return v
    if isinstance(v, SymBool):
        v = bool(v)
        return format(v, spec)
    if isinstance(v, S):
        if spec in ('', 'd', 'i') and (v.isint() or spec == ''):
            return to_str(v)
        m = _re.fullmatch(r'(0)?(\d+)?([bdifegxX]|\.\d+f)?', spec)
        if m and m.group(3) in ('d', 'i', None) and v.isint():
            return int_digits(v, int(m.group(2) or 0), '0' if m.group(1) else ' ')
        if m and m.group(3) == 'b':
            from .sym import bit
            w = int(m.group(2) or 0)
            n = max(w, 1)
            lo, hi = v.bounds()
            if bool(v < 0):
                raise Unsupported('binary format of a negative number')
            while n < 40 and not bool(v < 2 ** n):
                n += 1
            if w == 0 or not m.group(1):
                while n > 1 and bool(v < 2 ** (n - 1)):
                    n -= 1
            cells = [' '] * (w - n)
            for k in range(n - 1, -1, -1):
                cells.append(bit_cell(bit(v, k)))
            return mk(cells)
        if m and (spec.endswith('f') or spec.endswith('e') or spec.endswith('g')):
            return SymStr((Num(v),))
        raise Unsupported('format spec %r of symbolic number' % spec)
    if hasattr(v, 'sx_format'):
        return v.sx_format(spec)
    return format(v, spec)


def bit_cell(b):
    if b.is_const():
        return chr(48 + int(b.cval()))
    return SC(b + 48, (48, 49))


_PCT = _re.compile(r'%(?:\((\w+)\))?([-+ #0]*)(\d+)?(?:\.(\d+))?([diouxXeEfFgGcrs%])')


def pct(fmt, args):
    """fmt % args with symbolic args"""
    if not isinstance(args, tuple):
        args = (args,) if not isinstance(args, dict) else args
    out = []
    pos = 0
    k = 0
    for m in _PCT.finditer(fmt):
        out.extend(fmt[pos:m.start()])
        pos = m.end()
        key, flags, width, prec, ty = m.groups()
        if ty == '%':
            out.append('%')
            continue
        if key is not None:
            v = args[key]
        else:
            v = args[k]
            k += 1
        if isinstance(v, (S, SymBool, SymStr)) or hasattr(v, 'sx_str'):
            if ty in 'sr':
                t = to_str(v)
                if width:
                    t = SymStr(cells_of(t)).rjust(int(width)) if '-' not in flags else SymStr(cells_of(t)).ljust(int(width))
            elif ty in 'di':
                from .sym import trunc
                if isinstance(v, SymBool):
                    v = int(bool(v))
                t = int_digits(trunc(v), int(width or 0), '0' if '0' in flags else ' ')
            else:
                t = SymStr((Num(v),))
            out.extend(cells_of(t))
        else:
            out.extend(('%' + flags + (width or '') + ('.' + prec if prec is not None else '') + ty) % (v,))
    out.extend(fmt[pos:])
    return mk(out)


def str_format(fmt, args, kw):
    import string
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(fmt):
        out.extend(lit)
        if field is None:
            continue
        if field == '':
            v = args[auto]
            auto += 1
        elif field.isdigit():
            v = args[int(field)]
        elif field in kw:
            v = kw[field]
        else:
            v, _ = string.Formatter().get_field(field, args, kw)
        out.extend(cells_of(fmt_value(v, spec or '')))
    return mk(out)


# --------------------------------------------------------------------------- regular expressions
class Match:
    def __init__(self, s, start, end, groups, ngroups, names):
        self.string, self._s, self._e, self._g, self._n, self._names = s, start, end, groups, ngroups, names
        self.lastindex = None

    def _span(self, k):
        if isinstance(k, str):
            k = self._names[k]
        if k == 0:
            return self._s, self._e
        return self._g.get(k, (-1, -1))

    def group(self, *ks):
        if not ks:
            ks = (0,)
        r = tuple(self._sub(k) for k in ks)
        return r[0] if len(r) == 1 else r

    def _sub(self, k):
        a, b = self._span(k)
        return None if a < 0 else mk(cells_of(self.string)[a:b])
    __getitem__ = _sub

    def groups(self, default=None):
        return tuple(default if self._sub(k) is None else self._sub(k) for k in range(1, self._n + 1))

    def groupdict(self, default=None):
        return {n: self._sub(k) for n, k in self._names.items()}

    def start(self, k=0):
        return self._span(k)[0]

    def end(self, k=0):
        return self._span(k)[1]

    def span(self, k=0):
        return self._span(k)


_CAT = {
    sre_c.CATEGORY_DIGIT: lambda c: c.isdigit(), sre_c.CATEGORY_NOT_DIGIT: lambda c: not c.isdigit(),
    sre_c.CATEGORY_SPACE: lambda c: c.isspace(), sre_c.CATEGORY_NOT_SPACE: lambda c: not c.isspace(),
    sre_c.CATEGORY_WORD: lambda c: c.isalnum() or c == '_', sre_c.CATEGORY_NOT_WORD: lambda c: not (c.isalnum() or c == '_'),
}


def _inpred(av, icase):
    neg = False
    tests = []
    for op, a in av:
        if op is sre_c.NEGATE:
            neg = True
        elif op is sre_c.LITERAL:
            tests.append(lambda c, a=a: ord(c) == a)
        elif op is sre_c.RANGE:
            tests.append(lambda c, a=a: a[0] <= ord(c) <= a[1])
        elif op is sre_c.CATEGORY:
            tests.append(_CAT[a])
        else:
            raise Unsupported('regex class %s' % op)

    def f(c):
        r = any(t(c) or (icase and (t(c.lower()) or t(c.upper()))) for t in tests)
        return r != neg
    return f


class Rx:
    def __init__(self, pattern, flags=0):
        self.pattern = pattern
        self.real = _re.compile(pattern, flags)
        self.flags = self.real.flags
        self.tree = sre_parse.parse(pattern, flags)
        self.groups = self.real.groups
        self.groupindex = self.real.groupindex

    def _m(self, cells, ops, i, pos, g):
        """yield (pos, groups)"""
        if i == len(ops):
            yield pos, g
            return
        op, av = ops[i]
        n = len(cells)
        ic = bool(self.flags & _re.IGNORECASE)
        if op in (sre_c.LITERAL, sre_c.NOT_LITERAL, sre_c.ANY, sre_c.IN):
            if pos < n and bool(self._one(cells[pos], op, av, ic)):
                yield from self._m(cells, ops, i + 1, pos + 1, g)
        elif op in (sre_c.MAX_REPEAT, sre_c.MIN_REPEAT) or str(op) == 'POSSESSIVE_REPEAT':
            lo, hi, sub = av
            sub = list(sub)
            if op is sre_c.MAX_REPEAT or str(op) == 'POSSESSIVE_REPEAT':
                if len(sub) == 1 and sub[0][0] in (sre_c.LITERAL, sre_c.NOT_LITERAL, sre_c.ANY, sre_c.IN):
                    k = 0
                    while (hi is sre_c.MAXREPEAT or k < hi) and pos + k < n and bool(self._one(cells[pos + k], sub[0][0], sub[0][1], ic)):
                        k += 1
                    while k >= lo:
                        yield from self._m(cells, ops, i + 1, pos + k, g)
                        k -= 1
                else:
                    yield from self._rep(cells, ops, i, pos, g, sub, lo, hi, 0, True)
            else:
                yield from self._rep(cells, ops, i, pos, g, sub, lo, hi, 0, False)
        elif op is sre_c.SUBPATTERN:
            gid, _, _, sub = av
            for p2, g2 in self._m(cells, list(sub), 0, pos, g):
                g3 = dict(g2)
                if gid is not None:
                    g3[gid] = (pos, p2)
                yield from self._m(cells, ops, i + 1, p2, g3)
        elif op is sre_c.BRANCH:
            for br in av[1]:
                for p2, g2 in self._m(cells, list(br), 0, pos, g):
                    yield from self._m(cells, ops, i + 1, p2, g2)
        elif op is sre_c.AT:
            if self._at(cells, av, pos):
                yield from self._m(cells, ops, i + 1, pos, g)
        elif op is sre_c.GROUPREF:
            a, b = g.get(av, (-1, -1))
            if a >= 0:
                ref = cells[a:b]
                if pos + len(ref) <= n and bool(And(*[cell_eq(x, y) for x, y in zip(ref, cells[pos:])])):
                    yield from self._m(cells, ops, i + 1, pos + len(ref), g)
        elif op in (sre_c.ASSERT, sre_c.ASSERT_NOT):
            d, sub = av
            if d < 0:
                w = sub.getwidth()
                if w[0] != w[1]:
                    raise Unsupported('look-behind')
                ok = pos - w[0] >= 0 and next(iter(self._m(cells, list(sub), 0, pos - w[0], g)), None) is not None
            else:
                ok = next(iter(self._m(cells, list(sub), 0, pos, g)), None) is not None
            if ok == (op is sre_c.ASSERT):
                yield from self._m(cells, ops, i + 1, pos, g)
        else:
            raise Unsupported('regex op %s' % op)

    def _rep(self, cells, ops, i, pos, g, sub, lo, hi, k, greedy):
        if not greedy and k >= lo:
            yield from self._m(cells, ops, i + 1, pos, g)
        if hi is sre_c.MAXREPEAT or k < hi:
            for p2, g2 in self._m(cells, sub, 0, pos, g):
                if p2 == pos:
                    continue
                yield from self._rep(cells, ops, i, p2, g2, sub, lo, hi, k + 1, greedy)
        if greedy and k >= lo:
            yield from self._m(cells, ops, i + 1, pos, g)

    def _one(self, cell, op, av, ic):
        if op is sre_c.LITERAL:
            ch = chr(av)
            return cell_pred(cell, lambda c: c == ch or (ic and c.lower() == ch.lower()))
        if op is sre_c.NOT_LITERAL:
            return cell_pred(cell, lambda c: c != chr(av))
        if op is sre_c.ANY:
            return cell_pred(cell, lambda c: c != '\n' or bool(self.flags & _re.DOTALL))
        return cell_pred(cell, _inpred(av, ic))

    def _at(self, cells, av, pos):
        n = len(cells)
        ml = bool(self.flags & _re.MULTILINE)
        if av is sre_c.AT_BEGINNING or av is sre_c.AT_BEGINNING_STRING:
            if pos == 0:
                return True
            return ml and av is sre_c.AT_BEGINNING and bool(cell_eq(cells[pos - 1], '\n'))
        if av is sre_c.AT_END:
            if pos == n or (pos == n - 1 and bool(cell_pred(cells[pos], lambda c: c == '\n'))):
                return True
            return ml and bool(cell_pred(cells[pos], lambda c: c == '\n'))
        if av is sre_c.AT_END_STRING:
            return pos == n
        if av in (sre_c.AT_BOUNDARY, sre_c.AT_NON_BOUNDARY):
            w = lambda c: c.isalnum() or c == '_'
            a = pos > 0 and bool(cell_pred(cells[pos - 1], w))
            b = pos < n and bool(cell_pred(cells[pos], w))
            return (a != b) == (av is sre_c.AT_BOUNDARY)
        raise Unsupported('regex anchor')

    def _at_pos(self, s, pos):
        cells = cells_of(s)
        for p2, g in self._m(cells, list(self.tree), 0, pos, {}):
            return Match(s, pos, p2, g, self.groups, dict(self.groupindex))
        return None

    def match(self, s, pos=0):
        if isinstance(s, str):
            return self.real.match(s, pos)
        return self._at_pos(s, pos)

    def fullmatch(self, s):
        if isinstance(s, str):
            return self.real.fullmatch(s)
        cells = cells_of(s)
        for p2, g in self._m(cells, list(self.tree), 0, 0, {}):
            if p2 == len(cells):
                return Match(s, 0, p2, g, self.groups, dict(self.groupindex))
        return None

    def search(self, s, pos=0):
        if isinstance(s, str):
            return self.real.search(s, pos)
        for p in range(pos, len(s.c) + 1):
            m = self._at_pos(s, p)
            if m:
                return m
        return None

    def finditer(self, s):
        if isinstance(s, str):
            yield from self.real.finditer(s)
            return
        pos = 0
        n = len(s.c)
        last = -1
        while pos <= n:
            m = self.search(s, pos)
            if m is None:
                return
            if m._e == m._s and m._s == last:
                pos = m._s + 1
                # try a nonempty match at same place is not attempted (python tries pos+1)
                last = -1
                continue
            yield m
            last = m._e
            pos = m._e if m._e > m._s else m._e
            if m._e == m._s:
                pos = m._e + 1
                last = -1

    def findall(self, s):
        if isinstance(s, str):
            return self.real.findall(s)
        out = []
        for m in self.finditer(s):
            if self.groups == 0:
                out.append(m.group(0))
            else:
                gs = tuple('' if x is None else x for x in m.groups())
                out.append(gs[0] if self.groups == 1 else gs)
        return out

    def sub(self, repl, s, count=0):
        if isinstance(s, str):
            return self.real.sub(repl, s, count)
        out = []
        pos = 0
        k = 0
        cells = cells_of(s)
        for m in self.finditer(s):
            if count and k >= count:
                break
            out.extend(cells[pos:m._s])
            if callable(repl):
                out.extend(cells_of(repl(m)))
            else:
                out.extend(self._template(repl, m))
            pos = m._e
            k += 1
        out.extend(cells[pos:])
        return mk(out)

    def _template(self, repl, m):
        if isinstance(repl, SymStr):
            raise Unsupported('symbolic replacement')
        if '\\' not in repl:
            return tuple(repl)
        out = []
        for part in _re.split(r'(\\(?:\d+|g<\w+>|.))', repl):
            mm = _re.fullmatch(r'\\(\d+)', part) or _re.fullmatch(r'\\g<(\w+)>', part)
            if mm:
                k = mm.group(1)
                v = m._sub(int(k) if k.isdigit() else k)
                out.extend(cells_of(v or ''))
            elif part.startswith('\\') and len(part) == 2:
                out.extend({'n': '\n', 't': '\t', '\\': '\\', 'r': '\r'}.get(part[1], part))
            else:
                out.extend(part)
        return out

    def split(self, s, maxsplit=0):
        if isinstance(s, str):
            return self.real.split(s, maxsplit)
        out = []
        pos = 0
        k = 0
        for m in self.finditer(s):
            if maxsplit and k >= maxsplit:
                break
            if m._e == m._s and (m._s == 0 or m._s == len(s.c)):
                pass
            out.append(mk(s.c[pos:m._s]))
            out.extend(m.groups())
            pos = m._e
            k += 1
        out.append(mk(s.c[pos:]))
        return out


class ReShim:
    """stands in for the re module"""
    _cache = {}

    def __getattr__(self, n):
        return getattr(_re, n)

    def compile(self, p, flags=0):
        if isinstance(p, Rx):
            return p
        k = (p, int(flags))
        r = self._cache.get(k)
        if r is None:
            r = self._cache[k] = Rx(p, flags)
        return r

    def match(self, p, s, flags=0):
        return self.compile(p, flags).match(s)

    def fullmatch(self, p, s, flags=0):
        return self.compile(p, flags).fullmatch(s)

    def search(self, p, s, flags=0):
        return self.compile(p, flags).search(s)

    def findall(self, p, s, flags=0):
        return self.compile(p, flags).findall(s)

    def finditer(self, p, s, flags=0):
        return self.compile(p, flags).finditer(s)

    def sub(self, p, r, s, count=0, flags=0):
        if isinstance(p, str) and isinstance(s, SymStr) and p == '$':
            return self.compile(p, flags).sub(r, s, count)
        return self.compile(p, flags).sub(r, s, count)

    def split(self, p, s, maxsplit=0, flags=0):
        return self.compile(p, flags).split(s, maxsplit)


def contains(x, y):
    """x in y"""
    if isinstance(y, str) and isinstance(x, SymStr):
        return SymStr(y).__contains__(x)
    if isinstance(y, (dict, set, frozenset)) or type(y).__name__ in ('dict_keys', 'dict_values', 'odict_keys'):
        if isinstance(x, (SymStr, S)):
            return any(bool(k == x) for k in y if is_s(k) or not isinstance(x, SymStr))
    return x in y
