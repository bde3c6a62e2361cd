"""numpy stand-in for symbolically executed modules.

Arrays that may hold symbolic values are SArr (object-dtype ndarray subclass); every ufunc on them is
applied element by element, with symbolic elements handled by sym.py and concrete ones by real numpy.
Functions without a special rule run real numpy on plain object arrays.
"""
import math, builtins
import numpy as np
from . import sym
from .sym import S, SymC, SymBool, Ctx, And, Or, Not, Unsupported, lift, INF, PI
from .strs import SymStr, is_s, to_float, to_int, to_str
from . import dt as _sdt

NAN = float('nan')


def is_symscalar(x):
    return isinstance(x, (S, SymC, SymBool, SymStr, _sdt.SymDT, _sdt.SymTD))


def has_sym(x, depth=0):
    if is_symscalar(x):
        return True
    if isinstance(x, SArr):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)):
        return any(has_sym(y, depth + 1) for y in x)
    if type(x).__name__ in ('Series', 'DataFrame', 'Index'):
        return True
    return False


class Poison:
    """a value that must not be used"""

    def __init__(self, why):
        self.__dict__['_why'] = why

    def _bad(self, *a, **k):
        raise Unsupported(self._why)
    __getattr__ = __getitem__ = __len__ = __iter__ = __add__ = __radd__ = __mul__ = __sub__ = __bool__ = __call__ = __float__ = _bad


# --------------------------------------------------------------------------- elementwise scalar rules
def _pyfloat(v):
    if isinstance(v, S):
        return v
    return v


def _conc(v):
    return not is_symscalar(v)


def cdiv(a, b):
    if isinstance(b, S) and b.is_const():
        b = b.cval()
    if isinstance(a, S) and a.is_const():
        a = a.cval()
    if isinstance(b, (int, float)) and not isinstance(b, bool) and b == 0:
        if isinstance(a, (S,)):
            return sym.div_zero(a)
        if isinstance(a, SymC):
            return NAN
        with np.errstate(all='ignore'):
            return (np.float64(a) / np.float64(b)).item() if not isinstance(a, complex) else complex(np.complex128(a) / b)
    return a / b


def cpow(a, b):
    if isinstance(b, S) and b.is_const():
        b = b.cval()
    if _conc(a) and _conc(b):
        with np.errstate(all='ignore'):
            if isinstance(a, int) and isinstance(b, int) and b >= 0:
                return a ** b
            return np.power(np.complex128(a) if isinstance(a, complex) else np.float64(a), b).item()
    if isinstance(a, (int, float)) and isinstance(b, S):
        return b.__rpow__(a)
    return a ** b


def cmax(a, b):
    for v in (a, b):
        if isinstance(v, float) and v != v:
            return v
    return a if bool(a >= b) else b


def cmin(a, b):
    for v in (a, b):
        if isinstance(v, float) and v != v:
            return v
    return a if bool(a <= b) else b


def fmax_(a, b):
    if isinstance(a, float) and a != a:
        return b
    if isinstance(b, float) and b != b:
        return a
    return cmax(a, b)


def fmin_(a, b):
    if isinstance(a, float) and a != a:
        return b
    if isinstance(b, float) and b != b:
        return a
    return cmin(a, b)


def tb(x):
    """truth as SymBool or bool"""
    if isinstance(x, SymBool):
        return x
    if isinstance(x, S):
        return x != 0
    return bool(x)


def sfmod(a, b):
    return a - b * sym.trunc(a / b)


def isnan_(x):
    return isinstance(x, (float, np.floating, complex)) and x != x


def isfin_(x):
    if isinstance(x, (float, np.floating, complex, np.complexfloating)):
        return bool(np.isfinite(x))
    return True


def isinf_(x):
    return isinstance(x, (float, np.floating)) and x in (INF, -INF)


def sgn(x):
    if bool(x > 0):
        return 1.0
    return -1.0 if bool(x < 0) else 0.0


def _meth(name):
    def f(x):
        if isinstance(x, SymBool):
            x = int(bool(x))
        if isinstance(x, (S, SymC)):
            g = getattr(x, name, None)
            if g is None:
                raise Unsupported('%s of %s' % (name, type(x).__name__))
            return g()
        with np.errstate(all='ignore'):
            if isinstance(x, int):
                x = float(x)
            return _item(getattr(np, name)(x))
    return f


def _item(v):
    return v.item() if isinstance(v, np.generic) else v


def _bitop(op):
    def f(a, b):
        if isinstance(a, (SymBool, bool, np.bool_)) and isinstance(b, (SymBool, bool, np.bool_)):
            if op == 'and':
                return And(tb(a), tb(b))
            if op == 'or':
                return Or(tb(a), tb(b))
            return bool(a) != bool(b)
        if op == 'and':
            return a & b
        if op == 'or':
            return a | b
        return a ^ b
    return f


def modulo(a, b):
    if _conc(a) and _conc(b):
        with np.errstate(all='ignore'):
            return _item(np.remainder(a, b))
    return a % b


def floordiv(a, b):
    if _conc(a) and _conc(b):
        with np.errstate(all='ignore'):
            return _item(np.floor_divide(a, b))
    return a // b


def cabs(x):
    if isinstance(x, SymBool):
        return bool(x)
    return abs(x)


def eq_(a, b):
    return a == b


RULES = {
    'add': lambda a, b: a + b, 'subtract': lambda a, b: a - b, 'multiply': lambda a, b: a * b,
    'divide': cdiv, 'true_divide': cdiv, 'power': cpow, 'float_power': cpow, 'pow': cpow, 'floor_divide': floordiv,
    'remainder': modulo, 'mod': modulo, 'fmod': lambda a, b: sfmod(a, b) if not (_conc(a) and _conc(b)) else math.fmod(a, b),
    'arctan2': lambda a, b: sym.atan2(a, b), 'atan2': lambda a, b: sym.atan2(a, b),
    'hypot': lambda a, b: sym.sqrt(lift(a) * a + lift(b) * b) if not (_conc(a) and _conc(b)) else math.hypot(a, b),
    'maximum': cmax, 'minimum': cmin, 'fmax': fmax_, 'fmin': fmin_,
    'less': lambda a, b: a < b, 'less_equal': lambda a, b: a <= b, 'greater': lambda a, b: a > b,
    'greater_equal': lambda a, b: a >= b, 'equal': lambda a, b: a == b, 'not_equal': lambda a, b: a != b,
    'logical_and': lambda a, b: And(tb(a), tb(b)), 'logical_or': lambda a, b: Or(tb(a), tb(b)),
    'logical_xor': lambda a, b: bool(a) != bool(b), 'logical_not': lambda a: Not(tb(a)),
    'bitwise_and': _bitop('and'), 'bitwise_or': _bitop('or'), 'bitwise_xor': _bitop('xor'),
    'left_shift': lambda a, b: a << b, 'right_shift': lambda a, b: a >> b,
    'invert': lambda a: Not(tb(a)) if isinstance(a, (bool, np.bool_, SymBool)) else ~a,
    'negative': lambda a: -a, 'positive': lambda a: a, 'absolute': cabs, 'abs': cabs, 'fabs': cabs,
    'isnan': isnan_, 'isfinite': isfin_, 'isinf': isinf_, 'sign': sgn,
    'conjugate': lambda a: a.conjugate(), 'conj': lambda a: a.conjugate(),
    'copysign': lambda a, b: abs(a) if bool(b >= 0) else -abs(a),
    'heaviside': lambda a, b: 0.0 if bool(a < 0) else (b if bool(a == 0) else 1.0),
    'square': lambda a: a * a, 'reciprocal': lambda a: cdiv(1.0, a),
    'exp2': lambda a: sym.exp(a * math.log(2)) if isinstance(a, S) else 2.0 ** a,
    'log2': lambda a: sym.log(a) / math.log(2) if isinstance(a, S) else _item(np.log2(a)),
    'matmul': None,
}
for _n in ('sin', 'cos', 'tan', 'exp', 'expm1', 'log', 'log1p', 'log10', 'sqrt', 'cbrt', 'arctan', 'arcsin', 'arccos', 'sinh',
           'cosh', 'tanh', 'deg2rad', 'radians', 'rad2deg', 'degrees', 'floor', 'ceil', 'trunc', 'rint'):
    RULES[_n] = _meth(_n)
RULES['atan'], RULES['asin'], RULES['acos'] = RULES['arctan'], RULES['arcsin'], RULES['arccos']
BOOLRES = {'less', 'less_equal', 'greater', 'greater_equal', 'equal', 'not_equal', 'logical_and', 'logical_or', 'logical_xor',
           'logical_not', 'isnan', 'isfinite', 'isinf'}
NATIVE = (int, float, complex, bool, str)


def to_obj(x):
    """anything -> plain object (or concrete) ndarray"""
    if isinstance(x, SArr):
        return x.view(np.ndarray)
    if isinstance(x, np.ndarray):
        return x
    if is_symscalar(x) or isinstance(x, Poison):
        a = np.empty((), dtype=object)
        a[()] = x
        return a
    if type(x).__name__ in ('Series', 'Index'):
        v = np.asarray(x)
        return v
    if isinstance(x, (list, tuple)) and has_sym(x):
        return build(x)
    return np.asarray(x)


def build(x):
    """nested lists -> object ndarray, treating symbolic text etc. as scalars"""
    def shape(v):
        if isinstance(v, np.ndarray):
            return v.shape
        if type(v).__name__ in ('Series', 'Index'):
            return (len(v),)
        if isinstance(v, (list, tuple)):
            if not v:
                return (0,)
            s0 = shape(v[0])
            for w in v[1:]:
                if shape(w) != s0:
                    raise ValueError('setting an array element with a sequence: inhomogeneous shape')
            return (len(v),) + s0
        return ()
    sh = shape(x)
    out = np.empty(sh, dtype=object)

    def fill(v, idx):
        if isinstance(v, np.ndarray):
            if v.ndim == 0:
                out[idx] = v.item() if v.dtype != object else v[()]
            else:
                for i in range(len(v)):
                    fill(v[i] if v.ndim > 1 else _item(v.view(np.ndarray)[i]), idx + (i,))
        elif type(v).__name__ in ('Series', 'Index'):
            for i, w in enumerate(v):
                fill(_item(w), idx + (i,))
        elif isinstance(v, (list, tuple)):
            for i, w in enumerate(v):
                fill(w, idx + (i,))
        else:
            out[idx] = _item(v)
    fill(x, ())
    return out


def mkobj(shape):
    return np.empty(shape, dtype=object)


def norm(a, boolres=False, ldt=None):
    """object ndarray -> SArr (or concrete bool array)"""
    if a.ndim == 0:
        v = a[()]
        return v
    if boolres:
        if all(isinstance(v, (bool, np.bool_)) for v in a.flat):
            return a.astype(bool)
    return SArr.wrap(a, ldt)


def apply_ufunc(name, real, inputs, kw):
    rule = RULES.get(name)
    if rule is None:
        raise Unsupported('numpy ufunc %s on symbolic values' % name)
    arrs = [to_obj(x) for x in inputs]
    if all(a.dtype != object for a in arrs) or (all(a.ndim == 0 or len(a.flat) for a in arrs) and _allconc(arrs)):
        # concrete after all
        conv = [to_real(a) for a in arrs]
        kw2 = {k: v for k, v in kw.items() if k not in ('out', 'where')}
        with np.errstate(all='ignore'):
            r = real(*conv, **kw2)
        if isinstance(r, np.ndarray) and r.dtype.kind in 'fiuc' and r.ndim:
            return SArr.wrap(r.astype(object), r.dtype.kind if r.dtype.kind != 'u' else 'i')
        return _item(r) if isinstance(r, np.generic) and r.dtype.kind in 'fiucb' else r
    b = np.broadcast(*arrs)
    out = mkobj(b.shape)
    it = out.reshape(-1)
    if len(arrs) == 1:
        for i, v in enumerate(arrs[0].flat):
            it[i] = rule(_item(v))
    else:
        for i, vs in enumerate(b):
            it[i] = rule(*[_item(v) for v in vs])
    return norm(out, name in BOOLRES or name.startswith('bitwise') or name == 'invert')


def _allconc(arrs):
    for a in arrs:
        if a.dtype == object:
            for v in a.flat:
                if not isinstance(v, NATIVE) and not isinstance(v, np.generic):
                    return False
                if isinstance(v, str):
                    return False
    return True


def to_real(a):
    if isinstance(a, SArr):
        a = a.view(np.ndarray)
    if isinstance(a, np.ndarray) and a.dtype == object:
        vs = list(a.flat)
        if all(isinstance(v, (bool, np.bool_)) for v in vs) and vs:
            return a.astype(bool)
        if all(isinstance(v, (int, np.integer)) for v in vs) and vs:
            return a.astype(np.int64)
        if any(isinstance(v, complex) for v in vs):
            return a.astype(complex)
        return a.astype(float)
    return a


def is_conc_arr(x):
    """all elements concrete numbers"""
    a = to_obj(x)
    return a.dtype != object or _allconc([a])


# --------------------------------------------------------------------------- array class
def coerce(v, ldt):
    if ldt == 'i':
        if isinstance(v, S):
            return sym.trunc(v)
        if isinstance(v, SymBool):
            return int(bool(v))
        if isinstance(v, (SymC, complex)):
            raise TypeError('int() argument must be a real number')
        if isinstance(v, SymStr):
            return to_int(v)
        if isinstance(v, (float, np.floating)):
            if v != v or v in (INF, -INF):
                raise ValueError('cannot convert float NaN to integer')
        return int(v)
    if ldt == 'f':
        if isinstance(v, S):
            return v
        if isinstance(v, SymC):
            return v.re
        if isinstance(v, SymBool):
            return 1.0 if bool(v) else 0.0
        if isinstance(v, SymStr):
            return to_float(v)
        if isinstance(v, complex):
            return v.real
        if isinstance(v, np.ndarray) and v.ndim == 0:
            return coerce(v[()], ldt)
        if isinstance(v, np.ndarray) and v.size == 1:
            return coerce(v.reshape(-1)[0], ldt)
        return float(v)
    if ldt == 'c':
        return SymC.of(v) if isinstance(v, (S, SymC, SymBool)) else complex(v)
    if ldt == 'b':
        return tb(v)
    return v


class SArr(np.ndarray):
    __array_priority__ = 3000
    ldt = None

    @staticmethod
    def wrap(a, ldt=None):
        r = np.asarray(a, dtype=object).view(SArr)
        r.ldt = ldt
        return r

    def __array_finalize__(self, o):
        self.ldt = getattr(o, 'ldt', None)

    def __array_ufunc__(self, uf, method, *inputs, **kw):
        out = kw.get('out')
        if method == '__call__':
            if uf.__name__ == 'matmul':
                r = matmul(*inputs)
            else:
                r = apply_ufunc(uf.__name__, uf, inputs, {k: v for k, v in kw.items() if k not in ('out',)})
            w = kw.get('where', True)
            if out is not None:
                o = out[0]
                if w is True:
                    o[...] = r
                else:
                    w = np.asarray(tolist_bool(w))
                    ra = np.broadcast_to(to_obj(r), o.shape)
                    for i in np.ndindex(o.shape):
                        if np.broadcast_to(w, o.shape)[i]:
                            o[i] = ra[i]
                return o
            return r
        if method == 'reduce':
            return reduce_(uf.__name__, inputs[0], kw.get('axis', 0), kw.get('keepdims', False))
        if method == 'accumulate':
            a = to_obj(inputs[0])
            rule = RULES[uf.__name__]
            ax = kw.get('axis', 0) or 0
            a2 = np.moveaxis(a, ax, 0)
            o = mkobj(a2.shape)
            for i in range(a2.shape[0]):
                if i == 0:
                    o[0] = a2[0]
                else:
                    o[i] = to_obj(apply_ufunc(uf.__name__, uf, (o[i - 1], a2[i]), {})) if a2.ndim > 1 else rule(o[i - 1], a2[i])
            return SArr.wrap(np.moveaxis(o, 0, ax))
        if method == 'outer':
            a, b = to_obj(inputs[0]), to_obj(inputs[1])
            return apply_ufunc(uf.__name__, uf, (a.reshape(a.shape + (1,) * b.ndim), b), {})
        raise Unsupported('ufunc method %s' % method)

    # indexing
    def _idx(self, k):
        if isinstance(k, tuple):
            return tuple(self._idx1(x) for x in k)
        return self._idx1(k)

    @staticmethod
    def _idx1(k):
        if isinstance(k, S):
            return k.__index__()
        if isinstance(k, SymBool):
            return bool(k)
        if isinstance(k, float):
            raise IndexError('only integers, slices are valid indices')
        if isinstance(k, SArr) or (isinstance(k, np.ndarray) and k.dtype == object) or (isinstance(k, list) and has_sym(k)):
            return as_index(k)
        if type(k).__name__ == 'Series':
            return as_index(np.asarray(k))
        return k

    def __getitem__(self, k):
        r = self.view(np.ndarray)[self._idx(k)]
        if isinstance(r, np.ndarray):
            r = r.view(SArr)
            r.ldt = self.ldt
        return r

    def __setitem__(self, k, v):
        k = self._idx(k)
        base = self.view(np.ndarray)
        if isinstance(v, (np.ndarray, list, tuple)) or type(v).__name__ == 'Series':
            va = to_obj(v)
            sel = base[k]
            if not isinstance(sel, np.ndarray):
                base[k] = coerce(va if va.ndim else va[()], self.ldt) if self.ldt else (va if va.ndim else va[()])
                return
            o = mkobj(va.shape)
            of = o.reshape(-1)
            for i, x in enumerate(va.flat):
                of[i] = coerce(_item(x), self.ldt)
            base[k] = of.reshape(va.shape)
        else:
            x = coerce(_item(v), self.ldt)
            sel = base[k]
            if isinstance(sel, np.ndarray) and sel.ndim and is_s(x):
                base[k] = np.full(sel.shape, x, dtype=object) if isinstance(x, str) else _full(sel.shape, x)
            elif isinstance(sel, np.ndarray):
                base[k] = _full(sel.shape, x)
            else:
                base[k] = x

    def __iter__(self):
        if self.ndim == 1:
            return iter(list(self.view(np.ndarray)))
        return iter([self[i] for i in range(len(self))])

    def __array_function__(self, func, types, args, kwargs):
        f = getattr(PROXY, func.__name__, None) if func.__module__ in ('numpy', None) or True else None
        if f is not None and getattr(f, '_sx', False):
            return f(*args, **kwargs)
        return generic(func, args, kwargs)

    def astype(self, t, *a, **k):
        ld = ldt_of(t)
        if ld == 's':
            o = mkobj(self.shape)
            of = o.reshape(-1)
            for i, x in enumerate(self.view(np.ndarray).flat):
                of[i] = to_str(x)
            return SArr.wrap(o, None)
        if ld is None:
            if t is object or t == 'O':
                return SArr.wrap(self.view(np.ndarray).copy(), None)
            raise Unsupported('astype %r' % (t,))
        o = mkobj(self.shape)
        of = o.reshape(-1)
        for i, x in enumerate(self.view(np.ndarray).flat):
            of[i] = coerce(x, ld)
        if ld == 'b' and all(isinstance(v, bool) for v in of):
            return o.astype(bool)
        return SArr.wrap(o, ld)

    def copy(self, order='C'):
        return SArr.wrap(self.view(np.ndarray).copy(), self.ldt)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, m):
        return self.copy()

    def mean(self, axis=None, *a, **k):
        return np_mean(self, axis, **k)

    def sum(self, axis=None, *a, **k):
        return reduce_('add', self, axis, k.get('keepdims', False))

    def prod(self, axis=None, **k):
        return reduce_('multiply', self, axis)

    def min(self, axis=None, **k):
        return reduce_('minimum', self, axis, k.get('keepdims', False))

    def max(self, axis=None, **k):
        return reduce_('maximum', self, axis, k.get('keepdims', False))

    def ptp(self, axis=None):
        return self.max(axis) - self.min(axis)

    def any(self, axis=None, **k):
        return reduce_('logical_or', self, axis)

    def all(self, axis=None, **k):
        return reduce_('logical_and', self, axis)

    def std(self, axis=None, ddof=0, **k):
        return np_std(self, axis, ddof)

    def var(self, axis=None, ddof=0, **k):
        return np_var(self, axis, ddof)

    def argmin(self, axis=None, **k):
        return argminmax(self, axis, lambda a, b: a < b)

    def argmax(self, axis=None, **k):
        return argminmax(self, axis, lambda a, b: a > b)

    def dot(self, o):
        return matmul_dot(self, o)

    def __matmul__(self, o):
        return matmul(self, o)

    def __rmatmul__(self, o):
        return matmul(o, self)

    def clip(self, lo=None, hi=None, **k):
        return np_clip(self, lo, hi)

    def round(self, d=0):
        return np_round(self, d)

    def conj(self):
        return apply_ufunc('conjugate', np.conjugate, (self,), {})
    conjugate = conj

    def nonzero(self):
        return np.nonzero(tolist_bool(self))

    def tolist(self):
        return self.view(np.ndarray).tolist()

    def item(self, *a):
        if a:
            return self.view(np.ndarray).item(*a)
        return self.view(np.ndarray).reshape(-1)[0]

    def cumsum(self, axis=None, **k):
        return PROXY.cumsum(self, axis)

    def fill(self, v):
        self[...] = v

    def argsort(self, axis=-1, **k):
        return np.argsort(self.view(np.ndarray), axis=axis, kind='stable')

    def repeat(self, n, axis=None):
        return SArr.wrap(self.view(np.ndarray).repeat(n, axis), self.ldt)

    @property
    def real(self):
        return elem(self, re_)

    @property
    def imag(self):
        return elem(self, im_)

    def __bool__(self):
        if self.size == 1:
            return bool(self.view(np.ndarray).reshape(-1)[0])
        if self.size == 0:
            return False
        raise ValueError('The truth value of an array with more than one element is ambiguous')

    def __float__(self):
        if self.size == 1:
            return float(self.reshape(-1)[0])
        raise TypeError('only length-1 arrays can be converted to Python scalars')


def _full(shape, x):
    o = np.empty(shape, dtype=object)
    of = o.reshape(-1)
    for i in range(of.size):
        of[i] = x
    return o


def re_(x):
    return x.re if isinstance(x, SymC) else x if isinstance(x, S) else (x.real if isinstance(x, complex) else x)


def im_(x):
    return x.im if isinstance(x, SymC) else 0.0 if isinstance(x, S) else (x.imag if isinstance(x, complex) else 0.0)


def elem(x, f):
    a = to_obj(x)
    o = mkobj(a.shape)
    of = o.reshape(-1)
    for i, v in enumerate(a.flat):
        of[i] = f(_item(v))
    return norm(o)


def as_index(k):
    a = to_obj(k)
    vs = list(a.flat)
    if vs and all(isinstance(v, (bool, np.bool_, SymBool)) for v in vs):
        return np.array([bool(v) for v in vs], dtype=bool).reshape(a.shape)
    if any(isinstance(v, float) for v in vs):
        raise IndexError('arrays used as indices must be of integer (or boolean) type')
    return np.array([v.__index__() for v in vs], dtype=int).reshape(a.shape)


def tolist_bool(a):
    a = to_obj(a)
    return np.array([bool(v) for v in a.flat], dtype=bool).reshape(a.shape)


def reduce_(name, x, axis=None, keepdims=False):
    a = to_obj(x)
    rule = RULES[name]
    if name in ('logical_or', 'logical_and'):
        rule = (lambda p, r: Or(p, tb(r))) if name == 'logical_or' else (lambda p, r: And(p, tb(r)))
    init = {'add': 0.0, 'multiply': 1.0, 'logical_or': False, 'logical_and': True}.get(name)

    def red(vs):
        vs = [_item(v) for v in vs]
        if not vs:
            if init is None:
                raise ValueError('zero-size array to reduction operation %s which has no identity' % name)
            return init
        if name in ('logical_or', 'logical_and'):
            return Or(*[tb(v) for v in vs]) if name == 'logical_or' else And(*[tb(v) for v in vs])
        if name == 'add':
            return fsum(vs)
        if name in ('maximum', 'minimum', 'fmax', 'fmin') and len(vs) > 2 and any(isinstance(v, S) for v in vs) and all(
                isinstance(v, S) or type(v) in (int, float) and v == v for v in vs):
            return (sym.smax if name in ('maximum', 'fmax') else sym.smin)(vs)
        r = vs[0]
        for v in vs[1:]:
            r = rule(r, v)
        return r
    if axis is None:
        r = red(list(a.flat))
        if keepdims:
            return SArr.wrap(_full((1,) * a.ndim, r))
        return r
    if isinstance(axis, tuple):
        for ax in sorted([ax % a.ndim for ax in axis], reverse=True):
            a = to_obj(reduce_(name, a, ax))
        return norm(a) if isinstance(a, np.ndarray) else a
    b = np.moveaxis(a, axis, -1)
    o = mkobj(b.shape[:-1])
    for i in np.ndindex(*b.shape[:-1]):
        o[i] = red(list(b[i]))
    r = norm(o, name.startswith('logical'))
    if keepdims:
        r = r.reshape(a.shape[:axis % a.ndim] + (1,) + a.shape[axis % a.ndim + 1:])
    return r


def fsum(vs):
    """sum of many possibly symbolic numbers, accumulating in place"""
    if any(isinstance(v, (SymC, complex)) for v in vs):
        r = 0.0
        for v in vs:
            r = r + v
        return r
    acc = {}
    anysym = False
    for v in vs:
        if isinstance(v, SymBool):
            v = int(bool(v))
        if isinstance(v, S):
            anysym = True
            for m, c in v.p.items():
                acc.setdefault(m, []).append(c)
        elif isinstance(v, (float, np.floating)) and not math.isfinite(v):
            return float(np.sum([float(u) for u in vs if not isinstance(u, S)]))
        elif isinstance(v, (int, float, np.number, bool)):
            acc.setdefault((), []).append(v)
        else:
            r = vs[0]
            for w in vs[1:]:
                r = r + w
            return r
    if not anysym:
        l = acc.get((), [])
        if all(isinstance(v, (int, np.integer)) for v in l):
            return int(sum(l))
        return float(math.fsum(l))
    p = {}
    for m, l in acc.items():
        s = math.fsum(l)
        if s != 0.0 and abs(s) > 4e-15 * max(abs(c) for c in l):
            p[m] = float(s)
    return S(p)


def np_mean(x, axis=None, **k):
    a = to_obj(x)
    if a.dtype != object:
        return np.mean(a, axis)
    n = a.size if axis is None else (a.shape[axis] if not isinstance(axis, tuple) else int(np.prod([a.shape[i] for i in axis])))
    s = reduce_('add', a, axis, k.get('keepdims', False))
    if n == 0:
        return NAN
    return s / n


def np_var(x, axis=None, ddof=0, **k):
    a = to_obj(x)
    if a.dtype != object:
        return np.var(a, axis, ddof=ddof)
    m = reduce_('add', a, axis, True) / (a.size if axis is None else a.shape[axis])
    d = SArr.wrap(a) - m
    n = a.size if axis is None else a.shape[axis]
    return reduce_('add', d * d, axis) / (n - ddof)


def np_std(x, axis=None, ddof=0, **k):
    v = np_var(x, axis, ddof)
    return apply_ufunc('sqrt', np.sqrt, (v,), {})


def argminmax(x, axis, better):
    a = to_obj(x)

    def one(vs):
        for i, v in enumerate(vs):
            if isinstance(v, float) and v != v:
                return i
        if not len(vs):
            raise ValueError('attempt to get argmin of an empty sequence')
        k = 0
        for i in range(1, len(vs)):
            if bool(better(vs[i], vs[k])):
                k = i
        return k
    if axis is None:
        return one([_item(v) for v in a.flat])
    b = np.moveaxis(a, axis, -1)
    o = np.empty(b.shape[:-1], dtype=int)
    for i in np.ndindex(*b.shape[:-1]):
        o[i] = one([_item(v) for v in b[i]])
    return o if o.ndim else int(o)


def np_clip(x, lo, hi, **k):
    r = x
    if lo is not None:
        r = apply_ufunc('maximum', np.maximum, (r, lo), {})
    if hi is not None:
        r = apply_ufunc('minimum', np.minimum, (r, hi), {})
    return r


def np_round(x, d=0):
    def f(v):
        if isinstance(v, S):
            return sym.floor(v * 10.0 ** d + 0.5) / 10.0 ** d
        return _item(np.round(v, d))
    return elem(x, f)


def matmul(a, b):
    a, b = to_obj(a), to_obj(b)
    if a.ndim == 1 and b.ndim == 1:
        return fsum([_item(x) * _item(y) for x, y in zip(a, b)])
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError('matmul: scalar operand')
    if a.ndim > 2 or b.ndim > 2:
        bs = np.broadcast_shapes(a.shape[:-2] if a.ndim > 2 else (), b.shape[:-2] if b.ndim > 2 else ())
        aa = np.broadcast_to(a, bs + a.shape[-2:]) if a.ndim >= 2 else a
        bb = np.broadcast_to(b, bs + b.shape[-2:]) if b.ndim >= 2 else b
        outs = [to_obj(matmul(aa[i] if a.ndim >= 2 else a, bb[i] if b.ndim >= 2 else b)) for i in np.ndindex(*bs)]
        o = mkobj(bs + outs[0].shape)
        for i, r in zip(np.ndindex(*bs), outs):
            o[i] = r
        return SArr.wrap(o)
    if a.ndim == 1:
        return SArr.wrap(build([fsum([_item(a[k]) * _item(b[k, j]) for k in range(len(a))]) for j in range(b.shape[1])]))
    if b.ndim == 1:
        if a.shape[1] != len(b):
            raise ValueError('matmul: mismatch in core dimension')
        return SArr.wrap(build([fsum([_item(a[i, k]) * _item(b[k]) for k in range(len(b))]) for i in range(a.shape[0])]))
    if a.shape[1] != b.shape[0]:
        raise ValueError('matmul: mismatch in core dimension')
    return SArr.wrap(build([[fsum([_item(a[i, k]) * _item(b[k, j]) for k in range(b.shape[0])]) for j in range(b.shape[1])] for i in range(a.shape[0])]))


def matmul_dot(a, b):
    a, b = to_obj(a), to_obj(b)
    if a.ndim == 0 or b.ndim == 0:
        return apply_ufunc('multiply', np.multiply, (a, b), {})
    if a.ndim > 2 or b.ndim > 2:
        return generic(np.dot, (a, b), {})
    return matmul(a, b)


def ldt_of(t):
    if t is None:
        return None
    if isinstance(t, type) and getattr(t, '_sx_real', None) is not None:
        t = t._sx_real
    if isinstance(t, str) and t.startswith('datetime64'):
        return 'M'
    if t in (int, 'int', 'i', 'i4', 'i8') or t is np.int64:
        return 'i'
    if t is float or t == 'float' or t == 'd':
        return 'f'
    if t is complex:
        return 'c'
    if t is bool:
        return 'b'
    if t is str:
        return 's'
    if t is object:
        return None
    try:
        k = np.dtype(t).kind
    except TypeError:
        return None
    return {'i': 'i', 'u': 'i', 'f': 'f', 'c': 'c', 'b': 'b', 'U': 's', 'S': 's', 'M': 'M'}.get(k)


# --------------------------------------------------------------------------- linear decomposition
def decompose(x):
    """vector of polynomials -> {monomial: float vector}"""
    a = to_obj(x).reshape(-1)
    n = len(a)
    out = {}
    for i, v in enumerate(a):
        v = _item(v)
        if isinstance(v, S):
            for m, c in v.p.items():
                vec = out.get(m)
                if vec is None:
                    vec = out[m] = np.zeros(n)
                vec[i] += c
        elif isinstance(v, (SymC, complex)):
            return None
        else:
            vec = out.get(())
            if vec is None:
                vec = out[()] = np.zeros(n)
            vec[i] += float(v)
    if () not in out:
        out[()] = np.zeros(n)
    return out


def recompose(d, scale=None):
    """inverse; coefficients that are rounding residue of a linear operation are dropped when scale is given
    (scale[m] = magnitude of the input vector of monomial m)"""
    if not d:
        return SArr.wrap(np.zeros(0, dtype=object))
    n = len(next(iter(d.values())))
    ps = [dict() for _ in range(n)]
    for m, vec in d.items():
        if m == ():
            continue
        for i in np.nonzero(vec)[0]:
            ps[i][m] = float(vec[i])
    o = mkobj(n)
    c = d.get(())
    for i in range(n):
        v = float(c[i]) if c is not None else 0.0
        if ps[i] and v == v:
            if v != 0.0:
                ps[i][()] = v
            o[i] = S(ps[i])
        else:
            o[i] = v
    return SArr.wrap(o, 'f')


def convolve(a, v, mode='full'):
    ca, cv = is_conc_arr(a), is_conc_arr(v)
    if ca and cv:
        r = np.convolve(to_real(to_obj(a)), to_real(to_obj(v)), mode)
        return SArr.wrap(r.astype(object), 'f')
    if ca or cv:
        x, k = (v, a) if ca else (a, v)
        d = decompose(x)
        if d is not None:
            kk = to_real(to_obj(k)).astype(float)
            if ca:
                return recompose({m: np.convolve(kk, vec, mode) for m, vec in d.items()})
            return recompose({m: np.convolve(vec, kk, mode) for m, vec in d.items()})
    r = np.convolve(np.asarray(to_obj(a), dtype=object), np.asarray(to_obj(v), dtype=object), mode)
    return SArr.wrap(r)


# --------------------------------------------------------------------------- DFT
_tw = {}


def twiddle(N, k, sign):
    k %= N
    key = (N, k, sign)
    r = _tw.get(key)
    if r is None:
        from fractions import Fraction
        f = Fraction(k, N)
        c, s = math.cos(2 * PI * k / N), math.sin(2 * PI * k / N)
        snap = {Fraction(0): (1, 0), Fraction(1, 4): (0, 1), Fraction(1, 2): (-1, 0), Fraction(3, 4): (0, -1)}
        if f in snap:
            c, s = snap[f]
        elif (f * 12).denominator == 1:
            c = round(c * 2) / 2 if abs(abs(c) - .5) < 1e-9 else c
            s = round(s * 2) / 2 if abs(abs(s) - .5) < 1e-9 else s
        r = _tw[key] = (float(c), float(sign * s))
    return r


def dft1(vs, sign):
    N = len(vs)
    vs = [SymC.of(_item(v)) for v in vs]
    out = []
    if N > 48:
        d = {}
        for i, v in enumerate(vs):
            for part, u in ((v.re.p, 1.0), (v.im.p, 1j)):
                for m, c in part.items():
                    w = d.get(m)
                    if w is None:
                        w = d[m] = np.zeros(N, complex)
                    w[i] += u * c
        if len(d) < 64:
            rs, is_ = [{} for _ in range(N)], [{} for _ in range(N)]
            for m, w in d.items():
                f = np.fft.fft(w) if sign < 0 else np.fft.ifft(w) * N
                eps = 1e-14 * float(np.sum(np.abs(w)))
                for k in range(N):
                    if abs(f[k].real) > eps:
                        rs[k][m] = float(f[k].real)
                    if abs(f[k].imag) > eps:
                        is_[k][m] = float(f[k].imag)
            return [SymC(S(r), S(i)) for r, i in zip(rs, is_)]
    for k in range(N):
        re, im = [], []
        for n, v in enumerate(vs):
            c, s = twiddle(N, k * n, sign)
            if v.re.p:
                if c:
                    re.append(v.re * c)
                if s:
                    im.append(v.re * s)
            if v.im.p:
                if s:
                    re.append(v.im * -s)
                if c:
                    im.append(v.im * c)
        out.append(SymC(lift(fsum(re)) if re else 0.0, lift(fsum(im)) if im else 0.0))
    return out


def dft(x, n=None, axis=-1, sign=-1, norm_=None):
    a = to_obj(x)
    if n is not None and n != a.shape[axis]:
        b = np.moveaxis(a, axis, 0)
        if n < b.shape[0]:
            b = b[:n]
        else:
            b = np.concatenate([b.astype(object), np.full((n - b.shape[0],) + b.shape[1:], 0.0, dtype=object)])
        a = np.moveaxis(b, 0, axis)
    b = np.moveaxis(a, axis, -1)
    N = b.shape[-1]
    o = mkobj(b.shape)
    sc = 1.0
    if norm_ == 'ortho':
        sc = 1 / math.sqrt(N)
    elif (sign > 0) != (norm_ == 'forward'):
        sc = 1.0 / N
    for i in np.ndindex(*b.shape[:-1]):
        r = dft1(list(b[i]), sign)
        for k in range(N):
            o[i + (k,)] = r[k] * sc if sc != 1.0 else r[k]
    return SArr.wrap(np.moveaxis(o, -1, axis), 'c')


class FFT:
    def __getattr__(self, n):
        f = getattr(np.fft, n)

        def g(*a, **k):
            if not any(has_sym(x) for x in a):
                return f(*a, **k)
            return generic(f, a, k)
        return g

    def _c(self, a):
        return is_conc_arr(a)

    def fft(self, a, n=None, axis=-1, norm=None):
        if self._c(a):
            return wrapc(np.fft.fft(to_real(to_obj(a)), n, axis, norm))
        return dft(a, n, axis, -1, norm)

    def ifft(self, a, n=None, axis=-1, norm=None):
        if self._c(a):
            return wrapc(np.fft.ifft(to_real(to_obj(a)), n, axis, norm))
        return dft(a, n, axis, 1, norm)

    def fftn(self, a, s=None, axes=None, norm=None):
        axes = tuple(range(to_obj(a).ndim)) if axes is None else axes
        for i, ax in enumerate(axes):
            a = self.fft(a, None if s is None else s[i], ax, norm)
        return a

    def ifftn(self, a, s=None, axes=None, norm=None):
        axes = tuple(range(to_obj(a).ndim)) if axes is None else axes
        for i, ax in enumerate(axes):
            a = self.ifft(a, None if s is None else s[i], ax, norm)
        return a

    def fft2(self, a, s=None, axes=(-2, -1), norm=None):
        return self.fftn(a, s, axes, norm)

    def ifft2(self, a, s=None, axes=(-2, -1), norm=None):
        return self.ifftn(a, s, axes, norm)

    def rfft(self, a, n=None, axis=-1, norm=None):
        if self._c(a):
            return wrapc(np.fft.rfft(to_real(to_obj(a)), n, axis, norm))
        r = to_obj(dft(a, n, axis, -1, norm))
        N = r.shape[axis]
        return SArr.wrap(np.moveaxis(np.moveaxis(r, axis, 0)[:N // 2 + 1], 0, axis), 'c')

    def irfft(self, a, n=None, axis=-1, norm=None):
        r = np.moveaxis(to_obj(a), axis, 0)
        if n is None:
            n = 2 * (r.shape[0] - 1)
        h = list(r[:n // 2 + 1])
        full = h + [SArr.wrap(np.asarray(h[n - k], dtype=object)).conj() if isinstance(h[n - k], np.ndarray) else h[n - k].conjugate()
                    for k in range(len(h), n)]
        return dft(np.moveaxis(build(full), 0, axis), None, axis, 1, norm).real

    def fftfreq(self, n, d=1.0, **k):
        k = np.fft.fftfreq(int(n), 1.0) * n
        return SArr.wrap(build([float(round(v)) for v in k]), 'f') / (d * n)

    def rfftfreq(self, n, d=1.0, **k):
        return SArr.wrap(build([float(i) for i in range(n // 2 + 1)]), 'f') / (d * n)

    def fftshift(self, a, axes=None):
        return SArr.wrap(np.fft.fftshift(to_obj(a), axes))

    def ifftshift(self, a, axes=None):
        return SArr.wrap(np.fft.ifftshift(to_obj(a), axes))


def wrapc(r):
    return SArr.wrap(r.astype(object), 'c')


# --------------------------------------------------------------------------- generic fallback
def unwrap(x):
    if isinstance(x, SArr):
        return x.view(np.ndarray)
    if is_symscalar(x):
        return to_obj(x)
    if isinstance(x, list):
        return build(x) if has_sym(x) and not any(isinstance(v, (SArr, np.ndarray)) for v in x) else [unwrap(v) for v in x]
    if isinstance(x, tuple):
        return tuple(unwrap(v) for v in x)
    return x


def rewrap(r, ldt=None):
    if isinstance(r, np.ndarray) and r.dtype == object:
        if r.ndim == 0:
            return r[()]
        return r.view(SArr)
    if isinstance(r, tuple):
        return tuple(rewrap(v) for v in r)
    if isinstance(r, list):
        return [rewrap(v) for v in r]
    return r


def generic(f, a, k):
    a2 = [unwrap(x) for x in a]
    k2 = {n: unwrap(v) for n, v in k.items()}
    if 'dtype' in k2 and isinstance(k2['dtype'], type) and hasattr(k2['dtype'], '_sx_real'):
        k2['dtype'] = k2['dtype']._sx_real
    try:
        return rewrap(f(*a2, **k2))
    except (TypeError, AttributeError) as e:
        raise Unsupported('numpy.%s on symbolic values: %s' % (getattr(f, '__name__', f), e))


# --------------------------------------------------------------------------- interp etc.
def interp1(x, xp, fp, left, right):
    n = len(xp)
    if isinstance(x, float) and x != x:
        return x
    if bool(x < xp[0]):
        return fp[0] if left is None else left
    if bool(x > xp[n - 1]):
        return fp[n - 1] if right is None else right
    for j in range(n - 1, -1, -1):
        if bool(x >= xp[j]):
            break
    if j == n - 1 or bool(x == xp[j]):
        return fp[j]
    d = lift(xp[j + 1]) - xp[j]
    slope = cdiv(fp[j + 1] - fp[j], d)
    r = slope * (x - xp[j]) + fp[j]
    if isinstance(r, float) and r != r:
        r = slope * (x - xp[j + 1]) + fp[j + 1]
    return r


def interp(x, xp, fp, left=None, right=None, period=None):
    if period is not None:
        raise Unsupported('interp period')
    if not (has_sym(x) or has_sym(xp) or has_sym(fp)):
        return np.interp(x, xp, fp, left, right)
    xp = [_item(v) for v in to_obj(xp).reshape(-1)]
    fp = [_item(v) for v in to_obj(fp).reshape(-1)]
    if len(xp) != len(fp):
        raise ValueError('fp and xp are not of the same length.')
    if not xp:
        raise ValueError('array of sample points is empty')
    if is_conc_arr(x) and all(_conc(v) for v in xp) and all(_conc(v) for v in fp):
        r = np.interp(to_real(to_obj(x)), xp, fp, left, right)
        return SArr.wrap(r.astype(object), 'f') if isinstance(r, np.ndarray) else float(r)
    return elem(x, lambda v: interp1(v, xp, fp, left, right))


def diff(a, n=1, axis=-1, **k):
    a = to_obj(a)
    for _ in range(n):
        b = np.moveaxis(a, axis, 0)
        a = np.moveaxis(to_obj(SArr.wrap(b[1:]) - SArr.wrap(b[:-1])), 0, axis)
    r = a
    if all(isinstance(v, (bool, np.bool_)) for v in r.flat) and r.size and r.dtype == object:
        return r.astype(bool)
    return SArr.wrap(r)


def where(c, *xy):
    if not xy:
        b = tolist_bool(c)
        return np.nonzero(b)
    x, y = xy
    c, x, y = to_obj(c), to_obj(x), to_obj(y)
    bc = np.broadcast(c, x, y)
    o = mkobj(bc.shape)
    of = o.reshape(-1)
    for i, (cc, xx, yy) in enumerate(bc):
        of[i] = _item(xx) if bool(cc) else _item(yy)
    return norm(o)


def unique(ar, return_index=False, return_inverse=False, return_counts=False, axis=None, **k):
    vs = [_item(v) for v in to_obj(ar).reshape(-1)]
    groups = []          # list of [value, first index, members]
    for i, v in enumerate(vs):
        lo = 0
        placed = False
        for g, gr in enumerate(groups):
            if bool(v == gr[0]):
                gr[2].append(i)
                placed = True
                break
            if bool(v < gr[0]):
                groups.insert(g, [v, i, [i]])
                placed = True
                break
        if not placed:
            groups.append([v, i, [i]])
    u = SArr.wrap(build([g[0] for g in groups])) if groups else SArr.wrap(np.empty(0, dtype=object))
    out = [u]
    if return_index:
        out.append(np.array([g[1] for g in groups], dtype=int))
    if return_inverse:
        inv = np.zeros(len(vs), dtype=int)
        for gi, g in enumerate(groups):
            inv[g[2]] = gi
        out.append(inv)
    if return_counts:
        out.append(np.array([len(g[2]) for g in groups]))
    return tuple(out) if len(out) > 1 else u


def searchsorted(a, v, side='left', sorter=None):
    a = [_item(x) for x in to_obj(a).reshape(-1)]
    if sorter is not None:
        a = [a[i] for i in sorter]

    def one(x):
        n = 0
        for y in a:
            if bool(y < x) if side == 'left' else bool(y <= x):
                n += 1
            else:
                break
        return n
    w = to_obj(v)
    if w.ndim == 0:
        return one(_item(w[()]))
    return np.array([one(_item(x)) for x in w.reshape(-1)], dtype=int).reshape(w.shape)


def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    def f(x, y):
        if isnan_(x) or isnan_(y):
            return equal_nan and isnan_(x) and isnan_(y)
        return abs(x - y) <= atol + rtol * abs(y)
    a, b = to_obj(a), to_obj(b)
    bc = np.broadcast(a, b)
    o = mkobj(bc.shape)
    of = o.reshape(-1)
    for i, (x, y) in enumerate(bc):
        of[i] = f(_item(x), _item(y))
    return norm(o, True)


def creation(real, fillv):
    def f(shape, dtype=float, **k):
        ld = ldt_of(dtype) if dtype is not None else 'f'
        if isinstance(shape, S):
            shape = shape.__index__()
        elif isinstance(shape, tuple):
            shape = tuple(s.__index__() if isinstance(s, S) else s for s in shape)
        o = np.empty(shape, dtype=object)
        v = fillv
        if ld in (None, 's', 'M') and dtype is not None:
            if fillv is None or ld is None:
                o = _full(shape, None if fillv is None else fillv)
                return SArr.wrap(o, None)
            return real(shape, dtype=_realdt(dtype))
        v = {'f': float, 'i': int, 'c': complex, 'b': bool}[ld](0 if v is None else v)
        return SArr.wrap(_full(shape, v), ld)
    f._sx = True
    return f


def _realdt(t):
    return t._sx_real if isinstance(t, type) and hasattr(t, '_sx_real') else t


def full(shape, fill_value, dtype=None, **k):
    ld = ldt_of(dtype) if dtype is not None else None
    if ld is None and not is_symscalar(fill_value):
        ld = np.asarray(fill_value).dtype.kind
        ld = ld if ld in 'fcb' else 'i' if ld in 'iu' else None
    fv = coerce(fill_value, ld) if ld in ('f', 'i', 'c', 'b') else fill_value
    return SArr.wrap(_full(shape, fv), ld)


def like(fillv):
    def f(a, *args, dtype=None, **k):
        o = to_obj(a)
        if args:
            fv = args[0]
        else:
            fv = k.get('fill_value', fillv)
        ld = ldt_of(dtype) if dtype is not None else (a.ldt if isinstance(a, SArr) else None)
        if ld is None and o.dtype != object:
            ld = o.dtype.kind if o.dtype.kind in 'ficb' else None
        if ld is None:
            ld = 'f' if not any(isinstance(v, (SymC, complex)) for v in o.flat) else 'c'
        return SArr.wrap(_full(o.shape, coerce(0.0 if fv is None else fv, ld)), ld)
    f._sx = True
    return f


def array(x, dtype=None, copy=True, ndmin=0, subok=False, **k):
    ld = ldt_of(dtype)
    if isinstance(x, SArr):
        r = x.copy() if copy else x
        return r.astype(dtype) if ld in ('f', 'i', 'c', 'b', 's') and ld != x.ldt else r
    if hasattr(x, '__next__') or isinstance(x, (range,)):
        x = list(x)
    if isinstance(x, Poison):
        x._bad()
    if type(x).__name__ == 'Series' and x.dtype == object:
        x = list(x)
    if type(x).__name__ == 'DataFrame':
        x = x.to_numpy()
    if has_sym(x):
        o = build(x) if not is_symscalar(x) else to_obj(x)
        if isinstance(x, np.ndarray) and copy:
            o = o.copy()
        if ld == 'M':
            raise Unsupported('datetime64 of symbolic values')
        if o.ndim == 0:
            return o[()] if ld is None else coerce(o[()], ld)
        r = SArr.wrap(o)
        if ld in ('f', 'i', 'c', 'b', 's'):
            return r.astype(dtype)
        vs = list(o.flat)
        if any(isinstance(v, (SymC, complex)) for v in vs):
            r.ldt = 'c'
        elif vs and all(isinstance(v, (S, int, float, bool, SymBool)) for v in vs):
            r.ldt = 'b' if all(isinstance(v, (bool, SymBool)) for v in vs) else 'f' if not all(
                isinstance(v, int) or (isinstance(v, S) and v.isint()) for v in vs) else None
        if ndmin > r.ndim:
            r = r.reshape((1,) * (ndmin - r.ndim) + r.shape)
        return r
    a = np.array(x, dtype=_realdt(dtype), ndmin=ndmin)
    if a.dtype.kind in 'fc' and a.ndim:
        return SArr.wrap(a.astype(object), a.dtype.kind)
    if a.dtype.kind in 'iu' and a.ndim:
        return IArr.wrap2(a)
    return a


class IArr:
    @staticmethod
    def wrap2(a):
        return SArr.wrap(a.astype(object), 'i')


def arange(*a, **k):
    if any(isinstance(x, S) and not x.is_const() for x in a):
        if len(a) == 1:
            lo, hi, st = 0, a[0], 1
        else:
            lo, hi = a[0], a[1]
            st = a[2] if len(a) > 2 else 1
        n = -sym.floor(-((lift(hi) - lo) / st))
        b = n.bounds()
        if n.is_const():
            n = int(n.cval())
        elif b[1] - b[0] <= 12:
            n = n.__index__()
        else:
            return Poison('arange with a symbolic number of elements')
        n = max(0, n)
        return SArr.wrap(build([lo + st * i for i in range(n)]), 'f')
    a = [x.cval() if isinstance(x, S) else x for x in a]
    r = np.arange(*a, **{n: _realdt(v) for n, v in k.items()})
    return r


def linspace(lo, hi, num=50, endpoint=True, **k):
    if not (has_sym(lo) or has_sym(hi)):
        return SArr.wrap(np.linspace(lo, hi, num, endpoint).astype(object), 'f')
    d = (num - 1) if endpoint else num
    return SArr.wrap(build([lo + (hi - lo) * (i / d) for i in range(num)]), 'f')


def append(arr, values, axis=None):
    if not has_sym(arr) and not has_sym(values):
        return np.append(arr, values, axis)
    ld = arr.ldt if isinstance(arr, SArr) else None
    a, b = to_obj(arr), to_obj(values)
    if axis is None:
        r = np.concatenate([a.reshape(-1).astype(object), b.reshape(-1).astype(object)])
    else:
        r = np.concatenate([a.astype(object), b.astype(object)], axis)
    r = pyify(r)
    if all(isinstance(v, (int, np.integer)) and not isinstance(v, bool) for v in r.flat) and r.size:
        return r.astype(int)
    return SArr.wrap(r, ld if ld == 'f' else None)


def pyify(a):
    f = a.reshape(-1)
    for i in range(f.size):
        if isinstance(f[i], np.generic):
            f[i] = f[i].item()
    return a


def stackers(name):
    real = getattr(np, name)

    def f(xs, *a, **k):
        if type(xs).__name__ == 'generator':
            xs = list(xs)
        if isinstance(xs, np.ndarray) and xs.ndim > 1:
            xs = list(xs)
        if not any(has_sym(x) for x in xs):
            return real(xs, *a, **k)
        ars = [to_obj(x) for x in xs]
        conc = all(x.dtype != object for x in ars)
        ints = all(x.dtype.kind in 'iu' for x in ars)
        r = real([x.astype(object) for x in ars], *a, **{n: v for n, v in k.items() if n != 'dtype'})
        pyify(r)
        if all(isinstance(v, int) and not isinstance(v, bool) for v in r.flat) and r.size and conc and ints:
            return r.astype(int)
        return SArr.wrap(r)
    f._sx = True
    return f


def nanred(base):
    def f(x, axis=None, **k):
        a = to_obj(x)
        if a.dtype != object:
            return getattr(np, 'nan' + base)(a, axis, **k)
        if axis is not None and a.ndim > 1:
            b = np.moveaxis(a, axis, -1)
            o = mkobj(b.shape[:-1])
            for i in np.ndindex(*o.shape):
                o[i] = f(b[i])
            return norm(o)
        vs = [v for v in a.flat if not isnan_(v)]
        if not vs:
            return NAN if base != 'sum' else 0.0
        w = build(vs)
        return {'sum': lambda: reduce_('add', w), 'mean': lambda: np_mean(w), 'std': lambda: np_std(w, None, k.get('ddof', 0)),
                'var': lambda: np_var(w), 'min': lambda: reduce_('minimum', w), 'max': lambda: reduce_('maximum', w),
                'median': lambda: median(w)}[base]()
    f._sx = True
    return f


def median(x, axis=None):
    vs = sorted([_item(v) for v in to_obj(x).flat], key=_Key)
    n = len(vs)
    return vs[n // 2] if n % 2 else (vs[n // 2 - 1] + vs[n // 2]) / 2


class _Key:
    def __init__(self, v):
        self.v = v

    def __lt__(self, o):
        return bool(self.v < o.v)


def cumsum(a, axis=None, **k):
    x = to_obj(a)
    if x.dtype != object:
        return np.cumsum(x, axis)
    if axis is None:
        x = x.reshape(-1)
        axis = 0
    b = np.moveaxis(x, axis, 0)
    o = mkobj(b.shape)
    acc = None
    for i in range(b.shape[0]):
        acc = b[i] if acc is None else (SArr.wrap(acc) + SArr.wrap(b[i]) if b.ndim > 1 else acc + b[i])
        o[i] = to_obj(acc) if b.ndim > 1 else acc
    return SArr.wrap(np.moveaxis(o, 0, axis))


def gradient(f, *varargs, **k):
    x = to_obj(f)
    if x.ndim != 1:
        raise Unsupported('gradient of a matrix')
    h = varargs[0] if varargs else 1.0
    if isinstance(h, np.ndarray) and h.ndim:
        raise Unsupported('gradient with coordinates')
    n = len(x)
    return SArr.wrap(build([(x[1] - x[0]) / h] + [(x[i + 1] - x[i - 1]) / (2 * h) for i in range(1, n - 1)] + [(x[-1] - x[-2]) / h]))


def trapz(y, x=None, dx=1.0, axis=-1):
    y = to_obj(y)
    if y.ndim != 1:
        raise Unsupported('trapz')
    xs = to_obj(x) if x is not None else None
    return fsum([(y[i] + y[i + 1]) * 0.5 * ((xs[i + 1] - xs[i]) if xs is not None else dx) for i in range(len(y) - 1)])


def cross(a, b, *args, **k):
    a, b = to_obj(a), to_obj(b)
    a, b = np.broadcast_arrays(a, b)
    A, B = SArr.wrap(a), SArr.wrap(b)
    if k.get('axis', -1) not in (-1, a.ndim - 1) or args:
        return generic(np.cross, (a, b) + args, k)
    A0, A1, A2 = A[..., 0], A[..., 1], A[..., 2]
    B0, B1, B2 = B[..., 0], B[..., 1], B[..., 2]
    c = [A1 * B2 - A2 * B1, A2 * B0 - A0 * B2, A0 * B1 - A1 * B0]
    return SArr.wrap(np.stack([np.asarray(to_obj(v), dtype=object) for v in c], axis=-1))


def binary_repr(num, width=None):
    if isinstance(num, np.ndarray) and num.ndim == 0:
        num = num.item()
    if not isinstance(num, S):
        return np.binary_repr(num, width)
    if not num.isint():
        raise TypeError("'float' object cannot be interpreted as an integer")
    from .strs import fmt_value
    return fmt_value(num, '0%db' % width if width else 'b')


def vectorize(f, *a, **k):
    def g(*xs):
        ars = [to_obj(x) for x in xs]
        bc = np.broadcast(*ars)
        o = mkobj(bc.shape)
        of = o.reshape(-1)
        for i, vs in enumerate(bc):
            of[i] = f(*[_item(v) for v in vs])
        return norm(o)
    return g


def nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    def f(v):
        if isnan_(v):
            return nan
        if isinf_(v):
            r = posinf if v > 0 else neginf
            return r if r is not None else math.copysign(1.7976931348623157e308, v)
        return v
    r = elem(x, f)
    if not copy and isinstance(x, np.ndarray):
        x[...] = r
        return x
    return r


def meshgrid(*xs, **k):
    r = np.meshgrid(*[to_obj(x).astype(object) for x in xs], **k)
    return [SArr.wrap(pyify(np.array(v))) for v in r]


def sort(a, axis=-1, **k):
    x = to_obj(a)
    if x.ndim != 1:
        return generic(np.sort, (x, axis), {})
    return SArr.wrap(build(sorted([_item(v) for v in x], key=_Key)))


def argsort(a, axis=-1, **k):
    x = to_obj(a)
    if x.ndim != 1:
        return generic(np.argsort, (x, axis), {})
    return np.array(sorted(range(len(x)), key=lambda i: _Key(_item(x[i]))), dtype=int)


def polyfit(*a, **k):
    raise Unsupported('polyfit')


def piecewise(x, conds, funcs, *args, **kw):
    X = to_obj(x)
    cs = [to_obj(c) for c in (conds if isinstance(conds, (list, tuple)) else [conds])]
    if any(c.shape != X.shape for c in cs) or len(funcs) - len(cs) not in (0, 1):
        raise Unsupported('piecewise of these shapes')
    fs = list(funcs) + ([0.0] if len(funcs) == len(cs) else [])
    out = mkobj(X.shape)
    picks = {}
    for i in np.ndindex(*X.shape):
        j = max([j for j, c in enumerate(cs) if bool(_item(c[i]))], default=len(cs))
        picks.setdefault(j, []).append(i)
    for j, at in picks.items():
        f = fs[j]
        if callable(f):
            r = to_obj(f(SArr.wrap(build([_item(X[i]) for i in at]), 'f'), *args, **kw))
            r = [r.reshape(-1)[0]]*len(at) if r.size == 1 else list(r.reshape(-1))
        else:
            r = [f]*len(at)
        for i, v in zip(at, r):
            out[i] = _item(v)
    return norm(out)


def count_nonzero(a, axis=None, **k):
    return np.count_nonzero(tolist_bool(a), axis)


def einsum(spec, *ops, **k):
    ins, out = spec.replace(' ', '').split('->') if '->' in spec else (spec.replace(' ', ''), None)
    ins = ins.split(',')
    if '.' in spec:
        free = [c for c in 'ZYXWVUTS' if c not in spec]
        more = [to_obj(o).ndim - len(s.replace('...', '')) if '...' in s else 0 for s, o in zip(ins, ops)]
        pad = ''.join(free[:max(more)])
        ins = [s.replace('...', pad[len(pad) - m:]) for s, m in zip(ins, more)]
        if out is None:
            al = ''.join(ins)
            out = pad + ''.join(sorted(c for c in set(al) if al.count(c) == 1 and c not in pad))
        else:
            out = out.replace('...', pad)
        sizes = {}
        for s, o in zip(ins, ops):
            for c, n in zip(s, to_obj(o).shape):
                if sizes.setdefault(c, n) != n:
                    raise Unsupported('einsum with broadcasting')
    if out is None:
        al = ''.join(ins)
        out = ''.join(sorted(c for c in set(al) if al.count(c) == 1))
    ars = [to_obj(o) for o in ops]
    dim = {}
    for s, a in zip(ins, ars):
        for c, n in zip(s, a.shape):
            dim[c] = n
    summed = [c for c in dim if c not in out]
    o = mkobj(tuple(dim[c] for c in out))
    for i in np.ndindex(*o.shape):
        ix = dict(zip(out, i))
        terms = []
        for j in np.ndindex(*[dim[c] for c in summed]):
            ix.update(zip(summed, j))
            t = 1.0
            for s, a in zip(ins, ars):
                t = t * _item(a[tuple(ix[c] for c in s)])
            terms.append(t)
        o[i] = fsum(terms)
    return norm(o)


class LinAlg:
    def __getattr__(self, n):
        f = getattr(np.linalg, n)

        def g(*a, **k):
            if isinstance(f, type):
                return f(*a, **k)
            if any(has_sym(x) for x in a):
                if all(is_conc_arr(x) for x in a if has_sym(x)):
                    return f(*[to_real(to_obj(x)) if has_sym(x) else x for x in a], **k)
                raise Unsupported('numpy.linalg.%s' % n)
            return f(*a, **k)
        return g

    def norm(self, x, ord=None, axis=None, keepdims=False):
        if ord not in (None, 2):
            raise Unsupported('norm order')
        a = SArr.wrap(np.asarray(to_obj(x), dtype=object))
        s = reduce_('add', a * a, axis, keepdims)
        return apply_ufunc('sqrt', np.sqrt, (s,), {})


class _NumMeta(type):
    def __instancecheck__(cls, x):
        if isinstance(x, S):
            return cls._kind == 'f' or (cls._kind == 'i' and x.isint())
        return isinstance(x, cls._sx_real)

    def __call__(cls, x=0, *a, **k):
        if isinstance(x, (SArr, list, tuple)) or (isinstance(x, np.ndarray)):
            return array(x, dtype=cls._sx_real)
        if is_symscalar(x):
            return coerce(x, cls._kind)
        return cls._sx_real(x, *a, **k)

    def __eq__(cls, o):
        return o is cls or o is cls._sx_real

    def __hash__(cls):
        return hash(cls._sx_real)


def _numshim(name, kind):
    return _NumMeta('np_' + name, (), {'_sx_real': getattr(np, name), '_kind': kind})


SPECIAL = {}


def _reg(name, f, always=False):
    f2 = f
    try:
        f._sx = True
    except AttributeError:
        pass
    SPECIAL[name] = (f2, always)


for _n, _f in dict(mean=np_mean, average=lambda a, axis=None, weights=None, **k: np_mean(a, axis) if weights is None else (
        reduce_('add', SArr.wrap(to_obj(a)) * weights, axis) / reduce_('add', weights, axis)),
        std=np_std, var=np_var, clip=np_clip, round=np_round, around=np_round, matmul=matmul, dot=matmul_dot,
        inner=matmul_dot, vdot=matmul_dot, convolve=convolve, interp=interp, diff=diff, where=where, unique=unique,
        searchsorted=searchsorted, isclose=isclose, append=append, median=median, cumsum=cumsum, gradient=gradient, trapz=trapz,
        trapezoid=trapz, cross=cross, nan_to_num=nan_to_num, sort=sort, argsort=argsort, polyfit=polyfit,
        count_nonzero=count_nonzero, piecewise=piecewise, einsum=einsum, meshgrid=meshgrid).items():
    _reg(_n, _f)
_reg('allclose', lambda *a, **k: reduce_('logical_and', isclose(*a, **k)))
_reg('sum', lambda a, axis=None, **k: reduce_('add', a, axis, k.get('keepdims', False)))
_reg('prod', lambda a, axis=None, **k: reduce_('multiply', a, axis))
_reg('any', lambda a, axis=None, **k: reduce_('logical_or', a, axis))
_reg('all', lambda a, axis=None, **k: reduce_('logical_and', a, axis))
for _n in ('min', 'amin'):
    _reg(_n, lambda a, axis=None, **k: reduce_('minimum', a, axis, k.get('keepdims', False)))
for _n in ('max', 'amax'):
    _reg(_n, lambda a, axis=None, **k: reduce_('maximum', a, axis, k.get('keepdims', False)))
_reg('ptp', lambda a, axis=None, **k: reduce_('maximum', a, axis) - reduce_('minimum', a, axis))
_reg('argmin', lambda a, axis=None, **k: argminmax(a, axis, lambda x, y: x < y))
_reg('argmax', lambda a, axis=None, **k: argminmax(a, axis, lambda x, y: x > y))
_reg('nonzero', lambda a: np.nonzero(tolist_bool(a)))
_reg('flatnonzero', lambda a: np.flatnonzero(tolist_bool(a)))
_reg('argwhere', lambda a: np.argwhere(tolist_bool(a)))
_reg('real', lambda a: elem(a, re_) if isinstance(a, (np.ndarray, list, tuple)) else re_(a))
_reg('imag', lambda a: elem(a, im_) if isinstance(a, (np.ndarray, list, tuple)) else im_(a))
_reg('copy', lambda a, **k: a.copy() if isinstance(a, SArr) else array(a))
_reg('array_equal', lambda a, b, **k: to_obj(a).shape == to_obj(b).shape and bool(reduce_('logical_and', SArr.wrap(to_obj(a)) == SArr.wrap(to_obj(b)))))
_reg('iscomplexobj', lambda a: any(isinstance(v, (SymC, complex)) for v in to_obj(a).flat))
_reg('isrealobj', lambda a: not any(isinstance(v, (SymC, complex)) for v in to_obj(a).flat))
_reg('ravel', lambda a, **k: SArr.wrap(to_obj(a).reshape(-1), getattr(a, 'ldt', None)))
_reg('fix', lambda a, **k: apply_ufunc('trunc', np.trunc, (a,), {}))
_reg('cumprod', lambda a, axis=None, **k: SArr.wrap(a).__array_ufunc__(np.multiply, 'accumulate', a))
_reg('isscalar', lambda a: is_symscalar(a) or np.isscalar(a))
_reg('ndim', lambda a: to_obj(a).ndim)
_reg('size', lambda a, axis=None: to_obj(a).size if axis is None else to_obj(a).shape[axis])
_reg('shape', lambda a: to_obj(a).shape)
_reg('select', lambda conds, choices, default=0: _select(conds, choices, default))
_reg('extract', lambda c, a: SArr.wrap(to_obj(a))[tolist_bool(c)])
_reg('apply_along_axis', lambda f, axis, arr, *a, **k: _along(f, axis, arr, *a, **k))
_reg('array_split', lambda a, s, axis=0: [SArr.wrap(v) for v in np.array_split(to_obj(a), s, axis)])
_reg('split', lambda a, s, axis=0: [SArr.wrap(v) for v in np.split(to_obj(a), s, axis)])
for _b in ('sum', 'mean', 'std', 'var', 'min', 'max', 'median'):
    SPECIAL['nan' + _b] = (nanred(_b), False)
for _n in ('hstack', 'vstack', 'stack', 'concatenate', 'column_stack', 'dstack', 'row_stack'):
    if hasattr(np, _n):
        SPECIAL[_n] = (stackers(_n), False)
def _angle(z, deg=False):
    def f(v):
        r = sym.atan2(v.imag, v.real) if isinstance(v, (SymC, complex)) else sym.atan2(0, v)
        return r * 180 / math.pi if deg else r
    if isinstance(z, (S, SymC)):
        return f(z)
    a = np.asarray(unwrap(z), dtype=object)
    o = np.empty(a.shape, dtype=object)
    for i in np.ndindex(a.shape):
        o[i] = f(a[i])
    return rewrap(o)


SPECIAL['angle'] = (_angle, False)
SPECIAL['zeros'] = (creation(np.zeros, 0), True)
SPECIAL['ones'] = (creation(np.ones, 1), True)
SPECIAL['empty'] = (creation(np.empty, None), True)
SPECIAL['full'] = (full, True)
for _n, _v in (('zeros_like', 0.0), ('ones_like', 1.0), ('empty_like', 0.0), ('full_like', None)):
    SPECIAL[_n] = (like(_v), True)
SPECIAL['array'] = (array, True)
SPECIAL['asarray'] = (lambda x, dtype=None, **k: x if isinstance(x, SArr) and dtype is None else array(x, dtype, copy=False), True)
SPECIAL['asanyarray'] = SPECIAL['ascontiguousarray'] = SPECIAL['asarray']
SPECIAL['atleast_1d'] = (lambda *xs: [array(x, ndmin=1) for x in xs] if len(xs) > 1 else array(xs[0], ndmin=1) if not is_symscalar(xs[0]) else SArr.wrap(build([xs[0]])), True)
SPECIAL['arange'] = (arange, True)
SPECIAL['linspace'] = (linspace, True)
SPECIAL['vectorize'] = (vectorize, True)
SPECIAL['binary_repr'] = (binary_repr, True)
SPECIAL['fromiter'] = (lambda it, dtype=None, **k: array(list(it), dtype), True)
SPECIAL['identity'] = (lambda n, **k: SArr.wrap(np.eye(n).astype(object), 'f'), True)
SPECIAL['eye'] = (lambda *a, **k: SArr.wrap(np.eye(*a, **k).astype(object), 'f'), True)


def block(arrays):
    def depth(x):
        return 1 + max(map(depth, x)) if isinstance(x, list) else 0
    D = depth(arrays)

    def rec(x, lev):
        if not isinstance(x, list):
            v = to_obj(x)
            return v.reshape((1,) * (nd - v.ndim) + v.shape)
        return np.concatenate([rec(v, lev + 1) for v in x], axis=nd - D + lev)

    def dims(x):
        return max(map(dims, x)) if isinstance(x, list) else to_obj(x).ndim
    nd = max(D, dims(arrays))
    return SArr.wrap(rec(arrays, 0))


SPECIAL['block'] = (block, True)


def _select(conds, choices, default):
    r = default
    for c, x in reversed(list(zip(conds, choices))):
        r = where(c, x, r)
    return r


def _along(f, axis, arr, *a, **k):
    x = np.moveaxis(to_obj(arr), axis, -1)
    outs = [f(SArr.wrap(x[i]), *a, **k) for i in np.ndindex(*x.shape[:-1])]
    r = build(outs)
    r = r.reshape(x.shape[:-1] + r.shape[1:])
    return SArr.wrap(np.moveaxis(r, -1, axis) if r.ndim == x.ndim else r)


class NP:
    """the proxy module"""
    fft = FFT()
    linalg = LinAlg()
    float64 = _numshim('float64', 'f')
    float32 = _numshim('float32', 'f')
    int64 = _numshim('int64', 'i')
    int32 = _numshim('int32', 'i')
    int_ = int64
    float_ = float64
    complex128 = _numshim('complex128', 'c')

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        r = getattr(np, n)
        if n in SPECIAL:
            f, always = SPECIAL[n]

            def g(*a, **k):
                if not always and not any(has_sym(x) for x in a) and not any(has_sym(x) for x in k.values()):
                    return r(*a, **k)
                return f(*a, **k)
            g._sx = True
            g.__name__ = n
        elif isinstance(r, np.ufunc):
            g = UF(r)
        elif callable(r) and not isinstance(r, type):
            def g(*a, **k):
                if not any(has_sym(x) for x in a) and not any(has_sym(x) for x in k.values()):
                    return r(*a, **{n2: _realdt(v) for n2, v in k.items()})
                return generic(r, a, k)
            g.__name__ = n
        else:
            return r
        self.__dict__[n] = g
        return g


class UF:
    _sx = True

    def __init__(self, u):
        self.u = u
        self.__name__ = u.__name__

    def __call__(self, *a, **k):
        if not any(has_sym(x) for x in a):
            return self.u(*a, **k)
        out = k.pop('out', None)
        w = k.pop('where', None)
        if self.__name__ == 'matmul':
            return matmul(*a)
        if any(type(x).__name__ in ('Series', 'DataFrame') for x in a):
            if self.__name__ not in RULES:
                raise Unsupported('ufunc')
            s = [x for x in a if type(x).__name__ in ('Series', 'DataFrame')][0]
            r = apply_ufunc(self.__name__, self.u, [x.to_numpy() if type(x).__name__ in ('Series', 'DataFrame') else x for x in a], {})
            if type(s).__name__ == 'Series':
                import pandas as pd
                return pd.Series(r, index=s.index, name=s.name)
            raise Unsupported('ufunc on DataFrame')
        r = apply_ufunc(self.__name__, self.u, a, k)
        if out is not None:
            o = out[0] if isinstance(out, tuple) else out
            if w is None:
                o[...] = r
            else:
                wb = np.broadcast_to(tolist_bool(w), o.shape)
                ra = np.broadcast_to(to_obj(r), o.shape)
                for i in np.ndindex(o.shape):
                    if wb[i]:
                        o[i] = ra[i]
            return o
        return r

    def reduce(self, a, axis=0, **k):
        return reduce_(self.__name__, a, axis, k.get('keepdims', False)) if has_sym(a) else self.u.reduce(a, axis, **k)

    def accumulate(self, a, axis=0, **k):
        if not has_sym(a):
            return self.u.accumulate(a, axis, **k)
        return SArr.wrap(to_obj(a)).__array_ufunc__(self.u, 'accumulate', a, axis=axis)

    def outer(self, a, b):
        return SArr.wrap(np.asarray(to_obj(a), dtype=object)).__array_ufunc__(self.u, 'outer', a, b)

    def at(self, a, idx, b=None):
        raise Unsupported('ufunc.at')


PROXY = NP()


def _scalar_ufunc(self, uf, method, *inputs, **kw):
    if method != '__call__':
        raise Unsupported('ufunc method on scalar')
    if uf.__name__ == 'matmul':
        return matmul(*inputs)
    out = kw.pop('out', None)
    r = apply_ufunc(uf.__name__, uf, inputs, kw)
    if out is not None:
        o = out[0]
        if o.dtype != object:
            raise Unsupported('in-place operation of a concrete array with a symbolic value')
        o[...] = r
        return o
    return r


for _c in (S, SymC, SymBool):
    _c.__array_ufunc__ = _scalar_ufunc
