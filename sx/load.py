"""Loads modules of /repo for symbolic execution: the current source text is parsed, lightly rewritten
(string formatting and membership tests become calls that understand symbolic text) and executed with
numpy/pandas/datetime/... replaced by their symbolic counterparts."""
import ast, os, sys, types, builtins, math, importlib, io as _io
import numpy as np
from . import sym, npx, strs, dt, coll
from .sym import S, SymC, SymBool, Ctx, Unsupported, lift
from .strs import SymStr, SymBytes, is_s, mk, cells_of, to_int, to_float, to_str, fmt_value, pct, str_format, join, contains, ReShim
from .npx import SArr, PROXY, has_sym, is_symscalar

REPO = os.environ.get('SX_REPO', '/repo')
SIGS = {}
TRACE = None          # set of function names entered (module-qualified)


# --------------------------------------------------------------------------- rewriting
STRMETH = {'join', 'format', 'startswith', 'endswith', 'replace', 'find', 'split', 'index', 'rstrip', 'lstrip', 'strip', 'count',
           'partition', 'rfind', 'removeprefix', 'removesuffix', 'format_map', 'rsplit', 'rpartition', 'rindex'}
DICTMETH = {'get', 'setdefault', 'pop', 'update', 'add', 'fromkeys'}


class Rewriter(ast.NodeTransformer):
    def __init__(self):
        self.stack = []

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod):
            return ast.copy_location(_call('_sx_mod', [n.left, n.right]), n)
        return n

    def visit_Subscript(self, n):
        self.generic_visit(n)
        if not isinstance(n.slice, ast.Constant):
            n.value = ast.copy_location(_call('_sx_sub', [n.value]), n)
        return n

    def visit_Dict(self, n):
        self.generic_visit(n)
        if all(isinstance(q, ast.Constant) for q in n.keys):
            return n
        items = ast.List([ast.Tuple([q, v], ast.Load()) if q is not None else ast.Starred(_call('_sx_items', [v]), ast.Load()) for q, v in zip(n.keys, n.values)], ast.Load())
        return ast.copy_location(_call('_sx_dict', [items]), n)

    def visit_DictComp(self, n):
        self.generic_visit(n)
        return ast.copy_location(_call('_sx_dict', [ast.GeneratorExp(ast.Tuple([n.key, n.value], ast.Load()), n.generators)]), n)

    def visit_SetComp(self, n):
        self.generic_visit(n)
        return ast.copy_location(_call('_sx_set', [ast.GeneratorExp(n.elt, n.generators)]), n)

    def visit_Set(self, n):
        self.generic_visit(n)
        return n if all(isinstance(q, ast.Constant) for q in n.elts) else ast.copy_location(_call('_sx_set', [ast.List(n.elts, ast.Load())]), n)

    def visit_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                v.value = self.visit(v.value)
                spec = v.format_spec
                sp = self.visit_JoinedStr(spec) if isinstance(spec, ast.JoinedStr) else ast.Constant('')
                parts.append(_call('_sx_fval', [v.value, ast.Constant(v.conversion), sp]))
        return ast.copy_location(_call('_sx_fstr', parts), n)

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            c = _call('_sx_in', [n.left, n.comparators[0]])
            if isinstance(n.ops[0], ast.NotIn):
                c = ast.UnaryOp(ast.Not(), c)
            return ast.copy_location(c, n)
        return n

    def visit_Call(self, n):
        n.func.sx_called = True
        self.generic_visit(n)
        f = n.func
        if isinstance(f, ast.Attribute) and f.attr in STRMETH or isinstance(f, ast.Attribute) and f.attr in DICTMETH:
            return ast.copy_location(ast.Call(ast.Name('_sx_meth', ast.Load()), [f.value, ast.Constant(f.attr)] + n.args, n.keywords), n)
        if isinstance(f, ast.Name) and f.id in ('set', 'dict', 'frozenset'):
            return ast.copy_location(ast.Call(ast.Name('_sx_new_' + f.id, ast.Load()), [f] + n.args, n.keywords), n)
        return n

    def visit_Attribute(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and n.attr in STRMETH and not getattr(n, 'sx_called', False):
            return ast.copy_location(_call('_sx_bound', [n.value, ast.Constant(n.attr)]), n)
        return n

    def _func(self, n):
        self.stack.append(n.name)
        self.generic_visit(n)
        q = '.'.join(self.stack)
        self.stack.pop()
        e = ast.Expr(_call('_sx_enter', [ast.Constant(q)]))
        doc = 1 if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) and isinstance(n.body[0].value.value, str) else 0
        n.body.insert(doc, e)
        return n
    def visit_ExceptHandler(self, n):
        self.generic_visit(n)
        n.body.insert(0, ast.copy_location(ast.Expr(_call('_sx_exc', [])), n))
        return n

    visit_FunctionDef = _func
    visit_AsyncFunctionDef = _func

    def visit_ClassDef(self, n):
        self.stack.append(n.name)
        self.generic_visit(n)
        self.stack.pop()
        return n


def _call(name, args):
    return ast.Call(ast.Name(name, ast.Load()), args, [])


def _sx_exc():
    e = sys.exc_info()[1]
    if isinstance(e, (Unsupported, sym.Infeasible, sym.PathLimit)):
        raise e


def _sx_mod(a, b):
    if isinstance(a, str):
        vs = b if isinstance(b, tuple) else (tuple(b.values()) if isinstance(b, dict) else (b,))
        if any(is_symscalar(v) for v in vs):
            return pct(a, b)
        return a % b
    if isinstance(a, (SArr,)) or isinstance(b, SArr):
        return npx.apply_ufunc('remainder', np.remainder, (a, b), {})
    return a % b


def _sx_fval(v, conv, spec):
    if conv == ord('r'):
        return repr(v)
    if is_symscalar(v):
        return fmt_value(v, spec if isinstance(spec, str) else str(spec)) if not isinstance(v, dt.SymDT) else v.strftime(spec)
    if not isinstance(spec, str):
        raise Unsupported('symbolic format spec')
    if conv == ord('s'):
        v = str(v)
    if isinstance(v, (list, tuple, np.ndarray)) and has_sym(v):
        return '<symbolic>'
    return format(v, spec)


def _sx_fstr(*parts):
    return join('', parts)


def _sx_in(x, y):
    if isinstance(y, SymBytes):
        return y.__contains__(x)
    if isinstance(y, (list, tuple)) and (is_symscalar(x) or any(is_symscalar(v) for v in y)):
        return any(bool(v == x) for v in y)
    if isinstance(y, np.ndarray) and (is_symscalar(x) or y.dtype == object):
        return any(bool(v == x) for v in y.reshape(-1))
    if type(y) in coll.DICTS:
        return coll.dict_in(x, y)
    if isinstance(y, (set, frozenset, type({}.keys()))) and coll.symkey(x):
        return any(coll.same(v, x) for v in y)
    return contains(x, y)


def _sx_meth(o, name, *a, **k):
    if isinstance(o, str):
        if name == 'join':
            xs = list(a[0])
            if any(isinstance(x, SymStr) for x in xs):
                return join(o, xs)
            return o.join(xs)
        if name == 'format':
            if any(is_symscalar(x) for x in a) or any(is_symscalar(x) for x in k.values()):
                return str_format(o, a, k)
            return o.format(*a, **k)
        if any(isinstance(x, SymStr) for x in a):
            return getattr(SymStr(o), name)(*a, **k)
    elif isinstance(o, bytes) and any(isinstance(x, (SymStr, SymBytes)) for x in a):
        return getattr(SymBytes(o.decode('latin-1')), name)(*a, **k)
    elif name in DICTMETH:
        if type(o) in coll.DICTS and (a or k):
            return coll.dict_meth(o, name, a, k)
        if name == 'fromkeys' and o is dict:
            return coll.make_dict((q, a[1] if len(a) > 1 else None) for q in a[0])
        if isinstance(o, set) and name == 'add' and coll.symkey(a[0]):
            raise Unsupported('symbolic value added to a set')
    return getattr(o, name)(*a, **k)


def _sx_bound(o, name):
    """a method of a text that is passed on instead of called"""
    if isinstance(o, (str, bytes)):
        return lambda *a, **k: _sx_meth(o, name, *a, **k)
    if o is str or o is SymStr:
        return lambda s, *a, **k: _sx_meth(s, name, *a, **k)
    return getattr(o, name)


class KeyView(np.ndarray):
    """an ordinary array that is indexed by values of the engine"""

    def __getitem__(self, k):
        return self.view(np.ndarray)[SArr._idx(SArr, k)]

    def __setitem__(self, k, v):
        self.view(np.ndarray)[SArr._idx(SArr, k)] = v


def _sx_sub(o):
    t = type(o)
    if t is np.ndarray:
        return o.view(KeyView)
    if t in coll.DICTS:
        return coll.DictSub(o)
    return o


def _sx_new_set(f, *a):
    return coll.make_set(*a) if f is builtins.set and len(a) < 2 else f(*a)


def _sx_new_frozenset(f, *a):
    return coll.make_set(*a) if f is builtins.frozenset and len(a) == 1 and any(coll.symkey(x) for x in list(a[0])) else f(*a)


def _sx_new_dict(f, *a, **k):
    if f is not builtins.dict or len(a) != 1 or type(a[0]) in coll.DICTS or hasattr(a[0], 'keys'):
        return f(*a, **k)
    return coll.make_dict(list(a[0]) + list(k.items()))


def _sx_items(d):
    return list(d.items())


# --------------------------------------------------------------------------- builtins
class _TMeta(type):
    def __instancecheck__(cls, x):
        return cls._inst(x)

    def __call__(cls, *a, **k):
        return cls._make(*a, **k)

    def __getattr__(cls, n):
        return getattr(cls._sx_real, n)

    def __eq__(cls, o):
        return o is cls or o is cls._sx_real

    def __hash__(cls):
        return hash(cls._sx_real)

    def __subclasscheck__(cls, c):
        return issubclass(getattr(c, '_sx_real', c), cls._sx_real)

    def __or__(cls, o):
        return (cls, o)


def _mkint(x=0, base=None):
    if isinstance(x, (SymStr, SymBytes)):
        return to_int(x if isinstance(x, SymStr) else x.s, base or 10)
    if isinstance(x, S):
        return sym.trunc(x)
    if isinstance(x, SymBool):
        return int(bool(x))
    if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
        return _mkint(x.reshape(-1)[0])
    if base is not None:
        return int(x, base)
    return int(x)


def _mkfloat(x=0.0):
    if isinstance(x, (SymStr, SymBytes)):
        return to_float(x if isinstance(x, SymStr) else x.s)
    if isinstance(x, S):
        return S(x.p)
    if isinstance(x, SymBool):
        return 1.0 if bool(x) else 0.0
    if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
        return _mkfloat(x.reshape(-1)[0])
    return float(x)


def _mkstr(x='', *a, **k):
    if isinstance(x, SymBytes):
        return x.s
    if is_symscalar(x):
        return to_str(x)
    if isinstance(x, (list, tuple, np.ndarray)) and has_sym(x):
        return '<symbolic>'
    return str(x, *a, **k)


def _mkcomplex(re=0.0, im=0.0):
    if is_symscalar(re) or is_symscalar(im):
        return SymC.of(re) + SymC(0.0, 1.0) * im
    return complex(re, im)


def _mkbool(x=False):
    return bool(x)


def _mkbytes(x=b'', *a):
    if isinstance(x, SymStr):
        return SymBytes(x)
    return bytes(x, *a)


def _isint(x):
    return (isinstance(x, S) and x.isint() and not (x.lit and x.lit[0] == 'float')) or isinstance(x, int)


IntShim = _TMeta('int', (), {'_sx_real': int, '_make': staticmethod(_mkint), '_inst': staticmethod(_isint)})
FloatShim = _TMeta('float', (), {'_sx_real': float, '_make': staticmethod(_mkfloat),
                                 '_inst': staticmethod(lambda x: isinstance(x, float) or (isinstance(x, S) and not _isint(x)))})
StrShim = _TMeta('str', (), {'_sx_real': str, '_make': staticmethod(_mkstr), '_inst': staticmethod(lambda x: isinstance(x, (str, SymStr)))})
ComplexShim = _TMeta('complex', (), {'_sx_real': complex, '_make': staticmethod(_mkcomplex), '_inst': staticmethod(lambda x: isinstance(x, (complex, SymC)))})
BoolShim = _TMeta('bool', (), {'_sx_real': bool, '_make': staticmethod(_mkbool), '_inst': staticmethod(lambda x: isinstance(x, (bool, SymBool)))})
BytesShim = _TMeta('bytes', (), {'_sx_real': bytes, '_make': staticmethod(_mkbytes), '_inst': staticmethod(lambda x: isinstance(x, (bytes, SymBytes)))})
SHIM = {int: IntShim, float: FloatShim, str: StrShim, complex: ComplexShim, bool: BoolShim, bytes: BytesShim}


def _type(*a):
    if len(a) == 3:
        return type(*a)
    x = a[0]
    if isinstance(x, S):
        return IntShim if _isint(x) else FloatShim
    if isinstance(x, SymStr):
        return StrShim
    if isinstance(x, SymBytes):
        return BytesShim
    if isinstance(x, SymBool):
        return BoolShim
    if isinstance(x, SymC):
        return ComplexShim
    if isinstance(x, SArr):
        return np.ndarray
    if isinstance(x, dt.SymDT):
        return dt.DatetimeShim
    t = type(x)
    if t is dt.REAL:
        return dt.DatetimeShim
    if t.__name__ in ('DataFrame', 'Series'):
        from . import pdx
        return pdx.DataFrame if t is pdx._DF else pdx.Series if t is pdx._SER else t
    return SHIM.get(t, t)


def _flat(t):
    if isinstance(t, tuple):
        for x in t:
            yield from _flat(x)
    else:
        yield t


def _isinstance(x, t):
    for c in _flat(t):
        if c in (list, tuple, dict):
            if isinstance(x, c):
                return True
            continue
        if c is set and isinstance(x, coll.SymSet):
            return True
        try:
            if isinstance(x, c):
                return True
        except TypeError:
            if isinstance(x, getattr(c, '__args__', ())):
                return True
        if is_symscalar(x):
            n = getattr(c, '__name__', '')
            if isinstance(x, S) and n in ('Number', 'Real', 'Integral', 'integer', 'floating', 'number'):
                if n in ('Integral', 'integer'):
                    return _isint(x)
                return True
    return False


def _hasattr(x, n):
    if isinstance(x, (S, SymBool)) and n in ('__len__', '__iter__', '__getitem__', 'shape', 'dtype', 'values'):
        return False
    return hasattr(x, n)


def _sum(xs, start=0):
    xs = list(xs)
    if any(isinstance(x, S) for x in xs) and all(isinstance(x, (S, int, float, np.number, SymBool)) for x in xs):
        return npx.fsum(xs + ([start] if not (isinstance(start, int) and start == 0) else []))
    return builtins.sum(xs, start)


def _round(x, n=None):
    if isinstance(x, S):
        return x.__round__(n)
    return round(x) if n is None else round(x, n)


def _sorted(xs, key=None, reverse=False):
    return builtins.sorted(xs, key=key, reverse=reverse)


def _minmax(real, pick):
    def f(*a, **k):
        xs = list(a[0]) if len(a) == 1 else list(a)
        if not any(is_symscalar(x) for x in xs) or k:
            return real(xs, **k)
        if len(xs) > 2 and all(isinstance(x, S) or type(x) in (int, float) and x == x for x in xs):
            return (sym.smax if real is max else sym.smin)(xs)
        r = xs[0]
        for x in xs[1:]:
            if bool(pick(x, r)):
                r = x
        return r
    return f


def _format(v, spec=''):
    if is_symscalar(v):
        return fmt_value(v, spec)
    return format(v, spec)


def _ord(c):
    if isinstance(c, SymStr):
        x = c.c[0]
        return x.code if isinstance(x, strs.SC) else ord(x)
    return ord(c)


def _chr(v):
    if isinstance(v, S):
        raise Unsupported('chr of symbolic')
    return chr(v)


def _bin(v):
    if isinstance(v, S):
        return mk(tuple('0b') + cells_of(fmt_value(v, 'b')))
    return bin(v)


def _len(x):
    return len(x)


def _map(f, *its):
    return builtins.map(f, *its)


def _range(*a):
    return range(*[x.__index__() if isinstance(x, S) else x for x in a])


def _float_like(x):
    return x


# --------------------------------------------------------------------------- files
class VFS:
    def __init__(self):
        self.files = {}        # path -> str | SymStr
        self.written = {}


FS = VFS()


def _decoded(c, f, encoding, errors, newline):
    """what text mode does to the bytes of a file: bytes that are no text (stored as surrogates), ends of lines"""
    enc = (encoding or 'utf-8').lower().replace('_', '-')
    raw = [i for i, x in enumerate(c) if isinstance(x, str) and '\udc80' <= x <= '\udcff']
    if raw:
        byte = lambda x: chr(ord(x) - 0xdc00)
        if f.bin or enc in ('latin-1', 'latin1', 'iso-8859-1'):
            g = byte
        elif enc not in ('utf-8', 'utf8', 'ascii', 'us-ascii'):
            raise Unsupported('encoding %s' % encoding)
        elif errors in (None, 'strict'):
            f.bad = byte(c[raw[0]]).encode('latin-1')
            return c
        elif errors == 'ignore':
            g = lambda x: ''
        elif errors == 'surrogateescape':
            g = lambda x: x
        elif errors == 'replace':
            g = lambda x: '\ufffd'
        else:
            raise Unsupported('open(errors=%r)' % (errors,))
        raw = set(raw)
        c = tuple(x if i not in raw else g(x) for i, x in enumerate(c) if i not in raw or g(x))
    if not f.bin and newline is None and '\r' in c:
        out = []
        for i, x in enumerate(c):
            if isinstance(x, str) and x == '\r':
                if i + 1 < len(c) and isinstance(c[i + 1], str) and c[i + 1] == '\n':
                    continue
                x = '\n'
            out.append(x)
        c = tuple(out)
    return c


class VFile:
    def __init__(self, path, mode, text, encoding=None, errors=None, newline=None):
        self.path, self.mode = path, mode
        self.name = path
        self.bin = 'b' in mode
        self.closed = False
        self.bad = None
        if 'r' in mode:
            self.c = _decoded(tuple(cells_of(text)), self, encoding, errors, newline)
        elif 'a' in mode:
            self.c = tuple(cells_of(FS.files.get(path, '')))
        else:
            self.c = ()
        self.pos = 0 if 'r' in mode else len(self.c)
        self.out = list(self.c) if 'r' not in mode else None
        if self.out is not None:
            self._sync()

    def _wrap(self, cells):
        if self.bad is not None:
            raise UnicodeDecodeError('utf-8', self.bad, 0, 1, 'invalid start byte')
        s = mk(cells)
        if self.bin:
            return SymBytes(s) if isinstance(s, SymStr) else s.encode('latin-1')
        return s

    def _sync(self):
        FS.files[self.path] = mk(self.out)
        FS.written[self.path] = True

    def fileno(self):
        return self

    def read(self, n=-1):
        if n is None or n < 0:
            r = self.c[self.pos:]
            self.pos = len(self.c)
        else:
            r = self.c[self.pos:self.pos + n]
            self.pos += len(r)
        return self._wrap(r)

    def readline(self):
        i = self.pos
        while i < len(self.c):
            x = self.c[i]
            i += 1
            if bool(strs.cell_eq(x, '\n')):
                break
        r = self.c[self.pos:i]
        self.pos = i
        return self._wrap(r)

    def readlines(self, hint=-1):
        out = []
        while self.pos < len(self.c):
            out.append(self.readline())
        return out

    def __iter__(self):
        while self.pos < len(self.c):
            yield self.readline()

    def __next__(self):
        if self.pos >= len(self.c):
            raise StopIteration
        return self.readline()

    def write(self, s):
        if isinstance(s, SymBytes):
            s = s.s
        elif isinstance(s, bytes):
            s = s.decode('latin-1')
        if self.out is None:
            raise _io.UnsupportedOperation('not writable')
        self.out.extend(cells_of(s))
        self._sync()
        return 0

    def writelines(self, xs):
        for x in xs:
            self.write(x)

    def seek(self, p, whence=0):
        self.pos = p if whence == 0 else self.pos + p if whence == 1 else len(self.c) + p
        return self.pos

    def tell(self):
        return self.pos

    def size(self):
        return len(self.c)

    def _span(self, start, end):
        n = len(self.c)
        start = self.pos if start is None else start
        end = n if end is None else end
        return min(max(start + n if start < 0 else start, 0), n), min(max(end + n if end < 0 else end, 0), n)

    def find(self, sub, start=None, end=None):
        sub = cells_of(sub.decode('latin-1') if isinstance(sub, bytes) else sub.s if isinstance(sub, SymBytes) else sub)
        a, b = self._span(start, end)
        return SymStr(self.c[:b])._find(sub, a)

    def rfind(self, sub, start=None, end=None):
        sub = cells_of(sub.decode('latin-1') if isinstance(sub, bytes) else sub.s)
        a, b = self._span(start, end)
        i = SymStr(self.c[a:b])._rfind(sub)
        return i if i < 0 else i + a

    def __len__(self):
        return len(self.c)

    def __getitem__(self, k):
        if isinstance(k, slice):
            return self._wrap(self.c[k])
        raise Unsupported('index into mapped file')

    def __contains__(self, sub):
        return self.find(sub, 0) >= 0

    def flush(self):
        pass

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.closed = True
        return False


def _path(p):
    return os.fspath(p) if not isinstance(p, (str, SymStr)) else p


def vopen(path, mode='r', *a, **k):
    path = _path(path)
    if isinstance(path, SymStr):
        raise Unsupported('symbolic file name')
    if 'r' in mode:
        if path in FS.files:
            k.update(zip(('buffering', 'encoding', 'errors', 'newline'), a))
            return VFile(path, mode, FS.files[path], k.get('encoding'), k.get('errors'), k.get('newline'))
        if os.path.abspath(path).startswith(REPO) and os.path.exists(path):
            return open(path, mode, *a, **k)
        raise FileNotFoundError(2, 'No such file', path)
    return VFile(path, mode, '')


class MMapMod:
    ACCESS_READ = 1
    ACCESS_WRITE = 2
    ACCESS_COPY = 3
    PROT_READ = 1
    MAP_SHARED = 1

    @staticmethod
    def mmap(f, length=0, *a, **k):
        if not isinstance(f, VFile):
            raise Unsupported('mmap of a real file')
        if not f.c:
            raise ValueError('cannot mmap an empty file')
        g = VFile(f.path, 'rb', FS.files.get(f.path, mk(f.c)))
        return g


class PathShim:
    """small stand-in for pathlib.Path over the virtual files"""

    def __init__(self, *parts):
        self.p = os.path.join(*[os.fspath(x) for x in parts]) if parts else '.'

    def __fspath__(self):
        return self.p

    def __str__(self):
        return self.p
    __repr__ = __str__

    def __truediv__(self, o):
        return PathShim(self.p, o)

    @property
    def parent(self):
        return PathShim(os.path.dirname(self.p))

    @property
    def name(self):
        return os.path.basename(self.p)

    @property
    def suffix(self):
        return os.path.splitext(self.p)[1]

    @property
    def stem(self):
        return os.path.splitext(self.name)[0]

    def with_suffix(self, s):
        return PathShim(os.path.splitext(self.p)[0] + s)

    def with_name(self, n):
        return PathShim(os.path.dirname(self.p), n)

    def resolve(self):
        return self

    absolute = resolve

    def exists(self):
        return self.p in FS.files or os.path.exists(self.p)
    is_file = exists

    def open(self, mode='r', *a, **k):
        return vopen(self.p, mode)

    def read_text(self, encoding=None, errors=None, newline=None):
        return vopen(self.p, 'r', encoding=encoding, errors=errors, newline=newline).read()

    def read_bytes(self):
        return vopen(self.p, 'rb').read()

    def write_text(self, s, *a, **k):
        vopen(self.p, 'w').write(s)

    def __eq__(self, o):
        return isinstance(o, PathShim) and o.p == self.p

    def __hash__(self):
        return hash(self.p)


class PathMod:
    Path = PathShim
    PurePath = PathShim


# --------------------------------------------------------------------------- math, scipy, statsmodels
class MathShim:
    inf, nan, pi, e, tau = math.inf, math.nan, math.pi, math.e, math.tau

    def __getattr__(self, n):
        f = getattr(math, n)
        nm = {'asin': 'arcsin', 'acos': 'arccos', 'atan': 'arctan', 'atan2': 'arctan2', 'pow': 'power'}.get(n, n)

        def g(*a):
            a = [x.cval() if isinstance(x, S) and x.is_const() else x for x in a]
            if not any(is_symscalar(x) for x in a):
                return f(*a)
            if n in ('erf', 'erfc'):
                return getattr(sym, n)(a[0])
            if n in ('floor', 'trunc'):
                return getattr(sym, n)(a[0])
            if n == 'ceil':
                return -sym.floor(-a[0])
            if n == 'modf':
                t = sym.trunc(a[0])
                return a[0] - t, t
            if n in ('isnan', 'isinf'):
                return False
            if n == 'isfinite':
                return True
            if n == 'fsum':
                return npx.fsum(list(a[0]))
            if n == 'fmod':
                return npx.sfmod(a[0], a[1])
            if n == 'log' and len(a) == 2:
                return sym.log(a[0]) / math.log(a[1])
            if nm in npx.RULES:
                r = npx.RULES[nm](*a)
                if isinstance(r, float) and r != r:
                    raise ValueError('math domain error')
                return r
            raise Unsupported('math.%s' % n)
        if not callable(f):
            return f
        if n in ('fsum', 'prod'):
            def h(xs):
                xs = list(xs)
                if not has_sym(xs):
                    return f(xs)
                if n == 'fsum':
                    return npx.fsum(xs)
                r = 1
                for x in xs:
                    r = r * x
                return r
            return h
        return g


def lfilter(b, a, x, axis=-1, zi=None):
    import scipy.signal as ss
    if zi is not None:
        return lfilter_from(b, a, x, zi)
    X = npx.to_obj(x)
    if X.ndim != 1:
        raise Unsupported('lfilter on a matrix')
    b1 = [npx._item(v) for v in npx.to_obj(b).reshape(-1)]
    a1 = [npx._item(v) for v in npx.to_obj(a).reshape(-1)]
    cb = all(not is_symscalar(v) for v in b1 + a1)
    if cb and npx.is_conc_arr(x):
        return SArr.wrap(ss.lfilter(b1, a1, npx.to_real(X)).astype(object), 'f')
    if cb:
        d = npx.decompose(X)
        return npx.recompose({m: ss.lfilter(b1, a1, v) for m, v in d.items()})
    n0 = a1[0]
    b1 = [sdef(npx.cdiv(v, n0)) for v in b1]
    a1 = [sdef(npx.cdiv(v, n0)) for v in a1]
    n = max(len(a1), len(b1))
    b1 += [0.0] * (n - len(b1))
    a1 += [0.0] * (n - len(a1))
    y = []
    for i in range(len(X)):
        t = [b1[k] * X[i - k] for k in range(n) if i - k >= 0]
        t += [-(a1[k] * y[i - k]) for k in range(1, n) if i - k >= 0]
        y.append(npx.fsum(t))
    return SArr.wrap(npx.build(y), 'f')


def lfilter_from(b, a, x, zi):
    """lfilter with an initial state: the state adds to the first outputs, and the final state comes from the last samples"""
    import scipy.signal as ss
    b1, a1, z = ([npx._item(v) for v in npx.to_obj(v).reshape(-1)] for v in (b, a, zi))
    if not all(not is_symscalar(v) for v in a1 + b1) or any(is_symscalar(v) for v in z):
        n0 = a1[0]
        b1, a1 = [sdef(npx.cdiv(v, n0)) for v in b1], [sdef(npx.cdiv(v, n0)) for v in a1]
    else:
        b1, a1 = [v/a1[0] for v in b1], [v/a1[0] for v in a1]
    n = max(len(a1), len(b1))
    b1 += [0.0]*(n - len(b1))
    a1 += [0.0]*(n - len(a1))
    if len(z) != n - 1:
        raise ValueError('Unexpected shape for zi')
    X = [npx._item(v) for v in npx.to_obj(x).reshape(-1)]
    y = []
    for i in range(len(X)):
        t = [b1[k]*X[i - k] for k in range(n) if i - k >= 0] + [-(a1[k]*y[i - k]) for k in range(1, n) if i - k >= 0]
        y.append(npx.fsum(t + [z[i]] if i < n - 1 else t))
    m = len(X)
    zf = [npx.fsum([b1[k]*X[m - k + j] - a1[k]*y[m - k + j] for k in range(j + 1, n) if m - k + j >= 0] + ([z[j + m]] if j + m < n - 1 else []))
          for j in range(n - 1)]
    return SArr.wrap(npx.build(y), 'f'), SArr.wrap(npx.build(zf), 'f')


def sdef(v):
    """name a non-trivial filter coefficient (same expression -> same name) so that recursions stay small"""
    if isinstance(v, S) and not v.is_const() and len(v.p) > 1:
        a = Ctx.cur.fn_atom('def', (v.p,), *v.bounds())
        return S({((a.id, 1),): 1.0})
    if isinstance(v, S) and v.is_const():
        return v.cval()
    return v


class SignalShim:
    def __getattr__(self, n):
        import scipy.signal as ss
        f = getattr(ss, n)

        def g(*a, **k):
            a = [x.cval() if isinstance(x, S) and x.is_const() else x for x in a]
            if any(has_sym(x) for x in a):
                if all(npx.is_conc_arr(x) for x in a if has_sym(x)):
                    a = [npx.to_real(npx.to_obj(x)) if has_sym(x) else x for x in a]
                    r = f(*a, **k)
                    return SArr.wrap(r.astype(object), 'f') if isinstance(r, np.ndarray) else r
                raise Unsupported('scipy.signal.%s' % n)
            r = f(*a, **k)
            return SArr.wrap(r.astype(object), 'f') if isinstance(r, np.ndarray) and r.dtype.kind == 'f' else r
        return g if callable(f) and not isinstance(f, type) else f
    lfilter = staticmethod(lfilter)

    @staticmethod
    def convolve(a, v, mode='full', method='auto'):
        return _sconv(a, v, mode)
    fftconvolve = oaconvolve = convolve

    @staticmethod
    def filtfilt(b, a, x, axis=-1, **k):
        import scipy.signal as ss
        d = npx.decompose(x)
        bb, aa = npx.to_real(npx.to_obj(b)), npx.to_real(npx.to_obj(a))
        return npx.recompose({m: ss.filtfilt(bb, aa, v, **k) for m, v in d.items()})


def _sconv(a, v, mode):
    la, lv = len(npx.to_obj(a)), len(npx.to_obj(v))
    full = npx.convolve(a, v, 'full')
    if mode == 'full':
        return full
    if mode == 'same':          # scipy: centred with respect to the first argument
        s = (lv - 1) // 2
        return full[s:s + la]
    return npx.convolve(a, v, mode)


def _elem1(f, real):
    def g(x, *a, **k):
        if not has_sym(x):
            return real(x, *a, **k)
        if is_symscalar(x):
            return f(x)
        return npx.elem(x, lambda v: f(v) if isinstance(v, S) else float(real(v)))
    return g


class SpecialShim:
    def __getattr__(self, n):
        import scipy.special as sp
        f = getattr(sp, n)
        if n in ('erf', 'erfc', 'erfcinv', 'erfinv'):
            return _elem1(getattr(sym, n), f)

        def g(*a, **k):
            a = [x.cval() if isinstance(x, S) and x.is_const() else x for x in a]
            if any(has_sym(x) for x in a):
                raise Unsupported('scipy.special.%s' % n)
            return f(*a, **k)
        return g


class SPFft:
    def __getattr__(self, n):
        return getattr(PROXY.fft, n)


class SPInterp:
    class interp1d:
        def __init__(self, x, y, kind='linear', bounds_error=None, fill_value=None, **k):
            if kind != 'linear':
                raise Unsupported('interp1d kind')
            self.x, self.y = x, y
            self.k = (bounds_error, fill_value)

        def __call__(self, v):
            return npx.interp(v, self.x, self.y)

    def __getattr__(self, n):
        raise Unsupported('scipy.interpolate.%s' % n)


class NdimageShim:
    def __getattr__(self, n):
        raise Unsupported('scipy.ndimage.%s' % n)


class SciPy:
    signal = SignalShim()
    special = SpecialShim()
    fft = SPFft()
    fftpack = SPFft()
    interpolate = SPInterp()
    ndimage = NdimageShim()

    def __getattr__(self, n):
        raise Unsupported('scipy.%s' % n)


def _nearconst(v, scale):
    """concrete value of an almost constant polynomial"""
    if not isinstance(v, S):
        return float(v)
    if v.is_const():
        return v.cval()
    lo, hi = v.bounds()
    if hi - lo < 1e-9 * scale:
        Ctx.cur.assumptions.add('regressors: rounding residue (below 1e-9 of their size) of symbolic offsets is dropped')
        return 0.5 * (lo + hi)
    raise Unsupported('regression on symbolic regressors')


def concrete_matrix(x):
    a = npx.to_obj(x.to_numpy() if hasattr(x, 'to_numpy') else x)
    if a.dtype != object:
        return np.asarray(a, float)
    if a.ndim == 1:
        a = a.reshape(-1, 1)
    out = np.zeros(a.shape)
    for j in range(a.shape[1]):
        scale = max([max(abs(t) for t in (v.bounds() if isinstance(v, S) else (v, v))) for v in a[:, j]] + [0.0])
        out[:, j] = [_nearconst(v, scale) for v in a[:, j]]
    return out


class OLSResult:
    def __init__(self, params, names, X, y):
        import pandas as pd
        self.names = names
        self.params = pd.Series(np.asarray(npx.to_obj(params), dtype=object), index=names) if names is not None else params
        self.X, self.y = X, y

    @property
    def fittedvalues(self):
        return npx.matmul(self.X, npx.to_obj(self.params))

    @property
    def resid(self):
        return SArr.wrap(npx.to_obj(self.y)) - self.fittedvalues

    def predict(self, *a):
        return self.fittedvalues

    def __getattr__(self, n):
        raise Unsupported('regression result attribute %s' % n)


class OLSStub:
    def __init__(self, y, x=None, **k):
        self.y, self.x = y, x

    def fit(self, **k):
        names = list(self.x.columns) if hasattr(self.x, 'columns') else None
        X = concrete_matrix(self.x)
        y = npx.to_obj(self.y.to_numpy() if hasattr(self.y, 'to_numpy') else self.y).reshape(-1)
        P = np.linalg.pinv(X)
        d = npx.decompose(y)
        return OLSResult(npx.recompose({m: P @ v for m, v in d.items()}), names, X, y)


def add_constant(data, prepend=True, has_constant='skip'):
    import statsmodels.api as sm
    import pandas as pd
    if hasattr(data, 'columns'):
        X = concrete_matrix(data)
        const = [j for j in range(X.shape[1]) if np.ptp(X[:, j]) == 0 and np.all(X[:, j] != 0)] if len(X) else []
        if const and has_constant == 'skip':
            return data
        r = data.copy()
        r.insert(0 if prepend else r.shape[1], 'const', 1.0)
        return r
    if has_sym(data):
        X = concrete_matrix(data)
        r = sm.add_constant(X, prepend, has_constant)
        return r
    return sm.add_constant(data, prepend, has_constant)


class StatsShim:
    OLS = OLSStub
    add_constant = staticmethod(add_constant)

    def __getattr__(self, n):
        raise Unsupported('statsmodels %s' % n)


class LinregMod:
    OLS = OLSStub


class CopyShim:
    @staticmethod
    def copy(x):
        import copy
        return x.copy() if isinstance(x, SArr) else copy.copy(x)

    @staticmethod
    def deepcopy(x):
        import copy
        return x.copy() if isinstance(x, SArr) else copy.deepcopy(x)


class StringIOShim(VFile):
    def __init__(self, t):
        VFile.__init__(self, '<memory>', 'r', t)

    def write(self, s):
        cells = tuple(cells_of(s))
        self.c = self.c[:self.pos] + cells + self.c[self.pos + len(cells):]
        self.pos += len(cells)
        return len(cells)

    def getvalue(self):
        return mk(self.c)


class IOMod:
    def __getattr__(self, n):
        return getattr(_io, n)

    @staticmethod
    def StringIO(t='', newline=None):
        return StringIOShim(t)
    open = staticmethod(vopen)


class TimeMod:
    def __getattr__(self, n):
        raise Unsupported('time.%s' % n)


# --------------------------------------------------------------------------- import machinery
MODS = {}
CODE = {}
RE = ReShim()


def proxies():
    from . import pdx
    return {
        'numpy': PROXY, 'numpy.fft': PROXY.fft, 'numpy.linalg': PROXY.linalg, 'math': MathShim(), 're': RE, 'datetime': dt.DatetimeModule, 'pandas': pdx.PANDAS,
        'scipy': SciPy(), 'scipy.signal': SciPy.signal, 'scipy.special': SciPy.special, 'scipy.fft': SciPy.fft,
        'scipy.fftpack': SciPy.fftpack, 'scipy.interpolate': SciPy.interpolate, 'scipy.ndimage': SciPy.ndimage,
        'statsmodels.api': StatsShim(), 'statsmodels': types.SimpleNamespace(api=StatsShim()),
        'statsmodels.regression.linear_model': LinregMod(), 'statsmodels.tools': StatsShim(), 'statsmodels.tools.tools': StatsShim(),
        'mmap': MMapMod, 'io': IOMod(), 'copy': CopyShim, 'pathlib': PathMod,
    }


def _import(name, globals=None, locals=None, fromlist=(), level=0):
    pkg = (globals or {}).get('__package__') or ''
    if level:
        base = pkg.split('.')
        base = base[:len(base) - (level - 1)] if level > 1 else base
        name = '.'.join(base + ([name] if name else []))
    if name == 'shipgrav' or name.startswith('shipgrav.'):
        m = load(name)
        if not fromlist:
            return load('shipgrav')
        for f in fromlist:
            if not hasattr(m, f):
                try:
                    setattr(m, f, load(name + '.' + f))
                except FileNotFoundError:
                    pass
        return m
    px = _PX or _init_px()
    if name in px:
        if fromlist or '.' not in name:
            return px[name]
        if '.' in name:
            return px[name.split('.')[0]]
    return builtins.__import__(name, globals, locals, fromlist, 0)


_PX = {}


def _init_px():
    _PX.update(proxies())
    return _PX


def _getattr(o, n, *d):
    return getattr(o, n, *d)


def _print(*a, sep=' ', end='\n', file=None, flush=False):
    if file is not None and file not in (sys.stdout, sys.stderr):
        a = [StrShim(x) for x in a]
        r = ''
        for i, x in enumerate(a):
            r = (r + (' ' if sep is None else sep) if i else r) + x
        file.write(r + ('\n' if end is None else end))


def make_builtins():
    b = dict(vars(builtins))
    b.update(__import__=_import, int=IntShim, float=FloatShim, str=StrShim, complex=ComplexShim, bytes=BytesShim, type=_type,
             isinstance=_isinstance, hasattr=_hasattr, sum=_sum, round=_round, sorted=_sorted, open=vopen, format=_format, ord=_ord,
             chr=_chr, bin=_bin, print=_print, max=_minmax(max, lambda x, r: x > r), min=_minmax(min, lambda x, r: x < r))
    return b


def load(name):
    m = MODS.get(name)
    if m is not None:
        return m
    parts = name.split('.')
    base = os.path.join(REPO, *parts)
    if os.path.isdir(base):
        path, pkg = os.path.join(base, '__init__.py'), name
    else:
        path, pkg = base + '.py', '.'.join(parts[:-1])
    code = CODE.get(path)
    if code is None:
        with open(path) as f:
            src = f.read()
        tree = Rewriter().visit(ast.parse(src, path))
        ast.fix_missing_locations(tree)
        code = CODE[path] = compile(tree, path, 'exec')
    m = types.ModuleType(name)
    m.__file__ = path
    m.__package__ = pkg
    m.__dict__['__builtins__'] = make_builtins()
    MODS[name] = m
    d = m.__dict__
    d.update(_sx_mod=_sx_mod, _sx_fval=_sx_fval, _sx_fstr=_sx_fstr, _sx_in=_sx_in, _sx_meth=_sx_meth, _sx_bound=_sx_bound, _sx_sub=_sx_sub, _sx_set=coll.make_set, _sx_new_set=_sx_new_set, _sx_new_dict=_sx_new_dict, _sx_new_frozenset=_sx_new_frozenset, _sx_dict=coll.make_dict, _sx_items=_sx_items, _sx_exc=_sx_exc,
             _sx_enter=lambda q, _n=name: TRACE.add(_n + '.' + q) if TRACE is not None else None)
    exec(code, d)
    return m


def reset():
    """forget loaded modules so that module state does not leak between paths"""
    MODS.clear()
    FS.files.clear()
    FS.written.clear()
