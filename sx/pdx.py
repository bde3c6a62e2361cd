"""pandas stand-in: real pandas objects with object columns for symbolic values, and replacements for the
compiled parsers (read_csv, read_fwf, to_datetime, to_numeric) that understand symbolic text."""
import math, datetime as _dt
import numpy as np
import pandas as pd
from . import sym, npx, strs, dt
from .sym import S, SymBool, SymC, Unsupported, And, Or, lift
from .strs import SymStr, SymBytes, is_s, mk, cells_of, to_int, to_float, to_str, Num, SC, ReShim
from .npx import SArr, has_sym, is_symscalar, to_obj

NA = {'', '#N/A', '#N/A N/A', '#NA', '-1.#IND', '-1.#QNAN', '-NaN', '-nan', '1.#IND', '1.#QNAN', '<NA>', 'N/A', 'NA', 'NULL', 'NaN', 'None', 'n/a', 'nan', 'null'}
NAN = float('nan')
_DF, _SER = pd.DataFrame, pd.Series


def one_kind(o):
    """no mixture of real and symbolic datetimes (pandas would try to convert the column)"""
    if any(isinstance(x, dt.SymDT) for x in o.flat):
        for i, x in enumerate(o.flat):
            if isinstance(x, _dt.datetime):
                o.flat[i] = dt.SymDT.of(x)
    return o


def clean(v):
    """SArr -> what pandas should store"""
    if isinstance(v, SArr):
        a = v.view(np.ndarray)
        if npx._allconc([a]) and not any(isinstance(x, str) for x in a.flat):
            if v.ldt == 'f':
                return a.astype(float)
            return npx.to_real(a) if a.size else a.astype(float)
        return one_kind(np.array(a, dtype=object))
    if is_symscalar(v):
        return v
    if isinstance(v, (list, tuple)) and any(is_symscalar(x) for x in v):
        o = np.empty(len(v), dtype=object)
        for i, x in enumerate(v):
            o[i] = x
        return one_kind(o)
    if isinstance(v, (list, tuple)) and v and any(isinstance(x, (list, tuple, SArr)) and has_sym(x) for x in v):
        return npx.build(v)
    return v


def clean_data(d):
    if isinstance(d, dict):
        return {k: clean(v) for k, v in d.items()}
    return clean(d)


class _PMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, cls._sx_real)

    def __call__(cls, data=None, *a, **k):
        dtp = k.get('dtype')
        if isinstance(data, (list, tuple)) and data and any(isinstance(r, dict) for r in data):
            cols = list(dict.fromkeys(c for r in data for c in r))
            data = {c: [r.get(c, NAN) for r in data] for c in cols}
        if isinstance(data, (list, tuple)) and data and all(isinstance(r, (list, tuple)) for r in data) and has_sym(data):
            n = max(len(r) for r in data)
            cols = k.get('columns')
            if cols is not None and n > len(list(cols)):
                raise ValueError('%d columns passed, passed data had %d columns' % (len(list(cols)), n))
            b = np.empty((len(data), n), dtype=object)
            for i, r in enumerate(data):
                for j in range(n):
                    b[i, j] = r[j] if j < len(r) else None
            data = b
            r = cls._sx_real(data, *a, **k)
            return r
        c = clean_data(data)
        if dtp is not None and has_sym(c):
            k.pop('dtype')
        return cls._sx_real(c, *a, **k)

    def __getattr__(cls, n):
        return getattr(cls._sx_real, n)

    def __eq__(cls, o):
        return o is cls or o is cls._sx_real

    def __hash__(cls):
        return hash(cls._sx_real)

    def __subclasscheck__(cls, c):
        return issubclass(getattr(c, '_sx_real', c), cls._sx_real)


DataFrame = _PMeta('DataFrame', (), {'_sx_real': _DF})
Series = _PMeta('Series', (), {'_sx_real': _SER})


# --------------------------------------------------------------------------- patches (symbolic worker processes only)
def conv_elem(v, kind):
    if v is None or isinstance(v, float) and v != v:
        if kind == 'i':
            raise ValueError('cannot convert float NaN to integer')
        return v
    if kind == 's':
        return to_str(v)
    return npx.coerce(v, kind)


def _kind(t):
    if t in ('float', 'float64', 'f8', 'float32') or t == float or getattr(t, '_sx_real', None) in (float, np.float64, np.float32):
        return 'f'
    if t in ('int', 'int64', 'i8', 'int32') or t == int or getattr(t, '_sx_real', None) in (int, np.int64, np.int32):
        return 'i'
    if t in ('str', 'string') or t == str or getattr(t, '_sx_real', None) is str:
        return 's'
    if t in ('object', 'O') or t is object:
        return 'o'
    return None


def sym_series(s):
    if s.dtype != object:
        return False
    return any(is_symscalar(v) for v in s.array)


def obj_series(vals, index=None, name=None):
    o = np.empty(len(vals), dtype=object)
    for i, v in enumerate(vals):
        o[i] = v
    return _SER(o, index=index, name=name, dtype=object)


def dt_or_sym(v):
    return isinstance(v, dt.SymDT) or is_symscalar(v)


def maybe_native(vals, index, name):
    """native dtype when everything is concrete and numeric"""
    if vals and all(isinstance(v, (int, float, np.integer, np.floating)) and not isinstance(v, bool) for v in vals):
        return _SER(list(vals), index=index, name=name)
    return obj_series(vals, index, name)


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    o_set, o_ins, o_ast, o_dast = _DF.__setitem__, _DF.insert, _SER.astype, _DF.astype

    def setitem(self, k, v):
        return o_set(self, k, clean(v))
    _DF.__setitem__ = setitem

    def insert(self, loc, column, value, *a, **k):
        return o_ins(self, loc, column, clean(value), *a, **k)
    _DF.insert = insert

    def astype(self, t, *a, **k):
        if sym_series(self):
            kd = _kind(t)
            if kd is None:
                raise Unsupported('astype %r' % (t,))
            return self.copy() if kd == 'o' else obj_series([conv_elem(v, kd) for v in self.array], self.index, self.name)
        return o_ast(self, getattr(t, '_sx_real', t), *a, **k)
    _SER.astype = astype

    def dastype(self, t, *a, **k):
        if any(sym_series(self[c]) for c in self.columns):
            r = self.copy()
            for c in self.columns:
                tt = t.get(c) if isinstance(t, dict) else t
                if tt is not None:
                    r[c] = self[c].astype(tt)
            return r
        return o_dast(self, {k2: getattr(v, '_sx_real', v) for k2, v in t.items()} if isinstance(t, dict) else getattr(t, '_sx_real', t), *a, **k)
    _DF.astype = dastype
    o_str = _SER.__dict__['str']
    o_dt = _SER.__dict__['dt']

    def gstr(self):
        if sym_series(self):
            return StrAcc(self)
        return o_str.__get__(self, _SER)
    _SER.str = property(gstr)

    def gdt(self):
        if self.dtype == object and len(self) and all(isinstance(v, (dt.SymDT, _dt.datetime)) for v in self.array):
            return DtAcc(self)
        return o_dt.__get__(self, _SER)
    _SER.dt = property(gdt)
    for n in ('mean', 'sum', 'std', 'var', 'min', 'max', 'median'):
        def mkf(n, o):
            def f(self, *a, **k):
                if sym_series(self):
                    if a or not set(k) <= {'skipna', 'axis', 'ddof'}:
                        raise Unsupported('Series.%s with arguments' % n)
                    v = list(self.array)
                    if k.get('skipna', True):
                        v = [x for x in v if not npx.isnan_(x)]
                    if not v or n in ('std', 'var') and len(v) <= k.get('ddof', 1):
                        return 0.0 if n == 'sum' else NAN
                    return getattr(npx.PROXY, n)(SArr.wrap(np.asarray(obj_series(v).array, dtype=object)), **({'ddof': k.get('ddof', 1)} if n in ('std', 'var') else {}))
                return o(self, *a, **k)
            return f
        setattr(_SER, n, mkf(n, getattr(_SER, n)))

        def mkd(n, o):
            def f(self, *a, **k):
                if any(sym_series(self[c]) for c in self.columns):
                    if a or k.get('axis') not in (None, 0, 'index'):
                        raise Unsupported('DataFrame.%s with arguments' % n)
                    k = {x: y for x, y in k.items() if x != 'axis'}
                    return obj_series([getattr(self[c], n)(**k) for c in self.columns], self.columns)
                return o(self, *a, **k)
            return f
        setattr(_DF, n, mkd(n, getattr(_DF, n)))
    def mkmap(o):
        def f(self, func, *a, **k):
            if not callable(func) or isinstance(func, type) or a or k:
                return o(self, func, *a, **k)
            vals = [func(v) for v in self.astype(object)]
            if any(dt_or_sym(v) for v in vals):
                return obj_series(vals, self.index, self.name)
            it = iter(vals)
            return o(self, lambda v: next(it))
        return f
    for n in ('map', 'apply'):
        setattr(_SER, n, mkmap(getattr(_SER, n)))
    o_diff = _SER.diff

    def diff(self, periods=1):
        if sym_series(self) and periods == 1:
            v = list(self.array)
            return obj_series([NAN] + [v[i] - v[i - 1] for i in range(1, len(v))], self.index, self.name)
        return o_diff(self, periods)
    _SER.diff = diff


class StrAcc:
    def __init__(self, s):
        self.s = s

    def _map(self, f):
        return obj_series([f(v if isinstance(v, SymStr) else SymStr(v)) if is_s(v) else NAN for v in self.s.array], self.s.index, self.s.name)

    def __getattr__(self, n):
        if n in ('strip', 'lstrip', 'rstrip', 'lower', 'upper', 'startswith', 'endswith', 'zfill', 'removeprefix', 'removesuffix', 'ljust', 'rjust',
                 'find', 'isdigit', 'isnumeric', 'count', 'encode'):
            return lambda *a, **k: self._map(lambda v: getattr(v, n)(*a, **k))
        raise Unsupported('Series.str.%s' % n)

    def __getitem__(self, i):
        return obj_series([(v[i] if isinstance(i, slice) or -len(v) <= i < len(v) else NAN) if is_s(v) or isinstance(v, (list, tuple)) else NAN
                           for v in self.s.array], self.s.index, self.s.name)
    get = __getitem__

    def slice(self, a=None, b=None, c=None):
        return self[slice(a, b, c)]

    def len(self):
        return _SER([len(v) for v in self.s.array], index=self.s.index)

    def replace(self, pat, repl, n=-1, regex=False, **k):
        if regex:
            return self._map(lambda v: ReShim().compile(pat).sub(repl, v))
        return self._map(lambda v: v.replace(pat, repl, n))

    def contains(self, pat, regex=True, na=None, **k):
        return self._map(lambda v: ReShim().compile(pat).search(v) is not None if regex else pat in v)

    def match(self, pat, **k):
        return self._map(lambda v: ReShim().compile(pat).match(v) is not None)

    def _split(self, f, expand):
        r = [f(v if isinstance(v, SymStr) else SymStr(v)) if is_s(v) else NAN for v in self.s.array]
        if not expand:
            return obj_series(r, self.s.index, self.s.name)
        n = max([len(x) for x in r if isinstance(x, (list, tuple))] + [0])
        return _DF({j: obj_series([(x[j] if j < len(x) else None) if isinstance(x, (list, tuple)) else NAN for x in r], self.s.index) for j in range(n)},
                   index=self.s.index)

    def split(self, pat=None, n=-1, expand=False, regex=None, **k):
        if pat is not None and (regex or (regex is None and len(pat) > 1)):
            return self._split(lambda v: ReShim().compile(pat).split(v, 0 if n in (-1, 0) else n), expand)
        return self._split(lambda v: v.split(pat, n if n else -1), expand)

    def rsplit(self, pat=None, n=-1, expand=False, **k):
        return self._split(lambda v: v.rsplit(pat, n if n else -1), expand)

    def partition(self, sep=' ', expand=True):
        return self._split(lambda v: list(v.partition(sep)), expand)

    def rpartition(self, sep=' ', expand=True):
        return self._split(lambda v: list(v.rpartition(sep)), expand)

    def findall(self, pat, flags=0):
        return self._map(lambda v: ReShim().compile(pat).findall(v))

    def extract(self, pat, flags=0, expand=True):
        rx = ReShim().compile(pat, flags)
        ms = [rx.search(v) if is_s(v) else None for v in self.s.array]
        names = {i: n for n, i in rx.groupindex.items()}
        cols = {names.get(g + 1, g): obj_series([(m.group(g + 1) if m and m.group(g + 1) is not None else NAN) for m in ms], self.s.index)
                for g in range(rx.groups)}
        if not expand and rx.groups == 1:
            return list(cols.values())[0]
        return _DF(cols, index=self.s.index)

    def cat(self, others=None, sep='', **k):
        if others is None:
            return strs.join(sep, list(self.s.array))
        ov = list(others.array) if isinstance(others, _SER) else list(others)
        return obj_series([strs.join(sep, [a, b]) for a, b in zip(self.s.array, ov)], self.s.index, self.s.name)


class DtAcc:
    def __init__(self, s):
        self.s = s

    def _map(self, f):
        return obj_series([f(dt.SymDT.of(v)) for v in self.s.array], self.s.index, self.s.name)

    def tz_localize(self, tz):
        return self._map(lambda v: v.tz_localize(tz))

    def tz_convert(self, tz):
        return self._map(lambda v: v.tz_convert(tz))

    def __getattr__(self, n):
        if n in ('year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond'):
            return self._map(lambda v: getattr(v, n))
        if n in ('round', 'floor', 'ceil', 'normalize', 'strftime', 'to_pydatetime'):
            return lambda *a, **k: self._map(lambda v: getattr(v, n)(*a, **k))
        raise Unsupported('Series.dt.%s' % n)


# --------------------------------------------------------------------------- text parsing
def text_of(path):
    from .load import FS, VFile, _path
    if isinstance(path, VFile):
        t = path.read()
        return t.decode() if isinstance(t, (SymBytes, bytes)) else t
    p = _path(path)
    if p not in FS.files:
        raise FileNotFoundError(2, 'No such file', p)
    if any(isinstance(x, str) and '\udc80' <= x <= '\udcff' for x in cells_of(FS.files[p])):
        raise Unsupported('bytes that are no text')
    return FS.files[p]


def split_lines(text):
    t = text if isinstance(text, SymStr) else SymStr(text)
    out, cur = [], []
    for x in t.c:
        if isinstance(x, str):
            if x == '\n':
                out.append(cur)
                cur = []
            else:
                cur.append(x)
        else:
            if isinstance(x, SC) and not x.among({10, 13, 34}) is False:
                raise Unsupported('line structure depends on symbolic characters')
            cur.append(x)
    if cur:
        out.append(cur)
    res = []
    for c in out:
        if c and c[-1] == '\r':
            c = c[:-1]
        if '\r' in c or '"' in c:
            raise Unsupported('quotes or carriage returns inside csv')
        res.append(c)
    return res


def is_blank(c):
    return all(isinstance(x, str) and x in ' \t' for x in c)


def number(t):
    """(value, isint) of a field or None"""
    if isinstance(t, str):
        s = t.strip()
        try:
            return int(s) if '_' not in s else None, True
        except ValueError:
            pass
        try:
            if '_' in s:
                return None
            return float(s), False
        except ValueError:
            return None
    try:
        return to_int(t), True
    except ValueError:
        pass
    try:
        return to_float(t), False
    except ValueError:
        return None


def infer(fields, na=NA):
    """one column of text -> values (numbers when every field is one)"""
    vals = []
    isint = True
    anynum = False
    for t in fields:
        if t is None or (isinstance(t, str) and t in na):
            vals.append(NAN)
            isint = False
            continue
        r = number(t)
        if r is None or r[0] is None:
            return None
        vals.append(r[0])
        isint = isint and r[1]
        anynum = True
    if not isint:
        vals = [asfloat(v) for v in vals]
    return vals


def asfloat(v):
    if isinstance(v, S):
        if v.lit is not None and v.lit[0] == 'int':
            return S(v.p, lit=('float', cells_of(v.lit[1]), ('0',)) if v.lit[1] is not None else None)
        return S(v.p, lit=v.lit)
    return float(v)


def frame(cols, names, n):
    return _DF({nm: cols[nm] for nm in names}, index=pd.RangeIndex(n), columns=names)


def read_table(path, sep, k, defsep=','):
    if all(isinstance(x, str) for x in cells_of(text_of(path))) if not hasattr(path, 'pos') else False:
        import io
        kk = dict(k)
        kk['converters'] = k.get('converters')
        if k.get('converters') is None:
            kk.pop('converters')
        return ('real', io.StringIO(text_of(path)), kk)
    return None


def build_table(rows, k):
    """rows: list of lists of text fields"""
    names, usecols, header = k.get('names'), k.get('usecols'), k.get('header', 'infer')
    conv, dtype, parse_dates = k.get('converters') or {}, k.get('dtype'), k.get('parse_dates')
    nav = k.get('na_values')
    nav = [] if nav is None else [nav] if isinstance(nav, (str, int, float)) else nav
    if isinstance(nav, dict) or k.get('parse_dates') and nav:
        raise Unsupported('read_csv(na_values=...)')
    nanum = [float(v) for v in nav if number(str(v)) is not None]
    natext = set(NA) | {str(v) for v in nav} | {repr(v) for v in nanum}
    for bad in ('index_col', 'keep_default_na', 'thousands', 'decimal', 'date_format', 'date_parser', 'chunksize', 'iterator', 'quotechar', 'on_bad_lines'):
        if k.get(bad) not in (None, False, '.', '"', 'error'):
            raise Unsupported('read_csv(%s=...)' % bad)
    ncol = max([len(r) for r in rows] + [0])
    if header == 'infer':
        header = 0 if names is None else None
    if header is not None:
        hdr = rows[header]
        rows = rows[header + 1:]
        if names is None:
            names = [h if isinstance(h, str) else None for h in hdr]
    if names is None:
        names = list(range(ncol))
    names = list(names)
    if usecols is not None:
        uc = [u for u in usecols] if not callable(usecols) else [i for i, n in enumerate(names) if usecols(n)]
        if any(isinstance(u, str) for u in uc):
            idx = [(names.index(u), u) for u in uc]
            idx.sort()
        else:
            s = sorted(set(int(u) for u in uc))
            if len(names) == len(s):
                idx = list(zip(s, names))
            else:
                idx = [(j, names[j]) for j in s]
        first = len(rows[0]) if rows else 0
        if idx and rows and max(j for j, _ in idx) >= ncol:
            raise ValueError('Usecols do not match columns')
        for r in rows:
            if len(r) > max(first, 0) and len(r) > len(names) and len(r) > max(j for j, _ in idx) + 1 and len(r) > first:
                raise Unsupported('ragged rows in csv')
    else:
        if ncol > len(names):
            raise Unsupported('more fields than names in csv')
        idx = list(enumerate(names))
    if parse_dates is True:
        raise Unsupported('parse_dates=True')
    pdset = set()
    for p in parse_dates or []:
        if isinstance(p, (list, tuple)):
            raise Unsupported('combined date columns')
        pdset.add(names[p] if isinstance(p, int) and p not in names else p)
    cols = {}
    for pos, (j, nm) in enumerate(idx):
        f = [r[j] if j < len(r) else None for r in rows]
        c = conv.get(nm, conv.get(j))
        if c is not None:
            vals = [c('' if t is None else t) for t in f]
            cols[nm] = maybe_native(vals, None, nm)
            continue
        if nm in pdset:
            cols[nm] = to_datetime(obj_series([NAN if t is None else t for t in f]))
            continue
        t = dtype.get(nm) if isinstance(dtype, dict) else dtype
        kd = _kind(t) if t is not None else None
        if kd in ('s', 'o'):
            cols[nm] = obj_series([NAN if v is None or v == '' else v for v in f], name=nm)
            continue
        vals = infer(f, natext)
        if vals is not None and nanum:
            hit = [not (isinstance(v, float) and v != v) and bool(Or(*[lift(v) == x for x in nanum])) for v in vals]
            if any(hit):
                vals = [NAN if h else asfloat(v) for h, v in zip(hit, vals)]
        if vals is None:
            if kd in ('i', 'f'):
                raise ValueError('could not convert string to float')
            cols[nm] = obj_series([NAN if v is None or (isinstance(v, str) and v in natext) else v for v in f], name=nm)
        else:
            if kd == 'f':
                vals = [asfloat(v) for v in vals]
            cols[nm] = maybe_native(vals, None, nm)
    return frame(cols, [nm for _, nm in idx], len(rows))


def data_lines(path, k):
    lines = split_lines(text_of(path))
    com = k.get('comment')
    sk = k.get('skiprows')
    out = []
    for i, c in enumerate(lines):
        if sk is not None and (i < sk if isinstance(sk, int) else sk(i) if callable(sk) else i in sk):
            continue
        if com is not None and com in c:
            had = c.index(com)
            c = c[:had]
            if not c:
                continue
        if is_blank(c) and k.get('skip_blank_lines', True):
            continue
        out.append(c)
    if k.get('nrows') is not None:
        out = out[:k['nrows']]
    if k.get('skipfooter'):
        out = out[:-k['skipfooter']]
    return out


def read_csv(path, sep=None, delimiter=None, delim_whitespace=False, **k):
    d = sep if sep is not None and delimiter is None else delimiter
    if d is None:
        d = ','
    lines = data_lines(path, k)
    if not lines and k.get('names') is None:
        raise pd.errors.EmptyDataError('No columns to parse from file')
    rows = []
    for c in lines:
        s = SymStr(c)
        if delim_whitespace or d == r'\s+':
            rows.append(s.split())
        elif len(d) == 1:
            rows.append(s.split(d))
        else:
            rows.append(ReShim().compile(d).split(s))
    if k.get('skipinitialspace'):
        rows = [[SymStr(cells_of(f)).lstrip(' ') for f in r] for r in rows]
    return build_table(rows, k)


def read_fwf(path, colspecs='infer', widths=None, infer_nrows=100, delimiter=None, **k):
    lines = data_lines(path, k)
    if any(isinstance(x, Num) for c in lines for x in c):
        raise Unsupported('opaque numbers in fixed-width text')
    dl = delimiter or ' \t'
    if widths is not None:
        colspecs, p = [], 0
        for w in widths:
            colspecs.append((p, p + w))
            p += w
    elif isinstance(colspecs, str):
        n = max([len(c) for c in lines] + [0])
        mask = np.zeros(n + 1, dtype=int)
        for c in lines[:infer_nrows]:
            for i, x in enumerate(c):
                if isinstance(x, str):
                    if x not in dl:
                        mask[i] = 1
                elif x.among({ord(v) for v in dl}) is False:
                    mask[i] = 1
                else:
                    raise Unsupported('column layout depends on symbolic characters')
        sh = np.roll(mask, 1)
        sh[0] = 0
        e = np.where((mask ^ sh) == 1)[0]
        colspecs = list(zip(e[::2], e[1::2]))
    rows = [[SymStr(c[a:b]).strip(dl) if c[a:b] else '' for a, b in colspecs] for c in lines]
    return build_table(rows, k)


# --------------------------------------------------------------------------- conversions
def layout(t):
    """shape of a date-time text: every run of digits by length, other characters literally"""
    out = []
    seen_dot = False
    for x in cells_of(t.strip()):
        if isinstance(x, str) and not x.isdigit():
            out.append(x)
            seen_dot = x == '.'
        else:
            if seen_dot:
                if out[-1] != 'f':
                    out.append('f')
            elif not (out and out[-1] == 'd'):
                out.append('d')
    return ''.join(out)


def one_date(t, fmt, utc):
    if isinstance(t, SymDT_) or isinstance(t, _dt.datetime):
        d = dt.SymDT.of(t)
        return d if d.tz is not None or not utc else d.tz_localize('UTC')
    if isinstance(t, (S, int, float)):
        if fmt is None:
            raise Unsupported('to_datetime of numbers')
        t = to_str(t) if isinstance(t, S) else str(t)
        if isinstance(t, str):
            t = SymStr(t)
    if fmt in (None, 'ISO8601', 'mixed'):
        return dt.parse_iso_like(t if isinstance(t, SymStr) else SymStr(t), utc)
    d = dt.strptime(t if isinstance(t, SymStr) else SymStr(t), fmt)
    return d.replace(tzinfo=dt.UTC) if utc and d.tzinfo is None else d


SymDT_ = dt.SymDT


def to_datetime(arg, errors='raise', dayfirst=False, yearfirst=False, utc=False, format=None, unit=None, origin='unix', **k):
    if isinstance(arg, (_DF, dict)):
        cols = {c: list(arg[c].array if isinstance(arg[c], _SER) else arg[c]) for c in (arg.columns if isinstance(arg, _DF) else arg)}
        if not any(is_symscalar(v) for c in cols.values() for v in c):
            return pd.to_datetime(arg, errors=errors, utc=utc)
        n = len(next(iter(cols.values())))
        alias = {}
        for c in cols:
            a = c.lower()
            a = {'years': 'year', 'months': 'month', 'days': 'day', 'hours': 'hour', 'h': 'hour', 'minutes': 'minute', 'm': 'minute', 'seconds': 'second', 's': 'second',
                 'ms': 'ms', 'us': 'us', 'ns': 'ns'}.get(a, a)
            alias[a] = c
        bad = set(alias) - {'year', 'month', 'day', 'hour', 'minute', 'second', 'ms', 'us', 'ns'}
        if bad or not {'year', 'month', 'day'} <= set(alias):
            raise ValueError('extra or missing keys have been passed to the datetime assemblage')
        out = []
        for i in range(n):
            g = lambda u: cols[alias[u]][i] if u in alias else 0
            y, m, d = g('year'), g('month'), g('day')
            if any(isinstance(v, float) and v != v for v in (y, m, d, g('hour'), g('minute'), g('second'))):
                out.append(pd.NaT)
                continue
            if not bool(dt.valid_date(y, m, d)):
                if errors == 'coerce':
                    out.append(pd.NaT)
                    continue
                raise ValueError('cannot assemble the datetimes')
            us = (lift(g('hour')) * 3600 + lift(g('minute')) * 60 + g('second')) * 1000000 + lift(g('ms')) * 1000 + g('us')
            us = S(dt.snapint(us.p))
            if not us.isint():
                dt.Ctx.cur.assumptions.add('assembled times are exact (pandas keeps nanoseconds)')
            out.append(dt.SymDT(dt.civil(y, m, d) * dt.DAY + us, dt.UTC if utc else None))
        return obj_series(out, arg.index if isinstance(arg, _DF) else None)
    if unit is not None:
        if not has_sym(arg):
            return pd.to_datetime(arg, errors=errors, utc=utc, unit=unit, origin=origin)
        sc = {'s': 1e6, 'ms': 1e3, 'us': 1.0, 'm': 6e7, 'h': 3.6e9, 'D': 8.64e10}[unit]

        def f(v):
            us = S(dt.snapint((lift(v) * sc).p))
            if not us.isint():
                us = sym.floor(us + 0.5)
            return dt.SymDT(us, dt.UTC if utc else None)
        if is_symscalar(arg):
            return f(arg)
        vals = [f(v) for v in (arg.array if isinstance(arg, _SER) else to_obj(arg))]
        return obj_series(vals, arg.index, arg.name) if isinstance(arg, _SER) else pd.Index(obj_series(vals), dtype=object)
    if is_symscalar(arg):
        return one_date(arg, format, utc)
    if isinstance(arg, (str, _dt.datetime, int, float)):
        return pd.to_datetime(arg, errors=errors, utc=utc, format=format)
    if isinstance(arg, _SER):
        vals = list(arg.array)
    elif isinstance(arg, np.ndarray):
        vals = list(to_obj(arg))
    else:
        vals = list(arg)
    if not any(is_symscalar(v) for v in vals):
        a = arg
        if isinstance(arg, SArr):
            a = list(vals)
        return pd.to_datetime(a, errors=errors, utc=utc, format=format)
    lay = None
    out = []
    for v in vals:
        if v is None or isinstance(v, float) and v != v:
            out.append(pd.NaT)
            continue
        try:
            if format is None and is_s(v):
                l = layout(v)
                if lay is None:
                    lay = l
                elif l != lay:
                    raise ValueError('time data does not match the inferred format')
            out.append(one_date(v, format, utc))
        except ValueError:
            if errors != 'coerce':
                raise
            out.append(pd.NaT)
    if isinstance(arg, _SER):
        return obj_series(out, arg.index, arg.name)
    return pd.Index(obj_series(out), dtype=object)


def to_numeric(arg, errors='raise', downcast=None, **k):
    if isinstance(arg, SymStr):
        r = number(arg)
        if r is None or r[0] is None:
            if errors == 'coerce':
                return NAN
            raise ValueError('Unable to parse string')
        return r[0]
    if is_symscalar(arg):
        return arg
    if isinstance(arg, str) or not has_sym(arg):
        return pd.to_numeric(arg, errors=errors)
    vals = list(arg.array) if isinstance(arg, _SER) else list(to_obj(arg))
    if not any(is_symscalar(v) for v in vals):
        a = _SER(vals, index=arg.index if isinstance(arg, _SER) else None, name=getattr(arg, 'name', None))
        r = pd.to_numeric(a, errors=errors)
        return r if isinstance(arg, _SER) else r.to_numpy()
    out = []
    isint = True
    for v in vals:
        if is_s(v):
            if isinstance(v, str) and v in NA:
                out.append(NAN)
                isint = False
                continue
            r = number(v)
            if r is None or r[0] is None:
                if errors == 'coerce':
                    out.append(NAN)
                    isint = False
                    continue
                raise ValueError('Unable to parse string')
            out.append(r[0])
            isint = isint and r[1]
        else:
            out.append(NAN if v is None else v)
            isint = isint and not (v is None or isinstance(v, float))
    if not isint:
        out = [asfloat(v) for v in out]
    if isinstance(arg, _SER):
        return obj_series(out, arg.index, arg.name)
    return SArr.wrap(npx.build(out))


def concat(objs, *a, **k):
    return pd.concat(list(objs.values()) if isinstance(objs, dict) else list(objs), *a, **k)


class Pandas:
    DataFrame = DataFrame
    Series = Series
    read_csv = staticmethod(read_csv)
    read_fwf = staticmethod(read_fwf)
    read_table = staticmethod(lambda p, sep='\t', **k: read_csv(p, sep=sep, **k))
    to_datetime = staticmethod(to_datetime)
    to_numeric = staticmethod(to_numeric)
    concat = staticmethod(concat)

    def __getattr__(self, n):
        return getattr(pd, n)


PANDAS = Pandas()
