"""U01-U04: filter, status words, ini files, segment picker"""
import math
from ..run import Case
from .grav import vals, LONGREC
from .files import _crlf

GK = 'U01-double-hump'


# ------------------------------------------------------------------ U01
def _weights(fl, known=False):
    h = int(math.floor(0.5 * fl))
    f = [math.exp(-0.5 * ((abs(j) - (1 if known else 0)) * 6.0 / fl) ** 2) for j in range(-h, h + 1)]
    s = sum(f)
    return [v / s for v in f]


def _fir(w, x):
    n = len(w)
    out = []
    for i in range(len(x)):
        t = 0.0
        for k in range(n):        # the weights are symmetric, so their direction does not matter
            if i - k >= 0:
                t = t + w[k] * x[i - k]
        out.append(t)
    return out


def _u01(fl, n):
    def case(E):
        x = vals(E, 'x', n, -1e5, 1e5)
        y = E.mod('utils').gaussian_filter(E.array(x), fl)
        E.true('length', len(y) == n)
        E.close('filtered', y, _fir(_weights(fl), x), tol=1e-5, known=(GK, _fir(_weights(fl, True), x)))
    return case


def _u01_laws(E):
    fl = E.choice('fl', [2, 3, 4, 5, 6, 7, 9, 10, 12, 16])
    m = 2 * (fl // 2) + 1
    f = E.mod('utils').gaussian_filter
    v = E.real('v', -1e5, 1e5)
    n = m + 4
    d = [0.0] * n
    d[2] = v
    y = f(E.array(d), fl)
    E.close('nothing before the sample', y[:2], [0.0, 0.0], tol=1e-9)
    E.close('nothing after the window', y[2 + m:], [0.0] * (n - 2 - m), tol=1e-9)
    w = [y[2 + k] for k in range(m)]
    E.close('symmetric', w, w[::-1], tol=1e-6)
    t = 0.0
    for k in range(m):
        t = t + w[k]
        E.true('sign', E.And(E.Or(w[k] * v >= -1e-9)))
    E.close('unit gain', t, v, tol=1e-6)
    c = f(E.array([v] * n), fl)
    E.close('constant series', c[m - 1:], [v] * (n - m + 1), tol=1e-6)


def _u01_linear(E):
    fl = E.choice('fl', [4, 7, 10])
    f = E.mod('utils').gaussian_filter
    n = fl + 3
    x, y = E.reals('x', n, -1e4, 1e4), E.reals('y', n, -1e4, 1e4)
    a, b = f(E.array(x), fl), f(E.array(y), fl)
    c = f(E.array([p + q for p, q in zip(x, y)]), fl)
    E.close('additive', c, [p + q for p, q in zip(a, b)], tol=1e-5)
    E.close('homogeneous', f(E.array([-2.5 * p for p in x]), fl), [-2.5 * p for p in a], tol=1e-5)


def _u01_refuse(E):
    fl = E.choice('fl', [2, 3, 5, 8, 10])
    n = fl + E.choice('more', [-1, 0, 1])
    x = E.reals('x', n, -1e4, 1e4)
    f = E.mod('utils').gaussian_filter
    if n <= fl:
        E.raises('refused', AssertionError, lambda: f(E.array(x), fl))
    else:
        E.true('accepted', len(f(E.array(x), fl)) == n)


def U01(th):
    fls = list(range(2, 17)) + ([20, 31, 60, 120] if th else [60])
    cs = [Case('length %d' % fl, _u01(fl, fl + 4), 'filter length %d, %d samples' % (fl, fl + 4)) for fl in fls]
    return cs + [Case('short series', _u01(10, 11), '11 samples'), Case('long series', _u01(9, LONGREC), '%d samples, three symbolic' % LONGREC),
                 Case('long filter, long series', _u01(240, LONGREC), '%d samples, filter length 240' % LONGREC), Case('laws', _u01_laws, '10 lengths, impulse and constant of any height'),
                 Case('linear', _u01_linear, 'lengths 4, 7, 10'), Case('refused', _u01_refuse, 'series one shorter, equal, one longer')]


# ------------------------------------------------------------------ U02
FLAGS = ['clamp status', 'GPSsync', 'reserved', 'feedback', 'R1', 'R2', 'ADlock', 'ack host', 'NavMod1', 'NavMod2', 'dgs1_trouble',
         'dgs2_trouble', 'GPStime', 'ADsat', 'nemo1', 'nemo2']


def _word(E, k):
    b = [E.int('b%d_%d' % (k, i), 0, 1) for i in range(16)]
    w = 0
    for i in range(16):
        w = w + b[i] * (1 << (15 - i))
    return b, w


def _fixed_word(k):
    w = (40503 * k + 77) % 65536
    return [(w >> (15 - i)) & 1 for i in range(16)], w


def _isbit(E, c, b):
    return E.Or(E.And(c == '1', b == 1), E.And(c == '0', b == 0))


def _u02_word(E):
    b, w = _word(E, 0)
    out = E.mod('utils').decode_dgs_status_bits(w)
    E.true('flags', sorted(out) == sorted(FLAGS))
    for i, f in enumerate(FLAGS):
        E.true(f, _isbit(E, out[f], b[i]))
    t = 0
    for i, f in enumerate(FLAGS):
        t = t + E.toint(out[f]) * (1 << (15 - i))
    E.close('rebuilt', t, w, tol=0.5)


def _u02_table(n, key, extra):
    def case(E):
        ws = [_word(E, k) if n < 100 or k in (0, n // 2 + 3, n - 1) else _fixed_word(k) for k in range(n)]
        g = vals(E, 'g', n, -1e6, 1e6)
        d = {'grav': E.array(g), key: E.iarray([w for b, w in ws])}
        if extra:
            d['lat'] = E.array(g[::-1])
        df = E.pd.DataFrame(d)
        kw = {} if key == 'status' else {'key': key}
        out = E.mod('utils').decode_dgs_status_bits(df, **kw)
        E.true('columns', sorted(out.columns) == sorted(FLAGS + list(d)))
        E.true('rows', len(out) == n)
        for k in range(n):
            for i, f in enumerate(FLAGS):
                E.true('%s %d' % (f, k), _isbit(E, list(out[f])[k], ws[k][0][i]))
        E.close('gravity', list(out['grav']), g, tol=0.0)
        E.close('words', list(out[key]), [w for b, w in ws], tol=0.0)
        if extra:
            E.close('latitude', list(out['lat']), g[::-1], tol=0.0)
    return case


def _u02_index(E):
    """tables cut from a longer one keep their row labels"""
    ws = [_word(E, k) for k in range(2)]
    df = E.pd.DataFrame({'grav': E.array([1.0, 2.0]), 'status': E.iarray([w for b, w in ws])}, index=[7, 3])
    out = E.mod('utils').decode_dgs_status_bits(df)
    E.true('labels', list(out.index) == [7, 3])
    for k in range(2):
        for i, f in enumerate(FLAGS):
            E.true('%s %d' % (f, k), _isbit(E, list(out[f])[k], ws[k][0][i]))


def _u02_twice(E):
    """decoding one word does not disturb the next"""
    (b, w), (c, v) = _word(E, 0), _word(E, 1)
    f = E.mod('utils').decode_dgs_status_bits
    x = f(w)
    y = f(v)
    for i, n in enumerate(FLAGS):
        E.true('first ' + n, _isbit(E, x[n], b[i]))
        E.true('second ' + n, _isbit(E, y[n], c[i]))


def _u02_refuse(E):
    f = E.mod('utils').decode_dgs_status_bits
    v = E.real('v', 0, 65535)
    E.assume(v > 0.5)
    bad = E.choice('kind', ['float', 'text', 'list', 'none', 'dict'])
    x = {'float': v * 1.0 if not E.sym else v, 'text': '0000000000000001', 'list': [1], 'none': None, 'dict': {'status': 3}}[bad]
    E.raises('refused', AssertionError, lambda: f(x))


def U02(th):
    cs = [Case('word', _u02_word, 'all 16-bit words'), Case('two words', _u02_twice, 'all pairs of words'), Case('refused', _u02_refuse, 'float, text, list, None, dict')]
    for n in (1, 2, 3) + ((6,) if th else ()):
        cs.append(Case('table of %d' % n, _u02_table(n, 'status', n == 2), '%d rows, all words' % n))
    return cs + [Case('other key', _u02_table(2, 'stat', True), '2 rows'), Case('row labels', _u02_index, '2 rows'),
                 Case('long table', _u02_table(LONGREC, 'status', True), '%d rows, three symbolic words' % LONGREC)]


# ------------------------------------------------------------------ U03
LET = 'abkqzAEFRST'
TXT = LET + '059._-/ '


class _L:
    """one line of an ini file: text, and what it must become"""

    def __init__(self, text, kind, key=None, val=None, com=''):
        self.text, self.kind, self.key, self.val, self.com = text, kind, key, val, com


def _chars(E, n, k, dom=TXT):
    return E.cat(*[E.char('%s%d' % (n, i), dom) for i in range(k)])


def _inner(E, name, k):
    """text without blanks at its ends"""
    if k == 0:
        return ''
    if k == 1:
        return E.char(name + 'a', LET)
    return E.cat(E.char(name + 'a', LET), _chars(E, name, k - 2, LET + '05._- ') if k > 2 else '', E.char(name + 'z', LET))


def _line(E, kind, i):
    n = 'l%d' % i
    if kind == 'fixed':
        k, b = 'key%d' % i, '[a%d]' % i
        return [_L(b, 'same', val=b), _L(k + ' = Word %d' % i, 'string', k, 'Word %d' % i), _L(k + '=-3.25  // n', 'raw', k, '-3.25', 'n'), _L('// c%d' % i, 'comment', com='c%d' % i), _L('', 'same', val=''),
                _L(k + ' = "a # b"', 'string', k, 'a # b'), _L(k + ' = TRUE', 'raw', k, 'true'), _L('$' + k + ' = 7', 'raw', k, '7')][i % 8]
    key = E.cat(E.char(n + 'k0', LET), E.char(n + 'k1', LET + '05_'))
    pre, post = E.choice(n + 'sp', [('', ''), (' ', ' '), ('', '  ')])
    com = ''
    if kind.endswith('+c'):
        kind = kind[:-2]
        com = E.cat('c', E.char(n + 'c', LET + ' ='), 'd')
    if kind.endswith('+v'):     # the comment repeats the value
        kind = kind[:-2]
        com = {'true': 'TRUE or FALSE', 'false': 'not FALSE', 'number': 'was 007, not .5 or 5.'}[kind]
    tail = E.cat('  // ', com) if len(com) else ''
    kv = lambda v: E.cat(key, pre, '=', post, v, tail)
    if kind == 'section':
        s = E.cat('[', _inner(E, n + 's', 3), ']')
        return _L(s, 'same', val=s)
    if kind == 'blank':
        return _L('', 'same', val='')
    if kind == 'comment':
        c = E.cat(E.char(n + 'c', LET + '= '), 'x', E.char(n + 'd', LET + '=0'))
        return _L(E.cat('//', c), 'comment', com=c)
    if kind == 'hash':
        c = E.cat(E.char(n + 'c', LET + '= '), 'x', E.char(n + 'd', LET + '=0'))
        return _L(E.cat('#', c), 'comment', com=c)
    if kind == 'tabs':
        t = E.choice(n + 't', ['12', 'TRUE', 'ab'])
        return _L(E.cat(key, E.choice(n + 'u', ['\t', ' \t', '']), '=', '\t', t, E.choice(n + 'x', ['', '\t', ' \t'])), 'string' if t == 'ab' else 'raw', key, t.replace('TRUE', 'true'), '')
    if kind == 'talker':        # keys that are talkers lose their $
        t, v = E.field(n + 'v', 3)
        return _L(E.cat('$', key, pre, '=', post, '1', t, tail), 'raw', key, E.cat('1', t), com)
    if kind == 'int':
        t, v = E.field(n + 'v', 3)
        t = E.cat(E.choice(n + 'neg', ['', '-']), '1', t)
        return _L(kv(t), 'raw', key, t, com)
    if kind == 'float':
        a, v = E.field(n + 'v', 2)
        b, w = E.field(n + 'w', 2)
        t = E.cat(E.choice(n + 'neg', ['', '-']), '1', a, '.', b)
        return _L(kv(t), 'raw', key, t, com)
    if kind == 'exp':
        t = E.cat('1.', E.char(n + 'v', '0123456789'), 'e', E.choice(n + 'w', ['-03', '5', '+2']))
        return _L(kv(t), 'raw', key, t, com)
    if kind == 'true':
        return _L(kv('TRUE'), 'raw', key, 'true', com)
    if kind == 'false':
        return _L(kv('FALSE'), 'raw', key, 'false', com)
    if kind == 'quoted':
        t = _chars(E, n + 'v', 3, LET + '05=_. ')
        return _L(kv(E.cat('"', t, '"')), 'string', key, t, com)
    if kind == 'quoted hash':
        t = E.cat(E.char(n + 'v', LET + '# '), '#', E.char(n + 'w', LET + '#= '))
        return _L(kv(E.cat('"', t, '"')), 'string', key, t, com)
    if kind == 'backslash':
        a, b, c = E.char(n + 'v', LET), E.char(n + 'w', LET + 'nt'), E.char(n + 'x', LET)
        q = E.choice(n + 'q', ['', '\\', '"', '""', '\\"'])
        return _L(kv(E.cat(a, '\\', b, q, c)), 'escaped', key, E.cat(a, '\\\\', b, q.replace('\\', '\\\\').replace('"', '\\"'), c), com)
    if kind == 'number':
        t, v = E.choice(n + 'v', [('007', 7), ('.5', .5), ('5.', 5), ('-.25', -.25), ('-07', -7), ('+5', 5), ('00.5', .5), ('1.e3', 1e3), ('.5e-2', .005), ('0', 0), ('-0', 0), ('0.0', 0), ('1E3', 1e3), ('010.50', 10.5)])
        return _L(kv(t), 'number', key, v, com)
    if kind == 'quoted url':
        t = E.cat('a', E.char(n + 'v', ':b '), '//', E.char(n + 'w', 'xyz'))
        return _L(kv(E.cat('"', t, '"')), 'string', key, t, com)
    if kind == 'quoted bool':
        t = E.cat('TRU', E.char(n + 'v', 'EFX'), E.char(n + 'w', 'x '), 'FALSE')
        return _L(kv(E.cat('"', t, '"')), 'string', key, t, com)
    if kind.startswith('text'):
        t = _inner(E, n + 'v', int(kind[4:]))
        return _L(kv(t), 'string', key, t, com)
    if kind == 'digits first':
        t = E.cat(E.char(n + 'v', '0123456789'), E.char(n + 'w', ':-/ '), E.char(n + 'x', 'abc0123'), 'm')
        return _L(kv(t), 'string', key, t, com)
    if kind == 'equals':
        t = E.cat(E.char(n + 'v', LET), E.choice(n + 'e', ['=', ' = ', '==', '=a=']), E.char(n + 'w', LET + '05'))
        return _L(kv(t), 'string', key, t, com)
    if kind == 'words':
        t = E.choice(n + 'w', ['TRUELOVE', 'TRUE FALSE', 'NOTFALSE', 'COM1,9600', 'ab.cd', '1.2.3', '10:20', '-', 'C'])
        return _L(kv(t), 'string', key, t, com)
    if kind == 'symbols':
        t = E.cat(E.char(n + 'v', LET), E.char(n + 'y', "$%&;!?@'*+|~^<>()[]{},:`"), E.char(n + 'w', LET + "05$;'"))
        return _L(kv(t), 'string', key, t, com)
    if kind == 'empty':
        return _L(kv(''), 'string', key, '', com)
    if kind == 'mixed case':     # not the spelling of a truth value
        t = E.choice(n + 'v', ['True', 'False', 'tRUE', 'TRUe', 'yes', 'T'])
        return _L(kv(t), 'string', key, t, com)
    if kind == 'junk':
        t = _inner(E, n + 'v', 4)
        return _L(t, 'same', val=t)
    raise KeyError(kind)


def _tomlnum(t):
    """numbers of TOML 1.0: no leading zeros, digits on both sides of the point"""
    import re
    return re.fullmatch(r'[+-]?(0|[1-9][0-9]*)(\.[0-9]+)?([eE][+-]?[0-9]+)?', str(t)) is not None


def _judge(E, i, L, got):
    lab = lambda s: 'line %d %s' % (i, s)
    if L.kind == 'same':
        E.eq(lab('text'), got.strip(), L.val)
        return
    if L.kind == 'comment':
        E.true(lab('is a comment'), got.startswith('#'))
        E.eq(lab('comment text'), got[1:].strip(), L.com.strip())
        return
    p = got.find('=')
    E.true(lab('has an equals sign'), p >= 0)
    if p < 0:
        return
    E.eq(lab('key'), got[:p].strip(), L.key)
    v = got[p + 1:].strip()
    if L.kind == 'escaped':             # a TOML basic string with escapes, or a literal string
        w = E.cat('"', L.val, '"')
        E.eq(lab('value'), v[:len(w)], w)
        tail = v[len(w):].strip()
    elif L.kind == 'number':
        q = v.find('#')
        t = E.text(v if q < 0 else v[:q]).strip()
        ok = _tomlnum(t)
        E.true(lab('is a TOML number'), ok)
        if ok:
            E.true(lab('value'), float(t) == L.val)
        tail = '' if q < 0 else v[q:]
    elif L.kind == 'string':
        ok = v.startswith('"')
        E.true(lab('is quoted'), ok)
        if not ok:
            return
        q = v.find('"', 1)
        E.true(lab('is closed'), q > 0)
        if q < 0:
            return
        E.eq(lab('value'), v[1:q], L.val)
        tail = v[q + 1:].strip()
    else:
        q = v.find('#')
        E.eq(lab('value'), v if q < 0 else v[:q].strip(), L.val)
        tail = '' if q < 0 else v[q:]
    if len(L.com):
        E.true(lab('keeps its comment'), tail.startswith('#'))
        E.eq(lab('comment text'), tail[1:].strip(), L.com)
    else:
        E.true(lab('nothing after the value'), len(tail) == 0)


def _u03(*kinds, name='meter.ini', end='\n'):
    def case(E):
        ls = [_line(E, k, i) for i, k in enumerate(kinds)]
        parts = []
        for i, L in enumerate(ls):
            parts += [L.text, '\n' if i < len(ls) - 1 else end]
        text = E.cat(*parts)
        path = E.file(name, text)
        before = E.read(path)
        out = E.mod('utils').clean_ini_to_toml(path)
        E.true('output path', str(out) == path[:-3] + 'toml')
        E.eq('input unchanged', E.read(path), before)
        E.true('files', E.files() == sorted([name, name[:-3] + 'toml']))
        got = E.read(path[:-3] + 'toml').split('\n')
        while len(got) > len(ls) and len(got[-1].strip()) == 0:
            got.pop()
        while len(got) < len(ls) and ls[len(got)].kind == 'same' and len(ls[len(got)].val) == 0:
            got.append('')
        E.true('number of lines', len(got) == len(ls))
        if len(got) == len(ls):
            for i, L in enumerate(ls):
                _judge(E, i, L, got[i])
    return case


def U03(th):
    kinds = ['section', 'comment', 'hash', 'int', 'float', 'exp', 'true', 'false', 'quoted', 'quoted url', 'quoted bool', 'text1', 'text2', 'text3', 'text4',
             'quoted hash', 'quoted hash+c', 'backslash', 'backslash+c', 'number', 'number+c', 'digits first', 'equals', 'words', 'tabs', 'talker', 'talker+c', 'true+v', 'false+v', 'number+v', 'int+c', 'float+c', 'true+c', 'false+c', 'quoted+c', 'text2+c', 'equals+c',
             'symbols', 'symbols+c', 'empty', 'empty+c', 'mixed case']
    if th:
        kinds += ['text6', 'text8', 'text5+c', 'words+c', 'exp+c', 'quoted url+c']
    cs = [Case('one line: ' + k, _u03(k), 'one line of this kind, all characters') for k in kinds]
    cs += [Case('file: ' + ' / '.join(f), _u03(*f), '%d lines' % len(f)) for f in [
        ('section', 'int', 'text2'), ('text2', 'blank', 'true'), ('comment', 'section', 'float+c'), ('junk', 'int'), ('text1', 'junk', 'quoted'), ('equals', 'text1', 'section'),
        ('quoted', 'int', 'text1'), ('quoted url', 'quoted hash', 'junk'), ('number', 'talker'), ('tabs', 'exp'), ('text2+c', 'text1'), ('false', 'comment', 'words')]]
    cs += [Case('CRLF: ' + ' / '.join(f), _crlf(_u03(*f)), '%d lines ended by CR LF' % len(f)) for f in [('section', 'int', 'text2+c'), ('true', 'quoted', 'junk'), ('blank', 'comment', 'symbols')]]
    return cs + [Case('long file', _u03(*(['fixed'] * 75 + ['text2'] + ['fixed'] * 24)), '100 lines, one symbolic'), Case('no newline at the end', _u03('text2', 'int', end=''), '2 lines'),
                 Case('empty value', _u03_empty, 'key without a value'),
                 Case('file names', _u03_names, '6 names')]


def _u03_names(E):
    n = E.choice('name', ['mini.ini', 'i.ini', 'ini.ini', 'a.b.ini', 'nini.ini', 'x_ini.ini'])
    return _u03('text1', name=n)(E)


def _u03_empty(E):
    path = E.file('m.ini', E.cat('ab', E.choice('sp', ['=', ' = ', ' ='] ), '\nk=1\n'))
    E.mod('utils').clean_ini_to_toml(path)
    got = E.read(path[:-3] + 'toml').split('\n')
    p = got[0].find('=')
    E.eq('key', got[0][:p].strip(), 'ab')
    E.eq('value', got[0][p + 1:].strip(), '""')
    E.eq('next line', got[1].strip(), 'k=1')


# ------------------------------------------------------------------ U04
class _Art:
    """stand-in for the matplotlib objects that the cursor draws on"""

    def __init__(self, xs=None, ys=None):
        self.xs, self.ys, self.vis, self.props = xs, ys, True, {}
        self.figure = self.canvas = self

    def get_xlim(self):
        return (0.0, 1.0)
    get_ylim = get_xlim

    def axhline(self, y=0.0, **k):
        return _Art().init(ydata=[y, y])

    def axvline(self, x=0.0, **k):
        return _Art().init(xdata=[x, x])

    def plot(self, x, y, *a, **k):
        return [_Art().init(xdata=x, ydata=y)]

    def init(self, **p):
        self.props.update(p)
        return self

    def get_data(self):
        return self.xs, self.ys

    def get_visible(self):
        return self.vis

    def set_visible(self, v):
        self.vis = v

    def update(self, d):
        for k, v in d.items():
            getattr(self, 'set_' + k, lambda v, k=k: self.props.__setitem__(k, v))(v)

    def set(self, **d):
        self.update(d)

    def draw(self):
        pass
    draw_idle = draw

    def set_data(self, *a):
        x, y = a if len(a) == 2 else a[0]
        self.props.update(xdata=x, ydata=y)

    def set_xdata(self, x):
        self.props['xdata'] = x

    def set_ydata(self, y):
        self.props['ydata'] = y


class _Ev:
    def __init__(self, ax, button, x):
        self.inaxes, self.button, self.xdata, self.ydata = ax, button, x, 0.5


def _cursor(E, n, index=None, ys=None, dot=None):
    t = []
    for i in range(n):
        t.append(E.real('t%d' % i, 0, 1e4))
        if i:
            E.assume(t[i] > t[i - 1] + 1e-3)
    lon, lat = E.reals('lon', n, -180, 180), E.reals('lat', n, -90, 90)
    k = {} if index is None else {'index': index}
    df = E.pd.DataFrame({'tsec': E.array(t), 'lon_new': E.array(lon), 'lat_new': E.array(lat)}, **k)
    ax = _Art()
    c = E.mod('utils')._SnappingCursor(ax, _Art(), _Art(E.array(t), E.array(lat if ys is None else ys)), dot or _Art(), df)
    return c, ax, t, lon, lat


def _u04(n, steps, acts, index=None):
    def case(E):
        c, ax, t, lon, lat = _cursor(E, n, index)
        picks = []
        for s in range(steps):
            a = E.choice('a%d' % s, acts)
            if a == 'left':
                x = E.real('x%d' % s, -100, 1.1e4)
                c.on_mouse_click(_Ev(ax, 1, x))
                picks.append(x)
            elif a == 'right':
                c.on_mouse_click(_Ev(ax, 3, E.real('x%d' % s, -100, 1.1e4)))
                if picks:
                    picks.pop()
            elif a == 'middle':
                c.on_mouse_click(_Ev(ax, 2, 5.0))
            elif a == 'move':
                c.on_mouse_move(_Ev(ax, None, E.real('x%d' % s, -100, 1.1e4)))
            else:
                c.on_mouse_move(_Ev(None, None, None))
            ok = len(c.i_seg) == len(c.x_seg) == len(c.y_seg) == len(picks)
            E.true('lengths %d' % s, ok)
            if not ok:
                return
        for p, x in enumerate(picks):
            i = int(c.i_seg[p])
            E.true('index %d' % p, 0 <= i < n)
            for j in range(n):
                E.true('nearest %d %d' % (p, j), abs(x - t[i]) <= abs(x - t[j]) + 1e-9)
            E.close('longitude %d' % p, c.x_seg[p], lon[i], tol=0.0)
            E.close('latitude %d' % p, c.y_seg[p], lat[i], tol=0.0)
    return case


def U04(th):
    cs = [Case('clicks, %d samples' % n, _u04(n, 4 if n < 3 else 3, ('left', 'right')), '%d samples, all click sequences' % n) for n in (1, 2, 3)]
    cs += [Case('picks', _u04(3, 3, ('left',)), '3 samples, 3 picks'),
           Case('four clicks', _u04(2, 4, ('left', 'right')), '2 samples, 4 clicks'),
           Case('clicks and moves', _u04(2, 3, ('left', 'right', 'move', 'out', 'middle')), '2 samples, 3 events'),
           Case('long session', _u04_long(240, 40), '240 samples, 48 fixed picks and undos, two symbolic events'),
           Case('undo all', _u04_undo, '3 samples, 2 picks, 3 undos, 1 pick'),
           Case('cut table', _u04(3, 2, ('left', 'right'), [5, 9, 4]), '3 samples with other row labels')]
    if th:
        cs += [Case('long sequences', _u04(2, 6, ('left', 'right')), '2 samples, 6 clicks'), Case('four samples', _u04(4, 4, ('left', 'right')), '4 samples, 4 clicks')]
    return cs


def _u04_undo(E):
    c, ax, t, lon, lat = _cursor(E, 3)
    x = E.reals('x', 3, -100, 1.1e4)
    for k in (0, 1):
        c.on_mouse_click(_Ev(ax, 1, x[k]))
    for k in range(3):
        c.on_mouse_click(_Ev(ax, 3, x[0]))
    E.true('empty', len(c.i_seg) == len(c.x_seg) == len(c.y_seg) == 0)
    c.on_mouse_click(_Ev(ax, 1, x[2]))
    E.true('one', len(c.i_seg) == len(c.x_seg) == len(c.y_seg) == 1)
    i = int(c.i_seg[0])
    for j in range(3):
        E.true('nearest %d' % j, abs(x[2] - t[i]) <= abs(x[2] - t[j]) + 1e-9)
    E.close('longitude', c.x_seg[0], lon[i], tol=0.0)
    E.close('latitude', c.y_seg[0], lat[i], tol=0.0)


def _u04_long(n, m):
    """a long session: n samples (UNIX seconds), m fixed picks and undos around two symbolic picks"""
    def case(E):
        t = [1330000000.0 + 60.0 * i + (i % 4) for i in range(n)]
        lon, lat = [-150.0 + i / 64 for i in range(n)], [-40.0 + (i * 37 % n) / 32 for i in range(n)]
        df = E.pd.DataFrame({'tsec': E.array(t), 'lon_new': E.array(lon), 'lat_new': E.array(lat)})
        ax, m0 = _Art(), n // 2
        c = E.mod('utils')._SnappingCursor(ax, _Art(), _Art(E.array(t), E.array(lat)), _Art(), df)
        picks = []

        def click(i):
            c.on_mouse_click(_Ev(ax, 1, t[i] + 11.0))
            picks.append(i)
        for k in range(m):
            click(k * 53 % n)
            c.on_mouse_move(_Ev(ax, None, t[k * 31 % n] - 7.0))
            if k % 5 == 4:
                c.on_mouse_click(_Ev(ax, 3, t[0]))
                picks.pop()
        x = E.real('x', t[m0] - 20, t[m0 + 3] + 20)
        c.on_mouse_click(_Ev(ax, 1, x))
        click(n - 1)
        c.on_mouse_move(_Ev(ax, None, E.real('y', t[m0] - 20, t[m0 + 2] + 20)))
        c.on_mouse_click(_Ev(ax, 3, t[0]))
        picks[-1:] = ['x']
        ok = len(c.i_seg) == len(c.x_seg) == len(c.y_seg) == len(picks)
        E.true('number of picks', ok)
        if not ok:
            return
        for p, i in enumerate(picks):
            if i == 'x':
                i = int(c.i_seg[p])
                E.true('in range', m0 <= i <= m0 + 3)
                for j in range(m0, m0 + 4):
                    E.true('nearest %d' % j, abs(x - t[i]) <= abs(x - t[j]) + 1e-6)
            else:
                E.eq('index %d' % p, int(c.i_seg[p]), i)
            E.close('longitude %d' % p, c.x_seg[p], lon[i], tol=0.0)
            E.close('latitude %d' % p, c.y_seg[p], lat[i], tol=0.0)
    return case


# ------------------------------------------------------------------ U05
def _u05_long(n, m):
    def case(E):
        t = [1330000000.0 + 60.0 * i + (i % 4) for i in range(n)]
        lon, lat = [-150.0 + i / 64 for i in range(n)], [-40.0 + (i * 37 % n) / 32 for i in range(n)]
        ys = [(i * 91 % n) / 4 for i in range(n)]
        dot = _Art().init(xdata=[0.0], ydata=[0.0])
        df = E.pd.DataFrame({'tsec': E.array(t), 'lon_new': E.array(lon), 'lat_new': E.array(lat)})
        ax, hor, ver, m0 = _Art(), [], [], n // 2
        h, v = ax.axhline, ax.axvline
        ax.axhline = lambda *a, **k: hor.append(h(*a, **k)) or hor[-1]
        ax.axvline = lambda *a, **k: ver.append(v(*a, **k)) or ver[-1]
        c = E.mod('utils')._SnappingCursor(ax, _Art(), _Art(E.array(t), E.array(ys)), dot, df)
        E.true('one cross hair', len(hor) == len(ver) == 1)

        def shown():
            q = (ver[0].props['xdata'], hor[0].props['ydata'], dot.props['xdata'], dot.props['ydata'])
            return [k[0] if hasattr(k, '__len__') else k for k in q]
        for k in range(m):
            i = k * 53 % 17 * 13            # comes back to the samples, also after picks
            c.on_mouse_move(_Ev(ax, None, t[i] - 13.0))
            E.true('at the sample %d' % k, all(a == b for a, b in zip(shown(), (t[i], ys[i], lon[i], lat[i]))))
            if k % 5 == 3:
                c.on_mouse_click(_Ev(ax, 1 if k % 4 else 3, t[k * 31 % n] + 7.0))
                E.true('not moved by a click %d' % k, all(a == b for a, b in zip(shown(), (t[i], ys[i], lon[i], lat[i]))))
            if k % 6 == 5:
                c.on_mouse_move(_Ev(None, None, None))
                E.true('hidden %d' % k, not hor[0].vis and not ver[0].vis)
        x = E.real('x', t[m0] - 20, t[m0 + 3] + 20)
        c.on_mouse_move(_Ev(ax, None, x))
        E.true('visible', hor[0].vis and ver[0].vis)
        q = shown()
        E.true('nearest', E.Or(*[E.And(*[abs(x - t[i]) <= abs(x - t[j]) + 1e-6 for j in range(m0, m0 + 4)],
                                       q[0] == t[i], q[1] == ys[i], q[2] == lon[i], q[3] == lat[i]) for i in range(m0, m0 + 4)]))
    return case


def _u05(n, steps, acts=('move', 'out', 'left'), index=None):
    def case(E):
        ys, dot = E.reals('y', n, -500, 500), _Art().init(xdata=[0.0], ydata=[0.0])
        hor, ver = [], []

        def spy(ax):
            h, v = ax.axhline, ax.axvline
            ax.axhline = lambda *a, **k: hor.append(h(*a, **k)) or hor[-1]
            ax.axvline = lambda *a, **k: ver.append(v(*a, **k)) or ver[-1]
            return ax
        t = []
        for i in range(n):
            t.append(E.real('t%d' % i, 0, 1e4))
            if i:
                E.assume(t[i] > t[i - 1] + 1e-3)
        lon, lat = E.reals('lon', n, -180, 180), E.reals('lat', n, -90, 90)
        df = E.pd.DataFrame({'tsec': E.array(t), 'lon_new': E.array(lon), 'lat_new': E.array(lat)}, **({} if index is None else {'index': index}))
        ax, marks = spy(_Art()), []
        ax2 = _Art()
        pl = ax2.plot
        ax2.plot = lambda *a, **k: marks.append(pl(*a, **k)) or marks[-1]
        c = E.mod('utils')._SnappingCursor(ax, ax2, _Art(E.array(t), E.array(ys)), dot, df)
        E.true('one cross hair', len(hor) == len(ver) == 1)
        picks, at = [], None
        script = E.choice('script', steps) if isinstance(steps, list) else None
        for s in range(len(script) if script else steps):
            a = {'m': 'move', 'o': 'out', 'l': 'left', 'r': 'right'}[script[s]] if script else E.choice('a%d' % s, acts)
            if a == 'move':
                at = E.real('x%d' % s, -100, 1.1e4)
                c.on_mouse_move(_Ev(ax, None, at))
                E.true('visible %d' % s, hor[0].vis and ver[0].vis)
            elif a == 'out':
                c.on_mouse_move(_Ev(None, None, None))
                E.true('hidden %d' % s, not hor[0].vis and not ver[0].vis)
            else:
                c.on_mouse_click(_Ev(ax, 1 if a == 'left' else 3, E.real('x%d' % s, -100, 1.1e4)))
            if at is not None:
                vx, hy, dx, dy = ver[0].props['xdata'], hor[0].props['ydata'], dot.props['xdata'], dot.props['ydata']
                one = [v[0] if hasattr(v, '__len__') else v for v in (vx, hy, dx, dy)]
                near = [E.And(*[abs(at - t[i]) <= abs(at - t[j]) + 1e-9 for j in range(n)]) for i in range(n)]
                E.true('cross hair and marker at the nearest sample %d' % s,
                       E.Or(*[E.And(near[i], one[0] == t[i], one[1] == ys[i], one[2] == lon[i], one[3] == lat[i]) for i in range(n)]))
            E.true('one set of marks', len(marks) == 1)
            m = marks[0][0].props
            ok = len(m['xdata']) == len(m['ydata']) == len(c.x_seg)
            E.true('number of marks %d' % s, ok)
            for p in range(len(c.x_seg) if ok else 0):
                E.close('mark %d at the pick %d (longitude)' % (p, s), m['xdata'][p], c.x_seg[p], tol=0.0)
                E.close('mark %d at the pick %d (latitude)' % (p, s), m['ydata'][p], c.y_seg[p], tol=0.0)
    return case


def U05(th):
    cs = [Case('moves, %d samples' % n, _u05(n, 2, ('move', 'out')), '%d samples, 2 mouse events' % n) for n in (1, 2, 3)]
    cs += [Case('moves and clicks', _u05(2, 3, ('move', 'left', 'right')), '2 samples, 3 events'), Case('picks', _u05(2, 3, ('left', 'right')), '2 samples, 3 clicks'), Case('back and forth', _u05(2, 3, ('move', 'out')), '2 samples, 3 moves'),
           Case('long session', _u05_long(240, 40), '240 samples, 54 fixed events, one symbolic move'),
           Case('longer sequences', _u05(2, ['llmm', 'mlom'], ()), '2 samples, 2 sequences of 4 events'),
           Case('cut table', _u05(3, 1, ('move',), [5, 9, 4]), '3 samples with other row labels')]
    if th:
        cs += [Case('four samples', _u05(4, 2, ('move', 'out', 'left')), '4 samples, 2 events'), Case('other sequences', _u05(2, ['llrmm', 'lmlmm', 'momlr'], ()), '2 samples, 3 sequences of 5 events', max_paths=20000, budget=900), Case('five events', _u05(2, 5, ('move', 'out', 'left')), '2 samples, 5 events')]
    return cs
