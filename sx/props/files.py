import contextlib
import io as textio

from ..run import Case

SHIPS = {'Atlantis': 'GPGGA', 'Thompson': 'INGGA', 'NBP': 'GPGGA', 'Ride': 'INGGA', 'Revelle': 'GPGGA', 'Langseth': 'INGGA', 'Sikuliaq': 'GPGGA'}
LONGNAV = 400
TAIL = ',2,12,0.9,25.169,M,-30.062,M,4.0,0402*46\n'
FORMATS = [('Atlantis', None), ('Thompson', None), ('NBP', None), ('Ride', None), ('Ride', 'GPGGA'), ('Revelle', None), ('Langseth', None), ('Sikuliaq', None)]


def _crlf(case):
    """the same case with lines ended by carriage return and newline"""
    def g(E):
        orig = E.file
        E.file = lambda name, text: orig(name, text.replace('\n', '\r\n'))
        case(E)
    return g


# ------------------------------------------------------------------ navigation
class _When:
    """texts of one UTC instant; 2022-07-01 is day 182"""

    def __init__(self, k=0, **t):
        self.y, self.mo, self.d, self.doy = '2022', '07', '01', '182'
        self.h, self.mi, self.s, self.f = '12', '17', str(30 + k), '.25'
        self.posix = '16566778%d.25' % (50 + k)
        self.us = (1656677850 + k) * 1000000 + 250000
        self.__dict__.update(t)

    def log(self, E):
        """the logger's own clock when the sentence arrived"""
        return self.lc if 'lc' in self.__dict__ else E.cat(self.h, ':', self.mi, ':', self.s)

    def clock(self, E):
        return E.cat(self.h, self.mi, self.s, self.f)

    def logger(self, E, f='.537'):
        return E.cat(self.h, ':', self.mi, ':', self.s, f)


def _prefix(E, ship, talker, w):
    """what the logger writes before $TALKER"""
    if ship == 'Atlantis':
        return E.cat('NAV ', w.y, '/', w.mo, '/', w.d, ' ', w.log(E), '.537 GPS ')
    if ship == 'Thompson':
        return E.cat(w.mo, '/', w.d, '/', w.y, ',', w.log(E), '.105,')
    if ship == 'NBP':
        return E.cat(w.y[2:], '+', w.doy, ':', w.log(E), '.996 ')
    if ship == 'Revelle':
        return E.cat(w.y, '-', w.mo, '-', w.d, 'T', w.log(E), '.002010Z $GPZDA,231144.00,03,04,1999,,*61\n')
    if ship == 'Langseth':
        return E.cat('seapath\t', w.y, ':', w.doy, ':', w.h, ':', w.mi, ':', w.s, w.f, '\t')
    if ship == 'Ride' and talker == 'INGGA':
        return E.cat(w.posix, ' ')
    return E.cat(w.y, '-', w.mo, '-', w.d, 'T', w.h, ':', w.mi, ':', w.s, w.f, 'Z ')


def _line(E, ship, talker, w, pos, clock=None):
    lat, ns, lon, ew = pos
    return E.cat(_prefix(E, ship, talker, w), '$', talker, ',', w.clock(E) if clock is None else clock, ',', lat, ',', ns, ',', lon, ',', ew, TAIL)


def _foreign(E, ship, talker, w, n=0):
    """sentences of other talkers; they carry other coordinates and times"""
    pre = '' if ship == 'Revelle' else _prefix(E, ship, talker, w)
    body = ['$GPRMC,010203.00,A,7520.156405,S,17945.635852,W,5.2,5.71,130123,,,A*6C\n', '$GPVTG,218.7,T,,M,0.01,N,0.02,K,D*07\n',
            '$PSXN,23,-0.67,0.42,4.62,0.10*13\n'][n % 3]
    return E.cat(pre, body)


def _coord(E, name, w, k, lim):
    d, dv = E.field(name + 'd', w, 0, lim)
    m, mv = E.field(name + 'm', 2, 0, 59)
    if not k:
        return E.cat(d, m), dv + mv / 60
    f, fv = E.field(name + 'f', k)
    return E.cat(d, m, '.', f), dv + (mv + fv / 10 ** k) / 60


def _pos(E, i, k=3, ns=None, ew=None):
    lat, la = _coord(E, 'lat%d' % i, 2, k, 89)
    lon, lo = _coord(E, 'lon%d' % i, 3, k, 179)
    ns = ns or E.choice('ns%d' % i, 'NS')
    ew = ew or E.choice('ew%d' % i, 'EW')
    return (lat, ns, lon, ew), (la if ns == 'N' else -la), (lo if ew == 'E' else -lo)


class _Quiet:
    """the reading functions of io; lists of more than two files are read with the progress bar (on a stderr that is thrown away)"""

    def __init__(self, io):
        self._io = io

    def __getattr__(self, name):
        def call(*a, **k):
            paths = a[1] if name == 'read_nav' else a[0]
            with contextlib.redirect_stderr(textio.StringIO()):
                return getattr(self._io, name)(*a, **k) if isinstance(paths, list) and len(paths) > 2 else getattr(self._io, name)(*a, progressbar=False, **k)
        return call


def _nav(E, ship, paths, talker=None, **k):
    return _Quiet(E.mod('io')).read_nav(ship, paths, talker=talker, **k)


def _near(E, a, b):
    E.assume(a - b < 0.99)
    E.assume(b - a < 0.99)


def _row(E, nav, i, la, lo, at=''):
    E.close('latitude %s%d' % (at, i), nav['lat'].values[i], la, tol=1e-9)
    E.close('longitude %s%d' % (at, i), nav['lon'].values[i], lo, tol=1e-9)


def _n01(ship, talker, n, k=3, foreign=(), space=False, empty=None):
    def case(E):
        t = talker or SHIPS[ship]
        lines, want = [], []
        for i in range(n):
            w = _When(i)
            for q in foreign:
                lines.append(_foreign(E, ship, t, w, q))
            if empty is not None and i == empty[0]:
                a, b = E.choice('gone', empty[1])
                p, la, lo = _pos(E, i, k, 'N', 'E')
                h = E.choice('letters', [0, 1])             # the hemisphere letters may still be there
                p = ('' if a else p[0], '' if a and not h else 'N', '' if b else p[2], '' if b and not h else 'E')
                la = lo = None
            else:
                p, la, lo = _pos(E, i, k)
                if i and want[-1][1] is not None:
                    _near(E, lo, want[-1][1])
                elif i > 1 and want[-2][1] is not None:
                    _near(E, lo, want[-2][1])
            lines.append(_line(E, ship, t, w, p))
            want.append((la, lo))
        if foreign:
            lines.append(_foreign(E, ship, t, _When(9), 1))
        text = E.cat(*lines)
        nav = _nav(E, ship, E.file('a.gps', text), talker)
        E.true('rows', len(nav) == n)
        for i, (la, lo) in enumerate(want):
            if la is None:
                E.true('no latitude %d' % i, E.isnan(nav['lat'].values[i]))
                E.true('no longitude %d' % i, E.isnan(nav['lon'].values[i]))
            else:
                _row(E, nav, i, la, lo)
    return case


def _when_k(k):
    """fixed instants, 1 s apart from 2022-07-01 12:17:30.25"""
    t = 12 * 3600 + 17 * 60 + 30 + k
    return _When(0, h='%02d' % (t // 3600), mi='%02d' % (t // 60 % 60), s='%02d' % (t % 60), posix='%d.25' % (1656677850 + k), us=(1656677850 + k) * 1000000 + 250000)


def _long_nav(ship, talker, n, free, clocks=False, head=0):
    """n fixes and a foreign line after every seventh; the positions (or the clocks) of `free` are symbolic"""
    def case(E):
        t = talker or SHIPS[ship]
        lines, want, us = [_foreign(E, ship, t, _when_k(0), q) for q in range(head)], [], []
        for i in range(n):
            w = _when_k(i)
            if clocks and i in free:
                f, fv = E.field('f%d' % i, 2)
                w.f, w.us = E.cat('.', f), w.us - 250000 + fv * 10000
                w.posix = E.cat(w.posix[:-2], f)
            us.append(w.us - w.us % 1000000 if ship == 'Thompson' else w.us)
            if not clocks and i in free:
                p, la, lo = _pos(E, i, 2, 'N', 'E')
                E.assume(E.And(lo >= 70.1, lo <= 70.6))
            else:
                m = 600 + i                     # hundredths of minutes
                p, la, lo = ('41%02d.%02d' % (m // 100, m % 100), 'N', '070%02d.%02d' % (m // 100 + 5, m % 100), 'E'), 41 + m / 6000, 70 + (m + 500) / 6000
            lines.append(_line(E, ship, t, w, p))
            want.append((la, lo))
            if i % 7 == 3:
                lines.append(_foreign(E, ship, t, w, i))
        nav = _nav(E, ship, E.file('a.gps', E.cat(*lines)), talker)
        E.true('rows', len(nav) == n)
        for i in range(n):
            if clocks:
                E.close('posix %d' % i, nav['time_sec'].values[i], us[i] / 1000000, tol=2e-6)
                if i in free or i in (0, n - 1):
                    E.instant('stamp %d' % i, nav['stamps'].iloc[i], us[i], tol=1)
            else:
                _row(E, nav, i, *want[i])
    return case


def _name(ship, talker):
    return ship + (' ' + talker if talker else '')


def N01(th):
    cs = []
    for s, t in FORMATS:
        cs.append(Case('%s: one fix' % _name(s, t), _n01(s, t, 1, 6 if th else 4, (0,)), 'one fix, foreign lines around it, all digits'))
        cs.append(Case('%s: two fixes' % _name(s, t), _n01(s, t, 2, 2, (1, 0, 2)), 'two fixes, foreign lines between'))
        cs.append(Case('%s: empty position' % _name(s, t), _n01(s, t, 2, 2, (0,), empty=(0, [(1, 1), (1, 0), (0, 1)])), 'two fixes, coordinate fields of the first empty'))
        cs.append(Case('%s: long file' % _name(s, t), _long_nav(s, t, LONGNAV, (250, 333, LONGNAV - 1)), '%d fixes, positions of 3 symbolic' % LONGNAV))
        cs.append(Case('%s: late first fix' % _name(s, t), _long_nav(s, t, 3, (0, 2), head=1100), '3 fixes after 1100 sentences of other talkers'))
        cs.append(Case('%s: CRLF' % _name(s, t), _crlf(_n01(s, t, 2, 2, (1, 0))), 'two fixes, foreign lines between, lines ended by CR LF'))
    for s in ('Atlantis', 'Langseth'):
        cs.append(Case('%s: dropout in the middle' % s, _n01(s, None, 3, 1, (), empty=(1, [(1, 1)])), 'three fixes, the second without position'))
        cs.append(Case('%s: dropout at the end' % s, _n01(s, None, 2, 1, (), empty=(1, [(1, 1)])), 'two fixes, the second without position'))
        for k in (0, 1, 3, 5):
            cs.append(Case('%s: %d decimals' % (s, k), _n01(s, None, 1, k), 'one fix, minutes with %d decimals' % k))
    if th:
        for s, t in FORMATS:
            cs.append(Case('%s: three fixes' % _name(s, t), _n01(s, t, 3, 3, (2, 1)), 'three fixes'))
    return cs


_CUM = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]


def _when(E, i, ship, talker, k, fk=None, lag=False, y0=1980):
    """a symbolic instant: texts in the layouts of the loggers, microseconds since 1970"""
    y, yv = E.field('y%d' % i, 4, 2000 if ship == 'NBP' else y0, 2099 if ship == 'NBP' else 2199)
    h, hv = E.field('h%d' % i, 2, 0, 23)
    mi, mv = E.field('n%d' % i, 2, 0, 59)
    s, sv = E.field('s%d' % i, 2, 0, 59)
    f, fus = '', 0
    if k:
        t, fv = E.field('f%d' % i, k)
        f, fus = E.cat('.', t), (fv * 10 ** (6 - k) if k <= 6 else fv / 10 ** (k - 6))
    elif fk == '.':
        f = '.'
    mo = d = doy = ''
    if ship in ('NBP', 'Langseth'):
        doy, dv = E.field('j%d' % i, 3, 1, 366)
        E.assume(E.Or(dv <= 365, E.leap(yv)))
        day = E.days(yv, 1, 1) + dv - 1
    else:
        mo, mov = E.field('m%d' % i, 2, 1, 12)
        d, dv = E.field('d%d' % i, 2, 1, 31)
        E.assume(E.validdate(yv, mov, dv))
        day = E.days(yv, mov, dv)
    w = _When(0, y=y, mo=mo, d=d, doy=doy, h=h, mi=mi, s=s, f=f)
    if lag:
        # the logger's clock is up to three hours off; the date is the logger's
        (lh, lhv), (lm, lmv), (ls, lsv) = E.field('lh%d' % i, 2, 0, 23), E.field('lm%d' % i, 2, 0, 59), E.field('ls%d' % i, 2, 0, 59)
        w.lc = E.cat(lh, ':', lm, ':', ls)
        off = E.choice('off%d' % i, [0, 1, -1])
        drift = off * 86400 + (hv - lhv) * 3600 + (mv - lmv) * 60 + (sv - lsv)
        E.assume(drift <= 10800)
        E.assume(drift >= -10800)
        day = day + off
    us = ((day * 24 + hv) * 60 + mv) * 60000000 + sv * 1000000
    if ship == 'Thompson':
        fus = 0
    w.us = us + fus
    return w


def _n02revelle(between, dates=1, k=1, note=None):
    """date lines of the logger, `between` other sentences, the fix: the nearest date line counts"""
    def case(E):
        ws, lines = [], []
        for i in range(2):
            w = _when(E, i, 'Revelle', 'GPGGA', k)
            if ws:
                E.assume(w.us >= ws[-1].us + 1000)
                E.assume(w.us <= ws[-1].us + 86400000000)
            ws.append(w)
            for q in range(dates):
                # an older date line, then the one that belongs to the fix
                lines.append('2001-01-03T11:02:03.400000Z $GPZDA,110203.40,03,01,2001,,*61\n' if q < dates - 1 else _prefix(E, 'Revelle', 'GPGGA', w))
            for q in range(between):
                lines.append(note or ['$GPVTG,200.16,T,,M,11.0,N,20.4,K,D*3B\n', '$PSXN,20,0,0,0,0*3B\n', '$GPHDT,200.59,T*0B\n'][q % 3])
            lines.append(E.cat('$GPGGA,', w.h, w.mi, w.s, w.f, ',4131.40,N,07040.31,W', TAIL))
        nav = _nav(E, 'Revelle', E.file('a.gps', E.cat(*lines)))
        E.true('rows', len(nav) == 2)
        for i, w in enumerate(ws):
            E.instant('stamp %d' % i, nav['stamps'].iloc[i], w.us, tol=1)
    return case


def _n02(ship, talker, k, n=1, foreign=(), fk=None, zone=False, lag=False):
    def case(E):
        if zone:
            E.localtz(E.int('zone', -720, 840))
        t = talker or SHIPS[ship]
        lines, ws = [], []
        for i in range(n):
            if ship == 'Ride' and t == 'INGGA':
                a, av = E.field('p%d' % i, 10, 10 ** 9, 3 * 10 ** 9)
                f, fv = E.field('q%d' % i, k) if k else ('', 0)
                w = _When(0, posix=E.cat(a, '.', f) if k else a, us=av * 1000000 + (fv * 10 ** (6 - k) if k else 0))
            else:
                w = _when(E, i, ship, t, k, fk, lag and (lag == 'all' or i == n - 1))
            if ws:
                E.assume(w.us >= ws[-1].us + 1000)
                E.assume(w.us <= ws[-1].us + 86400000000)
            ws.append(w)
            for q in foreign:
                lines.append(_foreign(E, ship, t, w, q))
            clock = '010203.45' if ship in ('Langseth', 'Sikuliaq', 'Ride') else None
            lines.append(_line(E, ship, t, w, ('4131.40', 'N', '07040.31', 'W'), clock))
        nav = _nav(E, ship, E.file('a.gps', E.cat(*lines)), talker)
        E.true('rows', len(nav) == n)
        for i, w in enumerate(ws):
            E.instant('stamp %d' % i, nav['stamps'].iloc[i], w.us, tol=1)
            E.true('zone %d' % i, E.aware(nav['stamps'].iloc[i]))
            E.close('posix %d' % i, nav['time_sec'].values[i], w.us / 1000000, tol=2e-6)
            _row(E, nav, i, 41 + 31.4 / 60, -70 - 40.31 / 60)
    return case


def N02(th):
    cs = []
    for s, t in FORMATS:
        low = 1 if s in ('Langseth', 'Sikuliaq') or t else 0
        for k in range(low, 7):
            cs.append(Case('%s: %d decimals' % (_name(s, t), k), _n02(s, t, k), 'one fix, %d fraction digits, all dates and clocks' % k))
        cs.append(Case('%s: two fixes' % _name(s, t), _n02(s, t, 2, 2, (0,)), 'two fixes with other sentences before each'))
        cs.append(Case('%s: long file' % _name(s, t), _long_nav(s, t, LONGNAV, (250, 333, LONGNAV - 1), True), '%d fixes, fractions of seconds of 3 symbolic' % LONGNAV))
        cs.append(Case('%s: any machine' % _name(s, t), _n02(s, t, 2, zone=True), 'one fix, every fixed offset of the machine time zone (-12 h to +14 h)'))
        if th:
            cs.append(Case('%s: three fixes' % _name(s, t), _n02(s, t, 3, 3), 'three fixes'))
    for k in (7, 9):
        cs.append(Case('Ride GPGGA: %d decimals' % k, _n02('Ride', 'GPGGA', k), 'one fix, %d fraction digits' % k))
    for s in ('Atlantis', 'Thompson', 'NBP', 'Revelle'):
        for k in (7, 9):
            cs.append(Case('%s: %d decimals' % (s, k), _n02(s, None, k), 'one fix, %d fraction digits' % k))
        cs.append(Case('%s: midnight' % s, _n02(s, None, 1, 1, lag=True), 'one fix; the logger clock is up to 3 hours ahead or behind, also over midnight'))
        if th:
            cs.append(Case('%s: midnight, two fixes' % s, _n02(s, None, 1, 2, lag='all'), 'two fixes; the logger clock is up to 3 hours ahead or behind, also over midnight', query_s=60))
        if s == 'Revelle':
            cs.append(Case('Revelle: dates inside other lines', _n02revelle(2, note='$PLOGR,rebooted,2001-01-03T11:02:03.400000Z,1*61\n'), 'two fixes, each after a date line and two sentences that mention another date'))
            for b, d in ((0, 1), (1, 1), (3, 1), (60, 1), (0, 2), (1, 2), (2, 3)):
                cs.append(Case('%s: %d date lines, %d other lines' % (s, d, b), _n02revelle(b, d), 'two fixes, each after date lines and other sentences'))
        cs.append(Case('%s: bare point' % s, _n02(s, None, 0, fk='.'), 'clock that ends in a decimal point'))
    return cs


def _reader(E, tracks, calls=None):
    """user-supplied read function: file k gives track k = [(microseconds, lon, lat)]"""
    def read(lines, talker):
        if calls is not None:
            calls.append((len(lines), E.text(lines[0]).strip(), talker))
        k = int(E.text(lines[0]).strip())
        tr = tracks[k]
        ts = [E.datetime(2022, 7, 1, tzinfo=E.tz(0)) + E.delta(t) for t, _, _ in tr]
        a = E.np.empty(len(ts), dtype=object)
        for i in range(len(ts)):
            a[i] = ts[i]
        return E.array([x for _, x, _ in tr]), E.array([y for _, _, y in tr]), a
    return read


BASE = 1656633600


def _n03(sizes, deci=0, order=None, frac=False, lonspan=0.45):
    def case(E):
        tracks = []
        for f, n in enumerate(sizes):
            tr = []
            for i in range(n):
                t = E.int('t%d_%d' % (f, i), 0, 20)
                if frac:
                    t = t / (4 if frac is True else frac)
                tr.append((t, E.real('x%d_%d' % (f, i), -lonspan, lonspan), E.real('y%d_%d' % (f, i), -80, 80)))
            tracks.append(tr)
        paths = [E.file('f%d' % f, '%d\n' % f) for f in range(len(sizes))]
        order_ = order or list(range(len(sizes)))
        kw = {'decimate': deci} if deci is not None else {}
        nav = _nav(E, 'Research', [paths[f] for f in order_], 'GPGGA', ship_function=_reader(E, tracks), **kw)
        T, X, Y = nav['time_sec'].values, nav['lon'].values, nav['lat'].values
        n = len(nav)
        E.true('rows', n > 0)
        for i in range(1, n):
            E.true('increasing %d' % i, T[i] > T[i - 1])
        k = deci or 1
        elig = [(f, i) for f in order_ for i in range(0, sizes[f], k)]
        al = [(f, i) for f in order_ for i in range(sizes[f])]
        for f, i in elig:
            E.true('present %d %d' % (f, i), E.Or(*[T[r] == BASE + tracks[f][i][0] for r in range(n)]))
        for r in range(n):
            E.true('from the files %d' % r, E.Or(*[T[r] == BASE + tracks[f][i][0] for f, i in elig]))
            E.instant('stamp %d' % r, nav['stamps'].iloc[r], T[r] * 1000000, tol=1)
            # first fix with this time
            ors = []
            for q, (f, i) in enumerate(al):
                t, x, y = tracks[f][i]
                c = [T[r] == BASE + t, X[r] - x <= 1e-9, x - X[r] <= 1e-9, Y[r] - y <= 1e-9, y - Y[r] <= 1e-9]
                if not deci or deci == 1:
                    c += [E.Not(T[r] == BASE + tracks[g][j][0]) for g, j in al[:q]]
                ors.append(E.And(*c))
            E.true('position %d' % r, E.Or(*ors))
    return case


def _n03many(nf, n, deci=0):
    """nf files of n fixes, out of order within and between the files, with repeated times; the time of one fix and
    the positions of three are symbolic"""
    def case(E):
        tracks, m = [], nf * n
        for f in range(nf):
            tr = []
            for i in range(n):
                q = (i * 7 + f * 11) % n * 2 + (f * 5 % nf) * 2 * (n - 3)       # even seconds; three per file are also in the next
                tr.append((q, ((q * 29 + f) % 64) / 100 - 0.3, ((q * 13 + i) % 128) / 2 - 40.0))
            tracks.append(tr)
        f0 = nf // 2
        for f, i in ((0, 0), (f0, n - 1), (nf - 1, n - 2)):
            tracks[f][i] = (tracks[f][i][0], E.real('x%d' % f, -0.3, 0.4), E.real('y%d' % f, -80, 80))
        i0 = 1 if not deci else deci
        b = tracks[f0][i0][0]
        ts = E.int('t', b - 3, b + 3)
        tracks[f0][i0] = (ts, E.real('xt', -0.3, 0.4), E.real('yt', -80, 80))
        paths = [E.file('f%d' % f, '%d\n' % f) for f in range(nf)]
        nav = _nav(E, 'Research', paths, 'GPGGA', ship_function=_reader(E, tracks), **({'decimate': deci} if deci else {}))
        T, X, Y = nav['time_sec'].values, nav['lon'].values, nav['lat'].values
        first, here, here0, lone = {}, False, False, None
        for f in range(nf):
            own = {}
            for i in range(n):
                own.setdefault(tracks[f][i][0] if (f, i) != (f0, i0) else 't', (f, i))
            for i in range(0, n, deci or 1):
                if (f, i) == (f0, i0):
                    lone = own
                    continue
                first.setdefault(tracks[f][i][0], (f, i, own[tracks[f][i][0]]))
        # where does the symbolic time go?
        known = [k for k in sorted(first) if b - 3 <= k <= b + 3]
        new = bool(E.And(*[E.Not(ts == k) for k in known]))
        E.true('rows', len(nav) == len(first) + (1 if new else 0))
        if len(nav) != len(first) + (1 if new else 0):
            return
        r = 0
        for k in sorted(first):
            if new and k > b - 3 and r < len(nav) and bool(T[r] == BASE + ts) and bool(ts < k):
                E.close('longitude of the moved fix', X[r], tracks[f0][i0][1], tol=1e-9)
                E.close('latitude of the moved fix', Y[r], tracks[f0][i0][2], tol=1e-9)
                r += 1
            E.close('time %d' % k, T[r], BASE + k, tol=0.0)
            f, i, (g, j) = first[k]
            near = b - 3 <= k <= b + 3
            if not near:
                E.close('longitude %d' % k, X[r], tracks[g][j][1], tol=1e-9)
                E.close('latitude %d' % k, Y[r], tracks[g][j][2], tol=1e-9)
            r += 1
    return case


def N03(th):
    cs = [Case('one file, %d fixes' % n, _n03([n]), '%d fixes, all times, ties and orders' % n) for n in (1, 2, 3)]
    cs += [Case('two files, 1 and 2', _n03([1, 2]), '1 + 2 fixes'), Case('two files, 2 and 1, listed in reverse', _n03([2, 1], order=[1, 0]), '2 + 1 fixes'),
           Case('three files', _n03([1, 1, 1], order=[2, 0, 1]), '3 x 1 fix'), Case('same file twice', _n03([2], order=[0, 0]), '2 fixes read twice'),
           Case('fractions of a second', _n03([2], frac=True), '2 fixes'), Case('milliseconds apart', _n03([3], frac=1000), '3 fixes within 20 ms'),
           Case('two files, tenths of a millisecond apart', _n03([1, 2], frac=10000), '1 + 2 fixes within 2 ms'), Case('both sides of Greenwich', _n03([3], lonspan=0.4), '3 fixes'),
           Case('no decimate argument', _n03([2], deci=None), '2 fixes'), Case('many files', _n03many(12, 15), '12 files of 15 fixes, out of order and with repeats; one time and 4 positions symbolic'),
           Case('many files, decimate 3', _n03many(12, 15, 3), '12 files of 15 fixes, every 3rd')]
    for k in (1, 2, 3):
        cs.append(Case('decimate %d' % k, _n03([3], k), '3 fixes, every %d' % k))
    cs.append(Case('decimate 2, two files', _n03([2, 2], 2), '2 + 2 fixes, every 2nd'))
    if th:
        cs += [Case('one file, 4 fixes', _n03([4]), '4 fixes', budget=900, max_paths=20000), Case('two files, 2 and 2', _n03([2, 2]), '2 + 2 fixes', budget=900, max_paths=20000),
               Case('decimate 2, 4 fixes', _n03([4], 2), '4 fixes', budget=900, max_paths=20000), Case('decimate 3, 4 fixes', _n03([4], 3), '4 fixes', budget=900, max_paths=20000)]
    return cs


def _n04(n, side, spans=None, back=False):
    """tracks of n fixes, each less than a degree from the next, given as wrapped longitudes; side: sequence of windings"""
    def case(E):
        true = []
        u = E.real('u0', 177, 183) if spans is None else E.real('u0', *spans)
        true.append(u)
        for i in range(1, n):
            true.append(E.real('u%d' % i, *((177, 183) if spans is None else spans)))
            E.assume(true[i] - true[i - 1] < 0.99)
            E.assume(true[i] - true[i - 1] > -0.99)
        lon = []
        for i, w in enumerate(side):
            if w == '>':                                 # beyond the date line: written as negative
                E.assume(true[i] >= 180)
                lon.append(true[i] - 360)
            else:
                E.assume(true[i] <= 180)
                lon.append(true[i])
        lat = E.reals('lat', n, -80, 80)
        tr = [(i, lon[i], lat[i]) for i in range(n)]
        nav = _nav(E, 'Research', E.file('f', '0\n'), 'GPGGA', ship_function=_reader(E, [tr]))
        E.true('rows', len(nav) == n)
        X = nav['lon'].values
        for i in range(n):
            d = X[i] - lon[i]
            E.true('same place %d' % i, E.Or(*[E.And(d - k * 360 <= 1e-9, d - k * 360 >= -1e-9) for k in (-2, -1, 0, 1, 2)]))
            E.close('latitude %d' % i, nav['lat'].values[i], lat[i], tol=0.0)
            E.close('time %d' % i, nav['time_sec'].values[i], BASE + i, tol=0.0)
            if i:
                E.true('continuous %d' % i, E.And(X[i] - X[i - 1] <= 1, X[i - 1] - X[i] <= 1))
        if '>' not in side or '<' not in side:
            E.close('unchanged', X, lon, tol=0.0)
    return case


def _n04drop(side):
    """as above, with fixes without a position ('.'); the ship is less than a degree away when the positions are back"""
    def case(E):
        nan = float('nan')
        lon, lat, real, prev = [], [], [], None
        for i, w in enumerate(side):
            if w == '.':
                lon.append(nan)
                lat.append(nan)
                continue
            u = E.real('u%d' % i, 177, 183)
            E.assume(u >= 180 if w == '>' else u <= 180)
            if prev is not None:
                _near(E, u, prev)
            prev = u
            real.append(i)
            lon.append(u - 360 if w == '>' else u)
            lat.append(E.real('lat%d' % i, -80, 80))
        tr = [(i, lon[i], lat[i]) for i in range(len(side))]
        nav = _nav(E, 'Research', E.file('f', '0\n'), 'GPGGA', ship_function=_reader(E, [tr]))
        E.true('rows', len(nav) == len(side))
        X, Y = nav['lon'].values, nav['lat'].values
        for i, w in enumerate(side):
            if w == '.':
                E.true('no position %d' % i, E.And(E.isnan(X[i]), E.isnan(Y[i])))
                continue
            d = X[i] - lon[i]
            E.true('same place %d' % i, E.Or(*[E.And(d - k * 360 <= 1e-9, d - k * 360 >= -1e-9) for k in (-2, -1, 0, 1, 2)]))
            E.close('latitude %d' % i, Y[i], lat[i], tol=0.0)
            if '>' not in side or '<' not in side:
                E.close('unchanged %d' % i, X[i], lon[i], tol=0.0)
        for a, b in zip(real, real[1:]):
            E.true('continuous %d' % b, E.And(X[b] - X[a] <= 1, X[a] - X[b] <= 1))
    return case


def _n04gap(steps, lo=-60, hi=60, spike=False):
    """no date line; steps: '.' less than a degree, 'g' a gap of more than a degree"""
    def case(E):
        n = len(steps) + 1
        lon, lat = E.reals('lon', n, lo, hi), E.reals('lat', n, -80, 80)
        for i, s in enumerate(steps):
            d = lon[i + 1] - lon[i]
            if s == '.':
                _near(E, lon[i + 1], lon[i])
            else:
                E.assume(E.Or(d > 1.01, d < -1.01))
        for i in range(n - 2):
            if steps[i] == steps[i + 1] == 'g':         # not an isolated fix that jumps out and back
                E.assume(E.Or(lon[i + 2] - lon[i] > 1.01, lon[i + 2] - lon[i] < -1.01))
        tr = [(i, lon[i], lat[i]) for i in range(n)]
        nav = _nav(E, 'Research', E.file('f', '0\n'), 'GPGGA', ship_function=_reader(E, [tr]))
        E.true('rows', len(nav) == n)
        for i in range(n):
            E.close('longitude %d' % i, nav['lon'].values[i], lon[i], tol=1e-9)
            E.close('latitude %d' % i, nav['lat'].values[i], lat[i], tol=0.0)
    return case


def _n04spike(n, spikes, lo, hi):
    """no date line, no gaps; the fixes in `spikes` jump out by more than a degree and straight back"""
    def case(E):
        lon, lat = E.reals('lon', n, lo, hi), E.reals('lat', n, -80, 80)
        want = list(lon)
        good = [i for i in range(n) if i not in spikes]
        for a, b in zip(good, good[1:]):
            _near(E, lon[b], lon[a])
        for i in spikes:
            for j in (i - 1, i + 1):
                d = lon[i] - lon[j]
                E.assume(E.Or(d > 1.01, d < -1.01))
            want[i] = (lon[i - 1] + lon[i + 1]) / 2
        tr = [(i, lon[i], lat[i]) for i in range(n)]
        nav = _nav(E, 'Research', E.file('f', '0\n'), 'GPGGA', ship_function=_reader(E, [tr]))
        E.true('rows', len(nav) == n)
        for i in range(n):
            E.close('%s %d' % ('smoothed' if i in spikes else 'longitude', i), nav['lon'].values[i], want[i], tol=1e-9)
            E.close('latitude %d' % i, nav['lat'].values[i], lat[i], tol=0.0)
    return case


def _n04side(n, m):
    """a track over the date line, written in the longitudes of the side with more fixes (m of n beyond it)"""
    def case(E):
        true = [E.real('u%d' % i, 178, 182) for i in range(n)]
        for i in range(n):
            if i:
                _near(E, true[i], true[i - 1])
            E.assume(true[i] < 180 if i < n - m else true[i] > 180)
        lon = [u if i < n - m else u - 360 for i, u in enumerate(true)]
        tr = [(i, lon[i], 10.0) for i in range(n)]
        nav = _nav(E, 'Research', E.file('f', '0\n'), 'GPGGA', ship_function=_reader(E, [tr]))
        for i in range(n):
            E.close('longitude %d' % i, nav['lon'].values[i], true[i] - (360 if 2 * m > n else 0), tol=1e-9)
    return case


def _n04long(n, step, lo, nan=None):
    """a long track over the date line (all its fixes shifted together by a symbolic longitude)"""
    def case(E):
        u = E.real('u', lo, lo + 1)
        true = [u + step * i for i in range(n)]
        lon = []
        for v in true:
            if v > 180:
                lon.append(v - 360)
            elif v < -180:
                lon.append(v + 360)
            else:
                lon.append(v)
        tr = [(i, lon[i], 10.0) for i in range(n)]
        nav = _nav(E, 'Research', E.file('f', '0\n'), 'GPGGA', ship_function=_reader(E, [tr]))
        X = nav['lon'].values
        E.true('rows', len(X) == n)
        k = X[0] - lon[0]
        E.true('same place', E.Or(*[E.And(k - j <= 1e-9, j - k <= 1e-9) for j in (-360, 0, 360)]))
        for i in range(1, n):
            E.close('moves as the ship %d' % i, X[i] - X[0], true[i] - true[0], tol=1e-8)
    return case


def _n04both(E):
    """crosses the date line, then a gap"""
    a, b = E.real('a', 179, 180), E.real('b', -180, -179)
    c = E.real('c', -175, -170)
    d = E.real('d', -175, -170)
    E.assume(b + 360 - a < 0.99)
    _near(E, c, d)
    lon = [a, b, c, d]
    tr = [(i, lon[i], 10.0 * i) for i in range(4)]
    nav = _nav(E, 'Research', E.file('f', '0\n'), 'GPGGA', ship_function=_reader(E, [tr]))
    X = nav['lon'].values
    for i in range(4):
        e = X[i] - lon[i]
        E.true('same place %d' % i, E.Or(*[E.And(e - k * 360 <= 1e-9, e - k * 360 >= -1e-9) for k in (-1, 0, 1)]))
    E.true('continuous', E.And(X[1] - X[0] <= 1, X[0] - X[1] <= 1))
    E.true('no detour', E.And(X[2] - X[1] <= 11, X[1] - X[2] <= 11))


def N04(th):
    import itertools
    cs = []
    for n in (2, 3, 4) + ((5,) if th else ()):
        for s in itertools.product('<>', repeat=n):
            cs.append(Case('track %s' % ''.join(s), _n04(n, s), '%d fixes, < west and > east of the date line' % n))
    for sd in ('<.>', '>.<', '<.>>', '<<.>', '.<>', '<>.', '<..>', '<.>.<', '>.<>', '<.<', '>.>', '.<.>') + (('<.>.>.<', '>...<', '<<.>>', '<.<.>.>') if th else ()):
        cs.append(Case('dropouts %s' % sd, _n04drop(sd), '%d fixes, . without a position' % len(sd)))
    for st in ('g', 'gg', 'g.', '.g', 'g.g', 'gg.', 'g.g.' if th else '.g.') + (('ggg', 'gggg', 'g..g') if th else ()):
        cs.append(Case('gaps %s, one hemisphere' % st, _n04gap(st, 20, 60), '%d fixes, gaps (g) of more than a degree' % (len(st) + 1)))
        cs.append(Case('gaps %s, around Greenwich' % st, _n04gap(st, -30, 30), '%d fixes, gaps (g) of more than a degree' % (len(st) + 1)))
    for n, sp in ((3, [1]), (4, [1]), (4, [2]), (5, [2]), (5, [1, 3]), (6, [1, 4])) + (((7, [1, 3, 5]), (7, [2, 5])) if th else ()):
        for lo, hi, w in ((20, 60, 'east'), (-60, -20, 'west'), (-20, 20, 'around Greenwich')):
            cs.append(Case('%d fixes, spikes at %s, %s' % (n, ' '.join(map(str, sp)), w), _n04spike(n, sp, lo, hi), '%d fixes, %d of them spikes of more than a degree' % (n, len(sp))))
    for n, m in ((3, 1), (3, 2), (4, 1), (4, 3)) + (((5, 1), (5, 2), (5, 3), (5, 4)) if th else ()):
        cs.append(Case('%d of %d fixes beyond the date line' % (m, n), _n04side(n, m), '%d fixes, every longitude of the majority kept' % n))
    for n, st, lo in ((190, .95, 89.5), (190, -.95, -90.5), (120, .95, 170.5), (120, -.95, -110.5)):
        cs.append(Case('%d fixes, %sward from %g' % (n, 'east' if st > 0 else 'west', lo), _n04long(n, st, lo), '%d fixes %g degrees apart' % (n, abs(st))))
    return cs + [Case('crossing, then a gap', _n04both, '4 fixes')]


def _sentinel(E, label, v):
    E.true(label, isinstance(v, (int, float)) and v == -999)


def _n05_unknown(E):
    p = E.file('a.gps', _line(E, 'Atlantis', 'GPGGA', _When(), ('4131.40', 'N', '07040.31', 'W')))
    ship = E.choice('ship', ['Titanic', '', 'atlantis', 'Atlantis ', 'Oceanus', 'R/V Revelle', 'DGStest'])
    talker = E.choice('talker', [None, 'GPGGA', 'INGGA'])
    paths = E.choice('paths', [0, 1])
    _sentinel(E, 'sentinel', _nav(E, ship, [p, p] if paths else p, talker))


def _n05_absent(ship):
    def case(E):
        t = E.choice('talker', [None, 'GPGGA', 'INGGA', 'GNGGA', 'PASHR'])
        used = t or SHIPS[ship]
        other = 'INGGA' if used != 'INGGA' else 'GPGGA'
        kind = E.choice('kind', ['foreign', 'other talker', 'text', 'blank'])
        w = _When()
        if kind == 'foreign':
            x = _foreign(E, ship, used, w, 0)
        elif kind == 'other talker':
            x = _line(E, ship, other, w, ('4131.40', 'N', '07040.31', 'W'))
        else:
            x = 'no navigation here\n' if kind == 'text' else '\n'
        good = _line(E, ship, used, w, ('4131.40', 'N', '07040.31', 'W'))
        bad = E.file('b.gps', x)
        two = E.choice('two', [0, 1])
        if two and used in ('GPGGA', 'INGGA') and not (ship == 'Sikuliaq' and used != 'GPGGA'):
            v = _nav(E, ship, [E.file('a.gps', good), bad], t)
        else:
            v = _nav(E, ship, bad, t)
        _sentinel(E, 'sentinel', v)
    return case


def _n05_override(ship):
    def case(E):
        w = _When()
        a, la, lo = _pos(E, 0, 2)
        b, lb, lp = _pos(E, 1, 2)
        first = E.choice('first', ['GPGGA', 'INGGA'])
        lines = [_line(E, ship, 'GPGGA', w, a), _line(E, ship, 'INGGA', w, b)]
        if first == 'INGGA':
            lines.reverse()
        p = E.file('a.gps', E.cat(*lines))
        t = E.choice('talker', [None, 'GPGGA', 'INGGA'])
        nav = _nav(E, ship, p, t)
        if ship == 'Sikuliaq' and t == 'INGGA':
            _sentinel(E, 'sentinel', nav)
            return
        E.true('rows', len(nav) == 1)
        _row(E, nav, 0, *((la, lo) if (t or SHIPS[ship]) == 'GPGGA' else (lb, lp)))
    return case


def _n05_reader(nf):
    def case(E):
        calls = []
        tracks = [[(10 * f + i, E.real('x%d_%d' % (f, i), 3, 3.9), E.real('y%d_%d' % (f, i), -80, 80)) for i in range(2)] for f in range(nf)]
        ps = [E.file('f%d' % f, '%d\n$GPGGA,120000.00,0101.00,N,00101.00,E,2\nnothing\n' % f) for f in range(nf)]
        ship = E.choice('ship', ['Research', '', 'Atlantis', 'Sikuliaq', 'Revelle'])
        t = E.choice('talker', ['GPGGA', 'ABCDE', None] if ship in SHIPS else ['GPGGA', 'ABCDE'])
        nav = _nav(E, ship, ps[0] if nf == 1 and E.choice('single', [0, 1]) else ps, t, ship_function=_reader(E, tracks, calls))
        E.true('calls', [c[1:] for c in calls] == [('%d' % f, t or SHIPS[ship]) for f in range(nf)])
        E.true('lines', all(c[0] == 3 for c in calls))
        E.true('rows', len(nav) == 2 * nf)
        r = 0
        for f in range(nf):
            for u, x, y in tracks[f]:
                _row(E, nav, r, y, x)
                E.close('time %d' % r, nav['time_sec'].values[r], BASE + u, tol=0.0)
                r += 1
    return case


def _n05_other(E):
    """sentences that are in the file, with a talker whose times this ship's format does not give"""
    ship = E.choice('ship', ['Ride', 'Sikuliaq'])
    t = E.choice('talker', ['GNGGA', 'PHGGA', 'INGGA'] if ship == 'Sikuliaq' else ['GNGGA', 'PHGGA'])
    w = _When()
    p, la, lo = _pos(E, 0, 1)
    _sentinel(E, 'sentinel', _nav(E, ship, E.file('a.gps', _line(E, ship, t, w, p)), t))


def _n05_notalker(E):
    calls = []
    p = E.file('f', '0\n')
    _sentinel(E, 'sentinel', _nav(E, E.choice('ship', ['Research', '', 'Oceanus']), [p], None, ship_function=_reader(E, [[(0, 1.0, 1.0)]], calls)))


def _n05_giveup(E):
    """a reader that reports -999 for its times"""
    p = E.file('f', '0\n')
    _sentinel(E, 'sentinel', _nav(E, 'Research', p, 'GPGGA', ship_function=lambda lines, talker: (E.array([1.0]), E.array([1.0]), -999)))


def _n05_giveup2(nf, bad):
    """a reader that reports -999 for the times of one of several files"""
    def case(E):
        ps = [E.file('f%d' % i, '%d\n' % i) for i in range(nf)]
        lon, lat = E.real('lon', -179, 179), E.real('lat', -90, 90)

        def read(lines, talker):
            k = int(E.text(lines[0]).strip())
            if k == bad:
                return E.array([lon]), E.array([lat]), -999
            return E.array([lon]), E.array([lat]), [E.datetime(2022, 1, 2, 3, 4, 5 + k)]
        _sentinel(E, 'sentinel', _nav(E, 'Research', ps, 'GPGGA', ship_function=read))
    return case


def N05(th):
    return [Case('unknown ships', _n05_unknown, '7 ship names, 3 talkers')] + [Case('%s: talker after 1100 others' % _name(s, t), _long_nav(s, t, 2, (0,), head=1100), '2 fixes after 1100 sentences of other talkers') for s, t in FORMATS] + [Case('%s: absent talker' % s, _n05_absent(s), '5 talkers, 4 file contents, 1 or 2 files') for s in SHIPS] + [
        Case('%s: talker argument' % s, _n05_override(s), 'both sentences in the file, all digits') for s in SHIPS] + [
        Case('read function, %d files' % n, _n05_reader(n), '%d files, all values' % n) for n in (1, 2, 3, 12)] + [Case('read function gives up', _n05_giveup, '')] + [Case('read function gives up on file %d of %d' % (b + 1, n), _n05_giveup2(n, b), '%d files' % n) for n, b in ((2, 0), (2, 1), (3, 1), (3, 2))] + [ Case('unknown ship and no talker', _n05_notalker, '3 ship names'), Case('talkers without times', _n05_other, '2 ships, 2 to 3 talkers')]


# ------------------------------------------------------------------ gravimeters
def _fixed(i, k=0):
    """record i of a long concrete series: every second from two minutes to midnight of 2023-12-31 on"""
    import datetime
    t = datetime.datetime(2023, 12, 31, 23, 58, 0) + datetime.timedelta(seconds=i)
    fr = '250000000'[:k]
    w = _When(0, y=t.strftime('%Y'), mo=t.strftime('%m'), d=t.strftime('%d'), doy=t.strftime('%j'), h=t.strftime('%H'), mi=t.strftime('%M'), s=t.strftime('%S'), f='.' + fr if k else '')
    w.us = (1704067080 + i) * 1000000 + (int(fr.ljust(6, '0')[:6]) if k else 0)
    return w


LONG = 2100
MANY = [5] * 11     # more files than one digit numbers, not in alphabetical order


def _few(n):
    """the records with symbolic contents: all of them in short files, the first, one inside and the last of long ones"""
    return range(n) if n < 50 else (0, n // 2 + 3, n - 1)


SCALE = {'Atlantis': 4.994070552, 'Thompson': 5.003353363, 'Revelle': 4.99980755, 'Langseth': 5.0}


def _time(E, i, k, doy=False, y0=1980):
    return _when(E, i, 'Langseth' if doy else '', None, k, y0=y0)


def _bgm_line(E, ship, w, c):
    if ship == 'Atlantis':
        return E.cat('BGM ', w.y, '/', w.mo, '/', w.d, ' ', w.h, ':', w.mi, ':', w.s, w.f, ' BGM3 04:', c, ' 00\n')
    if ship == 'Thompson':
        return E.cat(w.mo, '/', w.d, '/', w.y, ',', w.h, ':', w.mi, ':', w.s, w.f, ',04:', c, ' 00\n')
    if ship == 'Revelle':
        return E.cat(w.y, '-', w.mo, '-', w.d, 'T', w.h, ':', w.mi, ':', w.s, w.f, 'Z 04:', c, ' 00\n')
    return E.cat('vc01\t', w.y, ':', w.doy, ':', w.h, ':', w.mi, ':', w.s, w.f, '\t04:', c, ' 00\n')


BGMFRAC = {'Atlantis': 3, 'Thompson': 3, 'Revelle': 6, 'Langseth': 4}


def _split(E, lines, sizes, order=None, name='g'):
    """files of the given numbers of lines -> (paths in reading order, indices of the lines in reading order)"""
    paths, idx, k = [], [], 0
    for f, n in enumerate(sizes):
        paths.append(E.file('%s%d.dat' % (name, f), E.cat(*lines[k:k + n])))
        idx.append(list(range(k, k + n)))
        k += n
    order = order or list(range(len(sizes)))
    return [paths[f] for f in order], [i for f in order for i in idx[f]]


def _r01(ship, sizes, k=None, scale='db', order=None, single=False, digits=6):
    k = BGMFRAC[ship] if k is None else k

    def case(E):
        n = sum(sizes)
        lines, ws, cs = [], [], []
        for i in range(n):
            if i not in _few(n):
                w, (c, cv) = _fixed(i, k), ('%06d' % (24900 + 7 * (i % 13)), 24900 + 7 * (i % 13))
            else:
                w = _time(E, i, k, ship == 'Langseth')
                c, cv = E.field('c%d' % i, digits)
            lines.append(_bgm_line(E, ship, w, c))
            ws.append(w)
            cs.append(cv)
        paths, rows = _split(E, lines, sizes, order)
        kw = {}
        sc = SCALE[ship]
        if scale == 'arg':
            sc = kw['scale'] = E.real('scale', 0, 10)
        got = _Quiet(E.mod('io')).read_bgm_raw(paths[0] if single else paths, ship, **kw)
        E.true('rows', len(got) == len(rows))
        for r, i in enumerate(rows):
            E.true('counts %d' % r, got['counts'].values[r] == cs[i])
            E.close('gravity %d' % r, got['rgrav'].values[r], sc * cs[i], tol=1e-6)
            E.instant('time %d' % r, got['date_time'].iloc[r], ws[i].us, tol=0)
            E.true('zone %d' % r, E.aware(got['date_time'].iloc[r]))
        E.true('row labels', list(got.index) == list(range(len(rows))))
    return case


def R01(th):
    cs = []
    for s in SCALE:
        cs += [Case('%s: one record' % s, _r01(s, [1], single=True), 'one record, all digits'),
               Case('%s: three records' % s, _r01(s, [3]), 'three records, all digits'),
               Case('%s: two files' % s, _r01(s, [1, 2]), '1 + 2 records'),
               Case('%s: two files listed in reverse' % s, _r01(s, [2, 1], order=[1, 0]), '2 + 1 records'),
               Case('%s: same file twice' % s, _r01(s, [2], order=[0, 0]), '2 records read twice'),
               Case('%s: long file' % s, _r01(s, [LONG, 1]), '%d + 1 records, three of them symbolic' % LONG),
               Case('%s: many files' % s, _r01(s, MANY), '11 files of 5 records, three of them symbolic'),
               Case('%s: counts of 5 digits' % s, _r01(s, [2], digits=5), '2 records'), Case('%s: counts of 8 digits' % s, _r01(s, [2], digits=8), '2 records'),
               Case('%s: CRLF' % s, _crlf(_r01(s, [2, 1])), '2 + 1 records, lines ended by CR LF'),
               Case('%s: scale argument' % s, _r01(s, [2], scale='arg'), '2 records, scale 0 to 10')]
        for k in ((1, 2, 5) if s != 'Revelle' else (3, 1)) if th or s in ('Langseth',) else ():
            cs.append(Case('%s: %d decimals' % (s, k), _r01(s, [2], k), '2 records, fractions of %d digits' % k))
        if th:
            cs.append(Case('%s: three files' % s, _r01(s, [2, 1, 2], order=[2, 0, 1]), '2 + 1 + 2 records'))
    return cs


# ------------------------------------------------------------------ R02
def _rgs_line(E, w, v, crlf=False):
    return E.cat('RGS ', w.y, '/', w.mo, '/', w.d, ' ', w.h, ':', w.mi, ':', w.s, w.f, ' ', v['grav'][0], ' 24980 1656633600.445 4.994070552 855577.390 BGM3 S210 GPS: ',
                 v['lat'][0], ' ', v['lon'][0], ' 1656633599.533 0 0 UNKNOWN_SRC 0.010 135.000 DEPTH: -999 -999 NONE HDG: 243.380 1656633599.855 SRC_GYRO NO_DNV_ERROR 1656633600.445 -999',
                 '\r\n' if crlf else '\n')


def _r02(sizes, order=None, ship='Atlantis', single=False, crlf=False, blank=False, k=3):
    def case(E):
        n = sum(sizes)
        lines, ws, vs = [], [], []
        for i in range(n):
            if i not in _few(n):
                w, v = _fixed(i, k), {c: ('%.1f' % (x + i % 7 + .5), x + i % 7 + .5) for c, x in (('grav', 980000), ('lat', -41), ('lon', 120))}
            else:
                w = _time(E, i, k)
                v = {'grav': E.num('g%d' % i, -1e7, 1e7), 'lat': E.num('la%d' % i, -90, 90), 'lon': E.num('lo%d' % i, -180, 180)}
            lines.append(E.cat(_rgs_line(E, w, v, crlf), '\n' if blank else ''))
            ws.append(w)
            vs.append(v)
        paths, rows = _split(E, lines, sizes, order)
        got = _Quiet(E.mod('io')).read_bgm_rgs(paths[0] if single else paths, ship)
        E.true('rows', len(got) == len(rows))
        for r, i in enumerate(rows):
            for c in ('grav', 'lat', 'lon'):
                E.close('%s %d' % (c, r), got[c].values[r], vs[i][c][1], tol=1e-9)
            E.instant('time %d' % r, got['date_time'].iloc[r], ws[i].us, tol=0)
            E.true('zone %d' % r, E.aware(got['date_time'].iloc[r]))
        E.true('row labels', list(got.index) == list(range(len(rows))))
    return case


def _r02_ships(E):
    v = {'grav': ('980329.272', 0), 'lat': ('41.5', 0), 'lon': ('-70.6', 0)}
    w = _When()
    p = E.file('a.rgs', _rgs_line(E, w, v))
    s = E.choice('ship', ['Thompson', 'Revelle', 'Langseth', 'Ride', 'Sikuliaq', 'Titanic', '', 'atlantis', 'NBP', 'Atlantis'])
    got = _Quiet(E.mod('io')).read_bgm_rgs(p, s)
    if s in ('NBP', 'Atlantis'):
        E.true('read', len(got) == 1)
    else:
        _sentinel(E, 'sentinel', got)


def R02(th):
    cs = [Case('one record', _r02([1], single=True), 'one record, all values'), Case('long file', _r02([LONG, 1]), '%d + 1 records, three of them symbolic' % LONG), Case('many files', _r02(MANY), '11 files of 5 records, three of them symbolic'), Case('three records', _r02([3]), 'three records'), Case('two files', _r02([1, 2]), '1 + 2 records'),
          Case('two files listed in reverse', _r02([2, 1], [1, 0], 'NBP'), '2 + 1 records'), Case('same file twice', _r02([2], [0, 0]), '2 records read twice'),
          Case('blank lines and CRLF', _r02([2], ship='NBP', crlf=True, blank=True), '2 records'), Case('ships', _r02_ships, '10 ship names')]
    if th:
        cs += [Case('three files', _r02([2, 1, 2], [2, 0, 1]), '2 + 1 + 2 records')] + [Case('%d decimals' % k, _r02([2], k=k), '2 records') for k in (1, 2, 4, 6)]
    return cs


# ------------------------------------------------------------------ R03
LAPTOP = {'rgrav': 1, 'long_a': 2, 'crss_a': 3, 'status': 6, 've': 10, 'vcc': 11, 'al': 12, 'ax': 13, 'lat': 14, 'lon': 15}
TNLAPTOP = {'rgrav': 3, 've': 12, 'vcc': 13, 'al': 14, 'ax': 15, 'lat': 16, 'lon': 17}
SKQHEAD = """# Platform:
#   Name: R/V Sikuliaq
#   Operator: UAF
#   IMO Number: 9578945
#   ICES Code: 33BI
#   Call Sign: WDN7246
#   MMSI Number: 338417000
# Cruise ID: SKQ202418S
#
# Instrument:
#   Name: Dynamic Gravity Systems Advanced Technology Marine Gravimeter
#   Model: AT1-M
#   Serial Number: 33
#   Location: Aft inboard wall of tech workshop, 1-12-1
#   Installation Date: 28 November 2023
#
# Parameters:
# Log Name\tLog Time\tQC_Gravity, Gravity, Long accelerometer, Cross accelerometer, beam, Sensor Temp, STATUS, Checksum, Pressure, Etemp, Ve, Vcc, Al, Ax, Latitude, Longitude, Speed, Course, Year, Month, Day Hours, Min, Seconds, NumLine
#
"""


def _values(E, i, n, lo=-1e6, hi=1e6, ints=()):
    """n fields of one record: all the values are symbolic"""
    return [E.num('v%d_%d' % (i, j), -1e7 if j in ints else lo, 1e7 if j in ints else hi, isint=j in ints) for j in range(n)]


def _laptop_line(E, ship, w, v, pre=True, n=26, sep=None):
    """QC, gravity, long, cross, beam, temp, status, check, pressure, etemp, ve, vcc, al, ax, lat, lon, speed, course, vmond, y, m, d, h, m, s, line"""
    if ship == 'Thompson':
        t = [E.cat(w.mo, '/', w.d, '/', w.y), E.cat(w.h, ':', w.mi, ':', w.s, w.f)] + [v[j][0] for j in range(2, 21)] + ['2022', '03', '12', '16', '04', '20.80', '5370473']
    else:
        t = [v[j][0] for j in range(19)] + [w.y, w.mo, w.d, w.h, w.mi, E.cat(w.s, w.f), '7']
        if ship == 'Sikuliaq':
            t[0] = E.cat('grav_dgs_33_proc\t2024-12-13T00:00:00.4059Z\t', t[0])
        if ship == 'Langseth' and pre:
            t[0] = E.cat('dgsdata\t2025:254:00:00:00.9100\t', t[0])
    out = []
    for j, x in enumerate(t):
        out += [', ' if j in (4, 7, 8) and ship != 'Thompson' else ',', x] if j else [x]
    return E.cat(*out + ['\n'])


def _laptop_rows(E, ship, got, rows, vs, ws):
    cols = TNLAPTOP if ship == 'Thompson' else LAPTOP
    E.true('rows', len(got) == len(rows))
    E.true('row labels', list(got.index) == list(range(len(rows))))
    for r, i in enumerate(rows):
        for c, j in cols.items():
            if vs[i][j][1] is None:
                E.true('%s %d is missing' % (c, r), E.isnan(got[c].values[r]))
            else:
                E.close('%s %d' % (c, r), got[c].values[r], vs[i][j][1], tol=1e-9)
        E.instant('time %d' % r, got['date_time'].iloc[r], ws[i].us, tol=1)
        E.true('zone %d' % r, E.aware(got['date_time'].iloc[r]))


def _r03(ship, sizes, order=None, single=False, k=2, empty=None):
    def case(E):
        n = sum(sizes)
        lines, ws, vs = [], [], []
        for i in range(n):
            if i not in _few(n):
                w, v = _fixed(i, k), [(str(100 + 20 * (i % 9) + j), 100 + 20 * (i % 9) + j) for j in range(21)]
            else:
                w = _time(E, i, k)
                v = _values(E, i, 21, ints=(8, 9) if ship == 'Thompson' else (6, 7))
            for c in (empty or {}).get(i, ()):
                v[(TNLAPTOP if ship == 'Thompson' else LAPTOP)[c]] = ('', None)
            lines.append(_laptop_line(E, ship, w, v))
            ws.append(w)
            vs.append(v)
        if ship == 'Sikuliaq':
            k0 = 0
            for m in sizes:
                lines[k0] = E.cat(SKQHEAD, lines[k0])
                k0 += m
        paths, rows = _split(E, lines, sizes, order)
        got = _Quiet(E.mod('io')).read_dgs_laptop(paths[0] if single else paths, ship)
        _laptop_rows(E, ship, got, rows, vs, ws)
    return case


def R03(th):
    cs = []
    for s in ('Atlantis', 'Revelle', 'NBP', 'Ride', 'DGStest', 'Thompson', 'Sikuliaq', 'Langseth'):
        main = s in ('Atlantis', 'Thompson', 'Sikuliaq', 'Langseth') or th
        cs.append(Case('%s: one record' % s, _r03(s, [1], single=True), 'one record, all values'))
        cs.append(Case('%s: three records' % s, _r03(s, [3], k=3 if s == 'Thompson' else 2), 'three records'))
        if main:
            cs += [Case('%s: long file' % s, _r03(s, [LONG // 2, 1]), '%d + 1 records, three of them symbolic' % (LONG // 2)),
                   Case('%s: many files' % s, _r03(s, MANY), '11 files of 5 records, three of them symbolic'),
                   Case('%s: two files' % s, _r03(s, [1, 2]), '1 + 2 records'), Case('%s: two files listed in reverse' % s, _r03(s, [2, 1], [1, 0]), '2 + 1 records'),
                   Case('%s: same file twice' % s, _r03(s, [1], [0, 0]), '1 record read twice'),
               Case('%s: CRLF' % s, _crlf(_r03(s, [2, 1])), '2 + 1 records, lines ended by CR LF'),
                   Case('%s: no position' % s, _r03(s, [2], empty={0: ('lat', 'lon')}), '2 records, the first without a position'),
                   Case('%s: empty channels' % s, _r03(s, [3], empty={0: ('rgrav', 'al'), 1: ('ve',), 2: ('vcc', 'ax', 'lon')}), '3 records with empty fields')]
            for k in (0, 1, 3) if s != 'Thompson' else (1, 3, 6):
                cs.append(Case('%s: seconds with %d decimals' % (s, k), _r03(s, [2], k=k), '2 records'))
    return cs


# ------------------------------------------------------------------ R04
def _r04(kinds, end='\n'):
    def case(E):
        lines, ws, vs = [], [], []
        for i, kd in enumerate(kinds):
            if i in _few(len(kinds)):
                w, v = _time(E, i, 2), _values(E, i, 21, ints=(6, 7))
            else:
                w, v = _fixed(i, 2), [(str(100 + 20 * i + j), 100 + 20 * i + j) for j in range(21)]
            if kd in ('valid', 'bare', 'indented', 'last empty', 'noisy'):
                t = _laptop_line(E, 'Langseth', w, v, kd != 'bare')
                if kd == 'noisy':            # bytes that are no text
                    t = E.cat('\udcff\udc80', t)
                if kd == 'last empty':
                    t = E.cat(t[:-2], '\n')
                if kd == 'indented':
                    t = E.cat('  ', t)
                ws.append(w)
                vs.append(v)
            elif kd == 'noise':
                t = E.cat('\udcfe\udc93', E.char('q%d' % i, 'abc ,:') if i in _few(len(kinds)) else 'a', '\udca0\n')
            elif kd == 'tail':               # an empty field too many
                t = E.cat(_laptop_line(E, 'Langseth', w, v)[:-1], ',\n')
            elif kd == 'head':
                t = E.cat('dgsdata\t2025:254:00:00:00.9100\t,', _laptop_line(E, 'Langseth', w, v, False))
            elif kd == 'short':
                t = E.cat('dgsdata\t2025:254:00:00:00.9100\t', v[0][0], ',', v[1][0], ',', v[2][0], ',', v[3][0], '\n')
            elif kd == '25':
                p = []
                for j in range(25):
                    p += [v[j % 20][0], ',']
                t = E.cat(*(['dgsdata\t2025:254:00:00:00.9100\t'] + p[:-1] + ['\n']))
            elif kd == 'long':
                t = E.cat(_laptop_line(E, 'Langseth', w, v)[:-1], ',', v[20][0], '\n')
            elif kd == 'bare long':
                t = E.cat(_laptop_line(E, 'Langseth', w, v, False)[:-1], ',', v[20][0], '\n')
            elif kd == 'joined':
                t = E.cat(_laptop_line(E, 'Langseth', w, v)[:-1], _laptop_line(E, 'Langseth', w, v))
            elif kd == 'prefix':
                t = 'dgsdata\t2025:254:00:00:00.9100\n'
            elif kd == 'name':
                t = 'dgsdata\n'
            elif kd == 'blank':
                t = '\n'
            elif kd == 'text':
                t = E.cat('x', E.char('q%d' % i, 'abc ,:'), E.char('r%d' % i, 'abc ,:'), '\n') if i in _few(len(kinds)) else 'x%s\n' % [',', 'yz', ': '][i % 3]
            lines.append(t)
        text = E.cat(*lines)
        if end == '':
            text = text[:-1]
        got = _Quiet(E.mod('io')).read_dgs_laptop(E.file('m.dat', text), 'Langseth')
        if not vs:
            E.true('rows', len(got) == 0)
            E.true('columns', all(c in list(got.columns) for c in list(LAPTOP) + ['date_time']))
            return
        _laptop_rows(E, 'Langseth', got, list(range(len(vs))), vs, ws)
    return case


def R04(th):
    bad = ['short', '25', 'long', 'bare long', 'joined', 'prefix', 'name', 'blank', 'text']
    seqs = [('valid',), ('bare',), ('indented',), ('valid', 'bare'), ('bare', 'valid', 'indented')]
    for b in bad:
        seqs += [(b,), (b, 'valid'), ('valid', b), ('bare', b, 'valid')]
    seqs += [('short', 'prefix', 'valid'), ('long', 'valid', 'blank'), ('name', '25', 'text'), ('short', 'long', 'prefix'), ('valid', 'long', 'bare')]
    seqs += [('tail',), ('tail', 'valid'), ('valid', 'tail', 'bare'), ('head', 'valid'), ('last empty',), ('valid', 'last empty', 'tail')]
    seqs += [('noise',), ('noise', 'valid'), ('bare', 'noise', 'valid'), ('noisy',), ('valid', 'noisy', 'noise')]
    if th:
        import itertools
        seqs += [s for s in itertools.product(['valid', 'bare', 'short', 'long', 'prefix', 'name', 'blank'], repeat=3) if s not in seqs]
    big = [('valid',) * 600 + ('short', 'bare', 'long', 'prefix') + ('valid', 'bare', 'valid', '25') * 100, ('bare',) * 1010 + ('joined', 'valid'), ('short', 'text', 'prefix') * 150 + ('valid', 'bare') * 300, ('valid',) * 600 + ('noise', 'bare', 'valid')]
    return [Case(' / '.join(s), _r04(s), '%d lines' % len(s)) for s in seqs] + [Case('long file %d' % (i + 1), _r04(s), '%d lines, 3 of them symbolic' % len(s)) for i, s in enumerate(big)] + [Case('CRLF: ' + ' / '.join(s), _crlf(_r04(s)), '%d lines ended by CR LF' % len(s)) for s in (('valid', 'bare'), ('short', 'valid', 'bare'), ('bare', 'long', 'blank', 'valid'))] + [Case('no newline at the end', _r04(('short', 'valid'), ''), '2 lines'),
                                                                              Case('no newline at the end, unprefixed', _r04(('valid', 'bare'), ''), '2 lines')]


# ------------------------------------------------------------------ R05, R06
RAW = ['Gravity', 'Long', 'Cross', 'Beam', 'Temp', 'Pressure', 'ElecTemp', 'vcc', 've', 'al', 'ax', 'status', 'checksum', 'latitude', 'longitude', 'speed', 'course']
SKQRAW = {'rgrav': 0, 'long_a': 1, 'crss_a': 2, 'vcc': 7, 've': 8, 'al': 9, 'ax': 10, 'lat': 13, 'lon': 14}
MON = ('ve', 'vcc', 'al', 'ax')


def _raw_line(E, layout, w, v, n):
    """one $AT1M record; v holds the 17 values"""
    meter = E.cat('$AT1M_3.64_', '19824%d' % n)
    if layout == 'Thompson':
        p = [w.mo, '/', w.d, '/', w.y, ',', w.h, ':', w.mi, ':', w.s, w.f, ',', meter]
        end = ',00000131034752\n'
    elif layout == 'Sikuliaq':
        p = ['grav_dgs_33_raw\t', w.y, '-', w.mo, '-', w.d, 'T', w.h, ':', w.mi, ':', w.s, w.f, 'Z\t', meter]
        end = ',438219\n'
    else:
        iso = [w.y, '-', w.mo, '-', w.d, 'T', w.h, ':', w.mi, ':', w.s, w.f, 'Z ']
        bad = ['1999-12-31T23:59:58.5Z ']
        p = {'unsynced': iso, 'synced': [], 'synced iso': bad, 'none': [], 'text': ['DGS '], 'counter': iso, 'counter none': []}[layout] + [meter]
        if layout.startswith('synced'):
            end = E.cat(',', w.y, w.mo, w.d, w.h, w.mi, w.s, '\n')
        else:
            end = ',%d\n' % ((438219 if layout.startswith('counter') else 1686873601) + n)
    for x, _ in v:
        p += [',', x]
    return E.cat(*p + [end])


def _raw(sizes, layout, scale=None, order=None, ship='Ride', single=False, k=6, ints=True, times=True, values=True, empty=None):
    def case(E):
        n = sum(sizes)
        lines, ws, vs = [], [], []
        for i in range(n):
            w = _fixed(i, k) if i not in _few(n) else _time(E, i, k, y0=2000) if times and layout not in ('none', 'text', 'counter none') else _When(i, **({'f': '.250000'[:k + 1]} if k else {'f': '', 'us': (1656677850 + i) * 1000000}))
            if values and i in _few(n):
                v = _values(E, i, 17, ints=range(13) if ints else (11, 12))
            else:
                v = [(str(100 + 20 * i + j), 100 + 20 * i + j) for j in range(17)]
            for j in (empty or {}).get(i, ()):
                v[j] = ('', None)
            lines.append(_raw_line(E, layout, w, v, i))
            ws.append(w)
            vs.append(v)
        if layout == 'Sikuliaq':
            lines[0] = E.cat(SKQHEAD, lines[0])
        paths, rows = _split(E, lines, sizes, order)
        kw = {} if scale is None else {'scale_ccp': scale}
        got = _Quiet(E.mod('io')).read_dgs_raw(paths[0] if single else paths, ship, **kw)
        E.true('rows', len(got) == len(rows))
        E.true('row labels', list(got.index) == list(range(len(rows))))
        cols = SKQRAW if layout == 'Sikuliaq' else {c: j for j, c in enumerate(RAW)}
        for r, i in enumerate(rows):
            for c, j in cols.items():
                f = 1e-5 if c in MON and scale is not False else 1
                if vs[i][j][1] is None:
                    E.true('%s %d is missing' % (c, r), E.isnan(got[c].values[r]))
                    continue
                E.close('%s %d' % (c, r), got[c].values[r], vs[i][j][1] * f, tol=1e-9)
            if layout in ('none', 'text', 'counter none'):
                E.true('no times', 'date_time' not in got.columns)
            else:
                E.instant('time %d' % r, got['date_time'].iloc[r], ws[i].us, tol=0)
                E.true('zone %d' % r, E.aware(got['date_time'].iloc[r]))
    return case


def R05(th):
    cs = []
    for lay, ship, k in (('unsynced', 'Ride', 6), ('synced', 'Atlantis', 0), ('Thompson', 'Thompson', 3), ('Sikuliaq', 'Sikuliaq', 4)):
        cs += [Case('%s: one record' % lay, _raw([1], lay, ship=ship, k=k, times=False, single=True), 'one record, all values'),
               Case('%s: three records' % lay, _raw([3], lay, ship=ship, k=k, times=False), 'three records, all values'),
               Case('%s: long file' % lay, _raw([LONG // 2, 1], lay, ship=ship, k=k), '%d + 1 records, three of them symbolic' % (LONG // 2)),
               Case('%s: many files' % lay, _raw(MANY, lay, ship=ship, k=k), '11 files of 5 records, three of them symbolic'),
               Case('%s: decimal values' % lay, _raw([2], lay, ship=ship, k=k, times=False, ints=False), '2 records of decimal values'),
               Case('%s: scaling off' % lay, _raw([2], lay, False, ship=ship, k=k, times=False), '2 records'),
               Case('%s: scaling on' % lay, _raw([2], lay, True, ship=ship, k=k, times=False), '2 records'),
               Case('%s: two files' % lay, _raw([1, 2], lay, ship=ship, k=k, times=False), '1 + 2 records'),
               Case('%s: two files listed in reverse' % lay, _raw([2, 1], lay, order=[1, 0], ship=ship, k=k, times=False), '2 + 1 records'),
               Case('%s: same file twice' % lay, _raw([1], lay, order=[0, 0], ship=ship, k=k, times=False), '1 record read twice'),
               Case('%s: CRLF' % lay, _crlf(_raw([2, 1], lay, ship=ship, k=k)), '2 + 1 records, lines ended by CR LF'),
               Case('%s: no position' % lay, _raw([2], lay, ship=ship, k=k, times=False, empty={0: (13, 14)}), '2 records, the first without a position'),
               Case('%s: empty channels' % lay, _raw([3], lay, ship=ship, k=k, times=False, empty={0: (1, 8), 1: (3, 10, 15), 2: (0, 2, 7, 9, 16)}), '3 records with empty fields')]
        if th:
            cs += [Case('%s: field %d empty' % (lay, j), _raw([2], lay, ship=ship, k=k, times=False, empty={1: (j,)}), '2 records') for j in range(17)]
    for s in ('Atlantis', 'NBP', 'Revelle', 'Langseth', 'DGStest', 'Titanic'):
        cs.append(Case('ship %s' % s, _raw([2], 'unsynced', ship=s, times=False), '2 records, general layout'))
    return cs


def R06(th):
    cs = []
    for lay, ship, ks in (('unsynced', 'Ride', (6, 0, 1, 3)), ('synced', 'Atlantis', (0,)), ('synced iso', 'Revelle', (0,)), ('Thompson', 'Thompson', (3, 1, 2, 6)), ('Sikuliaq', 'Sikuliaq', (4, 0, 1, 3, 6))):
        for k in ks:
            cs.append(Case('%s: one record, %d decimals' % (lay, k), _raw([1], lay, ship=ship, k=k, values=False), 'one record, all dates and clocks'))
        cs += [Case('%s: three records' % lay, _raw([3], lay, ship=ship, k=ks[0], values=False), 'three records'),
               Case('%s: long file' % lay, _raw([LONG // 2, 1], lay, ship=ship, k=ks[0], values=False), '%d + 1 records, three of them symbolic' % (LONG // 2)),
               Case('%s: many files' % lay, _raw(MANY, lay, ship=ship, k=ks[0], values=False), '11 files of 5 records, three of them symbolic'),
               Case('%s: two files' % lay, _raw([1, 2], lay, ship=ship, k=ks[0], values=False), '1 + 2 records'),
               Case('%s: two files listed in reverse' % lay, _raw([2, 1], lay, order=[1, 0], ship=ship, k=ks[0], values=False), '2 + 1 records')]
    for lay in ('none', 'text', 'counter', 'counter none'):
        cs += [Case('%s: one record' % lay, _raw([1], lay, values=False), 'one record'), Case('%s: two records' % lay, _raw([2], lay, values=False), 'two records')]
    return cs


# ------------------------------------------------------------------ R07
BGMSHIPS = ['Atlantis', 'Thompson', 'Revelle', 'Langseth']


def _r07_bgm(E):
    ship = E.choice('ship', ['NBP', 'Ride', 'Sikuliaq', 'DGStest', 'Titanic', '', 'atlantis', 'Langseth '])
    p = E.file('g.dat', _bgm_line(E, 'Atlantis', _When(), '024963'))
    kw = {'scale': E.real('scale', 1, 6)} if E.choice('arg', [0, 1]) else {}
    _sentinel(E, 'sentinel', _Quiet(E.mod('io')).read_bgm_raw([p, p] if E.choice('list', [0, 1]) else p, ship, **kw))


def _r07_dgs(E):
    ship = E.choice('ship', ['Katama', 'DGS', '', 'revelle', 'Oceanus', 'atlantis', 'Thompson '])
    p = E.file('g.dat', _laptop_line(E, 'Atlantis', _When(), _values(E, 0, 21, ints=(6, 7))))
    _sentinel(E, 'sentinel', _Quiet(E.mod('io')).read_dgs_laptop([p, p] if E.choice('list', [0, 1]) else p, ship))


def _r07_reader(kind, nf, single=False):
    def case(E):
        calls = []
        rows = [[(E.real('a%d_%d' % (f, i), -1e6, 1e6), E.real('b%d_%d' % (f, i), -1e3, 1e3)) for i in range(1 + f % 2)] for f in range(nf)]
        drop = E.choice('drop', [0, 1])
        if drop:
            rows = [[(0.0, 0.0)] + r for r in rows]
        paths = [E.file('u%d.dat' % f, 'x\n') for f in range(nf)]

        def read(path):
            calls.append(path)
            f = paths.index(path)
            d = E.pd.DataFrame({'counts': E.array([a for a, _ in rows[f]]), 'other': E.array([b for _, b in rows[f]])})
            return d.iloc[1:] if drop else d        # the reader has dropped a record
        ship = E.choice('ship', ['Research', 'Atlantis', 'Thompson', '', 'Sikuliaq'])
        arg = paths[0] if single else paths
        io = _Quiet(E.mod('io'))
        if kind == 'bgm':
            sc = E.real('scale', 0, 10)
            if ship in SCALE and E.choice('db', [0, 1]):
                sc = SCALE[ship]
                got = io.read_bgm_raw(arg, ship, ship_function=read)
            else:
                got = io.read_bgm_raw(arg, ship, sc, ship_function=read)
        else:
            got = io.read_dgs_laptop(arg, ship, ship_function=read)
        E.true('calls', calls == paths)
        al = [r for f in rows for r in f[drop:]]
        E.true('rows', len(got) == len(al))
        E.true('row labels', list(got.index) == list(range(len(al))))
        for r, (a, b) in enumerate(al):
            E.close('counts %d' % r, got['counts'].values[r], a, tol=0.0)
            E.close('other %d' % r, got['other'].values[r], b, tol=0.0)
            if kind == 'bgm':
                E.close('gravity %d' % r, got['rgrav'].values[r], a * sc, tol=1e-5)
            else:
                E.true('columns %d' % r, list(got.columns) == ['counts', 'other'])
    return case


def _r07_same(kind, ship):
    """one path is read like a list of one path"""
    def case(E):
        w = _When(0, f='.250000')
        io = _Quiet(E.mod('io'))
        if kind == 'bgm':
            c, cv = E.field('c', 6)
            p = E.file('g.dat', _bgm_line(E, ship, w, c))
            a, b = io.read_bgm_raw(p, ship), io.read_bgm_raw([p], ship)
        else:
            p = E.file('g.dat', E.cat(SKQHEAD if ship == 'Sikuliaq' else '', _laptop_line(E, ship, w, _values(E, 0, 21, ints=(6, 7)))))
            a, b = io.read_dgs_laptop(p, ship), io.read_dgs_laptop([p], ship)
        E.true('columns', list(a.columns) == list(b.columns))
        E.true('rows', len(a) == len(b) == 1)
        for c in a.columns:
            if c not in ('date_time', 'date', 'time'):
                E.close(c, a[c].values[0], b[c].values[0], tol=0.0)
        E.instant('time', a['date_time'].iloc[0], w.us, tol=1)
        E.instant('time of list', b['date_time'].iloc[0], w.us, tol=1)
    return case


def R07(th):
    cs = [Case('BGM: unsupported ships', _r07_bgm, '8 ship names, with and without scale, path or list'), Case('DGS: unsupported ships', _r07_dgs, '7 ship names, path or list')]
    for k in ('bgm', 'dgs'):
        cs += [Case('%s: read function, %d files' % (k, n), _r07_reader(k, n), '%d files, 1 to 2 rows each, all values' % n) for n in (1, 2, 3)]
        cs.append(Case('%s: read function, single path' % k, _r07_reader(k, 1, True), 'one file'))
        cs.append(Case('%s: read function, 12 files' % k, _r07_reader(k, 12), '12 files, 1 to 2 rows each, all values'))
    return cs + [Case('bgm %s: path or list' % s, _r07_same('bgm', s), 'one record') for s in BGMSHIPS] + [
        Case('dgs %s: path or list' % s, _r07_same('dgs', s), 'one record') for s in ('Atlantis', 'Thompson', 'Sikuliaq', 'Langseth')]


# ------------------------------------------------------------------ R08
YAML = """Feed:
  category: "device_type"
  description: "attitude"
  format:
    ABZDA: '${:.2}ZDA,{Time:g},{Day:d}*{CheckSum:x}'
    PABCR: '$PABCR,{Time:g},{Heading:g},T,{Pitch:g}*{Check:x}'
    HEXYZ: '$HEXYZ,{Heading:og},{Mode:w},{Last:g}'
  fields:
    Time:
      units: "s"
      description: "UTC"
    Heading:
      units: "Degrees"
    Pitch:
      units: "Degrees"
"""
COLS = {'PABCR': ['Time:g', 'Heading:g', 'T', 'Pitch:g*Check:x'], 'HEXYZ': ['Heading:og', 'Mode:w', 'Last:g'], 'ABZDA': ['Time:g', 'Day:d*CheckSum:x']}


def _missing(E, v):
    if v is None:
        return True
    if isinstance(v, float):
        return v != v
    return len(v) == 0 if hasattr(v, 'strip') else False


def _feed_line(E, tag, i, kind, empty=()):
    """-> (text without the newline, expected fields or None, text before the tag)"""
    if kind not in ('tag', 'bare', 'posix', 'long', 'digits'):
        a = E.field('z%d' % i, 2)[0]
        t = {'foreign': '$PQRST,1.5,2.5,T,3*7', 'similar': '$PABC,1,2,T,3*7', 'mention': 'operator says %s is down' % tag, 'blank': '', 'text': 'nothing', 'other': '$HEHDT,123.4,T*18', 'many': '\n'.join(['$HEHDT,%d.4,T*18' % k for k in range(150)])}[kind]
        return E.cat(t, a if kind in ('foreign', 'text') else ''), None, None
    pre = {'tag': '2023-06-16T00:00:00.089227Z ', 'bare': '', 'posix': '1674228947.75 ', 'long': 'logged by the winch computer ' * 25, 'digits': '2023-06-16T00:00:00.089227Z '}[kind]
    f, want = [], []
    n = len(COLS[tag])
    for j in range(n):
        c = COLS[tag][j]
        if j in empty:
            f.append('')
            want.append(None)
        elif c == 'T' or c.endswith(':w'):
            x = E.char('w%d_%d' % (i, j), 'ABDNT')
            f.append(x)
            want.append(x)
        elif '*' in c:
            a = E.cat(E.field('k%d' % i, 2)[0], '*', E.char('x%d' % i, '0123456789ABCDEF'), E.char('y%d' % i, '0123456789ABCDEF'))
            f.append(a)
            want.append(a)
        elif j % 2 or kind in ('long', 'digits'):
            d, dv = E.field('d%d_%d' % (i, j), 3)
            e, ev = E.field('e%d_%d' % (i, j), 2)
            f.append(E.cat(d, '.', e))
            want.append(dv + ev / 100)
        else:
            t, v = E.num('n%d_%d' % (i, j), -1e5, 1e5)
            f.append(t)
            want.append(v)
    p = [pre, '$', tag]
    for x in f:
        p += [',', x]
    return E.cat(*p), want, pre


def _r08(tag, kinds, empty=None, end='\n', dollar=None, crlf=False):
    def case(E):
        lines, want = [], []
        nl = '\r\n' if crlf else '\n'
        for i, k in enumerate(kinds):
            t, w, pre = _feed_line(E, tag, i, k, (empty or {}).get(i, ()))
            lines += [t, nl if i < len(kinds) - 1 else ('' if end == '' else nl)]
            if w is not None:
                want.append((w, pre))
        y = E.file('feed.yaml', YAML)
        p = E.file('feed.txt', E.cat(*lines))
        io = E.mod('io')
        arg = ('$' if (E.choice('dollar', [0, 1]) if dollar is None else dollar) else '') + tag
        got, info = io.read_other_stuff(y, p, arg)
        cols = COLS[tag]
        E.true('columns', list(got.columns) == cols + ['mystery'])
        E.true('rows', len(got) == len(want))
        for r, (w, pre) in enumerate(want):
            for j, c in enumerate(cols):
                v = got[c].values[r]
                if w[j] is None:
                    E.true('%s %d is missing' % (c, r), _missing(E, v))
                elif hasattr(w[j], 'strip'):
                    E.eq('%s %d' % (c, r), v, w[j])
                else:
                    E.close('%s %d' % (c, r), v, w[j], tol=1e-9)
            m = got['mystery'].values[r]
            if pre == '':
                E.true('nothing before the tag %d' % r, _missing(E, m))
            elif pre.startswith('16'):
                E.close('number before the tag %d' % r, m if isinstance(m, (int, float)) else float(m), 1674228947.75, tol=1e-6)
            else:
                E.eq('text before the tag %d' % r, E.text(m).strip(), pre.strip())
        for c in cols:
            k = c.split(':')[0]
            E.true('info %s' % c, (c in info) == (k in ('Time', 'Heading', 'Pitch')))
    return case


def _r08refuse(E):
    """feeds without a format in the yaml file, or without a mention in the data file"""
    io = E.mod('io')
    y = E.file('feed.yaml', YAML)
    t, w, pre = _feed_line(E, 'PABCR', 0, 'tag', ())
    n = E.choice('foreign lines', [0, 1])
    p = E.file('feed.txt', E.cat(*([t, '\n'] + ['hello\n'] * n)))
    d = '$' if E.choice('dollar', [0, 1]) else ''
    tag = E.choice('tag', ['HEXYZ', 'ABZDA', 'QQQQQ', 'PABC', 'PABCRX', ''])
    E.raises('refused', Exception, lambda: io.read_other_stuff(y, p, d + tag))
    q = E.file('other.txt', 'hello\n')
    E.raises('refused, too', Exception, lambda: io.read_other_stuff(y, q, d + 'PABCR'))


def R08(th):
    cs = [Case('feeds that are not there', _r08refuse, '6 tags, 2 files')]
    for t in COLS:
        cs += [Case('%s: one line' % t, _r08(t, ['tag', 'foreign']), '2 lines'), Case('%s: only line' % t, _r08(t, ['tag']), '1 line'), Case('%s: last line' % t, _r08(t, ['foreign', 'tag']), '2 lines'),
               Case('%s: first and last' % t, _r08(t, ['bare', 'blank', 'tag']), '3 lines'), Case('%s: last line without newline' % t, _r08(t, ['tag', 'tag'], end=''), '2 lines')]
        for j in range(len(COLS[t])):
            cs.append(Case('%s: field %d empty' % (t, j), _r08(t, ['tag', 'bare', 'foreign'], {0: (j,)}), '3 lines'))
    cs += [Case('three lines', _r08('PABCR', ['tag', 'bare', 'posix']), '3 lines'), Case('CRLF', _r08('PABCR', ['tag', 'foreign', 'bare'], crlf=True), '3 lines'),
           Case('lines that mention the tag', _r08('PABCR', ['tag', 'mention', 'tag']), '3 lines'), Case('long text before the tag', _r08('HEXYZ', ['long', 'foreign', 'long', 'digits']), '4 lines, up to 800 characters'), Case('many foreign lines', _r08('HEXYZ', ['many', 'digits', 'many', 'digits']), '302 lines'),
           Case('similar tag', _r08('PABCR', ['similar', 'tag', 'other']), '3 lines'),
           Case('first two fields empty', _r08('PABCR', ['tag', 'foreign'], {0: (0, 1)}), '2 lines'), Case('last two fields empty', _r08('HEXYZ', ['tag', 'foreign'], {0: (1, 2)}), '2 lines'),
           Case('all fields empty', _r08('HEXYZ', ['tag', 'bare'], {0: (0, 1, 2)}), '2 lines'), Case('only mentions', _r08('PABCR', ['mention', 'foreign']), '2 lines, no sentence'), Case('foreign last without newline', _r08('HEXYZ', ['tag', 'text'], end=''), '2 lines')]
    if th:
        import itertools
        for k in itertools.product(['tag', 'bare', 'foreign', 'blank', 'mention'], repeat=3):
            if 'tag' in k or 'bare' in k:
                cs.append(Case('lines %s' % ' / '.join(k), _r08('PABCR', list(k)), '3 lines'))
                cs.append(Case('lines %s, no newline' % ' / '.join(k), _r08('HEXYZ', list(k), end=''), '3 lines'))
    return cs
