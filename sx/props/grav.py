"""C01-C07 (corrections), T01-T03 (platform tilt), X01-X02 (cross coupling)."""
import math
import numpy as np
from ..run import Case

W = 57.29577951308232
PI = math.pi
LONGREC = 1030
LONGTIDE = 400


def vals(E, nm, n, lo, hi):
    """n symbolic values; of a long series only the first, one near the middle and the last are symbolic"""
    if n < 100:
        return E.reals(nm, n, lo, hi)
    x = [lo + (hi - lo) * ((0.37 + 0.6180339887498949 * i) % 1.0) for i in range(n)]
    for i in (0, n // 2 + 3, n - 1):
        x[i] = E.real('%s%d' % (nm, i), lo, hi)
    return x


# ------------------------------------------------------------------ C01
GE, KK, E2 = 978032.53359, 0.00193185265241, 0.00669437999014


def _somigliana(E, lat):
    s = E.np.sin(lat / W)
    return GE * (1 + KK * s * s) / E.np.sqrt(1 - E2 * s * s)


def _c01(n):
    def case(E):
        lat = vals(E, 'lat', n, -90, 90)
        g = E.mod('grav').wgs_grav(E.array(lat))
        E.close('normal gravity', g, [_somigliana(E, x) for x in lat], tol=0.005)
        E.close('mirror image', E.mod('grav').wgs_grav(E.array([-x for x in lat])), g, tol=1e-6)
    return case


def _c01_fixed(E):
    g = E.mod('grav').wgs_grav(E.array([0.0, 90.0, -90.0, 45.0]))
    E.close('equator, poles, 45N', g, [978032.53359, 983218.49378, 983218.49378, 980619.777], tol=0.01)


def _c01_mono(E):
    """u, v: sines of two latitudes of one hemisphere"""
    u, v = E.real('u', 0, 1), E.real('v', 0, 1)
    E.assume(v - u >= 1e-4)
    np = E.np
    g = E.mod('grav').wgs_grav(E.array([np.arcsin(u) * W, np.arcsin(v) * W]))
    # both are positive, so squares compare alike
    E.true('positive', E.And(g[0] > 0, g[1] > 0))
    E.true('grows towards the pole', g[1] * g[1] > g[0] * g[0])


def _c01_scalar(E):
    x = E.real('lat', -90, 90)
    E.close('scalar latitude', E.mod('grav').wgs_grav(x), _somigliana(E, x), tol=0.005)


def C01(th):
    return [Case('closed form n=%d' % n, _c01(n), '%d latitudes in [-90,90]' % n) for n in [1, 2, 3, 4, LONGREC] + ([50] if th else [])] + [
        Case('published values', _c01_fixed, 'latitudes 0, 90, -90, 45'),
        Case('scalar', _c01_scalar, 'all latitudes'),
        Case('monotonic', _c01_mono, 'all pairs of sines of latitude at least 1e-4 apart', query_s=40)]


# ------------------------------------------------------------------ C02
def _c02(n, fw):
    def case(E):
        lat, h = vals(E, 'lat', n, -90, 90), vals(E, 'h', n, -10000, 10000)
        np, m = E.np, E.mod('grav')
        r = m.free_air_second_order(E.array(lat), E.array(h), free_water=True) if fw else m.free_air_second_order(E.array(lat), E.array(h))
        c = 0.22242 if fw else 0.3087691
        E.close('polynomial', r, [-(c - 0.0004398 * np.sin(lat[i] / W) * np.sin(lat[i] / W)) * h[i] + 7.2125e-8 * h[i] * h[i] for i in range(n)], tol=1e-7)
    return case


def _c02_sign(fw):
    def case(E):
        m = E.mod('grav')
        lat, h, d = E.real('lat', -90, 90), E.real('h', 0.01, 10000), E.real('d', 0.01, 10000)
        r = m.free_air_second_order(E.array([lat, lat, lat]), E.array([0.0, h, -d]), free_water=fw)
        E.close('zero at sea level', r[0], 0.0, tol=1e-12)
        E.true('negative above sea level', r[1] < 0)
        E.true('positive below sea level', r[2] > 0)
    return case


def _c02_scalar(E):
    lat, h = E.real('lat', -90, 90), E.real('h', -10000, 10000)
    s = E.np.sin(lat / W)
    E.close('scalars', E.mod('grav').free_air_second_order(lat, h), -(0.3087691 - 0.0004398 * s * s) * h + 7.2125e-8 * h * h, tol=1e-7)


def C02(th):
    cs = [Case('scalars', _c02_scalar, 'all')]
    for fw in (False, True):
        cs += [Case('n=%d free_water=%s' % (n, fw), _c02(n, fw), '%d samples, |lat|<=90, |h|<=10 km' % n) for n in [1, 2, 3, LONGREC] + ([40] if th else [])]
        cs.append(Case('sign free_water=%s' % fw, _c02_sign(fw), '|lat|<=90, 0.01 m<=|h|<=10 km'))
    return cs


# ------------------------------------------------------------------ C07
def _c07(n, order):
    def case(E):
        y, s = vals(E, 'y', n, -1e4, 1e4), E.real('samp', 0.001, 1000)
        r = E.mod('grav').center_diff(E.array(y), order, s)
        if order == 1:
            want = [(y[i + 1] - y[i - 1]) / 2 * s for i in range(1, n - 1)]
        elif order == 2:
            want = [(y[i + 1] - 2 * y[i] + y[i - 1]) * s * s for i in range(1, n - 1)]
        else:
            E.true('sentinel', not hasattr(r, 'shape') and r == -999)
            return
        E.close('difference', r, want, rel=1e-11)
    return case


def _c07_quad(n, order):
    def case(E):
        a, b, c, s = E.real('a', -100, 100), E.real('b', -100, 100), E.real('c', -100, 100), E.real('samp', 0.01, 100)
        t = [i / s for i in range(n)]
        r = E.mod('grav').center_diff(E.array([a + b * x + c * x * x for x in t]), order, s)
        E.close('exact on quadratics', r, [b + 2 * c * x for x in t[1:-1]] if order == 1 else [2 * c] * (n - 2), tol=1e-4)
    return case


def C07(th):
    ns = [3, 4, 5, 8, 12, LONGREC] + ([30, 60] if th else [])
    return [Case('order %d n=%d' % (o, n), _c07(n, o), '%d samples, all rates' % n) for o in (1, 2) for n in ns] + [
        Case('order %d refused' % o, _c07(5, o), '5 samples') for o in (-1, 0, 3, 4)] + [
        Case('quadratics order %d' % o, _c07_quad(5, o), '5 samples of any quadratic') for o in (1, 2)]


# ------------------------------------------------------------------ C03 / C04
WE = 0.00007292115


def _eotvos_ref(E, lat, lon, ht, f, a, b):
    """Vertical component (down positive) of the acceleration in Harlan's frame, scalar form, interior samples."""
    np = E.np
    e = (a - b) / a
    out = []
    for i in range(1, len(lat) - 1):
        d1 = lambda x: (x[i + 1] - x[i - 1]) * f / 2
        d2 = lambda x: (x[i + 1] - 2 * x[i] + x[i - 1]) * f * f
        fd, fdd, ld, ldd, hd, hdd = d1(lat) / W, d2(lat) / W, d1(lon) / W, d2(lon) / W, d1(ht), d2(ht)
        s, c = np.sin(lat[i] / W), np.cos(lat[i] / W)
        s2, c2 = 2 * s * c, 1 - 2 * s * s
        r = a * (1 - e * s * s)
        rd = -a * e * fd * s2
        rdd = -a * e * (fdd * s2 + 2 * fd * fd * c2)
        u = e * s2
        cD = (1 + u * u) ** -0.5
        sD = u * cD
        Dd = 2 * e * fd * c2
        Ddd = 2 * e * fdd * c2 - 4 * e * fd * fd * s2
        x, z = -r * sD, -r * cD - ht[i]
        xd = -(rd * sD + r * Dd * cD)
        zdd = -(rdd * cD - 2 * rd * Dd * sD - r * Ddd * sD - r * Dd * Dd * cD) - hdd
        wx, wy, wz = (ld + WE) * c, -fd, -(ld + WE) * s
        wyd = -fdd
        ex, ez = WE * c, -WE * s
        tot = zdd - 2 * wy * xd - wyd * x + wx * (wz * x) - z * (wx * wx + wy * wy)
        out.append((tot - (ex * ez * x - z * ex * ex)) * 1e5)
    return [out[0]] + out + [out[-1]]


def _ship(E, n, step=0.01):
    """tracks with small steps: any place, up to `step` degrees and 50 m around it"""
    lat0, lon0, h0 = E.real('lat', -89, 89), E.real('lon', -360, 360), E.real('ht', -100, 10000)
    return ([lat0 + E.real('dlat%d' % i, -step, step) for i in range(n)], [lon0 + E.real('dlon%d' % i, -step, step) for i in range(n)],
            [h0 + E.real('dht%d' % i, -50, 50) for i in range(n)])


def _c03s(n, axes):
    def case(E):
        lat, lon, ht = _ship(E, n)
        f = E.real('samp', 0.1, 10)
        m = E.mod('grav')
        if axes:
            a = E.real('a', 6e6, 7e6)
            b = a - E.real('ab', 0, 1e5)
            r = m.eotvos_full(E.array(lon), E.array(lat), E.array(ht), f, a=a, b=b)
        else:
            a, b = 6378137.0, 6356752.3142
            r = m.eotvos_full(E.array(lon), E.array(lat), E.array(ht), f)
        E.close('Harlan', r, _eotvos_ref(E, lat, lon, ht, f, a, b), tol=1e-3)
    return case


def _c03(n, axes, free=None):
    def case(E):
        lat0 = [20 + 0.001 * i - 0.0002 * i * i for i in range(n)]
        lon0 = [-30 + 0.002 * i + 0.0001 * i * i for i in range(n)]
        h0 = [3.0 + 0.2 * i - 0.05 * i * i for i in range(n)]
        if n > 100:
            lat0, lon0 = [20 + math.sin(0.003 * i) for i in range(n)], [-30 + math.cos(0.004 * i) for i in range(n)]
            h0 = [3.0 + math.sin(0.9 * i) for i in range(n)]
        fr = set(range(n)) if free is None else free
        lat = [E.real('lat%d' % i, -89, 89) if i in fr else lat0[i] for i in range(n)]
        lon = [E.real('lon%d' % i, -360, 360) if i in fr else lon0[i] for i in range(n)]
        ht = [E.real('ht%d' % i, -100, 10000) if i in fr else h0[i] for i in range(n)]
        f = E.real('samp', 0.01, 100)
        m = E.mod('grav')
        if axes:
            a, b = E.real('a', 6e6, 7e6), E.real('b', 5.9e6, 6.9e6)
            E.assume(b <= a)
            r = m.eotvos_full(E.array(lon), E.array(lat), E.array(ht), f, a=a, b=b)
        else:
            a, b = 6378137.0, 6356752.3142
            r = m.eotvos_full(E.array(lon), E.array(lat), E.array(ht), f)
        E.close('Harlan', r, _eotvos_ref(E, lat, lon, ht, f, a, b), rel=1e-11)
    return case


def C03(th):
    cs = [Case('WGS84 n=%d' % n, _c03(n, False), '%d samples, |lat|<=89, any longitude and height -0.1..10 km, rate 0.01..100' % n) for n in [3, 4, 5, 8] + ([12] if th else [])]
    b = '%d samples within 0.01 degree and 50 m of any position with |lat|<=89, rate 0.1..10, to 1e-3 mGal'
    cs += [Case('ship or aircraft n=%d' % n, _c03s(n, False), b % n) for n in [3, 4, 6] + ([10] if th else [])]
    cs += [Case('any ellipsoid n=%d' % n, _c03s(n, True), b % n + ', major axis 6..7e6 m, flattening up to 1/60') for n in ([3, 4] if th else [3])]
    cs.append(Case('long track', _c03(60 if th else 30, False, {14, 15, 16}), 'long track, 3 fixes symbolic'))
    cs.append(Case('very long track', _c03(LONGREC, False, {0, LONGREC // 2, LONGREC - 2}), '%d fixes, 3 symbolic' % LONGREC))
    return cs


def _c04_rest(n):
    def case(E):
        lat, lon, h, f = E.real('lat', -90, 90), E.real('lon', -360, 360), E.real('h', -100, 10000), E.real('samp', 0.01, 100)
        r = E.mod('grav').eotvos_full(E.array([lon] * n), E.array([lat] * n), E.array([h] * n), f)
        E.close('zero at rest', r, [0.0] * n, tol=1e-6)
    return case


def _c04_east(n, d):
    def case(E):
        """w: angular rate of the platform, rad/s"""
        np = E.np
        lat, lon, h, f = E.real('lat', -80, 80), E.real('lon', -180, 180), E.real('h', -100, 10000), E.real('samp', 0.1, 10)
        w = E.real('w', 1e-9, 1e-3) if d > 0 else -E.real('w', 1e-9, 1.99 * WE)
        r = E.mod('grav').eotvos_full(E.array([lon + w * W / f * i for i in range(n)]), E.array([lat] * n), E.array([h] * n), f)
        s, c = np.sin(lat / W), np.cos(lat / W)
        a, b = 6378137.0, 6356752.3142
        e = (a - b) / a
        u = 2 * e * s * c
        k = (1 + u * u) ** -0.5
        # distance from the axis divided by cos(lat)
        axis = a * (1 - e * s * s) * (1 + 2 * e * s * s) * k + h
        E.true('axis distance', axis > 6e6)
        want = ((WE + w) * (WE + w) - WE * WE) * axis * c * c * 1e5
        E.close('centripetal difference', r, [want] * n, tol=1e-5)
        # hence the sign: the smallest |want| here is 1e-3
    return case


def _c04_sym(n):
    def case(E):
        lat, lon, h = _ship(E, n)
        f, k = E.real('samp', 0.1, 10), E.real('shift', -360, 360)
        g = E.mod('grav').eotvos_full
        r = g(E.array(lon), E.array(lat), E.array(h), f)
        E.close('longitude shift', g(E.array([x + k for x in lon]), E.array(lat), E.array(h), f), r, tol=1e-3)
        E.close('mirror in the equator', g(E.array(lon), E.array([-x for x in lat]), E.array(h), f), r, tol=1e-3)
    return case


def C04(th):
    ns = [3, 4, 6] + ([10] if th else [])
    return [Case('rest n=%d' % n, _c04_rest(n), '%d samples' % n) for n in ns] + [
        Case('symmetries n=%d' % n, _c04_sym(n), '%d samples' % n) for n in ns] + [
        Case('%s n=%d' % (('west', 'east')[d > 0], n), _c04_east(n, d), '%d samples, |lat|<=80, all speeds' % n, query_s=60) for d in (1, -1) for n in ([3, 5] if not th else ns)]


# ------------------------------------------------------------------ C05 / C06
ORIGIN = -2209032000     # 1899-12-31 12:00 UTC, seconds after 1970


def _longman_ref(E, lon, lat, sec, alt):
    """Longman (1959); sec: whole seconds after 1970-01-01 UTC"""
    np = E.np
    sin, cos = np.sin, np.cos
    T = (sec - ORIGIN) / (86400.0 * 36525)
    mu, M, Sm, e, m, c, c1 = 6.673e-8, 7.3537e25, 1.993e33, 0.05490, 0.074804, 3.84402e10, 1.495e13
    a, i, om = 6.378270e8, 0.08979719, 23.452 / W
    la = lat / W
    s = 4.720023434 + 8399.709299 * T + 0.0000440696 * T * T
    p = 5.835124713 + 71.01800936 * T - 0.000180545 * T * T - 0.00000021817 * T * T * T
    h = 4.88162792 + 628.3319509 * T + 0.00000527962 * T * T
    N = 4.523588564 - 33.75715303 * T + 0.000036749 * T * T
    cI = math.cos(om) * math.cos(i) - math.sin(om) * math.sin(i) * cos(N)
    sI = np.sqrt(1 - cI * cI)
    nu = np.arcsin(math.sin(i) * sin(N) / sI)
    # hour angle of the mean sun, westward
    t = (15.0 * (sec / 3600.0 - 12) + lon) / W
    chi = t + h - nu
    ca = cos(N) * cos(nu) + sin(N) * sin(nu) * math.cos(om)
    sa = math.sin(om) * sin(N) / sI
    al = 2 * np.arctan(sa / (1 + ca))
    sg = s - (N - al)
    l = sg + 2 * e * sin(s - p) + 1.25 * e * e * sin(2 * (s - p)) + 3.75 * m * e * sin(s - 2 * h + p) + 1.375 * m * m * sin(2 * (s - h))
    p1 = 4.908229461 + 0.03000526416 * T + 0.000007902463 * T * T
    e1 = 0.01675104 - 0.0000418 * T - 0.000000126 * T * T
    chi1 = t + h
    l1 = h + 2 * e1 * sin(h - p1)
    ct = sin(la) * sI * sin(l) + cos(la) * ((1 + cI) / 2 * cos(l - chi) + (1 - cI) / 2 * cos(l + chi))
    cp = sin(la) * math.sin(om) * sin(l1) + cos(la) * ((1 + math.cos(om)) / 2 * cos(l1 - chi1) + (1 - math.cos(om)) / 2 * cos(l1 + chi1))
    r = a * (1 + 0.006738 * sin(la) * sin(la)) ** -0.5 + alt * 100.0
    ap, ap1 = 1 / (c * (1 - e * e)), 1 / (c1 * (1 - e1 * e1))
    di = 1 / c + ap * e * cos(s - p) + ap * e * e * cos(2 * (s - p)) + 1.875 * ap * m * e * cos(s - 2 * h + p) + ap * m * m * cos(2 * (s - h))
    Di = 1 / c1 + ap1 * e1 * cos(h - p1)
    love = 1 + 0.612 - 1.5 * 0.303
    gm = mu * M * r * di * di * di * (3 * ct * ct - 1) + 1.5 * mu * M * r * r * di * di * di * di * (5 * ct * ct * ct - 3 * ct)
    gs = mu * Sm * r * Di * Di * Di * (3 * cp * cp - 1)
    return gm * 1e3 * love, gs * 1e3 * love




S0, S1 = -2208988800, 4102444800     # 1900-01-01, 2100-01-01


def _stamp(E, k, tz=False):
    """an aware time stamp of any second and its instant"""
    sec = E.int('sec%d' % k, S0, S1 - 1)
    stamp = E.datetime(1970, 1, 1, tzinfo=E.tz(0)) + E.delta(sec)
    if tz:
        stamp = stamp.astimezone(E.tz(E.int('off%d' % k, -840, 840)))
    return stamp, sec


def _tide(E, lon, lat, stamps, alt=None, **k):
    f = E.mod('grav').longman_tide_prediction
    return f(E.array(lon), E.array(lat), stamps, **k) if alt is None else f(E.array(lon), E.array(lat), stamps, alt=alt, **k)


def _c05(n, alt, tz=False):
    def case(E):
        lon, lat = vals(E, 'lon', n, -360, 360), vals(E, 'lat', n, -90, 90)
        if n < 100:
            st = [_stamp(E, k, tz=tz) for k in range(n)]
        else:
            sec = [1.6e9 + 3607 * k for k in range(n)]
            st = [_stamp(E, k, tz=tz) if k in (0, n // 2, n - 1) else (E.datetime(1970, 1, 1, tzinfo=E.tz(0)) + E.delta(int(sec[k])), int(sec[k])) for k in range(n)]
        h = vals(E, 'alt', n, 0, 10000) if alt else [0.0] * n
        ref = [_longman_ref(E, lon[k], lat[k], st[k][1], h[k]) for k in range(n)]
        a = E.array(h) if alt else None
        g = _tide(E, lon, lat, [s for s, _ in st], a)
        E.close('total', g, [x + y for x, y in ref], tol=2e-8)
        g0, gm, gs = _tide(E, lon, lat, [s for s, _ in st], a, return_components=True)
        E.close('total with components', g0, [x + y for x, y in ref], tol=2e-8)
        E.close('lunar', gm, [x for x, y in ref], tol=2e-8)
        E.close('solar', gs, [y for x, y in ref], tol=2e-8)
    return case


def _c05_refuse(E):
    n, m, k = E.choice('n', [1, 2, 3]), E.choice('m', [1, 2, 3]), E.choice('k', [1, 2, 3])
    lon, lat = E.reals('lon', n, -180, 180), E.reals('lat', m, -90, 90)
    st = [E.datetime(2022, 6, 7, 1, 2, 3 + i, tzinfo=E.tz(0)) for i in range(k)]
    if n == m == k:
        E.true('length', len(_tide(E, lon, lat, st)) == n)
    else:
        E.raises('refused', AssertionError, lambda: _tide(E, lon, lat, st))


def _c05_scalar_alt(E):
    lon, lat, h = E.real('lon', -360, 360), E.real('lat', -90, 90), E.real('alt', -100, 10000)
    s, sec = _stamp(E, 0)
    x, y = _longman_ref(E, lon, lat, sec, h)
    E.close('one altitude for all', _tide(E, [lon, lon], [lat, lat], [s, s], h), [x + y] * 2, tol=2e-8)


def C05(th):
    b = '%d samples, |lon|<=360, |lat|<=90, every second 1900-2099'
    return [Case('UTC stamps n=%d' % n, _c05(n, False), b % n) for n in ([1, 2, 3])] + [
        Case('with altitude n=%d' % n, _c05(n, True), b % n + ', altitudes 0..10 km') for n in ([1, 2] + ([3] if th else []))] + [
        Case('long series', _c05(LONGTIDE, True), '%d samples, few symbolic' % LONGTIDE), Case('one altitude', _c05_scalar_alt, b % 2), Case('dates', _c05_date, 'all days 1900-2099, one place and clock'),
        Case('clocks', _c05_clock, 'hours, minutes and seconds of one day, one place'), Case('lengths', _c05_refuse, 'lengths 1..3')]


def _c06_zone(E):
    lon, lat = E.real('lon', -360, 360), E.real('lat', -90, 90)
    u, sec = _stamp(E, 0)
    g = _tide(E, [lon, lon], [lat, lat], [u, u.astimezone(E.tz(E.int('off', -840, 840)))])
    E.close('zone does not matter', g[1], g[0], tol=2e-8)


def _c06_clock(E):
    """the same clock text in several zones, in one call and in consecutive calls"""
    lon, lat = E.real('lon', -360, 360), E.real('lat', -90, 90)
    for off in (60, -300, 345):
        zoned, plain = (E.datetime(2019, 3, 4, 5, 6, 7, tzinfo=E.tz(o)) for o in (off, 0))
        true = zoned.astimezone(E.tz(0))
        g = _tide(E, [lon] * 3, [lat] * 3, [plain, zoned, true])
        E.close('zone %d in one call' % off, g[1], g[2], tol=2e-8)
        E.close('zone %d in another call' % off, _tide(E, [lon], [lat], [zoned])[0], g[2], tol=2e-8)
        E.close('zone %d, the clock in UTC' % off, _tide(E, [lon], [lat], [plain])[0], sum(_longman_ref(E, lon, lat, E.days(2019, 3, 4) * 86400 + 18367, 0.0)), tol=2e-8)


def _c05_date(E):
    """stamps given by calendar fields"""
    lon, lat = 123.4, -33.3
    y, mo, d = E.int('y', 1900, 2099), E.int('mo', 1, 12), E.int('d', 1, 31)
    E.assume(E.validdate(y, mo, d))
    a, b = _longman_ref(E, lon, lat, E.days(y, mo, d) * 86400 + 40210, 0.0)
    E.close('tide of a date', _tide(E, [lon], [lat], [E.datetime(y, mo, d, 11, 10, 10, tzinfo=E.tz(0))])[0], a + b, tol=2e-8)


def _c05_clock(E):
    lon, lat = -60.1, 12.3
    H, M, S = 13, 47, 21
    k = E.choice('k', [0, 1, 2])
    if k == 0:
        H = E.int('H', 0, 23)
    elif k == 1:
        M = E.int('M', 0, 59)
    else:
        S = E.int('S', 0, 59)
    a, b = _longman_ref(E, lon, lat, E.days(2016, 2, 29) * 86400 + H * 3600 + M * 60 + S, 0.0)
    E.close('tide of a clock', _tide(E, [lon], [lat], [E.datetime(2016, 2, 29, H, M, S, tzinfo=E.tz(0))])[0], a + b, tol=2e-8)


def _c06_turn(E):
    lon, lat, k = E.real('lon', -360, 360), E.real('lat', -90, 90), E.choice('k', [1, -1, 2])
    s, sec = _stamp(E, 0)
    g = _tide(E, [lon, lon + 360.0 * k], [lat, lat], [s, s])
    E.close('longitude modulo 360', g[1], g[0], tol=1e-6)


def _c06_step(date):
    def case(E):
        _step(E, date)
    return case


def _step(E, date):
    """dates reached by adding seconds equal the instant's tide"""
    lon, lat = E.real('lon', -360, 360), E.real('lat', -90, 90)
    y, mo, d = date
    H, M, S, n = 23, 59, E.int('S', 0, 59), E.choice('n', [1, 59, 3600, 43200, 86399, 86400, 100000])
    u = E.datetime(y, mo, d, H, M, S, tzinfo=E.tz(0))
    v = u + E.delta(n)
    a, b = _longman_ref(E, lon, lat, E.days(y, mo, d) * 86400 + H * 3600 + M * 60 + S + n, 0.0)
    E.close('tide of the later instant', _tide(E, [lon], [lat], [v])[0], a + b, tol=1e-6)


def C06(th):
    return [Case('time zones', _c06_zone, 'every second 1900-2099, offsets +/-14 h'), Case('formula in any zone', _c05(1, False, True), 'every second 1900-2099, local stamps at +/-14 h'),
            Case('same clock, other zones', _c06_clock, 'free position, 3 zones'),
            Case('turns', _c06_turn, 'lon + 360 k, k in 1, -1, 2')] + [
        Case('steps from %d-%d-%d' % x, _c06_step(x), '7 steps from the last minute of the day') for x in [(2020, 2, 28), (2019, 12, 31), (2022, 6, 30)] + ([(2000, 2, 29), (1999, 2, 28), (1950, 7, 4)] if th else [])]


# ------------------------------------------------------------------ T01 - T03
def _coef(E, per, dt, damp):
    """platform filter: H(s) = (wS^2 - w0^2 - 2 z w0 s)/(s^2 + 2 z w0 s + w0^2) at s = (2/dt)(1-q)/(1+q), frequencies pre-warped"""
    np = E.np
    w0 = 2 / dt * np.tan(PI * dt / per)
    wS = 2 / dt * np.tan(dt / 2 * math.sqrt(9.8 / 6371100))
    k, z = 2 / dt, 2 * damp * w0
    A, B = wS * wS - w0 * w0, z * k
    num = (A - B, 2 * A, A + B)
    den = (k * k + B + w0 * w0, 2 * (w0 * w0 - k * k), k * k - B + w0 * w0)
    return num, den


def _response(E, num, den, x):
    b, a = [E.let(v / den[0]) for v in num], [E.let(v / den[0]) for v in den]
    y = []
    for i in range(len(x)):
        y.append(sum(b[j] * x[i - j] for j in range(3) if i >= j) - sum(a[j] * y[i - j] for j in (1, 2) if i >= j))
    return y


def _vectors(E, c, l):
    """rotations of vertical by atan(c), atan(l)"""
    out = [[], [], []]
    for i in range(len(c)):
        hc, hl = (1 + c[i] * c[i]) ** -0.5, (1 + l[i] * l[i]) ** -0.5
        sc, sl = c[i] * hc, l[i] * hl
        v = (-sc * hl, -sl, hc * hl) if i % 2 == 0 else (-sc, -sl * hc, hl * hc)
        for k in range(3):
            out[k].append(v[k])
    return out


def _up(E, dt, g, c, l, on, P):
    return E.mod('grav').up_vecs(dt, E.array(g), E.array(c), E.array(l), on if not isinstance(on, list) else E.array(on), *P)


def _acc(E, n):
    return E.reals('c', n, -1e5, 1e5), E.reals('l', n, -1e5, 1e5), E.reals('g', n, 9.7e5, 9.9e5)


P0 = (240.0, 0.7, 260.0, 0.8)


def _t01(n, dt=1.0, P=P0):
    def case(E):
        c, l, g = _acc(E, n)
        r = _up(E, dt, g, c, l, [0.0] * n, P)
        E.true('shape', getattr(r, 'shape', None) == (3, n))
        nc, dc = _coef(E, P[0], dt, P[1])
        nl, dl = _coef(E, P[2], dt, P[3])
        w = _vectors(E, _response(E, nc, dc, [a / b for a, b in zip(c, g)]), _response(E, nl, dl, [a / b for a, b in zip(l, g)]))
        for k, nm in enumerate(('cross', 'long', 'up')):
            E.close(nm, r[k], w[k], tol=2e-12)
        E.close('unit length', [r[0][i] * r[0][i] + r[1][i] * r[1][i] + r[2][i] * r[2][i] for i in range(n)], [1.0] * n, tol=1e-9)
        for i in range(n):
            E.true('positive vertical %d' % i, r[2][i] > 0)
    return case


def _t01_zero(n):
    def case(E):
        P = (E.real('cper', 60, 600), E.real('cdamp', 0.1, 2), E.real('lper', 60, 600), E.real('ldamp', 0.1, 2))
        r = _up(E, E.real('dt', 0.1, 10), E.reals('g', n, 9.7e5, 9.9e5), [0.0] * n, [0.0] * n, [0.0] * n, P)
        E.close('vertical', r, [[0.0] * n, [0.0] * n, [1.0] * n], tol=1e-12)
    return case


def _one_hot(n, j, dt, P, lim=1e5):
    def case(E):
        """one symbolic sample in a fixed record"""
        c = [2e4 * math.sin(0.7 * i) for i in range(n)]
        l = [1e4 * math.cos(0.4 * i) - 1e4 for i in range(n)]
        g = [980000.0 + i for i in range(n)]
        c[j], l[j] = E.real('c', -lim, lim), E.real('l', -lim, lim)
        r = _up(E, dt, g, c, l, [0.0] * n, P)
        nc, dc = _coef(E, P[0], dt, P[1] or math.sqrt(2) / 2)
        nl, dl = _coef(E, P[2], dt, P[3] or math.sqrt(2) / 2)
        w = _vectors(E, _response(E, nc, dc, [a / b for a, b in zip(c, g)]), _response(E, nl, dl, [a / b for a, b in zip(l, g)]))
        for k, nm in enumerate(('cross', 'long', 'up')):
            E.close(nm, r[k], w[k], tol=2e-12)
    return case


def T01(th):
    return [Case('n=%d' % n, _t01(n), '%d samples, all accelerations to 1 Gal/10 and gravities; dt=1 s, periods 240/260 s' % n) for n in [1, 2, 3, 4, 5, 6] + ([8] if th else [])] + [
        Case('large acceleration', _one_hot(12, 3, 1.0, P0, 1e7), '12 samples, one with accelerations up to ten times gravity'),
        Case('dt=0.1', _t01(4, 0.1, (57.0, 1.3, 300.0, 0.2)), '4 samples'),
        Case('zero accelerations n=6', _t01_zero(6), '6 samples, all periods, dampings, gravities, intervals'),
        Case('long record', _one_hot(40, 7, 1.0, P0), '40 samples, one symbolic'),
        Case('very long record', _one_hot(LONGREC, LONGREC - 30, 1.0, P0), '%d samples, one symbolic' % LONGREC)]


def _t02(n, which):
    def case(E):
        c, l, g = _acc(E, n)
        dt = E.real('dt', 0.1, 10) if 'dt' in which else 1.0
        pc, pl = (E.real('cper', 60, 600), E.real('lper', 60, 600)) if 'per' in which else (240.0, 270.0)
        dc, dl = (E.real('cdamp', 0.05, 2), E.real('ldamp', 0.05, 2)) if 'damp' in which else (0, 0.6)
        if 'zero' in which:
            dc, dl = E.choice('z', [(0, 0.6), (0.6, 0.0), (0, 0), (0.5, 0.6)])
        r = _up(E, dt, g, c, l, [0.0] * n, (pc, dc, pl, dl))
        f = lambda z: math.sqrt(2) / 2 if isinstance(z, (int, float)) and z == 0 else z
        n1, d1 = _coef(E, pc, dt, f(dc))
        n2, d2 = _coef(E, pl, dt, f(dl))
        w = _vectors(E, _response(E, n1, d1, [a / b for a, b in zip(c, g)]), _response(E, n2, d2, [a / b for a, b in zip(l, g)]))
        for k, nm in enumerate(('cross', 'long', 'up')):
            E.close(nm, r[k], w[k], tol=2e-12)
    return case


def _t02_causal(n):
    def case(E):
        """a change of later samples or of the other axis changes nothing earlier / on this axis"""
        c, l, g = _acc(E, n)
        j = E.choice('j', list(range(n)))
        c2 = c[:j] + E.reals('x', n - j, -1e5, 1e5)
        l2 = l[:j] + E.reals('y', n - j, -1e5, 1e5)
        r, r2 = _up(E, 1.0, g, c, l, [0.0] * n, P0), _up(E, 1.0, g, c2, l2, [0.0] * n, P0)
        for k in range(3):
            E.close('past of component %d' % k, r2[k][:j], r[k][:j], tol=1e-10)
        r3 = _up(E, 1.0, g, c, l2, [0.0] * n, P0)
        for i in range(n):
            E.close('cross ratio %d' % i, r3[0][i] / r3[2][i] if i % 2 == 0 else r3[0][i], r[0][i] / r[2][i] if i % 2 == 0 else r[0][i], tol=1e-9)
    return case


def T02(th):
    return [Case('periods n=5', _t02(5, ('per',)), '5 samples, all periods 60..600'),
            Case('dampings n=6', _t02(6, ('damp',)), '6 samples, all dampings 0.05..2'),
            Case('interval n=%d' % (5 if th else 4), _t02(5 if th else 4, ('dt',)), '4 (thorough 5) samples, dt 0.1..10'),
            Case('zero damping n=3', _t02(3, ('zero',)), '3 samples, damping 0 on either or both axes'),
            Case('everything n=3', _t02(3, ('per', 'damp', 'dt')), '3 samples, all parameters'),
            Case('large acceleration', _one_hot(9, 2, 5.0, (120.0, 0.5, 240.0, 0), 1e7), '9 samples, one with accelerations up to ten times gravity'),
            Case('light damping', _one_hot(9, 2, 1.0, (240.0, 0.004, 120.0, 1e-4)), '9 samples, one symbolic, dampings 0.004 and 0.0001'),
            Case('heavy damping', _one_hot(9, 2, 1.0, (240.0, 20.0, 120.0, 7.0)), '9 samples, one symbolic, dampings 20 and 7'),
            Case('causal n=4', _t02_causal(4), '4 samples'),
            Case('long record', _one_hot(60, 20, 2.0, (120.0, 0.5, 240.0, 0.9)), '60 samples, one symbolic'),
            Case('very long record', _one_hot(LONGREC, LONGREC - 40, 2.0, (120.0, 0.5, 240.0, 0)), '%d samples, one symbolic' % LONGREC)] + (
        [Case('everything n=4', _t02(4, ('per', 'damp', 'dt')), '4 samples, all parameters', query_s=120, budget=1500)] if th else [])


NAN = float('nan')


def _t03(n, kinds, scalar=None):
    def case(E):
        c, l, g = _acc(E, n)
        on = []
        c0, l0, c1, l1, g1 = list(c), list(l), list(c), list(l), list(g)
        for i in range(n):
            k = E.choice('k%d' % i, kinds)
            on.append(E.real('f%d' % i, 0.001, 5) if 'flag' in k else -E.real('f%d' % i, 0, 5) if 'neg' in k else 0.0)
            if 'c' in k:
                c1[i] = NAN
            if 'l' in k:
                l1[i] = NAN
            if 'g' in k:
                g1[i] = NAN
            if 'c' in k or 'flag' in k or 'g' in k:
                c0[i] = 0.0
            if 'l' in k or 'flag' in k or 'g' in k:
                l0[i] = 0.0
        r = _up(E, 1.0, g1, c1, l1, on, P0)
        w = _up(E, 1.0, g, c0, l0, [0.0] * n, P0)
        for i in range(n):
            for k in range(3):
                E.true('finite %d %d' % (k, i), E.Not(E.isnan(r[k][i])))
        E.close('as with zeros', r, w, tol=1e-10)
        nc, dc = _coef(E, P0[0], 1.0, P0[1])
        nl, dl = _coef(E, P0[2], 1.0, P0[3])
        E.close('as the filter of zeroed data', r, _vectors(E, _response(E, nc, dc, [a / b for a, b in zip(c0, g)]), _response(E, nl, dl, [a / b for a, b in zip(l0, g)])), tol=1e-9)
    return case


def _t03_long(n):
    def case(E):
        """a long record; one kind of bad sample late in it, others at fixed places"""
        c = [2e4 * math.sin(0.7 * i) for i in range(n)]
        l = [1e4 * math.cos(0.4 * i) - 1e4 for i in range(n)]
        g = [980000.0 + i for i in range(n)]
        j = n - 20
        c[j], l[j] = E.real('c', -1e5, 1e5), E.real('l', -1e5, 1e5)
        on = [0.0] * n
        c0, l0, c1, l1, g1 = list(c), list(l), list(c), list(l), list(g)
        bad = {3: 'c', 4: 'l', 5: 'flag', 300: 'g', 510: 'flag', 511: 'c', 512: 'l', 513: 'g', j - 3: 'flag', n - 2: 'c', n - 1: 'g', j: E.choice('k', ['', 'c', 'l', 'g', 'flag'])}
        for i, k in bad.items():
            if k == 'c':
                c1[i] = NAN
            if k == 'l':
                l1[i] = NAN
            if k == 'g':
                g1[i] = NAN
            if k == 'flag':
                on[i] = 1.0
            if k in ('c', 'flag', 'g'):
                c0[i] = 0.0
            if k in ('l', 'flag', 'g'):
                l0[i] = 0.0
        E.close('as with zeros', _up(E, 1.0, g1, c1, l1, on, P0), _up(E, 1.0, g, c0, l0, [0.0] * n, P0), tol=1e-10)
    return case


def _t03_scalar(E):
    c, l, g = _acc(E, 3)
    f = E.choice('f', [0, 1, 0.0, -1])
    r = _up(E, 1.0, g, c, l, f, P0)
    w = _up(E, 1.0, g, c if f <= 0 else [0.0] * 3, l if f <= 0 else [0.0] * 3, [0.0] * 3, P0)
    E.close('one flag for all', r, w, tol=1e-10)


def T03(th):
    ks = [(), ('c',), ('l',), ('c', 'l'), ('flag',), ('g',), ('neg',), ('c', 'flag'), ('l', 'g')]
    return [Case('patterns n=1', _t03(1, ks), '1 sample, 9 kinds'), Case('patterns n=2', _t03(2, ks), '2 samples, 81 patterns'),
            Case('patterns n=3', _t03(3, ks[:1] + ks[3:6] if not th else ks), '3 samples, kinds ' + str(ks[:1] + ks[3:6] if not th else ks)),
            Case('nan patterns n=4', _t03(4, [(), ('c', 'l')] + ([('flag',), ('g',)] if th else [])), '4 samples'),
            Case('scalar flag', _t03_scalar, '3 samples'),
            Case('very long record', _t03_long(LONGREC), '%d samples, twelve bad, one of them symbolic' % LONGREC)]


# --------------------------------------------------------------------------- cross coupling
NAMES = ('ve', 'vcc', 'al', 'ax', 'lev')


def _monitors(n, seed):
    """six fixed series with power in the pass band of the filter: ve, vcc, al, ax, lev and an anomaly"""
    r = np.random.default_rng(seed)
    t = np.arange(n)
    return [sum(a * np.sin(2 * np.pi * t / p + ph) for a, p, ph in zip(r.uniform(20, 100, 4), r.uniform(90, 700, 4), r.uniform(0, 6, 4))) + r.normal(0, 1, n) for _ in range(6)]


def _kernel():
    t = np.array([1 / 1260, -5 / 504, 5 / 84, -5 / 21, 5 / 6, 0, -5 / 6, 5 / 21, -5 / 84, 5 / 504, -1 / 1260])
    m = np.arange(200) - 99.5
    b = np.sinc(m / 200) * (0.42 - 0.5 * np.cos(2 * np.pi * np.arange(200) / 199) + 0.08 * np.cos(4 * np.pi * np.arange(200) / 199))
    return np.convolve(np.convolve(t, t), b / b.sum())


def _ccref(E, xs):
    """doubly differenced, low-passed, trimmed series of one continuous section"""
    return E.np.convolve(xs, _kernel(), 'valid')[1:-200]


def _ccp(E, faa, m, times=None, samplerate=None):
    ve, vcc, al, ax, lev = m
    k = {}
    if times is not None:
        k['times'] = E.array(times)
    if samplerate is not None:
        k['samplerate'] = samplerate
    return E.mod('grav').calc_cross_coupling_coefficients(E.array(faa), E.array(vcc), E.array(ve), E.array(al), E.array(ax), E.array(lev), **k)


def _ramp(E, x, off, slope):
    return [v + off + slope * i for i, v in enumerate(x)]


def _x01(n, seed):
    def case(E):
        m = _monitors(n, seed)[:5]
        c = [E.real('c_' + k, -10, 10) for k in NAMES]
        off, sl = E.real('const', -100, 100), E.real('trend', -1, 1)
        faa = [sum(c[k] * m[k][i] for k in range(5)) + off + sl * i for i in range(n)]
        df, mod = _ccp(E, faa, m)
        ref = [_ccref(E, x) for x in m]
        E.true('columns', sorted(df.columns) == sorted(NAMES + ('g',)))
        for k, nm in enumerate(NAMES):
            E.close('coefficient of ' + nm, mod.params[nm], -c[k], tol=1e-6)
            E.close('table ' + nm, df[nm], ref[k], rel=1e-7)
        E.close('table g', df['g'], [-sum(c[k] * ref[k][i] for k in range(5)) for i in range(n - 420)], rel=1e-7)
    return case


def _x01_any(n, seed, js):
    """an anomaly that is not a combination: least squares of the filtered series"""
    def case(E):
        m = _monitors(n, seed)
        faa = [v + 0.0 for v in m[5]]
        for j in js:
            faa[j] = E.real('faa%d' % j, -200, 200)
        df, mod = _ccp(E, faa, m[:5])
        ref = [_ccref(E, x) for x in m[:5]]
        g = _ccref(E, E.array(faa)) * -1.0
        E.close('table g', df['g'], g, rel=1e-7)
        X = np.column_stack([np.ones(n - 420)] + ref)
        p = E.np.matmul(np.linalg.pinv(X), g)
        for k, nm in enumerate(('const',) + NAMES):
            E.close('coefficient of ' + nm, mod.params[nm], p[k], rel=1e-6)
    return case


def _x01_shift(n, seed):
    """constants and trends on every input change nothing"""
    def case(E):
        m = _monitors(n, seed)
        o = [E.real('o%d' % k, -100, 100) for k in range(6)]
        s = [E.real('s%d' % k, -0.5, 0.5) for k in range(6)]
        df, mod = _ccp(E, m[5], m[:5])
        df2, mod2 = _ccp(E, _ramp(E, m[5], o[5], s[5]), [_ramp(E, m[k], o[k], s[k]) for k in range(5)])
        for k, nm in enumerate(NAMES + ('g',)):
            E.close('table ' + nm, df2[nm], df[nm], tol=1e-8)
        for nm in NAMES:
            E.close('coefficient of ' + nm, mod2.params[nm], mod.params[nm], tol=1e-5)
    return case


def _x01_zero_level(E):
    """no tilt correction: a vector of zeros"""
    n = 1020
    m = _monitors(n, 5)[:4] + [np.zeros(n)]
    c = [E.real('c_' + k, -10, 10) for k in NAMES[:4]]
    df, mod = _ccp(E, [sum(c[k] * m[k][i] for k in range(4)) for i in range(n)], m)
    for k, nm in enumerate(NAMES[:4]):
        E.close('coefficient of ' + nm, mod.params[nm], -c[k], tol=1e-6)
    E.close('lev column', df['lev'], [0.0] * (n - 420), tol=1e-12)


def X01(th):
    return [Case('combination n=1000', _x01(1000, 1), '1000 samples of fixed monitors; five coefficients, constant and trend of the anomaly symbolic'),
            Case('combination n=1301', _x01(1301, 2), '1301 samples'),
            Case('free anomaly samples', _x01_any(1005, 3, [0, 1, 5, 19, 20, 210, 500, 703, 804, 900, 1004]), '1005 samples, 11 anomaly samples free'),
            Case('constants and trends', _x01_shift(1010, 4), '1010 samples, offset and slope of all six inputs symbolic'),
            Case('zero level', _x01_zero_level, '1020 samples')] + (
        [Case('combination n=2500', _x01(2500, 6), '2500 samples'), Case('constants and trends n=3000', _x01_shift(3000, 7), '3000 samples')] if th else [])


def _x02(lens, seed, gaps=None, rate=None, dt=1.0):
    """sections of the given lengths separated by symbolic gaps; each section of each input has its own symbolic offset"""
    def case(E):
        n = sum(lens)
        m = _monitors(n, seed)
        g = [E.real('gap%d' % k, *(gaps or (0.5, 20))) for k in range(len(lens) - 1)]
        fs = E.real('samplerate', *rate) if rate else 1
        off = [[E.real('o%d.%d' % (k, s), -100, 100) for s in range(len(lens))] for k in range(6)]
        if gaps and gaps[1] <= 5:
            off[:5] = [[o[0]] * len(lens) for o in off[:5]]      # one section: only the anomaly may step
        x = [[] for _ in range(6)]
        times, t, i = [], 1000.0, 0
        for s, L in enumerate(lens):
            for j in range(L):
                times.append(t)
                t = t + (dt if j < L - 1 else (g[s] if s < len(g) else 0))
                for k in range(6):
                    x[k].append(m[k][i] + off[k][s])
                i += 1
        df, mod = _ccp(E, x[5], x[:5], times, None if rate is None else fs)
        split = [bool(v > 5 * fs) for v in g]
        E.assume(E.And(dt <= 5 * fs))
        secs, a, b = [], 0, lens[0]
        for s in range(len(g)):
            if split[s]:
                secs.append((a, b))
                a = b
            b += lens[s + 1]
        secs.append((a, b))
        secs = [q for q in secs if q[1] - q[0] >= 1000]
        ref = [[] for _ in range(6)]
        for a, b in secs:
            for k in range(6):
                ref[k].extend(list(_ccref(E, E.array(x[k][a:b]))))
        ref[5] = [-v for v in ref[5]]
        E.true('rows', len(df) == sum(b - a - 420 for a, b in secs))
        for k, nm in enumerate(NAMES + ('g',)):
            E.close('table ' + nm, df[nm], ref[k], tol=1e-8)
        if all(split):
            c = [[m[k][i] for i in range(n)] for k in range(6)]
            ref0 = [np.concatenate([np.convolve(c[k][a:b], _kernel(), 'valid')[1:-200] for a, b in secs]) for k in range(6)]
            X = np.column_stack([np.ones(len(ref0[0]))] + ref0[:5])
            p = np.linalg.pinv(X) @ -ref0[5]
            for k, nm in enumerate(NAMES):
                E.close('coefficient of ' + nm, mod.params[nm], p[k + 1], tol=1e-5)
    return case


BIG = (5.0000001, 1e6)


def X02(th):
    return [Case('sections 1000+1040', _x02((1000, 1040), 1, BIG), 'one gap of any length over 5 s; every input has free offsets per section'),
            Case('sections 999+1000+1001', _x02((999, 1000, 1001), 2, BIG), 'two gaps'),
            Case('sections 1010+300+1020', _x02((1010, 300, 1020), 3, BIG), 'two gaps'),
            Case('sections 1+1000+1', _x02((1, 1000, 1), 4, BIG), 'two gaps'),
            Case('many sections', _x02((30, 45, 1000, 2, 20, 33, 40, 28, 1005, 60), 10, BIG), 'nine gaps, two long sections'),
            Case('no gap', _x02((1015,), 5), 'times without any gap'),
            Case('short gap', _x02((600, 700), 6, (0.5, 5.0)), 'gap of any length up to 5 s: one section'),
            Case('samplerate', _x02((1000, 1000), 7, (10.0001, 100), (0.2, 2.0)), 'sampling interval 0.2..2 s', ),
            Case('samplerate 0.1', _x02((1000, 1000), 8, (0.500001, 5), (0.1, 0.1), 0.1), 'sampling interval 0.1 s')] + (
        [Case('four sections', _x02((1000, 1200, 999, 1100), 9, BIG), 'three gaps')] if th else [])
