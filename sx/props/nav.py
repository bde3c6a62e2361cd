"""K01-K03: velocity, course and rotation."""
import math
from ..run import Case
from .grav import vals, LONGREC

W = 57.29577951308232     # degrees per radian
A, B = 6378137.0, 6356752.3142451
TAY = [(1, 5 / 6), (2, -5 / 21), (3, 5 / 84), (4, -5 / 504), (5, 1 / 1260)]


def _taylor(x, i):
    return sum(c * (x[i + k] - x[i - k]) for k, c in TAY)


def _k01(n, free):
    """free: indices whose position is symbolic, the rest a fixed smooth track; free=None means all"""
    def case(E):
        lat0 = [10 + 0.3 * i - 0.01 * i * i for i in range(n)]
        lon0 = [-150 + 0.2 * i + 0.02 * i * i for i in range(n)]
        if n > 200:
            lat0, lon0 = [10 + 3 * math.sin(0.01 * i) for i in range(n)], [-150 + 3 * math.cos(0.02 * i) for i in range(n)]
        lat = [E.real('lat%d' % i, -89, 89) if free is None or i in free else lat0[i] for i in range(n)]
        lon = [E.real('lon%d' % i, -720, 720) if free is None or i in free else lon0[i] for i in range(n)]
        f = E.real('freq', 0.01, 100)
        np = E.np
        vn, ve = E.mod('nav').latlon_to_EN(E.array(lon), E.array(lat), f)
        e2 = 1 - B * B / (A * A)
        rn, re = [], []
        for i in range(n):
            if i < 5 or i >= n - 5:
                rn.append(float('nan'))
                re.append(float('nan'))
                continue
            s = np.sin(lat[i] / W)
            w2 = 1 - e2 * s * s
            w = np.sqrt(w2)
            rn.append(A * (1 - e2) / (w2 * w) * (_taylor(lat, i) / W) * f)
            re.append(A / w * np.cos(lat[i] / W) * (_taylor(lon, i) / W) * f)
        E.close('north velocity', vn, rn, rel=1e-9)
        E.close('east velocity', ve, re, rel=1e-9)
    return case


def _k01_list(E):
    n = 12
    lat = [E.real('lat%d' % i, -89, 89) for i in range(n)]
    vn, ve = E.mod('nav').latlon_to_EN(E.array([0.0] * n), E.array(lat))
    E.close('default frequency is 1 Hz', vn[5:7], [A * (1 - (1 - B * B / (A * A))) / _w(E, lat[i]) ** 3 * (_taylor(lat, i) / W) for i in (5, 6)], rel=1e-9)
    E.close('east velocity of a meridional track', ve[5:7], [0.0, 0.0], tol=1e-6)


def _w(E, lat):
    e2 = 1 - B * B / (A * A)
    return E.np.sqrt(1 - e2 * E.np.sin(lat / W) * E.np.sin(lat / W))


def _k01_refuse(E):
    m = E.mod('nav')
    n = E.choice('n', list(range(0, 16)))
    k = E.choice('m', list(range(0, 16)))
    a, b = E.array(E.reals('x', n, -80, 80)), E.array(E.reals('y', k, -80, 80))
    if n == k and n > 10:
        vn, ve = m.latlon_to_EN(a, b)
        E.true('lengths', len(vn) == n and len(ve) == n)
    else:
        E.raises('refused', AssertionError, lambda: m.latlon_to_EN(a, b))


def K01(thorough):
    cs = [Case('all positions free, n=%d' % n, _k01(n, None), 'n=%d, |lat|<=89, |lon|<=720, frequency 0.01..100' % n) for n in ([11, 12, 16] + ([13, 20, 25, 40] if thorough else []))]
    for n in ([40, LONGREC] if not thorough else [60, 100, LONGREC]):
        cs.append(Case('long track, n=%d' % n, _k01(n, set(range(n // 2 - 3, n // 2 + 4))), 'n=%d, 7 middle fixes symbolic, the others fixed' % n))
    cs.append(Case('default frequency', _k01_list, 'n=12, meridional track'))
    cs.append(Case('refused lengths', _k01_refuse, 'lengths 0..15 x 0..15, all values in +/-80', max_paths=300))
    return cs


def _k02(n):
    def case(E):
        ve, vn = E.reals('ve', n, -100, 100), E.reals('vn', n, -100, 100)
        h, v = E.mod('nav').ENvel_to_course_heading(E.array(ve), E.array(vn))
        np = E.np
        E.true('lengths', len(h) == n and len(v) == n)
        for i in range(n):
            E.close('speed squared %d' % i, v[i] * v[i], ve[i] * ve[i] + vn[i] * vn[i], rel=1e-9)
            E.true('speed not negative %d' % i, v[i] >= 0)
            E.true('range of heading %d' % i, E.And(h[i] > -180.0000001, h[i] < 180.0000001))
            E.close('east component %d' % i, v[i] * np.sin(h[i] / W), ve[i], tol=1e-7)
            E.close('north component %d' % i, v[i] * np.cos(h[i] / W), vn[i], tol=1e-7)
    return case


def _k02_axes(E):
    s = E.real('s', 0.001, 100)
    h, v = E.mod('nav').ENvel_to_course_heading(E.array([0.0, s, 0.0, -s, s]), E.array([s, 0.0, -s, 0.0, s]))
    E.close('headings N E S W NE', h, [0.0, 90.0, 180.0, -90.0, 45.0], tol=1e-7)
    E.close('speeds', v, [s, s, s, s, s * 1.4142135623730951], tol=1e-7)


def _k02_big(n):
    def case(E):
        ve, vn = [3.0 * (i % 7) - 8 for i in range(n)], [2.0 * (i % 5) - 3.5 for i in range(n)]
        j = n // 2
        ve[j], vn[j] = E.real('ve', -100, 100), E.real('vn', -100, 100)
        h, v = E.mod('nav').ENvel_to_course_heading(E.array(ve), E.array(vn))
        E.close('speed', v, [E.np.sqrt(a * a + b * b) for a, b in zip(ve, vn)], tol=1e-7)
        E.close('heading', h, [E.np.arctan2(a, b) * W for a, b in zip(ve, vn)], tol=1e-7)
    return case


def K02(thorough):
    return [Case('n=%d' % n, _k02(n), '%d samples, components within +/-100 m/s' % n) for n in ([1, 2, 3, 4] + ([6] if thorough else []))] + [
        Case('cardinal directions', _k02_axes, 'all speeds 0.001..100'),
        Case('long series', _k02_big(LONGREC), '%d samples, one symbolic' % LONGREC)]


def _k03(n):
    def case(E):
        h, e, nn = vals(E, 'h', n, -720, 720), vals(E, 'e', n, -1e5, 1e5), vals(E, 'n', n, -1e5, 1e5)
        r = E.mod('nav').rotate_acceleration_EN_to_cl
        c, l = r(E.array(h), E.array(e), E.array(nn))
        np = E.np
        S, C = [np.sin(x / W) for x in h], [np.cos(x / W) for x in h]
        E.close('cross', c, [e[i] * C[i] - nn[i] * S[i] for i in range(n)], tol=1e-4)
        E.close('long', l, [e[i] * S[i] + nn[i] * C[i] for i in range(n)], tol=1e-4)
        E.close('isometry', [c[i] * c[i] + l[i] * l[i] for i in range(n)], [e[i] * e[i] + nn[i] * nn[i] for i in range(n)], rel=1e-8)
        c2, l2 = r(E.array([x + 360 for x in h]), E.array(e), E.array(nn))
        E.close('cross after a full turn', c2, c, tol=1e-4)
        E.close('long after a full turn', l2, l, tol=1e-4)
    return case


def _k03_track(n):
    def case(E):
        h, m = vals(E, 'h', n, -720, 720), vals(E, 'm', n, -1e5, 1e5)
        np = E.np
        c, l = E.mod('nav').rotate_acceleration_EN_to_cl(E.array(h), E.array([m[i] * np.sin(h[i] / W) for i in range(n)]), E.array([m[i] * np.cos(h[i] / W) for i in range(n)]))
        E.close('cross is zero', c, [0.0] * n, tol=1e-4)
        E.close('long is the magnitude', l, m, tol=1e-4)
    return case


def K03(thorough):
    ns = [1, 2, 3, 4, LONGREC] + ([8] if thorough else [])
    return [Case('rotation n=%d' % n, _k03(n), '%d samples, |heading|<=720, |acc|<=1e5 mGal' % n) for n in ns] + [
        Case('along track n=%d' % n, _k03_track(n), '%d samples' % n) for n in ns]
