"""M01-M05 (gravity of interfaces, layers and crust), H01-H04 (cooling models)."""
import math
import numpy as np
from ..run import Case
from .grav import vals, LONGREC

PI = math.pi
G0 = 6.673e-11


def _fold(n, m):
    return min(m, n - m)


def _fft(E, xs):
    return E.np.fft.fft(E.array(xs))


def _pow(xs, p):
    out = list(xs)
    for _ in range(p - 1):
        out = [a * b for a, b in zip(out, xs)]
    return out


# --------------------------------------------------------------------------- M01
def _parker1(E, topo, dx, zlev, rho):
    n = len(topo)
    pad = [topo[0]] * (2 * n) + list(topo) + [topo[-1]] * (2 * n)
    N = 5 * n
    base = sum(topo) / n
    tot = [0] * N
    for p in range(1, 6):
        F = _fft(E, _pow(pad, p))
        for m in range(1, N):
            k = 2 * PI * _fold(N, m) / (N * dx)
            kp = 1
            for _ in range(p - 1):
                kp = kp * k
            tot[m] = tot[m] + F[m] * (kp / math.factorial(p))
    out = [0]
    for m in range(1, N):
        k = 2 * PI * _fold(N, m) / (N * dx)
        out.append(tot[m] * E.np.exp(-(zlev - base) * k))
    return E.np.real(E.np.fft.ifft(E.np.array(out)))[2 * n:3 * n] * (2 * PI * G0 * 1e5 * rho)


def _m01(n, free, dx=None, rho=None, zlev=None, lim=200.0, tol=1e-7, base=-3000, levels=(0, 2000)):
    def case(E):
        t0 = [base + 37.0 * ((i * 7) % 5) + 11 * i for i in range(n)]
        topo = [E.real('z%d' % i, t0[i] - lim, t0[i] + lim) if free is None or i in free else t0[i] for i in range(n)]
        d = E.real('dx', 500, 5000) if dx is None else dx
        r = E.real('rho', -3000, 3000) if rho is None else rho
        z = E.real('zlev', *levels) if zlev is None else zlev
        got = E.mod('grav').grav1d_padded(E.array([100.0 + d * i for i in range(n)]), E.array(topo), z, r)
        E.close('anomaly', got, _parker1(E, topo, d, z, r), tol=tol)
    return case


def _m01_flat(n):
    def case(E):
        t, d, r, z = E.real('t', -6000, 6000), E.real('dx', 100, 5000), E.real('rho', -3000, 3000), E.real('zlev', -7000, 7000)
        E.assume(z >= t - d)                # rounding errors would be continued downward
        got = E.mod('grav').grav1d_padded(E.array([d * i for i in range(n)]), E.array([t] * n), z, r)
        E.close('flat', got, [0.0] * n, tol=1e-6)
    return case


def _m01_laws(n):
    def case(E):
        t0 = [-3000 + 37.0 * ((i * 7) % 5) + 11 * i for i in range(n)]
        j = n // 2
        topo = [E.real('z%d' % i, t0[i] - 200, t0[i] + 200) if i in (0, j) else t0[i] for i in range(n)]
        f = E.mod('grav').grav1d_padded
        x = E.array([1000.0 * i for i in range(n)])
        r, c = E.real('rho', -3000, 3000), E.real('c', -2, 2)
        a = f(x, E.array(topo), 0.0, r)
        E.close('linear in density', f(x, E.array(topo), 0.0, c * r), [c * v for v in a], tol=1e-7)
        E.close('reversed profile', f(x, E.array(topo[::-1]), 0.0, r), a[::-1], tol=1e-7)
        E.close('reversed coordinates', f(x[::-1], E.array(topo[::-1]), 0.0, r), a[::-1], tol=1e-7)
        E.close('origin of x', f(x + 5e4, E.array(topo), 0.0, r), a, tol=1e-7)
    return case


def M01(th):
    cs = [Case('all heights, n=%d' % n, _m01(n, None, 1000.0), '%d points, heights within 200 m of a fixed profile, density +/-3000, level 0..2000' % n) for n in [2, 3, 4] + ([5, 6] if th else [])]
    cs += [Case('spacing, n=%d' % n, _m01(n, {0, n - 1}), '%d points, two heights, spacing 500..5000 m, density, level' % n) for n in [2, 3, 4]]
    cs += [Case('one height, n=%d' % n, _m01(n, {j}, 700.0, None, 50.0), '%d points, one height and the density free' % n) for n, j in [(7, 0), (8, 5), (15, 14), (20, 9)] + ([(40, 3), (41, 30)] if th else [])]
    cs += [Case('long profile, n=%d' % n, _m01(n, {n - 60}, 700.0, 400.0, 50.0), '%d points, one height free' % n) for n in ((120, 210) if th else (120,))]
    cs.append(Case('very long profile', _m01(620, set(), 700.0, None, 50.0), '620 points of a fixed profile, density +/-3000'))
    cs += [Case('%s, n=%d' % (nm, n), _m01(n, {0, n - 1}, 900.0, levels=lv, base=b), '%d points, two heights, density, level %d..%d' % ((n,) + lv))
           for n in (3, 4) for nm, b, lv in (('level near the topography', -3000, (-3500, -2500)), ('heights above the datum', 2000, (1000, 4000)), ('level below', 200, (-900, 100)))]
    cs += [Case('flat n=%d' % n, _m01_flat(n), '%d points, any height, level, spacing, density' % n) for n in (2, 5, 6)]
    cs += [Case('laws n=%d' % n, _m01_laws(n), '%d points' % n) for n in (4, 5)]
    return cs


# --------------------------------------------------------------------------- M02
def _grid(ny, nx, base=3000.0, amp=30.0):
    return [[base + amp * (((3 * i + 5 * j) % 7) - 3) + 9.0 * i - 4.0 * j for j in range(nx)] for i in range(ny)]


def _kgrid(ny, nx, dy, dx):
    """|k| on the grid, dx and dy in the unit of length"""
    return [[((2 * PI * _fold(ny, i) / ny / dy) ** 2 + (2 * PI * _fold(nx, j) / nx / dx) ** 2) for j in range(nx)] for i in range(ny)]


def _parker2(E, Z, dx, dy, drho, dz, fold, npow):
    """Z in m (depth positive), spacings in km, density in g/cm3"""
    np_ = E.np
    ny, nx = len(Z), len(Z[0])
    mean = sum(v for r in Z for v in r) / (nx * ny)
    D = [[mean - v for v in r] for r in Z]
    if fold:
        D = [r + r[::-1] for r in D]
        D = D + D[::-1]
    my, mx = len(D), len(D[0])
    tot = [[0] * mx for _ in range(my)]
    P = [[1] * mx for _ in range(my)]
    for p in range(1, max(npow, 1) + 1):
        P = [[a * b for a, b in zip(r, s)] for r, s in zip(P, D)]
        F = np_.fft.fft2(E.array(P))
        for i in range(my):
            for j in range(mx):
                if i or j:
                    k = np_.sqrt((2 * PI * _fold(my, i) / my / (dy * 1e3)) ** 2 + (2 * PI * _fold(mx, j) / mx / (dx * 1e3)) ** 2)
                    kp = 1
                    for _ in range(p - 1):
                        kp = kp * k
                    tot[i][j] = tot[i][j] + F[i, j] * (kp / math.factorial(p))
    for i in range(my):
        for j in range(mx):
            if i or j:
                k = np_.sqrt((2 * PI * _fold(my, i) / my / (dy * 1e3)) ** 2 + (2 * PI * _fold(mx, j) / mx / (dx * 1e3)) ** 2)
                tot[i][j] = tot[i][j] * np_.exp(-(mean + dz) * k)
    r = np_.real(np_.fft.ifft2(np_.array(tot)))[:ny, :nx]
    return r * (2 * PI * G0 * 1e3 * 1e5 * drho)


def _fold2(E, Z, dx, dy, **k):
    ny, nx = len(Z), len(Z[0])
    return E.mod('grav').grav2d_folding(np.arange(nx) * 1.0, np.arange(ny) * 1.0, E.array(Z), dx, dy, **k)


def _m02(ny, nx, fold, npow, free, lim=100.0, dx=2.0, dy=1.5, defaults=False, fixed=None):
    def case(E):
        Z = _grid(ny, nx)
        for i, j in (free if free is not None else [(i, j) for i in range(ny) for j in range(nx)]):
            Z[i][j] = E.real('z%d_%d' % (i, j), Z[i][j] - lim, Z[i][j] + lim)
        x = E.real('dx', 0.5, 10) if dx is None else dx
        y = E.real('dy', 0.5, 10) if dy is None else dy
        if defaults:
            got = _fold2(E, Z, x, y)
            want = _parker2(E, Z, x, y, 0.6, 6000, True, 5)
        else:
            r, d = E.real('drho', -3, 3), E.real('dz', 0, 8000) if fixed is None else fixed
            got = _fold2(E, Z, x, y, drho=r, dz=d, ifold=fold, npower=npow)
            want = _parker2(E, Z, x, y, r, d, fold, npow)
        E.close('anomaly', got, want, tol=1e-7)
    return case


def _m02_flat(ny, nx):
    def case(E):
        z, r, d, x, y = E.real('z', -8000, 8000), E.real('drho', -3, 3), E.real('dz', -8000, 8000), E.real('dx', 0.1, 10), E.real('dy', 0.1, 10)
        E.assume(z + d >= 0)                # rounding errors would be continued downward
        f, p = E.choice('fold', [True, False]), E.choice('npower', [1, 2, 5])
        E.close('flat', _fold2(E, [[z] * nx for _ in range(ny)], x, y, drho=r, dz=d, ifold=f, npower=p), [[0.0] * nx] * ny, tol=1e-7)
    return case


def _m02_laws(ny, nx):
    def case(E):
        Z = _grid(ny, nx)
        Z[0][nx - 1] = E.real('a', 2900, 3100)
        Z[ny - 1][0] = E.real('b', 2900, 3100)
        r, f = E.real('drho', -3, 3), E.choice('fold', [True, False])
        k = dict(drho=r, dz=500.0, ifold=f, npower=4)
        g = _fold2(E, Z, 2.0, 3.0, **k)
        E.close('flipped up-down', _fold2(E, Z[::-1], 2.0, 3.0, **k), g[::-1], tol=1e-7)
        E.close('flipped left-right', _fold2(E, [v[::-1] for v in Z], 2.0, 3.0, **k), [v[::-1] for v in g], tol=1e-7)
        E.close('transposed', _fold2(E, [list(v) for v in zip(*Z)], 3.0, 2.0, **k), [[g[i][j] for i in range(ny)] for j in range(nx)], tol=1e-7)
        k['drho'] = 2 * r
        E.close('linear in density', _fold2(E, Z, 2.0, 3.0, **k), g * 2, tol=1e-7)
    return case


def M02(th):
    cs = []
    for ny, nx in [(2, 2), (2, 3), (3, 2), (3, 3)] + ([(4, 3), (1, 4)] if th else []):
        for f in (True, False):
            cs.append(Case('all depths %dx%d fold=%s' % (ny, nx, f), _m02(ny, nx, f, 5 if nx * ny < 6 else 3 if nx * ny < 9 else 2, None),
                           '%dx%d, depths within 100 m of a fixed surface, density, offset depth' % (ny, nx)))
    for ny, nx in [(5, 4), (4, 5), (5, 5), (6, 3)] + ([(9, 8), (7, 11)] if th else []):
        for f in (True, False):
            cs.append(Case('two depths %dx%d fold=%s' % (ny, nx, f), _m02(ny, nx, f, 5, [(1, 2), (ny - 1, 0)]), '%dx%d, two depths, density, offset depth' % (ny, nx)))
    cs += [Case('large %dx%d fold=%s' % (ny, nx, f), _m02(ny, nx, f, 2, [(ny - 2, 1)]), '%dx%d, one depth, density, offset depth' % (ny, nx)) for ny, nx, f in ((17, 16, False), (11, 14, True)) + (((24, 31, False),) if th else ())]
    cs += [Case('one row or column %dx%d fold=%s' % (ny, nx, f), _m02(ny, nx, f, 3, None), '%dx%d, all depths, density, offset depth' % (ny, nx)) for ny, nx in ((1, 3), (3, 1), (1, 4), (1, 1)) for f in (True, False)]
    cs += [Case('very large %dx%d fold=%s' % (ny, nx, f), _m02(ny, nx, f, 5, [], fixed=3500.0), '%dx%d of a fixed surface, density' % (ny, nx)) for ny, nx, f in ((45, 70, False), (33, 26, True), (2, 200, False), (170, 3, True))]
    cs += [Case('order %d' % p, _m02(3, 4, p % 2 == 0, p, [(0, 0), (2, 1)]), '3x4, series order %d' % p) for p in (1, 2, 3, 4, 6)]
    cs += [Case('spacing %s fold=%s' % (w, f), _m02(3, 2, f, 3, [(1, 1)], dx=None if w == 'x' else 2.0, dy=None if w == 'y' else 3.0), '3x2, one depth, spacing 0.5..10 km') for w in 'xy' for f in (True, False)]
    cs += [Case('defaults', _m02(4, 3, True, 5, [(0, 1), (3, 2)], defaults=True), '4x3, two depths')]
    cs += [Case('flat %dx%d' % s, _m02_flat(*s), 'any depth, spacing, density') for s in [(2, 3), (3, 3)]]
    cs += [Case('laws %dx%d' % s, _m02_laws(*s), 'two depths') for s in [(2, 3), (4, 3)]]
    return cs


# --------------------------------------------------------------------------- M03
def _layer(E, rho, dx, dy, z1, z2, off=False):
    """off: negative frequencies start one index late (the recorded defect)"""
    np_ = E.np
    ny, nx = len(rho), len(rho[0])
    F = np_.fft.fft2(E.array(rho))
    out = [[0] * nx for _ in range(ny)]
    fi = (lambda n, m: m if m <= n / 2 + 1 else n - m) if off else _fold
    for i in range(ny):
        for j in range(nx):
            if i or j:
                k = np_.sqrt((2 * PI * fi(nx, j) / (nx * dx)) ** 2 + (2 * PI * fi(ny, i) / (ny * dy)) ** 2)
                out[i][j] = F[i, j] * ((np_.exp(-k * z1) - np_.exp(-k * z2)) / k)
    return np_.real(np_.fft.ifft2(np_.array(out))) * (2 * PI * G0 * 1e8)


KV = 'M03-nyquist'


def _m03(ny, nx, free, dx=2.0, dy=3.0, z=None):
    def case(E):
        rho = [[2700.0 + 10 * ((3 * i + 5 * j) % 7) for j in range(nx)] for i in range(ny)]
        for i, j in (free if free is not None else [(i, j) for i in range(ny) for j in range(nx)]):
            rho[i][j] = E.real('r%d_%d' % (i, j), -4000, 4000)
        x = E.real('dx', 0.5, 10) if dx is None else dx
        y = E.real('dy', 0.5, 10) if dy is None else dy
        z1, z2 = (E.real('z1', 0, 20), E.real('z2', 0, 20)) if z is None else z
        got = E.mod('grav').grav2d_layer_variable_density(E.array(rho), x, y, z1, z2)
        E.close('anomaly', got, _layer(E, rho, x, y, z1, z2), tol=1e-6, known=(KV, _layer(E, rho, x, y, z1, z2, True)))
    return case


def _m03_laws(ny, nx):
    def case(E):
        f = E.mod('grav').grav2d_layer_variable_density
        A = [[E.real('a%d_%d' % (i, j), -4000, 4000) for j in range(nx)] for i in range(ny)]
        c, z1, z2 = E.real('c', -3, 3), E.real('z1', 0, 20), E.real('z2', 0, 20)
        a = f(E.array(A), 2.0, 1.5, z1, z2)
        E.close('linear', f(E.array([[c * v + 500.0 for v in r] for r in A]), 2.0, 1.5, z1, z2), a * c, tol=1e-6)
        E.close('no thickness', f(E.array(A), 2.0, 1.5, z1, z1), [[0.0] * nx] * ny, tol=1e-6)
        E.close('uniform', f(E.array([[A[0][0]] * nx] * ny), 2.0, 1.5, z1, z2), [[0.0] * nx] * ny, tol=1e-6)
        E.close('up-down', f(E.array(A[::-1]), 2.0, 1.5, z1, z2), a[::-1], tol=1e-6)
        E.close('left-right', f(E.array([r[::-1] for r in A]), 2.0, 1.5, z1, z2), a[:, ::-1], tol=1e-6)
        E.close('stacked layers', f(E.array(A), 2.0, 1.5, z1, 7.0) + f(E.array(A), 2.0, 1.5, 7.0, z2), a, tol=1e-6)
    return case


def M03(th):
    cs = [Case('all densities %dx%d' % (ny, nx), _m03(ny, nx, None), '%dx%d, all densities within +/-4000, depths 0..20 km' % (ny, nx)) for ny, nx in
          [(1, 2), (2, 2), (2, 3), (3, 2), (3, 3), (4, 3), (4, 4), (5, 4), (1, 6)] + ([(6, 5), (8, 8)] if th else [])]
    cs += [Case('spacing %s %dx%d' % (w, ny, nx), _m03(ny, nx, [(0, 1)], None if w == 'x' else 2.0, None if w == 'y' else 2.0, (3.0, 5.0)), 'one density, spacing 0.5..10 km')
           for w in 'xy' for ny, nx in [(2, 3), (4, 2)]]
    cs += [Case('larger %dx%d' % s, _m03(s[0], s[1], [(1, 2), (s[0] - 1, 0)]), 'two densities and the depths') for s in [(9, 8), (12, 7), (18, 21)] + ([(33, 40)] if th else [])]
    cs.append(Case('very large 50x61', _m03(50, 61, [(20, 33)], z=(2.0, 5.0)), '50x61, one density'))
    cs += [Case('long %dx%d' % s, _m03(s[0], s[1], [(1, 1)], dx=0.2, dy=0.3), 'one density and the depths') for s in [(2, 120), (130, 2)]]
    cs += [Case('thin layer %dx%d' % s, _m03(s[0], s[1], [(0, 0), (1, 1)], z=(5.0, 5.001)), 'two densities') for s in [(3, 4), (6, 5)]]
    cs += [Case('laws %dx%d' % s, _m03_laws(*s), 'all densities and depths') for s in [(2, 2), (1, 2)]]
    return cs


# --------------------------------------------------------------------------- M04, M05
FWD, BCK = 'M04-mirrored', 'M04-back-shifted'


def _crust(E, ur, nx, ny, dx, dy, zdown, rho, wl, ws, what):
    """thickness in km ('t') or recovered gravity ('g') on the nx by ny grid, input order"""
    np_ = E.np
    ave = sum(ur) / (nx * ny)
    F = np_.fft.fft2(np_.array([[v - ave for v in ur[i * ny:(i + 1) * ny]] for i in range(nx)]))
    out = [[0] * ny for _ in range(nx)]
    k1, k2 = 2 * PI / wl, 2 * PI / ws
    for i in range(nx):
        for j in range(ny):
            kk = (2 * PI * _fold(nx, i) / (nx * dx)) ** 2 + ((2 * PI * _fold(ny, j) / (ny * dy)) ** 2 if ny > 1 else 0)
            k = np_.sqrt(kk)
            if k > k2:
                continue
            w = 1 if k <= k1 else (np_.cos((k - k1) / (k2 - k1) * PI) + 1) / 2
            if what == 't':
                out[i][j] = F[i, j] * (w * np_.exp(k * zdown))
            else:
                out[i][j] = F[i, j] * w
    t = np_.real(np_.fft.ifft2(np_.array(out)))
    if what == 't':
        return t * (-1e-5 / (2 * PI * G0 * 1e3)) * (1 / rho) / 1000     # mGal -> km for g/cm3
    return t + ave


def _col(t, nx, ny, how=''):
    f = {'': lambda i, j: t[i, j], 'mirror': lambda i, j: t[-i % nx, -j % ny], 'shift': lambda i, j: t[(i + 1) % nx, (j + 1) % ny]}[how]
    return [[f(i, j)] for i in range(nx) for j in range(ny)]


def _signal(n):
    return [10.0 * math.sin(0.7 * i) + 3.0 * ((7 * i) % 5) - 0.2 * i for i in range(n)]


def _m04(nx, ny, free, back, sym=(), lim=200.0, rows=False, **fix):
    def case(E):
        arr = lambda u: E.array([u[i * ny:(i + 1) * ny] for i in range(nx)]) if rows else E.array(u)
        n = nx * ny
        ur = _signal(n)
        for i in (free if free is not None else range(n)):
            ur[i] = E.real('u%d' % i, -lim, lim)
        R = {'dx': (0.5, 4), 'dy': (0.5, 4), 'zdown': (0, 12), 'rho': (0.05, 1), 'wl': (12, 80), 'ws': (2, 11)}
        k = dict(dx=1.3, dy=1.7, zdown=5.0, rho=0.4, wl=30.0, ws=6.0)
        k.update(fix)
        for s in sym:
            k[s] = E.real(s, *R[s])
        if any(v in sym for v in ('dx', 'dy', 'wl', 'ws')):
            # wavelengths within 1e-9 of a limit are left out: there the branch depends on rounding (the taper is continuous)
            for i in range(nx // 2 + 1):
                for j in range(ny // 2 + 1):
                    q2 = (i / (nx * k['dx'])) ** 2 + ((j / (ny * k['dy'])) ** 2 if ny > 1 else 0)
                    for w in (k['wl'], k['ws']):
                        E.assume(E.Or(q2 * w * w > 1 + 1e-9, q2 * w * w < 1 - 1e-9))
        a = dict(nx=nx, ny=ny, dx=k['dx'], dy=k['dy'] if ny > 1 else 0, zdown=k['zdown'], rho=k['rho'], wlarge=k['wl'], wsmall=k['ws'])
        t = _crust(E, ur, nx, ny, k['dx'], k['dy'], k['zdown'], k['rho'], k['wl'], k['ws'], 't')
        f = E.mod('grav').crustal_thickness_2D
        if not back:
            E.close('thickness', f(arr(ur), **a), _col(t, nx, ny), tol=1e-6, known=(FWD, _col(t, nx, ny, 'mirror')))
        else:
            c, g = f(arr(ur), back=True, **a)
            r = _crust(E, ur, nx, ny, k['dx'], k['dy'], k['zdown'], k['rho'], k['wl'], k['ws'], 'g')
            E.close('thickness', c, _col(t, nx, ny), tol=1e-6, known=(BCK, _col(t, nx, ny, 'shift')))
            E.close('recovered', g, _col(r, nx, ny), tol=1e-6, known=(BCK, _col(r, nx, ny, 'shift')))
    return case


def _m04_laws(nx, ny):
    def case(E):
        n = nx * ny
        u = E.reals('u', n, -100, 100)
        c, o = E.real('c', -2, 2), E.real('o', -100, 100)
        a = dict(nx=nx, ny=ny, dx=1.5, dy=2.0 if ny > 1 else 0, zdown=6.0, rho=0.5, wlarge=20.0, wsmall=5.0)
        f = E.mod('grav').crustal_thickness_2D
        E.close('linear, constant has no effect', f(E.array([c * v + o for v in u]), **a), [[c * v[0]] for v in f(E.array(u), **a)], tol=1e-8)
    return case


def _m04_refuse(E):
    wl, ws = E.real('wl', 1, 50), E.real('ws', 1, 50)
    E.assume(wl <= ws)
    E.raises('refused', AssertionError, lambda: E.mod('grav').crustal_thickness_2D(E.array(E.reals('u', 4, -10, 10)), nx=4, wlarge=wl, wsmall=ws))


def _m04_default(back):
    def case(E):
        ur = _signal(1000)
        for j in (0, 333, 998):
            ur[j] = E.real('u%d' % j, -100, 100)
        f = E.mod('grav').crustal_thickness_2D
        t = _crust(E, ur, 1000, 1, 1.3, 1, 10, 0.4, 45, 25, 't')
        if not back:
            E.close('thickness', f(E.array(ur)), _col(t, 1000, 1), tol=1e-6, known=(FWD, _col(t, 1000, 1, 'mirror')))
        else:
            c, g = f(E.array(ur), back=True)
            r = _crust(E, ur, 1000, 1, 1.3, 1, 10, 0.4, 45, 25, 'g')
            E.close('thickness', c, _col(t, 1000, 1), tol=1e-6, known=(BCK, _col(t, 1000, 1, 'shift')))
            E.close('recovered', g, _col(r, 1000, 1), tol=1e-6, known=(BCK, _col(r, 1000, 1, 'shift')))
    return case


def _crust_cases(back, th):
    cs = [Case('all values %dx%d' % s, _m04(s[0], s[1], None, back, ('rho',)), 'all values within 200 mGal, density contrast 0.05..1') for s in
          [(2, 1), (3, 1), (4, 1), (5, 1), (8, 1), (9, 1), (16, 1), (2, 2), (3, 2), (3, 3), (4, 3), (4, 4), (5, 4)] + ([(31, 1), (40, 1), (8, 7)] if th else [])]
    cs += [Case('depth %dx%d' % s, _m04(s[0], s[1], None, back, ('zdown',)), 'all values, depth 0..12 km') for s in [(6, 1), (7, 1), (4, 3)]]
    cs += [Case('limits %dx%d' % s, _m04(s[0], s[1], [0, 2], back, ('wl', 'ws')), 'two values, all limits 2..11 and 12..80 km') for s in [(6, 1), (7, 1), (3, 3)]]
    cs += [Case('spacing %dx%d' % s, _m04(s[0], s[1], [1], back, ('dx',)), 'one value, spacing 0.5..4 km') for s in [(5, 1), (6, 1), (2, 3)]]
    cs += [Case('spacing y %dx%d' % s, _m04(s[0], s[1], [1], back, ('dy',)), 'one value, spacing 0.5..4 km') for s in [(2, 4), (3, 3)]]
    cs += [Case('nothing removed %dx%d' % s, _m04(s[0], s[1], None, back, ('rho',), wl=0.02, ws=0.01, zdown=1.0), 'all wavelengths passed') for s in [(6, 1), (4, 3)]]
    cs += [Case('all removed %dx%d' % s, _m04(s[0], s[1], None, back, ('rho',), wl=2000., ws=1000.), 'all wavelengths removed') for s in [(6, 1), (4, 3)]] if back else []
    cs += [Case('%s %dx%d' % (nm, nx, ny), _m04(nx, ny, f, back, sy, **kw), b) for nm, nx, ny, f, sy, kw, b in (
        ('very large', 41, 36, [100], (), {}, 'one value'), ('long', 200, 2, [33], ('rho',), dict(wl=300.0, ws=9.0), 'one value'), ('long', 3, 150, [33], ('rho',), {}, 'one value'), ('one row', 1, 6, None, ('rho',), {}, 'all values'), ('sharp taper', 12, 1, None, (), dict(wl=6.5, ws=6.4), 'all values'),
        ('large values', 6, 1, None, ('rho',), dict(lim=5000.0), 'all values within 5000 mGal'))]
    cs += [Case('grid as rows %dx%d' % s, _m04(s[0], s[1], None, back, ('rho',), rows=True), 'all values, two-dimensional input') for s in [(3, 2), (3, 3)]]
    cs += [Case('default parameters', _m04_default(back), '1000 values, three symbolic')]
    return cs


def M04(th):
    return _crust_cases(False, th) + [Case('laws %dx%d' % s, _m04_laws(*s), 'all values') for s in [(6, 1), (3, 4)]] + [
        Case('wrong order of limits', _m04_refuse, 'all limits 1..50')]


def _m05_laws(nx, ny):
    def case(E):
        n = nx * ny
        u = E.reals('u', n, -100, 100)
        z1, z2, r1, r2 = E.real('z1', 0, 12), E.real('z2', 0, 12), E.real('r1', 0.05, 1), E.real('r2', 0.05, 1)
        a = dict(nx=nx, ny=ny, dx=1.5, dy=2.0 if ny > 1 else 0, wlarge=20.0, wsmall=5.0, back=True)
        f = E.mod('grav').crustal_thickness_2D
        _, g1 = f(E.array(u), zdown=z1, rho=r1, **a)
        _, g2 = f(E.array(u), zdown=z2, rho=r2, **a)
        E.close('independent of depth and density', g2, g1, tol=1e-7)
    return case


def _m05_same(nx, ny):
    def case(E):
        n = nx * ny
        u = E.reals('u', n, -100, 100)
        a = dict(nx=nx, ny=ny, dx=1.5, dy=2.0 if ny > 1 else 0, zdown=3.0, rho=0.4, wlarge=20.0, wsmall=5.0)
        f = E.mod('grav').crustal_thickness_2D
        t = f(E.array(u), **a)
        c, _ = f(E.array(u), back=True, **a)
        E.close('same thickness', c, t, tol=1e-7, known=(BCK, t[::-1]))
    return case


def M05(th):
    return _crust_cases(True, th) + [Case('laws %dx%d' % s, _m05_laws(*s), 'all values, depths, densities') for s in [(6, 1), (3, 4)]] + [
        Case('same thickness %dx%d' % s, _m05_same(*s), 'all values') for s in [(2, 1), (5, 1), (3, 3)]]


# --------------------------------------------------------------------------- H01-H04
SECYR = 365.25 * 24 * 3600


def _par(E, free):
    R = {'u': (1e-4, 0.2), 'Tm': (100, 2500), 'rhom': (2500, 4000), 'rhow': (0, 1500), 'a': (1e-6, 1e-4), 'k': (1e-7, 5e-6), 'zL0': (2e4, 2e5)}
    D = {'u': 0.01, 'Tm': 1350, 'rhom': 3300, 'rhow': 1000, 'a': 3e-5, 'k': 1e-6, 'zL0': 100e3}
    g = {n: E.real(n, *R[n]) for n in free}
    return g, {n: g.get(n, D[n]) for n in D}


def _xs(E, n, time):
    """ages in Myr or distances in m, both sides"""
    if n > 100:
        return vals(E, 'x', n, 0.01, 200) if time else [v if i % 2 else -v for i, v in enumerate(vals(E, 'x', n, 10, 3e6))]
    return [E.real('x%d' % i, 0.01, 200) if time else E.real('x%d' % i, -3e6, -10) if i % 2 else E.real('x%d' % i, 10, 3e6) for i in range(n)]


def _age(E, x, time, u):
    return x * (1e6 * SECYR) if time else abs(x) / u * SECYR


def _root(E, x, time, P):
    """sqrt(k t)"""
    return E.np.sqrt(P['k'] * _age(E, x, time, P['u']))


def _h01(nx, nz, time, free):
    def case(E):
        g, P = _par(E, free)
        x, z = _xs(E, nx, time), vals(E, 'z', nz, 0, 2e5)
        if time:
            g['time'] = True
        T, W = E.mod('grav').therm_halfspace(E.array(x), E.array(z), **g)
        q = [_root(E, v, time, P) for v in x]
        E.close('temperature', T, [[P['Tm'] * E.erf(d / (2 * q[j])) for j in range(nx)] for d in z], tol=1e-7)
        E.close('subsidence', W, [2 * P['rhom'] * P['a'] * P['Tm'] / (P['rhom'] - P['rhow']) * q[j] / math.sqrt(PI) for j in range(nx)], rel=1e-9)
        for i in range(nz):
            for j in range(nx):
                E.true('0 <= T <= Tm', E.And(T[i, j] >= -1e-9, T[i, j] <= P['Tm'] + 1e-9))
    return case


def _h01_laws(E):
    f = E.mod('grav').therm_halfspace
    x, z = E.real('x', 10, 3e6), E.real('z', 0, 2e5)
    T, W = f(E.array([x, -x]), E.array([0.0, z]))
    E.close('cold seafloor', T[0], [0.0, 0.0], tol=1e-9)
    E.close('both sides', T[1, 0], T[1, 1], tol=1e-9)
    E.close('both sides subsidence', W[0], W[1], tol=1e-9)
    T2, W2 = f(E.array([x / 0.01 / 1e6]), E.array([0.0, z]), time=True)
    E.close('distance is age times rate', T2[1, 0], T[1, 0], tol=1e-6)
    E.close('subsidence from age', W2[0], W[0], tol=1e-5)


def H01(th):
    fr = [(), ('u',), ('Tm',), ('k',), ('rhom', 'rhow', 'a'), ('u', 'Tm', 'rhom', 'rhow', 'a', 'k')]
    return [Case('%s, free %s' % ('age' if t else 'distance', ' '.join(f) or 'positions only'), _h01(2, 2, t, f), '2 positions x 2 depths (to 200 km), |x| 10 m..3000 km or 0.01..200 Myr') for t in (False, True) for f in fr] + [
        Case('laws', _h01_laws, 'all positions and depths'), Case('larger', _h01(5, 4, False, ('u',)), '5 x 4'),
        Case('many positions', _h01(LONGREC, 2, False, ()), '%d positions x 2 depths' % LONGREC), Case('many depths', _h01(2, LONGREC, True, ()), '2 ages x %d depths' % LONGREC)] + (
        [Case('larger age', _h01(8, 9, True, ('k', 'Tm')), '8 x 9')] if th else [])


def _h02(n, time, free, rr=(0.001, 0.999)):
    def case(E):
        g, P = _par(E, free)
        x = _xs(E, n, time)
        r = E.real('r', *rr)
        T = P['Tm'] * r
        if time:
            g['time'] = True
        m = E.mod('grav')
        Z, W = m.therm_Z_halfspace(E.array(x), T, **g)
        q = [_root(E, v, time, P) for v in x]
        E.close('depth', Z, [2 * q[j] * E.erfcinv(1 - r) for j in range(n)], tol=1e-3)
        E.close('subsidence', W, [2 * P['rhom'] * P['a'] * P['Tm'] / (P['rhom'] - P['rhow']) * q[j] / math.sqrt(PI) for j in range(n)], rel=1e-9)
        W2 = m.therm_halfspace(E.array(x), E.array([1.0]), **g)[1]
        E.close('subsidence of both routines', W, W2, rel=1e-9)
        for j in range(n):
            E.close('temperature at the isotherm %d' % j, P['Tm'] * E.erf(Z[j] / (2 * q[j])), T, tol=1e-6)
    return case


def _h02_zero(E):
    x = _xs(E, 2, False)
    Z, _ = E.mod('grav').therm_Z_halfspace(E.array(x), 0.0, u=E.real('u', 1e-4, 0.2))
    E.close('zero', Z, [0.0, 0.0], tol=1e-6)


def H02(th):
    fr = [(), ('u',), ('Tm',), ('k',), ('rhom', 'rhow', 'a'), ('u', 'Tm', 'rhom', 'rhow', 'a', 'k')]
    return [Case('%s, free %s' % ('age' if t else 'distance', ' '.join(f) or 'positions only'), _h02(2, t, f), '2 positions, T/Tm 0.001..0.999') for t in (False, True) for f in fr] + [
        Case('hot', _h02(2, False, (), (0.999, 0.999999)), '2 positions, T/Tm 0.999..0.999999'), Case('cold', _h02(2, True, (), (1e-6, 0.001)), '2 positions, T/Tm 1e-6..0.001'),
        Case('zero temperature', _h02_zero, 'all positions'), Case('larger', _h02(7, False, ('u',)), '7 positions'),
        Case('many positions', _h02(LONGREC, False, ()), '%d positions' % LONGREC)]


def _plateT(E, d, t, P):
    np_ = E.np
    L = P['zL0']
    s = d / L
    for n in range(1, 11):
        s = s + 2 / (n * PI) * np_.exp(-(n * n * PI * PI) * P['k'] * t / (L * L)) * np_.sin(n * PI * d / L)
    return P['Tm'] * s


def _plateW(E, t, P):
    L = P['zL0']
    s = 0.5
    for n in (1, 3, 5):
        s = s - 4 / PI ** 2 / n ** 2 * E.np.exp(-(n * n * PI * PI) * P['k'] * t / (L * L))
    return P['rhom'] * P['a'] * P['Tm'] * L / (P['rhom'] - P['rhow']) * s


def _h03(nx, nz, time, free, zs=None):
    def case(E):
        g, P = _par(E, free)
        x = _xs(E, nx, time)
        L = P['zL0']
        z = [L * (v if i % 2 == 0 else 1 + 2 * v) for i, v in enumerate(vals(E, 'z', nz, 1e-6, 1))] if nz > 100 else [L * E.real('z%d' % i, 0, 1) if i % 2 == 0 else L * E.real('z%d' % i, 1.000001, 3) for i in range(nz)] if zs is None else [L * v for v in zs]
        if time:
            g['time'] = True
        T, W = E.mod('grav').therm_plate(E.array(x), E.array(z), **g)
        t = [_age(E, v, time, P['u']) for v in x]
        E.close('temperature', T, [[_plateT(E, d, t[j], P) if (i % 2 == 0 if zs is None else zs[i] <= 1) else P['Tm'] for j in range(nx)] for i, d in enumerate(z)], tol=1e-6)
        E.close('subsidence', W, [_plateW(E, t[j], P) for j in range(nx)], tol=1e-6)
    return case


def _h03_laws(E):
    f = E.mod('grav').therm_plate
    x, r, L = E.real('x', 10, 3e6), E.real('r', 0, 1), 9e4
    T, W = f(E.array([x, -x]), E.array([0.0, r * L, L]), zL0=L)
    E.close('cold seafloor', T[0], [0.0, 0.0], tol=1e-9)
    E.close('hot base', T[2], [1350.0, 1350.0], tol=1e-6)
    E.close('both sides', T[1, 0], T[1, 1], tol=1e-9)
    E.close('both sides subsidence', W[0], W[1], tol=1e-9)
    T2, W2 = f(E.array([x / 0.01 / 1e6]), E.array([r * L]), zL0=L, time=True)
    E.close('distance is age times rate', T2[0, 0], T[1, 0], tol=1e-5)
    E.close('subsidence from age', W2[0], W[0], tol=1e-5)


def H03(th):
    fr = [(), ('u',), ('Tm',), ('k',), ('rhom', 'rhow', 'a')]
    cs = [Case('%s, free %s' % ('age' if t else 'distance', ' '.join(f) or 'positions only'), _h03(2, 2, t, f), '2 positions x 2 depths (one below the plate)') for t in (False, True) for f in fr]
    return cs + [Case('plate thickness', _h03(1, 3, False, ('zL0',)), '1 position x 3 depths, thickness 20..200 km'),
                 Case('all parameters', _h03(1, 3, True, ('u', 'Tm', 'rhom', 'rhow', 'a', 'k'), [0.0, 0.37, 1.2]), '1 position x 3 fixed relative depths'),
                 Case('base', _h03(1, 3, False, ('Tm',), [1.0, 0.999, 1.001]), 'depths at the plate base'),
                 Case('laws', _h03_laws, 'all positions and depths'),
                 Case('many positions', _h03(LONGREC, 1, False, ()), '%d positions x 1 depth' % LONGREC), Case('many depths', _h03(1, LONGREC, True, ()), '1 age x %d depths' % LONGREC)]


def _h04(time, nx, nT, zmin, zmax, zsp, free, xs=None, Tr=(-100, 1500), zL=None):
    def case(E):
        g, P = _par(E, free)
        if zL:
            g['zL0'] = P['zL0'] = E.choice('zL0', zL)
        x = [E.real('x%d' % i, *((5, 100) if time else (1e4, 2e6))) for i in range(nx)] if xs is None else xs
        T = [E.real('T%d' % i, *Tr) if not isinstance(nT, list) or nT[i] is None else nT[i] for i in range(len(nT) if isinstance(nT, list) else nT)]
        z = np.arange(zmin, zmax, zsp)
        k = dict(g)
        if time:
            k['time'] = True
        if (zmin, zmax, zsp) != (0, 100e3, 1e2):
            k.update(minz=zmin, maxz=zmax, zsp=zsp)
        Z = E.mod('grav').therm_Z_plate(E.array(x), E.array(T), **k)
        E.true('shape', Z.shape == (len(T), nx))
        for i in range(len(T)):
            for j in range(nx):
                zi = float(Z[i, j])
                m = [v for v in range(len(z)) if abs(z[v] - zi) < 1e-6]
                E.true('on the grid %d %d' % (i, j), len(m) == 1)
                if len(m) != 1:
                    continue
                t = _age(E, x[j], time, P['u'])
                f = lambda d: P['Tm'] if d > P['zL0'] else _plateT(E, d, t, P)
                b = f(z[m[0]])
                near = range(len(z)) if len(z) < 40 else [v for v in range(m[0] - 3, m[0] + 4) if 0 <= v < len(z)] + [0, len(z) // 2, len(z) - 1]
                for v in near:
                    o = f(z[v])
                    E.true('closest %d %d %d' % (i, j, v), abs(b - T[i]) <= abs(o - T[i]) + 1e-5)
    return case


def H04(th):
    cs = [Case('all temperatures, 6 depths', _h04(False, 2, 1, 0, 60e3, 1e4, (), [2e5, -1e6]), 'all requested temperatures -100..1500, fixed positions'),
          Case('two temperatures', _h04(True, 1, 2, 1e4, 9e4, 2e4, (), [30.0]), 'two temperatures, 4 depths'),
          Case('plate parameters', _h04(True, 1, 1, 0, 9e4, 3e4, (), [25.0], (300, 900)), 'fixed position'),
          Case('thin plate', _h04(False, 1, 1, 5e3, 30e3, 5e3, (), [4e5], (500, 1300), (18e3, 40e3, 150e3)), 'plate thickness 18, 40, 150 km'),
          Case('mantle temperature', _h04(False, 1, 1, 0, 30e3, 5e3, ('Tm',), [4e5], (600, 601)), 'Tm 100..2500'),
          Case('spreading rate', _h04(False, 1, 1, 0, 30e3, 5e3, ('u',), [4e5], (600, 601)), 'rate 0.0001..0.2'),
          Case('diffusivity', _h04(False, 1, 1, 0, 30e3, 5e3, ('k',), [4e5], (600, 601)), 'diffusivity 1e-7..5e-6'),
          Case('ages', _h04(True, 1, 1, 0, 30e3, 5e3, (), None, (500, 500.5)), 'ages 5..100 Myr'),
          Case('default grid', _h04(False, 1, 1, 0, 100e3, 1e2, (), [3e5], (500, 503)), '1000 depths, temperature 500..503'),
          Case('default grid, cold', _h04(True, 1, 1, 0, 100e3, 1e2, (), [50.0], (-50, 3)), '1000 depths, temperature below 3'),
          Case('many positions', _h04(False, 60, [300.0, None, 1100.0, 700.0], 0, 100e3, 5e3, (), [2.5e4 * (j - 29.5) for j in range(60)], (500, 503)), '60 fixed positions on both sides of the ridge, 4 temperatures, one symbolic in 500..503'),
          Case('default grid, hot', _h04(True, 1, 1, 0, 100e3, 1e2, (), [50.0], (1349.9, 1600)), '1000 depths, temperature above 1349.9')]
    return cs
