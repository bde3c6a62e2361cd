"""P01: computations leave their inputs alone and remember nothing"""
import numpy as np
from ..run import Case
from .grav import vals, LONGREC


def _flatten(r):
    return list(r) if isinstance(r, tuple) else [r]


def _check(E, call, a, b):
    """call(inputs) with inputs a, then b, then a again; a's arrays must keep their values and b's results are those of a new session"""
    E.fresh()
    new = [E.snap(v) for v in _flatten(call(b))]
    E.fresh()
    keep = [(v, E.snap(v)) if hasattr(v, 'shape') else (v, None) for v in a]
    keepb = [(v, E.snap(v)) if hasattr(v, 'shape') else (v, None) for v in b]
    r0 = _flatten(call(a))
    r1 = [E.snap(v) for v in r0]
    for i, (v, s) in enumerate(keep):
        if s is not None:
            E.close('input %d unchanged' % i, v, s, tol=0.0)
    rb = _flatten(call(b))
    E.true('number of second results', len(rb) == len(new))
    for i, (p, q) in enumerate(zip(rb, new)):
        E.close('second result %d as in a new session' % i, p, q, tol=0.0)
    for i, (v, s) in enumerate(keepb):
        if s is not None:
            E.close('second input %d unchanged' % i, v, s, tol=0.0)
    r2 = _flatten(call(a))
    E.true('number of results', len(r1) == len(r2))
    for i, (p, q) in enumerate(zip(r1, r2)):
        E.close('result %d repeats' % i, q, p, tol=0.0)
    for i, (p, q) in enumerate(zip(r0, r1)):
        E.close('earlier result %d unchanged' % i, p, q, tol=0.0)
    for i, (v, s) in enumerate(keep):
        if s is not None:
            E.close('input %d still unchanged' % i, v, s, tol=0.0)


def _two(make, call):
    def case(E):
        _check(E, lambda x: call(E, *x), make(E, 'a'), make(E, 'b'))
    return case


def _arr(E, n, k, lo, hi):
    return E.array(vals(E, n, k, lo, hi))


def _grid(E, n, r, c, lo, hi):
    return E.array([E.reals('%s%d_' % (n, i), c, lo, hi) for i in range(r)])


def _stamps(E, s, n):
    return [E.datetime(2019, 3, 4 if s == 'a' else 17, 5, 6 + i, 7, tzinfo=E.tz(0)) for i in range(n)]


def _long(add, g, v, n=LONGREC):
    """the computations over long series, of which three samples are symbolic"""
    b = '%d samples, three of each input symbolic' % n
    A = lambda *f: lambda E, s: tuple(_arr(E, s + nm, n, lo, hi) for nm, lo, hi in f)
    lon, lat, h = ('lon', -180, 180), ('lat', -80, 80), ('h', 0, 3000)
    add('velocity, long series', A(lon, lat), lambda E, x, y: v('latlon_to_EN')(E, x, y, freq=2.0), b)
    add('course, long series', A(('e', 0.1, 30), ('n', 0.1, 30)), v('ENvel_to_course_heading'), b)
    add('rotation, long series', A(('h', -180, 180), ('e', -30, 30), ('n', -30, 30)), v('rotate_acceleration_EN_to_cl'), b)
    add('normal gravity, long series', A(lat), g('wgs_grav'), b)
    for w in (False, True):
        add('free air, water %s, long series' % w, A(lat, h), (lambda w: lambda E, x, y: g('free_air_second_order')(E, x, y, w))(w), b)
    add('eotvos, long series', A(lon, lat, h), lambda E, x, y, z: g('eotvos_full')(E, x, y, z, 1.0), b, 1e-4)
    add('central difference, long series', A(('y', -1e4, 1e4)), lambda E, y: g('center_diff')(E, y, 1, 2.0), b)
    def late(E, nm, lo, hi):
        x = [lo + (hi - lo) * ((0.37 + 0.6180339887498949 * i) % 1.0) for i in range(n)]
        x[n - 7] = E.real(nm, lo, hi)
        return E.array(x)
    add('platform, long series', lambda E, s: (late(E, s + 'g', 9.7e5, 9.9e5), late(E, s + 'c', -1e5, 1e5), late(E, s + 'l', -1e5, 1e5)),
        lambda E, y, c, l: g('up_vecs')(E, 1.0, y, E.array(list(c)), E.array(list(l)), E.array([0.0] * n), 240.0, 0.7, 260.0, 0.8), b)
    add('filter, long series', A(('x', -1e4, 1e4)), lambda E, x: E.mod('utils').gaussian_filter(x, 9), b)
    add('half space, many positions', lambda E, s: (_arr(E, s + 'x', 200, 1e3, 2e6), _arr(E, s + 'z', 2, 0, 9e4)), g('therm_halfspace'), '200 positions, three symbolic')
    add('half space isotherm, many positions', A(('x', 1e3, 2e6)), lambda E, x: g('therm_Z_halfspace')(E, x, 600.0), b, 1e-6)
    add('plate, many depths', lambda E, s: (_arr(E, s + 'x', 1, 1e3, 2e6), _arr(E, s + 'z', n, 0, 9e4)), g('therm_plate'), b)
    add('tide, long series', lambda E, s: (_arr(E, s + 'lon', 300, -180, 180), _arr(E, s + 'lat', 300, -80, 80),
                                           [E.datetime(2019, 3, 4 if s == 'a' else 17, tzinfo=E.tz(0)) + E.delta(977 * i) for i in range(300)]),
        lambda E, x, y, t: g('longman_tide_prediction')(E, x, y, t), '300 samples, three of each input symbolic')


def P01(th):
    k = 2 if th else 1
    g = lambda n: lambda E, *a, **kw: getattr(E.mod('grav'), n)(*a, **kw)
    v = lambda n: lambda E, *a, **kw: getattr(E.mod('nav'), n)(*a, **kw)
    cs = []

    def add(name, make, call, bounds, tol=0.0):
        cs.append(Case(name, _two(make, call), bounds))
    _long(add, g, v)
    n = 11 + k
    add('velocity', lambda E, s: (_arr(E, s + 'lon', n, -180, 180), _arr(E, s + 'lat', n, -80, 80)), lambda E, x, y: v('latlon_to_EN')(E, x, y, freq=2.0), '%d samples' % n)
    add('course', lambda E, s: (_arr(E, s + 'e', 2, 0.1, 30), _arr(E, s + 'n', 2, 0.1, 30)), v('ENvel_to_course_heading'), '2 samples')
    add('rotation', lambda E, s: (_arr(E, s + 'h', 2, -180, 180), _arr(E, s + 'e', 2, -30, 30), _arr(E, s + 'n', 2, -30, 30)), v('rotate_acceleration_EN_to_cl'), '2 samples')
    add('eotvos', lambda E, s: (_arr(E, s + 'lon', 4, -180, 180), _arr(E, s + 'lat', 4, -80, 80), _arr(E, s + 'h', 4, -10, 10)), lambda E, x, y, h: g('eotvos_full')(E, x, y, h, 1.0), '4 samples')
    for w in (False, True):
        add('free air, water %s' % w, lambda E, s: (_arr(E, s + 'lat', 2, -90, 90), _arr(E, s + 'h', 2, -9000, 9000)), (lambda w: lambda E, x, y: g('free_air_second_order')(E, x, y, w))(w), '2 samples')
    add('normal gravity', lambda E, s: (_arr(E, s + 'lat', 3, -90, 90),), g('wgs_grav'), '3 samples')
    add('tide', lambda E, s: (_arr(E, s + 'lon', 2, -180, 180), _arr(E, s + 'lat', 2, -90, 90), _stamps(E, s, 2)), lambda E, x, y, t: g('longman_tide_prediction')(E, x, y, t, return_components=True), '2 samples at fixed times')
    add('tide with altitude', lambda E, s: (_arr(E, s + 'lon', 1, -180, 180), _arr(E, s + 'lat', 1, -90, 90), _stamps(E, s, 1), _arr(E, s + 'alt', 1, 0, 9000)),
        lambda E, x, y, t, h: g('longman_tide_prediction')(E, x, y, t, alt=h), '1 sample at a fixed time')
    for o in (1, 2):
        add('central difference %d' % o, lambda E, s: (_arr(E, s + 'y', 4, -1e4, 1e4), E.real(s + 'f', 0.1, 10)), (lambda o: lambda E, y, f: g('center_diff')(E, y, o, f))(o), '4 samples')
    add('filter', lambda E, s: (_arr(E, s + 'x', 6, -1e4, 1e4), 5 if s == 'a' else 3), lambda E, x, fl: E.mod('utils').gaussian_filter(x, fl), '6 samples')
    X = lambda E, m: E.array([1000.0 * i for i in range(m)])
    add('line gravity', lambda E, s: (X(E, 2 + k), _arr(E, s + 't', 2 + k, -4000, -3900), 500.0, 600.0 if s == 'a' else 1000.0), g('grav1d_padded'), '%d points' % (2 + k))
    for f in (True, False):
        add('interface gravity, fold %s' % f, lambda E, s: (X(E, 2), X(E, 2), _grid(E, s + 'z', 2, 2, 3900, 4000)), (lambda f: lambda E, x, y, z: g('grav2d_folding')(E, x, y, z, 10, 10, ifold=f, npower=3))(f), '2 x 2 grid')
    add('layer gravity', lambda E, s: (_grid(E, s + 'r', 2, 3, 2000, 3500), 1.5, 2.5, 4.0, 6.0 if s == 'a' else 9.0), g('grav2d_layer_variable_density'), '2 x 3 grid')
    for b in (False, True):
        add('crustal thickness, back %s' % b, lambda E, s: (_arr(E, s + 'u', 6, -100, 100),), (lambda b: lambda E, u: g('crustal_thickness_2D')(E, u, nx=6, ny=1, dx=12.0, back=b))(b), '6 points')
    add('crustal thickness, grid', lambda E, s: (_arr(E, s + 'u', 6, -100, 100),), lambda E, u: g('crustal_thickness_2D')(E, u, nx=3, ny=2, dx=20.0, dy=25.0, back=True), '3 x 2 points')
    for t in (False, True):
        lo, hi = (1, 100) if t else (1e3, 2e6)
        nm = 'ages' if t else 'distances'
        xs = (lambda lo, hi: lambda E, s: _arr(E, s + 'x', 2, lo, hi))(lo, hi)
        z = lambda E, s: _arr(E, s + 'z', 2, 0, 9e4)
        add('half space, ' + nm, (lambda xs, z: lambda E, s: (xs(E, s), z(E, s)))(xs, z), (lambda t: lambda E, x, z: g('therm_halfspace')(E, x, z, time=t))(t), '2 x 2')
        add('half space isotherm, ' + nm, (lambda xs: lambda E, s: (xs(E, s), E.real(s + 'T', 1, 1340)))(xs), (lambda t: lambda E, x, T: g('therm_Z_halfspace')(E, x, T, time=t))(t), '2 positions')
        add('plate, ' + nm, (lambda xs: lambda E, s: (xs(E, s), _arr(E, s + 'z', 2, 0, 9e4)))(xs), (lambda t: lambda E, x, z: g('therm_plate')(E, x, z, time=t))(t), '2 x 2')
        add('plate isotherm, ' + nm, (lambda t: lambda E, s: (E.array([30.0] if t else [4e5]) if s == 'a' else E.array([60.0] if t else [-9e5]), _arr(E, s + 'T', 1, 0, 1350)))(t),
            (lambda t: lambda E, x, T: g('therm_Z_plate')(E, x, T, time=t, minz=0, maxz=6e4, zsp=2e4))(t), '1 position, 1 temperature')
    add('cross coupling', _monitor_set, lambda E, *a: _fit(E, *a), '1010 samples, two of them symbolic, anomaly with a symbolic ramp')
    add('platform', lambda E, s: (_arr(E, s + 'g', 3, 9.7e5, 9.9e5), E.array([0.0, 1.0 if s == 'a' else 0.0, 0.0]), _arr(E, s + 'c', 3, -1e5, 1e5), _arr(E, s + 'l', 3, -1e5, 1e5)),
        lambda E, y, on, c, l: g('up_vecs')(E, 1.0, y, E.array(list(c)), E.array(list(l)), on, 240.0, 0.7, 260.0, 0.8), '3 samples, fresh accelerations for each call')
    # calls that differ in one setting only
    def settings(name, arrays, call, base, **other):
        """one case for each setting: call with the base settings, then with that one changed"""
        for q, val in other.items():
            def case(E, q=q, val=val):
                a = arrays(E)
                _check(E, lambda kw: call(E, *a, **kw), dict(base), dict(base, **{q: val}))
            cs.append(Case('%s, other %s' % (name, q), case, 'free data, %s %s and %s' % (q, base[q], val)))
    m = 11
    settings('velocity', lambda E: (_arr(E, 'lon', m, -180, 180), _arr(E, 'lat', m, -80, 80)), v('latlon_to_EN'), dict(freq=1.0), freq=1.25)
    settings('eotvos', lambda E: (_arr(E, 'lon', 3, -180, 180), _arr(E, 'lat', 3, -80, 80), _arr(E, 'h', 3, -10, 10)), g('eotvos_full'),
             dict(samp=1.0, a=6378137.0, b=6356752.3142), samp=1.5, a=6378137.5, b=6356752.0)
    settings('free air', lambda E: (_arr(E, 'lat', 2, -90, 90), _arr(E, 'h', 2, -9000, 9000)), g('free_air_second_order'), dict(free_water=False), free_water=True)
    settings('tide', lambda E: (_arr(E, 'lon', 1, -180, 180), _arr(E, 'lat', 1, -90, 90), _stamps(E, 'a', 1)), g('longman_tide_prediction'), dict(alt=0, return_components=False), alt=0.75, return_components=True)
    settings('tide, stamps of a zone', lambda E: (_arr(E, 'lon', 1, -180, 180), _arr(E, 'lat', 1, -90, 90)),
             lambda E, x, y, zone: g('longman_tide_prediction')(E, x, y, [E.datetime(2019, 3, 4, 5, 6, 7, tzinfo=E.tz(zone))]), dict(zone=0), zone=-345)
    settings('central difference', lambda E: (_arr(E, 'y', 4, -1e4, 1e4),), g('center_diff'), dict(n=1, samp=1.0), n=2, samp=1.25)
    for fl, f2 in ((4, 5), (5, 4), (6, 7)):
        settings('filter %d' % fl, lambda E: (_arr(E, 'x', 9, -1e4, 1e4),), lambda E, x, fl: E.mod('utils').gaussian_filter(x, fl), dict(fl=fl), fl=f2)
    settings('line gravity', lambda E: (_arr(E, 't', 3, -4000, -3900),), lambda E, t, dx, zlev, rho: g('grav1d_padded')(E, E.array([dx * i for i in range(3)]), t, zlev, rho),
             dict(dx=1000.0, zlev=500.0, rho=600.0), dx=1000.5, zlev=500.25, rho=600.5)
    settings('longer line gravity', lambda E: (E.real('t', -4000, -3900),), lambda E, t, lift: g('grav1d_padded')(E, E.array([800.0 * i for i in range(12)]), E.array([t if i % 5 == 2 else lift - 3950.0 - 3 * i for i in range(12)]), 500.0, 600.0),
             dict(lift=0.0), lift=25.0)
    for f in (True, False):
        settings('interface gravity, fold %s' % f, lambda E: (E.array([0.0, 1.0]), E.array([0.0, 1.0]), _grid(E, 'z', 2, 2, 3900, 4000)), g('grav2d_folding'),
                 dict(dx=10.0, dy=10.0, drho=0.6, dz=6000.0, npower=3, ifold=f), dx=10.25, dy=10.25, drho=0.65, dz=6000.5, npower=4, ifold=not f)
    settings('layer gravity', lambda E: (_grid(E, 'r', 2, 3, 2000, 3500),), g('grav2d_layer_variable_density'), dict(dx=1.5, dy=2.5, z1=4.0, z2=6.0), dx=1.75, dy=2.75, z1=4.25, z2=6.25)
    for b in (False, True):
        settings('crustal thickness, back %s' % b, lambda E: (_arr(E, 'u', 6, -100, 100),), g('crustal_thickness_2D'),
                 dict(nx=6, ny=1, dx=12.0, dy=20.0, zdown=10.0, rho=0.4, wlarge=45.0, wsmall=25.0, back=b), dx=12.25, dy=20.5, zdown=10.25, rho=0.45, wlarge=45.5, wsmall=25.5, back=not b)
    settings('crustal thickness, grid', lambda E: (_arr(E, 'u', 6, -100, 100),), g('crustal_thickness_2D'),
             dict(nx=3, ny=2, dx=20.0, dy=25.0, zdown=10.0, rho=0.4, wlarge=60.0, wsmall=25.0), dx=20.25, dy=25.25, zdown=10.25, wlarge=60.5, wsmall=25.5)
    hs = dict(u=0.01, Tm=1350.0, time=False, rhom=3300.0, rhow=1000.0, a=3e-5, k=1e-6)
    ho = dict(u=0.0101, Tm=1350.5, time=True, rhom=3300.5, rhow=1000.5, a=3.1e-5, k=1.01e-6)
    xs = lambda E: _arr(E, 'x', 2, 1e3, 2e6)
    settings('half space', lambda E: (xs(E), _arr(E, 'z', 2, 0, 9e4)), g('therm_halfspace'), hs, **ho)
    settings('half space isotherm', lambda E: (xs(E), E.real('T', 1, 1340)), g('therm_Z_halfspace'), hs, **ho)
    settings('plate', lambda E: (xs(E), _arr(E, 'z', 2, 0, 9e4)), g('therm_plate'), dict(hs, zL0=100e3), **dict(ho, zL0=100.5e3))
    settings('plate isotherm', lambda E: (E.array([4e5]), E.array([E.real('T0', 240, 390), E.real('T1', 450, 550), E.real('T2', 650, 900)])), g('therm_Z_plate'), dict(u=0.01, Tm=1350.0, time=False, k=1e-6, zL0=1e5, minz=0.0, maxz=6e4, zsp=2e4),
             u=0.0101, Tm=1350.5, k=1.01e-6, zL0=1.005e5, minz=0.5, maxz=8e4, zsp=2.01e4)
    settings('platform', lambda E: (_arr(E, 'g', 3, 9.7e5, 9.9e5), _arr(E, 'c', 3, -1e5, 1e5), _arr(E, 'l', 3, -1e5, 1e5)),
             lambda E, y, c, l, dt, cper, cdamp, lper, ldamp: g('up_vecs')(E, dt, y, E.array(list(c)), E.array(list(l)), E.array([0.0, 0.0, 0.0]), cper, cdamp, lper, ldamp),
             dict(dt=1.0, cper=240.0, cdamp=0.7, lper=240.0, ldamp=0.7), dt=1.25, cper=240.5, cdamp=0.75, lper=240.25, ldamp=0.65)
    cs.append(Case('mixed calls', _mixed, 'one call of each other function in between'))
    return cs


def _monitor_set(E, s):
    """anomaly, five monitors and times"""
    from .grav import _monitors
    m = [list(x) for x in _monitors(1010, 3 if s == 'a' else 4)]
    f, u, v = m[5], E.real(s + 'u', -100, 100), E.real(s + 'v', -100, 100)
    m[5] = [f[i] + u + v * i for i in range(1010)]
    m[0][1003] = E.real(s + 'w', -100, 100)
    return tuple(E.array(x) for x in m[5:] + m[:5]) + (E.array([1000.0 + i for i in range(1010)]),)


def _fit(E, faa, ve, vcc, al, ax, lev, t):
    df, mod = E.mod('grav').calc_cross_coupling_coefficients(faa, vcc, ve, al, ax, lev, times=t)
    return tuple(df[c].values for c in ('ve', 'vcc', 'al', 'ax', 'lev', 'g'))


def _mixed(E):
    """results do not depend on calls of other functions in between"""
    G, N, U = E.mod('grav'), E.mod('nav'), E.mod('utils')
    lon, lat, h = _arr(E, 'lon', 3, -180, 180), _arr(E, 'lat', 3, -80, 80), _arr(E, 'h', 3, 0, 100)
    st = _stamps(E, 'a', 3)
    fs = [lambda: G.wgs_grav(lat), lambda: G.free_air_second_order(lat, h), lambda: G.eotvos_full(lon, lat, h, 1.0), lambda: G.longman_tide_prediction(lon, lat, st),
          lambda: G.center_diff(h, 1, 2.0), lambda: U.gaussian_filter(h, 2), lambda: N.rotate_acceleration_EN_to_cl(lon, lat, h), lambda: G.therm_plate(lon + 200, h)[0]]
    r1 = [[E.snap(v) for v in _flatten(f())] for f in fs]
    r2 = [_flatten(f()) for f in fs[::-1]][::-1]
    for i, (a, b) in enumerate(zip(r1, r2)):
        for p, q in zip(a, b):
            E.close('function %d repeats' % i, q, p, tol=0.0)


# ------------------------------------------------------------------ P02
LABELS = {'from 0': lambda n: list(range(n)), 'rows dropped': lambda n: [i + 2 + i // 2 for i in range(n)], 'unsorted': lambda n: [(i * 7 + 5) % (n + 3 if (n + 3) % 7 else n + 4) for i in range(n)]}


def _columns(make, call, tol):
    """the same numbers from table columns, whatever their row labels, as from arrays"""
    def case(E):
        a = make(E, 'a')
        is_arr = [hasattr(v, 'shape') and len(v.shape) == 1 or isinstance(v, list) for v in a]
        want = [E.snap(v) for v in _flatten(call(E, *[E.array(list(v)) if hasattr(v, 'shape') else v for v in a]))]
        nm = E.choice('labels', list(LABELS))
        which = [i for i, x in enumerate(is_arr) if x]
        only = E.choice('columns', ['all'] + (which if len(which) > 1 else []))
        args, labs = [], []
        for i, v in enumerate(a):
            if is_arr[i] and only in ('all', i):
                labs.append(LABELS[nm](len(v)))
                v = E.pd.Series(list(v), index=labs[-1])
            elif hasattr(v, 'shape'):
                v = E.array(list(v))
            args.append(v)
        got = _flatten(call(E, *args))
        E.true('number of results', len(got) == len(want))
        for i, (p, q) in enumerate(zip(got, want)):
            E.close('result %d' % i, p, q, tol=tol)
            E.true('rows of result %d keep their labels' % i, type(p).__name__ != 'Series' or list(p.index) in labs)
    return case


def P02(th):
    n = 6 if th else 4
    g = lambda n: lambda E, *a, **kw: getattr(E.mod('grav'), n)(*a, **kw)
    v = lambda n: lambda E, *a, **kw: getattr(E.mod('nav'), n)(*a, **kw)
    cs = []

    def add(name, make, call, bounds, tol=0.0):
        cs.append(Case(name, _columns(make, call, tol), bounds + '; labels from 0, with gaps, unsorted; all columns or one'))
    _long(add, g, v)
    pos = lambda E, s, n=n: (_arr(E, s + 'lon', n, -180, 180), _arr(E, s + 'lat', n, -80, 80))
    add('velocity', lambda E, s: pos(E, s, 12), lambda E, x, y: v('latlon_to_EN')(E, x, y, freq=2.0), '12 samples')
    add('course', lambda E, s: (_arr(E, s + 'e', 2, 0.1, 30), _arr(E, s + 'n', 2, 0.1, 30)), v('ENvel_to_course_heading'), '2 samples')
    add('rotation', lambda E, s: (_arr(E, s + 'h', 3, -180, 180), _arr(E, s + 'e', 3, -30, 30), _arr(E, s + 'n', 3, -30, 30)), v('rotate_acceleration_EN_to_cl'), '3 samples')
    add('normal gravity', lambda E, s: (_arr(E, s + 'lat', n, -90, 90),), g('wgs_grav'), '%d samples' % n)
    for w in (False, True):
        add('free air, water %s' % w, lambda E, s: (_arr(E, s + 'lat', n, -90, 90), _arr(E, s + 'h', n, -9000, 9000)), (lambda w: lambda E, x, y: g('free_air_second_order')(E, x, y, w))(w), '%d samples' % n)
    add('eotvos', lambda E, s: pos(E, s) + (_arr(E, s + 'h', n, -10, 10),), lambda E, x, y, h: g('eotvos_full')(E, x, y, h, 1.0), '%d samples' % n, 1e-4)
    add('tide', lambda E, s: pos(E, s, 2) + (_stamps(E, s, 2), _arr(E, s + 'alt', 2, 0, 9000)), lambda E, x, y, t, h: g('longman_tide_prediction')(E, x, y, t, alt=h, return_components=True), '2 samples at fixed times')
    for o in (1, 2):
        add('central difference %d' % o, lambda E, s: (_arr(E, s + 'y', n + 1, -1e4, 1e4),), (lambda o: lambda E, y: g('center_diff')(E, y, o, 2.0))(o), '%d samples' % (n + 1))
    add('platform', lambda E, s: (_arr(E, s + 'g', 3, 9.7e5, 9.9e5), _arr(E, s + 'c', 3, -1e5, 1e5), _arr(E, s + 'l', 3, -1e5, 1e5), E.array([0.0, 1.0, 0.0])),
        lambda E, y, c, l, on: g('up_vecs')(E, 1.0, y, c, l, on, 240.0, 0.7, 260.0, 0.8), '3 samples')
    add('filter', lambda E, s: (_arr(E, s + 'x', 6, -1e4, 1e4),), lambda E, x: E.mod('utils').gaussian_filter(x, 3), '6 samples')
    add('line gravity', lambda E, s: (E.array([1000.0 * i for i in range(3)]), _arr(E, s + 't', 3, -4000, -3900)), lambda E, x, t: g('grav1d_padded')(E, x, t, 500.0, 600.0), '3 points')
    for t in (False, True):
        lo, hi = (1, 100) if t else (1e3, 2e6)
        nm = 'ages' if t else 'distances'
        xz = (lambda lo, hi: lambda E, s: (_arr(E, s + 'x', 2, lo, hi), _arr(E, s + 'z', 3, 0, 9e4)))(lo, hi)
        add('half space, ' + nm, xz, (lambda t: lambda E, x, z: g('therm_halfspace')(E, x, z, time=t))(t), '2 x 3')
        add('half space isotherm, ' + nm, (lambda lo, hi: lambda E, s: (_arr(E, s + 'x', 3, lo, hi),))(lo, hi), (lambda t: lambda E, x: g('therm_Z_halfspace')(E, x, 600.0, time=t))(t), '3 positions')
        add('plate, ' + nm, xz, (lambda t: lambda E, x, z: g('therm_plate')(E, x, z, time=t))(t), '2 x 3')
        add('plate isotherm, ' + nm, (lambda t: lambda E, s: (E.array([30.0] if t else [4e5]), _arr(E, s + 'T', 1, 0, 1350)))(t),
            (lambda t: lambda E, x, T: g('therm_Z_plate')(E, x, T, time=t, minz=0, maxz=6e4, zsp=2e4))(t), '1 position, 1 temperature')
    for b in (False, True):
        add('crustal thickness, back %s' % b, lambda E, s: (_arr(E, s + 'u', 6, -100, 100),), (lambda b: lambda E, u: g('crustal_thickness_2D')(E, u, nx=6, ny=1, dx=12.0, back=b))(b), '6 points')
    add('cross coupling', lambda E, s: _monitor_set(E, s), _fit, '1010 samples, two of them symbolic, anomaly with a symbolic ramp')
    return cs


# ------------------------------------------------------------------ P03
def _kinds(args, call, tol, lists):
    """whole numbers in integer arrays (and, where any array-like is accepted, in lists and tuples) give what the equal floating point arrays give;
    args: constants, and (name, n, lo, hi) or (name, (rows, columns), lo, hi) for arrays"""
    def case(E):
        kind = E.choice('kind', ['integers'] + (['list', 'tuple', 'list of integers'] if lists else []))
        vec = [i for i, v in enumerate(args) if isinstance(v, tuple)]
        only = E.choice('which', ['all'] + (vec if len(vec) > 1 else []))
        a, b = [], []
        for i, v in enumerate(args):
            if not isinstance(v, tuple):
                v = v(E) if callable(v) else v
                a.append(v)
                b.append(v)
                continue
            nm, n, lo, hi = v
            whole = kind in ('integers', 'list of integers')
            var = (lambda s: E.int(s, lo, hi)) if whole else (lambda s: E.real(s, lo, hi))
            if isinstance(n, tuple):
                x = [[var('%s%d_%d' % (nm, p, q)) for q in range(n[1])] for p in range(n[0])]
            elif n >= 100:
                x = [lo + int((hi - lo) * ((0.37 + 0.6180339887498949 * k) % 1.0)) for k in range(n)]
                for k in (0, n // 2 + 3, n - 1):
                    x[k] = var('%s%d' % (nm, k))
            else:
                x = [var('%s%d' % (nm, k)) for k in range(n)]
            f = E.array([[1.0 * q for q in p] for p in x] if isinstance(n, tuple) else [1.0 * q for q in x])
            a.append(f)
            b.append(E.array(list(f)) if only not in ('all', i) else E.iarray(x) if kind == 'integers' else tuple(x) if kind == 'tuple' else x)
        want, got = _flatten(call(E, *a)), _flatten(call(E, *b))
        E.true('number of results', len(got) == len(want))
        for i, (p, q) in enumerate(zip(got, want)):
            E.close('result %d' % i, p, q, tol=tol)
    return case


def P03(th):
    g = lambda n: lambda E, *a, **kw: getattr(E.mod('grav'), n)(*a, **kw)
    v = lambda n: lambda E, *a, **kw: getattr(E.mod('nav'), n)(*a, **kw)
    cs = []

    def add(name, args, call, tol=1e-9, lists=True):
        cs.append(Case(name, _kinds(args, call, tol, lists), 'integer arrays' + (', lists, tuples' if lists else '') + ', for all vectors or one'))
    n = 4
    lon, lat, h = ('lon', n, -180, 180), ('lat', n, -80, 80), ('h', n, -9000, 9000)
    add('velocity', [('lon', 12, -180, 180), ('lat', 12, -80, 80)], lambda E, x, y: v('latlon_to_EN')(E, x, y, freq=2.0), 1e-6, False)
    add('course', [('e', 2, 1, 30), ('n', 2, 1, 30)], v('ENvel_to_course_heading'), 1e-9, False)
    add('rotation', [('h', 2, -180, 180), ('e', 2, -30, 30), ('n', 2, -30, 30)], v('rotate_acceleration_EN_to_cl'), 1e-9, False)
    add('normal gravity', [lat], g('wgs_grav'))
    for w in (False, True):
        add('free air, water %s' % w, [lat, h], (lambda w: lambda E, x, y: g('free_air_second_order')(E, x, y, w))(w))
    add('eotvos', [lon, lat, h], lambda E, x, y, z: g('eotvos_full')(E, x, y, z, 1), 1e-3)
    st = lambda E: _stamps(E, 'a', 2)
    add('tide', [('lon', 2, -180, 180), ('lat', 2, -80, 80), st], lambda E, x, y, t: g('longman_tide_prediction')(E, x, y, t, return_components=True))
    add('tide with altitude', [('lon', 2, -180, 180), ('lat', 2, -80, 80), st, ('alt', 2, 0, 9000)], lambda E, x, y, t, z: g('longman_tide_prediction')(E, x, y, t, alt=z))
    for o in (1, 2):
        add('central difference %d' % o, [('y', n, -10000, 10000)], (lambda o: lambda E, y: g('center_diff')(E, y, o, 3))(o))
    add('platform', [('g', 3, 970000, 990000), ('c', 3, -100000, 100000), ('l', 3, -100000, 100000)],
        lambda E, y, c, l: g('up_vecs')(E, 1, y, _own(E, c), _own(E, l), E.array([0.0, 1.0, 0.0]), 240, 0.7, 260, 0.8), 1e-9, False)
    add('filter', [('x', 7, -10000, 10000)], lambda E, x: E.mod('utils').gaussian_filter(x, 4))
    add('filter, long series', [('x', LONGREC, -10000, 10000)], lambda E, x: E.mod('utils').gaussian_filter(x, 9))
    X = lambda E: E.array([1000.0 * i for i in range(4)])
    add('line gravity', [X, ('t', 4, -4000, -3900)], lambda E, x, t: g('grav1d_padded')(E, x, t, 500, 600), 1e-6)
    for f in (True, False):
        add('interface gravity, fold %s' % f, [('z', (2, 3), 3900, 4000)], (lambda f: lambda E, z: g('grav2d_folding')(E, [0, 1, 2], [0, 1], z, 10, 10, ifold=f, npower=3))(f), 1e-6, False)
    add('layer gravity', [('r', (2, 3), 2000, 3500)], lambda E, r: g('grav2d_layer_variable_density')(E, r, 2, 3, 4, 6), 1e-6, False)
    for b in (False, True):
        add('crustal thickness, back %s' % b, [('u', 6, -100, 100)], (lambda b: lambda E, u: g('crustal_thickness_2D')(E, u, nx=6, ny=1, dx=12, back=b))(b), 1e-6)
    add('crustal thickness, grid', [('u', 6, -100, 100)], lambda E, u: g('crustal_thickness_2D')(E, u, nx=3, ny=2, dx=20, dy=25, back=True), 1e-6)
    for t in (False, True):
        x = ('x', 2, 1, 100) if t else ('x', 2, 1000, 2000000)
        nm = 'ages' if t else 'distances'
        add('half space, ' + nm, [x, ('z', 2, 0, 90000)], (lambda t: lambda E, x, z: g('therm_halfspace')(E, x, z, time=t))(t), 1e-6)
        add('half space isotherm, ' + nm, [x], (lambda t: lambda E, x: g('therm_Z_halfspace')(E, x, 600, time=t))(t), 1e-5)
        add('plate, ' + nm, [x, ('z', 3, 0, 150000)], (lambda t: lambda E, x, z: g('therm_plate')(E, x, z, time=t))(t), 1e-6)
        add('plate isotherm, ' + nm, [(lambda t: lambda E: E.array([30.0] if t else [4e5]))(t), ('T', 1, 0, 1350)],
            (lambda t: lambda E, x, T: g('therm_Z_plate')(E, x, T, time=t, minz=0, maxz=6e4, zsp=2e4))(t), 1e-6)
    return cs


def _own(E, x):
    """a copy of the accelerations, which the platform function cleans in place"""
    return type(x)(x) if isinstance(x, (list, tuple)) else E.snap(x)


# ------------------------------------------------------------------ P04
NAN = float('nan')


def _missing(args, call, spoiled, tol, where=None, free=lambda which, j, n: set()):
    """one missing sample: `spoiled(which, j, n)` are the positions of the results that are missing then (`free`: may be), all others stay as they are"""
    def case(E):
        vec = [i for i, v in enumerate(args) if isinstance(v, tuple)]
        i0 = E.choice('input', vec)
        n = args[i0][1]
        j = E.choice('sample', list(where) if where else list(range(n)))
        a, b = [], []
        for i, v in enumerate(args):
            if not isinstance(v, tuple):
                v = v(E) if callable(v) else v
                a.append(v)
                b.append(v)
                continue
            x = vals(E, v[0], *v[1:])
            a.append(E.array(x))
            b.append(E.array(x[:j] + [NAN] + x[j + 1:] if i == i0 else x))
        want, got = _flatten(call(E, *a)), _flatten(call(E, *b))
        E.true('number of results', len(got) == len(want))
        for k, (p, q) in enumerate(zip(got, want)):
            E.true('shape of result %d' % k, p.shape == q.shape)
            bad, may = spoiled(i0, j, n, p.shape), free(i0, j, n)
            if isinstance(bad, list):           # which of them depends on the result
                bad, may = bad[k], may[k]
            for t in np.ndindex(*p.shape):
                u = t[0] if len(t) == 1 else t
                if u in may:
                    continue
                if u in bad:
                    E.true('result %d is missing at %s' % (k, u), E.isnan(p[t]))
                elif n < 100 or q.shape[0] > 100 and min(abs(u - m) for m in (0, j, n // 2 + 3, n - 1)) < 12 or q.shape[0] <= 100:
                    E.close('result %d unchanged at %s' % (k, u), p[t], q[t], tol=tol)
    return case


def P04(th):
    g = lambda n: lambda E, *a, **kw: getattr(E.mod('grav'), n)(*a, **kw)
    v = lambda n: lambda E, *a, **kw: getattr(E.mod('nav'), n)(*a, **kw)
    cs = []

    def add(name, args, call, spoiled, tol=1e-9, where=None, free=lambda i, j, n: set()):
        cs.append(Case(name, _missing(args, call, spoiled, tol, where, free), 'a missing value in each input, at %s' % ('the samples %s' % (where,) if where else 'any sample')))
    here = lambda i, j, n, s: {j}
    around = lambda r: lambda i, j, n, s: {k for k in range(n) if abs(k - j) <= r}
    for n, w, nm in ((5, None, ''), (LONGREC, (LONGREC // 2 - 3,), ', long series')):
        lon, lat, h = ('lon', n, -180, 180), ('lat', n, -80, 80), ('h', n, -9000, 9000)
        add('course' + nm, [('e', n, 1, 30), ('n', n, 1, 30)], v('ENvel_to_course_heading'), here, where=w)
        add('rotation' + nm, [('a', n, -180, 180), ('e', n, -30, 30), ('n', n, -30, 30)], v('rotate_acceleration_EN_to_cl'), here, where=w)
        add('normal gravity' + nm, [lat], g('wgs_grav'), here, where=w)
        add('free air' + nm, [lat, h], g('free_air_second_order'), here, where=w)
        add('free air, water' + nm, [lat, h], lambda E, x, y: g('free_air_second_order')(E, x, y, True), here, where=w)
        add('eotvos' + nm, [lon, lat, h], lambda E, x, y, z: g('eotvos_full')(E, x, y, z, 1.0), _eot_nan, 1e-3, where=w, free=lambda i, j, n: _edges({j}, n) if i == 0 else set())
        for o in (1, 2):
            add('central difference %d%s' % (o, nm), [('y', n, -1e4, 1e4)], (lambda o: lambda E, y: g('center_diff')(E, y, o, 2.0))(o),
                (lambda o: lambda i, j, n, s: {k for k in (j - 2, j - 1, j) if 0 <= k < s[0] and (o == 2 or k != j - 1)})(o), where=w)
        add('half space' + nm, [('x', min(n, 120), 1e3, 2e6), lambda E: E.array([0.0, 3e4])], g('therm_halfspace'), lambda i, j, n, s: {j} if len(s) == 1 else {(k, j) for k in range(s[0])}, 1e-6, where=w and (63,))
        add('half space isotherm' + nm, [('x', n, 1e3, 2e6)], lambda E, x: g('therm_Z_halfspace')(E, x, 600.0), here, 1e-5, where=w)
    st = lambda n: lambda E: [E.datetime(2019, 3, 4, tzinfo=E.tz(0)) + E.delta(977 * i) for i in range(n)]
    for n, w, nm in ((3, None, ''), (150, (77,), ', long series')):
        add('tide' + nm, [('lon', n, -180, 180), ('lat', n, -80, 80), st(n), ('alt', n, 0, 9000)],
            lambda E, x, y, t, z: g('longman_tide_prediction')(E, x, y, t, alt=z, return_components=True), here, where=w)
    add('plate', [('x', 3, 1e3, 2e6), lambda E: E.array([0.0, 3e4, 2e5])], g('therm_plate'),
        lambda i, j, n, s: {j} if len(s) == 1 else {(k, j) for k in range(2)}, 1e-6, free=lambda i, j, n: {(2, j)})
    for n, w, nm in ((17, None, ''), (LONGREC, (LONGREC // 2 - 3,), ', long series')):
        add('velocity' + nm, [('lon', n, -180, 180), ('lat', n, -80, 80)], lambda E, x, y: v('latlon_to_EN')(E, x, y, freq=2.0), _vel_nan, 1e-6, where=w or (0, 3, 5, 8, 11, 16),
            free=_vel_may)
    for n, fl, w in ((9, 2, None), (9, 4, (0, 3, 8)), (9, 5, (0, 3, 8)), (LONGREC, 60, (LONGREC // 2 - 3,))):
        add('filter of length %d' % fl + (', long series' if w and len(w) == 1 else ''), [('x', n, -1e4, 1e4)], (lambda fl: lambda E, x: E.mod('utils').gaussian_filter(x, fl))(fl),
            (lambda fl: lambda i, j, n, s: set(range(j, min(n, j + 2 * (fl // 2) + 1))))(fl), 1e-6, where=w)
    return cs


def _edges(near, n):
    """the first and the last value are copies of the ones beside them"""
    near = {k for k in near if 1 <= k < n - 1}
    return near | ({0} if 1 in near else set()) | ({n - 1} if n - 2 in near else set())


def _eot_nan(i, j, n, s):
    """longitudes enter the vertical component by their first differences only"""
    bad = _edges({j - 1, j + 1} | ({j} if i else set()), n)
    return bad - _edges({j}, n) if i == 0 else bad


def _vel_nan(i, j, n, s):
    near = {k for k in range(5, n - 5) if abs(k - j) <= 5 and k != j}
    ends = set(range(5)) | set(range(n - 5, n))
    return [ends | near | {j}, ends | {j}] if i else [ends, ends | near]


def _vel_may(i, j, n):
    return [set(), set()] if i else [set(), {j}]
