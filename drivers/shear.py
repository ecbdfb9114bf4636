"""Wind over topography and behind sand fences."""
from dlib import *
import aeolis.wind as wind
import aeolis.fences as fences

a = args()
rng, nr = a.rng, a.np


def f(x):
    return np.asarray(x, float).reshape(-1).copy()


def blow(zb, gx, gy, d, u, th=0., ox=0., oy=0., **kw):
    """a model in the state just before the shear is computed"""
    ny, nx = zb.shape
    if ny == 1:
        g = dict(xgrid_file=np.arange(nx) * gx + ox, ygrid_file=np.zeros(nx), bed_file=zb[0])
    else:
        X, Y = np.meshgrid(np.arange(nx) * gx, np.arange(ny) * gy)
        t = np.radians(th)
        g = dict(xgrid_file=X * np.cos(t) - Y * np.sin(t) + ox, ygrid_file=X * np.sin(t) + Y * np.cos(t) + oy, bed_file=zb)
    m = model(base(**g, wind_convention='nautical', wind_file=np.array([[0., u, d], [1e6, u, d]]), **kw))
    m.s = wind.interpolate(m.s, m.p, 0.)
    m.s = m.grid_rotate(m.p['alpha'])
    return m


def shear(m):
    s, exc = call(wind.shear, m.s, m.p)
    if not exc:
        m.s = s
    return exc


def fields(s):
    return {k: f(s[k]) for k in ('tau', 'taus', 'taun', 'ustar', 'ustars', 'ustarn')}


def zero(s):
    return {k: f(s[k]) for k in ('taus0', 'taun0')}


def anydir():
    return rng.choice([270., 90., 240., 300., 20., 100., 200., 340., .1, rng.uniform(0, 360)])


# flat beds
for n in range(40 if a.thorough else 16):
    two = rng.random() < .75
    ny, nx = (rng.choice([4, 7]), rng.choice([5, 8])) if two else (1, rng.choice([6, 9]))
    m = blow(np.full((ny, nx), rng.choice([0., 2.5, -1.5, 30.])), rng.choice([1., 2.5]), rng.choice([1., 2.]), anydir(), rng.choice([5., 12.]), rng.choice([0., 30., 90., 200.]), rng.choice([0., 1500.]), rng.choice([0., -400.]),
             process_shear=True, process_separation=rng.random() < .5, dx=1., dy=1., buffer_width=rng.choice([10., 40.]))
    exc = shear(m)
    ev(kind='flat', key=nm('flat', a.seed, n), exc=exc, rhoa=m.p['rhoa'], hsep=f(m.s['hsep']) if m.p['process_separation'] else [], **fields(m.s), **zero(m.s))

# hills and dunes in two dimensions


def hill(ny, nx, dx, dy, steep):
    X, Y = np.meshgrid(np.arange(nx) * dx, np.arange(ny) * dy)
    h = rng.choice([.3, 1., 3.])
    x0, y0 = X.max() * rng.uniform(.35, .65), Y.max() * rng.uniform(.3, .7)
    z = h * np.exp(-((X - x0) / (X.max() * .2)) ** 2 - ((Y - y0) / (Y.max() * .3)) ** 2)
    if steep:
        z = z * (X < x0) + (X >= x0) * np.maximum(0., z - (X - x0) * 1.)
    return z + .02 * nr.uniform(size=z.shape)


for n in range(40 if a.thorough else 16):
    ny, nx, dx, dy = rng.choice([(12, 16, 1., 1.), (9, 14, 2., 2.), (12, 12, 1., 2.)])
    steep = rng.random() < .7
    z = hill(ny, nx, dx, dy, steep) + rng.choice([0., 0., 3., -2.])
    d, u, th = anydir(), rng.choice([6., 12.]), rng.choice([0., 0., 90., 45.])
    kw = dict(process_shear=True, process_separation=steep, dx=1., dy=1., buffer_width=20.)
    if n % 3 == 1:
        kw.update(process_separation=True, sep_filter_iterations=rng.choice([0, 1, 3]), zsep_y_filter=rng.random() < .5)
    steep = kw['process_separation']
    m = blow(z, dx, dy, d, u, th, **kw)
    exc = shear(m)
    s = m.s
    gc = s['shear'].cgrid
    inside = 0.
    if not exc and steep:
        deep = gc['hsep'] >= .1
        inside = float(np.hypot(gc['taux'], gc['tauy'])[deep].max()) if deep.any() else 0.
    r = np.radians(s['udir'][0, 0])
    ev(kind='hill', key=nm('hill', a.seed, n), exc=exc, rhoa=m.p['rhoa'], sep=steep, es=-np.sin(r), en=-np.cos(r), zb=f(s['zb']), inside=inside, hsep=f(s['hsep']), zsep=f(s['zsep']), **fields(s))
    if exc:
        continue
    one = [f(s[k]) for k in ('tau', 'taus', 'taun')]
    if not steep:
        m2 = blow(z + rng.choice([7., -3.]), dx, dy, d, u, th, **kw)
        e2 = shear(m2)
        ev(kind='pair', key=nm('raised', a.seed, n), exc=e2, what='raised', factor=1., a=one, b=[f(m2.s[k]) for k in ('tau', 'taus', 'taun')])
    m3 = blow(z, dx, dy, d, 1.5 * u, th, **kw)
    e3 = shear(m3)
    ev(kind='pair', key=nm('wind', a.seed, n), exc=e3, what='stronger-wind', factor=2.25, a=one, b=[f(m3.s[k]) for k in ('tau', 'taus', 'taun')])

# profiles
for n in range(160 if a.thorough else 76):
    nx, dx = rng.choice([6, 9, 14, 25] if n < 40 else [20, 25, 32, 40]), rng.choice([.5, 1., 2.])
    kind = rng.choice(['random', 'ramp', 'dune', 'dune', 'low']) if n < 40 else 'ridge'
    x = np.arange(nx)
    if kind == 'random':
        z = nr.uniform(0, 1, nx) * dx
    elif kind == 'ramp':
        z = x * dx * rng.choice([.05, -.05, .2])
    elif kind == 'ridge':     # a dune with a slip face on level ground
        c, up, top = rng.randint(6, nx // 2), rng.choice([.05, .1, .2, .3]), rng.choice([0, 0, 1, 3])
        z = np.where(x <= c, np.maximum(0., (x - rng.choice([0, 1, 3])) * up), 0.) * dx
        hgt = z[c]
        z = np.maximum(z, np.where((x > c) & (x <= c + top), hgt, 0.))
        z = np.where(x > c + top, np.maximum(0., hgt - (x - c - top) * dx * rng.choice([.62, .8, 1.5])), z) * nr.uniform(.98, 1.1)
        if rng.random() < .5:
            z = z[::-1]
    else:
        c = nx * rng.uniform(.4, .6)
        z = np.maximum(0, np.where(x < c, 3. - (c - x) * .4, 3. - (x - c) * rng.choice([.9, 1.5]))) * dx
        if kind == 'low':
            z = z * .1
        if rng.random() < .5:
            z = z[::-1]
    z = (z + rng.choice([0., 5., -4.] if n < 40 else [0., 0., 5.]))[None, :]
    sep = rng.random() < (.6 if n < 40 else .95)
    d = rng.choice([270., 90., 250., 300., 60., 110., 200., 345., 180., 360.])
    m = blow(z, dx, 1., d, rng.choice([6., 12.]), ox=rng.choice([0., 100.]), process_shear=True, process_separation=sep, **(dict(dx=dx, dy=1.) if rng.random() < .5 else {}))
    s, p = m.s, m.p
    exc = shear(m)
    c = abs(np.sin(np.radians(s['udir'][0, 0])))
    ev(kind='line', key=nm('line', a.seed, n), exc=exc, rhoa=p['rhoa'], sep=sep, dx=dx, dl=dx / c, mu=float(p['mu_b']), c=float(p['c_b']), forward=bool(s['taus0'].sum() >= 0), zb=f(s['zb']), hsep=f(m.s['hsep']), zsep=f(m.s['zsep']),
       **fields(m.s), **zero(m.s))

# fences in one dimension
for n in range(40 if a.thorough else 16):
    nx, dx = rng.choice([8, 15]), rng.choice([.5, 1., 3.])
    h = nr.choice([0., 0., 0., .5, 1., .05], nx)
    d = rng.choice([270., 90., 250., 310., 60., 110.])
    m = blow(nr.uniform(.2, .4, (1, nx)), dx, 1., d, rng.choice([6., 12.]), process_fences=True, fence_file=h, okin_c1_fence=rng.choice([.48, 1.]), okin_initialred_fence=rng.choice([.32, .1]))
    s, p = m.s, m.p
    old = {k + '0': f(s[k]) for k in ('ustar', 'ustars', 'ustarn')}
    s2, exc = call(fences.update_fences, s, p)
    if exc:
        ev(kind='fence1', key=nm('fence1', a.seed, n), exc=exc)
        continue
    ev(kind='fence1', key=nm('fence1', a.seed, n), exc=exc, rhoa=p['rhoa'], x=f(s['x']), h=f(s['fence_height']), c1=float(p['okin_c1_fence']), i0=float(p['okin_initialred_fence']), forward=bool(np.sin(np.radians(d)) < 0),
       **fields(s), **old)

# fences in two dimensions
for n in range(16 if a.thorough else 6):
    ny, nx = 8, 12
    h = np.zeros((ny, nx))
    none = n % 3 == 2
    fj, fi = rng.randint(2, 5), rng.randint(3, 7)
    if not none:
        h[fj:fj + rng.choice([1, 3]), fi] = rng.choice([.4, 1.])
    d = anydir()
    m = blow(nr.uniform(.2, .3, (ny, nx)), 2., 2., d, rng.choice([6., 12.]), rng.choice([0., 0., 90., 30.]), process_fences=True, fence_file=h, dx=2., dy=2.)
    s, p = m.s, m.p
    old = {k + '0': f(s[k]) for k in ('ustar', 'ustars', 'ustarn')}
    x, y = f(s['x']), f(s['y'])
    s2, exc = call(fences.update_fences, s, p)
    r = np.radians(s['udir'][0, 0])
    hh = f(s['fence_height'])
    q = np.nonzero(hh > 0)[0]
    ev(kind='fence2', key=nm('fence2', a.seed, n), exc=exc, rhoa=p['rhoa'], x=x, y=y, fx=x[q], fy=y[q], fh=hh[q], at=[int(k) + 1 for k in q], es=-np.sin(r), en=-np.cos(r), margin=5., **fields(s), **old)

# fences in a bed that changes
for n in range(16 if a.thorough else 6):
    nx = 8
    h = nr.choice([0., .08, .3, 1., 1.4], nx)
    m = blow(nr.uniform(-.3, .6, (1, nx)), 1., 1., 270., 8., process_fences=True, fence_file=h)
    s, p = m.s, m.p
    top0 = f(s['zb']) + h
    for k in range(5):
        s['zb'] += nr.choice([0., .2, -.3, .9, -1.], s['zb'].shape)
        init, top = f(s['fence_height_init']), f(s['fence_top'])
        s2, exc = call(fences.update_fence_height, s, p)
        ev(kind='fenceh', key=nm('fenceh%d' % k, a.seed, n), exc=exc, z=f(s['zb']), top=top, top0=top0, init=init, h1=f(s['fence_height']), init1=f(s['fence_height_init']))
done(a)
