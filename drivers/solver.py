"""Drives the numerical schemes of AeoLiS from generated and random states."""
from dlib import *
import aeolis.transport as tr
import aeolis.bed as bed

a = args()
rng, nr = a.rng, a.np
ALPHA = dict(euler_forward=0., crank_nicolson=.5, euler_backward=1.)


def tf(x):            # (ny, nx, nf) -> [f][j][i]
    return np.moveaxis(np.asarray(x, float), -1, 0).copy()


def mk(ny, nx, nf, solver, scheme, bo, bl, lat, oflux, nflux, dx, dy, **kw):
    g = grid(nx, ny, dx, dy)
    if kw.pop('stretched', False) and ny == 1:
        g['xgrid_file'] = np.cumsum(np.concatenate([[0.], nr.uniform(.5, 2., nx - 1)]))
    c = base(**g, solver=solver, scheme=scheme, nlayers=2, boundary_offshore=bo, boundary_onshore=bl,
             boundary_lateral=lat, grain_size=[0.0002 + 0.00005 * i for i in range(nf)],
             grain_dist=[1. / nf] * nf, **kw)
    c['constant_offshore_flux' if bo == 'constant' else 'offshore_flux'] = float(oflux)
    c['constant_onshore_flux' if bl == 'constant' else 'onshore_flux'] = float(nflux)
    return model(c)


def solve(m, key, scheme, dt, t, wind):
    s, p = m.s, m.p
    m.dt, m.t = dt, t
    pre = {k: tf(s[k]) for k in ('Ct', 'Cu', 'Cuf', 'Cu0', 'us', 'un', 'u')}
    prel = {k: tf(m.l[k]) for k in ('Ct', 'Cu', 'Cuf', 'w')}
    top = np.moveaxis(s['mass'][:, :, 0, :], -1, 0).copy()
    r, exc = call(getattr(m, scheme))
    e = dict(key=key, kind='solve', exc=exc, solver=p['solver'], scheme=scheme, alpha=ALPHA[scheme], dt=dt, T=float(p['T']),
             t=t, eps=float(p['max_error']), bi=float(p['bi']), bo=p['boundary_offshore'], bl=p['boundary_onshore'], lat=p['boundary_lateral'], lflux=float(p['lateral_flux']),
             oflux=float(p['constant_offshore_flux'] if p['boundary_offshore'] == 'constant' else p['offshore_flux']),
             nflux=float(p['constant_onshore_flux'] if p['boundary_onshore'] == 'constant' else p['onshore_flux']),
             ds=s['ds'], dn=float(s['dn'][0, 0]), wind=wind, nf=int(p['nfractions']), first=(t == 0.),
             us=pre['us'], un=pre['un'], u=pre['u'], Cu=pre['Cu'], Cuf=pre['Cuf'], Cu0=pre['Cu0'],
             C0=prel['Ct'], lw=prel['w'], lCu=prel['Cu'], lCuf=prel['Cuf'], m=top)
    if not exc:
        if 'Ct' in r:
            e.update(C=tf(r['Ct']), w=tf(r['w']), pk=tf(r['pickup']), qs=tf(r['qs']), qn=tf(r['qn']))
            if 'pieter' in p['solver'] and 0:
                pass
        else:
            e['kind'] = 'start'
            e.update(w=tf(r['w']))
    ev(**e)
    return r


def setstate(m, us, un, Cu, Cuf, Ct, mass=None):
    s = m.s
    nf = m.p['nfractions']
    for k, v in (('us', us), ('un', un), ('Cu', Cu), ('Cuf', Cuf), ('Cu0', Cuf), ('Ct', Ct)):
        s[k] = np.zeros(s[k].shape) + v
    s['u'] = np.hypot(s['us'], s['un'])
    if mass is not None:
        s['mass'][:, :, 0, :] = mass


def keep(m):
    m.l = m.s.copy()
    for k in m.l:
        m.l[k] = np.array(m.l[k]).copy()


# ---- behaviours of the specification: chain of cells
for n, sc in enumerate(a.scenarios):
    for solver in (['trunk'] if n % 3 else ['trunk', 'pieter']):
        N = 4
        m = mk(1, N + 1, 1, solver, 'euler_backward', 'constant' if solver == 'trunk' else 'flux',
               'gradient' if solver == 'trunk' else 'flux', 'circular', 0., 0., 1., 1.)
        setstate(m, 0, 0, 0, 0, 0, nr.choice([0., 3., 20.], (1, N + 1, 1)))
        m.s['w'][:] = 1.
        for k, st in enumerate(sc['steps']):
            keep(m)
            setstate(m, st['u'], 0., st['Cu'], st['Cu'], m.s['Ct'])
            m.p['constant_offshore_flux'] = float(st['cin'] * st['u'])
            r = solve(m, 'spec%d.%d-%s' % (n, k, solver), 'euler_backward', float(st['dt']), 10. + k, 'uni')
            if not isinstance(r, dict) or 'Ct' not in r:
                break
            m.s.update(r)
            m.s['mass'][:, :, 0, :] -= r['pickup']

# ---- random states
N = 260 if a.thorough else 90
for n in range(N):
    solver = rng.choice(['trunk', 'trunk', 'trunk', 'steadystate', 'pieter', 'pieter', 'steadystatepieter'])
    scheme = rng.choice(['euler_backward', 'euler_backward', 'crank_nicolson', 'euler_forward'])
    ny, nx = rng.choice([(1, 6), (1, 4), (3, 5), (4, 4), (3, 7)])
    nf = rng.choice([1, 1, 2, 3])
    cell = 'pieter' not in solver
    bcs = ['flux', 'constant', 'uniform', 'gradient'] + (['noflux'] if solver == 'trunk' else []) if cell else ['flux', 'flux', 'constant', 'gradient']
    bo, bl = rng.choice(bcs), rng.choice(bcs)
    big = rng.random() < .25
    dx, dy = rng.choice([1., 2., 5.]), rng.choice([1., 3.])
    lat = rng.choice(['circular', 'circular', 'flux', 'constant', 'gradient'] ) if ny > 1 and not cell else 'circular'
    m = mk(ny, nx, nf, solver, scheme, bo, bl, lat,
           rng.choice([0., .5, 1.]) if bo == 'flux' else rng.choice([0., .02]) if cell else 0.,
           rng.choice([0., .5]) if bl == 'flux' else rng.choice([0., .02]) if cell else 0., dx, dy,
           T=rng.choice([1., 1., .5, 3.]), bi=rng.choice([1., 1., .5, .05]), stretched=rng.random() < .4,
           max_error=rng.choice([1e-6, 1e-9]),
           lateral_flux=0. if 'constant' in (bo, bl) else rng.choice([0., .5, 1.]))
    wind = rng.choice(['uni', 'uni', 'uni', 'mixed', 'calmcells'])
    shp = (ny, nx, nf) if rng.random() < .3 else (ny, nx, 1)
    sg, sn = rng.choice([1, 1, -1]), rng.choice([1, -1, 0])
    us = sg * nr.uniform(.5, 4., shp)
    un = sn * nr.uniform(.2, 3., shp)
    if wind == 'mixed':
        us, un = nr.uniform(-3, 4., shp), nr.uniform(-3, 3., shp)
    if wind == 'calmcells':
        us = us * (nr.uniform(size=shp) < .6)
        un = un * (us != 0)
    cfl = float(np.max(np.abs(us)) / np.min(m.s['ds']) + np.max(np.abs(un)) / dy)
    T = m.p['T']
    if scheme == 'euler_forward':
        dt = rng.choice([.4, .9, 3. if big else .2]) / (cfl + 1 / T + 1e-9)
    else:
        dt = rng.choice([.1, 1., 10., 600.] if big or scheme == 'euler_backward' else [.05, .2, 1.]) * min(1., 1.)
    sh = (ny, nx, nf)
    if wind != 'uni' or m.p['max_error'] < 1e-6:      # near-stagnant cells exhaust the iterations of the solver for large dt / T
        dt = min(dt, 10.)
    Cu = nr.uniform(.02, .3, sh)
    Cuf = Cu * nr.uniform(1., 2., sh) if rng.random() < .5 else Cu.copy()
    zero = nr.uniform(size=(ny, nx, 1)) < .2
    if rng.random() < .4:
        Cu = np.where(zero, 0., Cu)
        Cuf = np.where(zero, 0., Cuf) if rng.random() < .7 else Cuf
    mass0 = nr.uniform(.5, 1.5, sh) * rng.choice([20., 20., .1, .01])
    if rng.random() < .4:
        mass0 = np.where(nr.uniform(size=sh) < .3, 0., mass0)
    C0 = nr.uniform(0, 1., sh) * rng.choice([0., .05, .3])
    if not cell:           # a constant boundary keeps the concentration that it starts with: none
        C0[:, :1] *= bo != 'constant'
        C0[:, -1:] *= bl != 'constant'
        if lat == 'constant':
            C0[[0, -1]] = 0.
    l0 = nr.dirichlet(np.ones(nf), (ny, nx))
    lCu = nr.uniform(.02, .3, sh)
    setstate(m, us, un, lCu, lCu * 1.2, C0, mass0)
    m.s['w'][:] = l0
    keep(m)
    setstate(m, us, un, Cu, Cuf, C0, mass0)
    key = nm('rand-%s-%s-%s-%s-%s-%s' % (solver, scheme, bo, bl, lat, wind), a.seed, n)
    first = rng.random() < .1
    r = solve(m, key, scheme, float(dt), 0. if first else 50., wind)
    # weights of the fractions as separate functions
    if rng.random() < .35:
        r, exc = call(tr.compute_weights, m.s, m.p)
        ev(key=key + '-w', kind='weights', exc=exc, bi=float(m.p['bi']), Ct=m.s['Ct'], Cu=m.s['Cu'], top=m.s['mass'][:, :, 0, :],
           w=r[0] if not exc else [], wa=r[1] if not exc else [], wb=r[2] if not exc else [])
        w0 = nr.dirichlet(np.ones(nf), (ny, nx)) * nr.uniform(.3, 1., (ny, nx, 1))
        w0 = np.where(nr.uniform(size=w0.shape) < .3, 0., w0)
        ix = rng.randint(0, nf - 1)
        r, exc = call(tr.renormalize_weights, w0.copy(), ix)
        ev(key=key + '-n', kind='renorm', exc=exc, ix=ix + 1, w0=w0, w=r if not exc else [])

# ---- boundaries of the face-based solvers, with sediment and air enough for the equation to be judged in all cells
for n, (lat, side) in enumerate([(x, y) for x in ('circular', 'flux', 'constant', 'gradient') for y in (1, -1)] * (3 if a.thorough else 1)):
    for solver, scheme in (('pieter', 'euler_backward'), ('pieter', 'crank_nicolson'), ('steadystatepieter', 'euler_backward')):
        ny, nx, nf = rng.choice([3, 4, 5]), rng.choice([4, 5, 6]), rng.choice([1, 2])
        bo, bl = rng.choice(['flux', 'gradient']), rng.choice(['flux', 'gradient'])
        m = mk(ny, nx, nf, solver, scheme, bo, bl, lat, rng.choice([.5, 1.]), rng.choice([.2, .5]), 2., rng.choice([1., 3.]), T=rng.choice([1., .5]),
               bi=1., lateral_flux=rng.choice([.5, 1.]))
        sgn = rng.choice([1, -1])
        shp, sh = (ny, nx, 1), (ny, nx, nf)
        # velocities that grow or fall little from cell to cell, so that no cell runs out of air
        us, un = sgn * nr.uniform(1.5, 1.9, shp), side * nr.uniform(1.2, 1.5, shp)
        Cu = nr.uniform(.1, .3, sh)
        if bo == 'flux' and sgn < 0:                 # a prescribed flux that leaves takes less than there is
            Cu[:, 0] *= .2
        if bl == 'flux' and sgn > 0:
            m.p['constant_onshore_flux'] = m.p['onshore_flux'] = 0.
        C0 = nr.uniform(.3, .5, sh) * (0. if lat == 'constant' else 1.)
        C0[1:-1] = nr.uniform(.3, .5, (ny - 2, nx, nf))
        setstate(m, us, un, Cu, Cu, C0, 50.)
        m.s['w'][:] = 1. / nf
        keep(m)
        setstate(m, us, un, Cu, Cu, C0, 50.)
        solve(m, nm('edge-%s-%s-%s-%s-%s-%d' % (solver, scheme, bo, bl, lat, side), a.seed, n), scheme, .3, 50., 'uni')

# ---- complete time steps
for n in range(30 if a.thorough else 9):
    nf = rng.choice([1, 2, 3])
    nx, ny = rng.choice([(12, 1), (7, 3)])
    solver = rng.choice(['trunk', 'trunk', 'steadystate', 'pieter', 'steadystatepieter'])
    cell = 'pieter' not in solver
    scheme = rng.choice(['euler_backward', 'euler_backward', 'euler_forward', 'crank_nicolson'])
    wf = np.array([[0., rng.choice([8., 12., 18.]), rng.choice([0., 10., 340.])], [100., rng.choice([5., 12.]), 20.], [300., 15., 350.]])
    m = model(base(**grid(nx, ny, zb=None), wind_file=wf, solver=solver, scheme=scheme, dt=rng.choice([1., 10., 60.]), tstart=rng.choice([0., 20.]),
                   boundary_offshore='constant' if cell else 'flux', boundary_onshore='gradient' if cell else 'flux',
                   nlayers=2, layer_thickness=rng.choice([.01, .0002]), grain_size=[.00015, .0003, .0008][:nf], grain_dist=np.array([[.3, .3, .4][:nf], [.6, .2, .2][:nf]]) if nf > 1 and rng.random() < .25 else [.3, .3, .4][:nf],
                   method_grainspeed=rng.choice(['windspeed', 'constant']),
                   method_transport=rng.choice(['bagnold', 'kawamura', 'lettau', 'dk', 'vanrijn_strypsteen']),
                   accfac=rng.choice([1., 1., 5.]), bi=rng.choice([1., .3]), process_avalanche=False, process_moist=False,
                   bedupdate=True, process_shear=False))
    for k in range(4):
        s = m.s
        m0, z0 = s['mass'].copy(), s['zb'].copy()
        _, exc = call(m.update)
        s = m.s
        ev(key='step-%s-%s-%d-%d.%d' % (solver, scheme, a.seed, n, k), kind='step', exc=exc, eps=float(m.p['max_error']),
           rho=float(m.p['rhog'] * (1 - m.p['porosity'])), top0=m0[:, :, 0, :], mass=s['mass'], pk=s['pickup'], C=s['Ct'],
           w=s['w'], zb0=z0, zb=s['zb'], Cu=s['Cu'], solver=solver)
        if exc:
            break
done(a)
