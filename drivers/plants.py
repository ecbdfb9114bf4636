"""Drives the vegetation of AeoLiS: initial cover, germination and expansion,
growth and death, shelter."""
from dlib import *
import aeolis.vegetation as veg

a = args()
rng, nr = a.rng, a.np
only = a.rest
np.random.seed(a.seed + 17)


def want(k):
    return not only or k in only


def cover(shp):
    v = nr.choice([0., 0., .1, .5, 1.], size=shp) * nr.uniform(.2, 1., shp)
    if rng.random() < .2:
        v[...] = rng.choice([0., 1.])
    return v


def setup(ny, nx, dx=1., dy=1., **kw):
    g = grid(nx, ny, dx, dy)
    c = dict(g, process_vegetation=True, veg_file=cover(np.asarray(g['bed_file']).shape), veg_min_elevation=0, V_ver=rng.choice([3., 6., .5]), hveg_max=rng.choice([1., .6, 2.]),
             dzb_opt=rng.choice([0., .3]), veg_gamma=rng.choice([1., .2]), veggrowth_type=rng.choice(['orig', 'duranmoore14']), rhoveg_max=rng.choice([.5, .8]), t_veg=rng.choice([3, 30]),
             v_gam=rng.choice([1., .3]), germinate=0., lateral=0., process_moist=False)
    c.update(kw)
    return model(base(**c))


V = dict(h='hveg', r='rhoveg', germ='germinate', lat='lateral')


def state(s):
    return {k: s[v].copy() for k, v in V.items()}


def par(p):
    return dict(V=p['V_ver'], hmax=p['hveg_max'], opt=p['dzb_opt'], gamma=p['veg_gamma'], tveg=p['t_veg'], vgam=p['v_gam'], rmax=p['rhoveg_max'], method=p['veggrowth_type'],
                tide=bool(p['process_tide']), zmin=p['veg_min_elevation'])


# ------------------------------------------------------------------ initial cover
if want('init'):
    for n in range(12 if a.thorough else 6):
        ny, nx = rng.choice([(1, 7), (3, 5), (4, 6)])
        shp = (nx,) if ny == 1 else (ny, nx)
        v = cover(shp) - nr.choice([0., 0., .3], size=shp)
        if rng.random() < .2:
            v[...] = np.nan
        m = setup(ny, nx, veg_file=v)
        ev(kind='vinit', key=nm('vinit', a.seed, n), v=v.reshape(m.s['zb'].shape), hmax=m.p['hveg_max'], **state(m.s))

# ------------------------------------------------------ germination and expansion
if want('germ'):
    for n in range(16 if a.thorough else 8):
        big = rng.random() < .6
        ny, nx = rng.choice([(60, 60), (1, 2000)]) if big else rng.choice([(1, 9), (4, 6), (3, 5)])
        dx = rng.choice([1., .5, 4.])
        dy = dx
        m = setup(ny, nx, dx, dy, germinate=rng.choice([.05, .5, 1., 0.]), lateral=rng.choice([.2, .9, 1., 0.]))
        s, p = m.s, m.p
        p['dt_opt'], p['accfac'] = rng.choice([3600., 86400. * 30, 86400. * 200]), rng.choice([1., 1., 2.])
        for k in range(2):
            s['rhoveg'] = cover(s['rhoveg'].shape) * (nr.uniform(size=s['rhoveg'].shape) < .5)
            s['lateral'] = (nr.uniform(size=s['rhoveg'].shape) < .1).astype(float)
            s['germinate'] = (nr.uniform(size=s['rhoveg'].shape) < .1).astype(float)
            s['dzbveg'] = nr.choice([-1., 0., 0., 2.], size=s['rhoveg'].shape)
            st0 = state(s)
            _, exc = call(veg.germinate, s, p)
            ev(kind='germ', key=nm('germ%d' % k, a.seed, n), exc=exc, b=st0, dz=s['dzbveg'], pg=p['germinate'], pl=p['lateral'], span=p['dt_opt'] * p['accfac'], dx=dx,
               more=s['drhoveg'], **state(s))

# ------------------------------------------------------------------ growth and death
if want('grow'):
    for n in range(40 if a.thorough else 16):
        ny, nx = rng.choice([(1, 9), (4, 6), (3, 5)])
        m = setup(ny, nx, V_ver=rng.choice([3., 6., .5, 0.]), process_tide=rng.random() < .6, veg_min_elevation=rng.choice([-5, 0, 0.5]), dt=rng.choice([3600., 86400.]))
        s, p = m.s, m.p
        shp = s['zb'].shape
        for k in range(5):
            s['zb'] = nr.uniform(-.3, 2., shp)
            s['zs'] = np.maximum(s['zb'], rng.choice([-1., .4, 1.])) if rng.random() < .7 else s['zb'] + nr.choice([0., .009, .011, .5], size=shp)
            s['dzbveg'] = nr.choice([0., .3, -.5, 2., -8., 15.], size=shp)
            if k == 0:
                s['rhoveg'] = cover(shp)
                s['hveg'] = p['hveg_max'] * np.sqrt(s['rhoveg'])
            s['germinate'] = np.maximum(s['rhoveg'] > 0, nr.uniform(size=shp) < .3).astype(float)
            s['lateral'] = np.maximum(s['lateral'], nr.uniform(size=shp) < .1).astype(float)
            if rng.random() < .3:
                s['germinate'][:] = s['rhoveg'] > 0
                s['lateral'][:] = 0.
            if rng.random() < .5:       # the neighbours counted by germination
                s['drhoveg'] = nr.choice([0., 1., 3.], size=shp)
            p['dt_opt'], p['accfac'] = rng.choice([3600., 86400. * 10, 86400. * 60, 20.]), rng.choice([1., 1., 3.])
            st0 = state(s)
            _, exc = call(veg.grow, s, p)
            ev(kind='grow', key=nm('grow%d' % k, a.seed, n), exc=exc, b=st0, dz=s['dzbveg'], z=s['zb'], zs=s['zs'], q=par(p), span=p['dt_opt'] * p['accfac'], **state(s))
            if exc:
                break

# --------------------------------------------------------------------------- shelter
if want('shelter'):
    for n in range(40 if a.thorough else 16):
        okin = rng.random() < .5
        ny, nx = (1, rng.choice([9, 40])) if okin else rng.choice([(1, 9), (4, 6), (9, 12)])
        d = rng.choice([0., 30., 180., 200., 90., 350., 135.])
        m = setup(ny, nx, rng.choice([1., .5, 3.]), vegshear_type='okin' if okin else 'raupach', gamma_vegshear=rng.choice([16., 4.]), veg_sigma=rng.choice([.8, .8, 2., .2, 0.]),
                  okin_c1_veg=rng.choice([.48, .2]), okin_initialred_veg=rng.choice([.32, .1]), process_shear=False, wind_file=np.array([[0., 10., d], [1e9, 10., d]]))
        s, p = m.s, m.p
        for k in range(2):
            s['rhoveg'] = cover(s['rhoveg'].shape)
            s['hveg'] = p['hveg_max'] * np.sqrt(s['rhoveg']) * rng.choice([1., .1])
            us = nr.uniform(.1, .8, s['zb'].shape)
            if k == 1:
                us *= nr.choice([1., 1., 0.], size=us.shape)
            dr = np.radians(d) + nr.uniform(-.2, .2, us.shape)
            s['ustar'], s['ustars'], s['ustarn'] = us.copy(), us * np.cos(dr), us * np.sin(dr)
            s['udir'][:] = 270. - d
            b = dict(ustar=s['ustar'].copy(), s=s['ustars'].copy(), n=s['ustarn'].copy())
            _, exc = call(veg.vegshear, s, p)
            ev(kind='shelter', key=nm('shelter%d' % k, a.seed, n), exc=exc, okin=okin and ny == 1, b=b, ustar=s['ustar'], s=s['ustars'], n=s['ustarn'], tau=s['tau'], taus=s['taus'], taun=s['taun'],
               r=s['rhoveg'], h=s['hveg'], x=s['x'], east=bool(np.cos(np.radians(d)) > 0), across=abs(np.cos(np.radians(d))) < 1e-6, rough=p['gamma_vegshear'], sigma=p['veg_sigma'],
               c1=p['okin_c1_veg'], r0=p['okin_initialred_veg'], rhoa=p['rhoa'])

# ------------------------------------------------------------------------ whole steps
if want('run'):
    for n in range(12 if a.thorough else 5):
        ny, nx = rng.choice([(1, 12), (4, 8)])
        x = np.linspace(-.5, 2., nx)
        zb = x if ny == 1 else x * np.ones((ny, 1)) + nr.uniform(-.2, .2, (ny, nx))
        m = setup(ny, nx, bed_file=zb, process_tide=True, tide_file=np.array([[0., -1.], [86400. * 40, 1.2], [86400. * 80, -1.], [1e9, -1.]]), germinate=rng.choice([0., .5]), lateral=rng.choice([0., .5]),
                  dt=86400. * 5, CFL=0 if rng.random() < .3 else 1., wind_file=np.array([[0., 4., 0.], [1e9, 4., 0.]]), veg_min_elevation=-.3)
        for k in range(16):
            st0 = state(m.s)
            _, exc = call(m.update, seconds=60)
            s = m.s
            ev(kind='vrun', key=nm('vrun%d' % k, a.seed, n), exc=exc, b=st0, z=s['zb'], zs=s['zs'], hmax=m.p['hveg_max'], zmin=m.p['veg_min_elevation'], none=m.p['germinate'] == 0. and m.p['lateral'] == 0., **state(s))
            if exc:
                break
done(a)
