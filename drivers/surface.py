"""Drives the surface processes of AeoLiS: the non-erodible layer, mixing by
waves, the reset of wet beds, the average bed level change and dune erosion."""
from dlib import *
import aeolis.bed as bed
import aeolis.erosion as erosion

a = args()
rng, nr = a.rng, a.np
only = a.rest


def want(k):
    return not only or k in only


def wind(u, d=0.):
    return np.array([[0., u, d], [1e9, u, d]])


# ------------------------------------------------ non-erodible layer: whole time steps
if want('ne'):
    for n in range(60 if a.thorough else 20):
        ny, nx = rng.choice([(1, 8), (1, 8), (3, 6), (4, 5)])
        nf = rng.choice([1, 1, 3])
        g = grid(nx, ny, 2., 2.)
        shp = g['bed_file'].shape
        zb = .15 * nr.uniform(size=shp).cumsum(axis=-1) * rng.choice([0., 1., 3.])
        cover = nr.choice([0., .004, .009, .0101, .012, .03, .5], size=shp)
        if rng.random() < .25:
            cover[...] = rng.choice([0., .009, .5])
        ne = zb - cover
        lt = rng.choice([.01, .005, .002])
        m = model(base(**dict(g, bed_file=zb), ne_file=ne, nlayers=3, layer_thickness=lt, wind_file=wind(rng.choice([8., 12., 18.]), rng.choice([0., 0., 30., 180.])),
                       scheme=rng.choice(['euler_backward', 'euler_backward', 'crank_nicolson', 'euler_forward']), dt=rng.choice([60., 600., 20.]),
                       solver=rng.choice(['trunk', 'pieter', 'steadystate']),
                       grain_size=[.000225] if nf == 1 else [.0002, .0003, .0005], grain_dist=[1.] if nf == 1 else [.4, .3, .3],
                       method_transport=rng.choice(['bagnold', 'kawamura', 'lettau', 'vanrijn_strypsteen', 'sauermann', 'dk', 'bagnold_gs']),
                       th_nelayer=True, process_bedupdate=True, process_avalanche=rng.random() < .4, max_iter_ava=100,
                       process_mixtoplayer=False, bi=rng.choice([1., .05, .5]), boundary_offshore='flux', boundary_onshore='flux', offshore_flux=rng.choice([0., 1.]),
                       process_moist=False, process_tide=False, process_wave=False, process_runup=False, CFL=1.))
        for k in range(rng.choice([2, 4])):
            z0 = m.s['zb'].copy()
            _, exc = call(m.update, seconds=60)
            s = m.s
            ev(kind='ne', key=nm('ne%d' % k, a.seed, n), exc=exc, z0=z0, z=s['zb'], ne=ne.reshape(z0.shape), Cu=s['Cu'], Cuf=s['Cuf'], pickup=s['pickup'],
               ava=bool(m.p['process_avalanche']), maxu=float(s['uw'].max()))
            if exc:
                break

# ------------------------------------------------------------- mixing by waves
if want('mix'):
    m = model(base(**grid(5, 3), grain_size=[.0002, .0003, .0005], grain_dist=[.3, .3, .4], nlayers=4, layer_thickness=.05, process_mixtoplayer=True))
    for n in range(40 if a.thorough else 15):
        s, p = m.s, m.p
        s['thlyr'] = np.full(s['thlyr'].shape, .05) if rng.random() < .5 else nr.choice([.02, .05, .1], size=s['thlyr'].shape)
        s['mass'] = nr.uniform(0., 60., s['mass'].shape) * (nr.uniform(size=s['mass'].shape) < .9)
        s['Hsmix'] = nr.choice([0., 0., .1, .4, .52, 1., 1.5, 2., 4., 10.], size=s['zb'].shape) * nr.uniform(.9, 1.1, s['zb'].shape)
        if rng.random() < .1:
            s['Hsmix'][:] = 0.
        p['facDOD'] = rng.choice([.1, .1, .3])
        p['process_mixtoplayer'] = on = rng.random() < .9
        m0, h = s['mass'].copy(), s['Hsmix'].copy()
        _, exc = call(bed.mixtoplayer, s, p)
        ev(kind='mix', key=nm('mix', a.seed, n), exc=exc, m0=m0.reshape((-1,) + m0.shape[2:]), m=s['mass'].reshape((-1,) + m0.shape[2:]),
           thl=s['thlyr'].reshape(-1, 4), H=h.ravel(), fac=p['facDOD'], on=on)

# ------------------------------------------------------- wet bed reset, average change
if want('wet'):
    m = model(base(**grid(6, 3), process_wet_bed_reset=True))
    for n in range(40 if a.thorough else 20):
        s, p = m.s, m.p
        z0 = nr.uniform(-1, 1, s['zb'].shape)
        z = z0 + nr.choice([0., .3, -.3, .004], size=z0.shape)
        zs = nr.choice([-2., 0., .5, 3.], size=z0.shape) + rng.choice([0., .2])
        zs = np.where(nr.uniform(size=z0.shape) < .2, z + nr.choice([.005, .015], size=z0.shape), zs)
        s['zb0'], s['zb'], s['zs'] = z0.copy(), z.copy(), zs.copy()
        p['dt_opt'], p['Tbedreset'] = rng.choice([60., 3600., 86400., 200000.]), rng.choice([86400., 3600., 1e6])
        p['process_wet_bed_reset'] = on = rng.random() < .9
        _, exc = call(bed.wet_bed_reset, s, p)
        ev(kind='wet', key=nm('wet', a.seed, n), exc=exc, z0=z0, zi=z, zs=zs, zs1=s['zs'], z=s['zb'], dt=p['dt_opt'], T=p['Tbedreset'], on=on)
        l = dict(zb=nr.uniform(-1, 1, z0.shape), dzbavg=nr.uniform(-1, 1, z0.shape))
        s['zb'] = l['zb'] + nr.choice([0., 1e-3, -1e-2], size=z0.shape)
        p['accfac'], p['avg_time'] = rng.choice([1., 1., 4.]), rng.choice([86400., 3600., 1e6])
        _, exc = call(bed.average_change, l, s, p)
        ev(kind='avg', key=nm('avg', a.seed, n), exc=exc, zl=l['zb'], al=l['dzbavg'], z=s['zb'], dz=s['dzb'], year=s['dzbyear'], avg=s['dzbavg'], veg=s['dzbveg'],
           dt=p['dt_opt'], acc=p['accfac'], period=p['avg_time'])

# --------------------------------------------------------------- dune erosion
if want('dune'):
    for n in range(60 if a.thorough else 24):
        ny, nx = rng.choice([(1, 25), (1, 40), (3, 30)])
        dx = rng.choice([1., 2., .5])
        x = np.arange(nx) * dx
        prof = np.interp(x / x[-1], [0, .4, .55, .7, 1.], [-1.5, 2., 3. + rng.random(), 7. * rng.random() + 2., 6.])
        zb = prof * np.ones((ny, 1)) + nr.uniform(-.1, .1, (ny, nx)) + nr.uniform(-.3, .3, (ny, 1))
        zb = zb.ravel() if ny == 1 else zb
        Hs = rng.choice([0., 2., 5.])
        # water level and wave period change during the event, the records are shorter than the run
        tt, tv = np.array([0., 700., 2000., 5000.]), nr.choice([0., 1., 2.5, 3., 3.5], 4)
        wt, wT = np.array([0., 1200., 3000.]), nr.choice([6., 8., 12.], 3)
        toe = rng.choice([1.5, 2.5, 3., 3.5])
        m = model(base(**dict(grid(nx, ny, dx, dx), bed_file=zb), wind_file=wind(0.), process_dune_erosion=True, dune_toe_elevation=toe,
                       beach_slope=rng.choice([.1, .05]), Cs=rng.choice([.002, .0002, .02]), tide_file=np.column_stack([tt, tv]), tstart=rng.choice([0., 900., 4000.]), tstop=1e6,
                       wave_file=np.column_stack([wt, np.full(3, Hs), wT]), process_tide=True, process_wave=True, process_runup=True,
                       process_avalanche=False, dt=rng.choice([60., 3600., 600.]), process_moist=False))
        for k in range(3):
            s, p = m.s, m.p
            z0 = s['zb'].copy()
            full = k == 0
            t = m.t if full else rng.choice([100., 1000., 2600., 4999., 7100.])
            if full:
                _, exc = call(m.update)
            else:
                for v, val in (('R', rng.choice([.5, 2., 3., 4.])), ('eta', rng.choice([.2, 1.])), ('sigma_s', rng.choice([.1, .5, 0.]))):
                    s[v] = np.full(s[v].shape, val) * nr.uniform(.7, 1.3, s[v].shape)
                p['dt_opt'] = rng.choice([600., 3600.])
                _, exc = call(erosion.run_ph12, s, p, t)
            s = m.s
            ev(kind='dune', key=nm('dune%d' % k, a.seed, n), exc=exc, z0=z0, z=s['zb'], x=s['x'], R=s['R'][:, 0], eta=s['eta'][:, 0], sigma=s['sigma_s'][:, 0],
               t=float(t), tt=tt, tv=tv, wt=wt, wT=wT, dt=p['dt_opt'], toe=toe, slope=p['beach_slope'], Cs=p['Cs'], full=full)
done(a)
