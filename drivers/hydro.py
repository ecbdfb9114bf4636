"""Drives the water of AeoLiS: water levels, waves and runup; groundwater;
moisture and salt at the surface."""
from dlib import *
import aeolis.hydro as hydro

a = args()
rng, nr = a.rng, a.np
only = a.rest


def want(k):
    return not only or k in only


def beach(nx, ny, dx):
    x = np.arange(nx) * dx
    z = np.interp(x / x[-1], [0, .3, .5, .7, 1.], [-1.5 - rng.random(), .1, .6 + rng.random(), rng.choice([-.2, 1.5, 2.5]), rng.choice([1., 3., 6.])])
    z = z * np.ones((ny, 1)) + nr.uniform(-.15, .15, (ny, nx)) + nr.uniform(-.4, .4, (ny, 1))
    return z.ravel() if ny == 1 else z


def shape(m):
    return m.s['zb'].shape


def pair(s, k, shp):
    v = np.broadcast_to(np.asarray(s[k], complex), shp)
    return [[[float(c.real), float(c.imag)] for c in r] for r in v]


def series(n, lo, hi, t0=0.):
    t = t0 + np.concatenate([[0.], np.cumsum(nr.choice([600., 1800., 3600., 1234.5], n - 1))])
    return t, nr.uniform(lo, hi, n)


def config(**kw):
    ny = rng.choice([1, 1, 2, 3])
    nx = rng.choice([8, 14, 22])
    dx = rng.choice([1., 2., 5.])
    g = grid(nx, ny, dx, dx)
    zb = beach(nx, ny, dx)
    shp = np.asarray(zb).shape
    tt, tv = series(rng.choice([1, 2, 5]), -1., 2.)
    wt, wH = series(rng.choice([1, 2, 4]), 0., 4.)
    if rng.random() < .15:
        wH[:] = 0.
    wT = nr.uniform(3., 14., len(wt))
    c = dict(g, bed_file=zb, process_tide=rng.random() < .8, process_wave=rng.random() < .8, process_runup=rng.random() < .75,
             gamma=rng.choice([.5, .5, .3, .8]), beach_slope=rng.choice([.1, .05, .02, .01, .3]), process_moist=False)
    if rng.random() < .9:
        c['tide_file'] = np.column_stack([tt, tv])
    if rng.random() < .9:
        c['wave_file'] = np.column_stack([wt, wH, wT])
    for k in ('tide_mask', 'wave_mask', 'runup_mask', 'gw_mask'):
        if rng.random() < .3:
            c[k] = nr.choice([1., 1., .5, 0.], size=shp) + 1j * nr.choice([0., 0., .2], size=shp)
    c.update(kw)
    # keep the explicit scheme for the groundwater stable
    dtg = max(c.get('dt', 60.), 600. if c['process_moist'] else 0.) / max(1, int(c.get('tfac_gw', 10)))
    c['K_gw'] = min(c.get('K_gw', .00078), .35 * dx ** 2 * .3 / (20. * dtg))
    if len(tt) == 1 and 'tide_file' in c:
        c['tide_file'] = np.array([[0., tv[0]], [1e6, tv[0]]])
    if len(wt) == 1 and 'wave_file' in c:
        c['wave_file'] = np.array([[0., wH[0], wT[0]], [1e6, wH[0], wT[0]]])
    return c


def spec_c(m):
    p = m.p
    f = p['tide_file'] if p['tide_file'] is not None else np.zeros((0, 2))
    w = p['wave_file'] if p['wave_file'] is not None else np.zeros((0, 3))
    return dict(tide=bool(p['process_tide']), wave=bool(p['process_wave']), runup=bool(p['process_runup']), tt=f[:, 0], tv=f[:, 1], wt=w[:, 0], wH=w[:, 1], wT=w[:, 2],
                gamma=p['gamma'], slope=p['beach_slope'])


def masks(m):
    shp = shape(m)
    return dict(mt=pair(m.s, 'tide_mask', shp), mw=pair(m.s, 'wave_mask', shp), mr=pair(m.s, 'runup_mask', shp), mg=pair(m.s, 'gw_mask', shp))


def masked(m):
    return any(np.any(np.asarray(m.s[k]) != 1.) for k in ('tide_mask', 'wave_mask', 'runup_mask'))


LEV = dict(SWL='SWL', Hs='Hs', Tp='Tp', R='R', eta='eta', sigma='sigma_s', TWL='TWL', DSWL='DSWL', Hsmix='Hsmix', zs='zs')


def levels(m, key, t, z, exc=''):
    s = m.s
    ev(kind='lev', key=key, exc=exc, c=spec_c(m), t=float(t), z=z, z1=s['zb'], masked=masked(m), **masks(m), **{k: s[v] for k, v in LEV.items()})


# ------------------------------------------------------------------ water levels
if want('lev'):
    for n in range(60 if a.thorough else 22):
        m = model(base(**config(wind_file=np.array([[0., 0., 0.], [1e9, 0., 0.]]), dt=rng.choice([60., 600., 777.]))))
        for k in range(6):
            if k < 4:           # any time, in any order, over any bed
                t = rng.choice([0., rng.uniform(0., 2e4), rng.uniform(0., 2e5), 3600. * rng.randrange(20)])
                if rng.random() < .5:
                    m.s['zb'] += nr.uniform(-.2, .2, shape(m))
                z = m.s['zb'].copy()
                _, exc = call(hydro.interpolate, m.s, m.p, t)
                levels(m, nm('lev%d' % k, a.seed, n), t, z, exc)
            else:               # a time step of the model
                z, t = m.s['zb'].copy(), m.t
                _, exc = call(m.update, seconds=60)
                levels(m, nm('step%d' % k, a.seed, n), t, z, exc)
            if exc:
                break

# ---------------------------------------------------------- external water levels
if want('ext'):
    for n in range(24 if a.thorough else 10):
        lv = rng.random() < .6
        wv = not lv or rng.random() < .5
        m = model(base(**config(process_tide=True, process_runup=True, process_wave=True, external_vars=(['zs'] if lv else []) + (['Hs', 'Tp'] if wv else []) + ['moist'])))
        s, p = m.s, m.p
        for k in range(3):
            z = s['zb'].copy()
            zs0 = np.maximum(z, rng.choice([0., .5, 1.2]) + nr.uniform(-.05, .05, z.shape))
            zs0[0, 0] = z[0, 0] + 3.
            if lv:
                s['tide_mask'] = np.where(nr.uniform(size=z.shape) < .9, 1., 1. + .1j)
                s['zs'] = zs0.copy()
            H0, T0 = nr.choice([0., .5, 2.], size=z.shape), nr.choice([0., 5., 12.], size=z.shape)
            if wv:
                s['Hs'], s['Tp'] = H0.copy(), T0.copy()
            _, exc = call(hydro.interpolate, s, p, rng.uniform(0., 1e5))
            mk = masks(m)
            ev(kind='ext', key=nm('ext%d' % k, a.seed, n), exc=exc, levels=lv, waves=wv, z=z, zs0=zs0, Hs0=H0, Tp0=T0, slope=p['beach_slope'], eps=p['eps'], **mk,
               **{k2: s[v] for k2, v in LEV.items()})
            if exc:
                break

# -------------------------------------------------------------------- groundwater
GW = dict(K='K_gw', ne='ne_gw', D='D_gw', stat='GW_stat', Cl='Cl_gw', start='in_gw')


def bools(v):
    return np.asarray(v).astype(bool).tolist()


if want('gw'):
    for n in range(60 if a.thorough else 20):
        tide = rng.choice([None, None, 0., -4., 9.])
        kw = dict(process_groundwater=True, process_seepage_face=rng.random() < .5, boundary_gw=rng.choice(['no_flow', 'static', 'No_Flow']), GW_stat=rng.choice([1., 0., -.5]),
                  in_gw=rng.choice([0., .3, -1.]), tfac_gw=rng.choice([10, 10, 1, 3, 2.5]), dt=rng.choice([60., 100., 5., 37.]), Cl_gw=rng.choice([.7, .1, 0.]),
                  K_gw=rng.choice([.00078, .0002]), tstart=rng.choice([0., 0., 1000.]), wind_file=np.array([[0., 0., 0.], [1e9, 0., 0.]]))
        if tide is not None:
            kw['tide_file'] = np.array([[0., tide], [1e6, tide]])
        c = config(**kw)
        if rng.random() < .5:
            # a flat beach with wide runup
            c.update(bed_file=np.asarray(c['bed_file']) * rng.choice([.25, .4]) + .2, process_tide=True, process_wave=True, process_runup=True, beach_slope=rng.choice([.1, .05, .2]),
                     Cl_gw=rng.choice([.01, .02, .1]), in_gw=rng.choice([-1., -.3]), wave_file=np.array([[0., rng.uniform(.5, 2.), 8.], [1e6, 1., 8.]]), tide_file=np.array([[0., rng.uniform(-.2, .4)], [3000., rng.uniform(-.2, .4)], [1e6, .1]]))
        m = model(base(**c))
        s, p = m.s, m.p
        for k in range(4):
            start = k == 0
            if k == 2:
                s['gw'] += nr.uniform(-.1, .1, s['gw'].shape)
                s['gw_prev'] += nr.uniform(-.1, .1, s['gw'].shape)
            z, g0, gp0, t = s['zb'].copy(), s['gw'].copy(), s['gw_prev'].copy(), m.t
            _, exc = call(m.update, seconds=60)
            s = m.s
            ev(kind='gw', key=nm('gw%d' % k, a.seed, n), exc=exc, c=spec_c(m), t=float(t), dt=float(m.dt), tfac=float(p['tfac_gw']), start=start, z=z, z1=s['zb'], x=s['x'], ds=s['ds'],
               g0=g0, gp0=gp0, g=s['gw'], gp=s['gw_prev'], wet=bools(s['wetting']), gmasked=bool(np.any(np.asarray(s['gw_mask']) != 1.)), **masks(m),
               q=dict({q: float(p[v] or 0.) for q, v in GW.items()}, static=p['boundary_gw'].lower() == 'static', seepage=bool(p['process_seepage_face'])))
            if exc:
                break
    m = model(base(**config(process_groundwater=True, boundary_gw='open')))
    _, exc = call(m.update)
    ev(kind='bnd', key=nm('bnd', a.seed, 0), refused=exc.startswith('ValueError'))

# -------------------------------------------------------------- moisture and salt
if want('inf'):
    for n in range(30 if a.thorough else 12):
        met = rng.random() < .5
        m = model(base(**config(process_moist=True, process_salt=True, method_moist_process=rng.choice(['infiltration', 'INFILTRATION']), Tdry=rng.choice([5400., 600., 60.]),
                                Tsalt=rng.choice([2592000., 1000.]), porosity=rng.choice([.4, .3]), nlayers=3)))
        s, p = m.s, m.p
        for k in range(4):
            hydro.interpolate(s, p, rng.uniform(0., 1e5))
            if k % 2:
                s['TWL'] = s['zb'] + nr.choice([-.5, -.0005, .0005, .0015, .5], size=s['zb'].shape)
            rain = 0.
            if met and k > 1:
                rain = rng.choice([0., 2., 30.])
                s['meteo'] = dict(T=10., Q=5., RH=rain, P=100., U=80.)
            if k == 2:
                s['salt'] = nr.uniform(0., 1., s['salt'].shape)
            m0, s0, z, dt = s['moist'].copy(), s['salt'].copy(), s['zb'].copy(), rng.choice([60., 600., 3600., 1e5])
            _, exc = call(hydro.update, s, p, dt, rng.uniform(0., 1e5))
            ev(kind='inf', key=nm('inf%d' % k, a.seed, n), exc=exc, m0=m0, m=s['moist'], z=z, TWL=s['TWL'], eps=p['eps'], dt=dt, T=p['Tdry'], porosity=p['porosity'])
            ev(kind='salt', key=nm('salt%d' % k, a.seed, n), exc=exc, s0=s0[:, :, 0], s=s['salt'][:, :, 0], deep0=s0[:, :, 1:], deep=s['salt'][:, :, 1:], z=z, TWL=s['TWL'], eps=p['eps'],
               dt=dt, T=p['Tsalt'], thick=p['layer_thickness'], rain=rain / 3600. / 1000.)
            if exc:
                break

FIELDS = dict(sw='scan_w', sd='scan_d', hd='h_delta', swm='scan_w_moist', sdm='scan_d_moist', wh='w_h', dh='d_h', m='moist', swr='moist_swr', wetting='wetting')


def fields(s):
    return {k: (bools(s[v]) if k in ('sw', 'sd', 'wetting') else s[v].copy()) for k, v in FIELDS.items()}


if want('surf'):
    for n in range(50 if a.thorough else 14):
        mt = np.column_stack([[0., 3600., 20000.], nr.uniform(-5., 30., 3), nr.uniform(0., 25., 3), nr.choice([0., 0., 3., 20.], 3), nr.uniform(98., 103., 3), nr.uniform(30., 100., 3)])
        gwp = rng.random() < .3
        m = model(base(**config(process_moist=True, method_moist_process='surf_moisture', meteo_file=mt, process_scanning=rng.random() < .8, process_groundwater=gwp,
                                Tdry=rng.choice([5400., 60.]), thick_moist=rng.choice([.002, .02]), fc=rng.choice([.11, .3]), tstart=rng.choice([0., 0., 500.]), dt=60.,
                                tide_file=np.array([[0., -1.], [1e6, -1.]]) if rng.random() < .6 else np.array([[0., -.5], [1800., 1.], [1e6, -1.]]),
                                alfaw_moist=rng.choice([-.07, .07]), alfad_moist=rng.choice([-.035, .035]), gw_mask=None, tide_mask=None)))
        s, p = m.s, m.p
        s['uw'][:] = rng.choice([0., 8.])
        t, up, start = float(p['tstart']), True, True
        s['moist'] = nr.uniform(.01, .4, s['moist'].shape)
        if not gwp:
            s['gw'] = s['zb'] - nr.choice([.05, .2, .5, 1.5], size=s['zb'].shape) * nr.uniform(.5, 1.5, s['zb'].shape)
            s['gw_prev'] = s['gw'].copy()
        for k in range(10):
            dt = rng.choice([60., 600.])
            if not gwp:
                # the table goes up and down, for shorter or longer
                step = nr.uniform(.0, .15, s['gw'].shape) * nr.choice([1., 1., 1., -1.], size=s['gw'].shape) * (1 if up else -1)
                if rng.random() < .5:
                    up = not up
                s['wetting'] = s['gw'] > s['gw_prev']
                s['gw_prev'] = s['gw'].copy()
                s['gw'] = np.minimum(s['gw'] + step, s['zb'])
            hydro.interpolate(s, p, t)
            fa = fields(s)
            _, exc = call(hydro.update, s, p, dt, t, seconds=60)
            ev(kind='surf', key=nm('surf%d' % k, a.seed, n), exc=exc, a=fa, b=fields(s), z=s['zb'], gw=s['gw'], gp=s['gw_prev'], TWL=s['TWL'], uw=s['uw'], met=s.get('meteo', dict(T=-99., Q=-99., RH=-99., P=-99., U=-99.)),
               scanning=bool(p['process_scanning']), start=start, zw=p['z'], cpair=p['cpair'], dt=dt,
               w=[p['resw_moist'], p['satw_moist'], p['alfaw_moist'], p['nw_moist'], p['mw_moist']], d=[p['resd_moist'], p['satd_moist'], p['alfad_moist'], p['nd_moist'], p['md_moist']],
               e=dict(T=p['Tdry'], fc=p['fc'], res=p['resw_moist'], sat=p['satd_moist'], thick=p['thick_moist']))
            t, start = t + dt, False
            if exc:
                break
done(a)
