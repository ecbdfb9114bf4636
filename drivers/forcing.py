"""Wind fields, thresholds and saturation concentrations of the real code."""
from dlib import *
import aeolis.wind as wind
import aeolis.threshold as threshold
import aeolis.transport as transport

a = args()
rng, nr = a.rng, a.np
only = a.rest
MOIST = ['belly_johnson', 'hotta', 'chepil', 'saleh_fryear', 'saleh_fryear_mod', 'shao', 'dong_2002', 'gregory_darwish', 'cornelis', 'dong_2007']
ROUGH = ['constant', 'constant', 'constant_nikuradse', 'mean_grainsize_initial', 'mean_grainsize_adaptive', 'median_grainsize_adaptive', 'vanrijn_strypsteen']
TRANS = ['bagnold', 'bagnold_gs', 'kawamura', 'lettau', 'dk', 'sauermann', 'vanrijn_strypsteen']


def want(k):
    return not only or k in only


def exname(e):
    return e.split(':')[0]


def flat(x):
    return np.asarray(x).reshape(-1)


def cells(x):
    x = np.asarray(x)
    return x.reshape((-1,) + x.shape[2:])


def grains():
    nf = rng.choice([1, 1, 2, 3])
    gs = sorted(rng.sample([.0001, .00014, .00018, .0002, .00022, .0003, .00045, .0006], nf))
    gd = [rng.randint(1, 9) for _ in gs]
    tot = float(sum(gd))
    return gs, [x / tot for x in gd]


def setq(m):
    p = m.p
    return dict(kb=p['k'], z=p['z'], kappa=p['kappa'], rhoa=p['rhoa'], sizes=[float(x) for x in p['grain_size']], dist=[float(x) for x in np.atleast_1d(p['grain_dist'])],
                Ugr=float(np.sqrt((p['rhog'] - p['rhoa']) / p['rhoa'] * p['g'])))


# ------------------------------------------------------------------------ wind
if want('wind'):
    for n in range(90 if a.thorough else 36):
        nx, ny = rng.choice([(3, 1), (4, 1), (3, 3), (4, 3)])
        gs, gd = grains()
        nt = rng.choice([2, 3, 6])
        ts = np.cumsum([0.] + [rng.choice([1., 600., 3600., 7.5]) for _ in range(nt - 1)]) + rng.choice([0., 0., 100.])
        us = np.array([rng.choice([0., 3., 8.5, 14., 22.]) for _ in ts])
        ds = np.array([rng.choice([0., 10., 45., 90., 135., 179., 181., 225., 270., 300., 350., 359.9, -30., 400., rng.uniform(0, 360)]) for _ in ts])
        conv = rng.choice(['nautical', 'cartesian'])
        method = rng.choice(ROUGH)
        m, exc = call(model, base(**grid(nx, ny, 1., 1.), wind_file=np.column_stack([ts, us, ds]), wind_convention=conv, grain_size=gs, grain_dist=gd, nlayers=2,
                             method_roughness=method, alfa=rng.choice([0, 0, 30, -75, 120.5]), k=rng.choice([.001, .0001]), z=rng.choice([10., 2.])))
        if exc:
            ev(kind='wind', key=nm('wind', a.seed, n), exc=exc)
            continue
        s, p = m.s, m.p
        s['mass'] = s['mass'] * nr.uniform(.2, 1., s['mass'].shape)
        for k in range(3):
            t = rng.choice([float(rng.choice(list(ts))), rng.uniform(ts[0], ts[-1]), rng.uniform(ts[0], ts[-1]), ts[-1] + rng.uniform(0., 1.), ts[-1] + 1.,
                            rng.uniform(ts[-1], ts[-1] + 3 * (ts[-1] - ts[0])), max(0., ts[0] - rng.uniform(0, 50.))])
            if k == 2 and np.any(us == 0.):        # a calm after wind
                t = float(rng.choice(list(ts[us == 0.])))
            w = cells(s['mass'][:, :, 0, :]).copy()
            _, exc = call(wind.interpolate, s, p, t)
            if exc:
                ev(kind='wind', key=nm('wind%d' % k, a.seed, n), exc=exc)
                break
            ev(kind='wind', key=nm('wind%d' % k, a.seed, n), exc=exc, t=t, ts=ts, us=us, ds=ds, convention=conv, method=method, alfa=float(p['alfa']), q=setq(m), w=w,
               uw=flat(s['uw']), udir=flat(s['udir']), uws=flat(s['uws']), uwn=flat(s['uwn']), ustar=flat(s['ustar']), ustars=flat(s['ustars']), ustarn=flat(s['ustarn']),
               tau=flat(s['tau']), taus=flat(s['taus']), taun=flat(s['taun']),
               flat=[flat(s[v]) for v in ('ustar0', 'ustars0', 'ustarn0', 'tau0', 'taus0', 'taun0')], cur=[flat(s[v]) for v in ('ustar', 'ustars', 'ustarn', 'tau', 'taus', 'taun')])

# ------------------------------------------------------------------- thresholds
if want('thr'):
    for n in range(120 if a.thorough else 50):
        nx, ny = rng.choice([(5, 1), (4, 3)])
        gs, gd = grains()
        file = rng.random() < .15
        sw = dict(th_moisture=rng.random() < .6, th_salt=rng.random() < .3, th_sheltering=rng.random() < .4, th_nelayer=rng.random() < .4, process_tide=rng.random() < .6)
        g = grid(nx, ny, 1., 1.)
        shp = g['bed_file'].shape
        ne = nr.choice([-1., -.5, -.005, -.011], size=shp)
        cfg = base(**g, grain_size=gs, grain_dist=gd, method_moist_threshold=MOIST[n % len(MOIST)] if sw['th_moisture'] else 'belly_johnson', m=rng.choice([.5, 1., .2]), nlayers=2,
                   ne_file=ne, beta=rng.choice([130., 20.]), sigma=rng.choice([4.2, 1.]), porosity=rng.choice([.4, .3]), Aa=rng.choice([.085, .1]), **sw)
        pres = nr.uniform(.1, .5, shp)
        if file:
            cfg['threshold_file'] = pres
        mask = None
        if rng.random() < .3:
            mask = nr.uniform(.5, 1.5, shp) + 1j * nr.choice([0., .1], size=shp)
        m = model(cfg)
        s, p = m.s, m.p
        if mask is not None:
            s['threshold_mask'] = mask.reshape(s['zb'].shape)
        mk = np.broadcast_to(np.asarray(s['threshold_mask'], dtype=complex), s['zb'].shape)
        for k in range(3):           # histories: the state of one step must not leak into the next
            sh = s['zb'].shape
            s['moist'] = nr.choice([0., .004, .012, .02, .03, .05, .08, .0999, .2], size=sh) * nr.uniform(.95, 1.05, sh)
            s['salt'] = nr.uniform(0., 1., s['salt'].shape)
            s['zb'] = nr.choice([0., .01, -.3, .4], size=sh)
            s['zs'] = np.maximum(s['zb'], nr.choice([-1., .2], size=sh))
            s['ustar'] = nr.choice([0., .1, .2, .25, .3, .5], size=sh)
            s['mass'] = nr.uniform(1., 10., s['mass'].shape)
            _, exc = call(threshold.compute, s, p)
            pp = dict(Aa=p['Aa'], rhog=p['rhog'], rhoa=p['rhoa'], rhow=p['rhow'], g=p['g'], porosity=p['porosity'], w15=p['w1_5'], resw=p['resw_moist'], csalt=p['csalt'],
                      m=p['m'], beta=p['beta'], sigma=p['sigma'], sizes=gs, dist=gd, eps=p['eps'], th_moisture=sw['th_moisture'], th_salt=sw['th_salt'],
                      th_sheltering=sw['th_sheltering'], th_nelayer=sw['th_nelayer'], tide=sw['process_tide'], method=p['method_moist_threshold'], file=file)
            cs = [dict(moist=s['moist'][ix], salt=s['salt'][ix][0], zb=s['zb'][ix], zs=s['zs'][ix], ne=ne.reshape(sh)[ix], w=s['mass'][ix][0], ustar=s['ustar'][ix],
                       mre=mk[ix].real, mim=mk[ix].imag, prescribed=pres.reshape(sh)[ix]) for ix in np.ndindex(*sh)]
            ev(kind='thr', key=nm('thr%d' % k, a.seed, n), exc=exc, p=pp, c=cs, uth=cells(s['uth']), uthf=cells(s['uthf']), uth0=cells(s['uth0']))
            if exc:
                break

# ---------------------------------------------------- saturation concentrations
if want('equ'):
    for n in range(120 if a.thorough else 56):
        nx, ny = rng.choice([(5, 1), (4, 3)])
        gs, gd = grains()
        speed = rng.choice(['windspeed', 'windspeed', 'constant', 'duran'])
        m = model(base(**grid(nx, ny, rng.choice([1., 2.]), rng.choice([1., 3.])), grain_size=gs, grain_dist=gd, nlayers=2, method_transport=TRANS[n % len(TRANS)], method_grainspeed=speed,
                       accfac=rng.choice([1., 1., 5.]), Cb=rng.choice([1.5, 1.8])))
        s, p = m.s, m.p
        sh = s['zb'].shape
        for k in range(2):
            ang, fast = nr.uniform(0, 6.3, sh), nr.choice([0., .04, .06, .1, .2, .24, .3, .45, .8], size=sh)
            s['ustar'], s['ustars'], s['ustarn'] = fast, fast * np.cos(ang), fast * np.sin(ang)
            s['ustar0'] = nr.choice([0., .2, .3, .5], size=sh)
            uw = nr.choice([0., 4., 9., 15.], size=sh) if speed != 'duran' else nr.choice([4., 9., 15.], size=sh)
            s['uw'], s['uws'], s['uwn'] = uw, uw * np.cos(ang), uw * np.sin(ang)
            b = .085 * np.sqrt((p['rhog'] - p['rhoa']) / p['rhoa'] * p['g'] * np.asarray(gs))
            s['uth0'] = np.ones(sh + (1,)) * b
            s['uth'] = s['uth0'] * nr.choice([1., 1.2, 2., np.inf], size=sh + (1,))
            s['uthf'] = s['uth'] * nr.choice([1., .9], size=sh + (1,))
            hs, hn, sep = np.zeros(sh), np.zeros(sh), np.zeros(sh, bool)
            if speed == 'duran':
                s['zb'] = nr.uniform(0, .5, sh) * rng.choice([0., 1., 1.])
                s['zsep'] = s['zb'] + nr.choice([-.5, 0., .3], size=sh, p=[.4, .4, .2])
                sep = s['zsep'] > s['zb'] + .01
                z, x, y = s['zb'], s['x'], s['y']
                hs[:, 1:-1] = (z[:, 2:] - z[:, :-2]) / (x[:, 2:] - x[:, :-2])
                if ny > 1:
                    hn[1:-1] = (z[2:] - z[:-2]) / (y[2:] - y[:-2])
                    hs[:, 0], hs[:, -1], hn[0], hn[-1] = hs[:, 1], hs[:, -2], hn[1], hn[-2]
            _, exc = call(transport.equilibrium, s, p)
            cs = [dict(ustar=s['ustar'][ix], ustar0=s['ustar0'][ix], ustars=s['ustars'][ix], ustarn=s['ustarn'][ix], uw=s['uw'][ix], uws=s['uws'][ix], uwn=s['uwn'][ix],
                       hs=hs[ix], hn=hn[ix], sep=bool(sep[ix])) for ix in np.ndindex(*sh)]
            ev(kind='equ', key=nm('equ%d' % k, a.seed, n), exc=exc, method=p['method_transport'], speed=speed, c=cs, u=cells(s['u']), ugs=cells(s['us']), ugn=cells(s['un']), u0=cells(s['u0']),
               uth=cells(s['uth']), uthf=cells(s['uthf']), uth0=cells(s['uth0']), Cu=cells(s['Cu']), Cuf=cells(s['Cuf']), Cu0=cells(s['Cu0']),
               t=dict(rhoa=p['rhoa'], g=p['g'], rhog=p['rhog'], v=p['v'], Aa=p['Aa'], kappa=p['kappa'], Cb=p['Cb'], Ck=p['Ck'], Cl=p['Cl'], Cdk=p['Cdk'], acc=p['accfac'], sizes=gs))
    # unknown formulations are rejected
    for what in ('method_transport', 'method_moist_threshold'):
        m = model(base(**grid(4, 1), th_moisture=True, **{what: 'nosuchmethod'}))
        m.s['ustar'][:] = .4
        m.s['uw'][:] = 8.
        m.s['uws'][:] = 8.
        _, exc = call(lambda: (threshold.compute(m.s, m.p), transport.equilibrium(m.s, m.p)))
        ev(kind='err', key=what, exc=exname(exc))
done(a)
