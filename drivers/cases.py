"""Model configurations that exercise all processes with a memory, and fingerprints of model states."""
from dlib import *


def fp(d):
    """weighted sums of every array and scalar, with their scale"""
    num, txt = {}, {}
    for k, v in d.items():
        try:
            x = np.asarray(v)
        except Exception:
            continue
        if x.dtype.kind == 'c':
            x = np.concatenate([x.real.ravel(), x.imag.ravel()])
        if x.dtype.kind in 'fiub':
            x = x.astype(float).ravel()
            bad = ~np.isfinite(x)
            w = np.cos(1. + np.arange(x.size))
            x = np.where(bad, 0., x)
            num[k] = [float(np.sum(w * x)), float(np.sum(np.abs(w * x))), float(np.sum(w * bad)), float(x.size)]
        elif isinstance(v, str) or v is None:
            txt[k] = str(v)
    return dict(num=num, txt=txt)


def image(o):
    g = o if isinstance(o, dict) else dict(t=o.t, dt=o.dt, s=o.s, l=o.l, p=o.p, c=o.c)
    return dict(t=float(g['t']), dt=float(g['dt']), s=fp(g['s']), l=fp(g['l']), p=fp(g['p']), c=fp(g['c']))


T = 1e5


def tide():
    return np.array([[k * 300., .6 * np.sin(k * .9)] for k in range(60)] + [[T, 0.]])


def waves():
    return np.array([[k * 400., .5 + .4 * np.sin(k), 6.] for k in range(40)] + [[T, .5, 6.]])


def meteo():
    return np.array([[0., 20., 5., .3, 70., 100.], [T, 25., 0., .5, 60., 100.]])


def case(kind, rng, nr):
    nx, ny = (14, 1)
    if kind in ('2d', 'shear'):
        nx, ny = 8, 5
    x = np.linspace(-.8, 1.5, nx)
    zb = x if ny == 1 else x * np.ones((ny, 1)) + nr.uniform(-.2, .2, (ny, nx))
    w = np.array([[k * 240., rng.uniform(6, 14), rng.choice([0., 20., 350., 180.])] for k in range(60)] + [[T, 9., 0.]])
    dx = 1000. if kind == 'plain' else 1.
    g = grid(nx, ny, dx, dx, zb)
    c = dict(g, nlayers=3, layer_thickness=.005, wind_file=w, tide_file=tide(), wave_file=waves(), process_tide=True, process_wave=True, process_runup=True,
             dt=120., output_file='aeolis.nc', scheme='euler_backward', grain_size=[2e-4, 4e-4], grain_dist=[.6, .4], output_times=240.)
    if kind == 'plain':
        c.update(process_tide=False, process_wave=False, process_runup=False, scheme='euler_forward', CFL=.8, tide_file=None, wave_file=None)
    elif kind == 'limit':
        c.update(max_bedlevel_change=2e-5, accfac=3.)
    elif kind == 'moist':
        c.update(process_moist=True, process_groundwater=True, method_moist_process='surf_moisture', th_moisture=True, process_scanning=True, meteo_file=meteo(), process_meteo=True, in_gw=0., K_gw=.01)
    elif kind == 'infil':
        c.update(process_moist=True, th_moisture=True, th_salt=True, process_salt=True)
    elif kind == 'veg':
        c.update(process_vegetation=True, veg_file=nr.choice([0., .5, .9], size=nx), V_ver=500., germinate=1. - 1e-9, lateral=.9, hveg_max=1., veg_min_elevation=-.2, avg_time=1800., accfac=20.)
    elif kind == 'fence':
        c.update(process_fences=True, fence_file=np.where(np.arange(nx) == 6, .8, 0.))
    elif kind == 'avalanche':
        c.update(process_avalanche=True, bed_file=zb + np.where(np.arange(nx) == 8, 3., 0.), max_iter_ava=3)
    elif kind == 'shear':
        c.update(process_shear=True, alfa=20., dx=rng.choice([1., .5, 2.]), dy=rng.choice([1., .5]))
    elif kind == '2d':
        c.update(process_shear=False, alfa=0., process_bedinteraction=True, scheme='crank_nicolson')
    elif kind == 'ne':
        c.update(ne_file=zb - .01, th_nelayer=True, process_mixtoplayer=True)
    return {k: v for k, v in c.items() if v is not None}


KINDS = ['plain', 'limit', 'moist', 'veg', 'infil', 'fence', 'avalanche', 'shear', '2d', 'ne']


def text(d):
    return dict(num=d['num'], txt={k: v for k, v in d['txt'].items() if '/' not in v and k not in ('refdate', 'output_file')})


def finger(m):
    g = image(m)
    o = {'%s_%s' % (k, e): v for k, x in m.o.items() for e, v in x.items()}
    q = dict(t=g['t'], s=text(g['s']), p=text(g['p']), c=text(g['c']), o=text(fp(o)))
    for k in ('_time',):
        q['p']['num'].pop(k, None)
    return q


def written(d, f='aeolis.nc'):
    import netCDF4
    f = os.path.join(d, f)
    if not os.path.exists(f):
        return dict(num={}, txt={})
    with netCDF4.Dataset(f) as nc:
        return fp({k: np.ma.filled(v[...].astype(float), np.nan) for k, v in nc.variables.items() if v.dtype.kind in 'fi'})
