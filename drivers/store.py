"""Drives the model state and the Basic Model Interface of real models."""
from dlib import *
import aeolis.model as am

a = args()
rng, nr = a.rng, a.np
only = a.rest


def want(k):
    return not only or k in only


def val(x):
    """a uniform array as a number"""
    if x is None:
        return 'none'
    if isinstance(x, str):
        return x
    y = np.asarray(x)
    if y.dtype.kind not in 'fiub' or y.size == 0:
        return 'other'
    y = y.astype(float).ravel()
    return float(y[0]) if np.all(y == y[0]) else 'mixed'


NAMES = ['Ct', 'mass', 'ustar', 'zb']
EXTRA = ['xnew', 'tstop', 'zb_par', 'nothing']


def mk(ny=1, **kw):
    nx = rng.choice([4, 6])
    c = dict(grid(nx, ny), nlayers=2, grain_size=[2e-4, 4e-4], grain_dist=[.5, .5], accfac=rng.choice([1., 2., 4.]), tstop=rng.choice([1000., 50.]), tstart=rng.choice([0., 20.]), dt=rng.choice([10., 7.5]))
    c.update(kw)
    return model(base(**c), am.AeoLiSRunner if rng.random() < .3 else None)


REAL = {}


def N(k):
    """the real variable that plays the role of a name of the specification"""
    return REAL.get(k, k)


def post(m):
    return dict(raw={k: val(m.s[N(k)]) if N(k) in m.s else 'none' for k in NAMES + ['xnew']}, got={k: val(m.get_var(N(k))) for k in NAMES + EXTRA},
                mut=[k for k in NAMES + ['xnew'] if N(k) in m.s.ismutable], count=m.get_var_count(), par={k: val(m.p.get(k)) for k in ('tstop', 'zb_par')},
                twin=val(m.p.get('theta_dyn')))


if want('store'):
    for n, sc in enumerate(a.scenarios):
        m = mk()
        # some variables share their name with a parameter
        REAL.clear()
        if rng.random() < .5:
            REAL['mass'] = 'theta_dyn'
        m.p['zb_par'] = 0
        m.p['tstop'] = 0
        twin = val(m.p.get('theta_dyn'))
        for k in NAMES:
            m.s[N(k)] = np.zeros(m.s[N(k)].shape)
        names = sorted(m.s.keys())
        shp = {k: m.s[N(k)].shape for k in NAMES}
        role = {v: k for k, v in REAL.items()}
        ops = []

        def arr(k, v):
            return np.full(shp[k], float(v)) if k in shp else float(v) if k in EXTRA[1:] else np.full((2, 2), float(v))
        for o in sc['ops']:
            o = dict(o, exc='')
            if o['op'] == 'set':
                _, o['exc'] = call(m.set_var, N(o['k']), arr(o['k'], o['v']))
            elif o['op'] == 'setindex':
                # the index counts in the real list of names
                i = o['i']
                now = sorted(m.s.keys())
                j = now.index(N(NAMES[i])) if i < 4 else len(now) + i
                nmx, exc = call(m.get_var_name, j)
                o['name'] = role.get(str(nmx), str(nmx))
                _, o['exc'] = call(m.set_var_index, j, arr(NAMES[i], o['v']) if i < 4 else 1.)
            elif o['op'] == 'item':
                def f():
                    m.s[N(o['k'])] = arr(o['k'], o['v'])
                _, o['exc'] = call(f)
            elif o['op'] == 'update':
                kv = {N(k): arr(k, v) for k, v in o['kv']}
                _, o['exc'] = call(lambda: m.s.update(**kv) if rng.random() < .5 else m.s.update(kv) if rng.random() < .5 else m.s.update(list(kv.items())))
            elif o['op'] == 'protect':
                _, o['exc'] = call(m.s.set_immutable, N(o['k']))
            elif o['op'] == 'release':
                _, o['exc'] = call(m.s.set_mutable, N(o['k']))
            o['post'] = post(m)
            ops.append(o)
            if o['exc']:
                break
        ev(kind='store', key=nm('store', a.seed, n), ops=ops, accfac=m.p['accfac'], count=len(names), twin=twin)

PROC = [dict(), dict(process_avalanche=True), dict(process_vegetation=True, veg_file='V', V_ver=3., veg_min_elevation=-9), dict(process_fences=True, fence_file='F'),
        dict(process_moist=True, th_moisture=True, process_tide=True, tide_file=np.array([[0., -.2], [40., .5], [1e6, .1]])), dict(scheme='euler_forward', CFL=.5),
        dict(process_salt=True, th_salt=True, process_moist=True), dict(scheme='crank_nicolson', process_bedinteraction=True),
        dict(process_moist=True, process_groundwater=True, method_moist_process='surf_moisture', process_scanning=True, process_tide=True, tide_file=np.array([[0., -.2], [40., .5], [1e6, .1]]), process_meteo=True,
             meteo_file=np.array([[0., 20., 5., .3, 70., 100.], [1e6, 25., 0., .5, 60., 100.]]))]
if want('shape'):
    for n in range(30 if a.thorough else 9):
        ny = rng.choice([1, 4])
        kw = dict(PROC[(n + a.k) % len(PROC)])
        nx = 6
        shp = (nx,) if ny == 1 else (ny, nx)
        for k, v in list(kw.items()):
            if isinstance(v, str) and v in 'VF':
                kw[k] = nr.choice([0., .4], size=shp)
        kw.update(nx=nx)
        m, exc = call(mk, ny, **{k: v for k, v in kw.items() if k != 'nx'}) if False else (None, '')
        g = grid(nx, ny, zb=nr.uniform(-.3, .5, shp))
        kw.pop('nx')
        nl, nf = rng.choice([1, 2, 3]), rng.choice([1, 2])
        c = dict(g, nlayers=nl, grain_size=[2e-4, 4e-4][:nf], grain_dist=[.5, .5][:nf] if nf > 1 else [1.], dt=rng.choice([10., 7.5]), tstart=rng.choice([0., 20.]), tstop=500., process_shear=False)
        c.update(kw)
        m, exc = call(model, base(**c), am.AeoLiSRunner if rng.random() < .5 else None)
        hist = []
        if not exc:
            for k in range(4):
                hist.append(dict(t=float(m.t), cur=float(m.get_current_time()), start=float(m.get_start_time()), end=float(m.get_end_time()), count=m.get_var_count(),
                                 keys=len(m.s), names=[str(m.get_var_name(i)) for i in range(len(m.s) + 2)], sorted=sorted(m.s.keys()),
                                 q=[dict(k=v, dims=list(d or []), shape=[int(x) for x in m.get_var_shape(v)], rank=m.get_var_rank(v), type=str(m.get_var_type(v)), size=list(np.shape(m.s[v])))
                                    for v, d in [(v, m.dimensions(v)) for v in sorted(m.s)]],
                                 none=[str(m.get_var('nothing')), str(m.get_var_rank('nothing')), str(m.get_var_shape('nothing')), str(m.get_var_type('nothing'))]))
                _, exc = call(m.update, rng.choice([-1, 5., -4., 30.]))
                if exc:
                    break
        ev(kind='shape', key=nm('shape', a.seed, n), exc=exc, hist=hist, dim=dict(ny=1 if ny == 1 else ny, nx=nx, nlayers=nl, nfractions=nf), tstart=c['tstart'], tstop=c['tstop'])

if want('err'):
    for n, f in enumerate(['inq_compound', 'inq_compound_field', 'set_var_slice']):
        m = mk()
        _, exc = call(getattr(m, f))
        ev(kind='err', key=nm('err', a.seed, n), call=f, raised=exc.split(':')[0])
    ms = am.ModelState
    s, exc = call(lambda: ms(a=1.))
    if not exc:
        _, exc = call(lambda: s.update(a=2.))
    ev(kind='fresh', key=nm('fresh', a.seed, 0), exc=exc, v=s['a'] if s is not None else 0)
done(a)
