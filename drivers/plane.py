"""Grids and their symmetries: metrics, rotation of the state, and simulations
that are the same up to rotation, mirroring or translation."""
from dlib import *

a = args()
rng, nr = a.rng, a.np
VEC = [('taus', 'taun'), ('taus0', 'taun0'), ('ustars', 'ustarn'), ('ustars0', 'ustarn0'), ('uws', 'uwn')]


def turned(nx, ny, dx, dy, th, ox=0., oy=0.):
    X, Y = np.meshgrid(np.arange(nx) * dx, np.arange(ny) * dy)
    t = np.radians(th)
    return X * np.cos(t) - Y * np.sin(t) + ox, X * np.sin(t) + Y * np.cos(t) + oy


def exact(th):
    return rng.choice([0., 90., 180., 270.]) if rng.random() < .4 else round(rng.uniform(0., 360.), 3)


# -------------------------------------------------------------------- metrics
for n in range(60 if a.thorough else 24):
    nx, ny = rng.choice([(4, 3), (3, 5), (6, 4)])
    dx, dy = rng.choice([.5, 1., 7.3, 20.]), rng.choice([.5, 1., 3.1, 20.])
    if n % 6 == 5:
        x = np.cumsum(nr.uniform(.5, 3., 6)) if n % 12 == 5 else np.arange(6) * dx
        cfg = dict(xgrid_file=x, ygrid_file=np.zeros(6), bed_file=np.zeros(6))
        th = 0.
    else:
        th = exact(0)
        if th in (90., 180., 270.):        # rows exactly along an axis
            c, q = {90.: (0., 1.), 180.: (-1., 0.), 270.: (0., -1.)}[th]
            X, Y = np.meshgrid(np.arange(nx) * dx, np.arange(ny) * dy)
            x, y = X * c - Y * q, X * q + Y * c
        else:
            x, y = turned(nx, ny, dx, dy, th, rng.choice([0., 1000.]), rng.choice([0., -350.]))
        cfg = dict(xgrid_file=x, ygrid_file=y, bed_file=np.zeros((ny, nx)))
    nf = rng.choice([1, 2, 3])
    cfg.update(grain_size=[2e-4, 3e-4, 5e-4][:nf], grain_dist=[1.] * nf)
    m, exc = call(model, base(**cfg))
    if exc:
        ev(kind='grid', key=nm('grid', a.seed, n), exc=exc)
        continue
    s, p = m.s, m.p
    ev(kind='grid', key=nm('grid', a.seed, n), exc='', x=s['x'], y=s['y'], ds=s['ds'], dn=s['dn'], dsdn=s['dsdn'], dsdni=s['dsdni'], alpha=float(p['alpha']), th=th)
    # rotation of a state
    for v, w in VEC:
        s[v], s[w] = nr.normal(size=s['x'].shape), nr.normal(size=s['x'].shape)
    s['qs'], s['qn'] = nr.normal(size=s['qs'].shape), nr.normal(size=s['qs'].shape)
    s['udir'] = nr.uniform(-180, 180, s['x'].shape)
    ang = rng.choice([float(p['alpha']), -float(p['alpha']), 33., -120., 200.])
    old = {k: np.array(v, copy=True) for k, v in s.items() if isinstance(v, np.ndarray)}
    _, exc = call(m.grid_rotate, ang)
    pairs = [(v, w, 0) for v, w in VEC] + [('qs', 'qn', i) for i in range(nf)]

    def f(d, k, i):
        return d[k][:, :, i] if d[k].ndim == 3 else d[k]
    sc = ('zb', 'uw', 'tau', 'ustar', 'ds', 'dn')
    ev(kind='turn', key=nm('turn', a.seed, n), exc=exc, angle=ang, x=old['x'], y=old['y'], x1=s['x'], y1=s['y'], d=old['udir'], d1=s['udir'],
       a=[f(old, v, i) for v, _, i in pairs], b=[f(old, w, i) for _, w, i in pairs], a1=[f(s, v, i) for v, _, i in pairs], b1=[f(s, w, i) for _, w, i in pairs],
       z=[old[k] for k in sc], z1=[s[k] for k in sc])

# ------------------------------------------------------------------ symmetries
OUT = ['zb', 'Ct', 'mass', 'uw', 'ustar', 'uth', 'pickup', 'moist', 'zs', 'rhoveg', 'Cu']


def run(cfg, steps):
    m = model(cfg)
    for dt in steps:
        m.update(dt)
    return m


for n in range(48 if a.thorough else 16):
    nx, ny = rng.choice([(7, 5), (5, 6)])
    dx, dy = rng.choice([(2., 2.), (2., 1.), (1., 3.)])
    nf = rng.choice([1, 2])
    zb = nr.uniform(0, 1, (ny, nx)).cumsum(axis=1) * rng.choice([.1, .4]) - .2
    d = rng.choice([270., 240., 300., 90., 20.]) + rng.uniform(-9, 9)
    u = rng.choice([9., 12., 16.])
    opt = dict(grain_size=[.00025] if nf == 1 else [.0002, .0004], grain_dist=[1.] if nf == 1 else [.5, .5], nlayers=3, wind_convention='nautical',
               solver=rng.choice(['trunk', 'trunk', 'pieter', 'steadystate']), scheme=rng.choice(['euler_backward', 'euler_backward', 'euler_forward', 'crank_nicolson']),
               boundary_lateral='circular', boundary_onshore='gradient',
               dt=rng.choice([20., 60.]), CFL=1., process_avalanche=rng.random() < .6, max_iter_ava=40, method_transport=rng.choice(['bagnold', 'kawamura', 'dk']),
               method_grainspeed=rng.choice(['windspeed', 'windspeed', 'constant', 'duran']), bi=rng.choice([1., .1]))
    opt['boundary_offshore'] = rng.choice(['flux', 'constant', 'gradient'] + (['noflux', 'uniform'] if opt['solver'] == 'trunk' else []))
    if opt['scheme'] != 'euler_backward':
        opt['dt'] = .1
    if rng.random() < .5:
        opt.update(process_tide=True, tide_file=np.array([[0., 0.], [1e6, .3]]), process_wave=True, wave_file=np.array([[0., 1., 6.], [1e6, 2., 8.]]), process_runup=True,
                   process_moist=True, th_moisture=True, process_mixtoplayer=True, process_wet_bed_reset=True)
    opt['max_iter'] = 50
    veg = rng.random() < .3
    ne = rng.random() < .3
    steps = [-1] * rng.choice([2, 3])
    rough = nr.uniform(0, .6, (ny, nx))
    cov = nr.uniform(0, .3, (ny, nx))

    def cfg(zb, rough, cov, th=0., ox=0., oy=0., d=d):
        x, y = turned(zb.shape[1], zb.shape[0], dx, dy, th, ox, oy)
        c = dict(opt, xgrid_file=x, ygrid_file=y, bed_file=zb, wind_file=np.array([[0., u, d - th], [1e6, u, d - th]]))
        if veg:
            c.update(process_vegetation=True, veg_file=rough)
        if ne:
            c.update(th_nelayer=True, ne_file=zb - cov)
        return base(**c)
    m0, exc = call(run, cfg(zb, rough, cov), steps)
    if exc:
        ev(kind='sym', key=nm('sym', a.seed, n), exc=exc, sym='base')
        continue

    def fields(m, flip=False, only=None):
        return [np.array(m.s[k])[::-1] if flip else np.array(m.s[k]) for k in (only or OUT)]
    er = bool(np.abs(m0.s['zb'] - zb).max() > 1e-9)
    th = exact(0)
    for sym, m1, exc1, flip in [('rotation',) + call(run, cfg(zb, rough, cov, th), steps) + (False,),
                                ('translation',) + call(run, cfg(zb, rough, cov, 0., 5000., -777.), steps) + (False,),
                                ('mirror',) + call(run, cfg(zb[::-1], rough[::-1], cov[::-1], d=(180. - d) % 360.), steps) + (True,)]:
        ev(kind='sym', key=nm('sym-' + sym, a.seed, n), exc='', exc1=exc1, sym=sym, th=th, opt={k: str(v)[:40] for k, v in opt.items()}, f=fields(m0),
           g=[] if exc1 else fields(m1, flip), t=m0.t, t1=-1. if exc1 else m1.t, eroded=er)
    # rows that do not differ behave as a single row
    z1 = zb[:1] * np.ones((4, 1))
    r1, c1 = rough[:1] * np.ones((4, 1)), cov[:1] * np.ones((4, 1))
    o2 = dict(opt)
    dy = 1.        # the width of a single row
    dd = rng.choice([270.001, 90.001])
    m2, e2 = call(run, cfg(z1, r1, c1, d=dd), steps)
    x1 = np.arange(nx) * dx
    cc = dict(opt, xgrid_file=x1, ygrid_file=np.zeros(nx), bed_file=zb[0], wind_file=np.array([[0., u, dd], [1e6, u, dd]]))
    if veg:
        cc.update(process_vegetation=True, veg_file=rough[0])
    if ne:
        cc.update(th_nelayer=True, ne_file=zb[0] - cov[0])
    m3, e3 = call(run, base(**cc), steps)
    if e2:
        ev(kind='sym', key=nm('sym-rows', a.seed, n), exc=e2, sym='rows')
    else:
        ev(kind='sym', key=nm('sym-rows', a.seed, n), exc='', exc1=e3, sym='rows', opt={k: str(v)[:40] for k, v in opt.items()}, f=[x[1] for x in fields(m2)] + [x[2] for x in fields(m2)],
           g=[] if e3 else [x[0] for x in fields(m3)] * 2, t=m2.t, t1=-1. if e3 else m3.t, eroded=er)
    opt = o2

# ---------------------------------------------- the grid is put back after a step
for n in range(24 if a.thorough else 10):
    th = exact(0)
    x, y = turned(5, 4, 2., 1., th, 10., 20.)
    u = rng.choice([0., 10.])
    m = model(base(xgrid_file=x, ygrid_file=y, bed_file=nr.uniform(0, 1, (4, 5)), wind_convention='nautical', wind_file=np.array([[0., u, 250.], [1e6, u, 250.]]),
                   scheme=rng.choice(['euler_forward', 'euler_backward']), process_avalanche=True, CFL=1.))
    for k in range(3):
        dt = rng.choice([-1, 30., -60.])
        _, exc = call(m.update, dt)
        s = m.s
        r = np.radians(s['udir'])
        ev(kind='back', key=nm('back%d' % k, a.seed, n), exc=exc, x=x, y=y, x1=s['x'], y1=s['y'], u=-s['uw'] * np.sin(r), v=-s['uw'] * np.cos(r), u1=s['uws'], v1=s['uwn'],
           skipped=bool(dt == -60. or u == 0.))
done(a)
