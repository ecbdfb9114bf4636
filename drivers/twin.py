"""Pairs of complete runs: a case and an equivalent description of it (Symmetry.tla), step by step."""
from dlib import *
from cases import *
import shutil
import netCDF4
import aeolis.model as am
from aeolis.constants import DEFAULT_CONFIG

a = args()
rng, nr = a.rng, a.np
home = os.getcwd()
LIST = ['plain', 'limit', 'moist', 'veg', 'infil', 'fence', 'avalanche', 'shear', '2d', 'ne']
ROWS = ['plain', 'limit', 'moist', 'infil', 'ne']
SERIES = ('wind_file', 'tide_file', 'wave_file', 'meteo_file')
GRIDS = ('xgrid_file', 'ygrid_file', 'bed_file', 'ne_file', 'veg_file', 'fence_file')
NF = {'Cu', 'Cuf', 'Cu0', 'Ct', 'q', 'qs', 'qn', 'pickup', 'w', 'w_init', 'w_air', 'w_bed', 'uth', 'uthf', 'uth0', 'u', 'us', 'un', 'u0', 'mass'}


def sums(x):
    x = np.asarray(x, dtype=float).ravel()
    bad = ~np.isfinite(x)
    w = np.cos(1. + np.arange(x.size))
    x = np.where(bad, 0., x)
    return [float(np.sum(w * x)), float(np.sum(np.abs(w * x))), float(np.sum(w * bad)), float(x.size)]


def table(d, ny, stat=''):
    """[v, stat, x]: x[row][fraction] weighted sums of a quantity"""
    out = []
    for k, v in d.items():
        if not isinstance(v, np.ndarray) or v.dtype.kind not in 'fiub' or v.ndim < 2 or v.shape[0] != ny:
            continue
        rows = [[sums(r[..., f]) for f in range(r.shape[-1])] if k in NF else [sums(r)] for r in v]
        out.append(dict(v=k, stat=stat, x=rows))
    return out


def picture(m):
    ny = m.s['zb'].shape[0]
    st = []
    for k, e in m.o.items():
        for name, x in e.items():
            st += table({k: x}, ny, name)
    return dict(t=float(m.t), dt=float(m.dt), s=table(m.s, ny), o=st)


def disk(f, ny):
    if not os.path.exists(f):
        return dict(t=[], bounds=[], s=[])
    with netCDF4.Dataset(f) as nc:
        s = []
        for k, v in nc.variables.items():
            if v.dtype.kind != 'f' or 'time' not in v.dimensions or len(v.dimensions) < 3:
                continue
            n, _, e = k.partition('_') if k.rpartition('_')[2] in ('avg', 'sum', 'var', 'min', 'max') else (k, '', '')
            if e:
                n, _, e = k.rpartition('_')
            s += [dict(r, stat=e) for r in table({n: np.moveaxis(np.ma.filled(v[...].astype(float), np.nan), 1, 0)}, ny)]
        return dict(t=np.array(nc.variables['time'][...]), bounds=np.array(nc.variables['time_bounds'][...]).ravel(), s=s)


# ------------------------------------------------------------- the descriptions
def apply(p, c, info):
    c, op = dict(c), p['op']
    if op == 'shift':
        for k in ('tstart', 'tstop'):
            c[k] = c[k] + p['a']
        for k in SERIES:
            if c.get(k) is not None:
                c[k] = c[k].copy()
                c[k][:, 0] += p['a']
    elif op == 'fractions':
        o, sh = [k - 1 for k in p['o']], [float(x) for x in p['share']]
        # what is not there may have any size
        c['grain_size'] = [c['grain_size'][k] if s > 0 else 3e-4 for k, s in zip(o, sh)]
        c['grain_dist'] = [c['grain_dist'][k] * s for k, s in zip(o, sh)]
    elif op == 'repeat':
        for k in SERIES:
            if c.get(k) is not None:
                y = c[k].copy()
                y[:, 0] += y[-1, 0] - y[0, 0] + 1
                c[k] = np.vstack([c[k], y])
    elif op == 'refine':
        for k in SERIES:
            if c.get(k) is not None:
                x, y = c[k], []
                for q in range(len(x) - 1):
                    y.append(x[q])
                    if k != 'wind_file' or x[q, 2] == x[q + 1, 2]:
                        y.append((x[q] + x[q + 1]) / 2)
                c[k] = np.array(y + [x[-1]])
    elif op == 'convention':
        c['wind_convention'] = 'nautical'
        c['wind_file'] = c['wind_file'].copy()
        c['wind_file'][:, 2] = 270. - c['wind_file'][:, 2]
    elif op == 'rows':
        n = p['a'] + 1
        for k in GRIDS:
            if c.get(k) is not None:
                c[k] = np.tile(np.atleast_2d(c[k]), (n, 1))
        c['ygrid_file'] = c['ygrid_file'] + np.arange(n)[:, None] * info['dy']
    elif op == 'explicit':
        # everything that may be left out is written, in another order
        for k, v in DEFAULT_CONFIG.items():
            if k not in c and k not in ('nx', 'ny') and not (isinstance(v, (np.ndarray, list)) and len(v) == 0):
                c[k] = v
        ks = list(c)
        rng.shuffle(ks)
        c = {k: c[k] for k in ks}
    elif op == 'observe':
        c.update(output_times=info['interval'], output_vars=['zb', 'Ct', 'mass', 'moist'], output_types=['avg', 'max', 'var'], restart=info['interval'], output_file='other.nc')
    return c


def look(m, w):
    """looking at a model"""
    if w == 'get':
        for k in list(m.s.keys()) + list(m.p.keys()):
            m.get_var(k)
            m.get_var(k, clear=False)
        m.get_var('zb_avg')
        m.get_var('Ct.max')
        m.get_var('nothing')
    elif w == 'statistics':
        for k in list(m.o):
            for e in ('avg', 'sum', 'var', 'min', 'max'):
                m.get_statistic(k, e)
        m.output_clear()
    elif w == 'print':
        m.print_progress(fraction=.0001, min_interval=0., max_interval=0.)
        m.print_stats()
    elif w == 'dump':
        m.dump_restartfile()
    elif w == 'names':
        for k in range(m.get_var_count()):
            n = m.get_var_name(k)
            m.get_var_rank(n), m.get_var_shape(n), m.get_var_type(n)
        m.get_current_time(), m.get_start_time(), m.get_end_time()
        m.get_count('time')
        m.get_count('nothing')


def life(d, cfg, n, watch):
    fn = write_case(base(**cfg), d=d)
    os.chdir(os.path.dirname(fn))
    try:
        np.random.seed(7)
        m = am.AeoLiSRunner('aeolis.txt')
        m.initialize()
        m.t0 = 0.
        for w in watch:
            if w != 'print':
                look(m, w)
        m.output_write()
        pics = [picture(m)]
        short = False
        for k in range(n):
            np.random.seed(100 + k)
            m.update()
            # the bed ran out of a fraction somewhere
            short = short or bool(np.any(np.abs(m.s['w'] - m.s['w_init']) > 1e-9))
            for w in watch[k:k + 2]:
                look(m, w)
            if k in (0, n // 2, n - 1):
                pics.append(picture(m))
            m.output_write()
        return dict(pics=pics, short=short, disk=disk(m.p['output_file'], m.s['zb'].shape[0]))
    finally:
        os.chdir(home)


for n, sc in enumerate(a.scenarios):
    if n % a.n != a.k:
        continue
    maps, ops = sc['maps'], [p['op'] for p in sc['maps']]
    key = 'twin-%d-%d' % (a.seed, n)
    # the wind over topography amplifies the last digit within a few steps: only maps that are exact in floating point
    exact = set(ops) <= {'shift', 'convention', 'observe', 'explicit'}
    kind = rng.choice(ROWS if 'rows' in ops else LIST + ['shear'] if exact else [k for k in LIST if k != 'shear'])
    tstart = rng.choice([3600., 36000.] if 'shift' in ops else [0., 0., 60., 3600., 36000.])
    dt = rng.choice([60., 120.])
    cfg = case(kind, rng, nr)
    cfg.update(solver=['trunk', 'pieter', 'steadystate', 'steadystatepieter'][sc['solver'] - 1], dt=dt, tstart=tstart, tstop=tstart + 20 * dt, output_times=rng.choice([1., 2.5]) * dt, output_vars=['zb', 'Ct', 'mass', 'uw', 'pickup', 'Cu'],
               output_types=rng.choice([[], ['avg'], ['sum', 'max']]), wind_convention='cartesian', bi=rng.choice([1., .5, .05]), nlayers=rng.choice([1, 3]), accfac=rng.choice([1., 1., 4.]),
               max_error=1e-11)    # the supply is limited up to this mass of a fraction
    if kind not in ('plain', '2d') and sc['solver'] == 1:
        cfg['scheme'] = ['euler_backward', 'crank_nicolson', 'euler_backward'][sc['scheme'] - 1]
    # the series end during the run (and start again) or not
    for k in SERIES:
        if k in cfg:
            x = cfg[k].copy()
            if k == 'wind_file':
                x[:, 2] = nr.choice([1., 20., 350., 181., 90.], len(x))
                x[1::2, 2] = x[0:-1:2, 2][:len(x[1::2, 2])]
            if rng.random() < .5:
                x = x[:rng.randint(2, len(x))]
                x[-1, 0] = max(x[-1, 0], x[-2, 0] + 60.)
            cfg[k] = x
    cfg['method_roughness'] = rng.choice(['constant', 'constant_nikuradse', 'mean_grainsize_initial', 'mean_grainsize_adaptive'])
    if rng.random() < .3:
        cfg['th_sheltering'] = False
    if rng.random() < .4:
        cfg['th_roughness'] = True
    if rng.random() < .3:
        cfg.update(process_mixtoplayer=True)
    if rng.random() < .3:
        cfg['method_transport'] = rng.choice(['kawamura', 'lettau', 'dk'])
    if rng.random() < (.1 if 'fractions' in ops else .4):
        # little of one of the fractions, which is soon gone
        f = rng.choice([.97, .03, .995])
        cfg.update(grain_dist=[f, 1. - f], layer_thickness=rng.choice([1e-3, 3e-4, 1e-4]), bi=rng.choice([1., .5]))
        cfg['wind_file'] = cfg['wind_file'] * [1., 1.8, 1.]
    # the time step of explicit schemes depends on the distance between rows
    info = dict(dy=1. if kind == 'plain' else rng.choice([1., 4., 30.]), interval=rng.choice([1., 3.]) * dt)
    img = cfg
    for p in maps:
        img = apply(p, img, info)
    steps = len(sc['watch'])
    one, e1 = call(life, 'one%d' % n, cfg, steps, [])
    two, e2 = call(life, 'two%d' % n, img, steps, sc['watch'] if 'observe' in ops else [])
    ev(kind='twin', key=key, case=kind, solver=cfg['solver'], maps=maps, exc=e1, exc2=e2, one=one or 0, two=two or 0)
    for d in ('one%d' % n, 'two%d' % n):
        shutil.rmtree(os.path.join(home, d), ignore_errors=True)
done(a)
