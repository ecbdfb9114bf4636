"""The state a model starts with, for any configuration; refused configurations."""
from dlib import *
import aeolis.model as am
from aeolis.constants import MODEL_STATE

a = args()
rng, nr = a.rng, a.np
SCALAR = ('theta_stat', 'theta_dyn')
MASKS = ('threshold_mask', 'wave_mask', 'tide_mask', 'runup_mask')


def values(s, names):
    return {k: np.array(s[k], dtype=float).ravel() for k in names}


def shape(x):
    return [int(k) for k in np.shape(x)]


def shapes(s, dims):
    return {k: shape(s[k]) for k in dims if k not in SCALAR}


def kind_of(exc):
    n = exc.split(':')[0]
    return 'OSError' if n in ('OSError', 'IOError', 'FileNotFoundError') else n


def config(o, g, solver=None):
    """a configuration with the options o; g: what it says, for the specification"""
    d = o['d']
    ny, nx, nl, nf = d['ny'], d['nx'] + 3, d['nl'], d['nf']
    f = o['fault']
    ny = ny if ny == 1 or not f.startswith('lateral') else max(ny, 3)
    one = ny == 1
    dx, dy = rng.choice([.5, 1., 2.5]), rng.choice([.5, 1., 3.])
    bed = nr.uniform(-1., 2., (ny, nx))
    c = dict(grid(nx, ny, dx, dy, bed[0] if one else bed), nlayers=nl, tstart=rng.choice([0., 3600., 1e5]), tstop=1e6, dt=60., porosity=rng.choice([.3, .4]), rhog=rng.choice([2650., 2000.]),
             wind_convention=o['conv'], scheme=rng.choice(['euler_backward', 'euler_forward', 'crank_nicolson']), process_shear=False, process_tide=False, process_wave=False,
             grain_size=[float(x) for x in np.sort(nr.uniform(1.5e-4, 6e-4, nf))], hveg_max=rng.choice([.5, 1.]))
    wind = np.array([[0., 9., 0.], [5e5, 8., rng.choice([0., 270., 45., -30.])], [8e5, 10., 270.], [2e6, 11., rng.uniform(0, 360)]])
    wind[0, 2] = rng.choice([0., 270., 120.])
    c['wind_file'] = wind
    g.update(d=dict(ny=ny, nx=nx, nl=nl, nf=nf), tstart=c['tstart'], porosity=c['porosity'], rhog=c['rhog'], hveg_max=c['hveg_max'], comp=o['comp'], conv=o['conv'], x=np.atleast_2d(c['xgrid_file']).ravel(),
             y=np.zeros(nx) if one else c['ygrid_file'].ravel(), bed=bed.ravel(), wind=wind.copy())
    th = [float(x) for x in nr.uniform(.005, .05, nl)]
    c['layer_thickness'] = th if o['thick'] == 'list' else th[0]
    g['thickness'] = th if o['thick'] == 'list' else th[:1]
    # composition of the bed
    share = nr.randint(1, 9, (nl, nf)) if o['whole'] else nr.uniform(.05, .95, (nl, nf))
    if o['comp'] == 'layers':
        c['grain_dist'] = share
        g['dist'] = share
    else:
        c['grain_dist'] = [int(x) for x in share[0]] if o['whole'] else [float(x) for x in share[0]]
        g['dist'] = share[:1]
    g['cells'] = []
    if o['comp'] == 'cells':
        m = nr.uniform(1., 60., (ny, nx, nl, nf))
        g['cells'] = m.ravel()
        # any text layout of the same values
        c['bedcomp_file'] = m.reshape(rng.choice([(-1, 1), (1, -1), (ny * nx, -1), (ny, -1)]))
    # optional files
    lay = lambda x: x.ravel() if one else x

    def file(key, prob, make):
        g[key] = []
        if rng.random() < prob:
            x = make()
            c[key + '_file' if not key.endswith('_mask') else key] = lay(x)
            g[key] = x.ravel()
    file('ne', .5, lambda: bed - nr.uniform(0, 1, bed.shape))
    file('veg', .5, lambda: nr.uniform(-.3, 1., bed.shape) if rng.random() < .8 else np.where(np.arange(bed.size).reshape(bed.shape) == 0, np.nan, .5))
    file('fence', .4, lambda: nr.choice([0., .5, 1.2], size=bed.shape))
    if rng.random() < .5 and len(g['fence']):
        g['fence'] = []
    elif len(g['fence']):
        c['process_fences'] = True
    file('threshold', 0. if f == 'moisture' else .4, lambda: nr.uniform(.1, .4, bed.shape))
    for k in MASKS:
        file(k, .4, lambda: nr.uniform(0, 1, bed.shape))
    if len(g['veg']) and rng.random() < .7:
        c['process_vegetation'] = True
    return fault(c, f, one, solver)


def fault(c, f, one, solver):
    drop = []
    if f == 'no-xgrid':
        drop = ['xgrid_file'] if rng.random() < .5 else []
        if not drop:
            c['xgrid_file'] = 'nothere.txt'
    elif f == 'no-bed':
        drop = ['bed_file']
    elif f == 'no-ygrid' or f == 'no-ygrid-ny':
        drop = ['ygrid_file']
    elif f == 'wind-columns':
        c['wind_file'] = c['wind_file'][:, :2]
    elif f == 'wind-row':
        c['wind_file'] = c['wind_file'][0]
    elif f == 'tide-columns':
        c['tide_file'] = np.arange(4.)
    elif f == 'meteo-columns':
        c['meteo_file'] = np.ones((4, 5))
    elif f == 'dist-name':
        c['grain_dist'] = 'nothere.txt'
    elif f == 'dist-layers':
        c['grain_dist'] = c['grain_dist'][:-1] if len(c['grain_dist']) > 2 and rng.random() < .5 else np.vstack([c['grain_dist'], c['grain_dist']])
    elif f == 'convention':
        c['wind_convention'] = 'oceanographic'
    elif f == 'scheme':
        c['scheme'] = 'euler_sideways'
    elif f == 'transport':
        c['method_transport'] = 'nobody'
    elif f == 'moisture':
        c.update(process_moist=True, th_moisture=True, method_moist_threshold='nobody')
    elif f == 'moist-process':
        c.update(process_moist=True, method_moist_process='nobody')
    elif f == 'groundwater':
        c.update(process_moist=True, process_groundwater=True, boundary_gw='nobody')
    elif f == 'lateral':
        c['boundary_lateral'] = 'nothing'
    elif f == 'lateral-uniform':
        c['boundary_lateral'] = rng.choice(['uniform', 'gradient'])
    elif f in ('offshore', 'onshore'):
        c['boundary_' + f] = 'nothing'
    elif f in ('offshore-circular', 'onshore-circular'):
        c['boundary_' + f[:-9]] = 'circular'
    c['solver'] = solver or rng.choice(['trunk', 'steadystate'] if f == 'lateral-uniform' else ['trunk', 'trunk', 'pieter', 'steadystate', 'steadystatepieter'])
    if f == 'solver':
        c['solver'] = 'nobody'
    c = base(**c)
    if f in ('no-ygrid', 'no-config') or rng.random() < .5:
        # the dimensions follow from the grid
        c.pop('nx'), c.pop('ny')
    if f == 'no-ygrid-ny':
        c['ny'] = 2
    for k in drop:
        c.pop(k)
    return c


def start(cfg, missing):
    fn = write_case(cfg)
    old = os.getcwd()
    os.chdir(os.path.dirname(fn))
    try:
        with quiet():
            m = am.AeoLiS('nothere.txt' if missing else 'aeolis.txt')
            m.initialize()
    finally:
        os.chdir(old)
    return m


def one(n, o, solver):
    g = {}
    cfg = config(o, g, solver)
    m, exc = call(start, cfg, o['fault'] == 'no-config')
    e = dict(kind='init', key='init-%d-%d%s' % (a.seed, n, '-' + solver if solver else ''), opt=o, g=g, exc=exc, raised=kind_of(exc) if exc else '', got=0, step=0)
    if m is not None:
        want = {v: [g['d'][{'ny': 'ny', 'nx': 'nx', 'nlayers': 'nl', 'nfractions': 'nf'}[x]] for x in dm] for dm, vs in MODEL_STATE.items() for v in vs if v not in SCALAR}
        nz = ['x', 'y', 'ds', 'dn', 'dsdn', 'dsdni', 'zb', 'zb0', 'zne', 'zdry', 'thlyr', 'mass', 'uth', 'rhoveg', 'hveg', 'germinate', 'lateral', 'fence_height', 'shear', 'alfa', 'zf',
              'fence_base', 'fence_top', 'fence_height_init'] + list(MASKS)
        e['got'] = dict(t=float(m.t), nx=int(m.p['nx']), ny=int(m.p['ny']), nf=int(m.p['nfractions']), wind=np.array(m.p['wind_file']), want=want, shapes=shapes(m.s, want), previous=shapes(m.l, want),
                        dims={k: [int({'ny': m.p['ny'] + 1, 'nx': m.p['nx'] + 1, 'nlayers': m.p['nlayers'], 'nfractions': m.p['nfractions']}[x]) for x in v] for k, v in m.dimensions().items() if k in want},
                        v=values(m.s, ['x', 'y', 'zb', 'zb0', 'zne', 'zdry', 'thlyr', 'mass', 'uth', 'rhoveg', 'hveg', 'germinate', 'lateral', 'fence_height']),
                        fence=values(m.s, ['fence_base', 'fence_top']) if cfg.get('process_fences') else dict(fence_base=[], fence_top=[]),
                        mask={k: np.array(m.s[k], dtype=float).ravel() for k in MASKS}, maskshape={k: shape(m.s[k]) for k in MASKS},
                        other=[k for k in want if k not in nz and not np.all(np.asarray(m.s[k]) == 0.)], has_fence=bool(cfg.get('process_fences')))

        def steps():
            with quiet():
                for _ in range(2):
                    m.update()
            return dict(shapes=shapes(m.s, want), previous=shapes(m.l, want), t=float(m.t), finite=bool(np.all(np.isfinite(m.s['zb']))))
        r, exc = call(steps)
        e['step'] = r if r else dict(shapes={}, previous={}, t=0., finite=False)
        e['stepexc'] = exc
        e['stepraised'] = kind_of(exc) if exc else ''
    else:
        e['stepexc'] = e['stepraised'] = ''
    ev(**e)


for n, sc in enumerate(a.scenarios):
    if n % a.n != a.k:
        continue
    o = sc['opt']
    if n % 2 and o['fault'] not in ('dist-layers', 'dist-name'):
        o = dict(o, fault='none')
    for solver in (['trunk', 'pieter', 'steadystate', 'steadystatepieter'] if o['fault'] in ('offshore', 'onshore', 'lateral', 'offshore-circular', 'onshore-circular') else [None]):
        one(n, o, solver)
done(a)
