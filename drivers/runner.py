"""Drives the real AeoLiSRunner: histories of update / output_write / get_var,
and complete run() loops with callbacks.  One event per operation."""
from dlib import *
import aeolis.model as am
import netCDF4

a = args()
rng, nr = a.rng, a.np
STATS = ['avg', 'sum', 'var', 'min', 'max']
WATCH = ['zb', 'Ct', 'uw', 'q']
NX = 4


def wind_series(kind, T):
    if kind == 'zero':
        return np.array([[0., 0., 0.], [T, 0., 0.]])
    if kind == 'strong':
        return np.array([[0., 12., 0.], [T, 12., 0.]])
    if kind == 'lull':        # calm in between
        return np.array([[0., 9., 0.], [T * .2, 0., 0.], [T * .4, 0., 0.], [T * .6, 11., 20.], [T, 9., 0.]])
    return np.array([[T * k / 8., 4. + 8. * rng.random(), rng.choice([0., 180., 30., 330., 75., 250.])] for k in range(9)])


def mk(c, wind, outvars, outtypes, extra=None):
    cfg = base(**grid(NX, c.get('ny', 1), *c.get('dxy', (1., 1.))), tstart=float(c['tstart']), tstop=float(c.get('tstop', 1e5)), dt=float(c['dt']),
               accfac=float(c['accfac']), output_times=float(c['interval']),
               scheme='euler_forward' if c['explicit'] else c.get('scheme', 'euler_backward'),
               CFL=float(c['CFL']), max_bedlevel_change=float(c['maxdz']),
               wind_file=wind, output_vars=outvars, **(extra or {}))
    cfg['nlayers'] = 2
    if outtypes:
        cfg['output_types'] = outtypes
    fn = write_case(cfg)
    r = am.AeoLiSRunner(fn)
    return r, fn


def grids(r):
    b = {k: np.array(am.AeoLiS.get_var(r, k)).ravel().copy() for k in WATCH}
    return b


def post(r):
    g = grids(r)
    return dict(t=float(r.t), dt=float(r.dt), steps=int(r.get_count('time')), n=int(r.n), grids=[g[k] for k in WATCH])


def rate(r):
    s = r.s
    return float(np.max(np.abs(s['uws']) / s['ds']) + np.max(np.abs(s['uwn']) / s['dn']))


def stats(r):
    """statistics as the runner reports them, without disturbing it"""
    out = []
    for k in WATCH:
        exts = r.p['_output_vars'].get(k, [])
        names = [e for e in STATS if e in exts]
        out.append([dict(name=e, v=np.array(r.get_statistic(k, e)).ravel()) for e in names])
    return out


def ncread(r):
    with netCDF4.Dataset(r.p['output_file']) as d:
        d.set_auto_mask(False)
        t = d['time'][:].tolist()
        b = d['time_bounds'][:].tolist()
        last, stat = [], []
        for k in WATCH:
            last.append(d[k][-1].ravel().tolist() if k in d.variables and len(t) else [])
            stat.append([dict(name=e, v=d['%s_%s' % (k, e)][-1].ravel().tolist())
                         for e in STATS if '%s_%s' % (k, e) in d.variables and len(t)])
        nrec = sorted(set(d[v].shape[0] for v in d.variables if 'time' in d[v].dimensions))
    return dict(times=t, bounds=b, last=last, stat=stat, lens=nrec)


def history(key, c, ops, wind, outvars, outtypes, extra=None):
    h = []
    r, fn = mk(c, wind, outvars, outtypes, extra)
    old = os.getcwd()
    os.chdir(os.path.dirname(fn))
    try:
        _, exc = call(r.initialize)
        if exc:
            ev(key=key, cfg=c, ops=[dict(op='init', exc=exc)])
            return
        for o in ops:
            rec = dict(o, exc='')
            if o['op'] == 'update':
                arg = o['arg']
                _, exc = call(r.update, arg)
                rec.update(exc=exc)
                if not exc:
                    rec.update(post(r), rate=rate(r), dzb=float(np.max(np.abs(r.s['dzb']))), stats=stats(r))
            elif o['op'] == 'write':
                _, exc = call(r.output_write)
                rec.update(exc=exc)
                if not exc:
                    rec.update(post(r), nc=ncread(r))
            elif o['op'] == 'get':
                name = o['name']
                # names with a point are the older spelling of the same statistics
                v, exc = call(r.get_var, name.replace('_', '.') if name.rpartition('_')[2] in STATS and nr.uniform() < .3 else name, o['clear'])
                v0, _, st = name.partition('_')
                ex = r.p['_output_vars'].get(v0, []) if st in STATS else []
                tracked = st in ex or (st in ('avg', 'sum', 'var') and ('var' in ex or 'avg' in ex and st != 'var' or 'sum' in ex and st != 'var'))
                rec.update(exc=exc, v=[] if v is None else np.array(v, float).ravel(),
                           var=WATCH.index(v0) + 1 if v0 in WATCH else 0, stat=st if tracked else '')
            elif o['op'] == 'noise':
                z = np.array(r.s['zb']) + nr.uniform(-.1, .1, r.s['zb'].shape)
                _, exc = call(r.set_var, 'zb', z)
                rec.update(exc=exc)
            h.append(rec)
            if exc:
                break
    finally:
        os.chdir(old)
    ev(key=key, cfg=c, ops=h)


ALLV = ['zb', 'Ct', 'uw']
VARSETS = [(['zb', 'Ct', 'uw', 'q'], STATS), (['zb', 'zb_avg', 'Ct_var', 'Ct_sum', 'uw_max', 'uw_min', 'zb_var', 'uw'], []),
           (['zb.sum', 'Ct', 'uw.avg', 'zb'], ['min', 'max']), (['zb', 'Ct', 'uw', 'w_init', 'scan_w_moist', 'dzbavg_avg', 'q'], ['avg']),
           (['zb', 'zb_var', 'q_var', 'Ct_avg', 'uw_sum', 'q'], []), (['zb', 'q', 'zb_min', 'Ct_max', 'uw_var'], [])]
CB = os.path.abspath('cb.py')

# behaviours of the specification (time unit 10 s)
U = 10
for n, sc in enumerate(a.scenarios):
    c = dict(sc['cfg'])
    c.update(tstart=c['tstart'] * U, dt=c['dt'] * U, interval=c['interval'] * U, maxdz=999 if c['maxdz'] == 999 else 0.0005)
    ops = []
    for o in sc['ops']:
        o = dict(o)
        if o['op'] == 'update':
            o['arg'] = o['arg'] * U if o['arg'] != -1 else -1
            ops.append(dict(op='noise'))
        if o['op'] == 'get':
            o['name'] = rng.choice(['zb', 'zb_avg', 'Ct_sum', 'uw_max', 'tstop'])
        ops.append(o)
    rates = [o['rate'] for o in sc['ops'] if o['op'] == 'update']
    w = wind_series('zero' if '0' in rates and rng.random() < .4 else rng.choice(['strong', 'lull', 'x']), 1000.)
    vs = VARSETS[n % len(VARSETS)]
    history('spec%d' % n, c, ops, w, vs[0], vs[1])

# random histories
N = 120 if a.thorough else 36
for n in range(N):
    explicit = rng.random() < .45
    c = dict(tstart=rng.choice([0., 0., 30., 3600.5]), dt=rng.choice([1., 7.5, 60., 600.]),
             accfac=rng.choice([1., 1., 2., 10.]), interval=rng.choice([1., 20., 60., 100.]),
             explicit=explicit, CFL=rng.choice([1., .5, 2., 0.]), maxdz=rng.choice([999., 999., 1e-3, 1e-5]),
             scheme=rng.choice(['euler_backward', 'crank_nicolson']), ny=rng.choice([1, 1, 3]), dxy=rng.choice([(1., 1.), (20., 1.), (1., 15.), (3., 2.)]))
    extra = {}
    if rng.random() < .3:
        extra.update(process_tide=True, tide_file=np.array([[0., .1], [1e6, .3]]))
    ops = [] if rng.random() < .3 else [dict(op='write')]
    for k in range(rng.randint(6, 16)):
        x = rng.random()
        if x < .2:
            ops.append(dict(op='noise'))
        if x < .7:
            ops.append(dict(op='update', arg=rng.choice([-1, -1, 0, 1., 13., 60., 3600., -.5, -30., -5., 0.25])))
            if rng.random() < .8:
                ops.append(dict(op='write'))
        elif x < .8:
            if ops and ops[-1]['op'] == 'update':
                ops.append(dict(op='write'))
        else:
            ops.append(dict(op='get', clear=rng.random() < .5,
                            name=rng.choice(['zb', 'zb_avg', 'Ct_var', 'uw_max', 'zb_sum', 'uw_min', 'dt', 'w_init', 'zb_var', 'q_var', 'uw_var', 'q_avg'])))
    vs = rng.choice(VARSETS)
    history(nm('rand', a.seed, n), c, ops, wind_series(rng.choice(['strong', 'lull', 'x', 'x', 'zero']), 2e4),
            vs[0], vs[1], extra)

# complete runs
for n in range(12 if a.thorough else 5):
    explicit = n % 2 == 1
    c = dict(tstart=rng.choice([0., 0., 50.]), dt=rng.choice([10., 30., 60.]), accfac=rng.choice([1., 1., 2.]),
             interval=rng.choice([25., 60., 100.]), explicit=explicit, CFL=1., maxdz=999.)
    c['tstop'] = c['tstart'] + (6. if explicit else rng.choice([300., 200., 305.]))
    vs = VARSETS[n % len(VARSETS)]
    wind = wind_series(rng.choice(['strong', 'x', 'zero'] if explicit else ['x', 'lull', 'strong']), 400.)
    r, fn = mk(c, wind, vs[0], vs[1])
    old = os.getcwd()
    seen, dts, rates = [], [], []

    def cb(m):
        seen.append(float(m.t))
    upd = r.update

    def wrapped(dt=-1):
        z = upd(dt)
        dts.append(float(r.dt))
        rates.append(rate(r))
        return z
    r.update = wrapped
    mode = n % 3
    if mode == 1:    # callback given as file:function
        with open(os.path.join(os.path.dirname(fn), 'cbfile.py'), 'w') as fp:
            fp.write('def step(m):\n    m._seen.append(float(m.t))\n')
        r._seen = seen
        arg = 'cbfile.py:step'
    else:
        arg = cb
    _, exc = call(r.run, arg, seconds=60)
    e = dict(key=nm('run', a.seed, n), cfg=c, run=True, exc=exc, callbacks=seen, dts=dts, rates=rates,
             cwd=os.getcwd() == old)
    if not exc:
        e.update(t=float(r.t), steps=int(r.get_count('time')))
        r.p['output_file'] = os.path.join(os.path.dirname(fn), os.path.basename(r.p['output_file']))
        e['nc'] = ncread(r)
    os.chdir(old)
    ev(**e)
done(a)
