"""What a run leaves on disk: layout and units of the output file, records and restart files after
the process is killed, and records that start another model."""
from dlib import *
from cases import *
import logging
import pickle
import shutil
import netCDF4
import aeolis.model as am
import aeolis.netcdf as an
from aeolis.constants import MODEL_STATE, INITIAL_STATE

a = args()
rng, nr = a.rng, a.np
home = os.getcwd()
# the coordinates are in every file and cannot be requested
VARS = sorted({v for d in (MODEL_STATE, INITIAL_STATE) for x in d.values() for v in x} - {'x', 'y'})
STATS = ['avg', 'sum', 'var', 'min', 'max']


def arr(v):
    return np.ma.filled(v[...].astype(float), np.nan)


def layout(f):
    with netCDF4.Dataset(f) as nc:
        dims = {k: len(d) for k, d in nc.dimensions.items()}
        var = {k: dict(dims=list(v.dimensions), units=str(getattr(v, 'units', ''))) for k, v in nc.variables.items()}
        co = {k: arr(nc.variables[k]) for k in ('s', 'n', 'x', 'y', 'layers', 'fractions')}
        return dict(dims=dims, var=var, co=co, times=arr(nc.variables['time']), bounds=arr(nc.variables['time_bounds']))


def runner(d, cls=am.AeoLiSRunner):
    os.chdir(os.path.join(home, d))
    with quiet():
        m = cls('aeolis.txt')
    return m


def steps(m, n):
    m.output_write()
    for k in range(n):
        m.update()
        m.output_write()


# ------------------------------------------------------- layout of the file
for n in range(24 if a.thorough else 5):
    nx, ny, nl, nf = rng.randint(4, 7), rng.choice([1, 1, 3, 4, 5]), rng.randint(1, 4), rng.randint(1, 4)
    want = rng.sample(VARS, 12 if a.thorough else 22)
    if n == 0:
        want = ['gw', 'moist', 'udir', 'Ct', 'mass', 'thlyr', 'theta_dyn', 'zb', 'scan_w', 'fence_height']
    if n == 1:
        want = list(VARS)
    typ = rng.sample(STATS, rng.randint(0, 3))
    extra = ['%s_%s' % (v, rng.choice(STATS)) for v in rng.sample([v for v in VARS if v not in ('theta_stat', 'theta_dyn')], 4)]
    dx, dy = rng.choice([1., .5, 20.]), rng.choice([1., 2., 7.])
    g = grid(nx, ny, dx, dy, None)
    if rng.random() < .5:
        g['xgrid_file'] = g['xgrid_file'] + 70000.
    date = rng.choice(['2020-01-01 00:00', '1999-12-31 12:30', '2020-01-01'])
    long_ = rng.random() < .4
    ts = rng.choice([20000001., 63115201.]) if long_ else rng.choice([0., 0., 30.])
    size = [float('%.6f' % x) for x in nr.uniform(1.5e-4, 6e-4, nf)]
    cfg = base(**dict(g, nlayers=nl, layer_thickness=.05, grain_size=size, grain_dist=[1.] * nf, output_vars=want + extra, output_types=typ, refdate=date, tstart=ts, tstop=ts + 250., dt=61., output_times=1.,
                      process_tide=False, process_wave=False, process_moist=False, wind_file=np.array([[0., 9., 10.], [1e9, 9., 10.]])))
    write_case(cfg, d='lay')
    q = [dict(v=v, stats=[''] + typ) for v in want] + [dict(v=e.rsplit('_', 1)[0], stats=[e.rsplit('_', 1)[1]] + typ) for e in extra]

    def go():
        m = runner('lay')
        m.initialize()
        t = [float(m.t)]
        m.output_write()
        for k in range(3):
            m.update()
            t.append(float(m.t))
            m.output_write()
        return dict(layout('aeolis.nc'), x=np.array(m.s['x']), y=np.array(m.s['y']), t=t, date=str(m.p['refdate']))
    r, exc = call(go)
    os.chdir(home)
    ev(kind='layout', key=nm('lay', a.seed, n), exc=exc, c=dict(nx=nx, ny=ny, nl=nl, nf=nf), q=q, got=r if r else 0, size=size, refdate=date, interval=1.)
    shutil.rmtree(os.path.join(home, 'lay'), ignore_errors=True)

# ------------------------------------------------------------ killed processes
WATCH = ['zb', 'Ct', 'mass', 'udir', 'q', 'zs']


def child(d, at, nsteps):
    """runs the model in a process that is killed at the given moment"""
    import signal as sg

    def die():
        os.kill(os.getpid(), sg.SIGKILL)

    class Run(am.AeoLiSRunner):
        calls = 0
        nup = 0

        def update(self, *x, **k):
            if at == 'step' and self.nup == nsteps:
                die()
            super().update(*x, **k)
            self.nup += 1
            if at == 'write' and self.nup == nsteps:
                die()

        def output_write(self):
            if at == 'write' and self.nup == nsteps:
                die()
            super().output_write()
            if at == 'written' and self.nup == nsteps:
                die()

    def cb(m):
        if at == 'callback' and m.nup == nsteps:
            die()
    pid = os.fork()
    if pid == 0:
        code = 9
        try:
            m = runner(d, Run)
            np.random.seed(3)
            with quiet():
                m.run(callback=cb)
            code = 0
        except BaseException:
            code = 7
        finally:
            os._exit(code)
    _, st = os.waitpid(pid, 0)
    return st


def saved(d):
    out = []
    for f in sorted(os.listdir(d)):
        if '.r' in f and f.split('.r')[-1].isdigit():
            with open(os.path.join(d, f), 'rb') as fp_:
                x = pickle.load(fp_)
            out.append(dict(label=float(f.split('.r')[-1]), t=float(x['t']), s={k: np.array(x['s'][k]).ravel() for k in WATCH}))
    return sorted(out, key=lambda o: o['label'])


KINDS = ['plain', 'moist', 'veg', 'avalanche', '2d', 'ne', 'fence']
for n, sc in enumerate(a.scenarios):
    if n % a.n != a.k:
        continue
    kind = KINDS[(n // a.n + a.k) % len(KINDS)]
    dt, late = 60., rng.random() < .25
    off = 20000007. if late else 0.
    cfg = base(**dict(case(kind, rng, nr), dt=dt, tstart=off + sc['start'] * dt, tstop=off + sc['stop'] * dt, output_times=sc['interval'] * dt, restart=sc['every'] * dt, output_vars=WATCH, scheme='euler_backward', accfac=1.))
    for d in ('ref', 'run'):
        write_case(cfg, d=d)

    def ref():
        np.random.seed(3)
        m = runner('ref')
        m.initialize()
        ts, st = [], []
        for k in range(sc['steps'] + 1):
            if k:
                m.update()
            ts.append(float(m.t))
            st.append(dict(s={v: np.array(m.s[v]).ravel().copy() for v in WATCH}, o={v: np.array(am.AeoLiS.get_var(m, v)).ravel().copy() for v in WATCH}))
        return ts, st
    r, exc = call(ref)
    os.chdir(home)
    st, exc2 = call(child, 'run', sc['at'], sc['steps'])
    os.chdir(home)
    rec = dict(kind='kill', key=nm('kill', a.seed, n), case=kind, exc=exc or exc2, sc=sc, interval=sc['interval'] * dt, every=float(sc['every'] * dt))
    if not rec['exc']:
        # what output_write has finished before the end
        k = sc['steps'] + (0 if sc['at'] == 'write' else 1)

        def look():
            with netCDF4.Dataset('run/aeolis.nc') as nc:
                return dict(times=arr(nc.variables['time']), bounds=arr(nc.variables['time_bounds']), vals={v: [x.ravel() for x in arr(nc.variables[v])] for v in WATCH}), saved('run')
        got, exc = call(look)
        rec.update(exc=exc, ended=int(st), ts=r[0][:k], ref=r[1][:k])
        if not exc:
            rec.update(got=got[0], saved=got[1])
    ev(**rec)
    for d in ('ref', 'run'):
        shutil.rmtree(os.path.join(home, d), ignore_errors=True)

# ------------------------------------------- a record that starts another model
for n in range(30 if a.thorough else 6):
    nx, ny, nl, nf = rng.randint(4, 7), rng.choice([1, 3, 4]), rng.randint(2, 4), rng.randint(2, 3)
    zb = nr.uniform(0., 1., (ny, nx))
    cfg = base(**dict(grid(nx, ny, 1., 1., zb[0] if ny == 1 else zb), nlayers=nl, layer_thickness=.01, grain_size=[2e-4, 3e-4, 4e-4][:nf], grain_dist=[.5, .3, .2][:nf], output_vars=['mass', 'zb', 'Ct', 'thlyr'],
                      tstop=300., dt=60., output_times=60., process_moist=False, process_tide=False, process_wave=False, scheme='euler_backward'))
    how = ['bedcomp', 'bed', 'hotstart'][n % 3]
    ix = rng.choice([-1, -1, 0, 1, 2, -2])
    var = dict(bedcomp='mass', bed='zb').get(how) or rng.choice(['mass', 'Ct', 'thlyr', 'zb'])

    def go():
        write_case(cfg, d='one')
        m = runner('one')
        m.initialize()
        steps(m, 4)
        with netCDF4.Dataset('aeolis.nc') as nc:
            x = arr(nc.variables[var])[ix]
        os.chdir(home)
        c2 = dict(cfg, **{'bedcomp_file': 'dump.txt'} if how == 'bedcomp' else {'bed_file': 'dump.txt'} if how == 'bed' else {})
        write_case(c2, d='two')
        target = 'two/%s.hotstart' % var if how == 'hotstart' else 'two/dump.txt'
        if var == 'mass' and ix == -1 and rng.random() < .5:
            an.dump('one/aeolis.nc', target)
        else:
            an.dump('one/aeolis.nc', target, var=var, ix=ix)
        m = runner('two')
        m.initialize()
        if how == 'hotstart':
            m.load_hotstartfiles()
        return x, np.array(m.s[var])
    r, exc = call(go)
    os.chdir(home)
    ev(kind='dump', key=nm('dump', a.seed, n), how=how, exc=exc, **(dict(rec=r[0].ravel(), got=r[1].ravel(), shapes=list(r[0].shape) == list(r[1].shape)) if r else {}))
    for d in ('one', 'two'):
        shutil.rmtree(os.path.join(home, d), ignore_errors=True)
done(a)
