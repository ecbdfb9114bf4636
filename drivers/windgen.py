"""Builds real wind generators, generates series, writes them and uses the files."""
from dlib import *
from cases import *
import aeolis.model as am
import aeolis.console as console
import inspect

a = args()
rng, nr = a.rng, a.np


def params(k):
    mx = rng.choice([8, 10., 20., 25.5, 30., 45.])
    return dict(mean_speed=rng.choice([.2, .3, .4]) * mx, max_speed=mx, dt=rng.choice([1, 10., 60., 600, 3600.]),
                n_states=rng.choice([1, 2, 3, 5, 7, 11, 16, 23, 30]), shape=rng.choice([1.5, 2., 2., 2.5, 3]), scale=rng.choice([1.8, 2., 2.2]))


def series(q, w):
    t, u = w.get_time_series()
    return dict(duration=q, t=t, u=u, states=[int(s) + 1 for s in w.states], r1=list(w.randoms1), r2=list(w.randoms2),
                item=[float(w[0]), float(w[len(u) - 1])])


def use(fn, T):
    """the file as wind input of a model"""
    d = os.path.dirname(os.path.abspath(fn))
    cfg = write_case(base(**dict(case('plain', rng, nr), wind_file=os.path.abspath(fn), tstop=T, dt=T / 4, accfac=1., wind_convention='nautical')), d=d)
    m = am.AeoLiSRunner(cfg)
    m.initialize()
    out = []
    for _ in range(3):
        m.update()
        out.append(dict(t=float(m.t), uw=float(m.s['uw'].ravel()[0]), udir=float(m.s['udir'].ravel()[0])))
    return dict(table=np.asarray(m.p['wind_file']), steps=out)


N = 240 if a.thorough else 72
for n in range(N):
    if n % a.n != a.k:
        rng.random(); params(n); continue
    np.random.seed(a.seed * 1000 + n)
    q = params(n)
    w, exc = call(am.WindGenerator, **q)
    e = dict(kind='chain', key='chain-%d-%d' % (a.seed, n), g=dict(n=q['n_states'], max=q['max_speed'], dt=q['dt'], mean=q['mean_speed'], shape=q['shape'], scale=q['scale']),
             exc=exc, cum=[], runs=[], file=[], used=0, hasused=False)
    if not exc:
        e['cum'] = np.asarray(w.MTMcum)
        for _ in range(2):
            D = rng.choice([1, .5, 3, 17, 40]) * q['dt'] + rng.choice([0, 0, .5])
            w2, e['exc'] = call(w.generate, duration=D)
            if e['exc']:
                break
            e['runs'].append(series(D, w))
        if not e['exc']:
            os.makedirs('f%d' % n, exist_ok=True)
            fn = 'f%d/wind.txt' % n
            _, e['exc'] = call(w.write_time_series, fn)
            e['file'] = [[float(x) for x in l.split()] for l in open(fn) if l.strip() and not l.startswith('#')]
            if len(e['file']) > 2 and n % 3 == 0:
                T = e['file'][-1][0]
                with quiet():
                    r, x = call(use, fn, T)
                e['used'] = r if not x else dict(table=[], steps=[])
                e['exc'] = x
                e['hasused'] = not x
    ev(**e)
    # the command
    if n % 4 == 0:
        os.makedirs('c%d' % n, exist_ok=True)
        fn = os.path.abspath('c%d/w.txt' % n)
        c = dict(mean=rng.choice([3., 6., 8.]), max=rng.choice([15., 25., 30.]), duration=rng.choice([60, 600, 3601, 7200]), timestep=rng.choice([10, 60, 61, 600]))
        buf = io.StringIO()

        def said_():
            with contextlib.redirect_stdout(buf):
                console.wind(fn, **c)
        _, x = call(said_)
        said = {}
        for l in buf.getvalue().splitlines():
            p = l.split()
            if len(p) >= 3 and p[0] in ('min', 'mean', 'max') and p[1] == ':':
                said[p[0]] = float(p[2])
        ev(kind='command', key='command-%d-%d' % (a.seed, n), g=dict(n=30, max=c['max'], dt=c['timestep'], mean=c['mean'], shape=2, scale=2), duration=c['duration'], exc=x, said=said,
           file=[[float(x) for x in l.split()] for l in open(fn)] if os.path.exists(fn) else [])
done(a)
