"""Interrupts and resumes real model runs: behaviours of the specification
(steps, crashes, resumption from restart files) and complete run() loops."""
from dlib import *
from cases import *
import glob
import pickle
import shutil
import aeolis.model as am

a = args()
rng, nr = a.rng, a.np
only = a.rest


def want(k):
    return not only or k in only


def rfiles(d):
    return sorted(glob.glob(os.path.join(d, '*.r[0-9]*')))


def ftime(f):
    return int(f.rsplit('.r', 1)[1])


def unpickle(f):
    with open(f, 'rb') as fp_:
        return pickle.load(fp_)


def start(d, held=()):
    os.chdir(d)
    r, exc = call(am.AeoLiSRunner, 'aeolis.txt')
    if not exc:
        _, exc = call(r.initialize)
    if not exc:
        # variables that are given from outside keep their values
        for v in held:
            r.s[v] = r.s[v] + .01
            r.s.set_immutable(v)
    return r, exc


def step(r, n):
    np.random.seed(1000 + n)
    _, exc = call(r.update)
    if not exc:
        _, exc = call(r.output_write)
    return exc


home = os.getcwd()
KEEP = 9


def reference(cfg, key, held):
    fn = write_case(base(**cfg))
    d = os.path.dirname(fn)
    r, exc = start(d, held)
    ref = []
    if exc:
        os.chdir(home)
        ev(kind='history', key=key, exc=exc, ref=[], ops=[], every=0, dumps=[])
        return None
    ref.append(image(r))
    for n in range(KEEP):
        exc = step(r, n)
        if exc:
            os.chdir(home)
            ev(kind='history', key=key, exc=exc, ref=[], ops=[], every=0, dumps=[])
            return None
        ref.append(image(r))
    os.chdir(home)
    return d, ref, [ftime(f) for f in rfiles(d)]


if want('history'):
    for n, sc in enumerate(a.scenarios):
        if n % a.n != a.k:
            continue
        kind = KINDS[(n // a.n) % len(KINDS)]
        every = rng.choice([1, 2, 2, 3])
        cfg = case(kind, rng, nr)
        cfg['restart'] = every * (80. if kind == 'plain' else cfg['dt']) * cfg.get('accfac', 1.)
        if rng.random() < .2:
            cfg['tstart'] = 600.
        key = 'history-%s-%d-%d' % (kind, a.seed, n)
        held = rng.sample(['Ct', 'moist', 'uth', 'zb', 'Hs', 'zs'], 2) if rng.random() < .4 else []
        got = reference(cfg, key, held)
        if got is None:
            continue
        d0, ref, dumps = got
        fn = write_case(base(**cfg))
        d = os.path.dirname(fn)
        ops = []
        r, exc = start(d, held)
        cnt = 0
        for o in sc['ops']:
            o = dict(o, exc='')
            if o['op'] == 'step':
                if r is None or cnt >= KEEP:
                    continue
                o['exc'] = step(r, cnt)
                cnt += 1
                o['post'] = image(r)
            elif o['op'] == 'crash':
                r = None
                rng.random()
            elif o['op'] == 'start':
                r, o['exc'] = start(d, held)
                cnt = 0
                o['post'] = image(r)
            elif o['op'] == 'resume':
                fs = rfiles(d)
                if not fs:
                    continue
                f = fs[(o['k'] - 1) % len(fs)] if rng.random() < .5 else fs[-1]
                r, exc = start(d)
                o['tt'] = float(unpickle(f)['t'])
                ok, o['exc'] = call(r.load_restartfile, f if rng.random() < .5 else os.path.basename(f))
                o['ok'] = ok is True
                o['at'] = ftime(f)
                o['post'] = image(r)
                ts = [i for i, q in enumerate(ref) if abs(q['t'] - o['tt']) < 1e-6]
                cnt = ts[0] if ts else 0
            elif o['op'] == 'damaged':
                fs = rfiles(d)
                r2, exc = start(d)
                g = 'none.r0000000001'
                if fs and rng.random() < .7:
                    g = 'damaged.bin'
                    b = open(fs[0], 'rb').read()
                    open(g, 'wb').write(b[:rng.choice([0, len(b) // 2, len(b) - 1])])
                before = image(r2)
                ok, o['exc'] = call(r2.load_restartfile, g)
                o['before'], o['post'] = before, image(r2)
            o['files'] = [ftime(f) for f in rfiles(d)]
            ops.append(o)
            if o['exc'] and o['op'] != 'damaged':
                break
        os.chdir(home)
        ev(kind='history', key=key, exc='', every=cfg['restart'], ref=ref, dumps=dumps, ops=ops)
        for x in (d0, d):
            shutil.rmtree(x)

if want('run'):
    for n in range(4 if a.thorough else 1):
        kind = KINDS[(a.k * 3 + n * 5 + a.seed) % len(KINDS)]
        cfg = case(kind, rng, nr)
        if kind == 'veg':
            cfg.update(germinate=0., lateral=0.)
        acc = cfg.get('accfac', 1.)
        cfg.update(restart=2 * (80. if kind == 'plain' else cfg['dt']) * acc, tstop=7.5 * cfg['dt'] * acc)
        out = []
        exc = ''
        for res in (None, 'some'):
            if res:
                fs = rfiles(d)
                if not fs:
                    break
                f = fs[rng.randrange(len(fs))]
            fn = write_case(base(**cfg))
            d = os.path.dirname(fn)
            m, exc = call(am.AeoLiSRunner, fn)
            if not exc:
                _, exc = call(m.run, restartfile=f if res else None)
            os.chdir(home)
            if exc:
                break
            out.append(dict(final=image(m), files=[dict(at=ftime(g), im=image(unpickle(g))) for g in rfiles(d)], at=ftime(f) if res else 0))
        ev(kind='run', key='run-%s-%d-%d' % (kind, a.seed, n), exc=exc, runs=out)
        logging.disable(logging.CRITICAL)
done(a)
