"""Complete runs of the real runner (AeoLiSRunner.run) with hot start files, restart files and
callbacks, next to the same model stepped by hand."""
from dlib import *
from cases import *
import logging
import pickle
import shutil
import aeolis.model as am

a = args()
rng, nr = a.rng, a.np
LIST = ['plain', 'limit', 'moist', 'infil', 'veg', 'fence', 'avalanche', '2d', 'ne']
CALLS = []
home = os.getcwd()
CB = 'import sys\n\n\ndef tick(model):\n    sys.modules["__main__"].tick(model)\n\n\ndef other(model):\n    raise RuntimeError("wrong function")\n'


MOVE = {}


def change(m, n):
    """what the callback does"""
    if n in MOVE:
        m.set_var('tstop', MOVE[n])
    m.set_var('zb', m.get_var('zb') + 1e-3)
    m.set_var('Tdry', m.get_var('Tdry') * 1.01)


def tick(m):
    n = len(CALLS)
    np.random.seed(500 + n)
    CALLS.append(dict(t=float(m.t), tstop=float(m.p['tstop']), fp=finger(m), cwd=os.path.basename(os.getcwd())))
    change(m, n)


def unhandle():
    import aeolis
    for h in list(am.logger.handlers):
        h.close()
        am.logger.removeHandler(h)


def prepare(d, cfg, o, hot):
    """the folder of a model: configuration, hot start files, callback, restart file"""
    fn = write_case(base(**cfg), d=d)
    os.chdir(d)
    if o['cb'] in ('string', 'config'):
        open('cb.py', 'w').write(CB)
    if o['restart'] == 'file':
        m = am.AeoLiSRunner('aeolis.txt')
        m.initialize()
        m.output_write()
        for k in range(2):
            np.random.seed(k)
            m.update()
            m.output_write()
        with open('start.r', 'wb') as fp_:
            pickle.dump(dict(t=m.t, dt=m.dt, p=m.p, s=m.s, l=m.l, c=m.c), fp_)
    for v, x in hot.items():
        np.savetxt(v + '.hotstart', x, fmt='%.17g')
    os.chdir(home)
    return fn


def hand(d, cfg, o, hot, param):
    """the same model stepped by hand"""
    prepare(d, cfg, o, hot)
    write_case(base(**dict(cfg, **param)), d=d)
    os.chdir(d)
    np.random.seed(99)
    m = am.AeoLiSRunner('aeolis.txt')
    m.initialize()
    shapes = {v: m.s[v].shape for v in hot if v in m.s}
    initial = fp({v: m.s[v] for v in m.s.keys()})
    for v, s in shapes.items():
        m.s[v] = hot[v].reshape(s).copy()
        m.s.set_immutable(v)
    if o['restart'] == 'file':
        with open('start.r', 'rb') as fp_:
            st = pickle.load(fp_)
        m.t, m.dt, m.p, m.s, m.l, m.c = st['t'], st['dt'], st['p'], st['s'], st['l'], st['c']
        m.trestart = m.t
    begin = finger(m)
    loaded = {v: m.s[v].ravel().copy() for v in shapes}
    m.output_write()
    pre = []
    while m.t <= m.p['tstop'] and len(pre) < 200:
        if o['cb'] in ('function', 'string', 'config'):
            np.random.seed(500 + len(pre))
        pre.append(dict(t=float(m.t), fp=finger(m)))
        if o['cb'] in ('function', 'string', 'config'):
            change(m, len(pre) - 1)
        m.update()
        m.output_write()
    os.chdir(home)
    return dict(initial=initial, begin=begin, loaded=loaded, pre=pre, final=finger(m), written=written(d))


def run(d, cfg, o, hot, param):
    del CALLS[:]
    if o['cfg'] == 'missing':
        os.makedirs(d, exist_ok=True)
        fn = os.path.join(d, 'nothere.txt')
    else:
        fn = prepare(d, cfg, o, hot)
    where = home if o['away'] else os.path.join(home, d)
    os.chdir(where)
    old = open(fn).read() if os.path.exists(fn) else ''
    m = am.AeoLiSRunner(os.path.relpath(fn, where))
    if param:
        m.set_params(**param)
    cb = dict(function=tick, string='cb.py:tick', missing='nothere.py:tick').get(o['cb'])
    np.random.seed(99)
    try:
        m.run(callback=cb, restartfile=dict(file='start.r', missing='nothere.r').get(o['restart']))
    finally:
        unhandle()
        logging.disable(logging.CRITICAL)
    bak = [f for f in sorted(os.listdir(os.path.join(home, d))) if '~' in f]
    return dict(final=finger(m), cwd=os.getcwd() == where, backup=[open(os.path.join(home, d, b)).read() == old for b in bak], same=open(fn).read() == old)


def kind_of(exc):
    n = exc.split(':')[0]
    return 'OSError' if n in ('OSError', 'IOError', 'FileNotFoundError') else n


EMPTY = dict(initial=dict(num={}, txt={}), begin=0, loaded={}, pre=[], final=0, written=dict(num={}, txt={}))
for n, sc in enumerate(a.scenarios):
    if n % a.n != a.k:
        continue
    o = sc['opt']
    key = 'run-%d-%d' % (a.seed, n)
    kind = LIST[n % len(LIST)] if n < 2 * len(LIST) else rng.choice(LIST)
    dt = rng.choice([60., 100., 120.])
    tstart = rng.choice([0., 0., 40., 3600.])
    cfg = dict(case(kind, rng, nr), dt=dt, tstart=tstart, tstop=tstart + rng.choice([0, 3, 4.5, 5]) * dt, output_times=rng.choice([1., 2., 2.5]) * dt, output_vars=['zb', 'Ct', 'mass', 'uw', 'zb_avg', 'Ct_sum'])
    if kind == 'plain':
        cfg['scheme'] = rng.choice(['euler_backward', 'crank_nicolson'])
    if o['cb'] == 'config':
        cfg['callback'] = 'cb.py:tick'
    hot = {}
    if o['cfg'] == 'file':
        probe, exc = call(model, dict(cfg, callback=None))
        if exc:
            ev(kind='run', key=key, case=kind, opt=o, exc=exc, calls=[], hand=EMPTY, got=0, hot={}, hand_exc=exc)
            continue
        for v in o['hot']:
            if v == 'unknown':
                hot[v] = nr.uniform(0, 1, 5)
            else:
                x = np.asarray(probe.s[v], dtype=float)
                y = x + np.abs(nr.uniform(.001, .01, x.shape)) if v != 'mass' else x * nr.uniform(.5, 1., x.shape)
                # any text layout of the same values
                hot[v] = y.reshape(rng.choice([(-1, 1), (1, -1), (x.shape[0], -1)]))
    MOVE.clear()
    if rng.random() < .4:
        # the callback moves the end of the run
        MOVE[rng.choice([0, 1, 2])] = tstart + rng.choice([1.5, 4.2, 6., 8.]) * dt
    param = dict(accfac=2.5, tstop=tstart + 4. * dt) if o['param'] else {}
    h, hexc = (EMPTY, '') if o['cfg'] == 'missing' or o['cb'] == 'missing' or o['restart'] == 'missing' else call(hand, 'hand%d' % n, cfg, o, hot, param)
    os.chdir(home)
    r, exc = call(run, 'run%d' % n, cfg, o, hot, param)
    os.chdir(home)
    logging.disable(logging.CRITICAL)
    ev(kind='run', key=key, case=kind, tstop=cfg['tstop'] if o['restart'] == 'file' else param.get('tstop', cfg['tstop']), opt=o, exc=exc, raised=kind_of(exc) if exc else '', hand_exc=hexc, hand=h or EMPTY, calls=list(CALLS), got=r if r else 0,
       written=written('run%d' % n), hot={v: x.ravel() for v, x in hot.items() if v in (h or EMPTY)['loaded']})
    for d in ('hand%d' % n, 'run%d' % n):
        shutil.rmtree(os.path.join(home, d), ignore_errors=True)
done(a)
