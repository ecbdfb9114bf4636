"""Helpers for drivers: exercise the real AeoLiS code and record events.
A driver never judges anything; it records inputs and outputs."""
import argparse
import contextlib
import io
import json
import logging
import os
import random
import resource
import signal
import sys

import numpy as np

logging.disable(logging.CRITICAL)
np.seterr(all='ignore')


class Args:
    pass


def args(*extra):
    ap = argparse.ArgumentParser()
    ap.add_argument('--out')
    ap.add_argument('--work')
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--scen')
    ap.add_argument('--part', default='0/1')
    ap.add_argument('rest', nargs='*')
    a = ap.parse_args()
    a.k, a.n = map(int, a.part.split('/'))
    a.thorough = a.tier == 'thorough'
    a.rng = random.Random(a.seed)
    a.np = np.random.RandomState(a.seed)
    a.scenarios = json.load(open(a.scen)) if a.scen else []
    os.chdir(a.work)
    _A['a'] = a
    # code that never ends is stopped (also where no signal handler can run)
    lim = 2400 if a.thorough else 400
    resource.setrlimit(resource.RLIMIT_CPU, (lim, lim + 30))
    return a


EVENTS = []


def snap(v):
    if isinstance(v, np.ndarray):
        return tolist(v)
    if isinstance(v, dict):
        return {str(k): snap(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [snap(x) for x in v]
    return v


def ev(**kw):
    EVENTS.append({k: snap(v) for k, v in kw.items()})


class Enc(json.JSONEncoder):
    def default(self, o):
        if isinstance(o, np.ndarray):
            return tolist(o)
        if isinstance(o, np.bool_):
            return bool(o)
        if isinstance(o, np.integer):
            return int(o)
        if isinstance(o, np.floating):
            return float(o)
        if isinstance(o, (set, frozenset)):
            return sorted(o)
        return str(o)


def tolist(a):
    a = np.asarray(a)
    if a.dtype == bool:
        return a.tolist()
    if np.iscomplexobj(a):
        a = a.real
    if a.dtype.kind in 'fiu':
        return a.astype(float).tolist()
    return a.tolist()


_A = {}


def _hook(t, v, tb):
    """An exception that escapes from the code under test where the driver did
    not expect one is an observation, not a failure of the driver."""
    import traceback
    frames = traceback.extract_tb(tb)
    if 'a' in _A and isinstance(v, Exception) and any('/aeolis/' in f.filename and '/verif/' not in f.filename for f in frames):
        EVENTS.append(dict(key='escaped:%s' % frames[0].lineno, escaped=True, exc='%s: %s' % (t.__name__, str(v)[:200]),
                           where=[('%s:%s' % (os.path.basename(f.filename), f.name)) for f in frames][-3:]))
        json.dump(EVENTS, open(_A['a'].out, 'w'), cls=Enc)
        sys.__excepthook__(t, v, tb)
        sys.stderr.flush()
        os._exit(0)
    sys.__excepthook__(t, v, tb)


sys.excepthook = _hook


def done(a):
    if os.environ.get('VERIF_CPULOG'):
        open(os.environ['VERIF_CPULOG'], 'a').write('%s %s %.0f\n' % (sys.argv[0], a.rest, sum(os.times()[:2])))
    json.dump(EVENTS, open(a.out, 'w'), cls=Enc)
    sys.exit(0)


class Timeout(Exception):
    pass


@contextlib.contextmanager
def limit(seconds):
    def h(*_):
        raise Timeout('no answer within %d s' % seconds)
    old = signal.signal(signal.SIGALRM, h)
    signal.alarm(seconds)
    try:
        yield
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        yield


def call(f, *a, seconds=120, **k):
    """(result, '') or (None, 'ExceptionName: text')"""
    try:
        with limit(seconds), quiet():
            return f(*a, **k), ''
    except SystemExit as e:
        return None, 'SystemExit: %s' % e
    except Exception as e:  # noqa
        return None, '%s: %s' % (type(e).__name__, str(e)[:200])


def nm(kind, seed, i):
    return '%s-%d-%d' % (kind, seed, i)


# --------------------------------------------------------------- model set-ups
_cfg_n = [0]


def write_case(cfg, files=None, d=None):
    """Writes an AeoLiS case into a fresh directory below the working
    directory; arrays in cfg become files.  Returns the configfile path."""
    _cfg_n[0] += 1
    d = d or 'case%04d' % _cfg_n[0]
    os.makedirs(d, exist_ok=True)
    lines = []
    for k, v in cfg.items():
        if isinstance(v, np.ndarray):
            fn = os.path.abspath(os.path.join(d, k + '.txt'))
            np.savetxt(fn, v, fmt='%.17g')
            v = fn
        elif isinstance(v, bool):
            v = 'T' if v else 'F'
        elif isinstance(v, (list, tuple)):
            v = ' '.join(num(x) for x in v)
        elif v is None:
            v = 'None'
        else:
            v = num(v)
        lines.append('%s = %s' % (k, v))
    fn = os.path.join(os.path.abspath(d), 'aeolis.txt')
    with open(fn, 'w') as fp:
        fp.write('\n'.join(lines) + '\n')
    return fn


def num(x):
    """A number in the notation the configuration format understands."""
    if isinstance(x, (float, np.floating)):
        s = repr(float(x))
        if 'e' in s or 'E' in s:
            s = '%.25f' % x
        return s
    return str(x)


def grid(nx=5, ny=2, dx=1., dy=1., zb=None):
    """nx, ny: number of points in x and y (ny=1 gives a 1D case); the origin lies outside the grid"""
    x = np.arange(nx) * dx + 64.
    y = np.arange(ny) * dy + 32.
    if ny == 1:
        return dict(xgrid_file=x, ygrid_file=np.zeros(nx), bed_file=np.zeros(nx) if zb is None else zb)
    X, Y = np.meshgrid(x, y)
    return dict(xgrid_file=X, ygrid_file=Y, bed_file=np.zeros((ny, nx)) if zb is None else zb)


OUTV = ['zb', 'zs', 'Ct', 'Cu', 'uw', 'udir', 'uth', 'mass', 'pickup', 'w']


def base(**kw):
    c = dict(nx=1, ny=1, output_vars=list(OUTV), wind_convention='cartesian',
             wind_file=np.array([[0., 10., 0.], [1e6, 10., 0.]]))
    c.update(kw)
    if np.ndim(c.get('xgrid_file', 0)) == 2:
        c['ny'], c['nx'] = np.array(c['xgrid_file'].shape) - 1
    elif 'xgrid_file' in c:
        c['nx'], c['ny'] = len(c['xgrid_file']) - 1, 0
    return c


def model(cfg, cls=None):
    import aeolis.model as am
    fn = write_case(cfg)
    old = os.getcwd()
    os.chdir(os.path.dirname(fn))
    try:
        with quiet():
            m = (cls or am.AeoLiS)('aeolis.txt')
            m.initialize()
    finally:
        os.chdir(old)
    return m
