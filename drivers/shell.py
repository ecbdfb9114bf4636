"""Sequences of commands of the aeolis command line and of the user, with the files they leave."""
from dlib import *
from cases import *
import filecmp
import hashlib
import logging
import pickle
import shutil
import aeolis
import aeolis.console as console
import aeolis.model as am

a = args()
rng, nr = a.rng, a.np
home = os.getcwd()
PKG = os.path.join(os.path.dirname(aeolis.__file__), 'examples')
EX = dict(ex1=('Parabolic_dune', os.path.join(PKG, '2D', 'Parabolic_dune')), ex2=('sandengine_small_grids', os.path.join(PKG, 'sandengine_small_grids')))
CB = 'def tick(model):\n    model.set_var("zb", model.get_var("zb") + 1e-3)\n'


def unhandle():
    for h in list(am.logger.handlers):
        h.close()
        am.logger.removeHandler(h)
    logging.disable(logging.CRITICAL)


def configs():
    """two configurations of the same folder: the files they name are all there"""
    out = {}
    for k, tstop in (('c1', 300.), ('c2', 420.)):
        c = case(rng.choice(['limit', 'ne']), rng, nr)
        out[k] = base(**dict(c, tstop=tstop, output_times=120., output_vars=['zb', 'Ct', 'uw', 'zb_avg']))
    return out


def folder(d, cfgs):
    """model folder with both configuration files, the callback and a restart file for each"""
    for k, c in cfgs.items():
        write_case(c, d=os.path.join(d, k))
        t = open(os.path.join(d, k, 'aeolis.txt')).read()
        open(os.path.join(d, k + '.cfg'), 'w').write(t)
    open(os.path.join(d, 'cb.py'), 'w').write(CB)
    os.chdir(d)
    for k in cfgs:
        shutil.copy(k + '.cfg', 'aeolis.txt')
        m = am.AeoLiSRunner('aeolis.txt')
        m.initialize()
        m.update()
        m.update()
        with open(k + '.r', 'wb') as f:
            pickle.dump(dict(t=m.t, dt=m.dt, p=m.p, s=m.s, l=m.l, c=m.c), f)
    for f in ('aeolis.nc', 'aeolis.txt'):
        os.remove(f)
    os.chdir(home)


def read_nc(f):
    import netCDF4
    with netCDF4.Dataset(f) as nc:
        return {k: np.ma.filled(v[...].astype(float), np.nan) for k, v in nc.variables.items() if v.dtype.kind in 'fi'}


def same(x, y):
    return sorted(x) == sorted(y) and all(x[k].shape == y[k].shape and np.allclose(x[k], y[k], rtol=1e-6, atol=1e-12, equal_nan=True) for k in x)


def references(d, cfgs):
    """what a run gives when the runner is used directly"""
    ref = {}
    for k in cfgs:
        for how, kw in (('plain', {}), ('callback', dict(callback='cb.py:tick')), ('restart', dict(restartfile=k + '.r'))):
            os.chdir(d)
            shutil.copy(k + '.cfg', 'aeolis.txt')
            am.AeoLiSRunner('aeolis.txt').run(**kw)
            unhandle()
            os.chdir(home)
            ref['r:%s:%s' % (k, how)] = read_nc(os.path.join(d, 'aeolis.nc'))
            for f in ('aeolis.nc', 'aeolis.log', 'aeolis.txt'):
                os.remove(os.path.join(d, f))
    return ref


def tree(d):
    return sorted(os.path.relpath(os.path.join(r, f), d) for r, _, fs in os.walk(d) for f in fs)


def digest(f):
    return hashlib.sha1(open(f, 'rb').read()).hexdigest()


def token_nc(f, ref):
    if not os.path.exists(f):
        return 'none'
    if open(f, 'rb').read(4) == b'mine':
        return 'mine'
    try:
        x = read_nc(f)
    except Exception:
        return 'broken'
    for k, r in ref.items():
        if same(x, r):
            return k
    return 'empty' if len(x.get('time', [1])) == 0 else 'unknown'


def token_wind(f):
    if not os.path.exists(f):
        return 'none'
    t = open(f).read()
    if t == 'mine':
        return 'mine'
    try:
        x = np.loadtxt(f, ndmin=2)
        return 'series' if x.shape[1] >= 2 and np.all(np.diff(x[:, 0]) > 0) and x[-1, 0] >= 600. and x[1, 0] - x[0, 0] == 20. and np.all((x[:, 1] >= 0) & (x[:, 1] <= 9.)) else 'unknown'
    except Exception:
        return 'unknown'


def token_ex(name, source, root):
    d = os.path.join(root, 'out', 'aeolis-examples', name)
    if not os.path.exists(d):
        return 'none'
    if tree(d) == tree(source) and all(filecmp.cmp(os.path.join(d, f), os.path.join(source, f), shallow=False) for f in tree(d)):
        return 'ex'
    return 'mine' if any(open(os.path.join(d, f), 'rb').read().endswith(b'edited') for f in tree(d)) else 'unknown'


OWN = ('model/aeolis.txt', 'model/aeolis.nc', 'model/aeolis.log', 'wind.txt')


def others(root):
    return {f: digest(os.path.join(root, f)) for f in tree(root) if f not in OWN and not f.startswith('out/aeolis-examples/Parabolic_dune/') and not f.startswith('out/aeolis-examples/sandengine_small_grids/')}


def observe(root, ref, cfgs, before):
    cfg = os.path.join(root, 'model', 'aeolis.txt')
    t = open(cfg).read() if os.path.exists(cfg) else ''
    now = others(root)
    log = os.path.join(root, 'model', 'aeolis.log')
    return dict(cfg='none' if not t else next((k for k in cfgs if open(os.path.join(root, 'model', k + '.cfg')).read() == t), 'unknown'), nc=token_nc(os.path.join(root, 'model', 'aeolis.nc'), ref),
                log='log' if os.path.exists(log) and os.path.getsize(log) else 'none', wind=token_wind(os.path.join(root, 'wind.txt')), other='mine' if now == before else 'changed', **{k: token_ex(n, s, root) for k, (n, s) in EX.items()})


def entry(f, argv):
    old = sys.argv
    sys.argv = ['aeolis'] + argv
    logging.disable(logging.NOTSET)
    try:
        f()
        return 0
    except SystemExit as e:
        return e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
    finally:
        sys.argv = old


def command(root, c, cfg):
    do, how = c['do'], c['how']
    where = os.path.join(root, 'model') if c['from'] == 'folder' else root
    os.chdir(where)
    model = os.path.relpath(os.path.join(root, 'model', 'aeolis.txt'), where) if rng.random() < .7 else os.path.join(root, 'model', 'aeolis.txt')
    if do == 'run':
        k = cfg if cfg in ('c1', 'c2') else 'c1'
        opt = {'plain': [], 'callback': ['--callback', 'cb.py:tick'], 'restart': ['--restart', k + '.r'], 'no-callback': ['--callback', 'nothere.py:tick'], 'no-restart': ['--restart', 'nothere.r']}[how]
        argv = ['run', model] + opt if rng.random() < .5 else ['run'] + opt + [model]
    elif do == 'wind':
        argv = ['wind', 'wind.txt', '--mean', '4', '--max', '9', '--duration', '600', '--timestep', '20']
    elif do == 'examples':
        argv = ['examples', 'out']
    elif do == 'old-run':
        argv = [model]
    elif do == 'old-wind':
        return entry(console.start_aeolis_wind_app, ['wind.txt'])
    else:
        argv = dict(unknown=['nothing', model], help=rng.choice([['--help'], ['run', '--help']]))[do] if do != 'no-argument' else [rng.choice(['run', 'wind', 'examples'])]
    return entry(console.start_aeolis_app, argv)


def user(root, do, cfgs, cfg):
    e1 = os.path.join(root, 'out', 'aeolis-examples', EX['ex1'][0])
    e2 = os.path.join(root, 'out', 'aeolis-examples', EX['ex2'][0])
    f = os.path.join(root, 'model', 'aeolis.txt')
    if do == 'edit-ex1' and os.path.isdir(e1):
        with open(os.path.join(e1, rng.choice(tree(e1))), 'ab') as fp_:
            fp_.write(b'edited')
    elif do in ('remove-ex1', 'remove-ex2'):
        shutil.rmtree(e1 if do == 'remove-ex1' else e2, ignore_errors=True)
    elif do == 'other-cfg':
        shutil.copy(os.path.join(root, 'model', ('c2' if cfg == 'c1' else 'c1') + '.cfg'), f)
    elif do == 'remove-cfg' and os.path.exists(f):
        os.remove(f)
    elif do == 'own-nc':
        open(os.path.join(root, 'model', 'aeolis.nc'), 'w').write('mine')
    elif do == 'own-wind':
        open(os.path.join(root, 'wind.txt'), 'w').write('mine')
    return 0


mine = [(n, sc) for n, sc in enumerate(a.scenarios) if n % a.n == a.k]
for at in range(0, len(mine), 4):
    cfgs = configs()
    with quiet():
        folder('proto', cfgs)
        ref = references(os.path.join(home, 'proto'), cfgs)
    for n, sc in mine[at:at + 4]:
        root = os.path.join(home, 'root%d' % n)
        os.makedirs(root)
        shutil.copytree(os.path.join(home, 'proto'), os.path.join(root, 'model'))
        shutil.copy(os.path.join(root, 'model', 'c1.cfg'), os.path.join(root, 'model', 'aeolis.txt'))
        open(os.path.join(root, 'notes.txt'), 'w').write('mine')
        os.makedirs(os.path.join(root, 'out'), exist_ok=True)
        open(os.path.join(root, 'out', 'notes.txt'), 'w').write('mine')
        before = others(root)
        fs = observe(root, ref, cfgs, before)
        first, steps = fs, []
        hist = [x for c in sc['hist'] for x in ([c] if rng.random() < .8 else [dict(do='examples', how='plain', **{'from': 'here'}), c])]
        for c in hist:
            users = c['do'] in ('edit-ex1', 'remove-ex1', 'remove-ex2', 'other-cfg', 'remove-cfg', 'own-nc', 'own-wind')
            r, exc = call(user, root, c['do'], cfgs, fs['cfg']) if users else call(command, root, c, fs['cfg'])
            where = os.getcwd()
            os.chdir(home)
            unhandle()
            fs = observe(root, ref, cfgs, before)
            steps.append(dict(c=c, ok=exc == '' and r == 0, fs=fs, exc=exc, timeout=exc.startswith('Timeout'), back=users or os.path.relpath(where, root) == ('model' if c['from'] == 'folder' else '.')))
        ev(kind='shell', key='shell-%d-%d' % (a.seed, n), first=first, steps=steps)
        shutil.rmtree(root, ignore_errors=True)
    shutil.rmtree(os.path.join(home, 'proto'), ignore_errors=True)
done(a)
