"""Interleaves operations on several real models in one process and repeats the
life of every model alone in a process of its own (forked before any model exists)."""
from dlib import *
from cases import *
import copy
import hashlib
import pickle
import shutil
import importlib
import aeolis.model as am
import aeolis.constants as const

a = args()
rng, nr = a.rng, a.np
LIST = ['plain', 'limit', 'moist', 'infil', 'veg', 'fence', 'avalanche', '2d', 'ne', 'shear']


def dispatchers():
    for m in ('bed', 'hydro', 'avalanching', 'transport', 'threshold', 'wind', 'utils', 'shear', 'vegetation', 'fences', 'erosion', 'model'):
        try:
            mod = importlib.import_module('aeolis.' + m)
        except Exception:
            continue
        for k, f in list(vars(mod).items()):
            if hasattr(f, 'signatures') and hasattr(f, 'compile'):
                yield m, k, f


def child(f, *x):
    """f(*x) in a forked process"""
    out = os.path.abspath('child.json')
    pid = os.fork()
    if pid == 0:
        try:
            r = f(*x)
        except BaseException as e:  # noqa
            r = dict(exc='%s: %s' % (type(e).__name__, str(e)[:200]))
        pickle.dump(r, open(out, 'wb'))
        os._exit(0)
    os.waitpid(pid, 0)
    r = pickle.load(open(out, 'rb'))
    os.remove(out)
    return r


def digest(*ds):
    h = hashlib.sha1()
    for d in ds:
        for k in sorted(d, key=str):
            v = d[k]
            h.update(str(k).encode())
            if isinstance(v, dict):
                h.update(digest(v).encode())
            elif isinstance(v, np.ndarray):
                h.update(str(v.shape).encode() + np.ascontiguousarray(v).tobytes())
            elif isinstance(v, (int, float, str, bool, list, tuple, type(None))):
                h.update(repr(v).encode())
    return h.hexdigest()


def defaults():
    return digest(const.DEFAULT_CONFIG, const.MODEL_STATE, const.INITIAL_STATE)


def act(m, o, age, fn):
    np.random.seed(1000 + age)
    if o == 'create':
        m = am.AeoLiSRunner(fn)
    elif o == 'init':
        m.initialize()
        m.output_write()
    elif o == 'step':
        m.update()
        m.output_write()
    elif o == 'poke':
        m.get_var('zb')[...] += .01
        m.set_var('Ct', m.s['Ct'] * .5)
        if age % 2:
            m.s.set_immutable('Hs')
            m.s.set_immutable('ustar')
    elif o == 'param':
        for k in ('grain_size', 'output_vars', 'external_vars', 'grain_dist', 'output_types'):
            v = m.p.get(k)
            if isinstance(v, list):
                v.append(v[-1] if v else 'nothing')
            elif isinstance(v, np.ndarray) and v.dtype.kind == 'f' and v.ndim == 1 and k == 'grain_size':
                v *= 1.01
        if isinstance(m.p['wind_file'], np.ndarray):
            m.p['wind_file'][:, 1] *= .95
        m.set_var('Cb', 1.3)
    return m


def alone(cfg, ops):
    """the life of one model"""
    fn = write_case(base(**cfg), d='alone')
    fps, exc, m = [], '', None
    os.chdir('alone')
    for k, o in enumerate(ops):
        m2, exc = call(act, m, o, k, fn)
        if exc:
            break
        m = m2
        fps.append(finger(m))
    w = written('.')
    os.chdir('..')
    shutil.rmtree('alone')
    return dict(exc=exc, fps=fps, written=w)


# compile what is compiled at first use before anything is forked
def sigs():
    c = case('moist', rng, nr)
    c['process_scanning'] = True
    fn = write_case(base(**c), d='warm')
    os.chdir('warm')
    m = am.AeoLiSRunner(fn)
    m.initialize()
    m.update()
    m.update()
    return [(k, f, d.signatures) for k, f, d in dispatchers()]


with quiet():
    r = child(sigs)
if isinstance(r, list):
    D = {(k, f): d for k, f, d in dispatchers()}
    for k, f, ss in r:
        for x in ss:
            try:
                D[k, f].compile(x)
            except Exception:
                pass

home = os.getcwd()
for n, sc in enumerate(a.scenarios):
    if n % a.n != a.k:
        continue
    N = 1 + max(o['i'] for o in sc['ops'])
    pool = [LIST[(3 * n + j) % len(LIST)] for j in range(3)] + [rng.choice(LIST)]
    if n % 2:
        # models of the same kind with different parameters
        pool = [rng.choice(['shear', 'shear', pool[0]])] * 4
    cfgs = {}
    ops = sc['ops']
    # the lives of every model
    lives = [[] for _ in range(3)]
    for o in ops:
        if o['c'] not in cfgs:
            kind = pool[o['c'] % len(pool)]
            own = dict(dx=[1., .5, 2.][o['c'] % 3], dy=[1., .5, 1.][o['c'] % 3], alfa=[20., 0., 10.][o['c'] % 3]) if kind == 'shear' else {}
            cfgs[o['c']] = (kind, dict(case(kind, rng, nr), output_times=rng.choice([60., 240., 500.]), output_vars=['zb', 'Ct', 'uw', 'zb_avg', 'Ct_sum', 'zb_var', 'uw_max'], **own))
            q = rng.choice([1., .5, .01, .003])
            for k in ('wind_file', 'tide_file', 'wave_file', 'meteo_file'):
                if k in cfgs[o['c']][1]:
                    # series of different length, some start again during the run
                    x = cfgs[o['c']][1][k].copy()
                    x[:, 0] *= q
                    cfgs[o['c']][1][k] = x
        if o['op'] == 'create':
            lives[o['i'] - 1].append((o['c'], []))
        lives[o['i'] - 1][-1][1].append(o['op'])
    solo = []
    for i in range(3):
        L = []
        for c, h in lives[i]:
            one = child(alone, cfgs[c][1], h)
            two = child(alone, cfgs[c][1], h)
            for q in (one, two):
                q.setdefault('fps', [])
            L.append(dict(one, again=dict(two)))
        solo.append(L)

    def together():
        deflt = defaults()
        ms, ages, dirs, files, outs = [None] * 3, [0] * 3, [None] * 3, [None] * 3, [None] * 3
        out = []
        for k, o in enumerate(ops):
            i = o['i'] - 1
            if o['op'] == 'create':
                ages[i] = 0
                # models with the same configuration share their input files
                dirs[i] = os.path.join(home, 'm%d' % o['c'])
                files[i] = write_case(base(**cfgs[o['c']][1]), d=dirs[i])
                text_ = open(files[i]).read()
                files[i] = os.path.join(dirs[i], 'model%d_%d.txt' % (i, k))
                outs[i] = 'out%d_%d.nc' % (i, k)
                open(files[i], 'w').write(text_.replace('output_file = aeolis.nc', 'output_file = ' + outs[i]))
            os.chdir(dirs[i])
            m, exc = call(act, ms[i], o['op'], ages[i], files[i])
            os.chdir(home)
            ages[i] += 1
            if exc and len(out):
                # what fails alone fails here too: end of the history
                lv = [x for x in solo[i] if x['exc'] == exc]
                if lv:
                    break
            if not exc:
                ms[i] = m
            out.append(dict(o, case=cfgs[o['c']][0], exc=exc, fp=finger(m) if not exc else 0, deflt=defaults(),
                            hash=['' if q is None else digest(dict(s=q.s, l=q.l, p=q.p, c=q.c, o=q.o, t=float(q.t), dt=float(q.dt))) for q in ms]))
            if exc:
                break
        last = []
        for i in range(3):
            if ms[i] is not None and len(out) == len(ops) and solo[i] and not solo[i][-1]['exc']:
                last.append(dict(got=written(dirs[i], outs[i]), alone=solo[i][-1]['written']))
        return dict(ops=out, deflt=deflt, written=last)
    r = child(together)
    for d in os.listdir(home):
        if d.startswith('m') and os.path.isdir(d):
            shutil.rmtree(os.path.join(home, d))
    ev(kind='schedule', key='schedule-%d-%d' % (a.seed, n), solo=solo, **(r if 'ops' in r else dict(ops=[dict(i=1, op='create', case='plain', exc=r['exc'], hash=[], deflt='')], deflt='', written=[])))
done(a)
