"""Reads, writes and checks configuration files with the real code."""
from dlib import *
import io as io_
import aeolis.inout as inout
import aeolis.constants as const
import aeolis.model as am

a = args()
rng, nr = a.rng, a.np
only = a.rest


def want(k):
    return not only or k in only


def typed(v):
    if isinstance(v, (bool, np.bool_)):
        return dict(t='bool', v='T' if v else 'F')
    if isinstance(v, (int, np.integer)):
        return dict(t='int', v=int(v))
    if isinstance(v, (float, np.floating)):
        return dict(t='float', v=float(v))
    if v is None:
        return dict(t='none', v='')
    if isinstance(v, str):
        return dict(t='str', v=str(v))
    v = np.asarray(v)
    if v.dtype.kind == 'c':
        return dict(t='array', shape=list(v.shape), v=np.array([v.real.ravel(), v.imag.ravel()]))
    return dict(t='list', v=[typed(x) for x in v.tolist()]) if v.ndim == 1 else dict(t='array', shape=list(v.shape), v=[v.astype(float).ravel(), np.zeros(v.size)])


def arr(v):
    v = np.asarray(v)
    return dict(t='array', shape=list(v.shape), v=[v.real.astype(float).ravel(), v.imag.astype(float).ravel()])


def parsed(text, **k):
    v, exc = call(inout.parse_value, text, **k)
    return (dict(t='exc', v=exc) if exc else typed(v))


# ------------------------------------------------- all short texts of the model
if want('val'):
    for k in range(0, len(a.scenarios), 50):
        ev(kind='val', key='val-%d' % k, cases=[dict(text=list(t), got=parsed(''.join(t)), many=parsed(''.join(t), force_list=True)) for t in a.scenarios[k:k + 50]])
    W = ['0.1', '1e-3', '-2.5E+4', 'T', 'F', 'true', 'None', 'euler_forward', '12', '-7', '1.', '.5', '-.5', '2020-01-01', '00:00', 'zb', 'Ct_avg', 'wind.txt', 'a:b', '1.2.3', '..', '-', 'e5', '1e', '007', 'None_x', 'T1', '+3', 'nan', '--1', '5e5e5', '1,2']
    for n in range(12 if a.thorough else 4):
        cs = []
        for _ in range(30):
            t = rng.choice(['', ' ', '\t']) + rng.choice([' ', '  ', '\t', ' \t ']).join(rng.choice(W) for _ in range(rng.choice([0, 1, 1, 1, 2, 3, 5]))) + rng.choice(['', ' ', '\n', ' % note = 3', '%'])
            cs.append(dict(text=list(t.replace('\n', ' ')), got=parsed(t), many=parsed(t, force_list=True)))
        ev(kind='val', key=nm('val', a.seed, n), cases=cs)

# ------------------------------------------------------------ configuration files
np.savetxt('table.txt', [[0., 5., 10.], [3600., 6.5, -1e-7]])
np.savetxt('cplx.txt', np.array([[1 + 2j, 3 - .5j], [0, 1j]]))
open('words.txt', 'w').write('hello world\nthis is no number\n')
np.savetxt('tiny.txt', np.array([[1 + 1e-9j, 3], [.25, 1]]))
np.savetxt('row.txt', np.array([.5, -1e300, 7.]))
FILES = ['table.txt', 'cplx.txt', 'tiny.txt', 'row.txt', 'words.txt']
KEYS = ['dt', 'tstop', 'T', 'wind_file', 'solver', 'output_vars', 'new_key', 'grain_size', 'process_wind', 'h', 'nsavetimes', 'restart', 'refdate', 'accfac']
VALS = ['0.1', '60', '60.', '1e-3', 'T', 'F', 'None', '', 'table.txt', 'cplx.txt', 'tiny.txt', 'row.txt', 'words.txt', 'zb zs Ct', '225e-6', '2e-4  4e-4', 'euler_forward', '2020-01-01 00:00', '0', '1\t2', '5 % five', '-3.5e2']
if want('read'):
    for n in range(60 if a.thorough else 20):
        lines = ['z = 7', 'dzb_interval = 3600', 'dt = 30'][:rng.choice([3, 3, 0])]
        for _ in range(rng.randrange(1, 10)):
            r = rng.random()
            if r < .1:
                lines.append('%' * rng.choice([1, 70]) + rng.choice(['', ' dt = 5', ' note']))
            elif r < .2:
                lines.append(rng.choice(['', '   ', 'no setting', '% indented = 1', '  %x = 4']))
            else:
                k = rng.choice(KEYS)
                v = rng.choice(VALS)
                if k in ('h', 'nsavetimes', 'dt'):
                    v = rng.choice(['', '0', '2.5', 'None', '30'])
                if k == 'dt':
                    v = rng.choice(['30', '2.5'])
                lines.append(rng.choice(['', ' ']) + k + rng.choice(['=', ' = ', '   =', '\t= ']) + v + rng.choice(['', ' ', ' = 4' if rng.random() < .2 else '']))
        open('case.cfg', 'w').write('\n'.join(lines) + rng.choice(['', '\n']))
        for defaults in (True, False)[:2 if lines[0] == 'z = 7' else 1]:
            pf = rng.random() < .7
            p, exc = call(inout.read_configfile, 'case.cfg', parse_files=pf, load_defaults=defaults)
            keys = set() if p is None else set(p)
            named = {l.split('=')[0].strip() for l in lines if '=' in l and not l.strip().startswith('%')}
            got = {}
            for k in keys & (named | {'output_file', 'h', 'nsavetimes', 'grain_size', 'grain_dist', 'z'}):
                v = p[k]
                got[k] = arr(v) if isinstance(v, np.ndarray) and v.ndim == 2 else typed(v)
            rest = [k for k in keys if k not in got]
            ev(kind='read', key=nm('read', a.seed, n), exc=exc, lines=[list(l) for l in lines], files=FILES if pf else [], defaults=defaults, got=got,
               table={f: arr(np.loadtxt(f, dtype=complex)) for f in FILES[:4]}, rest=sorted(rest), all=sorted(const.DEFAULT_CONFIG) if defaults else [],
               same=[k for k in rest if k in const.DEFAULT_CONFIG and typed(p[k]) == typed(const.DEFAULT_CONFIG[k])], z=typed(p.get('z') if p else None), dzb=float(p['dzb_interval'] if p else 0),
               dt=float(p['dt']) if p and 'dt' in p else 0., intact=all(typed(v) == typed(D0[k]) for k, v in const.DEFAULT_CONFIG.items()) if 'D0' in globals() else True)
            if 'D0' not in globals():
                import copy
                D0 = copy.deepcopy(const.DEFAULT_CONFIG)
    _, exc = call(inout.read_configfile, 'missing.cfg')
    ev(kind='miss', key=nm('miss', a.seed, 0), raised=exc.split(':')[0])

# ----------------------------------------------------------------- writing and reading
if want('write'):
    for n in range(60 if a.thorough else 20):
        p = {}
        for _ in range(rng.randrange(3, 12)):
            k = rng.choice(['aa', 'b_c', 'x1', 'long_name_of_a_parameter', 'q', 'r', 's', 't9', 'wave_file', 'veg_file', 'tide_mask_file'])
            v = rng.choice([True, False, rng.randrange(-50, 1000), rng.uniform(-1, 1), rng.uniform(0, 1) * 10. ** rng.randrange(-12, 12), 1., 0., 1e-6, 225e-6, 1 / 3., 123456789.123, 'euler_forward', 'zb', None,
                            [rng.uniform(0, 1e-3) for _ in range(rng.randrange(2, 4))], ['zb', 'zs', 'Ct'], [1, 2, 3], np.array([2.5e-4, 1e-8]), [True, False], np.float64(.1), np.int64(5), np.array(['a1', 'b2'])])
            if k.endswith('_file'):
                shp = rng.choice([(3, 2), (4,), (2, 5)])
                v = nr.normal(size=shp) * 10. ** rng.randrange(-8, 8)
                if 'mask' in k:
                    v = v + 1j * nr.normal(size=shp)
            p[k] = v
        _, exc = call(inout.write_configfile, 'w.cfg', dict(p))
        q, exc2 = (None, '') if exc else call(inout.read_configfile, 'w.cfg', load_defaults=False)

        def ty(v):
            return arr(v) if isinstance(v, np.ndarray) and (v.ndim == 2 or v.dtype.kind == 'c') else typed(v)
        ev(kind='write', key=nm('write', a.seed, n), exc=exc + exc2, p={k: ty(v) for k, v in p.items()}, q={k: ty(v) for k, v in (q or {}).items()})
    # the default configuration, and a runner that writes its changed settings
    _, exc = call(inout.write_configfile, 'd.cfg')
    q, exc2 = (None, '') if exc else call(inout.read_configfile, 'd.cfg')
    skip = ('output_file', 'h', 'refdate', 'nsavetimes')
    D = {k: v for k, v in const.DEFAULT_CONFIG.items() if k not in skip}
    ev(kind='write', key=nm('default', a.seed, 0), exc=exc + exc2, p={k: typed(v) for k, v in D.items() if not isinstance(v, list) or len(v) > 1}, q={k: typed(v) for k, v in (q or {}).items() if k in D and (not isinstance(D[k], list) or len(D[k]) > 1)})
    for n in range(4 if a.thorough else 2):
        d = os.path.abspath('run%d' % n)
        os.makedirs(d, exist_ok=True)
        home = os.getcwd()
        os.chdir(d)
        open('r.txt', 'w').write('dt = 20\ntstop = 50\n% old\n')
        old = open('r.txt').read()
        m, exc = call(am.AeoLiSRunner, 'r.txt')
        new = dict(dt=rng.uniform(1, 50), Cb=1 / 3., solver='trunk', new_one=[1., 2.5], process_wind=False)
        changed = n % 2 == 0
        if not exc:
            if changed:
                m.set_params(**new)
            _, exc = call(m.write_params)
        back = sorted(f for f in os.listdir('.') if f.startswith('r.txt~'))
        q, exc2 = call(inout.read_configfile, 'r.txt')
        os.chdir(home)
        ev(kind='params', key=nm('params', a.seed, n), exc=exc + exc2, changed=changed, same=open(os.path.join(d, 'r.txt')).read() == old, backup=[open(os.path.join(d, f)).read() == old for f in back],
           p={k: typed(v) for k, v in new.items()}, q={k: typed(q[k]) if k in q else dict(t='none', v='') for k in new} if q else {})

# ------------------------------------------------------------------------ validity
if want('check'):
    for n in range(40 if a.thorough else 16):
        def tab(good):
            c = rng.choice([None, None, good, good, good + 1, good - 1, 0])
            return None if c is None else np.zeros((3, c)) if c else np.zeros(4)
        c = const.DEFAULT_CONFIG.copy()
        c.update(xgrid_file=rng.choice([np.zeros(5)] * 4 + [None]), bed_file=rng.choice([np.zeros(5)] * 5 + [None, 'bed.txt']), ygrid_file=rng.choice([np.zeros(5)] * 2 + [None]), ny=rng.choice([0, 0, 3]), wind_file=tab(3), tide_file=tab(2), meteo_file=tab(6))
        _, exc = call(inout.check_configuration, c)

        def d(x):
            return dict(dim=x.ndim if isinstance(x, np.ndarray) else 0, cols=x.shape[1] if isinstance(x, np.ndarray) and x.ndim == 2 else 0)
        ev(kind='check', key=nm('check', a.seed, n), exc=exc.split(':')[0], c=dict(x=d(c['xgrid_file']), bed=d(c['bed_file']), y=d(c['ygrid_file']), wind=d(c['wind_file']), tide=d(c['tide_file']), meteo=d(c['meteo_file']), ny=c['ny']))

# -------------------------------------------------------------------------- backups
if want('backup'):
    os.makedirs('bk', exist_ok=True)
    os.chdir('bk')
    open('f.txt', 'w').write('0')
    texts = ['0']
    for n in range(5):
        _, exc = call(inout.backup, 'f.txt')
        open('f.txt', 'w').write(str(n + 1))
        ev(kind='backup', key=nm('backup', a.seed, n), exc=exc, n=n + 1, kept=[int(open(f).read()) for f in sorted(x for x in os.listdir('.') if x.startswith('f.txt~'))])
    os.chdir('..')
done(a)
