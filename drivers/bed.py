"""Drives aeolis.bed.update on generated and random states."""
from dlib import *
import aeolis.bed as bed

a = args()
rng, nr = a.rng, a.np
_cache = {}


def mk(ny, nx, nl, nf, gd, variant, tide, bedupdate, thick, rhog, por):
    cfg = base(**grid(nx, ny), nlayers=nl, grain_size=[0.0002 + 0.0001 * i for i in range(nf)],
               grain_dist=[float(g) for g in gd], layer_thickness=thick, rhog=rhog, porosity=por,
               process_tide=tide, process_bedupdate=bedupdate)
    if tide:
        cfg['tide_file'] = np.array([[0., 0.], [1e6, 0.]])
    if variant == 'layered':
        rows = nr.uniform(0.1, 1., (nl, nf))
        cfg['grain_dist'] = [1.] * nf
    m = model(cfg)
    if variant == 'layered':
        m.p['grain_dist'] = rows
        m.s = bed.initialize(m.s, m.p)
    if variant == 'bedcomp':
        gs = nr.uniform(0.05, 1., (ny, nx, nl, nf))
        gs /= gs.sum(axis=-1, keepdims=True)
        comp = gs * rhog * (1 - por) * thick
        m.p['bedcomp_file'] = comp.reshape(ny, -1)
        m.s = bed.initialize(m.s, m.p)
    return m


def base_dist(m, variant, nc, nf, nl):
    """composition of the sediment source below the bed, per cell"""
    if variant == 'bedcomp':
        g = np.asarray(m.p['bedcomp_file']).reshape(nc, nl, nf)[:, -1, :]
        return g / g.sum(axis=1, keepdims=True)
    g = np.asarray(m.p['grain_dist'], float)
    g = g[-1] if g.ndim == 2 else g
    return np.tile(g / g.sum(), (nc, 1))


def step(m, pickup, key, variant, cells=None):
    s, p = m.s, m.p
    ny, nx, nl, nf = s['mass'].shape
    pre = dict(mass=s['mass'].copy(), zb=s['zb'].copy(), zs=s['zs'].copy())
    s['pickup'] = np.array(pickup, float).reshape(ny, nx, nf)
    pk = s['pickup'].copy()
    p['_time'] = 0.
    r, exc = call(bed.update, s, p)
    if exc:
        ev(key=key, exc=exc)
        return False
    m.s = s = r
    g = base_dist(m, variant, ny * nx, nf, nl)
    for c in (range(ny * nx) if cells is None else cells):
        i, j = divmod(c, nx)
        ev(key='%s-c%d' % (key, c), exc='', variant=variant, nl=nl, nf=nf,
           rho=float(p['rhog'] * (1 - p['porosity'])), eps=float(p['max_error']),
           bedupdate=bool(p['process_bedupdate']), tide=bool(p['process_tide']),
           m=pre['mass'][i, j], pk=pk[i, j], gd=g[c], post=s['mass'][i, j],
           zb=[pre['zb'][i, j], s['zb'][i, j]], zs=[pre['zs'][i, j], s['zs'][i, j]])
    return True


# ---- behaviours of the specification: one cell per behaviour, several steps
for n, sc in enumerate(a.scenarios):
    m = mk(1, 3, sc['nl'], sc['nf'], sc['gd'], 'uniform', False, True, float(sc['mass']) / 100., 100., 0.)
    for k, pk in enumerate(sc['steps']):
        full = np.zeros((1, 3, sc['nf']))
        full[0, 1] = pk
        if not step(m, full, 'spec%d.%d' % (n, k), 'uniform', [1]):
            break

# ---- random histories
N = 60 if a.thorough else 14
for n in range(N):
    nl, nf = rng.choice([1, 2, 3, 5]), rng.choice([1, 2, 3, 4])
    ny, nx = rng.choice([(1, 4), (2, 3)])
    variant = rng.choice(['uniform', 'uniform', 'layered', 'bedcomp'])
    gd = nr.uniform(0.05, 1., nf)
    m = mk(ny, nx, nl, nf, gd, variant, rng.random() < .4, rng.random() < .85,
           rng.choice([0.001, 0.01, 0.05]), rng.choice([2650., 2000.]), rng.choice([.4, .3]))
    for k in range(4):
        mass = m.s['mass']
        tot = mass.sum(axis=-1)[:, :, 0]
        mode = rng.choice(['ero', 'dep', 'mixed', 'small', 'bury', 'zero', 'swap'])
        u = nr.uniform(0, 1, (ny, nx, nf))
        top = mass[:, :, 0, :]
        if mode == 'ero':
            pk = u * top
        elif mode == 'dep':
            pk = -u * tot[:, :, None] / nf
        elif mode == 'small':
            pk = (u - .5) * 1e-3 * top
        elif mode == 'bury':
            pk = -u * tot[:, :, None] * rng.choice([1., 2., 1.5 * nl])
        elif mode == 'zero':
            pk = np.where(nr.uniform(size=(ny, nx, 1)) < .5, 0., u * top * .3)
        elif mode == 'swap':      # gross erosion of some fractions, net deposition
            pk = np.where(u < .4, u * top, -u * tot[:, :, None])
        else:
            pk = np.where(nr.uniform(size=u.shape) < .5, u * top, -u * tot[:, :, None] / nf)
        if not step(m, pk, nm('rand-%s-%s' % (variant, mode), a.seed, n) + '.%d' % k, variant):
            break
done(a)
