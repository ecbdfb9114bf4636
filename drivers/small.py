"""Series, distributions, masks, rotations, mixtures and value texts of aeolis.utils (and the copies of
rotations elsewhere) on random inputs."""
from dlib import *
import aeolis.utils as u
import aeolis.fences as fences
import aeolis.shear as shear

a = args()
rng, nr = a.rng, a.np
N = 300 if a.thorough else 40
ct = [0]


def key(kind):
    ct[0] += 1
    return nm(kind, a.seed, ct[0])


def xp_(n):
    if rng.random() < .5:
        return np.cumsum(nr.choice([.25, 1., 3., 60.], size=n)) + rng.choice([-5., 0., 1e3])
    return np.sort(nr.uniform(-10, 500, n))


def times(xp):
    r = xp[-1] - xp[0] + 1.
    t = [xp[0], xp[-1], xp[-1] + .5, xp[-1] + 1., xp[-1] + 1.5, xp[0] - .25, xp[0] - 1.5, xp[0] - 3 * r, xp[0] + 7 * r] + list(rng.sample(list(xp), min(2, len(xp)))) + list(nr.uniform(xp[0] - 2 * r, xp[-1] + 2 * r, 8))
    return [float(x) for x in t]


for _ in range(N):
    n = rng.choice([2, 2, 3, 5, 9])
    xp = xp_(n)
    fp = nr.choice([0., 1., -2., 3.5], size=n) if rng.random() < .3 else nr.uniform(-3, 9, n)
    t = times(xp)
    x0, f0 = xp.copy(), fp.copy()
    # one by one and all at once
    if rng.random() < .5:
        r, exc = call(lambda: [float(u.interp_circular(x, xp, fp)) for x in t])
    else:
        r, exc = call(lambda: u.interp_circular(np.array(t), xp, fp))
    ev(kind='circular', key=key('circular'), xp=x0, fp=f0, t=t, got=r if exc == '' else [], exc=exc, kept=bool(np.array_equal(xp, x0) and np.array_equal(fp, f0)))
    F = nr.uniform(-3, 9, (n, rng.choice([1, 2, 4])))
    circ = rng.random() < .6
    t = times(xp) if circ else [float(x) for x in nr.uniform(xp[0] - 5, xp[-1] + 5, 4)]
    r, exc = call(lambda: [u.interp_array(x, xp, F, circular=circ) for x in t])
    ev(kind='array', key=key('array'), xp=xp, fp=F, circ=circ, t=t, got=r if exc == '' else [], exc=exc)

for _ in range(N):
    nd = rng.choice([1, 2, 3])
    shp = tuple(rng.choice([1, 2, 3, 4]) for _ in range(nd))
    x = nr.uniform(-1, 5, shp)
    if rng.random() < .5:
        x = np.where(nr.uniform(size=shp) < .4, 0., np.abs(x))
    ax = rng.randrange(nd)
    if rng.random() < .4 and nd > 1:
        idx = [slice(None)] * nd
        idx[(ax + 1) % nd] = 0
        x[tuple(idx)] = 0.
    fill = rng.choice([0., 1., -2.5])
    ref = None
    if rng.random() < .3:
        ref = nr.choice([0., 1., 2.5], size=shp)
    x0 = x.copy()
    r, exc = call(u.normalize, x, ref=ref, axis=ax, fill=fill)
    rows = lambda z: np.moveaxis(np.asarray(z), ax, -1).reshape(-1, shp[ax])
    ev(kind='normal', key=key('normal'), x=rows(x0), ref=rows(ref) if ref is not None else [], has_ref=ref is not None, fill=fill, shape=list(shp) == list(np.shape(r)),
       got=rows(r) if exc == '' else [], exc=exc, kept=bool(np.array_equal(x, x0)))

for _ in range(N):
    shp = rng.choice([(5,), (3, 4), (2, 3, 2)])
    err = rng.choice([1e-10, 1e-3, .5])
    repl = rng.choice([0., 7.])
    x = nr.choice([-1., -err, -err * .5, -err * .999, -err * 1.001, -1e-300, 0., err * .5, 3., np.nan], size=shp)
    x0 = x.copy()
    d = rng.random() < .3
    r, exc = call(lambda: u.prevent_tiny_negatives(x) if d else u.prevent_tiny_negatives(x, err, repl))
    ev(kind='tidy', key=key('tidy'), x=x0.ravel(), err=1e-10 if d else err, repl=0. if d else repl, got=np.asarray(r).ravel() if exc == '' else [], exc=exc)

for _ in range(N):
    ny, nx = rng.choice([1, 2, 3]), rng.choice([1, 2, 4])
    extra = rng.choice([(), (2,), (3,), (2, 3), (nx,), (ny,)])
    x = nr.uniform(-3, 5, (ny, nx) + extra)
    how = rng.choice(['real', 'complex', 'number', 'zero'])
    m = dict(real=lambda: nr.uniform(0, 2, (ny, nx)), complex=lambda: nr.uniform(0, 2, (ny, nx)) + 1j * nr.uniform(-1, 1, (ny, nx)), number=lambda: rng.choice([1., 0., .5, .25 + 2j]),
             zero=lambda: np.zeros((ny, nx)) + 1j * nr.choice([0., 2.], size=(ny, nx)))[how]()
    mm = np.broadcast_to(m, (ny, nx)).ravel()
    x0 = x.copy()
    m0 = np.array(m)
    r, exc = call(u.apply_mask, x, m)
    ev(kind='mask', key=key('mask'), how=how, x=x0.ravel(), n=int(np.prod(extra)) if extra else 1, m=[[float(z.real), float(z.imag)] for z in mm], got=np.asarray(r).ravel() if exc == '' else [],
       shape=np.shape(r) == x0.shape, kept=bool(np.array_equal(m0, m)), exc=exc)

ROT = dict(utils=u.rotate, fences=getattr(fences, 'rotate', None), shear=getattr(shear.WindShear, 'rotate', None))
for _ in range(N):
    shp = rng.choice([(1, 4), (3, 4), (2, 2), (5, 1)])
    x, y = nr.uniform(-50, 50, shp), nr.uniform(-50, 50, shp)
    al = rng.choice([0., 90., -90., 180., 360., 45., 720., rng.uniform(-400, 400)])
    o = rng.choice([None, (0, 0), (rng.uniform(-9, 9), rng.uniform(-9, 9)), (3, -2)])
    for name, f in ROT.items():
        if f is None:
            continue
        x0, y0 = x.copy(), y.copy()
        r, exc = call(lambda: f(x, y, al) if o is None else f(x, y, al, origin=o))
        ev(kind='turn', key=key('turn'), name=name, x=x0.ravel(), y=y0.ravel(), alpha=al, o=list(o or (0, 0)), gx=np.asarray(r[0]).ravel() if r else [], gy=np.asarray(r[1]).ravel() if r else [], exc=exc,
           shape=bool(r) and np.shape(r[0]) == shp and np.shape(r[1]) == shp, kept=bool(np.array_equal(x, x0) and np.array_equal(y, y0)))

for _ in range(N):
    ny, nx, nl, nf = rng.choice([1, 2]), rng.choice([1, 3]), rng.choice([1, 3]), rng.choice([1, 2, 3, 5])
    d = np.cumsum(nr.uniform(5e-5, 2e-4, nf))
    mass = nr.uniform(.5, 40, (ny, nx, nl, nf))
    p = dict(grain_size=d)
    s = dict(mass=mass.copy())
    per = [float(x) for x in [0., 10., 50., 90., 100.] + list(nr.uniform(0, 100, 3))]
    r, exc = call(lambda: [u.calc_grain_size(p, s, q).ravel() for q in per])
    w, exc2 = call(lambda: u.calc_mean_grain_size(p, s))
    ev(kind='size', key=key('size'), d=d, mass=mass[:, :, 0, :].reshape(-1, nf), per=per, got=r if exc == '' else [], mean=np.asarray(w).ravel() if exc2 == '' else [], exc=exc + exc2,
       kept=bool(np.array_equal(s['mass'], mass)))

VALS = dict(list=[1, 2.5], tuple=(1, 2), array=np.array([1., 2.]), empty=[], dict=dict(a=1), range=range(3), set={1}, str='abc', emptystr='', none=None, int=3, float=2.5, bool=True, scalar=np.float64(1.5), zero=np.array(4.))
for kind, v in VALS.items():
    (it, e1), (ar, e2), (mk, e3) = call(u.isiterable, v), call(u.isarray, v), call(u.makeiterable, v)
    ev(kind='kind', key=key('kind'), what=kind, iterable=bool(it), indexed=bool(ar), size=int(np.size(mk)) if mk is not None else -1, isarray=isinstance(mk, np.ndarray), ndim=int(np.ndim(mk)), exc=e1 + e2 + e3)


def show(v, kind):
    r, exc = call(u.print_value, v)
    back = 0.
    try:
        back = float(r)
    except (TypeError, ValueError):
        pass
    ev(kind='text', key=key('text'), what=kind, value=float(v) if kind in ('int', 'float') else 0., text=r if isinstance(r, str) else '?', back=back, exc=exc)


for v in [0, 1, -3, 12345]:
    show(v, 'int')
for v in [0., .5, .123456, -2.25, 1., 3.14159, 99.5, 1e-3, 12345.678, .9999999]:
    show(v, 'float')
for v, k in [(True, 'true'), (False, 'false'), (None, 'none'), ('name', 'str'), ([1, 2, 3], 'list'), ([True, None, 'x'], 'mixed'), ([], 'empty'), (np.array([1., .5]), 'array')]:
    show(v, k)
done(a)
