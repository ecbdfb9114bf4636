"""Drives the avalanching of AeoLiS with random and structured beds."""
from dlib import *
import aeolis.avalanching as av

a = args()
rng, nr = a.rng, a.np
models = {}


def get(ny, nx, dx, dy):
    k = (ny, nx, dx, dy)
    if k not in models:
        models[k] = model(base(**grid(nx, ny, dx, dy), process_avalanche=True))
    return models[k]


def run(key, z, ne, dx, dy, ts, td, n, on=True, island=False, full=False):
    ny, nx = z.shape
    m = get(ny, nx, dx, dy)
    s, p = m.s, m.p
    p['process_avalanche'] = on
    p['max_iter_ava'], p['theta_stat'], p['theta_dyn'] = n, ts, td
    s['zb'] = z.copy()
    s['zne'] = ne.copy() if ne.min() > -900. else np.full(ne.shape, np.nan)      # no ne_file: no layer
    if full:                                     # as part of a time step of the model, wind below threshold
        p['wind_file'] = np.array([[0., .5, 0.], [1e9, .5, 0.]])
        p['process_tide'] = p['process_runup'] = p['process_wave'] = False
        _, exc = call(m.update, 60.)
        r = m.s
    else:
        s = av.angele_of_repose(s, p)
        r, exc = call(av.avalanche, s, p)
    ev(full=full, key=key, exc=exc, z0=z, z=(r['zb'] if not exc else []), ne=ne, ds=s['ds'], dn=s['dn'], ts=ts, td=td, n=n, on=on, island=island)


N = 600 if a.thorough else 130
for n in range(N):
    ny, nx = rng.choice([(1, 5), (1, 9), (3, 4), (5, 6), (4, 5)])
    dx, dy = rng.choice([(1., 1.), (1., 2.), (2., 1.), (5., 5.), (2., 3.)])
    if ny == 1:
        dy = 1.
    amp = rng.choice([.3, 1., 2.5]) * dx
    kind = rng.choice(['rough', 'rough', 'cone', 'ridge', 'plateau', 'steps'])
    if kind == 'rough':
        z = nr.uniform(0, amp, (ny, nx))
    elif kind == 'cone':
        z = np.zeros((ny, nx))
        z[ny // 2, nx // 2] = amp * 1.5
    elif kind == 'ridge':
        z = np.zeros((ny, nx)) + np.where(np.arange(nx) == nx // 2, amp * 1.2, 0.)
    elif kind == 'plateau':
        z = np.where(np.arange(nx) < nx // 2, amp, 0.) * np.ones((ny, 1))
    else:
        z = np.round(nr.uniform(0, 3, (ny, nx))) * amp / 3
    if rng.random() < .4:
        z = z + rng.choice([.2, -.4, .66]) * dx * np.arange(nx)
    ne = np.full((ny, nx), -999.)
    if rng.random() < .6:
        ne = z - nr.uniform(0, amp, (ny, nx)) * (nr.uniform(size=(ny, nx)) < .7)
    ts = rng.choice([34., 34., 40., 30.])
    td = ts - rng.choice([1., 5., 0.])
    island = False
    its = rng.choice([1, 1, 2, 4, 1000, 1000])
    if rng.random() < .25:                       # sand that cannot reach the boundary
        pad = 8
        z = np.pad(z, ((pad if ny > 1 else 0,) * 2, (pad,) * 2)) if ny == 1 else np.pad(z - z.min(), pad)
        z[:] = np.minimum(z - z.min(), 2.5 * dx) if ny == 1 else np.minimum(z, 2. * min(dx, dy))
        if ny == 1:
            z[:, :4] = z[:, -4:] = 0.
        z[..., :pad] = z[..., -pad:] = 0.
        ne = np.full(z.shape, rng.choice([-999., 0.]))
        island = True
    run(nm('%s-%dx%d' % (kind, ny, nx), a.seed, n), z, ne, dx, dy, ts, td, its, on=rng.random() > .08, island=island, full=rng.random() < .3)
done(a)
