"""G01: covariance functions (gmrf)."""
import numpy as np
from scipy import special, integrate
import gmrf

RULE = ('A case is one covariance function with random parameters (standard deviation, range, smoothness, anisotropy, periodicity) on random point pairs in one or two dimensions, among '
        'them coincident and far points. Distinct by function and parameters.')
REQUIRED = {'value': 700, 'distance': 300, 'symmetric': 300, 'semidefinite': 250, 'pointwise': 300, 'diagonal': 250}
ASSUMPTIONS = ['coordinates of order one']
NAMES = ['constant', 'linear', 'gaussian', 'exponential', 'matern', 'rational']


def cases(tier):
    k = 2 if tier == 'quick' else 30
    return [{'name': n, 'dim': d} for n in NAMES for d in (1, 2) for _ in range(40 * k)]


def tensor(rng, dim):
    """A symmetric positive definite anisotropy."""
    if dim == 1:
        return float(rng.uniform(0.2, 4)) if rng.uniform() < 0.8 else int(rng.integers(1, 4))
    a = rng.uniform(0, np.pi)
    Q = np.array([[np.cos(a), -np.sin(a)], [np.sin(a), np.cos(a)]])
    M = Q @ np.diag(rng.uniform(0.2, 4, 2)) @ Q.T
    return 0.5 * (M + M.T)


def ref_distance(x, y, M, box):
    d = x - y
    if box is not None:
        w = np.array([b - a for a, b in zip(box[::2], box[1::2])])
        # shortest difference, component by component
        k = np.arange(-2, 3)
        c = d[:, :, None] + w[None, :, None] * k
        d = np.take_along_axis(c, np.argmin(np.abs(c), axis=2)[:, :, None], 2)[:, :, 0]
    if M is None:
        return np.sqrt(np.sum(d * d, axis=1))
    return np.sqrt(np.einsum('pi,ij,pj->p', d, np.atleast_2d(np.asarray(M, dtype=float)), d))


def ref_matern(r, sgm, nu, l):
    """sgm^2 2^(1-nu)/Gamma(nu) z^nu K_nu(z), K_nu from its integral representation."""
    z = np.sqrt(2 * nu) * r / l
    if z == 0:
        return sgm ** 2
    f = lambda t: np.exp(-z * (np.cosh(t) - 1) + nu * t) * 0.5 * (1 + np.exp(-2 * nu * t))
    top = np.arccosh(1 + (60 + 12 * nu * nu) / z) + 1
    t, w = np.polynomial.legendre.leggauss(400)
    t, w = (t + 1) / 2 * top, w / 2 * top
    kz = np.sum(w * f(t)) * np.exp(-z)
    return sgm ** 2 * np.exp((1 - nu) * np.log(2) - special.gammaln(nu) + nu * np.log(z)) * kz


def reference(name, x, y, p, M, box):
    sgm = p.get('sgm', 1)
    if name == 'constant':
        return np.full(len(x), float(sgm))
    if name == 'linear':
        A = np.eye(x.shape[1]) if M is None else np.atleast_2d(np.asarray(M, dtype=float))
        return sgm ** 2 + np.einsum('pi,ij,pj->p', x, A, y)
    r = ref_distance(x, y, M, box)
    if name == 'gaussian':
        return sgm ** 2 * np.exp(-0.5 * (r / p.get('l', 1)) ** 2)
    if name == 'exponential':
        return sgm ** 2 * np.exp(-r / p.get('l', 0.1))
    if name == 'rational':
        return np.power(1 + r * r, -float(p['a']))
    nu, l = p['nu'], p['l']
    z = np.sqrt(2 * nu) * r / l
    if nu == 0.5:
        return sgm ** 2 * np.exp(-z)
    if nu == 1.5:
        return sgm ** 2 * (1 + z) * np.exp(-z)
    if nu == 2.5:
        return sgm ** 2 * (1 + z + z * z / 3) * np.exp(-z)
    return np.array([ref_matern(a, sgm, nu, l) for a in r])


def run(case, ctx):
    rng = ctx.rng
    name, dim = case['name'], case['dim']
    fn = getattr(gmrf, name)
    lo = rng.uniform(-2, 1, dim)
    w = rng.uniform(0.5, 3, dim)
    M = tensor(rng, dim) if rng.uniform() < 0.5 and name != 'constant' else None
    box = None
    if rng.uniform() < 0.4 and name not in ('constant', 'linear'):
        box = tuple(float(v) for i in range(dim) for v in (lo[i], lo[i] + w[i]))
    p = {}
    if rng.uniform() < 0.8 and name != 'rational' or name == 'matern':
        p['sgm'] = float(rng.uniform(0.2, 3)) if rng.uniform() < 0.8 else int(rng.integers(1, 4))
    if name in ('gaussian', 'exponential') and rng.uniform() < 0.8 or name == 'matern':
        p['l'] = float(10 ** rng.uniform(-1.3, 0.7))
    if name == 'matern':
        p['nu'] = float([0.5, 1.5, 2.5, rng.uniform(0.3, 4)][int(rng.integers(0, 4))])
    if name == 'rational':
        p['a'] = float(rng.uniform(0.3, 3))
    kw = dict(p)
    if M is not None:
        kw['M'] = M
    if box is not None:
        kw.update(periodic=True, box=box)
    N = int(rng.integers(3, 13))
    P = lo + w * rng.uniform(size=(N, dim))
    if box is not None:
        P[rng.uniform(size=(N, dim)) < 0.15] += 0
        # points on the seam
        for i in range(dim):
            P[rng.uniform(size=N) < 0.15, i] = lo[i]
            P[rng.uniform(size=N) < 0.15, i] = box[2 * i + 1]
    if rng.uniform() < 0.3:
        P[0] = P[1]
    i, j = [a.ravel() for a in np.meshgrid(np.arange(N), np.arange(N), indexing='ij')]
    x, y = P[i], P[j]
    x0, y0 = x.copy(), y.copy()
    what = '%s dim %d %s' % (name, dim, {k: v if isinstance(v, (bool, tuple)) else np.round(v, 4) for k, v in kw.items()})
    K = fn(x, y, **kw)
    ctx.ok('value', np.shape(K) in ((N * N,), (N * N, 1)), lambda: '%s: shape %s' % (what, np.shape(K)))
    K = np.ravel(K)
    want = reference(name, x, y, p, M, box)
    sc = max(1e-12, np.abs(want).max())
    ctx.close('value', K, want, 1e-7 if name == 'matern' else 1e-11, what, scale=sc)
    G = K.reshape(N, N)
    ctx.close('symmetric', G, G.T, 1e-12, 'symmetry: ' + what, scale=sc)
    if box is None:
        ev = np.linalg.eigvalsh(0.5 * (G + G.T))
        ctx.ok('semidefinite', ev[0] >= -1e-7 * N * sc if name == 'matern' else ev[0] >= -1e-11 * N * sc, lambda: '%s: eigenvalues %s' % (what, ev))
    if name not in ('constant', 'linear'):
        v = p.get('sgm', 1) ** 2
        ctx.close('diagonal', np.diag(G), np.full(N, v), 1e-12, 'variance: ' + what, scale=v)
        ctx.ok('diagonal', np.all(G <= v * (1 + 1e-9)) and np.all(G >= 0), lambda: '%s: values outside of [0, variance]: %s %s' % (what, G.min(), G.max()))
        # monotone in the distance
        r = ref_distance(x, y, M, box)
        o = np.argsort(r)
        ctx.ok('diagonal', np.all(np.diff(K[o]) <= 1e-7 * v), what + ': not decreasing with the distance')
    for q in rng.integers(0, N * N, 3):
        one = np.ravel(fn(x[q:q + 1], y[q:q + 1], **kw))
        ctx.close('pointwise', one, K[q:q + 1], 1e-12, 'one pair: ' + what, scale=sc)
    if name not in ('constant', 'linear'):
        kd = {k: v for k, v in kw.items() if k in ('M', 'periodic', 'box')}
        D = gmrf.distance(x, y, **kd)
        r = ref_distance(x, y, M, box)
        ctx.close('distance', np.ravel(D), r, 1e-11, 'distance: %s' % kd, scale=max(1, r.max()))
    ctx.ok('pointwise', np.array_equal(x, x0) and np.array_equal(y, y0), 'points changed: ' + what)
    ctx.raises('distance', lambda: fn(x, y[:-1], **kw), Exception, 'shapes: ' + what)
    if box is not None:
        ctx.raises('distance', lambda: fn(x, y, **dict(kw, box=None)), AssertionError, 'periodic without a box: ' + what)
    ctx.sig(name, dim, sorted((k, str(v)) for k, v in kw.items()))
    ctx.note(what)
