"""D02: (generalized) eigendecompositions (EigenDecomposition)."""
import numpy as np
from scipy import sparse
from spd import EigenDecomposition, diagonal_pseudo_inverse
from gmrf import diagonal_inverse

RULE = ('A case is one symmetric matrix built from a known spectrum (full rank, rank deficient, slightly indefinite, repeated eigenvalues), with no mass matrix or a positive definite one '
        '(each dense or sparse), and a default, zero or positive lower bound for the eigenvalues. Distinct by spectrum, matrices and bound.')
REQUIRED = {'eigenpairs': 400, 'eigenvalues': 400, 'reconstruct': 400, 'dot': 400, 'sqrt': 400, 'solve': 400, 'sqrt-solve': 300, 'rank': 200, 'inputs': 400, 'pseudo-inverse': 400}
ASSUMPTIONS = ['cut-off tolerances lie in gaps of the spectrum', 'with a mass matrix, the product with a vector is that of R*R\', the covariance of M^-1 C']


def cases(tier):
    k = 3 if tier == 'quick' else 25
    return [{'kind': K, 'mass': m} for K in ('full', 'deficient', 'indefinite', 'repeated') for m in (0, 0, 1, 2) for _ in range(40 * k)]


def spectrum(rng, kind, n):
    d = rng.uniform(0.5, 4, n)
    if kind == 'deficient':
        d[rng.permutation(n)[:int(rng.integers(0, n)) or 1]] = 0
    elif kind == 'indefinite':
        d[rng.permutation(n)[:int(rng.integers(1, n + 1))]] *= -1
        if rng.uniform() < 0.5:
            d[int(rng.integers(0, n))] = 0
    elif kind == 'repeated':
        d = rng.choice([0.0, 1.0, 2.0], size=n) if rng.uniform() < 0.5 else np.ones(n)
        if not d.any():
            d[:] = 2
    return np.sort(d)[::-1]


def mass(rng, n, is_sparse):
    h = rng.uniform(0.3, 1, n + 1)
    M = (np.diag(h[:-1] + h[1:]) / 3 + (np.diag(h[1:-1] / 6, 1) + np.diag(h[1:-1] / 6, -1) if n > 1 else 0)) * rng.choice([0.1, 1, 10])
    if not is_sparse and rng.uniform() < 0.5:
        B = rng.normal(size=(n, n))
        M = M + 0.05 * B @ B.T
    return 0.5 * (M + M.T)


def wrap(rng, A, is_sparse):
    return [sparse.csc_matrix, sparse.csr_matrix, sparse.coo_matrix][int(rng.integers(0, 3))](A) if is_sparse else A.copy()


def dense(x):
    return x.toarray() if sparse.issparse(x) else np.asarray(x)


def run(case, ctx):
    rng = ctx.rng
    n = int(rng.choice([1, 2, 3, 5, 8, 13, 21]))
    d = spectrum(rng, case['kind'], n)
    scale = 10.0 ** rng.integers(-2, 3)
    d = d * scale
    M = mass(rng, n, case['mass'] == 2) if case['mass'] else np.eye(n)
    lm = np.linalg.cholesky(M)
    Q = np.linalg.qr(rng.normal(size=(n, n)))[0]
    V0 = np.linalg.solve(lm.T, Q)                      # V0' M V0 = I
    MV = M @ V0
    C = MV @ np.diag(d) @ MV.T
    C = 0.5 * (C + C.T)
    Cg = wrap(rng, C, rng.uniform() < 0.4)
    Mg = wrap(rng, M, case['mass'] == 2) if case['mass'] else None
    delta = [None, 0, float(scale * rng.choice([0.1, 0.3, 5.0]))][int(rng.integers(0, 3))]
    what = '%s n=%d mass %s C %s delta %s spectrum %s' % (case['kind'], n, type(Mg).__name__, type(Cg).__name__, delta, d[:6])
    f = EigenDecomposition(Cg, M=Mg, delta=delta) if rng.uniform() < 0.5 or Mg is not None else EigenDecomposition(Cg, delta=delta)
    low = np.sqrt(np.finfo(float).eps) * np.linalg.norm(C) if delta is None else delta
    ctx.close('eigenvalues', f.get_eigenvalue_lower_bound(), low, 1e-9, 'bound: ' + what, scale=scale)
    ctx.ok('eigenvalues', f.get_size() == n and f.size() == n and f.has_mass_matrix() == (Mg is not None), what)
    g, V = f.get_factors()
    ctx.ok('eigenvalues', np.array_equal(g, f.get_eigenvalues()) and np.array_equal(V, f.get_eigenvectors()), what)
    dh = np.maximum(d, low)
    kM = np.linalg.cond(M)
    tol = 1e-11 * kM
    ctx.close('eigenvalues', g, np.sort(dh)[::-1], tol, 'eigenvalues, raised and decreasing: ' + what, scale=np.abs(d).max() + low)
    ctx.ok('eigenvalues', np.all(np.diff(g) <= 0) and np.all(g >= low), lambda: 'order and bound: %s %s' % (what, g))
    ctx.close('eigenpairs', V.T @ M @ V, np.eye(n), tol, 'V\'MV = I: ' + what)
    for j in range(n):
        if g[j] > low * (1 + 1e-9) + 1e-9 * scale:
            ctx.close('eigenpairs', C @ V[:, j], g[j] * (M @ V[:, j]), tol, 'C v = d M v: ' + what, scale=np.abs(C).max() * max(1, np.abs(V).max()) * n)
    # ---- the matrix with raised eigenvalues
    Ch = MV @ np.diag(dh) @ MV.T
    N = V0 @ np.diag(dh) @ V0.T
    r = f.reconstruct()
    if Mg is not None:
        ctx.ok('reconstruct', isinstance(r, tuple) and len(r) == 2 and np.array_equal(dense(r[1]), M), 'mass matrix: ' + what)
        r = r[0]
    ctx.close('reconstruct', r, Ch, tol, 'reconstruct: ' + what, scale=np.abs(Ch).max() + np.abs(C).max())
    R = f.sqrt_dot(np.eye(n))
    sN = (np.abs(V0) @ np.diag(np.abs(d) + low) @ np.abs(V0).T).max()
    ctx.close('sqrt', R @ R.T, N, tol, 'RR\': ' + what, scale=sN)
    ctx.close('sqrt', R, V @ np.diag(np.sqrt(g)), tol, 'R = V sqrt(D): ' + what, scale=np.sqrt(sN))
    e_cut = float(scale * 0.3)
    for shape in [(n,), (n, 1), (n, int(rng.integers(2, 5)))]:
        b = rng.normal(size=shape)
        b0 = b.copy()
        ctx.close('sqrt', f.sqrt_dot(b), R @ b, 1e-11, 'sqrt_dot: ' + what, scale=np.abs(R).max() * n + 1e-300)
        ctx.close('sqrt', f.sqrt_dot(b, transpose=True), R.T @ b, 1e-11, 'sqrt_dot(transpose): ' + what, scale=np.abs(R).max() * n + 1e-300)
        ctx.close('dot', f.dot(b), N @ b, tol, 'dot: ' + what, scale=sN)
        for eps in (None, e_cut):
            cut = np.finfo(float).eps if eps is None else eps
            if np.any((dh > 0) & (dh <= 1e-7 * scale)) and eps is None or (delta == 0 and np.any(d <= 0) and eps is None) or np.any(np.abs(dh - cut) < 1e-6 * scale):
                continue
            inv = np.where(dh > cut, 1 / np.where(dh > 0, dh, 1), 0)
            X = V0 @ np.diag(inv) @ V0.T
            kw = {} if eps is None else {'eps': eps}
            t = tol * 10
            sc = np.abs(X).max() * n + 1e-300
            ctx.close('solve', f.solve(b, **kw), X @ b, t, 'solve eps %s: %s' % (eps, what), scale=sc)
            if Mg is not None:
                ctx.close('solve', f.solve(b, generalized=True, **kw), X @ M @ b, t, 'generalized solve eps %s: %s' % (eps, what), scale=sc * (1 + np.abs(M).max() * n))
        # square roots: cut-off applies to the roots
        for eps in (None, float(np.sqrt(scale * 0.3))):
            cut = np.finfo(float).eps if eps is None else eps
            if np.any(np.abs(np.sqrt(dh) - cut) < 1e-4 * np.sqrt(scale)) or (eps is None and np.any(dh < 1e-7 * scale)):
                continue
            kw = {} if eps is None else {'eps': eps}
            keep = (g > cut ** 2)
            y = f.sqrt_solve(b, **kw)
            yt = f.sqrt_solve(b, transpose=True, **kw)
            # R y = projection of b on the kept eigenvectors, y zero elsewhere; R' yt = b on the kept ones
            Pk = V[:, keep] @ V[:, keep].T @ M
            sc = max(1, np.abs(V).max() ** 2 * np.abs(M).max() * n * n)
            ctx.close('sqrt-solve', R @ y, Pk @ b, 10 * tol, 'R sqrt_solve(b), eps %s: %s' % (eps, what), scale=sc)
            ctx.close('sqrt-solve', y[~keep], 0 * y[~keep], 0, 'sqrt_solve outside of the range: ' + what)
            bk = np.where(keep.reshape((-1,) + (1,) * (b.ndim - 1)), b, 0)
            ctx.close('sqrt-solve', (R.T @ yt)[keep], bk[keep], 10 * tol, 'R\' sqrt_solve(b, transpose), eps %s: %s' % (eps, what), scale=sc)
            ctx.close('sqrt-solve', (V[:, ~keep].T @ yt), 0 * b[~keep], 10 * tol, 'transpose stays in the range: ' + what, scale=sc * (1 + np.abs(yt).max()))
        ctx.ok('inputs', np.array_equal(b, b0), what)
    # ---- rank, range, nullspace
    tols = [1e-9 * scale, e_cut] if delta == 0 else [e_cut]
    for t in tols:
        if np.any(np.abs(dh - t) < 1e-8 * scale * min(1, t / scale / 1e-9 * 0.5)):
            continue
        rank = int(np.sum(dh > t))
        ctx.ok('rank', f.get_rank(tol=t) == rank, lambda: '%s: rank %s, want %d (tol %g)' % (what, f.get_rank(tol=t), rank, t))
        Rg, Nl = f.get_range(tol=t), f.get_nullspace(tol=t)
        ctx.ok('rank', Rg.shape == (n, rank) and Nl.shape == (n, n - rank), lambda: '%s: range %s nullspace %s rank %d' % (what, Rg.shape, Nl.shape, rank))
        o = np.argsort(-dh, kind='stable')
        big = V0[:, dh > t]
        ctx.close('rank', Rg @ Rg.T @ M, big @ big.T @ M, 1e-5, 'range: ' + what, scale=kM)
        ctx.close('rank', Nl.T @ M @ Rg, np.zeros((n - rank, rank)), tol, 'nullspace orthogonal to range: ' + what)
    # ---- diagonal pseudo-inverse
    v = rng.normal(size=n) * 10.0 ** rng.integers(-3, 3, n)
    v[rng.uniform(size=n) < 0.3] = 0
    for eps in (None, float(10.0 ** rng.uniform(-3, 0))):
        cut = np.finfo(float).eps if eps is None else eps
        want = np.diag([1 / a if abs(a) > cut else 0.0 for a in v])
        kw = {} if eps is None else {'eps': eps}
        ctx.close('pseudo-inverse', diagonal_pseudo_inverse(v, **kw), want, 1e-14, 'diagonal: %s' % v, scale=max(1, np.abs(want).max()))
        ctx.close('pseudo-inverse', diagonal_inverse(v if rng.uniform() < 0.5 else np.diag(v), **kw), want, 1e-14, 'diagonal_inverse: %s' % v, scale=max(1, np.abs(want).max()))
    ctx.ok('inputs', np.array_equal(dense(Cg), C) and (Mg is None or np.array_equal(dense(Mg), M)), 'matrices changed: ' + what)
    ctx.sig(case['kind'], n, delta, C.tobytes())
    ctx.note(what)
