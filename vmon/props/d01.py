"""D01: Cholesky factorizations (CholeskyDecomposition)."""
import contextlib, io
import numpy as np
from scipy import sparse
from gmrf import modchol_ldlt
from spd import CholeskyDecomposition, SPDMatrix, SPDMatrix

RULE = ('A case is one symmetric matrix: positive definite, semidefinite, indefinite or a random block matrix, of size 1 to 40, dense or sparse (three formats), integer or '
        'real, with several right hand sides. Distinct by kind, size, storage and entries.')
REQUIRED = {'factors': 400, 'reconstruct': 400, 'sqrt': 400, 'solve': 400, 'sqrt-solve': 400, 'dot': 400, 'indicators': 400, 'modified': 80, 'inputs': 400, 'rank': 400}
ASSUMPTIONS = ['the matrix is not zero', 'positive definite matrices have condition numbers below 1e8; solutions of degenerate matrices are judged by their residual',
               'semidefinite matrices may be treated as definite or degenerate, depending on rounding']

KINDS = ['pd', 'pd', 'pdfe', 'semi', 'semi', 'indefinite', 'zeros', 'integer']


def cases(tier):
    k = 3 if tier == 'quick' else 25
    return [{'kind': K, 'sparse': s} for K in KINDS for s in (False, True) for _ in range(40 * k)]


def sparsify(rng, n):
    """Random sparse lower triangular factor with unit diagonal."""
    L = np.tril(rng.normal(size=(n, n)) * (rng.uniform(size=(n, n)) < min(1, 3 / n)), -1) * 0.5
    p = rng.permutation(n)
    return (L + np.eye(n))[p][:, :]


def make(rng, kind, is_sparse):
    n = int(rng.choice([1, 2, 3, 5, 8, 13, 21, 40], p=[.05, .1, .15, .2, .2, .15, .1, .05]))
    B = sparsify(rng, n) if is_sparse else rng.normal(size=(n, n)) + np.eye(n)
    scale = 10.0 ** rng.integers(-2, 3)
    if kind == 'pd':
        C = B @ np.diag(rng.uniform(0.5, 3, n)) @ B.T + 0.05 * np.eye(n)
    elif kind == 'pdfe':
        # tridiagonal stiffness + mass, permuted
        h = rng.uniform(0.2, 1, n + 1)
        C = np.diag(1 / h[:-1] + 1 / h[1:]) - np.diag(1 / h[1:-1], 1) - np.diag(1 / h[1:-1], -1) if n > 1 else np.array([[1 / h[0]]])
        p = rng.permutation(n)
        C = C[p][:, p]
    elif kind == 'semi':
        d = rng.uniform(0.5, 3, n)
        d[rng.permutation(n)[:int(rng.integers(1, n + 1))]] = 0
        C = B @ np.diag(d) @ B.T
    elif kind == 'indefinite':
        d = rng.uniform(0.5, 3, n) * rng.choice([-1, 1], size=n)
        d[int(rng.integers(0, n))] *= -np.sign(d).max() if (d > 0).all() else 1
        C = B @ np.diag(d) @ B.T
        if rng.uniform() < 0.5:
            # zero diagonal: needs 2-by-2 pivots
            C = C - np.diag(np.diag(C))
    elif kind == 'zeros':
        C = np.zeros((n, n))
        k = n // 2
        C[:k, k:2 * k] = np.diag(rng.uniform(0.5, 2, k))
        C = C + C.T
        if rng.uniform() < 0.5:
            p = rng.permutation(n)
            C = C[p][:, p]
    elif kind == 'integer':
        C = rng.integers(-2, 3, size=(n, n)) * (rng.uniform(size=(n, n)) < (0.2 if is_sparse else 0.6))
        C = C @ C.T + (np.diag(rng.integers(1, 3, n)) if rng.uniform() < 0.5 else 0)
        return C.astype(int), n
    C = 0.5 * (C + C.T) * scale
    return C, n


def sig_of(w, tol):
    return 'pd' if w[0] > tol else 'indefinite' if w[0] < -tol else 'semi'


def dense(x):
    return x.toarray() if sparse.issparse(x) else np.asarray(x)


def run(case, ctx):
    rng = ctx.rng
    while True:
        C, n = make(rng, case['kind'] if case['kind'] != 'zeros' or rng.uniform() < 0.9 else 'pd', case['sparse'])
        if np.any(C):
            break
    nrm = max(np.abs(C).max(), 1e-300)
    w = np.linalg.eigvalsh(C.astype(float))
    cls = sig_of(w, 1e-7 * nrm)
    if case['sparse']:
        # cholmod takes real matrices
        fmt = [sparse.csc_matrix, sparse.csr_matrix, sparse.coo_matrix][int(rng.integers(0, 3))]
        given = fmt(C.astype(float))
    else:
        fmt = None
        given = C.copy()
    what = '%s (%s) n=%d %s' % (case['kind'], cls, n, given.__class__.__name__)
    with contextlib.redirect_stdout(io.StringIO()):
        f = CholeskyDecomposition(given, verbose=bool(rng.uniform() < 0.2))
    deg = f.is_degenerate()
    ctx.ok('indicators', f.get_size() == n and (deg is False if cls == 'pd' else deg is True if cls == 'indefinite' else deg in (True, False)),
           lambda: '%s: size %s, degenerate %s, eigenvalues %s' % (what, f.get_size(), deg, w))
    ctx.ok('indicators', f.is_sparse() == (case['sparse'] and not deg), lambda: '%s: is_sparse %s' % (what, f.is_sparse()))
    base = SPDMatrix(given)
    ctx.ok('rank', base.get_size() == n and base.is_sparse() == case['sparse'] and np.array_equal(dense(base.get_matrix()), C), 'plain matrix ' + what)
    for r in {0, n, int(rng.integers(0, n + 1))}:
        base.set_rank(r)
        ctx.ok('rank', base.get_rank() == r and base.is_degenerate() == (r < n), lambda: '%s: rank %s of %s, degenerate %s' % (what, r, n, base.is_degenerate()))
    ctx.raises('rank', lambda: base.set_rank(n + 1), Exception, 'rank larger than the size ' + what)
    ctx.raises('rank', lambda: base.set_rank(-1), Exception, 'negative rank ' + what)
    if rng.uniform() < 0.2:
        ctx.raises('rank', lambda: SPDMatrix(np.ones((n, n + 1))), Exception, 'not square')
    # ---- factors
    eps = np.sqrt(np.finfo(float).eps) * np.linalg.norm(C)
    if not deg:
        W = f.sqrt_dot(np.eye(n))
        if f.is_sparse():
            L, p = dense(f.get_factors().L()), f.get_factors().P()
            ctx.close('factors', L @ L.T, C[p][:, p], 1e-10, 'PCP\' = LL\': ' + what, scale=nrm * n)
            ctx.close('factors', np.triu(L, 1), 0 * L, 0, 'lower triangular: ' + what)
        else:
            L = f.get_factors()
            ctx.close('factors', L @ L.T, C, 1e-10, 'C = LL\': ' + what, scale=nrm * n)
            ctx.close('factors', np.triu(L, 1), 0 * L, 0, 'lower triangular: ' + what)
        Ch = C.astype(float)
    else:
        L, D, P, D0 = [dense(a) for a in f.get_factors()]
        big = max(1, np.abs(L).max()) ** 2 * n
        ctx.close('factors', P @ P.T, np.eye(n), 0, 'P is a permutation: ' + what)
        ctx.close('factors', np.triu(L), np.eye(n), 1e-13, 'L is unit lower triangular: ' + what)
        ctx.close('factors', L @ D0 @ L.T, P @ C @ P.T, 1e-11, 'PCP\' = L D0 L\': ' + what, scale=nrm * big)
        t, U = np.linalg.eigh(0.5 * (D0 + D0.T))
        want = U @ np.diag(np.maximum(t, eps)) @ U.T
        ctx.close('modified', D, want, 1e-9, 'D = D0 with eigenvalues raised to delta: ' + what, scale=max(nrm, np.abs(D0).max()))
        ctx.ok('modified', np.linalg.eigvalsh(D)[0] > 0.99 * eps - 1e-12 * nrm, lambda: '%s: D is not positive definite, %s' % (what, np.linalg.eigvalsh(D)))
        Ch = P.T @ L @ D @ L.T @ P
        if cls == 'semi':
            ctx.close('modified', Ch, C, 1e-6, 'small perturbation of a semidefinite matrix: ' + what, scale=nrm * big)
        ctx.close('reconstruct', dense(f.reconstruct(degenerate=True)), C, 1e-10, 'reconstruct(degenerate): ' + what, scale=nrm * big)
    if not case['sparse'] and rng.uniform() < 0.3:
        # the function of the same name in gmrf: rows not permuted
        kw = {'delta': float(10.0 ** rng.uniform(-6, 1)) * nrm} if rng.uniform() < 0.5 else {}
        with contextlib.redirect_stdout(io.StringIO()):
            L, D, P, D0 = [dense(a) for a in modchol_ldlt(C.astype(float), **kw)]
        big = max(1, np.abs(L).max()) ** 2 * n
        ctx.close('modified', L @ D0 @ L.T, C, 1e-11, 'gmrf.modchol_ldlt: L D0 L\': ' + what, scale=nrm * big)
        t, U = np.linalg.eigh(0.5 * (D0 + D0.T))
        ctx.close('modified', D, U @ np.diag(np.maximum(t, kw.get('delta', eps))) @ U.T, 1e-9, 'gmrf.modchol_ldlt: D, delta %s: %s' % (kw, what),
                  scale=max(nrm, np.abs(D0).max()))
    s = np.abs(Ch).max() * n if n else 1
    s = max(s, 1e-300)
    ctx.close('reconstruct', dense(f.reconstruct()), Ch, 1e-10, 'reconstruct: ' + what, scale=s)
    W = f.sqrt_dot(np.eye(n))
    ctx.close('sqrt', W @ W.T, Ch, 1e-8 if deg else 1e-10, 'WW\' is the matrix: ' + what, scale=s)
    # ---- vectors
    for shape in [(n,), (n, 1), (n, int(rng.integers(2, 5)))]:
        b = rng.normal(size=shape)
        b0 = b.copy()
        ctx.close('sqrt', f.sqrt_dot(b), W @ b, 1e-10, 'sqrt_dot: ' + what, scale=max(np.abs(W).max(), 1e-300) * n)
        ctx.close('sqrt', f.sqrt_dot(b, transpose=True), W.T @ b, 1e-10, 'sqrt_dot(transpose): ' + what, scale=max(np.abs(W).max(), 1e-300) * n)
        ctx.close('dot', f.dot(b), C @ b, 1e-11, 'dot: ' + what, scale=nrm * n)
        x = f.solve(b)
        res(ctx, 'solve', Ch, x, b, 1e-9, 'solve: ' + what)
        x = f.sqrt_solve(b)
        res(ctx, 'sqrt-solve', W, x, b, 1e-9 if not deg else 1e-6, 'sqrt_solve: ' + what)
        x = f.sqrt_solve(b, transpose=True)
        res(ctx, 'sqrt-solve', W.T, x, b, 1e-9 if not deg else 1e-6, 'sqrt_solve(transpose): ' + what)
        ctx.ok('inputs', np.array_equal(b, b0), what)
        if cls == 'pd':
            t = rng.normal(size=shape)
            k = w[-1] / w[0]
            ctx.close('solve', f.solve(C @ t), t, 1e-12 * k + 1e-10, 'solve recovers: ' + what, scale=10.0)
            ctx.close('sqrt-solve', f.sqrt_solve(f.sqrt_dot(t)), t, 1e-12 * k + 1e-10, 'sqrt_solve recovers: ' + what, scale=10.0)
            ctx.close('sqrt-solve', f.sqrt_solve(f.sqrt_dot(t, transpose=True), transpose=True), t, 1e-12 * k + 1e-10, 'sqrt_solve(transpose) recovers: ' + what, scale=10.0)
    Bs = sparse.random(n, 3, 0.5, random_state=int(rng.integers(0, 2 ** 31)), format=['csc', 'csr', 'coo'][int(rng.integers(0, 3))])
    y = f.dot(Bs)
    ctx.close('dot', dense(y), C @ Bs.toarray(), 1e-11, 'dot with a sparse matrix: ' + what, scale=nrm * n)
    ctx.ok('inputs', np.array_equal(dense(given), C) and np.array_equal(dense(f.get_matrix()), C), 'matrix changed: ' + what)
    if n > 1:
        ctx.raises('dot', lambda: f.dot(rng.normal(size=n + 1)), AssertionError, 'dot with %d rows: %s' % (n + 1, what))
    ctx.raises('indicators', lambda: CholeskyDecomposition(np.ones((n, n + 1))), AssertionError, 'rectangular matrix')
    ctx.stat('degenerate' if deg else 'definite')
    ctx.sig(case['kind'], n, str(fmt), C.tobytes())
    ctx.note(what)


def res(ctx, mon, A, x, b, tol, what):
    r = A @ x - b
    bound = np.linalg.norm(A) * np.linalg.norm(x) + np.linalg.norm(b)
    ctx.ok(mon, np.shape(x) == np.shape(b) and np.all(np.isfinite(x)) and np.linalg.norm(r) <= tol * bound,
           lambda: '%s: residual %g of %g (shape %s)' % (what, np.linalg.norm(r), bound, np.shape(x)))
