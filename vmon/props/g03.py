"""G03: Gaussian fields: means, covariances, samples, expansions, supports (GaussianField)."""
import contextlib, io
import numpy as np
from scipy import sparse
from spd import EigenDecomposition, CholeskyDecomposition
from gmrf import GaussianField, Covariance
from fem import QuadFE, DofHandler
from mesh import Mesh1D, QuadMesh

RULE = ('A case is one Gaussian field given by a covariance (array, sparse, Cholesky or eigendecomposition, finite element covariance operator), a precision or canonical parameters, with one or '
        'several means, full or deficient rank, sampled with given noise and at random, expanded, truncated and restricted. Distinct by parameters.')
REQUIRED = {'set': 500, 'covariance': 300, 'affine': 300, 'mean': 300, 'canonical': 150, 'expansion': 120, 'truncate': 100, 'support': 120, 'random': 150, 'inputs': 300}
ASSUMPTIONS = ['random samples are tested at seven standard deviations', 'well conditioned covariances and precisions, or a gap between zero and the other eigenvalues']
NS = 3000


def cases(tier):
    k = 3 if tier == 'quick' else 25
    return [{'kind': K} for K in ('array', 'eig', 'chol', 'sparse', 'operator', 'precision', 'precision', 'precision', 'canonical', 'deficient', 'deficient') for _ in range(32 * k)]


def spd(rng, n):
    Q = np.linalg.qr(rng.normal(size=(n, n)))[0]
    C = Q @ np.diag(rng.uniform(0.3, 3, n)) @ Q.T
    return 0.5 * (C + C.T)


def sparse_spd(rng, n):
    B = np.eye(n) + np.tril(rng.normal(size=(n, n)) * (rng.uniform(size=(n, n)) < min(1, 2 / n)), -1) * 0.5
    return B @ np.diag(rng.uniform(0.5, 2, n)) @ B.T


def operator(rng):
    """(Covariance, dense covariance of the nodal values)"""
    if rng.uniform() < 0.6:
        mesh = Mesh1D(resolution=(int(rng.integers(2, 6)),), box=[0, float(rng.uniform(0.5, 2))])
    else:
        mesh = QuadMesh(resolution=(int(rng.integers(1, 3)), int(rng.integers(1, 3))))
    if rng.uniform() < 0.4:
        list(mesh.cells.get_leaves())[0].mark('r')
        mesh.cells.refine(refinement_flag='r')
    dh = DofHandler(mesh, QuadFE(mesh.dim(), ['Q1', 'DQ0', 'DQ1'][int(rng.integers(0, 3))]))
    dh.distribute_dofs()
    cov = Covariance(dh, name='exponential', parameters={'l': float(rng.uniform(0.3, 1)), 'sgm': float(rng.uniform(0.5, 2))},
                     discretization=['interpolation', 'galerkin'][int(rng.integers(0, 2))])
    M, C = np.asarray(cov.get_mass_matrix()), np.asarray(cov.get_matrix())
    Mi = np.linalg.inv(M)
    return cov, Mi @ C @ Mi


def dense(x):
    return x.toarray() if sparse.issparse(x) else np.asarray(x)


def field(rng, kind, n=None):
    """(field, dense covariance, mean array, mode, text)"""
    n = int(rng.integers(1, 11)) if n is None else n
    prec = cov = None
    mode = 'covariance'
    if kind == 'operator':
        cov, S = operator(rng)
        n = cov.get_size()
        arg = dict(covariance=cov)
    elif kind in ('precision', 'canonical'):
        u = int(rng.integers(0, 4))
        Q = sparse_spd(rng, n) if u in (0, 3) else spd(rng, n)
        g = [sparse.csc_matrix, np.array, lambda a: EigenDecomposition(a.copy()), lambda a: CholeskyDecomposition(sparse.csc_matrix(a), verbose=False)][u](Q)
        arg = dict(precision=g)
        S = np.linalg.inv(Q)
        mode = 'precision'
    else:
        S = sparse_spd(rng, n) if kind == 'sparse' else spd(rng, n)
        g = S.copy()
        if kind == 'deficient':
            n = max(n, 2)
            r = int(rng.integers(1, n))
            B = np.linalg.qr(rng.normal(size=(n, n)))[0][:, :r]
            S = B @ np.diag(rng.uniform(0.3, 3, r)) @ B.T
            S = 0.5 * (S + S.T)
            g = EigenDecomposition(S.copy(), delta=0) if rng.uniform() < 0.5 else S.copy()
        elif kind == 'eig':
            g = EigenDecomposition(S.copy())
        elif kind == 'chol':
            g = CholeskyDecomposition(S.copy(), verbose=False) if rng.uniform() < 0.5 else CholeskyDecomposition(sparse.csr_matrix(S), verbose=False)
        elif kind == 'sparse':
            g = sparse.csr_matrix(S) if rng.uniform() < 0.5 else sparse.csc_matrix(S)
        arg = dict(covariance=g)
    mean = None if rng.uniform() < 0.2 and kind != 'canonical' else rng.normal(size=(n, int(rng.integers(1, 4)) if kind != 'canonical' else 1)) * 2
    if kind == 'canonical':
        b = np.linalg.inv(S) @ mean
        f = GaussianField(n, canonical_mean=b, **arg)
        mode = 'canonical' if rng.uniform() < 0.5 else 'precision'
    else:
        f = GaussianField(n, mean=None if mean is None else mean.copy(), **arg)
    if mean is None:
        mean = np.zeros((n, 1))
    return f, S, mean, mode, '%s n=%d %s means %s' % (kind, n, type(list(arg.values())[0]).__name__, mean.shape)


def gaussian(ctx, mon, X, mu, S, what):
    """Samples X have mean mu and covariance S (tested on the range of S)."""
    d, V = np.linalg.eigh(S)
    k = d > 1e-6 * max(d.max(), 1e-300)
    Y = (V[:, k].T @ (X - mu)) / np.sqrt(d[k])[:, None]
    N = X.shape[1]
    ctx.ok(mon, np.all(np.abs(Y.mean(axis=1)) < 7 / np.sqrt(N)), lambda: '%s: means of whitened samples %s' % (what, Y.mean(axis=1)))
    c = Y @ Y.T / N - np.eye(k.sum())
    ctx.ok(mon, np.all(np.abs(c) < 7 * np.sqrt(2 / N) + 0.01), lambda: '%s: covariance of whitened samples off by %s' % (what, np.abs(c).max()))
    if (~k).any():
        Z = V[:, ~k].T @ (X - mu)
        ctx.close(mon, Z, 0 * Z, 1e-3, what + ': no variation outside of the range', scale=np.sqrt(max(d.max(), 1)))


def run(case, ctx):
    rng = ctx.rng
    np.random.seed(int(rng.integers(0, 2 ** 31)))
    with contextlib.redirect_stdout(io.StringIO()):
        _run(case, ctx, rng)


def _run(case, ctx, rng):
    kind = case['kind']
    f, S, mean, mode, what = field(rng, kind)
    n, nm = mean.shape
    tol = 1e-6 if kind in ('operator', 'deficient') else 1e-9
    sc = max(1e-3, np.abs(S).max())
    given = f.get_covariance() if mode == 'covariance' else f.get_precision()
    before = dense(given.get_matrix()).copy()
    # ---- means
    ctx.ok('mean', f.size() == n and f.get_size() == n, what)
    ctx.close('mean', f.get_mean(), mean, 1e-8, 'get_mean: ' + what)
    for c in range(nm):
        ctx.close('mean', f.mean(c) if c or rng.uniform() < 0.5 else f.mean(), mean[:, [c]], 1e-8, 'mean: ' + what)
        k = int(rng.integers(1, 4))
        ctx.close('mean', f.mean(c, n_copies=k), np.tile(mean[:, [c]], (1, k)), 1e-8, 'copies of the mean: ' + what)
    # ---- sampling is affine, its linear part a square root of the covariance
    col = int(rng.integers(0, nm))
    zero = f.sample(z=np.zeros((n, 1)), mode=mode, m_col=col)
    ctx.close('affine', zero, mean[:, [col]], 1e-8, 'sample of zero noise: ' + what)
    W = f.sample(z=np.eye(n), mode=mode, m_col=col) - mean[:, [col]]
    ctx.close('covariance', W @ W.T, S, tol, 'covariance of samples (%s): %s' % (mode, what), scale=sc)
    z = rng.normal(size=(n, int(rng.integers(1, 4))))
    z0 = z.copy()
    X = f.sample(z=z, mode=mode, m_col=col)
    ctx.close('affine', X, mean[:, [col]] + W @ z, 1e-8, 'sample (%s): %s' % (mode, what), scale=10 * np.sqrt(sc))
    ctx.ok('inputs', np.array_equal(z, z0), what)
    if mode == 'covariance' and col == 0:
        ctx.close('affine', f.sample(z=z), X, 1e-12, 'default mode: ' + what, scale=10)
    if mode == 'precision':
        ctx.close('affine', f.sample(z=z, mode='canonical', m_col=col), X, 1e-8, 'canonical mode: ' + what, scale=10 * np.sqrt(sc))
    ctx.raises('inputs', lambda: f.sample(z=np.zeros((n + 1, 2)), mode=mode), AssertionError, 'noise of the wrong size: ' + what)
    ctx.raises('inputs', lambda: f.sample(mode='precision' if mode == 'covariance' else 'covariance'), AssertionError, 'no such matrix: ' + what)
    k = int(rng.integers(1, 4))
    ctx.ok('random', f.sample(n_samples=k, mode=mode, m_col=col).shape == (n, k) and f.sample(mode=mode).shape == (n, 1), what + ': shape of random samples')
    ctx.ok('random', f.iid_gauss(n_samples=k).shape == (n, k), what)
    if rng.uniform() < 0.5:
        X = f.sample(n_samples=NS, mode=mode, m_col=col)
        gaussian(ctx, 'random', X, mean[:, [col]], S, 'random samples (%s): %s' % (mode, what))
    # ---- canonical parameters
    if kind != 'deficient' and np.linalg.cond(S) < 1e5:
        Q = np.linalg.inv(S)
        b = Q @ mean[:, [0]]
        t = 1e-6 if kind == 'operator' else 1e-8
        s = np.abs(Q).max() * n * (1 + np.abs(mean).max())
        ctx.close('canonical', f.b(), b, t, 'b: ' + what, scale=s)
        f.compute_canonical_mean()
        ctx.close('canonical', f.get_canonical_mean(), b, t, 'canonical mean: ' + what, scale=s)
        if nm == 1:
            f.compute_mean()
            ctx.close('canonical', f.get_mean(), mean, t, 'mean from the canonical mean: ' + what, scale=s * sc)
        if rng.uniform() < 0.5:
            mean2 = rng.normal(size=(n, 1))
            g = GaussianField(n, mean=mean[:, [0]], **({'covariance': given} if mode == 'covariance' else {'precision': given}))
            if rng.uniform() < 0.7:
                g.b()
            g.set_mean(mean2)
            ctx.close('canonical', g.b(), Q @ mean2, t, 'b after the mean was set again: ' + what, scale=s)
        b2 = rng.normal(size=(n, 1))
        g = GaussianField(n, canonical_mean=b2, **({'covariance': given} if mode == 'covariance' else {'precision': given}))
        ctx.close('canonical', g.get_mean(), S @ b2, t, 'field given by its canonical mean: ' + what, scale=s * sc)
        ctx.close('canonical', g.b(), b2, t, 'b of a field given by its canonical mean: ' + what, scale=s * sc)
        ctx.close('canonical', g.sample(z=z, mode=mode), S @ b2 + W @ z, t, 'its samples: ' + what, scale=s * sc * 10)
    # ---- matrices set afterwards, with either decomposition
    if kind != 'deficient' and kind != 'operator' and np.linalg.cond(S) < 1e5:
        g = GaussianField(n, mean=mean.copy(), covariance=np.eye(n) if rng.uniform() < 0.5 else None)
        dec = 'eig' if rng.uniform() < 0.5 else 'chol'
        md = 'precision' if rng.uniform() < 0.5 else 'covariance'
        B = S.copy() if md == 'covariance' else np.linalg.inv(S)
        B = (B + B.T) / 2
        B0 = B.copy()
        (g.set_covariance if md == 'covariance' else g.set_precision)(B, decomposition=dec)
        own = g.get_covariance() if md == 'covariance' else g.get_precision()
        ctx.ok('set', isinstance(own, EigenDecomposition if dec == 'eig' else CholeskyDecomposition), '%s set (%s): %s' % (md, dec, what))
        Ws = g.sample(z=np.eye(n), mode=md, m_col=col) - mean[:, [col]]
        ctx.close('set', Ws @ Ws.T, S, 1e-8, '%s set (%s): %s' % (md, dec, what), scale=np.linalg.cond(S) * sc)
        ctx.ok('set', np.array_equal(B, B0), what)
    # ---- expansions
    if mode == 'covariance' and isinstance(given, EigenDecomposition):
        d, V = given.get_factors()
        full = mean[:, [0]] + V @ (np.sqrt(d)[:, None] * z)
        if n > 1:
            i = int(rng.integers(0, n - 1))
            lo = f.KL_sample(i_max=i, z=z[:i + 1])
            hi = f.KL_sample(i_min=i + 1, z=z[i + 1:])
            ctx.close('expansion', lo, mean[:, [0]] + V[:, :i + 1] @ (np.sqrt(d)[:i + 1, None] * z[:i + 1]), 1e-9, 'leading terms to %d: %s' % (i, what), scale=10)
            ctx.close('expansion', lo + hi - mean[:, [0]], full, 1e-9, 'terms split at %d: %s' % (i, what), scale=10)
            a, b = sorted([int(v) for v in rng.integers(0, n, 2)])
            ctx.ok('expansion', f.KL_sample(i_min=a, i_max=b, n_samples=k).shape == (n, k), what + ': shape of an expansion')
            Y = f.KL_sample(i_min=a, i_max=b, n_samples=400) - mean[:, [0]]
            Mm = np.eye(n) if not given.has_mass_matrix() else dense(given.get_mass_matrix())
            out = [q for q in range(n) if q < a or q > b]
            ctx.close('expansion', V[:, out].T @ Mm @ Y, np.zeros((len(out), 400)), 1e-8, 'terms %d to %d only: %s' % (a, b, what), scale=10)
            inn = V[:, a:b + 1].T @ Mm @ Y
            v = np.mean(inn ** 2, axis=1) / d[a:b + 1] if np.all(d[a:b + 1] > 1e-10) else np.ones(b - a + 1)
            ctx.ok('random', np.all(np.abs(v - 1) < 7 * np.sqrt(2 / 400)), lambda: '%s: variances of the terms %d to %d relative to the eigenvalues: %s' % (what, a, b, v))
        ctx.close('expansion', f.KL_sample(z=z), full, 1e-9, 'all terms: ' + what, scale=10)
        ctx.raises('expansion', lambda: f.KL_sample(i_min=n), AssertionError, 'index out of range: ' + what)
        # ---- truncation
        lev = int(rng.integers(1, n + 1))
        if not (lev < n and d[lev - 1] - d[lev] < 1e-6):
            h = f.truncate(lev)
            Vk = V[:, :lev]
            St = Vk @ np.diag(d[:lev]) @ Vk.T
            ctx.close('truncate', h.mean(), mean[:, [0]], 1e-9, 'mean of the truncation: ' + what)
            m = h.get_covariance().get_size()
            Wt = h.sample(z=np.eye(m)) - h.mean()
            ctx.close('truncate', Wt @ Wt.T, St, 1e-6, 'truncated at %d: %s' % (lev, what), scale=sc)
            ctx.ok('truncate', np.linalg.matrix_rank(Wt @ Wt.T, tol=1e-9 * sc) <= lev, 'rank: ' + what)
            ctx.ok('truncate', h.size() == n, what)
            ctx.raises('truncate', lambda: f.truncate(n + 1), AssertionError, 'level too large: ' + what)
    # ---- supports
    if kind != 'canonical':
        f.update_support(mode=mode)
        U = f.support()
        d, V = np.linalg.eigh(S)
        keep = d > 1e-9 * sc
        r = int(keep.sum())
        m = U.shape[1]
        P = V[:, keep] @ V[:, keep].T
        if ctx.ok('support', U.shape[0] == n and (m == r or (kind == 'operator' and m >= r)), lambda: '%s: support %s, rank %d' % (what, U.shape, r)):
            ctx.close('support', U.T @ U, np.eye(m), 1e-8, 'orthonormal support: ' + what)
            if m == r:
                ctx.close('support', U @ U.T, P, 1e-6, 'support: ' + what)
            W2 = f.sample(z=np.eye(m), mode=mode, m_col=col) - mean[:, [col]]
            ctx.close('support', W2 @ W2.T, S, max(tol, 1e-8), 'covariance on the support: ' + what, scale=sc)
            v = rng.normal(size=(n, 2))
            a, b = f.project(v), f.project(v, 'nullspace')
            ctx.close('support', a, U @ (U.T @ v), 1e-9, 'projection: ' + what, scale=10)
            ctx.close('support', a + b, v, 1e-9, 'projections: ' + what, scale=10)
            ctx.ok('support', f.iid_gauss(3).shape == (m, 3), what)
            if kind != 'operator' and m == r and d[keep].min() > 1e-4 * sc:
                # canonical parameters of the restricted field
                mean3 = P @ rng.normal(size=(n, 1))
                g = GaussianField(n, mean=mean3, **({'covariance': S.copy()} if mode == 'covariance' else {'precision': np.linalg.inv(S)}))
                g.update_support(mode=mode)
                b = np.linalg.pinv(S, rcond=1e-8) @ mean3
                s3 = 10 * (1 + np.abs(b).max())
                ctx.close('canonical', g.b(), b, 1e-6, 'b on the support: ' + what, scale=s3)
                g.compute_mean()
                ctx.close('canonical', g.get_mean(), mean3, 1e-6, 'mean from b on the support: ' + what, scale=s3 * sc)
            X = f.sample(n_samples=20, mode=mode) - f.mean()
            if m == r:
                ctx.close('support', P @ X, X, 1e-6, 'samples in the range: ' + what, scale=10)
            if rng.uniform() < 0.5:
                f.update_support(mode=mode)
                m2 = f.support().shape[1]
                W3 = f.sample(z=np.eye(m2), mode=mode, m_col=col) - mean[:, [col]]
                ctx.close('support', W3 @ W3.T, S, max(tol, 1e-8), 'covariance after a second update: ' + what, scale=sc)
    ctx.ok('inputs', np.array_equal(dense(given.get_matrix()), before), what + ': matrix changed')
    ctx.sig(kind, n, S.tobytes())
    ctx.note(what)
