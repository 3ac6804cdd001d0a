"""G04: conditional Gaussian fields (GaussianField.condition)."""
import contextlib, io
import numpy as np
from scipy import sparse
from gmrf import GaussianField
from vmon.props.g03 import field, gaussian, dense

RULE = ('A case is one Gaussian field (any way of giving it, full or deficient rank) conditioned on exact or noisy observations, pointwise or linear (dense or sparse), as samples or as a field, '
        'in one step or successively. Distinct by parameters and observations.')
REQUIRED = {'hard-sample': 150, 'hard-field': 150, 'constraint': 150, 'soft-field': 100, 'soft-sample': 30, 'successive': 60, 'inputs': 200}
ASSUMPTIONS = ['exact observations have a regular covariance and do not determine the field', 'finite element covariances are regular', 'random samples are tested at seven standard deviations']
NS = 3000


def cases(tier):
    k = 3 if tier == 'quick' else 25
    return [{'kind': K} for K in ('array', 'eig', 'chol', 'sparse', 'operator', 'precision', 'precision', 'canonical', 'deficient', 'deficient') for _ in range(34 * k)]


def observation(rng, n, S, k, soft=False):
    """(argument, dense matrix) of k observations, regular on the range of S."""
    for _ in range(200):
        u = int(rng.integers(0, 4))
        if u == 0:
            idx = rng.permutation(n)[:k]
            A = np.eye(n)[idx]
            arg = idx if rng.uniform() < 0.7 else [sparse.coo_matrix, sparse.csr_matrix][int(rng.integers(0, 2))](A)
        else:
            A = rng.normal(size=(k, n)) * (rng.uniform(size=(k, n)) < 0.6)
            arg = A.copy() if u < 3 else [sparse.coo_matrix, sparse.csr_matrix, sparse.csc_matrix][int(rng.integers(0, 3))](A)
        w = np.linalg.eigvalsh(A @ S @ A.T)
        if w[0] > 2e-3 * max(np.abs(S).max(), 1e-300) and w[0] > 1e-3 * w[-1] or soft and w[-1] > 0:
            return arg, A
    return None, None


def run(case, ctx):
    np.random.seed(int(ctx.rng.integers(0, 2 ** 31)))
    with contextlib.redirect_stdout(io.StringIO()):
        _run(case, ctx, ctx.rng)


def _run(case, ctx, rng):
    kind = case['kind']
    while True:
        n0 = int(rng.integers(2, 11))
        f, S, mean, mode, what = field(rng, kind, n0)
        if mode == 'canonical':
            mode = 'precision'
        n, nm = mean.shape
        sc = max(1e-3, np.abs(S).max())
        d, V = np.linalg.eigh(S)
        keep = d > 1e-9 * sc
        r = int(keep.sum())
        if kind == 'deficient' or kind == 'operator' and r == n and rng.uniform() < 0.3:
            # conditioning needs the exact range
            f.update_support(mode=mode)
            what += ' on its support'
        soft = rng.uniform() < 0.35
        k = int(rng.integers(1, max(2, r))) if not soft else int(rng.integers(1, 4))
        if not soft and k >= r or k > n or kind == 'operator' and np.linalg.cond(S) > 1e5:
            continue
        arg, A = observation(rng, n, S, k, soft)
        if A is not None:
            break
    mu = mean[:, [0]]
    m = n if f.support() is None else f.support().shape[1]
    z = rng.normal(size=(m, int(rng.integers(1, 4))))
    Xs = f.sample(z=z, mode=mode)
    z0 = z.copy()
    tol = 1e-5 if kind in ('operator', 'deficient') else 1e-7
    big = 10 * np.sqrt(sc) * (1 + np.abs(A).max())
    e = A @ (mu + np.linalg.cholesky(S + 1e-9 * sc * np.eye(n)) @ rng.normal(size=(n, 1)))
    if r < n:
        e = A @ (mu + V[:, keep] @ (np.sqrt(d[keep])[:, None] * rng.normal(size=(r, 1))))
    e0, arg0 = e.copy(), dense(arg).copy()
    kw = {} if mode == 'covariance' and rng.uniform() < 0.5 else {'mode': mode}
    what += ' %d %s observations (%s) %s' % (k, 'noisy' if soft else 'exact', type(arg).__name__ + str(np.shape(arg)), mode)
    if not soft:
        Gn = S @ A.T @ np.linalg.inv(A @ S @ A.T)
        mc = mu + Gn @ (e - A @ mu)
        Sc = S - Gn @ A @ S
        # ---- samples
        X = f.condition(arg, e, z=z, **kw)
        ctx.close('constraint', A @ X, np.tile(e, (1, z.shape[1])), tol, 'samples satisfy the constraints: ' + what, scale=big)
        ctx.close('hard-sample', X, Xs - Gn @ (A @ Xs - e), tol, 'conditional sample: ' + what, scale=big)
        X = f.condition(arg, e, n_samples=5, output='sample', **kw)
        ctx.ok('hard-sample', X.shape == (n, 5), what + ': shape')
        ctx.close('constraint', A @ X, np.tile(e, (1, 5)), tol, 'random samples satisfy the constraints: ' + what, scale=big)
        if rng.uniform() < 0.3:
            X = f.condition(arg, e, n_samples=NS, **kw)
            if np.abs(Sc).max() > 1e-3 * sc:
                gaussian(ctx, 'hard-sample', X, mc, np.where(np.abs(Sc) < 1e-12 * sc, 0, 0.5 * (Sc + Sc.T)), 'conditional samples: ' + what)
        # ---- field
        c = f.condition(arg, e, output='field', **kw)
        ctx.close('hard-field', c.mean(), mc, tol, 'conditional mean: ' + what, scale=big)
        U = c.support()
        q = U.shape[1]
        W = c.sample(z=np.eye(q)) - c.mean() if q else np.zeros((n, 0))
        ctx.close('hard-field', W @ W.T, Sc, tol * 10, 'conditional covariance: ' + what, scale=sc)
        ctx.ok('hard-field', c.size() == n and (q == r - k if kind not in ('operator',) else q >= r - k), lambda: '%s: support of dimension %d, want %d - %d' % (what, q, r, k))
        if q:
            X = c.sample(n_samples=6)
            ctx.close('constraint', A @ X, np.tile(e, (1, 6)), max(1e-6, tol), 'samples of the conditional field satisfy the constraints: ' + what, scale=big)
            if q == r - k:
                ctx.close('hard-field', A @ U, np.zeros((k, q)), max(1e-6, tol), 'support in the kernel of the observations: ' + what, scale=10)
        # ---- successive conditioning
        B = None
        if q == r - k and q > 1:
            arg2, B = observation(rng, n, 0.5 * (Sc + Sc.T), int(rng.integers(1, q)))
        if B is not None and np.linalg.cond(np.vstack([A, B]) @ S @ np.vstack([A, B]).T) < 1e4:
            e2 = B @ (mc + U @ rng.normal(size=(q, 1)))
            AB, ee = np.vstack([A, B]), np.vstack([e, e2])
            Gt = S @ AB.T @ np.linalg.inv(AB @ S @ AB.T)
            c2 = c.condition(arg2, e2, output='field')
            ctx.close('successive', c2.mean(), mu + Gt @ (ee - AB @ mu), tol * 100, 'mean after two steps: ' + what, scale=big + np.abs(e2).max())
            q2 = c2.support().shape[1]
            W = c2.sample(z=np.eye(q2)) - c2.mean() if q2 else np.zeros((n, 0))
            ctx.close('successive', W @ W.T, S - Gt @ AB @ S, tol * 100, 'covariance after two steps: ' + what, scale=sc)
            ctx.ok('successive', q2 == q - len(B), lambda: '%s: dimension %d after two steps, want %d' % (what, q2, q - len(B)))
            X = c.condition(arg2, e2, n_samples=4)
            ctx.close('successive', AB @ X, np.tile(ee, (1, 4)), tol * 100, 'both constraints hold: ' + what, scale=big + np.abs(e2).max())
            one = f.condition(sparse.csr_matrix(AB) if rng.uniform() < 0.5 else AB, ee, output='field', **kw)
            ctx.close('successive', one.mean(), c2.mean(), tol * 100, 'one step or two: ' + what, scale=big + np.abs(e2).max())
    else:
        B = rng.normal(size=(k, k))
        Ko = (B @ B.T + 0.3 * np.eye(k)) * 10.0 ** rng.uniform(-1.5, 1.0) * sc
        Ko0 = Ko.copy()
        e = e + np.linalg.cholesky(Ko) @ rng.normal(size=(k, 1))
        e0 = e.copy()
        Gn = S @ A.T @ np.linalg.inv(A @ S @ A.T + Ko)
        mc = mu + Gn @ (e - A @ mu)
        Sc = S - Gn @ A @ S
        Sc = 0.5 * (Sc + Sc.T)
        big *= 1 + np.abs(Ko).max() / sc
        c = f.condition(arg, e, Ko=Ko, output='field', **kw)
        ctx.close('soft-field', c.mean(), mc, tol, 'posterior mean: ' + what, scale=big)
        q = n if c.support() is None else c.support().shape[1]
        W = c.sample(z=np.eye(q), mode=mode) - c.mean()
        ctx.close('soft-field', W @ W.T, Sc, tol * 10, 'posterior covariance: ' + what, scale=sc)
        if mode == 'precision' and f.support() is None:
            ctx.close('soft-field', dense(c.get_precision().get_matrix()), np.linalg.inv(S) + A.T @ np.linalg.solve(Ko, A), tol, 'posterior precision: ' + what, scale=np.abs(np.linalg.inv(Sc)).max())
        X = f.condition(arg, e, Ko=Ko, z=z, **kw)
        ctx.ok('soft-sample', X.shape == z.shape[:0] + (n, z.shape[1]), what + ': shape')
        # the correction of a sample lies in the range of K A'
        Q = np.linalg.qr(S @ A.T)[0] if np.linalg.matrix_rank(S @ A.T) == k else None
        if Q is not None:
            Dx = X - Xs
            ctx.close('soft-sample', Dx - Q @ (Q.T @ Dx), 0 * Dx, 1e-5, 'correction in the range of KA\': ' + what, scale=big)
        if rng.uniform() < 0.7:
            X = f.condition(arg, e, Ko=Ko, n_samples=NS, **kw)
            gaussian(ctx, 'soft-sample', X, mc, Sc, 'posterior samples: ' + what)
        # precise observations are nearly exact ones; vague ones change nothing
        w = np.linalg.eigvalsh(A @ S @ A.T)
        if w[0] > 1e-2 * sc:
            Xp = f.condition(arg, e, Ko=1e-10 * sc * np.eye(k), z=z, **kw)
            ctx.close('soft-sample', A @ Xp, np.tile(e, (1, z.shape[1])), 1e-3, 'precise observations: ' + what, scale=big)
        ctx.ok('inputs', np.array_equal(Ko, Ko0), what + ': covariance of the observations changed')
    ctx.ok('inputs', np.array_equal(e, e0) and np.array_equal(dense(arg), arg0) and np.array_equal(z, z0), what + ': inputs changed')
    ctx.close('inputs', f.sample(z=z, mode=mode), Xs, 1e-12, 'the field itself is unchanged: ' + what, scale=10)
    ctx.sig(kind, n, soft, S.tobytes(), A.tobytes())
    ctx.note(what)
