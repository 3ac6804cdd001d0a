"""A03: kernels: compositions of explicit, constant and nodal functions, their derivatives and samples, in assembly and alone."""
import numpy as np
from vmon import gens as G
from vmon import femgen as F
from vmon import asmref as R
from vmon.props.a02 import make_mesh, build, argument, check, gauss, text
from assembler import Assembler, Kernel, Form
from function import Explicit, Constant

RULE = ('A case is one assembler whose kernels combine explicit, constant and nodal functions (with derivatives and a combination rule '
        'that may use the cell), some sampled and some not; kernels are evaluated alone and inside the assembly and compared with '
        'direct evaluation. Distinct by kernels, forms, mesh and submesh.')
REQUIRED = {'kernel': 400, 'assembled': 600, 'problems': 200, 'samples': 400, 'arguments': 1000, 'unequal': 400}


def cases(tier):
    k = 1 if tier == 'quick' else 16
    return [{'kind': d} for d in ('quad', 'quad', 'periodic', '1d', '1dper') for _ in range(50 * k)]


def arguments(ctx, rng, cells, dim, sp, what):
    """Combination rules get exactly the arguments of the present evaluation."""
    names = ['cell', 'region', 'phi', 'dofs']
    takes = [n for n in names if rng.uniform() < 0.6]
    rng.shuffle(takes)
    same = lambda a, b: a is b or (isinstance(a, dict) and isinstance(b, dict) and a.keys() == b.keys() and all(np.array_equal(a[k], b[k]) for k in a))
    seen, nf = [], int(rng.integers(1, 3))
    look = lambda f, kw: (seen.append(kw), f[0] + (kw['cell'] is not None if 'cell' in kw else 0) * 1.0)[1]
    src = 'lambda %s: look([%s], dict(%s))' % (
        ', '.join(['f%d' % i for i in range(nf)] + ['%s=None' % n if rng.uniform() < 0.5 or i else n for i, n in enumerate(takes)]),
        ', '.join('f%d' % i for i in range(nf)), ', '.join('%s=%s' % (n, n) for n in takes))
    a = rng.normal(size=dim)
    ker = Kernel([Explicit(lambda x: x @ a, dim=dim)] + [Constant(2.0)] * (nf - 1), F=eval(src, {'look': look}))
    for _ in range(4):
        c = cells[int(rng.integers(0, len(cells)))]
        x = F.cell_nodes(c, rng.uniform(0.05, 0.95, (2, dim)))
        given = {'cell': c, 'region': c, 'phi': {s.basis: s.at(c, x)[0] for s in sp}, 'dofs': {s.basis: s.basis.dofs(c) for s in sp}}
        given = {n: v if rng.uniform() < 0.5 else None for n, v in given.items()}
        v = ker.eval(x, **{n: g for n, g in given.items() if g is not None or rng.uniform() < 0.5})
        if ctx.ok('arguments', set(seen[-1]) == set(takes) and all(same(seen[-1][n], given[n]) for n in takes),
                  'rule %s was given %s, evaluated with %s; %s' % (src, {n: type(v).__name__ for n, v in seen[-1].items()},
                                                                 {n: type(v).__name__ for n, v in given.items()}, what)):
            ctx.close('arguments', np.ravel(v), x @ a + (given['cell'] is not None and 'cell' in takes), 1e-12, 'value of rule ' + src)


def unequal(ctx, rng, dim):
    """Functions with different numbers of samples cannot be combined; one sample goes with any number."""
    ms = [int(v) for v in rng.integers(1, 4, int(rng.integers(2, 5)))]
    fs = [Explicit([lambda x, i=i, j=j: 0 * x[:, 0] + 10 * i + j for j in range(m)], dim=dim) if m > 1 else Constant(10.0 * i) for i, m in enumerate(ms)]
    try:
        ker = Kernel(fs, F=lambda *f: sum(f))
    except Exception:
        ker = None
    many = set(ms) - {1}
    if ctx.ok('unequal', (ker is None) == (len(many) > 1), 'kernel of functions with %s samples %s' % (ms, 'refused' if ker is None else 'accepted')) and ker is not None:
        m = max(ms)
        want = [[sum(10 * i + (j if k > 1 else 0) for i, k in enumerate(ms)) for j in range(m)]] * 2
        ctx.close('unequal', ker.eval(rng.uniform(0, 1, (2, dim))), np.array(want, dtype=float), 1e-12, 'kernel of functions with %s samples' % ms)


def run(case, ctx):
    rng = ctx.rng
    mesh, wrap, info, flags = make_mesh(rng, case['kind'])
    dim = mesh.dim()
    asm = flags[int(rng.integers(0, len(flags)))]
    cells = F.leaves(mesh, asm)
    what = '%s sub=%s' % (info, asm)
    sp = [R.Space(*s) for s in R.spaces_for(rng, mesh, flags, asm, 2, only=[asm])]
    # kernels alone
    for _ in range(3):
        k = R.Ker(rng, dim, int(rng.integers(1, 4)), sp)
        ctx.ok('samples', (k.kernel if isinstance(k.kernel, Kernel) else Kernel(k.kernel)).n_samples() == k.m, 'kernel samples ' + k.text)
        c = cells[int(rng.integers(0, len(cells)))]
        r = rng.uniform(0.05, 0.95, (int(rng.integers(1, 6)), dim))
        x = F.cell_nodes(c, r)
        want = k.value(c, x)
        ker = k.kernel if isinstance(k.kernel, Kernel) else Kernel(k.kernel)
        o = max(len(v) for v in k.ords)
        ctx.close('kernel', ker.eval(x, cell=c), want, (1e-8, 1e-6, 1e-5)[o] * 10, 'kernel %s on cell %s %s' % (k.text, c.get_node_address(), what),
                  scale=max(1, np.abs(want).max()))
        phi, idx = {}, {}
        for s in sp:
            phi[s.basis], _ = s.at(c, x)
            idx[s.basis] = s.basis.dofs(c)
        ctx.close('kernel', ker.eval(x, cell=c, phi=phi, dofs=idx, region=c), want, (1e-8, 1e-6, 1e-5)[o] * 10,
                  'kernel %s on cell %s with shape functions %s' % (k.text, c.get_node_address(), what), scale=max(1, np.abs(want).max()))
    arguments(ctx, rng, cells, dim, sp, what)
    unequal(ctx, rng, dim)
    m = [1]

    def kernel():
        return R.Ker(rng, dim, m[0] if rng.uniform() < 0.6 else 1, sp)
    m[0] = int(rng.integers(1, 4))
    problems = build(rng, mesh, flags, asm, dim, kernel, True, maxproblems=2)
    ng, kw = gauss(rng)
    A = Assembler(argument(rng, problems), mesh, subforest_flag=asm, **kw)
    A.assemble()
    check(ctx, 'assembled', A, problems, cells, ng, what)
    for i, p in enumerate(problems):
        for d, name in ((0, 'constant'), (1, 'linear'), (2, 'bilinear')):
            s = [q for q in p if q.dim == d]
            if s:
                ctx.ok('samples', A.assembled_forms(i)[d].n_samples() == max(q.ker.m for q in s), 'samples of assembled form')
    ctx.sig(info['type'], G.mesh_sig(mesh, asm), text(problems))
    ctx.note(what + ' ' + text(problems)[0])
