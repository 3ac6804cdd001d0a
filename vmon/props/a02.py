"""A02: assembled matrices, vectors and numbers are the quadrature sums of their forms."""
import numpy as np
from vmon import gens as G
from vmon import femgen as F
from vmon import asmref as R
from assembler import Assembler

RULE = ('A case is one assembler with 1-3 problems of 1-4 forms (constant, linear, bilinear; any elements and derivatives; sampled '
        'kernels) on one balanced mesh or submesh; every array is compared entry by entry with an independent sum over cells. '
        'Distinct by forms, mesh and submesh.')
REQUIRED = {'assembled': 600, 'problems': 200, 'order': 200, 'lists': 200}


def cases(tier):
    k = 1 if tier == 'quick' else 16
    return [{'kind': d} for d in ('quad', 'quad', 'periodic', '1d', '1dper') for _ in range(50 * k)]


def make_mesh(rng, kind, maxcells=10):
    while True:
        mesh, wrap, info, flags = F.fem_mesh(rng, kind, maxcells=maxcells, rmax=2)
        if True:
            return mesh, wrap, info, flags


def gauss(rng):
    if rng.uniform() < 0.4:
        return (4, 16), {}
    n = (R.GAUSS1[int(rng.integers(0, 6))], R.GAUSS2[int(rng.integers(0, 6))])
    return n, {'n_gauss': n}


def build(rng, mesh, flags, asm, dim, kernel, own, dmus=(('dx', None),), maxproblems=3, names=None, known=None):
    """Random problems: [[Spec, ...], ...].  own: all spaces live on the assembler's submesh."""
    problems = []
    known = [] if known is None else known
    pick = lambda: R.spaces_for(rng, mesh, flags, asm, 1, only=[asm] if own else None, names=names, known=known)[0]
    for _ in range(int(rng.integers(1, maxproblems + 1))):
        tst = pick()
        trl = tst if rng.uniform() < 0.5 else pick()
        lin = tst if rng.uniform() < 0.7 else pick()
        specs = []
        for d in [int(v) for v in rng.integers(0, 3, int(rng.integers(1, 5)))]:
            dmu, fl = dmus[int(rng.integers(0, len(dmus)))]
            specs.append(R.Spec(kernel(), R.rnd_space(rng, lin if d == 1 else tst, dim) if d else None,
                                R.rnd_space(rng, trl, dim) if d == 2 else None, dmu, fl))
        problems.append(specs)
    return problems


def one_sample_size(rng, mk):
    """A kernel factory: all kernels made by one call of the factory's maker share a sample size or have one sample."""
    m = int(rng.integers(2, 4)) if rng.uniform() < 0.6 else 1
    return lambda: mk(m if rng.uniform() < 0.6 else 1)


def argument(rng, problems):
    forms = [[s.form for s in p] for p in problems]
    if len(forms) == 1:
        u = rng.uniform()
        return forms if u < 0.4 else forms[0] if u < 0.8 or len(forms[0]) > 1 else forms[0][0]
    arg = [p[0] if len(p) == 1 and rng.uniform() < 0.3 else p for p in forms]
    return forms if all(not isinstance(p, list) for p in arg) else arg


def check(ctx, monitor, A, problems, cells, ng, what, order=True):
    for i, p in enumerate(problems):
        R.compare(ctx, monitor, A, i, p, cells, max(s.ker.m for s in p), ng, what + ' problem %d: %s' % (i, ' + '.join(s.text for s in p)))
        for d, name in ((0, 'constant'), (1, 'linear'), (2, 'bilinear')):
            sp = [s for s in p if s.dim == d]
            if not sp:
                continue
            ctx.ok('problems', A.n_samples(i, name) == max(s.ker.m for s in sp), 'number of samples ' + what)
            if d and order:
                ud = A.assembled_forms(i)[d].aggregate_data()['udofs']
                ctx.ok('order', [list(x) for x in ud] == [x.dofs for x in (sp[0].test, sp[0].trial)[:d]], 'rows and columns ' + what)


def text(problems):
    return [' + '.join(s.text for s in p) for p in problems]


def run(case, ctx):
    rng = ctx.rng
    mesh, wrap, info, flags = make_mesh(rng, case['kind'])
    dim = mesh.dim()
    asm = flags[int(rng.integers(0, len(flags)))]
    cells = F.leaves(mesh, asm)
    m = int(rng.integers(1, 4)) if rng.uniform() < 0.4 else 1
    problems = build(rng, mesh, flags, asm, dim,
                     lambda: R.Ker(rng, dim, m, None, derivatives=False, names=('explicit', 'constant')), True,
                     dmus=[('dx', None)] * 3 + [('ds', None)] * (dim == 2))
    ng, kw = gauss(rng)
    if asm is not None or rng.uniform() < 0.5:
        kw['subforest_flag'] = asm
    what = '%s sub=%s gauss %s' % (info, asm, ng)
    arg = argument(rng, problems)
    given = [list(p) if isinstance(p, list) else p for p in arg] if isinstance(arg, list) else arg
    A = Assembler(arg, mesh, **kw)
    ctx.ok('lists', arg == given, 'list of forms changed ' + what)
    if isinstance(arg, list) and rng.uniform() < 0.3:
        # the caller goes on using the lists
        for p in arg:
            if isinstance(p, list):
                p.append(p[0])
        if isinstance(arg[0], list):
            arg.append(list(arg[0]))
        else:
            arg.append(arg[0])
        what += ' lists extended afterwards'
    A.assemble()
    ctx.ok('problems', A.n_problems() == len(problems) and A.mesh() is mesh and A.subforest_flag() == asm, what)
    check(ctx, 'assembled', A, problems, cells, ng, what)
    ctx.sig(info['type'], G.mesh_sig(mesh, asm), text(problems))
    ctx.note(what + ' ' + text(problems)[0])
