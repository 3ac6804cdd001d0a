"""A05: forms whose functions live on different submeshes of one mesh."""
import numpy as np
from vmon import gens as G
from vmon import femgen as F
from vmon import asmref as R
from vmon.props.a02 import make_mesh, build, argument, check, gauss, text
from assembler import Assembler, Form

RULE = ('A case is one assembler over one submesh whose test, trial and kernel functions live on coarser (or the same) submeshes, over cells, edges '
        'and vertices; arrays are compared with independent sums in which each function is evaluated on the cell of its own submesh. '
        'Distinct by forms, mesh and submeshes.')
REQUIRED = {'assembled': 500, 'problems': 200, 'order': 200, 'rejected': 40, 'later': 60}


def cases(tier):
    k = 1 if tier == 'quick' else 16
    return [{'kind': d} for d in ('quad', 'quad', 'periodic', '1d', '1dper') for _ in range(60 * k)]


def later_refinement(rng, mesh, flags):
    """Refine the mesh without touching its submeshes; returns the submesh (new, or the leaves) to assemble on."""
    asm = None if rng.uniform() < 0.5 else 'w'
    if asm:
        G.refine_label(rng, mesh, flags[-1], 'w', 0.3)
    else:
        G.random_refine(rng, mesh, 1, 0.25)
    if mesh.dim() == 2:
        if asm:
            mesh.balance(subforest_flag='w')
        mesh.balance()
    return asm


def run(case, ctx):
    rng = ctx.rng
    while True:
        mesh, wrap, info, flags = make_mesh(rng, case['kind'], maxcells=7)
        if len(flags) > 1:
            break
    dim = mesh.dim()
    asm = [None, 't', None, 't', 's'][int(rng.integers(0, 5))]
    cells = F.leaves(mesh, asm)
    what = '%s assembled on %s' % (info, asm)
    if dim == 2:
        for c in cells:
            for he in c.get_half_edges():
                if he.twin() is None:
                    he.mark('bb')
    dmus = [('dx', None), ('dx', None)] + ([('ds', 'bb')] if dim == 2 else [])
    later = rng.uniform() < 0.35
    if later:
        flags, asm = flags[1:], 't'
    known = []
    sp = [R.Space(*s) for s in R.spaces_for(rng, mesh, flags, asm, 2, known=known)]
    m = int(rng.integers(1, 4)) if rng.uniform() < 0.3 else 1
    problems = build(rng, mesh, flags, asm, dim, lambda: R.Ker(rng, dim, m, sp), False, dmus=dmus, maxproblems=2, known=known)
    if later:
        # the mesh is refined after the functions were made; their submeshes keep their cells
        asm = later_refinement(rng, mesh, flags)
        cells = F.leaves(mesh, asm)
        what = '%s assembled on %s after later refinement' % (info, asm)
        ctx.ok('later', len(cells) > 0, what)
    ng, kw = gauss(rng)
    A = Assembler(argument(rng, problems), mesh, subforest_flag=asm, **kw)
    A.assemble()
    check(ctx, 'assembled', A, problems, cells, ng, what)
    # functions on a finer submesh are refused
    fine = {'s': 't', 't': None}.get(asm)
    if not later and asm is not None and len(F.leaves(mesh, fine)) > len(cells):
        s = R.spaces_for(rng, mesh, flags, fine, 1, only=[fine])[0]
        b = R.Space(*s).basis
        ctx.raises('rejected', lambda: Assembler([Form(1, test=b)], mesh, subforest_flag=asm), AssertionError, 'finer basis')
    ctx.sig(info['type'], G.mesh_sig(mesh, asm), text(problems))
    ctx.note(what + ' ' + text(problems)[0])
