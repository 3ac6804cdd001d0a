"""A04: forms restricted to marked cells, edges and vertices, and assembly over marked cells."""
import numpy as np
from vmon import gens as G
from vmon import femgen as F
from vmon import asmref as R
from vmon.props.a02 import make_mesh, build, argument, check, gauss, text
from assembler import Assembler, Form

RULE = ('A case is one assembler with forms over all or marked cells, edges and vertices (random marks, possibly empty), or over the '
        'marked cells only; arrays are compared with independent sums over exactly the marked regions. '
        'Distinct by forms, marks, mesh and submesh.')
REQUIRED = {'assembled': 600, 'problems': 200, 'regions': 400, 'restricted': 60}


def cases(tier):
    k = 1 if tier == 'quick' else 16
    return [{'kind': d} for d in ('quad', 'quad', 'periodic', '1d', '1dper') for _ in range(60 * k)]


def run(case, ctx):
    rng = ctx.rng
    mesh, wrap, info, flags = make_mesh(rng, case['kind'])
    dim = mesh.dim()
    asm = flags[int(rng.integers(0, len(flags)))]
    cells = F.leaves(mesh, asm)
    what = '%s sub=%s' % (info, asm)
    # marks
    frac = rng.choice([0.15, 0.4, 1.0])
    for c in cells:
        if rng.uniform() < frac:
            c.mark('cc')
        if dim == 2:
            for he in c.get_half_edges():
                if rng.uniform() < 0.25:
                    he.mark('ee')
    # marks on coarser and finer cells do not concern the submesh
    if rng.uniform() < 0.5:
        inside = {id(c) for c in cells}
        for r in mesh.cells.get_children():
            for c in r.traverse():
                if id(c) not in inside and rng.uniform() < 0.3:
                    c.mark('cc')
    if rng.uniform() < 0.5 and dim == 2:
        for c in cells:
            for he in c.get_half_edges():
                if he.twin() is None:
                    he.mark('bb')
    # vertices that belong to one cell only
    count = {}
    for c in cells:
        vs = [c.base(), c.head()] if dim == 1 else [h.base() for h in c.get_half_edges()]
        for v in vs:
            count.setdefault(wrap.key(v.coordinates()), []).append(v)
    single = [v for l in count.values() if len(l) == 1 for v in l]
    for v in single:
        if rng.uniform() < 0.6:
            v.mark('vv')
    dmus = [('dx', None), ('dx', 'cc'), ('dx', 'none')]
    if dim == 2:
        dmus += [('ds', 'ee'), ('ds', 'bb'), ('ds', None), ('ds', 'none')]
    if single:
        dmus += [('dv', 'vv'), ('dv', 'none')]
    sp = [R.Space(*s) for s in R.spaces_for(rng, mesh, flags, asm, 2, only=[asm])]
    m = int(rng.integers(1, 4)) if rng.uniform() < 0.4 else 1
    problems = build(rng, mesh, flags, asm, dim, lambda: R.Ker(rng, dim, m, sp, derivatives=rng.uniform() < 0.5), True, dmus=dmus, maxproblems=2)
    for p in problems:
        for s in p:
            for c in cells:
                got = s.form.regions(c)
                want = []
                for kind, i in R.regions(c, s.dmu, s.flag):
                    want.append(c if kind == 'c' else c.get_half_edge(i) if kind == 'e' else
                                (c.get_half_edge(i).base() if dim == 2 else (c.base(), c.head())[i]))
                ctx.ok('regions', len(got) == len(want) and {id(v) for v in got} == {id(v) for v in want}, 'regions of %s %s' % (s.text, what))
    ng, kw = gauss(rng)
    A = Assembler(argument(rng, problems), mesh, subforest_flag=asm, **kw)
    A.assemble()
    check(ctx, 'assembled', A, problems, cells, ng, what)
    marked = [c for c in cells if c.is_marked('cc')]
    if marked and rng.uniform() < 0.7:
        B = Assembler(argument(rng, problems), mesh, subforest_flag=asm, **kw)
        B.assemble(region_flag='cc')
        for i, p in enumerate(problems):
            for d in (0, 1, 2):
                s = [q for q in p if q.dim == d]
                if not s:
                    continue
                md = max(q.ker.m for q in s)
                want, S = R.assemble(s, marked, md, ng)
                t = 2e-7 * (1, 5, 50)[max([len(R.ORD[x.der]) for q in s for x in (q.test, q.trial) if x is not None] +
                                          [len(o) for q in s for o in q.ker.ords])] * len(marked) ** 0.5
                keep = []
                for x in (s[0].test, s[0].trial)[:d]:
                    keep.append(sorted({int(v) for c in marked for v in x.basis.dofs(c)}))
                if d:
                    ud = B.assembled_forms(i)[d].aggregate_data()['udofs']
                    ctx.ok('restricted', [list(v) for v in ud] == keep, lambda: 'dofs of the restricted problem %s, expected %s %s' % (ud, keep, what))
                for j in range(md):
                    if d == 0:
                        got, w = np.reshape(B.get_scalar(i, j), ()), want[j]
                    elif d == 1:
                        got, w = B.get_vector(i, j), want[[s[0].test.pos[v] for v in keep[0]], j]
                    else:
                        got = B.get_matrix(i, j).toarray()
                        w = want[np.ix_([s[0].test.pos[v] for v in keep[0]], [s[0].trial.pos[v] for v in keep[1]])][:, :, j]
                    ctx.close('restricted', got, w, t, 'assembled over marked cells: %s %s' % (what, text(problems)[i]), scale=max(S, 1e-3))
    ctx.sig(info['type'], G.mesh_sig(mesh, asm), text(problems), len(marked))
    ctx.note(what + ' ' + text(problems)[0])
