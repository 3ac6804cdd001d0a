"""M05: 2:1 balancing."""
import numpy as np
from vmon import gens as G
from vmon.geomodel import GeoModel

RULE = ('A case is one quad mesh (rectangular, unstructured, periodic) with an unbalanced submesh made by random or strongly '
        'graded refinement; the result of balancing is compared with the smallest balanced refinement computed from geometry '
        'alone. Non-trivial: the mesh was unbalanced; distinct by leaf addresses before and after.')
REQUIRED = {'query': 200, 'balanced': 200, 'minimal': 200, 'idempotent': 200, 'others': 50, 'unbalanced-seen': 80}


def cases(tier):
    k = 2 if tier == 'quick' else 12
    return [{'kind': 'whole'} for _ in range(80 * k)] + [{'kind': 'sub'} for _ in range(100 * k)] + \
        [{'kind': 'periodic'} for _ in range(60 * k)]


def graded(rng, mesh, label=None, depth=3):
    """Refine towards random points."""
    for _ in range(int(rng.integers(1, 3))):
        c = mesh.cells.get_child(int(rng.integers(0, mesh.cells.n_children())))
        corner = int(rng.integers(0, 4))
        for _ in range(depth):
            lv = [l for l in mesh.cells.get_leaves(subforest_flag=label) if c.contains(l)]
            if not lv or len(mesh.cells.get_leaves(subforest_flag=label)) > 80:
                break
            # deepest leaf; keep to one corner most of the time
            l = max(lv, key=lambda n: (n.get_depth(), n.get_node_position() == corner, rng.uniform()))
            l.mark('__r')
            mesh.cells.refine(subforest_flag=label, refinement_flag='__r')


def run(case, ctx):
    rng = ctx.rng
    kind = case['kind']
    box, per = None, ()
    if kind == 'periodic':
        mesh, info = G.mesh_periodic(rng, nmax=3)
        box, per = info['box'], info['per']
    else:
        mesh, info = G.mesh2d(rng)
    flag = None
    other = None
    if kind == 'sub' or (kind == 'periodic' and rng.uniform() < 0.5):
        # submesh 's' inside a forest that is finer elsewhere
        for c in mesh.cells.get_children():
            c.mark('s')
        if rng.uniform() < 0.7:
            G.random_refine(rng, mesh, int(rng.integers(1, 3)), 0.3)
        if rng.uniform() < 0.5:
            for c in mesh.cells.get_children():
                c.mark('o')
            G.refine_label(rng, mesh, 'o', 'o', 0.4)
            other = 'o'
        flag = 's'
        for _ in range(int(rng.integers(0, 3))):
            if len(mesh.cells.get_leaves(subforest_flag='s')) < 50:
                G.refine_label(rng, mesh, 's', None, 0.25)
    elif rng.uniform() < 0.6:
        G.random_refine(rng, mesh, int(rng.integers(0, 3)), 0.25, maxcells=60)
    graded(rng, mesh, flag, int(rng.integers(1, 4)))
    model = GeoModel(mesh, flag, box, per)
    before = set(model.leaves)
    bad = model.unbalanced()
    ctx.ok('query', mesh.is_balanced(subforest_flag=flag) == (not bad),
           lambda: 'is_balanced(%s)=%s, offending leaves %s' % (flag, mesh.is_balanced(subforest_flag=flag), sorted(bad)[:4]))
    if bad:
        ctx.tick('unbalanced-seen')
        ctx.sig(kind, sorted(before))
    o_before = {G.address(c) for c in mesh.cells.get_leaves(subforest_flag='o')} if other else None
    n_split = model.closure()
    mesh.balance(subforest_flag=flag)
    after = {G.address(c) for c in mesh.cells.get_leaves(subforest_flag=flag)}
    ctx.ok('balanced', mesh.is_balanced(subforest_flag=flag), 'is_balanced after balancing')
    m2 = GeoModel(mesh, flag, box, per)
    ctx.ok('balanced', not m2.unbalanced(), lambda: 'leaves too coarse after balancing: %s' % sorted(m2.unbalanced())[:4])
    ctx.ok('minimal', after == model.leaves, lambda: 'unneeded %s missing %s' % (
        sorted(after - model.leaves)[:4], sorted(model.leaves - after)[:4]))
    ctx.ok('minimal', all(any(a[:k] in before for k in range(1, len(a) + 1)) for a in after), 'only refinement')
    ctx.ok('others', mesh.cells.subtrees_rooted(flag), 'submesh still rooted')
    if other:
        o = {G.address(c) for c in mesh.cells.get_leaves(subforest_flag='o')}
        ctx.ok('others', o == o_before, 'another submesh changed')
    mesh.balance(subforest_flag=flag)
    again = {G.address(c) for c in mesh.cells.get_leaves(subforest_flag=flag)}
    ctx.ok('idempotent', again == after, 'second balancing changes the mesh')
    ctx.stat('splits needed', n_split)
    ctx.note('%s flag=%s leaves %d -> %d' % (info, flag, len(before), len(after)))
