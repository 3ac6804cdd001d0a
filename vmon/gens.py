"""Workload generators: meshes and refinement histories."""
import numpy as np
from mesh import Mesh1D, QuadMesh, Mesh2D, Forest, Tree, Vertex, Interval, HalfEdge, Cell, QuadCell  # noqa


# ---------------------------------------------------------------- domains
def rnd_box1(rng):
    a = float(np.round(rng.uniform(-3, 2), 3))
    return [a, a + float(np.round(rng.uniform(0.5, 4), 3))]


def rnd_box2(rng):
    x = rnd_box1(rng)
    y = rnd_box1(rng)
    return [x[0], x[1], y[0], y[1]]


def mesh1d(rng, nmax=4, periodic=False, dyadic=False):
    kind = rng.integers(0, 3)
    if dyadic:
        box = [0.0, 1.0]
    else:
        box = rnd_box1(rng)
    n = int(rng.integers(1, nmax + 1))
    if periodic:
        return Mesh1D(box=box, resolution=(n,), periodic=True), {'type': '1d', 'n': n, 'periodic': True}
    if kind < 2 or dyadic:
        return Mesh1D(box=box, resolution=(n,)), {'type': '1d', 'n': n, 'box': box}
    # irregular points
    h = rng.uniform(0.3, 1.5, size=n)
    x = box[0] + np.concatenate(([0], np.cumsum(h)))
    con = [[i, i + 1] for i in range(n)]
    return Mesh1D(x=x, connectivity=con), {'type': '1d', 'n': n, 'x': x.tolist()}


def quad_points_rect(nx, ny, rng=None, jitter=0.0, box=(0, 1, 0, 1)):
    """Points and counter-clockwise connectivity of a (jittered) structured quad grid."""
    X = np.linspace(box[0], box[1], nx + 1)
    Y = np.linspace(box[2], box[3], ny + 1)
    hx = (box[1] - box[0]) / nx
    hy = (box[3] - box[2]) / ny
    pts = []
    for j in range(ny + 1):
        for i in range(nx + 1):
            px, py = X[i], Y[j]
            if rng is not None and jitter > 0:
                px = px + jitter * hx * rng.uniform(-1, 1)
                py = py + jitter * hy * rng.uniform(-1, 1)
            pts.append((float(px), float(py)))
    con = []
    for j in range(ny):
        for i in range(nx):
            a = j * (nx + 1) + i
            con.append([a, a + 1, a + nx + 2, a + nx + 1])
    return pts, con


def _orient_shuffle(rng, con, rotate=True, shuffle=True):
    con = [list(c) for c in con]
    if rotate:
        con = [list(np.roll(c, int(rng.integers(0, 4)))) for c in con]
    if shuffle:
        con = [con[i] for i in rng.permutation(len(con))]
    return [[int(k) for k in c] for c in con]


def quad_star(rng, k=None):
    """k quads around a central vertex (k=3,4,5,6)."""
    if k is None:
        k = int(rng.integers(3, 7))
    pts = [(0.0, 0.0)]
    th0 = rng.uniform(0, 2 * np.pi)
    for i in range(2 * k):
        th = th0 + np.pi * i / k
        r = 1.0 if i % 2 == 0 else 1.0 / np.cos(np.pi / k) * rng.uniform(0.85, 1.0)
        if i % 2 == 1:
            r = max(r, 0.8)
        pts.append((float(r * np.cos(th)), float(r * np.sin(th))))
    con = []
    for i in range(k):
        a = 1 + 2 * i
        b = 1 + (2 * i + 1) % (2 * k)
        c = 1 + (2 * i + 2) % (2 * k)
        con.append([0, a, b, c])
    return pts, con


def quad_ring(rng, k=None):
    """k quads around a hole."""
    if k is None:
        k = int(rng.integers(3, 7))
    th0 = rng.uniform(0, 2 * np.pi)
    pts = []
    for r in (0.5, 1.25):
        for i in range(k):
            th = th0 + 2 * np.pi * i / k
            pts.append((float(r * np.cos(th)), float(r * np.sin(th))))
    con = [[i, k + i, k + (i + 1) % k, (i + 1) % k] for i in range(k)]
    return pts, con


def quad_lshape(rng, jitter=0.0):
    pts, con = quad_points_rect(2, 2, rng, jitter)
    drop = int(rng.integers(0, 4))
    con = [c for i, c in enumerate(con) if i != drop]
    used = sorted({k for c in con for k in c})
    ren = {k: i for i, k in enumerate(used)}
    pts = [pts[k] for k in used]
    con = [[ren[k] for k in c] for c in con]
    return pts, con


def convex(pts, con, margin=0.05):
    for c in con:
        q = np.array([pts[i] for i in c])
        for i in range(4):
            a, b, d = q[i], q[(i + 1) % 4], q[(i + 2) % 4]
            cr = (b[0] - a[0]) * (d[1] - b[1]) - (b[1] - a[1]) * (d[0] - b[0])
            if cr < margin * np.linalg.norm(b - a) * np.linalg.norm(d - b):
                return False
    return True


def affine(rng, pts, strong=False):
    """Random orientation-preserving affine image of the points."""
    th = rng.uniform(0, 2 * np.pi)
    s = rng.uniform(0.7, 1.6, size=2)
    R = np.array([[np.cos(th), -np.sin(th)], [np.sin(th), np.cos(th)]])
    A = R @ np.diag(s) @ np.array([[1, rng.uniform(-0.8, 0.8) if rng.uniform() < 0.5 else 0.0], [0, 1]])
    t = rng.uniform(-2, 2, size=2)
    return [tuple(float(v) for v in A @ np.array(p) + t) for p in pts]


def quad_mixed(rng, nx, ny):
    """An axis-aligned grid with one displaced point: rectangles beside trapezoids and general cells."""
    pts, con = quad_points_rect(nx, ny, box=rnd_box2(rng))
    k = int(rng.integers(0, len(pts)))
    h = np.array([(pts[-1][0] - pts[0][0]) / nx, (pts[-1][1] - pts[0][1]) / ny])
    d = h * rng.uniform(-0.3, 0.3, 2) * [(1, 1), (1, 0), (0, 1)][int(rng.integers(0, 3))]
    pts[k] = (float(pts[k][0] + d[0]), float(pts[k][1] + d[1]))
    return pts, con


def mesh2d(rng, kinds=('rect', 'jitter', 'lshape', 'star', 'ring', 'para', 'mixed'), nmax=3, cls=QuadMesh,
           shuffle=True, dyadic=False):
    kind = kinds[int(rng.integers(0, len(kinds)))]
    info = {'type': kind}
    if kind == 'rect':
        nx, ny = int(rng.integers(1, nmax + 1)), int(rng.integers(1, nmax + 1))
        box = [0.0, 1.0, 0.0, 1.0] if dyadic else rnd_box2(rng)
        info.update(nx=nx, ny=ny, box=box)
        return cls(box=box, resolution=(nx, ny)), info
    for _ in range(50):
        if kind == 'jitter':
            nx, ny = int(rng.integers(1, nmax + 1)), int(rng.integers(1, nmax + 1))
            pts, con = quad_points_rect(nx, ny, rng, float(rng.choice([0.2, 0.2, 0.03, 0.003])))
            pts = affine(rng, pts) if rng.uniform() < 0.7 else pts
        elif kind == 'mixed':
            pts, con = quad_mixed(rng, int(rng.integers(1, nmax + 1)), int(rng.integers(1, nmax + 1)))
        elif kind == 'para':
            nx, ny = int(rng.integers(1, nmax + 1)), int(rng.integers(1, nmax + 1))
            pts, con = quad_points_rect(nx, ny)
            pts = affine(rng, pts)
        elif kind == 'lshape':
            pts, con = quad_lshape(rng, jitter=float(rng.choice([0.0, 0.15])))
        elif kind == 'star':
            pts, con = quad_star(rng)
        elif kind == 'ring':
            pts, con = quad_ring(rng)
        if convex(pts, con):
            break
    if shuffle:
        con = _orient_shuffle(rng, con)
    info.update(n=len(con))
    return cls(x=pts, connectivity=con), info


def mesh_periodic(rng, nmin=1, nmax=4, cls=QuadMesh):
    per = [{0}, {1}, {0, 1}][int(rng.integers(0, 3))]
    nx, ny = int(rng.integers(nmin, nmax + 1)), int(rng.integers(nmin, nmax + 1))
    box = rnd_box2(rng)
    return cls(box=box, resolution=(nx, ny), periodic=per), \
        {'type': 'periodic', 'nx': nx, 'ny': ny, 'per': sorted(per), 'box': box}


# ---------------------------------------------------------------- histories
def random_refine(rng, mesh, steps=3, frac=0.4, balance=False, maxcells=120, label=None):
    """Refine randomly chosen leaves of the unflagged mesh; returns the number of splits."""
    n = 0
    for s in range(steps):
        leaves = mesh.cells.get_leaves()
        if len(leaves) > maxcells:
            break
        pick = [c for c in leaves if rng.uniform() < frac]
        if not pick:
            pick = [leaves[int(rng.integers(0, len(leaves)))]]
        for c in pick:
            c.mark('__r')
        mesh.cells.refine(refinement_flag='__r')
        n += len(pick)
    if balance and mesh.dim() == 2:
        mesh.balance()
    return n


def corner_refine(mesh, depth, corner=0):
    """Repeatedly refine the leaf of largest depth in one corner (strong grading)."""
    for _ in range(depth):
        c = mesh.cells.get_child(0)
        while c.has_children():
            c = c.get_child(corner)
        c.mark('__r')
        mesh.cells.refine(refinement_flag='__r')


def refine_label(rng, mesh, old, new, frac=0.4, atleast=1):
    """Make submesh `new` from submesh `old` by refining random leaves."""
    leaves = mesh.cells.get_leaves(subforest_flag=old)
    pick = [c for c in leaves if rng.uniform() < frac]
    while len(pick) < min(atleast, len(leaves)):
        c = leaves[int(rng.integers(0, len(leaves)))]
        if c not in pick:
            pick.append(c)
    for c in pick:
        c.mark('__r')
    mesh.cells.refine(subforest_flag=old, refinement_flag='__r', new_label=new)
    return len(pick)


# ---------------------------------------------------------------- geometry helpers (independent)
def cell_xy(cell):
    return np.array([v.coordinates() for v in cell.get_vertices()], dtype=float)


def poly_area(xy):
    x, y = xy[:, 0], xy[:, 1]
    return 0.5 * float(np.sum(x * np.roll(y, -1) - np.roll(x, -1) * y))


def in_quad(xy, p, tol=0.0):
    """Signed distances to the edges of a convex ccw polygon; min over edges."""
    p = np.atleast_2d(p)
    d = np.full(len(p), np.inf)
    for i in range(len(xy)):
        a, b = xy[i], xy[(i + 1) % len(xy)]
        e = b - a
        s = (e[0] * (p[:, 1] - a[1]) - e[1] * (p[:, 0] - a[0])) / np.hypot(*e)
        d = np.minimum(d, s)
    return d


def bilinear(xy, r):
    """Image of reference points r in [0,1]^2 under the bilinear map with corners xy (ccw)."""
    r = np.atleast_2d(r)
    s, t = r[:, :1], r[:, 1:]
    return (1 - s) * (1 - t) * xy[0] + s * (1 - t) * xy[1] + s * t * xy[2] + (1 - s) * t * xy[3]


def bilinear_inv(xy, p, it=30):
    p = np.atleast_2d(p)
    r = np.full(p.shape, 0.5)
    for _ in range(it):
        f = bilinear(xy, r) - p
        J = bilinear_jac(xy, r)
        r = r - np.linalg.solve(J, f[:, :, None])[:, :, 0]
    return r


def bilinear_jac(xy, r):
    """n x 2 x 2, J[i,k] = d x_i / d r_k."""
    r = np.atleast_2d(r)
    s, t = r[:, :1], r[:, 1:]
    ds = -(1 - t) * xy[0] + (1 - t) * xy[1] + t * xy[2] - t * xy[3]
    dt = -(1 - s) * xy[0] - s * xy[1] + s * xy[2] + (1 - s) * xy[3]
    return np.stack([ds, dt], axis=2)


def dist_segment(p, a, b):
    p = np.atleast_2d(p)
    e = b - a
    t = np.clip(((p - a) @ e) / (e @ e), 0, 1)
    q = a + t[:, None] * e
    return np.hypot(*(p - q).T)


def address(cell):
    return tuple(cell.get_node_address())


def mesh_sig(mesh, flag=None):
    return (mesh.dim(),) + tuple(sorted(address(c) for c in mesh.cells.get_leaves(subforest_flag=flag)))


def interval_tree(rng):
    """A single interval with 2-5 children per split, split at random: root, {position (fractions of the root): node}."""
    from fractions import Fraction
    from mesh import Interval, Vertex
    a = float(np.round(rng.uniform(-2, 2), 3))
    b = a + float(np.round(rng.uniform(0.1, 3), 3))
    n = int(rng.integers(2, 6))
    root = Interval(Vertex(a), Vertex(b), n_children=n)
    nodes = {(Fraction(0), Fraction(1)): root}
    for _ in range(int(rng.integers(1, 7))):
        lv = [k for k, c in nodes.items() if not c.has_children()]
        lo, hi = lv[int(rng.integers(0, len(lv)))]
        c = nodes[lo, hi]
        c.split()
        for i in range(n):
            nodes[lo + (hi - lo) * i / n, lo + (hi - lo) * (i + 1) / n] = c.get_child(i)
    return root, nodes, (a, b), n
