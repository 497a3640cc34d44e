"""Shared mesh oracles (edges by exhaustive listing, no code of the library)."""
from vf.oracle import *


def faces_of(f, n_verts, what='faces', cols=3):
    """Face matrix as ints indexing existing vertices."""
    a = arr(f, None, what)
    if a.ndim != 2 or a.shape[1] != cols:
        fail('%s should have %d columns' % (what, cols), shape=a.shape)
    if not np.array_equal(a, np.floor(a)):
        fail('%s are not integers' % what)
    a = a.astype(int)
    if a.size and (a.min() < 0 or a.max() >= n_verts):
        fail('%s refer to points that do not exist' % what, n_points=n_verts, low=a.min(), high=a.max())
    return a


def directed(f):
    d = {}
    for i, t in enumerate(f):
        for k in range(3):
            e = (int(t[k]), int(t[(k + 1) % 3]))
            d.setdefault(e, []).append(i)
    return d


def check_closed(f, n_verts, what='mesh', oriented=True, all_used=True):
    """Every edge is shared by exactly two faces, in opposite directions when oriented."""
    d = directed(f)
    for (a, b), fs in d.items():
        if a == b:
            fail('%s has a degenerate face' % what, face=f[fs[0]])
        if oriented:
            if len(fs) != 1 or len(d.get((b, a), ())) != 1:
                fail('%s is not a closed consistently oriented surface' % what, edge=(a, b))
        else:
            if len(fs) + len(d.get((b, a), ())) != 2:
                fail('%s is not closed' % what, edge=(a, b))
    if all_used and n_verts != len(set(int(x) for x in np.asarray(f).ravel())):
        fail('%s does not use all its points' % what)


def euler(f, n_verts):
    e = set()
    for t in f:
        for a, b in ((t[0], t[1]), (t[1], t[2]), (t[0], t[2])):
            e.add((min(a, b), max(a, b)))
    return n_verts - len(e) + len(f)


def edge_set(f):
    e = set()
    for t in f:
        for a, b in ((t[0], t[1]), (t[1], t[2]), (t[0], t[2])):
            e.add((int(min(a, b)), int(max(a, b))))
    return e


def solid_angle(v, f):
    """Total signed solid angle of the faces seen from the origin (unit vertices or not)."""
    a, b, c = v[f[:, 0]], v[f[:, 1]], v[f[:, 2]]
    la, lb, lc = (np.linalg.norm(x, axis=1) for x in (a, b, c))
    nom = np.sum(a * np.cross(b, c), 1)
    den = la * lb * lc + np.sum(a * b, 1) * lc + np.sum(a * c, 1) * lb + np.sum(b * c, 1) * la
    return float(np.sum(2 * np.arctan2(nom, den)))


def areas(v, f):
    return 0.5 * np.linalg.norm(np.cross(v[f[:, 1]] - v[f[:, 0]], v[f[:, 2]] - v[f[:, 0]]), axis=1)


# ---- mesh generation (spec in Hypothesis, construction next to the oracle)
def gen_mesh(d, max_pts=9):
    kind = d.weighted([(3, 'hull'), (2, 'grid'), (2, 'fan'), (1, 'one'), (1, 'strip'), (2, 'sub')])
    n = d.int(4, max_pts)
    return {'kind': kind, 'n': n, 'p': [d.vec(3, -3, 3) if d.bool() else d.ivec(3) for _ in range(n)],
            'm': [d.int(1, d.sz(3, 4, 9)), d.int(1, d.sz(3, 4, 9))], 'h': d.vec(16, -1, 1), 'seed': d.int(0, 10 ** 6), 'drop': d.int(1, 3), 'shuffle': d.bool()}


def mk_mesh(ms):
    """(vertices, faces, closed) of a manifold (every edge in at most two faces) nondegenerate mesh."""
    from scipy.spatial import ConvexHull
    kind = ms['kind']
    rs = np.random.RandomState(ms['seed'])
    h = A(ms['h'])
    closed = False
    if kind in ('hull', 'sub'):
        p = A(ms['p']) + 0.05 * rs.randn(len(ms['p']), 3)
        hull = ConvexHull(p)
        f = hull.simplices.copy()
        cen = p[np.unique(f)].mean(0)
        for i, t in enumerate(f):
            if np.linalg.det(p[t] - cen) < 0:
                f[i] = t[[0, 2, 1]]
        use = np.unique(f)
        ren = -np.ones(len(p), dtype=int)
        ren[use] = np.arange(len(use))
        v, f = p[use], ren[f]
        closed = True
        if kind == 'sub' and len(f) > ms['drop']:
            f = f[:-ms['drop']]
            closed = False
    elif kind == 'grid':
        a, b = ms['m']
        v = np.array([[i, j, 0.5 * h[(i * 4 + j) % 16]] for i in range(a + 1) for j in range(b + 1)], dtype=float)
        f = []
        for i in range(a):
            for j in range(b):
                q = [i * (b + 1) + j, (i + 1) * (b + 1) + j, (i + 1) * (b + 1) + j + 1, i * (b + 1) + j + 1]
                f += [[q[0], q[1], q[2]], [q[0], q[2], q[3]]]
        f = np.array(f)
    elif kind == 'fan':
        k = max(3, ms['n'] - 2)
        ang = 2 * np.pi * np.arange(k) / k
        v = np.vstack((np.array([[0, 0, h[0]]]), np.column_stack((np.cos(ang), np.sin(ang), 0.5 * h[(1 + np.arange(k)) % 16]))))
        f = np.array([[0, 1 + i, 1 + (i + 1) % k] for i in range(k)])
    elif kind == 'strip':
        k = ms['n']
        v = np.array([[0.7 * i, i % 2, 0.5 * h[i % 16]] for i in range(k)], dtype=float)
        f = np.array([[i, i + 1, i + 2] if i % 2 == 0 else [i + 1, i, i + 2] for i in range(k - 2)])
    else:
        v = np.array([[0, 0, h[0]], [1 + h[1] ** 2, 0, 0], [h[2], 1 + h[3] ** 2, h[4]]], dtype=float)
        f = np.array([[0, 1, 2]])
    if ms['shuffle']:
        perm = rs.permutation(len(v))
        v = v[perm]
        inv = np.argsort(perm)
        f = inv[f]
        f = f[rs.permutation(len(f))]
        for i in range(len(f)):
            f[i] = f[i][rs.permutation(3)]
    return v, f.astype(int), closed


def edge_count(f):
    c = {}
    for t in f:
        for a, b in ((t[0], t[1]), (t[1], t[2]), (t[0], t[2])):
            k = (int(min(a, b)), int(max(a, b)))
            c[k] = c.get(k, 0) + 1
    return c


def lengths(v, e):
    e = np.asarray(e)
    return np.linalg.norm(v[e[:, 0]] - v[e[:, 1]], axis=1)


def check_f2e(f, e, f2e, fdir, what='mesh'):
    """Edges are exactly those of the faces, each once; the map names side (1,2), (2,3), (1,3) and its direction."""
    f = np.asarray(f).reshape(-1, 3)
    e = arr(e, None, what + ' edges')
    expect(e.ndim == 2 and e.shape[1] == 2 and np.array_equal(e, np.floor(e)), 'edges are not index pairs', shape=e.shape)
    e = e.astype(int)
    f2e = arr(f2e, None, 'face-to-edge map')
    expect(f2e.size == f.size and np.array_equal(f2e, np.floor(f2e)), 'the face-to-edge map has a wrong size', shape=f2e.shape)
    f2e = f2e.astype(int).reshape(-1, 3)
    fdir = bools(fdir, None, 'edge directions')
    expect(fdir.size == f.size, 'edge directions have a wrong size', shape=fdir.shape)
    fdir = fdir.reshape(-1, 3)
    lst = [(int(min(a, b)), int(max(a, b))) for a, b in e]
    expect(len(set(lst)) == len(lst), '%s lists an edge twice' % what)
    es = edge_set(f)
    expect(set(lst) == es, '%s edges are not the edges of its faces' % what, missing=sorted(es - set(lst))[:5], extra=sorted(set(lst) - es)[:5])
    expect(f2e.min() >= 0 and f2e.max() < len(e), 'the face-to-edge map refers to edges that do not exist')
    for k, (p, q) in enumerate(((0, 1), (1, 2), (0, 2))):
        got = np.where(fdir[:, k:k + 1], e[f2e[:, k]], e[f2e[:, k]][:, ::-1])
        bad = np.nonzero(np.any(got != f[:, [p, q]], axis=1))[0]
        if bad.size:
            i = int(bad[0])
            fail('the face-to-edge map names a wrong edge or direction', face=f[i], side=(p, q), edge=e[f2e[i, k]], direct=fdir[i, k])
    return e
