"""C22: support values to boundaries and geometric differences."""
from fractions import Fraction
from itertools import combinations
from vf.registry import facet
from vf.oracle import *

P = 'C22'


def ang_dirs(angs):
    return np.column_stack((np.cos(angs), np.sin(angs)))


# ---------------------------------------------------------------- boundaries
def gen_b2(d):
    n = d.weighted([(4 if d.lvl < 2 else 0, d.int(3, 9)), (1, d.int(10, d.sz(60, 60, 600)))])
    return {'n': n, 'gap': [d.int(1, 8) for _ in range(n)], 'len': [d.pos(0.2, 5) for _ in range(n)], 'st': d.real(-4, 4), 'neg': d.bool(),
            'kind': d.weighted([(3, 'free'), (2, 'poly'), (2, 'ell')]), 'h': [d.real(-3, 5) for _ in range(n)], 'q': d.spd(2, 0.1, 9), 'c': d.vec(2),
            'pts': [d.vec(2, -3, 3) for _ in range(d.int(3, 7))], 'col': d.bool(), 'unit': d.bool()}


def solve_tol(mat, sc):
    s = np.linalg.svd(mat, compute_uv=False)
    return 1e-12 * sc * max(1.0, s[0] / max(s[-1], 1e-300))


def chk_b2(cs):
    g = S.sup
    n = cs['n']
    gap = np.array(cs['gap'], dtype=float)
    ang = cs['st'] + np.concatenate(([0.0], np.cumsum(gap)[:-1])) * 2 * np.pi / gap.sum()
    if cs['neg']:
        ang = -ang
    u = ang_dirs(ang)
    if not cs['unit']:
        u = u * A(cs['len']).reshape(-1, 1)
    if cs['kind'] == 'free':
        h = A(cs['h'])
    elif cs['kind'] == 'poly':
        h = np.max(u @ A(cs['pts']).T, axis=1)
    else:
        h = np.array([supf(A(cs['c']), M(cs['q']), l) for l in u])
    u0, h0 = u.copy(), h.copy()
    x = arr(call(g.sup_2_boundary_2, u, h), (n, 2), 'boundary points')
    expect(np.array_equal(u, u0) and np.array_equal(h, h0), 'sup_2_boundary_2 changed its arguments')
    decided = 0
    for i in range(n):
        j = (i + 1) % n
        m = u[[i, j]]
        s = np.linalg.svd(m, compute_uv=False)
        if s[-1] < 1e-3 * s[0]:
            continue
        t = solve_tol(m, scale_of(h, u, x[i]))
        expect(abs(u[i] @ x[i] - h[i]) <= t and abs(u[j] @ x[i] - h[j]) <= t, 'a boundary point misses the support equalities of its directions',
               index=i, point=x[i], got=(u[i] @ x[i], u[j] @ x[i]), expected=(h[i], h[j]))
        decided += 1
    # exact recovery of a polytope circumscribed in these directions: box/polygon whose facets all touch
    if cs['kind'] == 'ell' and gap.max() * 2 * np.pi / gap.sum() < 3.0:
        sc = scale_of(x)
        for i in range(n):
            # a set given by its true support values: no boundary point is cut off by another direction of the adjacent pair
            e = x[i] - A(cs['c'])
            expect(e @ np.linalg.solve(M(cs['q']), e) >= 1 - 1e-8 * sc * sc * 100, 'a boundary point of a circumscribed polygon lies inside the set',
                   index=i)
    return res(decided > 2, 'n%d' % min(n, 10), cs['kind'], 'cw' if cs['neg'] else 'ccw')


facet(P, 'boundary2', gen_b2, chk_b2, 500,
      rule='3..60 ordered directions (either order, unequal gaps and lengths), free support values, of polygons and of ellipses; non-trivial: '
           'at least three adjacent pairs that are not nearly parallel')


def gen_b3(d):
    return {'depth': d.int(0, d.sz(2, 2, 4)), 'kind': d.weighted([(2, 'free'), (2, 'ell'), (2, 'box')]), 'seed': d.int(0, 10 ** 6), 'q': d.spd(3, 0.2, 9), 'c': d.vec(3),
            'perm': d.bool(), 'sub': d.bool(), 'pts': [d.vec(3, -2, 2) for _ in range(8)]}


def chk_b3(cs):
    from scipy.spatial import ConvexHull
    g = S.sup
    rs = np.random.RandomState(cs['seed'])
    if cs['kind'] == 'box':
        # directions = facet normals of a random simplicial-vertex polytope (3 facets meet in a vertex), faces = vertices
        p = rs.randn(4 + cs['seed'] % 9, 3)
        p = np.vstack((p / np.linalg.norm(p, axis=1).reshape(-1, 1), np.eye(3), -np.eye(3)))
        hp = 0.5 + rs.rand(len(p))
        hull = ConvexHull(p / hp.reshape(-1, 1))
        use = np.unique(hull.simplices)
        ren = -np.ones(len(p), dtype=int)
        ren[use] = np.arange(len(use))
        u, f = p[use], ren[hull.simplices]
        h = hp[use] + u @ A(cs['c'])
    else:
        u, f = call(S.tri.sphere_tri, cs['depth'])
        u, f = np.array(u), np.array(f)
        h = rs.rand(len(u)) * 3 if cs['kind'] == 'free' else np.array([supf(A(cs['c']), M(cs['q']), l) for l in u])
    if cs['sub']:
        f = f[:max(1, len(f) // 2)]
    if cs['perm']:
        for i in range(len(f)):
            f[i] = f[i][rs.permutation(3)]
    u0, h0, f0 = u.copy(), h.copy(), f.copy()
    x = arr(call(g.sup_2_boundary_3, u, h, f), (len(f), 3), 'boundary points')
    expect(np.array_equal(u, u0) and np.array_equal(h, h0) and np.array_equal(f, f0), 'sup_2_boundary_3 changed its arguments')
    n = 0
    for i, t in enumerate(f):
        s = np.linalg.svd(u[t], compute_uv=False)
        if s[-1] < 1e-3 * s[0]:
            continue
        n += 1
        tol = solve_tol(u[t], scale_of(h, x[i]))
        expect(np.all(np.abs(u[t] @ x[i] - h[t]) <= tol), 'a boundary point misses the support equalities of its face', face=t, point=x[i])
        if cs['kind'] == 'box':
            expect(np.all(u @ x[i] <= h + 100 * tol), 'the circumscribed polytope is not recovered', face=t, point=x[i])
    return res(n > 3, cs['kind'], 'faces%d' % (len(f) // 100 * 100))


facet(P, 'boundary3', gen_b3, chk_b3, 150,
      rule='sphere triangulations of depth 0..2 with free and ellipsoidal support values, and facet normals of random simple polytopes whose '
           'vertices must be recovered, face order permuted; non-trivial: more than three well-posed faces')


# ---------------------------------------------------------------- geometric difference
def tight(u, h):
    """Support values of {x: u x <= h} in the directions u, by listing the vertices."""
    n, dim = u.shape
    best = np.full(n, -np.inf)
    ctr = []
    idx = np.array(list(combinations(range(n), dim)))
    ms = u[idx]
    det = np.linalg.det(ms)
    nrm = np.prod(np.linalg.norm(ms, axis=2), axis=1)
    ok = np.abs(det) > 1e-9 * nrm
    xs = np.linalg.solve(ms[ok], h[idx[ok]][..., None])[..., 0]
    slack = xs @ u.T - h
    tol = 1e-9 * (np.abs(h) + np.linalg.norm(xs, axis=1).reshape(-1, 1) * np.linalg.norm(u, axis=1))
    xs = xs[np.all(slack <= tol, axis=1)]
    if len(xs) == 0:
        return best, xs
    return np.max(xs @ u.T, axis=0), xs


def tight_exact(u, h):
    """The same in the plane in rational arithmetic."""
    uu = [[Fraction(float(x)) for x in r] for r in u]
    hh = [Fraction(float(x)) for x in h]
    n = len(hh)
    best, xs = [None] * n, []
    for i, j in combinations(range(n), 2):
        det = uu[i][0] * uu[j][1] - uu[i][1] * uu[j][0]
        if abs(det) < 1e-9:
            continue
        x = ((hh[i] * uu[j][1] - hh[j] * uu[i][1]) / det, (uu[i][0] * hh[j] - uu[j][0] * hh[i]) / det)
        v = [x[0] * r[0] + x[1] * r[1] for r in uu]
        if all(p <= q or k in (i, j) for k, (p, q) in enumerate(zip(v, hh))):
            xs.append([float(x[0]), float(x[1])])
            best = [p if q is None or p > q else q for p, q in zip(v, best)]
    return np.array([-np.inf if x is None else float(x) for x in best]), np.array(xs).reshape(-1, 2)


def gen_d2(d):
    n = d.weighted([(5 if d.lvl < 2 else 1, d.int(3, 9)), (1, d.int(10, d.sz(30, 30, 80)))])
    return {'n': n, 'ang': [d.int(0, 71) for _ in range(n)], 'ord': d.weighted([(2, 'ccw'), (1, 'cw'), (1, 'any')]), 'st': d.real(-4, 4),
            'len': [d.pos(0.2, 5) for _ in range(n)] if d.bool() else None, 'h': [d.pos(0.05, 20) for _ in range(n)],
            'r2': [d.real(-3, 5) for _ in range(n)], 'kind': d.weighted([(3, 'free'), (1, 'ell'), (1, 'poly'), (1, 'long')]), 'long': d.choice([1e2, 1e4, 1e6]), 'sc': d.choice([1.0, 1.0, 1e-3, 1e3]),
            'q1': d.spd(2, 1.0, 9), 'q2': d.spd(2, 0.05, 0.9), 'c': d.vec(2, -2, 2), 'c2': d.vec(2, -2, 2), 'lay': d.int(0, 2), 'bad': d.int(0, 50), 'z': d.bool()}


def finish(f, u, h, r2, cs, dim):
    """Common part: call, compare with the listing oracle, tightness and refusals."""
    n = len(u)
    r1 = r2 + h
    h = r1 - r2
    lay = [lambda v: v.copy(), lambda v: v.reshape(-1, 1).copy(), lambda v: v.reshape(1, -1).copy()][cs['lay']]
    a1, a2, lm = lay(r1), lay(r2), u.T.copy()
    s1, s2, s3 = a1.copy(), a2.copy(), lm.copy()
    got = flat(call(f, a1, a2, lm), n, 'difference')
    expect(np.array_equal(a1, s1) and np.array_equal(a2, s2) and np.array_equal(lm, s3), 'the difference changed its arguments')
    exp, xs = tight_exact(u, h) if cs.get('kind') == 'long' else tight(u, h)
    expect(np.all(np.isfinite(exp)), 'oracle: unbounded set') if False else None
    if not np.all(np.isfinite(exp)):
        return None
    # conditioning: vertices of nearly parallel pairs are far away
    far = max(1.0, float(np.max(np.linalg.norm(xs, axis=1))) / max(1e-300, float(np.max(h / np.linalg.norm(u, axis=1)))))
    tol = (1e-8 + 1e-13 * np.max(h) / np.min(h)) * far * np.maximum(np.abs(h), np.max(h) * 1e-3) + 1e-13 * np.max(np.abs(r1))
    bad = np.nonzero(~(np.abs(got - exp) <= tol))[0]
    if bad.size:
        fail('the difference is not the support function of the largest set', directions=u, values=h, got=got, expected=exp, first_bad=int(bad[0]))
    # tightened values are a fixed point
    z = np.zeros(n)
    if np.all(got > 0):
        again = flat(call(f, got.copy(), z, lm), n, 'difference')
        expect(np.all(np.abs(again - got) <= 10 * tol), 'tightening is not idempotent', once=got, twice=again)
    i = cs['bad'] % n
    b = r1.copy()
    b[i] = r2[i] - (0.0 if cs['z'] else 1.0)
    rejects('empty interior', f, b, r2, lm)
    rejects('lengths differ', f, r1, r2[:-1], lm)
    rejects('lengths differ', f, r1[:-1], r2[:-1], lm)
    rejects('matrix of values', f, np.vstack((r1, r1)), r2, lm)
    rejects('matrix of values', f, r1, np.vstack((r2, r2)), lm)
    rejects('directions not a matrix', f, r1, r2, lm[0])
    rejects('wrong dimension', f, r1, r2, np.vstack((lm, lm[:1])))
    rejects('wrong dimension', f, r1, r2, lm[:-1])
    return int(np.sum(exp < h * (1 - 1e-6)))


def chk_d2(cs):
    n = cs['n']
    ang = sorted(set(cs['ang']))
    if len(ang) < 3:
        return res(False, 'few')
    gaps = np.diff(ang + [ang[0] + 72])
    if gaps.max() > 33:    # directions must surround the origin with a margin
        return res(False, 'onesided')
    k = len(ang)
    a = cs['st'] + np.array(ang) * 2 * np.pi / 72
    u = ang_dirs(a)
    ln = A(cs['len'])[:k] if cs['len'] is not None else np.ones(k)
    u = u * ln.reshape(-1, 1)
    h, r2 = A(cs['h'])[:k], A(cs['r2'])[:k]
    if cs['kind'] == 'ell':
        r2 = np.array([supf(A(cs['c2']), M(cs['q2']), l) for l in u])
        h = np.array([supf(A(cs['c']) * 0.1 + A(cs['c2']), M(cs['q1']), l) for l in u]) - r2
        if h.min() <= 1e-3:
            return res(False, 'empty')
    elif cs['kind'] == 'poly':
        h = h * 0 + 1.0 + 0.5 * np.sin(3 * a) * 0.5
        h = h * ln
    elif cs['kind'] == 'long':   # long and thin
        k9 = np.arange(k) < 9
        u, h, r2, a = u[k9], h[k9], r2[k9] * 0.1, a[k9]
        k = len(u)
        if k < 3 or np.max(np.diff(np.append(a, a[0] + 2 * np.pi))) > 33 * np.pi / 36:
            return res(False, 'onesided')
        h = (1 + 0.05 * h) * np.hypot(u[:, 0] * cs['long'], u[:, 1]) * 0.01
    h, r2 = h * cs['sc'], r2 * cs['sc']
    order = np.arange(k)
    if cs['ord'] == 'cw':
        order = order[::-1]
    elif cs['ord'] == 'any':
        order = np.random.RandomState(cs['bad']).permutation(k)
    u, h, r2 = u[order], h[order], r2[order]
    t = finish(S.sup.sup_geom_diff_2d, u, h, r2, cs, 2)
    return res(bool(t), 'n%d' % min(k, 10), cs['kind'], cs['ord'], 'cut%d' % min(t or 0, 4), 'sc%g' % cs['sc'])


def fixed2():
    base = {'ang': [0, 9, 18, 27, 36, 45, 54, 63], 'n': 8, 'ord': 'ccw', 'st': 0.0, 'len': None, 'r2': [0.5] * 8, 'kind': 'free', 'sc': 1.0,
            'q1': [[1.0, 0.0], [0.0, 1.0]], 'q2': [[0.5, 0.0], [0.0, 0.5]], 'c': [0.0, 0.0], 'c2': [0.0, 0.0], 'lay': 0, 'bad': 1, 'z': True}
    out = []
    for i in range(8):
        for j in range(8):
            h = [1.0] * 8
            h[i] = 3.0
            h[j] = 3.0
            out.append(dict(base, h=h))
    return out


facet(P, 'difference2', gen_d2, chk_d2, 700,
      rule='3..30 directions surrounding the origin (any order and length) with free positive differences, ellipses or smooth values, scale 1e-3..1e3; '
           'oracle lists the vertices of the inscribed polygon; non-trivial: at least one value is cut', fixed=fixed2)


def gen_d3(d):
    n = d.int(0, d.sz(10, 10, 40))
    return {'seed': d.int(0, 10 ** 6), 'k': n, 'h': [d.pos(0.1, 8) for _ in range(n + 6)], 'r2': [d.real(-3, 5) for _ in range(n + 6)],
            'dirs': [d.dirv(3) for _ in range(n)], 'sc': d.choice([1.0, 1e-2, 1e2, 1e3]), 'frame': d.choice(['axes', 'axes', 'simplex', 'ico']),
            'lay': d.int(0, 2), 'bad': d.int(0, 50), 'z': d.bool(), 'rot': d.orth(3), 'perm': d.bool()}


def chk_d3(cs):
    if cs['frame'] == 'axes':
        u = np.vstack((np.eye(3), -np.eye(3)))
    elif cs['frame'] == 'simplex':
        u = np.array([[1.0, 1, 1], [1, -1, -1], [-1, 1, -1], [-1, -1, 1]])
    else:
        u = np.array(call(S.tri.icosahedron)[0])
    if len(cs['dirs']):
        u = np.vstack((u, A(cs['dirs'])))
    u = u @ M(cs['rot'])
    # drop (nearly) coinciding directions
    keep = []
    for i in range(len(u)):
        ui = u[i] / np.linalg.norm(u[i])
        if all(np.linalg.norm(ui - u[j] / np.linalg.norm(u[j])) > 0.1 for j in keep):
            keep.append(i)
    u = u[keep]
    n = len(u)
    rs = np.random.RandomState(cs['seed'])
    h = np.resize(A(cs['h']), n) * np.linalg.norm(u, axis=1)
    r2 = np.resize(A(cs['r2']), n)
    if cs['perm']:
        p = rs.permutation(n)
        u, h, r2 = u[p], h[p], r2[p]
    t = finish(S.sup.sup_geom_diff_3d, u, h * cs['sc'], r2 * cs['sc'], cs, 3)
    return res(bool(t), 'n%d' % n, cs['frame'], 'cut%d' % min(t or 0, 4), 'sc%g' % cs['sc'])


facet(P, 'difference3', gen_d3, chk_d3, 400,
      rule='axis, simplex or icosahedral directions plus up to 10 more, free positive differences, scale 1e-2..1e3; oracle lists the vertices of the '
           'inscribed polytope; non-trivial: at least one value is cut')
