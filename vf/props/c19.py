"""C19: circle and sphere grids."""
from vf.registry import facet
from vf.oracle import *
from vf.props.mesh import *

P = 'C19'
BAD = [0, -1, -7, 2.5, 0.5, -0.5, 'nan', 'str', 'arr']


def bad_of(x):
    return float('nan') if x == 'nan' else 'abc' if x == 'str' else np.array([3, 4]) if x == 'arr' else x


def gen_circ(d):
    return {'n': d.weighted([(3, d.int(1, 12)), (2, d.int(1, d.sz(700, 700, 20000)))]), 'r': None if d.chance(30) else [d.real(-8, 8), d.real(-8, 8)],
            'int': d.bool()}


def chk_circ(cs):
    g = S.geom
    n = cs['n']
    kw = {}
    a0, a1 = 0.0, 2 * np.pi
    if cs['r'] is not None:
        a0, a1 = cs['r']
        kw['angle_range_vec'] = np.array([a0, a1])
    ang = a0 + np.arange(n) * ((a1 - a0) / n)
    exp = np.column_stack((np.cos(ang), np.sin(ang)))
    p = arr(call(g.circle_part, n, **kw), (n, 2), 'circle partition')
    close(p, exp, 1e-12, 'the points are not the equally spaced ones', n=n, range=(a0, a1))
    x, y = pair(call(g.circle_part, n, True, **kw), 2, 'separate coordinates')
    close(np.column_stack((arr(x, (n, 1)), arr(y, (n, 1)))), exp, 1e-12, 'separate coordinates are not those of the points')
    if kw:
        expect(np.array_equal(kw['angle_range_vec'], [a0, a1]), 'circle_part changed its range argument')
    # general grid builder
    n2 = int(n) if cs['int'] else float(n)
    v = arr(call(S.tri.sphere_tri_ext, 2, n2), (n, 2), '2-D grid')
    v2, f = pair(call(S.tri.sphere_tri_ext, 2, n2, True), 2, '2-D grid with segments')
    v2 = arr(v2, (n, 2))
    full = 2 * np.pi * np.arange(n) / n
    for w in (v, v2):
        close(w, np.column_stack((np.cos(full), np.sin(full))), 1e-12, 'the 2-D grid is not the requested number of equally spaced points', n=n)
        expect(not np.any(w == 0), 'the 2-D grid has exact zeros')
    f = faces_of(f, n, 'segments', 2)
    expect(f.shape[0] == n and sorted(f[:, 0].tolist()) == list(range(n)) and all(int(b) == (int(a) + 1) % n for a, b in f),
           'segments do not join each point to the next one', segments=f)
    return res(n > 2, 'n<=12' if n <= 12 else 'n<=100' if n <= 100 else 'n>100', 'range' if kw else 'full')


facet(P, 'circle', gen_circ, chk_circ, 500,
      rule='1..700 points, default range and random ranges (also reversed and longer than a turn), counts as int or float; non-trivial: > 2 points',
      fixed=lambda: [{'n': n, 'r': r, 'int': True} for n in range(1, 25) for r in (None, [0.5, 2.0])])


def chk_sphere_mesh(v, f, depth, what, eps=1e-14):
    nv, nf = 10 * 4 ** depth + 2, 20 * 4 ** depth
    v = arr(v, None, what + ' points')
    expect(v.shape == (nv, 3), '%s has a wrong number of points' % what, shape=v.shape, expected=(nv, 3))
    f = faces_of(f, nv, what + ' faces')
    expect(f.shape == (nf, 3), '%s has a wrong number of faces' % what, shape=f.shape, expected=(nf, 3))
    expect(np.max(np.abs(np.linalg.norm(v, axis=1) - 1)) <= eps, '%s has points off the unit sphere' % what)
    check_closed(f, nv, what)
    expect(euler(f, nv) == 2, '%s is not a sphere' % what)
    s = solid_angle(v, f)
    expect(abs(s - 4 * np.pi) <= 1e-9, '%s does not cover the sphere exactly once, outward' % what, solid_angle=s)
    g = np.sort(np.round(v, 9).view([('', float)] * 3).ravel())
    expect(np.unique(g).size == nv, '%s has coinciding points' % what)
    # evenly built: every edge length within a fixed ratio
    e = np.array(sorted(edge_set(f)))
    ln = np.linalg.norm(v[e[:, 0]] - v[e[:, 1]], axis=1)
    expect(ln.max() / ln.min() < 1.35, '%s is not evenly built' % what, longest=ln.max(), shortest=ln.min())
    return v, f


def gen_tri(d):
    return {'depth': d.int(0, 4 if d.big else 3), 'n': d.int(1, 2562 if d.big else 642), 'bad': d.choice(BAD), 'fl': d.bool(), 'g': d.bool()}


def chk_tri(cs):
    t = S.tri
    d = cs['depth']
    v, f = pair(call(t.sphere_tri, float(d) if cs['fl'] else d), 2, 'sphere triangulation')
    v, f = chk_sphere_mesh(v, f, d, 'the sphere triangulation of depth %d' % d)
    if d > 0:
        v0, _ = pair(call(t.sphere_tri, d - 1), 2)
        v0 = np.asarray(v0, dtype=float)
        close(v[:len(v0)], v0, 1e-12, 'a finer triangulation does not keep the points of the coarser one')
    elif not cs['fl']:
        iv, jf = pair(call(t.icosahedron), 2)
        chk_sphere_mesh(iv, jf, 0, 'the icosahedron')
    n = cs['n']
    dd = 1
    while 10 * 4 ** dd + 2 < n:
        dd += 1
    gv, gf = pair(call(t.sphere_tri_ext, 3, float(n) if cs['fl'] else n, *([True] if cs['g'] else [])), 2, '3-D grid')
    gv, gf = chk_sphere_mesh(gv, gf, dd, 'the 3-D grid for %d points' % n)
    expect(not np.any(gv == 0), 'the 3-D grid has exact zeros')
    b = bad_of(cs['bad'])
    if cs['bad'] != 0:
        rejects('bad depth', t.sphere_tri, b)
    rejects('bad number of points', t.sphere_tri_ext, 3, b)
    rejects('bad number of points', t.sphere_tri_ext, 2, b)
    rejects('bad number of points', t.sphere_tri_ext, 2, b, True)
    return res(d > 0, 'depth%d' % d, 'grid%d' % dd)


facet(P, 'sphere', gen_tri, chk_tri, 40, thorough=240,
      rule='depths 0..3 (4 thorough) and 3-D grid sizes up to 642 (2562), counts as int or float, bad sizes; non-trivial: depth > 0',
      fixed=lambda: [{'depth': i % 4, 'n': n, 'bad': BAD[i % len(BAD)], 'fl': bool(i % 2), 'g': bool(i % 3)}
                     for i, n in enumerate([1, 2, 41, 42, 43, 161, 162, 163, 641, 642, 100, 12])] +
      [{'depth': 0, 'n': 5, 'bad': b, 'fl': False, 'g': True} for b in BAD])


def gen_part(d):
    k = d.int(0, 3)
    n = d.int(1, 24) if k == 0 else d.int(1, 90) if k == 1 else d.choice([1, 2, 3, 20, 21, 22, 80, 81, 82]) if k == 2 else d.int(1, 322 if d.big else 150)
    return {'n': n, 'bad': d.choice([0, -1, -7, 2.5, 0.5, 'nan', 'str'])}


def chk_part(cs):
    g = S.geom
    n = cs['n']
    p = arr(call(g.sphere_part, n), (n, 3), 'sphere directions')
    expect(np.max(np.abs(np.linalg.norm(p, axis=1) - 1)) <= 1e-13, 'directions are not unit vectors')
    c = p @ p.T
    for i in range(n):
        c[i, i] = 0
    if n > 1:
        expect(np.min(c) > -1 + 1e-8, 'two directions are opposite', directions=p)
        expect(np.max(c) < 1 - 1e-8, 'two directions coincide', directions=p)
    for i, ax in enumerate((2, 0, 1)):
        # the z, x and y axes are served in turn, each by the closest direction left
        s = p[i::3, ax]
        expect(np.all(np.diff(s) <= 1e-12), 'directions do not move away from the axis they are taken for', axis=ax, cosines=s)
        best = np.maximum.accumulate(p[::-1, ax])[::-1]     # largest cosine among the direction and all the later ones
        expect(np.all(p[i::3, ax] >= best[i::3] - 1e-12), 'a later direction is closer to the axis', axis=ax)
    rejects('bad number of directions', g.sphere_part, bad_of(cs['bad']))
    return res(n > 1, 'n%d' % (n // 20 * 20))


facet(P, 'directions', gen_part, chk_part, 60, thorough=400,
      rule='1..150 directions (322 thorough), all the sizes where the refinement changes; non-trivial: more than one direction',
      fixed=lambda: [{'n': n, 'bad': 0} for n in list(range(1, 26)) + [80, 81, 82, 321, 322]])
