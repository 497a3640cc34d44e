"""C06: membership of points in unions and intersections of ellipsoids."""
from vf.registry import facet
from vf.oracle import *

P = 'C06'
TOLS = [1e-6, 1e-6, 1e-4, 1e-2, 1e-7]


def gen_e(d, n, deg):
    if deg and d.chance(70):
        q = d.psd(n)
    else:
        q = d.spd(n, 0.05, 20)
    return {'c': d.vec(n, -3, 3), 'q': q, 'p': {'abs_tol': d.choice(TOLS)} if d.chance(50) else {}}


def gen_pts(d, n, m, k):
    """Points placed relative to one of the ellipsoids: [ellipsoid, unit vector, radius, offset code]."""
    out = []
    for _ in range(k):
        if out and d.chance(25):      # next to the previous one, on another side of the tolerance
            out.append(dict(out[-1], t=d.choice([0.0, 0.5, 3.0, -3.0, 1.5, 0.9])))
            continue
        out.append({'i': d.int(0, m - 1), 'u': d.unit(n),
                    'r': d.choice([0.0, 0.5, 0.99, 1.0, 1.0, 1.01, 1.5, 3.0]),
                    't': d.choice([0.0, 0.0, 0.5, -0.5, 3.0, -3.0]),
                    'k': d.choice([0.0, 0.0, 0.3, 3.0, 30.0]), 'w': d.unit(n)})
    return out


def gen_case(deg):
    def g(d):
        n = d.int(1, d.sz(4, 7, 12))
        m = d.weighted([(3, 1), (4, 2), (4, 3), (2, 4), (1, 6 if d.lvl < 2 else d.int(7, 40))])
        lays = [[m], [m, 1], [1, m]]
        if m % 2 == 0:
            lays.append([2, m // 2])
        es = [gen_e(d, n, deg) for _ in range(m)]
        if m > 1 and d.bool():  # overlapping
            es[1]['c'] = [x + d.choice([0.0, 0.1, -0.2]) for x in es[0]['c']]
        return {'es': d.dups(es), 'pts': gen_pts(d, n, m, d.count(1, 6, 10, 150)), 'mode': d.choice(['u', 'i']), 'lay': d.choice(lays),
                'list': d.bool(), 'perm': d.perm(m), 'scal': m == 1 and d.chance(30)}
    return g


def reference(e, deg_ok):
    q = M(e['q'])
    tol = e['p'].get('abs_tol', 1e-6)
    w, v = np.linalg.eigh(q)
    deg = bool(w[0] <= tol)
    ww = np.maximum(w, tol) if deg else w
    return A(e['c']), ww, v, tol, deg, w


def verdict(ref, x):
    """True / False / None (too close to call)."""
    c, ww, v, tol, deg, w = ref
    if deg and abs(w[0] - tol) < 1e-9:
        return None
    y = v.T @ (x - c)
    r = np.sqrt(np.sum(y * y / ww))
    noise = 1e-11 * (ww[-1] / ww[0]) ** 0.5 * max(1.0, ww[-1] / ww[0] * 1e-2) + 1e-10 if not deg else 1e-5 * (1 + r)
    if deg and ww[-1] / ww[0] > 1e9:
        return None
    edge = 1.0 + tol
    if r < edge - noise - 1e-3 * tol:
        return True
    if r > edge + noise + 1e-3 * tol:
        return False
    return None


def points(cs, refs):
    out = []
    for p in cs['pts']:
        c, ww, v, tol, deg, w = refs[p['i']]
        y = np.sqrt(np.maximum(w, 0.0)) * A(p['u'])
        nn = np.linalg.norm(A(p['u']))
        y = y / nn * (p['r'] + p['t'] * tol)
        if deg and p['k']:
            z = A(p['w']) * (w <= tol)
            if np.linalg.norm(z) > 1e-9:
                y = y + z / np.linalg.norm(z) * p['k'] * np.sqrt(tol)
        out.append(c + v @ y)
    return np.array(out).T


def chk(cs):
    E = S.Ellipsoid
    refs = [reference(e, True) for e in cs['es']]
    pts = points(cs, refs)
    before = pts.copy()
    os_ = mk_ells(cs['es'])
    k = pts.shape[1]

    def ask(objs, lay, aslist, mode, p):
        arg = list(objs) if aslist and len(lay) == 1 else obj_array(list(objs), lay)
        r = call(E.is_internal, arg, p, mode)
        a = np.asarray(r)
        if a.size != p.shape[1] or a.dtype.kind != 'b':
            fail('not one boolean answer per point', got=r, points=p.shape)
        return [bool(x) for x in a.ravel()]

    if cs['scal']:
        arg = os_[0]
        r = np.asarray(call(E.is_internal, arg, pts, cs['mode'])).ravel()
        got = [bool(x) for x in r]
        expect(len(got) == k, 'not one answer per point', got=r)
    else:
        got = ask(os_, cs['lay'], cs['list'], cs['mode'], pts)
    other = ask(os_, [len(os_)], False, 'i' if cs['mode'] == 'u' else 'u', pts)
    sure = 0
    tags = set()
    for j in range(k):
        vs = [verdict(r, pts[:, j]) for r in refs]
        for mode, g in ((cs['mode'], got[j]), ('i' if cs['mode'] == 'u' else 'u', other[j])):
            if mode == 'u':
                exp = True if any(v is True for v in vs) else (None if any(v is None for v in vs) else False)
            else:
                exp = False if any(v is False for v in vs) else (None if any(v is None for v in vs) else True)
            if exp is None:
                tags.add('undecided')
                continue
            sure += 1
            tags.add('%s-%s' % (mode, exp))
            if g != exp:
                fail('membership in the %s is wrong' % ('union' if mode == 'u' else 'intersection'), point=pts[:, j],
                     got=g, expected=exp, per_ellipsoid=vs, index=j)
    # order of the ellipsoids and grouping of the points do not matter
    perm = cs['perm']
    again = ask([os_[i] for i in perm], [len(os_)], True, cs['mode'], pts)
    expect(again == got, 'the answer depends on the order or layout of the ellipsoids', got=again, first=got)
    one = ask(os_, [len(os_)], False, cs['mode'], pts[:, [k - 1]])
    expect(one[0] == got[k - 1], 'the answer depends on the other points', got=one, first=got)
    expect(np.array_equal(before, pts), 'the points were modified')
    tags |= {'ells%d' % len(os_), 'degenerate' if any(r[4] for r in refs) else 'regular'}
    return res(sure > 1, *tags)


facet(P, 'nondegenerate', gen_case(False), chk, 600,
      rule='1..6 ellipsoids in flat, row, column and 2-D arrays, lists or single; points at radii 0..3 of one of them, '
           'and at 1 +- 0.5/3 tolerances; non-trivial: at least two decided answers')
facet(P, 'degenerate', gen_case(True), chk, 500,
      rule='as above with shapes of rank 0..n; points also off the flat by 0.3, 3 and 30 times the root of the '
           'tolerance; non-trivial: at least two decided answers')


def gen_asym(d):
    n = d.int(2, d.sz(4, 4, 10))
    r = d.int(1, n - 1)
    a = d.mat(n, r, -2, 2)
    return {'a': a, 'c': d.vec(n), 'z': d.vec(r, -1, 1)}


def chk_asym(cs):
    """Shapes symmetric only up to rounding (products of matrices) are accepted everywhere."""
    a = M(cs['a'])
    n, r = a.shape
    q = (a * 3.0) @ (a.T / 3.0)
    e = call(S.Ellipsoid, A(cs['c']), q)
    z = A(cs['z'])
    z = z / max(1.0, np.linalg.norm(z)) * 0.9
    got = np.asarray(call(S.Ellipsoid.is_internal, [e], (A(cs['c']) + a @ z).reshape(-1, 1), 'u')).ravel()
    expect(got.size == 1 and bool(got[0]), 'an inner point of a degenerate ellipsoid is not found', got=got)
    return res(bool(np.any(q != q.T)), 'asymmetric' if np.any(q != q.T) else 'symmetric')


facet(P, 'rounded_shape', gen_asym, chk_asym, 120,
      rule='degenerate shapes computed as products; non-trivial: not exactly symmetric')


def gen_bad(d):
    return {'n': d.int(1, 4), 'm': d.int(1, 3), 'k': d.int(1, 3),
            'bad': d.choice(['dim', 'mixed', 'none', 'empty', 'mode', 'text', 'type'])}


def chk_bad(cs):
    E = S.Ellipsoid
    n, k, bad = cs['n'], cs['k'], cs['bad']
    mk = lambda dim: call(E, np.eye(dim))
    pts = np.ones((n, k))
    if bad == 'dim':
        rejects('points of another dimension', E.is_internal, [mk(n)] * cs['m'], np.ones((n + 1, k)), 'u')
    elif bad == 'mixed':
        rejects('ellipsoids of different dimensions', E.is_internal, [mk(n), mk(n + 1)], pts, 'u')
    elif bad == 'none':
        rejects('no ellipsoids', E.is_internal, np.array([]), pts, 'u')
    elif bad == 'empty':
        rejects('an empty ellipsoid', E.is_internal, [mk(n), call(E)], pts, 'i')
    elif bad == 'mode':
        for mo in ('x', 'ui', '', 'U '):
            rejects('unknown mode', E.is_internal, [mk(n)], pts, mo)
    elif bad == 'text':
        rejects('non-numeric points', E.is_internal, [mk(n)], np.array([['a'] * k] * n), 'u')
    else:
        rejects('non-ellipsoids', E.is_internal, [mk(n), 3], pts, 'u')
    return res(True, bad)


facet(P, 'refusals', gen_bad, chk_bad, 40, rule='invalid arguments; non-trivial: all')
