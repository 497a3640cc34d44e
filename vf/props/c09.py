"""C09: scalar characteristics of ellipsoid (and hyperplane) arrays."""
import math

from vf.registry import facet
from vf.oracle import *

P = 'C09'
TOLS = [1e-6, 1e-6, 1e-4, 1e-2, 1e-8]


def gen_e(d, empties):
    if empties and d.chance(20):
        return {'empty': True, 'p': gen_p(d)}
    n = d.int(1, d.sz(5, 10, 16))
    r = d.choice([n, n, d.int(0, n)])
    p = gen_p(d)
    e = {'n': n, 'r': r, 'b': d.spd(r, 0.05, 20) if r else [], 'perm': d.perm(n), 'c': d.vec(n), 'p': p,
         'edge': d.choice([None, None, None, 0.5, 2.0, 20.0, -0.5]) if r else None}
    return e


def gen_p(d):
    p = {}
    if d.bool():
        p['abs_tol'] = d.choice(TOLS)
    if d.bool():
        p['rel_tol'] = d.choice([1e-3, 1e-2, 1e-7])
    if d.bool():
        p['n_plot_2d_points'] = d.int(1, 999)
    if d.bool():
        p['n_plot_3d_points'] = d.int(1, 999)
    return p


def build(e):
    if e.get('empty'):
        return call(S.Ellipsoid, **e['p']), np.zeros((0, 0))
    n, r = e['n'], e['r']
    q = np.zeros((n, n))
    if r:
        b = M(e['b'])
        if e['edge'] is not None:
            b = b.copy()
            b[-1, :] = 0.0
            b[:, -1] = 0.0
            b[-1, -1] = e['edge'] * e['p'].get('abs_tol', 1e-6)
        q[:r, :r] = b
    p = np.array(e['perm'])
    q = q[np.ix_(p, p)]
    return call(S.Ellipsoid, A(e['c']), q, **e['p']), q


def gen_case(d):
    m = d.weighted([(2, 1), (3, 2), (3, 3), (2, 4), (2, 6 if d.lvl < 2 else 2 * d.int(4, 40))])
    lays = [[m], [1, m], [m, 1]] + ([[2, m // 2]] if m % 2 == 0 else []) + ([[m // 2, 1, 2]] if m % 2 == 0 else [])
    emp = d.chance(50) if m < 6 else d.chance(20)
    return {'es': d.dups([gen_e(d, emp) for _ in range(m)]), 'lay': d.choice(lays), 'how': d.choice(['arr', 'list', 'one'])}


def chk(cs):
    E = S.Ellipsoid
    es = cs['es']
    pairs = [build(e) for e in es]
    os_ = [x for x, _ in pairs]
    qs = [q for _, q in pairs]
    m = len(os_)
    lay = tuple(cs['lay'])
    if cs['how'] == 'one' and m == 1:
        arg, lay = os_[0], ()
    elif cs['how'] == 'list':
        arg, lay = list(os_), (m,)
    else:
        arg = obj_array(os_, lay)
    dims = [q.shape[0] for q in qs]
    got = arr(call(E.dimension, arg), lay, 'dimension')
    expect(np.array_equal(got.ravel(), dims), 'dimension is wrong', got=got, expected=dims)
    if all(dims):
        dd, rk = pair(call(E.dimension, arg, True), 2)
        expect(np.array_equal(arr(dd, lay).ravel(), dims), 'dimension (with rank) is wrong', got=dd, expected=dims)
        ranks = [e['r'] for e in es]
        ok = all(e['edge'] is None or abs(e['edge']) * e['p'].get('abs_tol', 1e-6) > 1e-7 for e in es)
        if ok:
            expect(np.array_equal(arr(rk, lay).ravel(), ranks), 'rank is wrong', got=rk, expected=ranks)
    emp = bools(call(E.is_empty, arg), lay, 'is_empty')
    expect(np.array_equal(emp.ravel(), [x == 0 for x in dims]), 'is_empty is wrong', got=emp, dims=dims)
    tags = {'m%d' % m}
    if not all(dims):
        for f in (E.is_degenerate, E.volume, E.min_eig, E.max_eig, E.trace):
            rejects('array with an empty ellipsoid', f, arg)
        tags.add('with-empty')
    else:
        tols = [e['p'].get('abs_tol', 1e-6) for e in es]
        ws = [np.linalg.eigvalsh(q) for q in qs]
        degs = [bool(w[0] <= t) for w, t in zip(ws, tols)]
        dg = bools(call(E.is_degenerate, arg), lay, 'is_degenerate')
        expect(np.array_equal(dg.ravel(), degs), 'is_degenerate is wrong', got=dg, expected=degs)
        tags |= {'deg' if x else 'regular' for x in degs}
        vol = flat(call(E.volume, arg), m, 'volume')
        for i in range(m):
            n = dims[i]
            exp = 0.0 if degs[i] else math.pi ** (n / 2) / math.gamma(n / 2 + 1) * math.sqrt(np.linalg.det(qs[i]))
            expect(vol[i] == 0.0 if degs[i] else abs(vol[i] - exp) <= 1e-9 * exp, 'volume is wrong', got=vol,
                   expected=exp, index=i)
        for f, ref, nm in ((E.min_eig, [w[0] for w in ws], 'min_eig'), (E.max_eig, [w[-1] for w in ws], 'max_eig'),
                           (E.trace, [np.trace(q) for q in qs], 'trace')):
            close(flat(call(f, arg), m, nm), np.array(ref), 1e-10 * scale_of(*qs), nm + ' is wrong')
    # settings of every object and the aggregates
    for name, dft in (('abs_tol', 1e-6), ('rel_tol', 1e-5), ('n_plot_2d_points', 200), ('n_plot_3d_points', 200)):
        exp = np.array([e['p'].get(name, dft) for e in es], dtype=float)
        expect(np.array_equal(flat(call(E.get_property, arg, name, None), m), exp), name + ' per object is wrong',
               expected=exp)
        for f, fexp in ((None, None), (np.min, exp.min()), (np.max, exp.max()), (np.mean, exp.mean())):
            if f is None:
                a, v = pair(call(E.get_property, arg, name), 2)
                fexp = exp.min()
            else:
                a, v = pair(call(E.get_property, arg, name, f), 2)
            expect(np.array_equal(flat(a, m), exp), name + ' per object is wrong', got=a, expected=exp)
            expect(abs(num(v) - fexp) <= 1e-12 * abs(fexp), 'aggregate of %s is wrong' % name, got=v, expected=fexp)
    for f, name, dft in ((E.get_abs_tol, 'abs_tol', 1e-6), (E.get_rel_tol, 'rel_tol', 1e-5)):
        exp = np.array([e['p'].get(name, dft) for e in es])
        a, v = pair(call(f, arg), 2)
        expect(np.array_equal(flat(a, m), exp) and num(v) == exp.min(), 'get_%s is wrong' % name, got=(a, v))
        a, v = pair(call(f, arg, np.max), 2)
        expect(num(v) == exp.max(), 'get_%s with max is wrong' % name, got=v, expected=exp.max())
        expect(np.array_equal(flat(call(f, arg, None), m), exp), 'get_%s without aggregate is wrong' % name)
    for f, name in ((E.get_n_plot_2d_points, 'n_plot_2d_points'), (E.get_n_plot_3d_points, 'n_plot_3d_points')):
        exp = [e['p'].get(name, 200) for e in es]
        expect(np.array_equal(flat(call(f, arg), m), exp), 'get_%s is wrong' % name, expected=exp)
    return res(m > 1, *tags)


facet(P, 'ellipsoids', gen_case, chk, 700,
      rule='arrays of 1..6 ellipsoids of mixed dimension 0..5 (10), rank 0..n with exact zero blocks and smallest '
           'eigenvalue at 0.5/2/20 tolerances; non-trivial: more than one ellipsoid')


def gen_scale(d):
    n = d.int(1, d.sz(7, 7, 14))
    return {'q': d.spd(n, 0.2, 5), 'a': [[float(x) for x in r] for r in d.imat(n, n, -2, 2)], 'f': d.choice([4.0, 0.25, 2.0]),
            'u': d.orth(n)}


def chk_scale(cs):
    """Volume scales with the determinant of a linear map; eigenvalues are invariant under rotations."""
    E = S.Ellipsoid
    q, a, u = M(cs['q']), M(cs['a']), M(cs['u'])
    n = q.shape[0]
    base = num(call(E.volume, [call(E, q)]))
    det = np.linalg.det(a)
    tags = []
    if abs(det) > 0.5:
        q2 = a @ q @ a.T
        q2 = 0.5 * (q2 + q2.T)
        if np.linalg.eigvalsh(q2)[0] > 1e-3:
            v = num(call(E.volume, [call(E, q2)]))
            expect(abs(v - abs(det) * base) <= 1e-7 * abs(det) * base, 'volume does not scale with the determinant',
                   got=v, expected=abs(det) * base)
            tags.append('mapped')
    v = num(call(E.volume, [call(E, q * cs['f'])]))
    expect(abs(v - cs['f'] ** (n / 2) * base) <= 1e-9 * v, 'volume does not scale', got=v)
    q3 = u @ q @ u.T
    q3 = 0.5 * (q3 + q3.T)
    e, e3 = call(E, q), call(E, q3)
    for f in (E.min_eig, E.max_eig, E.trace, E.volume):
        x, y = flat(call(f, [e, e3]), 2)
        expect(abs(x - y) <= 1e-8 * max(1.0, abs(x)), 'characteristic changes under rotation', got=(x, y),
               which=f.__name__)
    return res(n > 1, *tags)


facet(P, 'invariance', gen_scale, chk_scale, 250,
      rule='integer maps, scalings and rotations of a nondegenerate ellipsoid; non-trivial: dimension > 1')


def gen_hyp(d):
    m = d.count(1, 5, 5, 80)
    lays = [[m], [1, m], [m, 1]]
    hs = []
    for _ in range(m):
        n = d.int(1, 5)
        p = {}
        if d.bool():
            p['abs_tol'] = d.choice(TOLS)
        if d.bool():
            p['rel_tol'] = d.choice([1e-3, 1e-2])
        z = n == 1 and d.chance(40)
        hs.append({'n': d.choice([[0.0], [1e-9], [-1e-9], [0.5]]) if z else d.dirv(n),
                   's': d.choice([0.0, 1e-9, -1e-9, 1.0, -1.0]) if z else d.real(-5, 5), 'p': p})
    return {'hs': d.dups(hs), 'lay': d.choice(lays), 'how': d.choice(['arr', 'list'])}


def chk_hyp(cs):
    H = S.Hyperplane
    hs = cs['hs']
    m = len(hs)
    os_ = mk_hyps(hs)
    lay = (m,) if cs['how'] == 'list' else tuple(cs['lay'])
    arg = os_ if cs['how'] == 'list' else obj_array(os_, lay)
    dims = []
    for h in hs:
        t = h['p'].get('abs_tol', 1e-6)
        dims.append(0 if len(h['n']) == 1 and abs(h['n'][0]) <= t and abs(h['s']) <= t else len(h['n']))
    expect(np.array_equal(arr(call(H.dimension, arg), lay).ravel(), dims), 'dimension is wrong', expected=dims)
    expect(np.array_equal(bools(call(H.is_empty, arg), lay).ravel(), [x == 0 for x in dims]), 'is_empty is wrong')
    for f, name, dft in ((H.get_abs_tol, 'abs_tol', 1e-6), (H.get_rel_tol, 'rel_tol', 1e-5)):
        exp = np.array([h['p'].get(name, dft) for h in hs])
        a, v = pair(call(f, arg), 2)
        expect(np.array_equal(flat(a, m), exp) and num(v) == exp.min(), 'get_%s is wrong' % name, got=(a, v))
        a, v = pair(call(f, arg, np.max), 2)
        expect(num(v) == exp.max(), 'get_%s with max is wrong' % name, got=v, expected=exp.max())
    return res(m > 1, 'with-empty' if 0 in dims else 'plain')


facet(P, 'hyperplanes', gen_hyp, chk_hyp, 200,
      rule='arrays of 1..5 hyperplanes of mixed dimension, zero ones included; non-trivial: more than one')
