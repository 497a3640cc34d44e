"""C14: polar ellipsoids."""
from vf.registry import facet
from vf.oracle import *

P = 'C14'


def gen_e(d, n, kind):
    """Centre at a chosen level c'Q^-1 c of the ellipsoid: kind 'in' (< 1) or 'out' (>= 1) or 'deg'."""
    e = {'kind': kind, 'u': d.unit(n), 'p': {'abs_tol': d.choice([1e-7, 1e-5, 1e-3])} if d.chance(40) else {}}
    if kind == 'deg':
        e['q'] = d.psd(n, d.int(0, n - 1))
        e['lev'] = 0.0
    else:
        e['q'] = d.spd(n, 0.1, 10) if d.chance(70) else d.choice([d.spd(n, 0.01, 100), d.spd(n, 0.01, 3000)])
        if kind == 'in':
            e['lev'] = d.choice([0.0, d.nice(0, 0.9, 20), 0.5, 0.9, 0.95, 0.995, 1e-3, 0.01])
        else:
            e['lev'] = d.choice([1.01, 1.0 + 1e-4, 1.5, 3.0, 10.0])
    return e


def data(e):
    q = M(e['q'])
    u = A(e['u'])
    if e['lev']:
        w, v = np.linalg.eigh(q)
        c = v @ (np.sqrt(np.maximum(w, 0)) * (v.T @ u)) * e['lev']
    else:
        c = np.zeros(len(u))
    return c, q


def gen_case(d):
    lay = d.layout([[1], [1], [2], [3], [1, 2], [2, 1], [2, 2], [2, 1, 2]], 40)
    m = 1
    for x in lay:
        m *= x
    return {'es': d.dups([gen_e(d, d.int(1, d.sz(5, 8, 14)), 'in') for _ in range(m)]), 'lay': lay,
            'how': d.choice(['arr', 'list', 'one']), 'dirs': [d.int(0, 10 ** 6) for _ in range(2)]}


def on_polar(c, q, pc, pq, l, cond):
    """The boundary point of the polar in direction l is l / rho(l)."""
    r = supf(c, q, l)
    y = l / r - pc
    lev = float(y @ np.linalg.solve(pq, y))
    expect(abs(lev - 1.0) <= 1e-7 * cond, 'a vector with support value one is not on the boundary of the polar', level=lev,
           vector=l / r, centre=c, shape=q, polar_centre=pc, polar_shape=pq)


def chk(cs):
    E = S.Ellipsoid
    ds = [data(e) for e in cs['es']]
    os_ = shared(cs['es'], lambda e: (lambda c, q: call(E, c, q, **e['p']))(*data(e)))
    m = len(os_)
    lay = tuple(cs['lay'])
    if cs['how'] == 'one' and m == 1:
        arg, lay = os_[0], ()
    elif cs['how'] == 'list':
        arg, lay = list(os_), (m,)
    else:
        arg = obj_array(os_, lay)
    out = call(E.polar, arg)
    with interp('polar array'):
        expect(np.asarray(out, dtype=object).shape == lay, 'the array of polars has another layout', got=np.shape(out),
               expected=lay)
    pols = objs_of(out, m, E)
    expect(len(set(map(id, pols))) == m, 'polars share an object')
    tags = set()
    for (c, q), e, o, p in zip(ds, cs['es'], os_, pols):
        n = c.size
        pc, pq = ell_data(p, n, 'polar')
        c0, q0 = ell_data(o)
        expect(np.array_equal(c0, c) and np.array_equal(q0, q), 'polar changed the original')
        k = float(c @ np.linalg.solve(q, c))
        w = np.linalg.eigvalsh(q)
        cond = (w[-1] / w[0]) / (1 - k) ** 2
        for l in probe_dirs(n, 8, cs['dirs'][0]):
            on_polar(c, q, pc, pq, l, cond)
        for l in probe_dirs(n, 3, cs['dirs'][1]):
            # membership through the library on both sides of the boundary
            r = supf(c, q, l)
            for f, ex in ((0.98, True), (1.02, False)):
                y = l * (f / r)
                if abs(float((y - pc) @ np.linalg.solve(pq, y - pc)) - 1) < 1e-3:
                    continue
                got = bools(call(E.is_internal, [p], y.reshape(-1, 1), 'u'))
                expect(bool(got.ravel()[0]) == ex, 'membership in the polar contradicts the support function', vector=y,
                       support=f, centre=c, shape=q)
        wp = np.linalg.eigvalsh(pq)
        if wp[0] > 1e-4:
            back = objs_of(call(E.polar, [p]), 1, E)[0]
            bc, bq = ell_data(back, n)
            close(bc, c, 1e-8 * cond * scale_of(c, q), 'the polar of the polar is not the original (centre)')
            close(bq, q, 1e-8 * cond * scale_of(c, q), 'the polar of the polar is not the original (shape)')
            tags.add('involution')
        for rob in (True, False):
            x = call(o._get_scalar_polar_internal, rob)
            xc, xq = ell_data(x, n)
            close(xc, pc, 1e-9 * cond * scale_of(pc, pq), 'the two methods disagree (centre)', robust=rob)
            close(xq, pq, 1e-9 * cond * scale_of(pc, pq), 'the two methods disagree (shape)', robust=rob)
        tags.add('centred' if e['lev'] == 0 else 'shifted')
        tags.add('dim%d' % n)
    return res('shifted' in tags or m > 1, 'm%d' % m, cs['how'], *tags)


facet(P, 'polars', gen_case, chk, 500,
      rule='arrays of nondegenerate ellipsoids of mixed dimension 1..5 (8) with the origin at levels 0..0.95; non-trivial: a '
           'nonzero centre or several ellipsoids')


def gen_bad(d):
    m = d.choice([1, 1, 2, 3] if d.lvl < 2 else [4, 20, 60])
    i = d.int(0, m - 1)
    kinds = ['in'] * m
    kinds[i] = d.choice(['out', 'out', 'deg'])
    return {'es': [gen_e(d, d.int(1, d.sz(4, 4, 10)), k) for k in kinds], 'i': i}


def chk_bad(cs):
    E = S.Ellipsoid
    ds = [data(e) for e in cs['es']]
    os_ = shared(cs['es'], lambda e: (lambda c, q: call(E, c, q, **e['p']))(*data(e)))
    k = cs['es'][cs['i']]['kind']
    rejects('degenerate ellipsoid' if k == 'deg' else 'origin not in the interior', E.polar, os_)
    rejects('degenerate ellipsoid' if k == 'deg' else 'origin not in the interior', E.polar, [os_[cs['i']]])
    if k == 'out':
        for rob in (True, False):
            rejects('origin not in the interior', os_[cs['i']]._get_scalar_polar_internal, rob)
    for (c, q), o in zip(ds, os_):
        c0, q0 = ell_data(o)
        expect(np.array_equal(c0, c) and np.array_equal(q0, q), 'a refused polar changed the original')
    rejects('not an ellipsoid', E.polar, [S.Hyperplane(np.array([1.0, 0.0]), 1.0)])
    return res(True, k, 'm%d' % len(os_))


facet(P, 'refusals', gen_bad, chk_bad, 250,
      rule='arrays with one degenerate ellipsoid or one with the origin outside (levels 1.0001..10); all non-trivial')
