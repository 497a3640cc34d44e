"""C16: orthogonal matrices that map one direction onto another."""
from vf.registry import facet
from vf.oracle import *

P = 'C16'
RELS = [(6, 'free'), (2, 'parallel'), (2, 'opposite'), (3, 'near'), (3, 'nearopp'), (1, 'orth'), (1, 'axis')]


def gen_pair(d, n):
    return {'a': d.dirv(n), 'b': d.dirv(n), 'rel': d.weighted(RELS), 'eps': d.choice([1e-16, 1e-12, 1e-9, 1e-8, 5e-8, 1e-7, 2e-7,
                                                                                      1e-6, 1e-5, 1e-4, 1e-2]),
            'k': d.pos(1e-3, 1e3), 'k2': d.pos(1e-3, 1e3)}


def mk_pair(cs):
    a, b = A(cs['a']), A(cs['b'])
    rel = cs['rel']
    n = a.size
    if rel == 'parallel':
        b = a.copy()
    elif rel == 'opposite':
        b = -a
    elif rel in ('near', 'nearopp'):
        o = b - a * (a @ b) / (a @ a)
        so = np.sqrt(o @ o)
        b = a + (o / so * np.sqrt(a @ a) * cs['eps'] if so > 1e-6 else 0.0)
        if rel == 'nearopp':
            b = -b
    elif rel == 'orth' and n > 1:
        o = b - a * (a @ b) / (a @ a)
        b = o if np.sqrt(o @ o) > 1e-3 else b
    elif rel == 'axis':
        e = np.zeros(n)
        e[0] = 1.0 if cs['k'] > 1 else -1.0
        a = e + cs['eps'] * a
    return a * cs['k'], b * cs['k2']


def unit(v):
    return v / np.sqrt(v @ v)


def gap(u, v):
    """Angle-like distance of two unit vectors from being parallel or opposite."""
    return min(np.linalg.norm(u - v), np.linalg.norm(u + v))


def tolof(*gaps):
    t = 1e-12
    for g in gaps:
        t += 1e-6 if g < 3e-7 else 1e-14 / g
    return t


def chk_map(o, a, b, t, what):
    n = a.size
    o = arr(o, None, what)
    expect(o.size == n * n, '%s has a wrong size' % what, got=o)
    o = o.reshape(n, n)
    close(o.T @ o, np.eye(n), t, '%s is not orthogonal' % what, src=a, dst=b)
    close(o @ a, b, t, '%s does not map the source direction onto the destination' % what)
    return o


def gen_single(d):
    n = d.int(1, d.sz(6, 8, 25))
    return dict(gen_pair(d, n), lay=d.int(0, 2))


def chk_single(cs):
    la = S.la
    a, b = mk_pair(cs)
    n = a.size
    ua, ub = unit(a), unit(b)
    g = gap(ua, ub)
    lays = [lambda v: v.copy(), lambda v: v.reshape(-1, 1).copy(), lambda v: v.reshape(-1, 1).copy() + 0j]
    mk = lays[cs['lay']]
    for f, nm in ((la.orth_transl, 'orth_transl'), (la.orth_transl_qr, 'orth_transl_qr')):
        x, y = mk(a), mk(b)
        x0, y0 = x.copy(), y.copy()
        o = call(f, x, y)
        expect(np.array_equal(x, x0) and np.array_equal(y, y0), '%s changed its arguments' % nm)
        if n == 1:
            expect(num(o) == (1.0 if a[0] * b[0] > 0 else -1.0) or abs(num(o) - np.sign(a[0] * b[0])) < 1e-12, 'wrong sign in one dimension', f=nm, got=o)
        chk_map(o, ua, ub, tolof(g), nm)
    if cs['lay'] < 2:
        x, y = mk(a), mk(b)
        o = call(la.orth_transl_haus, x, y)
        expect(np.array_equal(x, mk(a)) and np.array_equal(y, mk(b)), 'orth_transl_haus changed its arguments')
        chk_map(o, ua, ub, tolof(np.linalg.norm(ua - ub)), 'orth_transl_haus')
    # refusals
    z = mk(np.zeros(n))
    for f in (la.orth_transl, la.orth_transl_qr):
        rejects('zero source', f, z, mk(b))
        rejects('zero destination', f, mk(a), z)
        rejects('complex source', f, mk(a) + 1e-3j * np.ones_like(mk(a)), mk(b))
        rejects('complex destination', f, mk(a), mk(b) + 1e-3j * np.ones_like(mk(a)))
    return res(n > 1, 'n%d' % n, cs['rel'], 'lay%d' % cs['lay'])


facet(P, 'builders', gen_single, chk_single, 2500,
      rule='vector pairs of dimension 1..6, free, parallel, opposite, orthogonal, nearly parallel or opposite (angle 1e-16..1e-2), '
           'lengths 1e-3..1e3, flat, column or complex-typed, for three builders; non-trivial: dimension > 1',
      fixed=lambda: [{'a': [1.0, 2.0, 3.0], 'b': [0.0, 0.0, 1.0], 'rel': r, 'eps': e, 'k': 1.0, 'k2': 7.0, 'lay': 0}
                     for r in ('parallel', 'opposite', 'near', 'nearopp') for e in (1e-16, 1e-8, 1.5e-7, 1e-6)])


def gen_batch(d):
    n, k, t = d.int(1, d.sz(5, 5, 10)), d.count(1, 3, 4, 12), d.count(1, 3, 4, 20)
    return {'n': n, 'k': k, 't': t, 'src': [d.dirv(n) for _ in range(k)], 'dst': [[d.dirv(n) for _ in range(k)] for _ in range(t)],
            'flatd': d.bool(), 'same': d.int(-1, 3),
            'near': d.choice([1e-3, 1e-6, 1e-7]) if d.chance(30) else 0, 'sc': d.choice([1.0, 1.0, 1e-9, 1e6])}


def chk_batch(cs):
    la = S.la
    n, k, t = cs['n'], cs['k'], cs['t']
    src = A(cs['src']).T.copy()
    dst = np.zeros((n, k, t))
    for i in range(t):
        dst[:, :, i] = A(cs['dst'][i]).T
    if cs['near']:      # directions changing slowly
        for i in range(1, t):
            dst[:, :, i] = dst[:, :, 0] + i * cs['near'] * dst[:, :, i]
    if cs['same'] >= 0:
        dst[:, cs['same'] % k, cs['same'] % t] = src[:, cs['same'] % k] * (1 if cs['same'] % 2 else -2)
    dst *= cs['sc']
    if np.any(np.all(dst == 0, axis=0)):
        return res(False, 'zero')
    darg, sarg = dst.copy(), src.copy()
    if cs['flatd'] and t == 1:
        darg = dst[:, :, 0].copy()
        if k == 1:
            darg, sarg = darg[:, 0], sarg[:, 0]
    d0 = darg.copy()
    o = arr(call(la.ml_orth_transl, sarg, darg), (n, n, t, k), 'batched rotations')
    expect(np.array_equal(darg, d0) and np.array_equal(sarg.ravel(), src.ravel()), 'the batched builder changed its arguments')
    for i in range(t):
        for j in range(k):
            one = arr(call(la.orth_transl, src[:, j].copy(), dst[:, j, i].copy()), (n, n), 'rotation')
            close(o[:, :, i, j], one, 1e-12, 'the batched builder differs from the single one', vec=j, elem=i)
            ua, ub = unit(src[:, j]), unit(dst[:, j, i])
            chk_map(o[:, :, i, j], ua, ub, tolof(gap(ua, ub)), 'ml_orth_transl')
    if k > 1 or t > 1:
        bad = dst.copy()
        bad[:, k - 1, t - 1] = 0.0
        rejects('zero destination in a batch', la.ml_orth_transl, src.copy(), bad)
    return res(n > 1 and k * t > 1, 'n%d' % n, 'k%d' % k, 't%d' % t)


facet(P, 'batch', gen_batch, chk_batch, 500,
      rule='1..3 sources, 1..3 destinations each, dimension 1..5, parallel and opposite pairs included; non-trivial: several pairs')


def gen_max(d):
    n = d.int(1, d.sz(5, 8, 20))
    c = gen_pair(d, n)
    c['sm'] = d.dirv(n)
    c['dm'] = d.dirv(n)
    c['smr'] = d.weighted([(6, 'free'), (1, 'src'), (1, 'msrc')])
    c['dmr'] = d.weighted([(6, 'free'), (1, 'dst'), (1, 'zero')])
    c['m'] = d.mat(n, n) if d.bool() else d.spd(n)
    c['rank'] = d.weighted([(4, 0), (1, 1)])
    return c


def compl(v):
    """Orthonormal basis of the complement of a unit vector (SVD, independent of the code under test)."""
    u, _, _ = np.linalg.svd(v.reshape(-1, 1), full_matrices=True)
    return u[:, 1:]


def chk_max(cs):
    la = S.la
    a, b = mk_pair(cs)
    n = a.size
    ua, ub = unit(a), unit(b)
    e1 = np.zeros(n)
    e1[0] = 1.0
    t = tolof(gap(ua, e1), gap(ub, e1)) if n > 1 else 1e-12
    sm = {'free': A(cs['sm']), 'src': a.copy(), 'msrc': -2 * a}[cs['smr']]
    dm = {'free': A(cs['dm']), 'dst': b.copy(), 'zero': np.zeros(n)}[cs['dmr']]
    sv = [v.copy() for v in (a, b, sm, dm)]
    o = call(la.orth_transl_max_dir, *sv)
    expect(all(np.array_equal(p, q) for p, q in zip(sv, (a, b, sm, dm))), 'orth_transl_max_dir changed its arguments')
    o = chk_map(o, ua, ub, t, 'orth_transl_max_dir')
    pa, pb = ua @ sm, ub @ dm
    best = pa * pb + np.linalg.norm(sm - pa * ua) * np.linalg.norm(dm - pb * ub)
    sc = max(1.0, np.linalg.norm(sm) * np.linalg.norm(dm))
    if n == 1:
        best = pa * pb
    expect(abs(dm @ o @ sm - best) <= 20 * t * sc + 1e-10 * sc, 'the inner product is not the largest possible', got=dm @ o @ sm,
           best=best)
    m = M(cs['m'])
    if cs['rank'] and n > 1:
        m[:, 0] = m[:, 1]
    m0 = m.copy()
    o = call(la.orth_transl_max_tr, a.copy(), b.copy(), m)
    expect(np.array_equal(m, m0), 'orth_transl_max_tr changed its arguments')
    o = chk_map(o, ua, ub, t, 'orth_transl_max_tr')
    k = compl(ua).T @ m @ compl(ub)
    best = ua @ m @ ub + (np.sum(np.linalg.svd(k, compute_uv=False)) if n > 1 else 0.0)
    sc = n * scale_of(m)
    expect(abs(np.trace(o @ m) - best) <= 20 * t * sc + 1e-10 * sc, 'the trace is not the largest possible', got=np.trace(o @ m),
           best=best)
    return res(n > 1, 'n%d' % n, cs['rel'], cs['smr'], cs['dmr'])


facet(P, 'maximising', gen_max, chk_max, 1500,
      rule='pairs as in builders with free, aligned or zero maximised directions and general, positive definite or rank-deficient '
           'trace matrices, dimension 1..5; optimum from the closed form (nuclear norm on the complements); non-trivial: dimension > 1',
      fixed=lambda: [{'a': [2.0], 'b': [-3.0], 'rel': 'free', 'eps': 1e-8, 'k': 1.0, 'k2': 1.0, 'sm': [1.0], 'dm': [1.0],
                      'smr': 'free', 'dmr': 'free', 'm': [[2.0]], 'rank': 0}])


def gen_orth(d):
    n = d.int(1, d.sz(6, 8, 25))
    k = d.int(1, n)
    return {'m': d.mat(n, k) if d.bool() else d.imat(n, k), 'dup': d.chance(20), 'sc': d.pos(1e-3, 1e3)}


def chk_orth(cs):
    la = S.la
    m = M(cs['m']) * cs['sc']
    n, k = m.shape
    if cs['dup'] and k > 1:
        m[:, k - 1] = m[:, 0]
    m0 = m.copy()
    o = arr(call(la.mat_orth, m), (n, n), 'orthogonal completion')
    expect(np.array_equal(m, m0), 'mat_orth changed its argument')
    close(o.T @ o, np.eye(n), 1e-12, 'the completion is not orthogonal')
    r = o.T @ m
    sc = scale_of(m) if np.any(m) else 1.0
    expect(np.all(np.abs(np.tril(r, -1)) <= 1e-12 * n * sc), 'the completion does not triangularise the matrix', r=r)
    expect(np.all(np.diagonal(r) >= -1e-12 * n * sc), 'the triangular part has negative diagonal entries', r=r)
    s = np.linalg.svd(m, compute_uv=False)
    full = s[-1] > 1e-9 * sc
    c = arr(call(la.math_orth_col, m), (n, k), 'orthonormal columns')
    close(c, o[:, :k], 1e-12, 'math_orth_col is not the first columns of mat_orth')
    close(c @ (c.T @ m), m, 1e-11 * n * sc, 'the columns do not span the columns of the matrix')
    return res(n > 1, 'n%d' % n, 'k%d' % k, 'full' if full else 'deficient')


facet(P, 'completion', gen_orth, chk_orth, 800,
      rule='n x k matrices, k <= n <= 6, real or integer, rank-deficient ones included; non-trivial: n > 1')
