"""C07: containment between concentric ellipsoids."""
from vf.registry import facet
from vf.oracle import *

P = 'C07'
TOLS = [1e-6, 1e-6, 1e-4, 1e-3, 1e-7]


def bigger(a, b, wrap=None):
    if wrap == 'list':
        b = [b]
    elif wrap == 'arr':
        b = obj_array([b], (1,))
    return boolean(call(a.is_bigger, b), 'is_bigger')


# ---- nondegenerate first: second built to have given relative eigenvalues
def gen_rel(d):
    n = d.int(1, d.sz(5, 9, 16))
    kind = d.choice(['inside', 'outside', 'edge_in', 'edge_out', 'mixed', 'equal'])
    rel = [d.choice([0.0, 0.2, 0.5, 0.9, 0.99]) for _ in range(n)]
    i = d.int(0, n - 1)
    if kind == 'outside':
        rel[i] = d.choice([1.01, 1.1, 1.5, 2.0, 10.0, 100.0])
    elif kind in ('edge_in', 'edge_out'):
        rel[i] = None
    elif kind == 'mixed':
        rel = [d.choice([0.0, 0.5, 0.9, 1.1, 2.0]) for _ in range(n)]
    elif kind == 'equal':
        rel = [1.0] * n
    t1 = d.choice(TOLS)
    return {'q1': d.spd(n, 0.05, 20) if d.chance(80) else d.spd(n, 1e-3, 30), 'u': d.orth(n), 'rel': rel, 'i': i, 'kind': kind, 'c1': d.vec(n), 'c2': d.vec(n),
            't1': t1, 't2': d.choice(TOLS), 'wrap': d.choice([None, 'list', 'arr'])}


def chk_rel(cs):
    q1 = M(cs['q1'])
    n = q1.shape[0]
    t1 = cs['t1']
    w, v = np.linalg.eigh(q1)
    if w[0] <= max(cs['t1'], cs['t2']) * 2:
        return res(False, 'skipped')
    rel = [x if x is not None else (1 + 0.5 * t1 if cs['kind'] == 'edge_in' else 1 + 2 * t1) for x in cs['rel']]
    s1 = (v * np.sqrt(w)) @ v.T
    u = M(cs['u'])
    q2 = s1 @ (u * np.array(rel)) @ u.T @ s1
    q2 = 0.5 * (q2 + q2.T)
    if cs['kind'] == 'equal':
        q2 = q1.copy()
    exp = max(rel) < 1 + t1
    a = call(S.Ellipsoid, A(cs['c1']), q1, abs_tol=cs['t1'])
    b = call(S.Ellipsoid, A(cs['c2']), q2, abs_tol=cs['t2'])
    got = bigger(a, b, cs['wrap'])
    if got != exp:
        fail('containment is decided wrongly', got=got, expected=exp, first=q1, second=q2, relative_eigenvalues=rel)
    # the centres do not matter
    a0 = call(S.Ellipsoid, q1, abs_tol=cs['t1'])
    b0 = call(S.Ellipsoid, q2, abs_tol=cs['t2'])
    expect(bigger(a0, b0) == exp, 'containment depends on the centres', expected=exp)
    # common scaling
    for f in (4.0, 0.25):
        if 0.25 * w[0] > 2 * max(cs['t1'], cs['t2']):
            a1 = call(S.Ellipsoid, q1 * f, abs_tol=cs['t1'])
            b1 = call(S.Ellipsoid, q2 * f, abs_tol=cs['t2'])
            expect(bigger(a1, b1) == exp, 'containment depends on the common scale', factor=f, expected=exp)
    return res(n > 1, cs['kind'], 'dim%d' % n)


facet(P, 'nondegenerate_first', gen_rel, chk_rel, 700,
      rule='second shape with prescribed relative eigenvalues (0..100, at 0.5 and 2 tolerances around 1, random axes), '
           'arbitrary centres; non-trivial: dimension > 1')


# ---- degenerate first, exact block structure
def gen_deg(d):
    n = d.int(1, d.sz(5, 5, 12))
    r = d.int(0, n - 1)
    kind = d.choice(['same', 'quarter', 'inside', 'outside', 'rank', 'sub'])
    return {'n': n, 'r': r, 'b': d.spd(r, 0.5, 8) if r else [], 'perm': d.perm(n), 'kind': kind,
            'f': d.choice([0.25, 0.5, 0.9, 1.0]), 'g': d.choice([1.1, 2.0, 50.0]), 'c': d.vec(n), 't': d.choice(TOLS),
            't2': d.choice(TOLS), 's': d.int(0, max(0, r - 1))}


def chk_deg(cs):
    n, r, kind = cs['n'], cs['r'], cs['kind']
    b = M(cs['b']) if r else np.zeros((0, 0))
    p = np.array(cs['perm'])

    def emb(m):
        q = np.zeros((n, n))
        q[:m.shape[0], :m.shape[0]] = m
        return q[np.ix_(p, p)]

    q1 = emb(b)
    if kind == 'same':
        q2, exp = q1.copy(), True
    elif kind == 'quarter' or kind == 'inside':
        q2, exp = emb(b * (0.25 if kind == 'quarter' else cs['f'])), True
    elif kind == 'outside' and r > 0:
        q2, exp = emb(b * cs['g']), False
    elif kind == 'sub' and r > 1:
        bb = np.zeros((r, r))
        w = np.linalg.eigvalsh(b)
        bb[cs['s'], cs['s']] = 0.5 * w[0]
        q2, exp = emb(bb), True
    else:  # larger rank
        k = n - r
        m = np.zeros((n, n))
        m[:r, :r] = 0.1 * b
        m[r:, r:] = 0.01 * np.eye(k)
        q2, exp = m[np.ix_(p, p)], False
    a = call(S.Ellipsoid, A(cs['c']), q1, abs_tol=cs['t'])
    o = call(S.Ellipsoid, q2, abs_tol=cs['t2'])
    got = bigger(a, o)
    if got != exp:
        fail('containment with a degenerate first ellipsoid is decided wrongly', got=got, expected=exp, first=q1,
             second=q2)
    # same rank, another subspace
    if 0 < r < n:
        q3 = np.zeros((n, n))
        q3[n - r:, n - r:] = b
        q3 = q3[np.ix_(p, p)]
        c = call(S.Ellipsoid, q3, abs_tol=cs['t2'])
        expect(bigger(a, c) is False, 'an ellipsoid in another subspace is not contained', first=q1, second=q3)
    return res(n > 1 and r > 0, kind)


facet(P, 'degenerate_first', gen_deg, chk_deg, 400,
      rule='first shape of rank 0..n-1 with exact zero block, second: same, scaled, sub-rank, larger rank, other '
           'subspace; non-trivial: rank > 0')


# ---- transitivity and consistency between random ellipsoids
def gen_tri(d):
    n = d.int(1, d.sz(4, 4, 10))
    return {'q': [d.spd(n, 0.2, 5) for _ in range(3)], 'grow': [d.choice([1.0, 2.0, 5.0]) for _ in range(3)]}


def chk_tri(cs):
    qs = [M(q) * g for q, g in zip(cs['q'], cs['grow'])]
    os_ = [call(S.Ellipsoid, q) for q in qs]
    r = [[bigger(a, b) for b in os_] for a in os_]
    for i in range(3):
        expect(r[i][i], 'not reflexive', shape=qs[i])
        for j in range(3):
            w = np.linalg.eigvalsh(qs[i] - qs[j])[0]
            if w > 1e-4:
                expect(r[i][j], 'a contained ellipsoid is not recognised', first=qs[i], second=qs[j])
            if w < -1e-3:
                expect(not r[i][j], 'an ellipsoid that sticks out is reported as contained', first=qs[i], second=qs[j])
            for k in range(3):
                if r[i][j] and r[j][k]:
                    expect(r[i][k] or np.linalg.eigvalsh(qs[i] - qs[k])[0] > -1e-4, 'not transitive')
    return res(any(r[i][j] for i in range(3) for j in range(3) if i != j), 'chain')


facet(P, 'order', gen_tri, chk_tri, 200, rule='all pairs of three random ellipsoids; non-trivial: some pair is ordered')


def gen_bad(d):
    return {'n': d.int(1, 4), 'bad': d.choice(['dim', 'type', 'two'])}


def chk_bad(cs):
    E, n = S.Ellipsoid, cs['n']
    a = call(E, np.eye(n) * 5)
    if cs['bad'] == 'dim':
        rejects('another dimension', a.is_bigger, call(E, np.eye(n + 1)))
        rejects('another dimension', call(E, np.eye(n + 1)).is_bigger, a)
    elif cs['bad'] == 'type':
        rejects('not an ellipsoid', a.is_bigger, 3.0)
    else:
        rejects('two ellipsoids', a.is_bigger, [a, a])
    return res(True, cs['bad'])


facet(P, 'refusals', gen_bad, chk_bad, 20, rule='invalid arguments; non-trivial: all')
