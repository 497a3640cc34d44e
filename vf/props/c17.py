"""C17: simultaneous diagonalisation, alignment, fusion function, unit ball."""
from vf.registry import facet
from vf.oracle import *

P = 'C17'


def gen_diag(d):
    n = d.int(1, d.sz(6, 8, 16))
    kind = d.weighted([(3, 'psd'), (2, 'spd'), (2, 'indef'), (1, 'same'), (1, 'ties')])
    if kind == 'psd':
        b = d.psd(n)
    elif kind == 'spd':
        b = d.spd(n)
    elif kind == 'ties':
        v = d.pos(0.2, 5)
        b = d.sym_eig([v if i % 2 else -v for i in range(n)])
    else:
        b = d.sym_eig([d.nice(-5, 5) for _ in range(n)])
    return {'a': d.spd(n, 0.05, 20.0), 'b': b, 'kind': kind, 'tol': d.choice([0.0, 1e-12, 1e-9, 1e-7, 1e-4]), 'i': d.int(0, 40)}


def chk_diag(cs):
    f = S.core
    a, b, tol = M(cs['a']), M(cs['b']), cs['tol']
    n = len(a)
    if cs['kind'] == 'same':
        b = 3.0 * a
    a0, b0 = a.copy(), b.copy()
    t = arr(call(f.ell_sim_diag, a, b, tol), (n, n), 'diagonalising transform')
    expect(np.array_equal(a, a0) and np.array_equal(b, b0), 'ell_sim_diag changed its arguments')
    w = np.linalg.eigvalsh(a)
    close(t @ a @ t.T, np.eye(n), 1e-12 * n * w[-1] / w[0], 'the first matrix is not mapped to the identity')
    d = t @ b @ t.T
    off = d - np.diag(np.diagonal(d))
    expect(np.max(np.abs(off)) <= 1e-11 * n * scale_of(b) * w[-1] / w[0] ** 2, 'the second matrix is not mapped to a diagonal one', got=d)
    # generalised eigenvalues
    ref = np.sort(np.linalg.eigvals(np.linalg.solve(a, b)).real)
    close(np.sort(np.diagonal(d)), ref, 1e-9 * n * max(1, scale_of(b)) * w[-1] / w[0] ** 2, 'the diagonal is not the relative spectrum')
    i = cs['i'] % n
    if n > 1 and tol >= 1e-7:  # symmetric to the tolerance only
        for m in (a, b):
            m2 = m.copy()
            m2[i, (i + 1) % n] += 0.4 * tol
            t2 = arr(call(f.ell_sim_diag, m2 if m is a else a, m2 if m is b else b, tol), (n, n), 'diagonalising transform')
            k = 1e-11 * n * max(1, scale_of(b)) * w[-1] / w[0] ** 2 + 10 * tol * (1 + scale_of(b) * w[-1] / w[0]) / w[0]
            close(t2 @ a @ t2.T, np.eye(n), k, 'the first matrix is not mapped to the identity (symmetric to the tolerance)')
            d2 = t2 @ b @ t2.T
            expect(np.max(np.abs(d2 - np.diag(np.diagonal(d2)))) <= k,
                   'the second matrix is not mapped to a diagonal one (symmetric to the tolerance)', got=d2)
    # refusals
    if n > 1:
        j = (i + 1) % n
        for m, who in ((a, 0), (b, 1)):
            bad = m.copy()
            bad[i, j] += max(10 * tol, 1e-3)
            rejects('asymmetric matrix', f.ell_sim_diag, bad if who == 0 else a, b if who == 0 else bad, tol)
    neg = a - (w[0] + max(1e-3, 2 * tol)) * np.eye(n)
    rejects('first matrix not positive definite', f.ell_sim_diag, 0.5 * (neg + neg.T), b, tol)
    rejects('zero first matrix', f.ell_sim_diag, np.zeros((n, n)), b, tol)
    big = np.eye(n + 1)
    rejects('different sizes', f.ell_sim_diag, a, big, tol)
    rejects('different sizes', f.ell_sim_diag, big, b, tol)
    rejects('non-numeric', f.ell_sim_diag, np.full((n, n), 'x'), b, tol)
    rejects('non-numeric', f.ell_sim_diag, a, np.full((n, n), 'x'), tol)
    rejects('not square', f.ell_sim_diag, a, np.ones((n, n + 1)), tol)
    return res(n > 1, 'n%d' % n, cs['kind'])


facet(P, 'sim_diag', gen_diag, chk_diag, 1200,
      rule='positive definite first matrix (eigenvalues 0.05..20), second PSD of any rank, definite, indefinite (also with opposite '
           'eigenvalues) or proportional, order 1..6, tolerances 0..1e-4; non-trivial: order > 1')


def gen_align(d):
    n = d.int(1, d.sz(6, 8, 16))
    return {'v': d.dirv(n), 'x': d.dirv(n), 'rel': d.weighted([(5, 'free'), (1, 'parallel'), (1, 'opposite'), (1, 'zero')]),
            'lv': d.int(0, 2), 'lx': d.int(0, 2), 'k': d.pos(1e-3, 1e3)}


def lay(v, k):
    return (v.copy(), v.reshape(-1, 1).copy(), v.reshape(1, -1).copy())[k]


def chk_align(cs):
    f = S.core
    v, x = A(cs['v']), A(cs['x']) * cs['k']
    n = v.size
    x = {'free': x, 'parallel': cs['k'] * v, 'opposite': -cs['k'] * v, 'zero': np.zeros(n)}[cs['rel']]
    av, ax = lay(v, cs['lv']), lay(x, cs['lx'])
    v0, x0 = av.copy(), ax.copy()
    t = arr(call(f.ell_valign, av, ax), (n, n), 'alignment')
    expect(np.array_equal(av, v0) and np.array_equal(ax, x0) and av.shape == v0.shape and ax.shape == x0.shape,
           'ell_valign changed its arguments')
    close(t @ t.T, np.eye(n), 1e-12, 'the alignment is not orthogonal')
    close(t @ x, v / np.linalg.norm(v) * np.linalg.norm(x), 1e-12 * n * max(1.0, np.linalg.norm(x)), 'the second vector is not turned into the '
          'direction of the first')
    rejects('different dimensions', f.ell_valign, av, np.ones(n + 1))
    rejects('different dimensions', f.ell_valign, np.ones(n + 1), ax)
    if n > 1:
        rejects('matrix argument', f.ell_valign, np.ones((n, 2)), ax)
        rejects('matrix argument', f.ell_valign, av, np.ones((2, n)))
    rejects('non-numeric', f.ell_valign, np.array(['a'] * n), ax)
    rejects('non-numeric', f.ell_valign, av, np.array(['a'] * n))
    # the unit ball
    e = call(S.ell_unitball, n)
    c, q = ell_data(e, n, 'unit ball')
    expect(not np.any(c) and np.array_equal(q, np.eye(n)), 'the unit ball has a wrong centre or shape', c=c, q=q)
    return res(n > 1, 'n%d' % n, cs['rel'])


facet(P, 'align_ball', gen_align, chk_align, 800,
      rule='vectors of dimension 1..6 as flat, row or column arrays, parallel, opposite and zero ones included; non-trivial: dimension > 1',
      fixed=lambda: [{'v': [2.0], 'x': [-3.0], 'rel': 'free', 'lv': i, 'lx': j, 'k': 1.0} for i in range(3) for j in range(3)])


def gen_fus(d):
    n = d.int(1, d.sz(4, 5, 9))
    return {'c1': d.vec(n, -1, 1), 'c2': d.vec(n, -1, 1), 'q1': d.spd(n, 0.3, 5.0), 'q2': d.spd(n, 0.3, 5.0),
            'rel': d.weighted([(5, 'free'), (1, 'concentric'), (1, 'same')]), 'col': d.bool(), 'near': d.nice(0.0, 1.0, 8)}


def fused(a, c1, w1, c2, w2):
    """k, shape of the fused inequality (x-q)'X(x-q) <= k, and d/da log volume (doubled)."""
    n = c1.size
    x = a * w1 + (1 - a) * w2
    q = np.linalg.solve(x, a * w1 @ c1 + (1 - a) * w2 @ c2)
    k = 1 - a * (q - c1) @ w1 @ (q - c1) - (1 - a) * (q - c2) @ w2 @ (q - c2)
    # envelope theorem: q minimises the mixed form
    dk = -(q - c1) @ w1 @ (q - c1) + (q - c2) @ w2 @ (q - c2)
    tr = np.trace(np.linalg.solve(x, w1 - w2))
    return k, x, n * dk / k - tr if k > 0 else np.nan, n * abs(dk) / k + abs(tr) if k > 0 else np.nan


def chk_fus(cs):
    f = S.ell_fusion_lambda
    c1, c2 = A(cs['c1']), A(cs['c2'])
    c2 = c1 + (c2 - c1) * cs['near']
    w1, w2 = np.linalg.inv(M(cs['q1'])), np.linalg.inv(M(cs['q2']))
    w1, w2 = 0.5 * (w1 + w1.T), 0.5 * (w2 + w2.T)
    if cs['rel'] == 'concentric':
        c2 = c1.copy()
    if cs['rel'] == 'same':
        w2, c2 = w1.copy(), c1.copy()
    n = c1.size
    a1, a2 = (c1.reshape(-1, 1), c2.reshape(-1, 1)) if cs['col'] else (c1.copy(), c2.copy())

    def val(a):
        args = (a, a1.copy(), w1.copy(), a2.copy(), w2.copy(), n)
        r = num(call(f, *args), 'fusion function')
        expect(np.array_equal(args[1], a1) and np.array_equal(args[2], w1) and np.array_equal(args[3], a2) and np.array_equal(args[4], w2),
               'the fusion function changed its arguments')
        return r

    used, pos, neg, mx = 0, 0, 0, 0.0
    grid = np.linspace(0.02, 0.98, 13)
    slopes = []
    for a in grid:
        k, x, s, mag = fused(a, c1, w1, c2, w2)
        slopes.append(s)
        if not (k > 1e-3):
            continue
        v = val(a)
        mx = max(mx, abs(v))
        if abs(s) <= 1e-8 * (1 + mag):
            d2 = np.linalg.det(x) ** 2
            expect(abs(v) <= 1e-5 * (1 + d2) * (1 + mag) or cs['rel'] != 'same', 'the fusion function does not vanish for equal sets', a=a, f=v)
            continue
        used += 1
        expect((v > 0) == (s < 0), 'the fusion function has a wrong sign', a=a, f=v, volume_slope=s)
        pos += s < 0
        neg += s > 0
    # stationary points: bisection on the slope of the volume, then signs and smallness right around it
    found = 0
    for i in range(len(grid) - 1):
        s0, s1 = slopes[i], slopes[i + 1]
        if not (np.isfinite(s0) and np.isfinite(s1) and s0 * s1 < 0 and min(abs(s0), abs(s1)) > 1e-4):
            continue
        lo, hi = grid[i], grid[i + 1]
        for _ in range(60):
            mid = 0.5 * (lo + hi)
            if fused(mid, c1, w1, c2, w2)[2] * s0 > 0:
                lo = mid
            else:
                hi = mid
        k, _, s, mag = fused(0.5 * (lo + hi), c1, w1, c2, w2)
        if not (k > 1e-3 and abs(s) <= 1e-9 * (1 + mag)):
            continue  # the fused set degenerates in between: a pole of the slope, not a stationary point
        found += 1
        v = val(0.5 * (lo + hi))
        expect(abs(v) <= 1e-6 * mx, 'the fusion function does not vanish at a stationary point of the volume', a=lo, f=v, largest=mx)
    return res(n > 1 and used > 0, 'n%d' % n, cs['rel'], 'both-signs' if pos and neg else 'one-sign', 'stationary' if found else 'none')


facet(P, 'fusion', gen_fus, chk_fus, 500,
      rule='two ellipsoids (dimension 1..4, eigenvalues 0.3..5, centres up to 2 apart, concentric and equal ones too) and 13 fusion '
           'parameters plus every bracketed stationary point; non-trivial: dimension > 1 and the volume slope is decided somewhere',
      fixed=lambda: [{'c1': [-0.7370391852213514, -0.25], 'c2': [1.0, 1.0], 'q1': [[0.934863383049385, 0.0], [0.0, 0.4181185226045988]],
                      'q2': [[1.0, 0.0], [0.0, 1.0943889001015892]], 'rel': 'free', 'col': False, 'near': 0.875}])
