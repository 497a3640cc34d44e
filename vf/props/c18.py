"""C18: quadratic forms, inverses, volumes, matrix-level support function."""
from vf.registry import facet
from vf.oracle import *

P = 'C18'
MODES = ['plain', 'inv', 'invadv']


def gen_quad(d):
    n = d.int(1, d.sz(6, 8, 16))
    k = d.int(0, 3)
    q = d.spd(n, d.choice([1e-6, 1e-9, 1e-11]), 20.0) if k == 3 else d.spd(n, 0.1, 20.0) if k == 0 else d.mat(n, n, -3, 3) if k == 1 else d.imat(n, n)
    return {'q': q, 'x': d.vec(n), 'c': d.vec(n), 'cm': d.weighted([(3, 'vec'), (1, 'none'), (1, 'zero'), (1, 'zeros')]),
            'lx': d.int(0, 2), 'lc': d.int(0, 2), 'case': d.int(0, 2), 'seed': d.int(0, 999)}


def lay(v, k):
    return (v.copy(), v.reshape(-1, 1).copy(), v.reshape(1, -1).copy())[k]


def chk_quad(cs):
    g = S.gell
    q, x, c = M(cs['q']), A(cs['x']), A(cs['c'])
    n = len(q)
    sing = np.linalg.svd(q, compute_uv=False)
    cond = sing[0] / sing[-1] if sing[-1] > 0 else np.inf
    q0 = q.copy()
    ax = lay(x, cs['lx'])
    x0 = ax.copy()
    kw = {}
    if cs['cm'] == 'vec':
        kw['c_vec'] = lay(c, cs['lc'])
    else:
        c = np.zeros(n)
        if cs['cm'] == 'zero':
            kw['c_vec'] = 0
        elif cs['cm'] == 'zeros':
            kw['c_vec'] = lay(c, cs['lc'])
    c0 = np.array(kw.get('c_vec', 0), dtype=float)
    y = x - c
    used = 0
    for mode in MODES:
        if mode != 'plain' and cond > 1e12:
            continue
        m = {0: mode, 1: mode.upper(), 2: mode.capitalize()}[cs['case']]
        got = num(call(g.quad_mat, q, ax, mode=m, **kw), 'quadratic form')
        if mode == 'plain':
            exp = y @ q @ y
            sc = float(np.abs(y) @ np.abs(q) @ np.abs(y))
        else:
            exp = y @ np.linalg.solve(q, y)
            sc = float(y @ y) / sing[-1] * cond * (1.0 if cond < 1e5 else 0.01)
        expect(abs(got - exp) <= 1e-11 * n * sc + 1e-300, 'the quadratic form is wrong', mode=mode, got=got, expected=exp)
        used += 1
    if 'c_vec' not in kw:
        expect(abs(num(call(g.quad_mat, q, ax)) - x @ q @ x) <= 1e-11 * n * float(np.abs(x) @ np.abs(q) @ np.abs(x)), 'the default mode '
               'is not the plain form')
    expect(np.array_equal(q, q0) and np.array_equal(ax, x0) and ax.shape == x0.shape and
           np.array_equal(np.array(kw.get('c_vec', 0), dtype=float), c0), 'quad_mat changed its arguments')
    # inverse
    if cond < 1e12:
        i = arr(call(g.inv_mat, q), (n, n), 'inverse')
        expect(np.array_equal(q, q0), 'inv_mat changed its argument')
        rel = (1e-12 if cond < 1e5 else 1e-14) * n * cond
        close(i @ q, np.eye(n), rel, 'inv_mat does not invert from the left')
        if cond < 1e5:      # refining from the left costs the right residual another factor of the condition
            close(q @ i, np.eye(n), rel, 'inv_mat does not invert from the right')
    if cs['seed'] % 3:      # refusals in every third case
        return res(n > 1, 'n%d' % n, cs['cm'], 'x%d' % cs['lx'], 'modes%d' % used)

    def fill(shape):
        return np.full(shape, (1.0, 0.0, -2.5)[cs['case']])
    mode = MODES[len(cs['x']) % 3 if cs['case'] else 0]
    rejects('unknown mode', g.quad_mat, q, ax, 0., 'other')
    rejects('wrong length', g.quad_mat, q, fill(n + 1), mode=mode)
    rejects('wrong length', g.quad_mat, q, fill((n + 1, 1)), mode=mode)
    rejects('wrong centre length', g.quad_mat, q, ax, fill(n + 1), mode=mode)
    rejects('wrong centre length', g.quad_mat, q, ax, fill((n + 1, 1)), mode=mode)
    rejects('not square', g.quad_mat, fill((n, n + 1)), ax, mode=mode)
    rejects('not square', g.quad_mat, fill((n + 1, n)), ax, mode=mode)
    rejects('not a matrix', g.quad_mat, fill((n, n, 2)), ax, mode=mode)
    rejects('not a matrix', g.quad_mat, fill(n), ax, mode=mode)
    rejects('not a vector', g.quad_mat, q, fill((2, 2)), mode=mode)
    rejects('not a vector', g.quad_mat, q, fill((n, 1, 1)), mode=mode)
    rejects('not a vector', g.quad_mat, q, ax, fill((2, 2)), mode=mode)
    rejects('not a vector', g.quad_mat, q, ax, fill((n, 1, 2)), mode=mode)
    rejects('non-numeric matrix', g.quad_mat, np.full((n, n), 'a'), ax, mode=mode)
    rejects('non-numeric vector', g.quad_mat, q, np.array(['1'] * n), mode=mode)
    rejects('non-numeric centre', g.quad_mat, q, ax, np.array(['1'] * n), mode=mode)
    rejects('not square', g.inv_mat, np.ones((n, n + 1)))
    rejects('not a matrix', g.inv_mat, np.ones(n))
    rejects('not a matrix', g.inv_mat, np.ones((n, n, 1)))
    return res(n > 1, 'n%d' % n, cs['cm'], 'x%d' % cs['lx'], 'modes%d' % used)


facet(P, 'quadratic', gen_quad, chk_quad, 1500,
      rule='matrices of order 1..6 (positive definite, general real, integer), vectors and centres flat, row or column, absent, scalar zero '
           'or explicit, three modes in any letter case (inverse modes for condition up to 1e12); non-trivial: order > 1')


def gen_vol(d):
    n = d.int(1, d.sz(9, 12, 20))
    return {'e': [d.pos(0.05, 20.0) for _ in range(n)], 'u': d.orth(n), 't': d.mat(n, n, -2, 2), 'deg': d.chance(25), 'k': d.pos(0.1, 10),
            'f': d.imat(n, max(1, n - 1), -2, 2)}


def ball_vol(n):
    """Volume of the unit ball by the recursion V_n = 2 pi / n V_(n-2)."""
    return 1.0 if n == 0 else 2.0 if n == 1 else 2 * np.pi / n * ball_vol(n - 2)


def chk_vol(cs):
    g = S.gell
    e, u = A(cs['e']), M(cs['u'])
    n = e.size
    q = u @ np.diag(e) @ u.T
    q = 0.5 * (q + q.T)
    q0 = q.copy()
    exp = ball_vol(n) * np.prod(np.sqrt(e))
    v = num(call(g.ell_volume, q), 'volume')
    expect(np.array_equal(q, q0), 'ell_volume changed its argument')
    rel = 1e-12 * n * np.max(e) / np.min(e)
    expect(abs(v - exp) <= rel * exp, 'the volume is not the Lebesgue volume of the ellipsoid', got=v, expected=exp)
    t = M(cs['t'])
    s = np.linalg.svd(t, compute_uv=False)
    if s[-1] > 0.05:
        im = t @ q @ t.T
        v2 = num(call(g.ell_volume, 0.5 * (im + im.T)), 'volume')
        expect(abs(v2 - np.prod(s) * exp) <= 1e-11 * n * (np.max(e) / np.min(e) * (s[0] / s[-1]) ** 2) * np.prod(s) * exp, 'the volume does '
               'not scale with the determinant', got=v2, expected=np.prod(s) * exp)
    v3 = num(call(g.ell_volume, cs['k'] ** 2 * q))
    expect(abs(v3 - cs['k'] ** n * exp) <= 2 * rel * v3, 'the volume does not scale with the size')
    if cs['deg']:
        f = M(cs['f']) if n > 1 else np.zeros((1, 1))
        dq = f @ f.T
        v4 = num(call(g.ell_volume, dq), 'volume of a degenerate ellipsoid')
        expect(0 <= v4 <= 1e-4 * scale_of(dq) ** (0.5 * n), 'a degenerate ellipsoid has a nonzero volume', got=v4)
    return res(n > 1, 'n%d' % n, 'deg' if cs['deg'] else 'full')


facet(P, 'volume', gen_vol, chk_vol, 800,
      rule='shapes of order 1..9 with eigenvalues 0.05..20, linear images and degenerate shapes; reference by the ball volume recursion; '
           'non-trivial: order > 1')


def gen_rho(d):
    n = d.int(1, d.sz(5, 8, 16))
    k = d.count(1, 5, 8, 200)
    q = d.psd(n, lo=0.1, hi=20)
    return {'q': q, 'c': d.vec(n) if d.chance(70) else None, 'l': [d.dirv(n) if d.chance(90) else [0.0] * n for _ in range(k)],
            'ker': d.int(-1, 4), 'tol': d.choice([None, 1e-9, 1e-6])}


def chk_rho(cs):
    g = S.gell
    q = M(cs['q'])
    n = len(q)
    ls = M(cs['l']).T.copy()
    k = ls.shape[1]
    w, v = np.linalg.eigh(q)
    if cs['ker'] >= 0 and w[0] < 1e-12:
        ls[:, cs['ker'] % k] = v[:, 0]
    c = A(cs['c']).reshape(-1, 1) if cs['c'] is not None else None
    cc = c[:, 0] if c is not None else np.zeros(n)
    q0, l0 = q.copy(), ls.copy()
    kw = {} if cs['tol'] is None else {'abs_tol': cs['tol']}
    if c is not None:
        kw['ell_center_vec'] = c.copy()
    sup, bp = pair(call(g.rho_mat, q, ls, **kw), 2, 'support function')
    sup = flat(sup, k, 'support values')
    bp = arr(bp, (n, k), 'support points')
    expect(np.array_equal(q, q0) and np.array_equal(ls, l0) and (c is None or np.array_equal(kw['ell_center_vec'], c)),
           'rho_mat changed its arguments')
    sc = scale_of(q, cc, ls)
    for i in range(k):
        l = ls[:, i]
        p2 = max(0.0, float(l @ q @ l))
        exp = l @ cc + np.sqrt(p2)
        deg = p2 < 1e-12 * sc ** 3
        tol = 1e-5 * sc ** 2 if deg else 1e-11 * n * sc ** 3 / min(1.0, np.sqrt(p2))
        expect(abs(sup[i] - exp) <= tol, 'the support value is wrong', direction=l, got=sup[i], expected=exp)
        expect(abs(bp[:, i] @ l - sup[i]) <= tol, 'the support point does not attain the support value', direction=l, point=bp[:, i])
        # membership of the point: within every other probed half-space and, for full rank, the quadratic form
        for dvec in probe_dirs(n, 6, 1, extra=[l]):
            expect(dvec @ bp[:, i] <= supf(cc, q, dvec) + (1e-5 * sc if deg else 1e-8 * sc), 'the support point is outside the ellipsoid',
                   direction=l, point=bp[:, i])
        s1, b1 = pair(call(g.rho_mat, q, ls[:, i:i + 1].copy(), **kw), 2)
        expect(abs(num(s1) - sup[i]) <= tol and np.max(np.abs(arr(b1, (n, 1))[:, 0] - bp[:, i])) <= (1e-5 * sc if deg else 1e-9 * sc + tol),
               'one direction and many directions disagree', direction=l)
    if n > 1:
        bad = q.copy() - (w[-1] + 1.0) * np.eye(n)
        rejects('negative quadratic form', g.rho_mat, bad, np.eye(n), **kw)
        rejects('negative quadratic form', g.rho_mat, bad, np.eye(n)[:, :1], **kw)
    return res(n > 1 and np.any(q), 'n%d' % n, 'k%d' % k, 'rank%d' % int(np.sum(w > 1e-10)))


facet(P, 'support', gen_rho, chk_rho, 1000,
      rule='PSD shapes of any rank of order 1..5, 1..5 directions incl. kernel and zero ones, with and without centre; non-trivial: order > 1 '
           'and a nonzero shape')
