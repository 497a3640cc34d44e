"""C15: symmetric and positive-definite matrix tools."""
from vf.registry import facet
from vf.oracle import *

P = 'C15'
TOLS = [0.0, 1e-12, 1e-8, 1e-6, 1e-3, 0.1]


def gen_spec(d, n):
    """Symmetric matrix with a chosen spectrum, repeated and near-threshold eigenvalues included."""
    tol = d.choice(TOLS)
    eig = []
    for _ in range(n):
        k = d.int(0, 7)
        if k == 0 and eig:
            eig.append(d.choice(eig))
        elif k == 1:
            eig.append(d.choice([0.5, 2.0, -0.5, -2.0, 10.0, -10.0]) * max(tol, 1e-9))
        elif k == 2:
            eig.append(0.0)
        elif k == 3:
            eig.append(-d.pos(0.01, 5))
        else:
            eig.append(d.pos(0.01, 20))
    return {'q': d.sym_eig(eig) if d.chance(80) else [[eig[i] if i == j else 0.0 for j in range(n)] for i in range(n)],
            'tol': tol, 'asym': d.choice([0.0, 0.0, 0.0, 0.5, 2.0]), 'i': d.int(0, n * n), 'sc': d.choice([1.0, 1.0, 1e3, 1e-3])}


def mat_of(cs):
    q = M(cs['q']) * cs['sc']
    q = np.tril(q) + np.tril(q, -1).T
    n = len(q)
    if cs['asym'] and n > 1:
        i = cs['i'] % n
        j = (i + 1 + (cs['i'] // n) % (n - 1)) % n
        q[i, j] += cs['asym'] * max(cs['tol'], 1e-11)
    return q


def clear(x, thr, sc):
    """x compared with thr, None when too close to call."""
    return None if abs(x - thr) <= 1e-12 * sc + 1e-9 * abs(thr) else x > thr


def gen_tests(d):
    return gen_spec(d, d.int(1, d.sz(6, 8, 20)))


def chk_tests(cs):
    la = S.la
    q, tol = mat_of(cs), cs['tol']
    q0 = q.copy()
    n = len(q)
    sc = scale_of(q)
    gap = float(np.max(np.abs(q - q.T)))
    symm = None if gap and abs(gap - tol) <= 1e-3 * tol + 1e-14 * sc else gap <= tol
    tags = []
    if symm is not None:
        got = boolean(call(la.is_mat_symm, q, tol) if tol else call(la.is_mat_symm, q))
        expect(got == symm, 'symmetry is judged wrongly', difference=gap, tol=tol, got=got)
        tags.append('symmetric' if symm else 'asymmetric')
    w = np.linalg.eigvalsh(0.5 * (q + q.T))
    slack = gap * n
    if symm is False:
        rejects('asymmetric matrix', la.is_mat_pos_def, q, tol)
        rejects('asymmetric matrix', la.is_mat_pos_def, q, tol, True)
        rejects('asymmetric matrix', la.sqrtm_pos, q, tol)
        rejects('asymmetric matrix', la.reg_pos_def_mat, q, 1e-3)
    elif symm:
        pd = clear(w[0], tol, sc)
        if pd is not None and abs(w[0] - tol) > slack:
            got = boolean(call(la.is_mat_pos_def, q, tol))
            expect(got == pd, 'positive definiteness is judged wrongly', min_eig=w[0], tol=tol, got=got)
            tags.append('pd' if pd else 'not-pd')
            if tol == 0:
                expect(boolean(call(la.is_mat_pos_def, q)) == pd, 'default tolerance is not zero')
        psd = clear(w[0], -tol, sc)
        if psd is not None and abs(w[0] + tol) > slack:
            got = boolean(call(la.is_mat_pos_def, q, tol, True))
            expect(got == psd, 'positive semidefiniteness is judged wrongly', min_eig=w[0], tol=tol, got=got)
            tags.append('psd' if psd else 'indefinite')
            # square root
            if psd:
                r = arr(call(la.sqrtm_pos, q, tol), (n, n), 'square root')
                neg = max(0.0, -w[0])
                expect(np.max(np.abs(r - r.T)) <= 1e-10 * np.sqrt(sc), 'the square root is not symmetric', root=r)
                expect(np.linalg.eigvalsh(0.5 * (r + r.T))[0] >= -1e-9 * np.sqrt(sc), 'the square root is not PSD', root=r)
                close(r @ r, q, 1e-10 * sc + 2 * neg + 2 * gap, 'the square of the root is not the matrix')
                tags.append('root')
            else:
                rejects('indefinite matrix', la.sqrtm_pos, q, tol)
    s = np.linalg.svd(q, compute_uv=False)
    if tol == 0:
        expect(boolean(call(la.is_mat_not_deg, q, tol)), 'nondegenerate to zero tolerance expected')
    elif abs(s[-1] - tol) > 1e-12 * sc + 1e-9 * tol:
        expect(boolean(call(la.is_mat_not_deg, q, tol)) == (s[-1] > tol), 'nondegeneracy is judged wrongly', min_sing=s[-1],
               tol=tol)
        tags.append('notdeg' if s[-1] > tol else 'deg')
    for f in (la.is_mat_symm, la.is_mat_pos_def, la.is_mat_not_deg, la.sqrtm_pos):
        rejects('negative tolerance', f, q, -max(tol, 1e-3))
    expect(np.array_equal(q, q0), 'a test changed the matrix', got=q)
    return res(n > 1, 'n%d' % n, *tags)


facet(P, 'tests_and_roots', gen_tests, chk_tests, 1500,
      rule='symmetric matrices of order 1..6 with repeated, zero, negative and near-threshold eigenvalues, asymmetry of 0, 0.5, '
           '2 tolerances, scale 1e-3..1e3; non-trivial: order > 1')


def gen_reg(d):
    n = d.int(1, d.sz(6, 8, 20))
    c = gen_spec(d, n)
    c['asym'] = 0.0
    c['sc'] = 1.0
    c['reg'] = d.choice([1e-8, 1e-6, 1e-3, 0.1, 1.0, 5.0])
    c['rep'] = d.bool()
    c['m'] = d.mat(n, n) if d.bool() else None
    c['left'] = d.orth(n)
    return c


def chk_reg(cs):
    la = S.la
    q, tol = mat_of(cs), cs['reg']
    n = len(q)
    sc = scale_of(q)
    q0 = q.copy()
    r = arr(call(la.reg_pos_def_mat, q, tol), (n, n), 'regularised matrix')
    expect(np.array_equal(q, q0), 'regularisation changed its argument')
    expect(np.array_equal(r, r.T), 'the regularised matrix is not symmetric', got=r)
    w, v = np.linalg.eigh(q)
    exp = v @ np.diag(np.maximum(w, tol)) @ v.T
    close(r, exp, 1e-10 * max(sc, tol), 'regularisation does not raise exactly the small eigenvalues', eigenvalues=w, reg=tol)
    r2 = arr(call(la.reg_pos_def_mat, r, tol), (n, n))
    close(r2, r, 1e-10 * max(sc, tol), 'regularisation is not idempotent')
    if tol >= 1e-6 * sc:
        expect(boolean(call(la.is_mat_pos_def, r, tol * 0.9)), 'the regularised matrix is not positive definite')
    changed = w[0] < tol
    # general regularisation by singular values
    m = M(cs['m']) if cs['m'] is not None else M(cs['left']) @ q
    m0 = m.copy()
    g = arr(call(la.reg_mat, m, tol), (n, n), 'regularised matrix')
    expect(np.array_equal(m, m0), 'regularisation changed its argument')
    u, s, vt = np.linalg.svd(m)
    sn = np.linalg.svd(g, compute_uv=False)
    sc2 = max(scale_of(m), tol)
    close(np.sort(sn), np.sort(np.maximum(s, tol)), 1e-10 * sc2, 'singular values of the regularised matrix are wrong', before=s)
    diff = np.linalg.svd(g - m, compute_uv=False)
    close(np.sort(diff), np.sort(np.maximum(0.0, tol - s)), 1e-9 * sc2, 'regularisation changes more than the small singular values')
    if s[-1] >= tol:
        close(g, m, 1e-10 * sc2, 'a regular matrix is changed')
    for bad in (0.0, -tol, np.array([tol, tol]), 'a', None):
        rejects('tolerance %r' % (bad,), la.reg_pos_def_mat, q, bad)
        rejects('tolerance %r' % (bad,), la.reg_mat, m, bad)
    rejects('complex tolerance', la.reg_pos_def_mat, q, tol + 0.1j)
    rejects('complex tolerance', la.reg_mat, m, tol + 0.1j)
    return res(changed or s[-1] < tol, 'n%d' % n, 'changed' if changed else 'unchanged',
               'repeated' if n > 1 and np.min(np.diff(w)) < 1e-9 else 'distinct')


facet(P, 'regularisation', gen_reg, chk_reg, 900,
      rule='symmetric and general square matrices of order 1..6 with repeated and near-threshold spectrum; non-trivial: some value '
           'below the threshold')


def gen_real(d):
    sh = d.choice(['scalar', 'vec', 'row', 'mat', 'int', 'list'])
    n = d.int(1, d.sz(5, 5, 40))
    return {'sh': sh, 're': d.mat(n, n), 'k': d.choice(['zero', 'small', 'big', 'mixed']), 'tol': d.choice([None, 1e-6, 1e-2, 1.0]),
            'f': d.choice([0.3, 0.9, 1.2, 5.0]), 'n': n, 'i': d.int(0, 20), 'pair': d.chance(40)}


def chk_real(cs):
    la = S.la
    n = cs['n']
    re = M(cs['re'])
    if cs['sh'] == 'scalar':
        x = np.float64(re[0, 0])
    elif cs['sh'] == 'int':
        x = np.round(re).astype(int)
    elif cs['sh'] == 'vec':
        x = re[0]
    elif cs['sh'] == 'row':
        x = re[:1]
    else:
        x = re
    tol = cs['tol']
    t = np.finfo(float).eps if tol is None else tol
    args = () if tol is None else (tol,)
    if cs['k'] == 'zero':
        y = x
        exp = True
    else:
        im = np.zeros(np.shape(x))
        amp = {'small': 0.3 if cs['f'] > 1 else cs['f'], 'big': 3.0 + cs['f'], 'mixed': cs['f']}[cs['k']] * t
        if np.shape(x) == ():
            y = np.complex128(complex(float(x), amp))
        else:
            im.flat[cs['i'] % im.size] = amp * (-1 if cs['i'] % 2 else 1)
            if cs['pair'] and im.size > 1:      # two parts that cancel, insignificant only together
                amp = amp / 2.1 if amp < t else amp
                i = cs['i'] % im.size
                im.flat[i], im.flat[(i + 1 + cs['i'] % (im.size - 1)) % im.size] = amp, -amp
            y = x + 1j * im
        exp = amp < t
    for bad in (0.0, -1.0, None, 'a', np.array([1.0, 2.0])):
        if cs['k'] != 'zero' or bad is not None:
            rejects('tolerance %r' % (bad,), la.try_treat_as_real, y, bad)
    if exp:
        out = call(la.try_treat_as_real, y, *args)
        with interp('real value'):
            o = np.asarray(out)
            expect(o.shape == np.shape(x), 'the shape changed', got=o.shape)
            expect(np.array_equal(o, x), 'the real part changed', got=o, expected=x)
            if cs['k'] != 'zero':
                expect(o.dtype.kind == 'f', 'insignificant imaginary part is not dropped', dtype=o.dtype)
    else:
        rejects('significant imaginary part', la.try_treat_as_real, y, *args)
        if np.ndim(y) == 2 and y.shape[0] == y.shape[1]:
            pass
    return res(cs['k'] != 'zero', cs['sh'], cs['k'], 'kept' if exp else 'refused')


facet(P, 'real_parts', gen_real, chk_real, 400,
      rule='real and complex scalars, vectors, matrices with one or two cancelling imaginary parts of 0.3..8 tolerances; non-trivial: complex data')


def gen_bad(d):
    m, n = d.int(1, 4), d.int(1, 4)
    if m == n:
        n += 1
    return {'m': d.mat(m, n), 'v': d.vec(d.int(1, 4)), 't': d.choice([0.0, 1e-6])}


def chk_bad(cs):
    la = S.la
    for f in (la.is_mat_symm, la.is_mat_pos_def, la.sqrtm_pos):
        rejects('non-square matrix', f, M(cs['m']), cs['t'])
        rejects('vector', f, A(cs['v']), cs['t'])
        rejects('3-axis array', f, np.zeros((2, 2, 2)), cs['t'])
    rejects('non-square matrix', la.reg_pos_def_mat, M(cs['m']), 1e-3)
    s = np.linalg.svd(M(cs['m']), compute_uv=False)
    for t in (0.5 * s[-1], 2 * s[-1] + 0.01):
        if t > 1e-9 and abs(t - s[-1]) > 1e-9:
            expect(boolean(call(la.is_mat_not_deg, M(cs['m']), t)) == (s[-1] >= t),
                   'nondegeneracy of a rectangular matrix is judged wrongly', s=s, tol=t)
    return res(True)


facet(P, 'shapes', gen_bad, chk_bad, 60, rule='rectangular matrices, vectors, 3-axis arrays; all non-trivial')
