"""C24: square and symmetric time-indexed operations act slice by slice."""
from vf.registry import facet
from vf.oracle import *
from vf.props.c23 import stack, layout, LAYOUTS, Frozen, gen_arr

P = 'C24'


def wide(d, e):
    """Now and then eigenvalues of very different size, or all of them large or small."""
    k = d.weighted([(5, 'no'), (3, 'wide'), (2, 'scale')])
    if k == 'wide':
        return [x * 10.0 ** -d.choice([0, 0, 1, 2, 4, 6]) for x in e]
    if k == 'scale':
        s = 10.0 ** d.int(-5, 5)
        return [x * s for x in e]
    return e


def gen_inv_mat(d, n):
    """Nonsingular matrix: orthogonal times symmetric with known eigenvalues (condition up to about 1e7)."""
    e = wide(d, [d.pos(0.3, 5.0) * d.choice([1.0, 1.0, -1.0]) for _ in range(n)])
    u = d.orth(n)
    return [[sum(u[i][k] * e[k] * (1.0 if k == j else 0.0) for k in range(n)) for j in range(n)] for i in range(n)] \
        if d.bool() else [[x for x in r] for r in _mul(d.sym_eig(e), u)]


def _mul(a, b):
    return [[sum(a[i][k] * b[k][j] for k in range(len(b))) for j in range(len(b[0]))] for i in range(len(a))]


def sym(ms):
    a = stack(ms)
    for i in range(a.shape[2]):
        a[:, :, i] = np.tril(a[:, :, i]) + np.tril(a[:, :, i], -1).T
    return a


def close_to(got, exp, tol, what, **info):
    close(arr(got, exp.shape, what, finite=bool(np.all(np.isfinite(exp)))), exp, tol, what + ' differs from the slice-wise result', **info)


def slices(a):
    return [a] if a.ndim == 2 else [a[:, :, i] for i in range(a.shape[2])]


def as_slices(out, a, what, finite=True):
    """The slices of a result shaped like its argument a (a plain matrix may come back plain or as one slice)."""
    o = arr(out, None, what, finite)
    if a.ndim == 2 and o.ndim == 2:
        return [o]
    expect(o.ndim == 3 and o.shape[2] == (1 if a.ndim == 2 else a.shape[2]), '%s has a wrong size' % what, got=o.shape,
           arg=a.shape)
    return [o[:, :, i] for i in range(o.shape[2])]


# ---------------------------------------------------------------- inverse
def gen_inv(d):
    n, t = d.int(1, d.sz(5, 6, 12)), d.weighted([(4, d.count(2, 5, 6, 50)), (1, 1)])
    return {'a': [gen_inv_mat(d, n) for _ in range(t)], 'plain': d.chance(25), 'lay': d.choice(LAYOUTS), 'i': d.int(0, 99)}


def chk_inv(cs):
    SQ = S.gen.SquareMatVector
    a = stack(cs['a'])
    a = layout(a[:, :, 0] if cs['plain'] else a, cs['lay'])
    fz = Frozen(a)
    out = as_slices(call(SQ.inv, a), a, 'inverse')
    fz.check('inv')
    for x, y in zip(slices(a), out):
        expect(y.shape == x.shape, 'the inverse has a wrong size', got=y.shape)
        k = np.linalg.cond(x)
        # (backward stability bounds the residual of one side only, the other one by the square of the condition)
        ra, rb = x @ y, y @ x
        best = ra if np.max(np.abs(ra - np.eye(len(x)))) <= np.max(np.abs(rb - np.eye(len(x)))) else rb
        close(best, np.eye(len(x)), 1e-12 * k, 'neither A inv(A) nor inv(A) A is the identity')
        close(ra, np.eye(len(x)), 1e-12 * k + 1e-15 * k * k, 'A inv(A) is not the identity')
        close(rb, np.eye(len(x)), 1e-12 * k + 1e-15 * k * k, 'inv(A) A is not the identity')
        z = np.linalg.solve(x, np.eye(len(x)))
        close(y, z, 1e-12 * k * np.linalg.norm(z, 2), 'the inverse is wrong')
    b = a.copy()
    i = cs.get('i', 0) % len(b)
    if b.ndim == 2:
        b[i] = 0.0
    else:
        b[i, :, cs.get('i', 0) % b.shape[2]] = 0.0
    rejects('a matrix with a zero row', SQ.inv, b)
    return res(len(out) > 1 or cs['plain'], 'plain' if cs['plain'] else 'stack', 'n%d' % a.shape[0])


facet(P, 'inverse', gen_inv, chk_inv, 250, rule='nonsingular slices up to 5x5; non-trivial: several slices or a plain matrix')


# ---------------------------------------------------------------- square root and positive-definite repair
def gen_spec(d, n):
    eig = []
    for _ in range(n):
        k = d.int(0, 5)
        eig.append(d.choice(eig) if k == 0 and eig else d.pos(0.02, 50))
    return wide(d, eig)


def gen_sym(d):
    n, t = d.int(1, d.sz(5, 6, 12)), d.weighted([(4, d.count(2, 5, 6, 50)), (1, 1)])
    ms, kinds = [], []
    for _ in range(t):
        e = gen_spec(d, n)
        k = d.weighted([(4, 'pd'), (2, 'indef'), (1, 'nan')])
        if k == 'indef':
            e[d.int(0, n - 1)] = -d.pos(0.01, 20)
        ms.append(d.sym_eig(e) if d.chance(75) else [[e[i] if i == j else 0.0 for j in range(n)] for i in range(n)])
        kinds.append(k)
    return {'a': ms, 'kinds': kinds, 'plain': d.chance(25), 'lay': d.choice(LAYOUTS), 'i': d.int(0, 24),
            'value': d.choice([None, 1e-12, 1e-3, 0.7, 2.0]), 'all': d.bool()}


def sym_input(cs, nans=True):
    a = sym(cs['a'])
    n = a.shape[0]
    kinds = list(cs['kinds'])
    if cs['plain']:
        a, kinds = a[:, :, :1], kinds[:1]
    for t, k in enumerate(kinds):
        if k == 'nan' and nans:
            if cs['all']:
                a[:, :, t] = np.nan
            else:
                i, j = cs['i'] % n, (cs['i'] // n) % n
                a[i, j, t] = a[j, i, t] = np.nan
    if cs['plain']:
        a = a[:, :, 0]
    return layout(a, cs['lay']), kinds


def chk_sqrt(cs):
    SQ = S.gen.SquareMatVector
    a, kinds = sym_input(cs)
    fz = Frozen(a)
    if 'indef' in kinds:
        rejects('indefinite slice', SQ.sqrtm_pos, a)
        fz.check('sqrtm_pos')
        return res(False, 'indefinite')
    if cs['plain'] and kinds == ['nan']:
        return res(False, 'plain-nan')
    out = as_slices(call(SQ.sqrtm_pos, a), a, 'square root', finite=False)
    fz.check('sqrtm_pos')
    for x, y, k in zip(slices(a), out, kinds):
        expect(y.shape == x.shape, 'the root has a wrong size', got=y.shape)
        if k == 'nan':
            expect(np.all(np.isnan(y)), 'the root of a NaN slice is not NaN', got=y)
            continue
        sc = scale_of(x)
        expect(np.all(np.isfinite(y)), 'the root is not finite', got=y)
        close(y, y.T, 1e-12 * sc, 'the root is not symmetric')
        close(y @ y, x, 1e-12 * sc * len(x), 'the square of the root is not the matrix')
        expect(np.linalg.eigvalsh(0.5 * (y + y.T))[0] > 0, 'the root is not positive definite', got=y)
    return res(len(out) > 1 or cs['plain'], 'plain' if cs['plain'] else 'stack', *sorted(set(kinds)))


facet(P, 'square_root', gen_sym, chk_sqrt, 300,
      rule='positive definite, indefinite and NaN slices with repeated eigenvalues; non-trivial: several slices and no '
           'indefinite one, or a plain matrix',
      fixed=lambda: [
          {'a': [[[4.0]], [[9.0]]], 'kinds': ['pd', 'pd'], 'plain': False, 'lay': 'c', 'i': 0, 'value': None, 'all': True},
          {'a': [[[4.0, 0.0], [0.0, 1.0]], [[1.0, 0.0], [0.0, 1.0]]], 'kinds': ['pd', 'nan'], 'plain': False, 'lay': 'c',
           'i': 0, 'value': None, 'all': True}])


def chk_repair(cs):
    SQ = S.gen.SquareMatVector
    a, kinds = sym_input(cs)
    fz = Frozen(a)
    r = call(SQ.make_pos_definite_or_nan, a)
    out = as_slices(r, a, 'positive definite or NaN', finite=False)
    fz.check('make_pos_definite_or_nan')
    for x, y, k in zip(slices(a), out, kinds):
        expect(y.shape == x.shape, 'the result has a wrong size', got=y.shape)
        if k == 'pd':
            expect(np.array_equal(x, y), 'a positive definite slice is changed', got=y, expected=x)
        elif k == 'indef':
            expect(np.all(np.isnan(y)), 'an indefinite slice is not replaced by NaNs', got=y)
        else:
            expect(np.any(np.isnan(y)), 'a NaN slice lost its NaNs', got=y)
    if isinstance(r, np.ndarray) and r.flags.writeable:
        r[...] = 5.0
        fz.check('writing to the result of make_pos_definite_or_nan')
    tags = sorted(set(kinds))
    a, kinds = sym_input(cs, nans=False)
    fz = Frozen(a)
    val = cs['value']
    out = as_slices(call(SQ.make_pos_definite_by_eig, a, *(() if val is None else (val,))), a, 'repaired matrix')
    fz.check('make_pos_definite_by_eig')
    v = 1e-12 if val is None else val
    for x, y, k in zip(slices(a), out, kinds):
        expect(y.shape == x.shape, 'the result has a wrong size', got=y.shape)
        sc = scale_of(x)
        w, u = np.linalg.eigh(x)
        exp = (u * np.where(w < 0, v, w)) @ u.T
        close(y, exp, 1e-12 * sc * len(x), 'the repaired matrix is not the one with negative eigenvalues replaced', kind=k)
    n = a.shape[0]
    if n > 1:
        b = np.array(a, dtype=float)
        if b.ndim == 2:
            b[0, 1] += 0.5
        else:
            b[0, 1, -1] += 0.5
        rejects('asymmetric slice', SQ.make_pos_definite_by_eig, b)
    return res(len(out) > 1 or cs['plain'], 'plain' if cs['plain'] else 'stack', *tags)


facet(P, 'repair', gen_sym, chk_repair, 300,
      rule='as above: replacement by NaN and replacement of negative eigenvalues; non-trivial: several slices or a plain matrix')


# ---------------------------------------------------------------- two-sided products
def gen_lr(d):
    n, m, t = d.int(1, d.sz(5, 6, 10)), d.int(1, d.sz(5, 6, 10)), d.weighted([(4, d.count(2, 5, 6, 50)), (1, 1)])
    flag = d.choice(['R', 'L', None])
    shape = (m, n) if flag == 'L' else (n, m)
    return {'b': gen_arr(d, n, n, t), 'a': gen_arr(d, shape[0], shape[1], t), 'flag': flag,
            'kind': d.choice(['ss', 'ss', 'sc', 'cc', 's1', 'c1']), 'lay': [d.choice(LAYOUTS), d.choice(LAYOUTS)],
            'sym': d.bool()}


def lr_args(cs):
    b, a = stack(cs['b']), stack(cs['a'])
    if cs['kind'] in ('sc', 'cc'):
        a = a[:, :, 0]
    if cs['kind'] == 'cc':
        b = b[:, :, 0]
    if cs['kind'] == 'c1':
        b, a = b[:, :, 0], a[:, :, :1]
    if cs['kind'] == 's1':
        b, a = b[:, :, :1], a[:, :, :1]
    return layout(b, cs['lay'][0]), layout(a, cs['lay'][1])


def lr_ref(b, a, flag):
    bs, as_ = slices(b), slices(a)
    out = []
    for i, x in enumerate(bs):
        y = as_[i if len(as_) > 1 else 0]
        out.append(y @ x @ y.T if flag == 'L' else y.T @ x @ y)
    return out


def chk_lr(cs):
    g = S.gen
    b, a = lr_args(cs)
    exp = lr_ref(b, a, cs['flag'])
    tol = 1e-12 * scale_of(a) ** 2 * scale_of(b)
    kw = () if cs['flag'] is None else (cs['flag'],)
    fz = Frozen(a, b)
    out = as_slices(call(g.SquareMatVector.lr_multiply, b, a, *kw), b, 'two-sided product')
    fz.check('lr_multiply')
    for x, y in zip(out, exp):
        close_to(x, y, tol, 'two-sided product', flag=cs['flag'], kind=cs['kind'])
    for bad in ('r', 'X', ''):
        rejects('unknown side', g.SquareMatVector.lr_multiply, b, a, bad)
    bs = 0.5 * (b + (b.T if b.ndim == 2 else np.transpose(b, (1, 0, 2))))
    exp = lr_ref(bs, a, cs['flag'])
    fz = Frozen(a, bs)
    got = call(g.SymmetricMatVector.lr_svd_multiply, bs, a, *kw)
    fz.check('lr_svd_multiply')
    out = as_slices(got, bs, 'spectral two-sided product')
    for x, y in zip(out, exp):
        close_to(x, y, 10 * tol, 'spectral two-sided product', flag=cs['flag'], kind=cs['kind'])
    rejects('unknown side', g.SymmetricMatVector.lr_svd_multiply, bs, a, 'X')
    return res(len(exp) > 1 or cs['kind'] == 'cc', cs['kind'], str(cs['flag']))


facet(P, 'two_sided', gen_lr, chk_lr, 350,
      rule='both sides, rectangular factors, constant factors, plain matrices, direct and spectral; non-trivial: several '
           'slices or plain matrices')


# ---------------------------------------------------------------- quadratic forms
def gen_qf(d):
    n, t = d.int(1, d.sz(5, 6, 12)), d.weighted([(4, d.count(2, 6, 6, 60)), (1, 1)])
    ms = [gen_inv_mat(d, n) for _ in range(t)]
    es = []
    for _ in range(t):
        e = [d.pos(0.3, 5.0) * d.choice([1.0, 1.0, -1.0]) for _ in range(n)]
        if n > 1 and d.chance(20):
            e[0] = e[1]
        es.append(d.sym_eig(wide(d, e)))
    return {'b': ms, 's': es, 'v': d.mat(n, t), 'kind': d.choice(['tt', 'tt', 'ct', 'c1', 't1', '1t', 'c1d', 't1d', '11']),
            'lay': [d.choice(LAYOUTS), d.choice(LAYOUTS)]}


def qf_args(cs, sym_=False):
    b, v = (sym(cs['s']) if sym_ else stack(cs['b'])), M(cs['v'])
    k = cs['kind']
    if k[0] == 'c':
        b = b[:, :, 0]
    elif k[0] == '1':
        b = b[:, :, :1]
    if k[1] == '1':
        v = v[:, :1]
    if k.endswith('d'):
        v = v[:, 0]
    return layout(b, cs['lay'][0]), layout(v, cs['lay'][1])


def qf_pairs(b, v):
    bs = slices(b)
    vs = [v] if v.ndim == 1 else [v[:, i] for i in range(v.shape[1])]
    k = max(len(bs), len(vs))
    return [(bs[i if len(bs) > 1 else 0], vs[i if len(vs) > 1 else 0]) for i in range(k)]


def inv_tol(x, y):
    s = np.linalg.svd(x, compute_uv=False)
    return 1e-12 * (s[0] / s[-1]) / s[-1] * float(y @ y) + 1e-300


def chk_qf(cs):
    g = S.gen
    SQ, SY = g.SquareMatVector, g.SymmetricMatVector
    k = cs['kind']
    b, v = qf_args(cs)
    one = k[0] == '1' and b.ndim == 3 and v.ndim == 2 and v.shape[1] > 1
    pairs = qf_pairs(b, v)
    fz = Frozen(b, v)
    sv = max(1.0, float(np.sum(v * v)))
    tol = 1e-12 * scale_of(b) * sv * 10
    if not one:
        out = flat(call(SQ.lr_multiply_by_vec, b, v), len(pairs), 'quadratic forms')
        fz.check('lr_multiply_by_vec')
        close(out, [y @ x @ y for x, y in pairs], tol, 'quadratic forms differ from the slice-wise ones', kind=k)
        out = flat(call(SQ.lr_divide_vec, b, v), len(pairs), 'inverse quadratic forms')
        fz.check('lr_divide_vec')
        for o, (x, y) in zip(out, pairs):
            close(o, y @ np.linalg.solve(x, y), inv_tol(x, y), 'inverse quadratic form is wrong', kind=k)
    b, v = qf_args(cs, True)
    pairs = qf_pairs(b, v)
    if v.ndim == 2 and not (b.ndim == 3 and b.shape[2] > 1 and v.shape[1] == 1):
        fz = Frozen(b, v)
        tol = 1e-12 * scale_of(b) * sv * 10
        for f, h, w in ((SY.lr_svd_multiply_by_vec, lambda x, y: y @ x @ y, lambda x, y: tol),
                        (SY.lr_svd_divide_vec, lambda x, y: y @ np.linalg.solve(x, y), inv_tol)):
            out = flat(call(f, b, v), len(pairs), 'spectral quadratic forms')
            for o, (x, y) in zip(out, pairs):
                close(o, h(x, y), w(x, y), 'spectral quadratic form differs from the direct one', kind=k, fun=f.__name__)
        out = arr(call(SY.r_svd_multiply_by_vec, b, v), v.shape, 'spectral product')
        close(out, np.stack([x @ y for x, y in pairs], 1), tol * 100, 'spectral product with vectors is wrong', kind=k)
        fz.check('a spectral operation')
    return res(len(pairs) > 1, k)


facet(P, 'quadratic_forms', gen_qf, chk_qf, 400,
      rule='quadratic forms and inverse-weighted ones: paired stacks, constant matrices, single and one-dimensional vectors, '
           'direct and spectral; non-trivial: several values')
