"""C23: time-indexed matrix operations act slice by slice."""
from vf.registry import facet
from vf.oracle import *

P = 'C23'


def gen_arr(d, m, n, t):
    """An m x n x t stack as t matrices."""
    k = d.int(0, 3)
    if k == 0:
        return [d.imat(m, n) for _ in range(t)]
    if k == 1:
        return [d.mat(m, n, -100.0, 100.0) for _ in range(t)]
    return [d.mat(m, n) for _ in range(t)]


def stack(ms):
    return np.stack([M(m) for m in ms], axis=2)


def layout(a, k):
    """The same numbers in another memory layout or type."""
    if k == 'fortran':
        return np.asfortranarray(a)
    if k == 'strided':
        b = np.zeros(tuple(2 * s for s in a.shape))
        v = b[tuple(slice(None, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    if k == 'int':      # whole numbers as integers
        whole = a.dtype.kind == 'f' and np.all(np.isfinite(a)) and np.all(a == np.round(a)) and np.all(np.abs(a) < 2 ** 40)
        return a.astype(np.int64) if whole else a.copy()
    if k == 'ro':
        a = a.copy()
        a.setflags(write=False)
        return a
    return a.copy()


LAYOUTS = ['c', 'c', 'fortran', 'strided', 'ro', 'int', 'int']


class Frozen:
    """Arguments that must come out as they went in."""

    def __init__(self, *arrs):
        self.arrs = [(a, a.copy(), a.shape, a.dtype) for a in arrs if a is not None]

    def check(self, what):
        for a, c, s, dt in self.arrs:
            expect(a.shape == s and a.dtype == dt and np.array_equal(a, c, equal_nan=True),
                   '%s modified its argument' % what, before=c, after=a)


def same(got, exp, tol, what, **info):
    a = arr(got, exp.shape, what)
    close(a, exp, tol, what + ' differs from the slice-wise result', **info)


# ---------------------------------------------------------------- one-argument operations
def gen_unary(d):
    m = d.int(1, d.sz(5, 6, 14))
    n = m if d.bool() else d.int(1, d.sz(5, 6, 14))
    t = d.weighted([(3, d.count(2, 5, 8, 80)), (1, 1)])
    return {'a': gen_arr(d, m, n, t), 'plain': d.chance(25), 'lay': d.choice(LAYOUTS), 'k': d.int(0, 4),
            'rank1': d.chance(20)}


def unary_input(cs):
    a = stack(cs['a'])
    if cs['rank1']:
        a = np.einsum('ik,jk->ijk', a[:, 0, :], a[0, :, :])
    if cs['plain']:
        a = a[:, :, 0]
    return layout(a, cs['lay'])


def chk_unary(cs):
    MV = S.gen.MatVector
    a = unary_input(cs)
    a3 = a[:, :, None] if a.ndim == 2 else a
    m, n, t = a3.shape
    sc = scale_of(a)
    fz = Frozen(a)
    tr = call(MV.transpose, a)
    same(tr, np.transpose(a3, (1, 0, 2)), 0.0, 'transpose')
    tu = call(MV.triu, a)
    same(tu, np.stack([np.triu(a3[:, :, i]) for i in range(t)], 2), 0.0, 'triangular part')
    if m == n:
        same(call(MV.make_symmetric, a), 0.5 * (a3 + np.transpose(a3, (1, 0, 2))), 1e-15 * sc, 'symmetrisation')
    fz.check('a unary operation')
    for r in (tr, tu):
        if isinstance(r, np.ndarray) and r.flags.writeable:
            r[...] = 7.5
    fz.check('writing to the result of a unary operation')
    return res(t > 1 or cs['plain'], 'plain' if cs['plain'] else 'stack', 'square' if m == n else 'rect', 'T%d' % t)


facet(P, 'transpose_triu_symm', gen_unary, chk_unary, 250,
      rule='stacks of 1..5 slices up to 5x5, plain matrices, C/Fortran/strided/read-only layouts; non-trivial: several '
           'slices or a plain matrix')


def chk_pinv(cs):
    MV = S.gen.MatVector
    a = unary_input(cs)
    a3 = a[:, :, None] if a.ndim == 2 else a
    m, n, t = a3.shape
    fz = Frozen(a)
    out = call(MV.pinv, a)
    fz.check('pinv')
    p = arr(out, (n, m, t), 'pseudo-inverse')
    done = 0
    for i in range(t):
        x, y = a3[:, :, i], p[:, :, i]
        s = np.linalg.svd(x, compute_uv=False)
        pos = s[s > 1e-9 * max(s[0], 1e-300)] if s[0] > 0 else s[:0]
        small = s[(s <= 1e-9 * s[0]) & (s > 1e-14 * s[0])] if s[0] > 0 else s[:0]
        if small.size:
            continue
        done += 1
        cond = (pos[0] / pos[-1]) if pos.size else 1.0
        inv = 1.0 / pos[-1] if pos.size else 1.0
        tol = 1e-12 * cond
        close(x @ y @ x, x, tol * s[0], 'A P A is not A', slice=i)
        close(y @ x @ y, y, tol * inv, 'P A P is not P', slice=i)
        close(x @ y, (x @ y).T, tol, 'A P is not symmetric', slice=i)
        close(y @ x, (y @ x).T, tol, 'P A is not symmetric', slice=i)
        if not pos.size:
            expect(not np.any(y), 'pseudo-inverse of zero is not zero', got=y)
    return res(done and t > 1, 'plain' if cs['plain'] else 'stack', 'rank1' if cs['rank1'] else 'any')


def gen_pinv(d):
    cs = gen_unary(d)
    if d.chance(60):
        for sl in cs['a']:
            k = d.int(-6, 6) if d.bool() else 0
            for r in sl:
                e = 10.0 ** (k - d.choice([0, 0, 1, 2, 3, 5]))
                for j in range(len(r)):
                    r[j] = r[j] * e
    return cs


facet(P, 'pinv', gen_pinv, chk_pinv, 200,
      rule='as above with rank-one slices, rows of very different size and very large or small slices: Moore-Penrose equations of every slice; non-trivial: several slices')


# ---------------------------------------------------------------- functions of slices
FUNCS = {
    'sum': (lambda x: np.sum(x), False), 'max': (lambda x: np.max(x), False), 'fro': (lambda x: np.sqrt(np.sum(x * x)), False),
    'corner': (lambda x: x[-1, 0], False), 'scale': (lambda x: 3.0 * x, True), 'flip': (lambda x: x[::-1, :], True),
    'cum': (lambda x: np.cumsum(x, axis=0), True), 'rowsum': (lambda x: x.sum(axis=1), None), 'tr': (lambda x: x.T, None),
    'third': (lambda x: np.asarray(x, dtype=float) / 3.0, True), 'mean': (lambda x: np.mean(np.asarray(x, dtype=float)), False),
}


def gen_eval(d):
    cs = gen_unary(d)
    cs['f'] = d.choice(sorted(FUNCS))
    cs['bad'] = d.chance(15)
    cs['dt'] = d.weighted([(4, 'float64'), (1, 'float32'), (1, 'int64'), (1, 'int8')])
    return cs


def chk_eval(cs):
    MV = S.gen.MatVector
    a = unary_input(cs)
    if cs['dt'] != 'float64':
        a = layout(np.round(np.clip(a, -9, 9)).astype(cs['dt']), cs['lay'])
    a3 = a[:, :, None] if a.ndim == 2 else a
    m, n, t = a3.shape
    f, keep = FUNCS[cs['f']]
    calls = []

    def g(x):
        calls.append(np.array(x))
        v = f(np.array(x))
        if cs['bad'] and isinstance(x, np.ndarray) and x.flags.writeable:
            x[...] = -99.0  # a function that spoils what it is given must not reach the argument
        return v
    exp = [f(a3[:, :, i]) for i in range(t)]
    fz = Frozen(a)
    modes = [(False, False)] + ([(True, bool(keep))] if keep is not None else [])
    for uni, ks in modes:
        del calls[:]
        out = call(MV.eval_func, g, a, uni, ks)
        expect(len(calls) == t, 'the function is not evaluated once per slice', calls=len(calls), slices=t)
        for i in range(t):
            expect(calls[i].shape == (m, n) and np.array_equal(calls[i], a3[:, :, i]), 'a wrong slice is evaluated', i=i,
                   got=calls[i])
        if not uni:
            expect(isinstance(out, list) and len(out) == t, 'non-uniform output is not a list of the values', got=out)
            for i in range(t):
                same(out[i], np.asarray(exp[i], dtype=float), 0.0, 'value of the function')
        elif ks:
            same(out, np.stack(exp, 2), 0.0, 'value of the function')
        else:
            same(flat(out), np.array(exp, dtype=float), 0.0, 'value of the function')
    fz.check('eval_func')
    return res(t > 1, cs['f'], 'plain' if cs['plain'] else 'stack')


facet(P, 'eval_func', gen_eval, chk_eval, 200,
      rule='scalar-, matrix- and vector-valued functions in list/scalar/keep-size modes; non-trivial: several slices')


# ---------------------------------------------------------------- products
def gen_mul(d):
    p, q, r, s = (d.int(1, d.sz(5, 6, 12)) for _ in range(4))
    t = d.weighted([(4, d.int(2, 5)), (1, 1), (1, 2 if d.lvl == 0 else d.int(6, d.sz(9, 9, 60)))])
    kind = d.choice(['ab', 'ab', 'aB', 'aB', 'ab1', 'abc', 'abc', 'aBc', 'abC', 'aBC', 'sb', 'as', 'sB', 'aS', 'sbc', 'asc',
                     'ssc', 'abs', 'abs', 'sbs', 'aSs', 'abS', 'sss', 'plain', 'plain3', 'ab1c', 'abc1'])
    return {'kind': kind, 't': t, 'a': gen_arr(d, p, q, t), 'b': gen_arr(d, q, r, t), 'c': gen_arr(d, r, s, t),
            's': [[[d.real(-3, 3)]] for _ in range(t)], 's2': [[[d.real(-3, 3)]] for _ in range(t)],
            'lay': [d.choice(LAYOUTS) for _ in range(3)], 'zero': d.chance(20)}


def chk_mul(cs):
    MV = S.gen.MatVector
    t, kind = cs['t'], cs['kind']
    a, b, c = stack(cs['a']), stack(cs['b']), stack(cs['c'])
    s, s2 = stack(cs['s']), stack(cs['s2'])
    if cs['zero']:
        b[:, 0, :] = 0.0
        a[0, :, -1] = 0.0
    args = []
    for i, ch in enumerate(kind):
        if kind in ('ab1', 'plain', 'plain3', 'ab1c', 'abc1'):
            break
        if ch in 'abc':
            v = {'a': a, 'b': b, 'c': c}[ch]
            if kind == 'asc' and ch == 'c':
                v = np.concatenate([b, b], axis=1)
            args.append(v)
        elif ch == 'B':
            args.append(b[:, :, 0])
        elif ch == 'C':
            args.append(c[:, :, 0])
        elif ch == 's':
            args.append(s2 if i == 1 else s)
        elif ch == 'S':
            args.append(s[:, :, 0])
    if kind == 'ab1':
        args = [a, b[:, :, :1]]
    elif kind == 'ab1c':
        args = [a, b[:, :, :1], c]
    elif kind == 'abc1':
        args = [a, b, c[:, :, :1]]
    elif kind == 'plain':  # a plain matrix is a single slice
        args = [a[:, :, 0], b[:, :, :1]]
        t = 1
    elif kind == 'plain3':
        args = [a[:, :, 0], b[:, :, 0], c[:, :, 0]]
        t = 1
    args = [layout(v, cs['lay'][i]) for i, v in enumerate(args)]

    def sl(v, i):
        return v if v.ndim == 2 else v[:, :, i if v.shape[2] > 1 else 0]

    def mul(x, y):
        return x * y if x.size == 1 or y.size == 1 else x @ y
    exp = []
    for i in range(t):
        w = sl(args[0], i)
        for v in args[1:]:
            w = mul(w, sl(v, i))
        exp.append(w)
    exp = np.stack(exp, 2)
    sc = np.prod([scale_of(v) for v in args]) * 25
    fz = Frozen(*args)
    for k in ({}, {'use_sparse_matrix': False}, {'use_sparse_matrix': True}):
        out = call(MV.r_multiply, *args, **k)
        if hasattr(out, 'toarray'):
            out = out.toarray()
        same(out, exp, 1e-13 * sc, 'product', kind=kind, sparse=k)
        fz.check('r_multiply')
    if kind == 'ab' and t > 1:
        wrong = np.concatenate([b, b[:, :, :1]], axis=2)
        rejects('stacks of different lengths', MV.r_multiply, a, wrong)
        if t > 2:
            rejects('stacks of different lengths', MV.r_multiply, a, b[:, :, :-1])
    return res(t > 1, kind, 'T%d' % t)


facet(P, 'products', gen_mul, chk_mul, 500,
      rule='two and three factors, constant and scalar-shaped factors at every position, dense/sparse/default; '
           'non-trivial: several slices')


def gen_mulv(d):
    p, q = d.int(1, d.sz(6, 6, 14)), d.int(1, d.sz(6, 6, 14))
    t = d.weighted([(4, d.count(2, 6, 6, 80)), (1, 1)])
    return {'a': gen_arr(d, p, q, t), 'v': d.mat(q, t), 'lay': [d.choice(LAYOUTS), d.choice(LAYOUTS)],
            'zero': d.chance(30), 'flat': d.vec(q)}


def chk_mulv(cs):
    MV = S.gen.MatVector
    a, v = stack(cs['a']), M(cs['v'])
    if cs['zero']:
        v[0, :] = 0.0
        v[:, -1] = 0.0
    a, v = layout(a, cs['lay'][0]), layout(v, cs['lay'][1])
    t = a.shape[2]
    exp = np.stack([a[:, :, i] @ v[:, i] for i in range(t)], 1)
    fz = Frozen(a, v)
    for args in ((), (True,), (False,)):
        out = call(MV.r_multiply_by_vec, a, v, *args)
        if hasattr(out, 'toarray'):
            out = out.toarray()
        same(out, exp, 1e-13 * scale_of(a) * scale_of(v) * 10, 'product with vectors', sparse=args)
        one = call(MV.r_multiply_by_vec, a[:, :, 0], v[:, :1], *args)
        one = one.toarray() if hasattr(one, 'toarray') else one
        same(one, exp[:, :1], 1e-13 * scale_of(a) * scale_of(v) * 10, 'product of a plain matrix with one vector', sparse=args)
    fz.check('r_multiply_by_vec')
    for bad in (A(cs['flat']), a):
        for sp in (True, False):
            rejects('not a matrix of vectors', MV.r_multiply_by_vec, a, bad, sp)
    return res(t > 1, 'T%d' % t)


facet(P, 'products_with_vectors', gen_mulv, chk_mulv, 250,
      rule='stacks times one vector per slice, dense/sparse/default, zero columns; non-trivial: several slices')
