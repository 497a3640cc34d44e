"""C32: answers depend on the values of array arguments, not on how the arrays are stored."""
from vf.registry import facet
from vf.oracle import *
from vf.props.c29 import MF, EXTRA, QUERIES, TOL, canon, same, run, conf, seq, mats

P = 'C32'
FORMS = ['F', 'ro', 'strided', 'neg', 'be', 'int', 'int32', 'swapped', 'view']


def form(a, f):
    """The same values stored in another way."""
    if not isinstance(a, np.ndarray) or a.dtype.kind not in 'fi':
        return a
    if f == 'F':
        return np.asfortranarray(a)
    if f == 'ro':
        b = a.copy()
        b.setflags(write=False)
        return b
    if f == 'strided':
        b = np.full([2 * k + 1 for k in a.shape], 99.0 if a.dtype.kind == 'f' else 99, dtype=a.dtype)
        v = b[tuple(slice(1, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    if f == 'neg':
        return a[tuple(slice(None, None, -1) for _ in a.shape)].copy()[tuple(slice(None, None, -1) for _ in a.shape)]
    if f == 'be':
        return a.astype(a.dtype.newbyteorder('>'))
    if f in ('int', 'int32'):
        b = a.astype(np.int64 if f == 'int' else np.int32)
        return b if np.array_equal(a, b) else a
    if f == 'swapped':
        return np.ascontiguousarray(a.transpose()).transpose()
    b = np.zeros((2,) + a.shape, dtype=a.dtype)
    b[1] = a
    return b[1]


# ------------------------------------------------------------------ integer data
def ispd(d, n):
    f = d.imat(n, n, -2, 2)
    k = d.int(1, 4)
    return [[sum(f[i][r] * f[j][r] for r in range(n)) + (float(k + i) if i == j else 0.0) for j in range(n)] for i in range(n)]


def ipsd(d, n):
    r = d.int(0, n)
    f = d.imat(n, max(r, 1), -2, 2)
    return [[float(sum(f[i][k] * f[j][k] for k in range(r))) for j in range(n)] for i in range(n)]


def idir(d, n):
    v = d.ivec(n)
    if not any(v):
        v[d.int(0, n - 1)] = 1.0
    return v


def signed_perm(d, n):
    p = d.perm(n)
    return [[(d.choice([1.0, -1.0]) if p[i] == j else 0.0) for j in range(n)] for i in range(n)]


def gen_mats(d):
    n = d.weighted([(5, 2), (4, 3), (1, 1), (1, 4)])
    t = d.int(1, 4)
    def stk(f):
        return [f() for _ in range(t)]
    return {'n': n, 't': t, 'spd': ispd(d, n), 'spd2': ispd(d, n), 'psd': ipsd(d, n), 'gen': d.imat(n, n), 'vecs4': [idir(d, n) for _ in range(4)],
            'k': d.int(1, n), 'u': signed_perm(d, n), 'stk': stk(lambda: d.imat(n, n)), 'stk2': stk(lambda: d.imat(n, n)), 'stk3': stk(lambda: d.imat(n, n)),
            'spds': stk(lambda: ispd(d, n)), 'spds2': stk(lambda: ispd(d, n)), 'mixs': stk(lambda: ispd(d, n) if d.chance(60) else ipsd(d, n)),
            'vecs': stk(lambda: d.ivec(n)), 'syms': [[d.choice(['t', 'sin(t)', '1', 't*2+3', 'k', '0.5']) for _ in range(2)] for _ in range(2)],
            'tv': sorted(set(d.ivec(3, 0, 6))), 'ints': [d.int(0, 5) for _ in range(d.int(1, 6))], 'ints2': [d.int(0, 5) for _ in range(d.int(1, 6))],
            'infs': [[d.choice([1.0, 2.0, 3.0, 'inf', '-inf', 'nan']) for _ in range(4)] for _ in range(2)], 'ncirc': d.int(4, 9), 'lay': 'C',
            'calls': [[d.choice(sorted(MF)), [d.choice(FORMS) for _ in range(5)]] for _ in range(d.int(3, d.sz(10, 20, 40)))]}


# answers which need not be unique (repeated eigenvalues, vanishing projections) are compared by what they are for
def _unit(v):
    return np.ravel(v) / np.linalg.norm(v)


def _congruence(t, a, b, *_):
    return [t @ a @ t.T, t @ b @ t.T]


def _best_trace(o, src, dst, m):
    o = np.reshape(o, m.shape)
    return [o.T @ o, o @ _unit(src), np.trace(m @ o)]


def _best_dir(o, src, dst, smax, dmax):
    o = np.reshape(o, (src.size, src.size))
    return [o.T @ o, o @ _unit(src), np.ravel(dmax) @ o @ np.ravel(smax)]


def _gram(o, *_):
    return [o.T @ o]


POST = {'diag': _congruence, 'maxtr': _best_trace, 'maxdir': _best_dir, 'orth': _gram, 'orth_col': _gram}


def chk_mats(cs):
    S.Properties.init()
    seen = set()
    for name, forms in cs['calls']:
        where, fn, args = MF[name]
        mod = getattr(S.gen, where) if where.endswith('MatVector') else getattr(S, where)
        out = []
        for f in (None, forms):
            m = mats(cs)
            av = []
            for i, a in enumerate(args):
                v = m[a] if isinstance(a, str) and a in m else EXTRA[a] if isinstance(a, str) and a in EXTRA else a
                av.append(v if f is None else form(v, f[i % len(f)]))
            rep, val = run(getattr(mod, fn), *av)
            if rep[0] == 'ok' and name in POST:
                with interp('answer of ' + name):
                    rep = ('ok', canon(POST[name](np.asarray(val, dtype=float), *[np.asarray(a, dtype=float) for a in av])))
            out.append(rep)
        ref, got = out
        info = {'function': name, 'stored': forms[:len(args)]}
        expect(ref[0] == got[0], 'a function %s other storage of its arguments' % ('refuses' if ref[0] == 'ok' else 'accepts only'), plain=ref, now=got, **info)
        if ref[0] == 'ok':
            seen.add(name.split('(')[0])
            expect(same(ref, got, 1e-7), 'the answer depends on how the arguments are stored', plain=ref, now=got, **info)
    return res(len(seen) > 1, *sorted(seen))


facet(P, 'functions', gen_mats, chk_mats, 450,
      rule='80 matrix, mesh, time-indexed and comparison functions on integer-valued data, each array argument stored contiguously as floats '
           'and in one of nine other ways (Fortran order, views with positive and negative strides, read-only, big-endian, 32- and 64-bit '
           'integers); non-trivial: at least two functions gave answers')


# ------------------------------------------------------------------ objects
class Pool:
    def __init__(self, cs, forms=None):
        g = (lambda a, i: a) if forms is None else (lambda a, i: form(a, forms[i % len(forms)]))
        self.n = cs['n']
        self.e = [S.Ellipsoid(g(A(e['c']), 2 * i), g(M(e['q']), 2 * i + 1), **e.get('p', {})) for i, e in enumerate(cs['e'])]
        self.h = [S.Hyperplane(g(A(h['n']), i + 3), h['s'], **h.get('p', {})) for i, h in enumerate(cs['h'])]
        self.dirs = g(np.array(cs['dirs'], dtype=float).T.copy(), 0)
        self.pts = g(np.array(cs['pts'], dtype=float).T.copy(), 1)
        self.basis = g(np.array(cs['basis'], dtype=float)[:, :cs['k']].copy(), 2)


def gen_objs(d):
    n = d.weighted([(5, 2), (3, 3), (1, 1), (1, 4)])
    es = [{'c': d.ivec(n, -1, 1) if d.bool() else d.ivec(n), 'q': ispd(d, n) if d.chance(70) else ipsd(d, n)} for _ in range(d.int(1, 4))]
    hs = [{'n': idir(d, n), 's': float(d.int(-4, 4))} for _ in range(d.int(1, 3))]
    return {'n': n, 'e': es, 'h': hs, 'dirs': [idir(d, n) for _ in range(d.int(1, 3))], 'pts': [d.ivec(n) for _ in range(d.int(1, 4))],
            'basis': signed_perm(d, n), 'k': d.int(1, n), 'forms': [d.choice(FORMS) for _ in range(5)],
            'qs': [[d.choice(sorted(QUERIES)), [d.int(0, 4) for _ in range(d.int(1, 4))]] for _ in range(d.int(2, d.sz(8, 12, 30)))]}


def chk_objs(cs):
    S.Properties.init()
    seen = set()
    for name, ix in cs['qs']:
        ref = run(QUERIES[name], Pool(cs), ix, 'arr')[0]
        got = run(QUERIES[name], call(Pool, cs, cs['forms']), ix, 'arr')[0]
        info = {'query': name, 'args': ix, 'stored': cs['forms']}
        expect(ref[0] == got[0], 'a query %s other storage of the data' % ('refuses' if ref[0] == 'ok' else 'accepts only'), plain=ref, now=got, **info)
        if ref[0] == 'ok':
            seen.add(name)
            expect(same(ref, got, TOL), 'the answer depends on how the data are stored', plain=ref, now=got, **info)
    return res(len(seen) > 1, *sorted(seen))


facet(P, 'objects', gen_objs, chk_objs, 300,
      rule='50 queries on ellipsoids and hyperplanes built from integer-valued data with centres, shapes, normals, directions, points and bases '
           'stored in the same nine ways; non-trivial: at least two queries gave answers')


# ------------------------------------------------------------------ arrays with several axes
OFORMS = ['F', 'swapped', 'strided', 'neg', 'ro']


def oform(a, f):
    """The same array of objects stored in another way."""
    if f == 'F':
        return np.asfortranarray(a)
    if f == 'swapped':
        return np.ascontiguousarray(a.transpose()).transpose()
    if f == 'strided':
        b = np.empty([2 * k + 1 for k in a.shape], dtype=object)
        v = b[tuple(slice(1, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    if f == 'neg':
        r = tuple(slice(None, None, -1) for _ in a.shape)
        return a[r].copy()[r]
    b = a.copy()
    b.setflags(write=False)
    return b


def _all(cls, method, *extra):
    def f(v):
        return getattr(getattr(S, cls), method)(v.e if cls == 'Ellipsoid' else v.h, *[getattr(v, x[1:]) if isinstance(x, str) and x[:1] == '.' else x for x in extra])
    return f


def _dict(cls, back):
    def f(v):
        r = getattr(S, cls).to_dict(v.e if cls == 'Ellipsoid' else v.h, True)
        return getattr(S, cls).from_dict(oform(np.asarray(r[0], dtype=object), v.of)) if back else r
    return f


def _mod(cls, method, *extra):
    """Operations which change their operands: the operands are the answer."""
    def f(v):
        a = v.e if cls == 'Ellipsoid' else v.h
        r = getattr(getattr(S, cls), method)(a, *[getattr(v, x[1:]) if isinstance(x, str) and x[:1] == '.' else x for x in extra])
        return [r, a]
    return f


_e, _h = 'Ellipsoid', 'Hyperplane'
AQ = {}
for _m in ('volume', 'trace', 'max_eig', 'min_eig', 'is_degenerate', 'is_empty', 'dimension', 'get_copy', 'uminus', 'polar', 'get_abs_tol',
           'get_n_plot_2d_points', 'get_n_plot_3d_points'):
    AQ[_m] = _all(_e, _m)
AQ.update({
    'dimrank': _all(_e, 'dimension', True), 'proj': _all(_e, 'get_projection', '.basis'), 'projection': _mod(_e, 'projection', '.basis'),
    'rho_one_dir': _all(_e, 'rho', '.dir'), 'rho_arr': _all(_e, 'rho', '.dirs'), 'ea': _all(_e, 'minksum_ea', '.dmat'), 'ia': _all(_e, 'minksum_ia', '.dmat'),
    'rho_one_ell': lambda v: S.Ellipsoid.rho(v.e.flat[0], v.dirs), 'rho_one_ell1': lambda v: S.Ellipsoid.rho([v.e.flat[0]], v.dirs),
    'internal_u': _all(_e, 'is_internal', '.pmat', 'u'), 'internal_i': _all(_e, 'is_internal', '.pmat', 'i'),
    'prop': _all(_e, 'get_property', 'rel_tol'), 'eq': lambda v: S.Ellipsoid.is_equal(v.e, v.e2), 'eq_one': lambda v: S.Ellipsoid.is_equal(v.e.flat[0], v.e2),
    'eq_last': lambda v: S.Ellipsoid.is_equal(v.e, v.e2.flat[0]), 'to_dict': _dict(_e, False), 'from_dict': _dict(_e, True),
    'h_dimension': _all(_h, 'dimension'), 'h_copy': _all(_h, 'get_copy'), 'h_empty': _all(_h, 'is_empty'), 'h_tol': _all(_h, 'get_abs_tol'),
    'h_uminus': _all(_h, 'uminus'), 'h_eq': lambda v: S.Hyperplane.is_equal(v.h, v.h2), 'h_parallel': lambda v: S.Hyperplane.is_parallel(v.h, v.h2),
    'h_parallel_one': lambda v: S.Hyperplane.is_parallel(v.h.flat[0], v.h2), 'h_parallel_last': lambda v: S.Hyperplane.is_parallel(v.h, v.h2.flat[0]),
    'h_contains': _all(_h, 'contains', '.points'), 'h_contains_one': lambda v: S.Hyperplane.contains(v.h.flat[0], v.points),
    'h_contains_point': _all(_h, 'contains', '.pt'), 'h_to_dict': _dict(_h, False), 'h_from_dict': _dict(_h, True),
})


class Arrays:
    def __init__(self, cs, of=None, forms=None):
        n, shape = cs['n'], tuple(cs['shape'])
        o = (lambda a: a) if of is None else (lambda a: oform(a, of))
        g = (lambda a, i: a) if forms is None else (lambda a, i: form(a, forms[i % len(forms)]))
        self.of = 'ro' if of is None else of
        es = mk_ells(cs['e'])
        hs = mk_hyps(cs['h'])
        k = cs['shift']
        self.e, self.h = o(obj_array(es, shape)), o(obj_array(hs, shape))
        self.e2, self.h2 = o(obj_array(es[k:] + es[:k], shape)), o(obj_array(hs[k:] + hs[:k], shape))
        self.dmat = np.array(cs['dirs'], dtype=float).T.copy()
        self.dirs = g(self.dmat.reshape((n,) + shape), 0)
        self.pmat = np.array(cs['pts'], dtype=float).T.copy()
        self.points = g(self.pmat.reshape((n,) + shape), 1)
        self.dir, self.pt = g(self.dmat[:, :1].copy(), 2), g(self.pmat[:, :1].copy(), 3)
        self.dmat, self.pmat = g(self.dmat, 2), g(self.pmat, 3)
        self.basis = g(np.array(cs['basis'], dtype=float)[:, :cs['k']].copy(), 4)


def gen_arrays(d):
    n = d.weighted([(5, 2), (3, 3), (1, 1)])
    shape = d.choice([[2, 2], [2, 3], [3, 2], [2, 1, 2], [1, 3], [3, 1], [2, 2, 2], [4]])
    m = int(np.prod(shape))
    es = [{'c': d.ivec(n, -2, 2), 'q': ispd(d, n) if d.chance(75) else ipsd(d, n), 'p': {'abs_tol': d.choice([1e-7, 1e-6]), 'n_plot_2d_points': d.int(4, 40)}}
          for _ in range(m)]
    hs = []
    for _ in range(m):
        h = {'n': idir(d, n), 's': float(d.int(-3, 3)), 'p': {'abs_tol': d.choice([1e-7, 1e-6])}}
        hs.append(h)
    if d.bool():   # some of the others repeated, or opposite
        for _ in range(2):
            i, j = d.int(0, m - 1), d.int(0, m - 1)
            es[i] = es[j]
            hs[i] = hs[j] if d.bool() else dict(hs[j], n=[-2.0 * x for x in hs[j]['n']])
    return {'n': n, 'shape': shape, 'e': es, 'h': hs, 'shift': d.int(0, m - 1), 'dirs': [idir(d, n) for _ in range(m)],
            'pts': [d.ivec(n, -2, 2) for _ in range(m)], 'basis': signed_perm(d, n), 'k': d.int(1, n), 'of': d.choice(OFORMS),
            'forms': [d.choice(FORMS) for _ in range(5)], 'qs': [d.choice(sorted(AQ)) for _ in range(d.int(4, d.sz(10, 14, 30)))]}


def chk_arrays(cs):
    S.Properties.init()
    seen = set()
    for name in cs['qs']:
        ref = run(AQ[name], call(Arrays, cs))[0]
        got = run(AQ[name], call(Arrays, cs, cs['of'], cs['forms']))[0]
        info = {'query': name, 'layout': cs['shape'], 'objects stored': cs['of'], 'stored': cs['forms']}
        expect(ref[0] == got[0], 'a query %s other storage of the arrays' % ('refuses' if ref[0] == 'ok' else 'accepts only'), plain=ref, now=got, **info)
        if ref[0] == 'ok':
            seen.add(name)
            expect(same(ref, got, TOL), 'the answer depends on how the arrays are stored', plain=ref, now=got, **info)
    return res(len(seen) > 1 and len(cs['shape']) > 1, *sorted(seen))


facet(P, 'arrays', gen_arrays, chk_arrays, 240,
      rule='45 queries on arrays of ellipsoids and hyperplanes with one to three axes, with directions and points laid out alike, the arrays of '
           'objects stored in Fortran order, transposed, as views with positive and negative strides and read-only, the numbers in the nine ways '
           'above; non-trivial: several axes and at least two queries gave answers')
