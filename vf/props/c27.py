"""C27: tolerant row sort, membership, roots, inner products."""
from vf.registry import facet
from vf.oracle import *
from vf.props.c23 import Frozen, layout, LAYOUTS

P = 'C27'


# ---------------------------------------------------------------- sort_rows_tol
def gen_sort(d):
    m, n = d.int(0, d.sz(8, 14, 150)), d.int(1, d.sz(4, 4, 8))
    tol = d.choice([0.0, 0.0, 1e-14, 1e-9, 1e-3, 0.5])
    kind = d.choice(['float', 'float', 'float', 'int', 'uint', 'bool'])
    pool = [[d.int(-3, 3) if kind != 'uint' else d.int(0, 5) for _ in range(d.int(1, 3))] for _ in range(n)]
    if kind == 'float' and d.chance(40):
        pool = [[d.real(-50, 50) for _ in range(len(p))] for p in pool]
    rows = []
    for _ in range(m):
        r = []
        for j in range(n):
            v = d.choice(pool[j])
            if kind == 'float':
                v = float(v) + d.choice([0.0, 0.0, 0.4, -0.4, 0.8, 1.7, -3.0, 5.0]) * tol
            r.append(v)
        rows.append(r)
    return {'m': rows, 'n': n, 'tol': tol, 'kind': kind, 'lay': d.choice(LAYOUTS)}


def ranks(col, tol):
    """Cluster numbers of the entries of a column, None when a gap is too close to the tolerance."""
    o = np.argsort(col, kind='stable')
    s = col[o]
    r = np.zeros(len(col), dtype=int)
    c = 0
    for i in range(1, len(col)):
        gap = float(s[i]) - float(s[i - 1])
        eps = 4e-16 * max(abs(float(s[i])), abs(float(s[0])), abs(float(s[-1])))
        if tol > 0 and abs(gap - tol) <= eps:
            return None
        if tol > 0 and gap > 0 and tol < 16 * eps:
            return None
        if gap > tol:
            c += 1
        r[o[i]] = c
    return r


def chk_sort(cs):
    f = S.gen.sort_rows_tol
    dt = {'float': np.float64, 'int': np.int64, 'uint': np.uint32, 'bool': bool}[cs['kind']]
    x = np.array(cs['m'], dtype=dt).reshape(len(cs['m']), cs['n'])
    x = layout(x, cs['lay']) if cs['lay'] != 'strided' or dt == np.float64 else x
    tol = cs['tol']
    fz = Frozen(x)
    y, ind, rev = pair(call(f, x, tol), 3, 'sorted rows')
    fz.check('sort_rows_tol')
    m = len(x)
    y = arr(y, x.shape, 'sorted matrix')
    ind, rev = flat(ind, m, 'permutation').astype(int), flat(rev, m, 'inverse permutation').astype(int)
    expect(sorted(ind.tolist()) == list(range(m)), 'the indices are not a permutation', got=ind)
    xf = np.array(x, dtype=float)
    expect(np.array_equal(xf[ind], y), 'the sorted matrix is not the permuted one', got=y, ind=ind)
    expect(np.array_equal(y[rev], xf), 'the inverse permutation does not restore the matrix', got=rev)
    rk = [ranks(x[:, j], tol) for j in range(cs['n'])]
    skip = any(r is None for r in rk)
    if not skip and m:
        keys = [tuple(int(r[i]) for r in rk) for i in ind]
        expect(all(keys[i] <= keys[i + 1] for i in range(m - 1)), 'the rows are not in the lexicographic order', rows=y, tol=tol,
               classes=keys)
    for bad in (-1e-9, -1.0):
        rejects('negative tolerance', f, x, bad)
    rejects('vector', f, x.ravel(), tol)
    rejects('three axes', f, x[:, :, None], tol)
    rejects('strings', f, x.astype('U8'), tol)
    return res(m > 1 and not skip, cs['kind'], 'tol' if tol else 'exact', 'unclear' if skip else 'clear', 'rows%d' % m)


facet(P, 'sort_rows', gen_sort, chk_sort, 500,
      rule='0..8 rows of 1..4 columns from small pools with offsets of 0.4..5 tolerances, float/int/unsigned/bool; non-trivial: '
           'several rows and gaps clear of the tolerance')


# ---------------------------------------------------------------- is_member
def gen_member(d):
    kind = d.choice(['int', 'float', 'str', 'mix'])
    if kind == 'str':
        pool = ['a', 'b', 'ab', 'ba', '', 'abc', 'A']
    elif kind == 'float':
        pool = [0.5, 1.0, 1.5, -2.0, 1.0000001, 0.1, 0.30000000000000004, 0.3]
    else:
        pool = [0, 1, 2, 3, -1, 5, 100]
    n, m = d.count(0, 6, 8, 200), d.count(0, 6, 8, 200)
    if d.lvl == 2 and d.bool():     # many different values
        pool = [str(x) for x in range(150)] if kind == 'str' else [x * 0.37 - 20 for x in range(150)] if kind == 'float' else list(range(-50, 120))
    form = ['list', 'arr', 'scalar', 'mat']
    return {'kind': kind, 'a': [d.choice(pool) for _ in range(n)], 'b': [d.choice(pool) for _ in range(m)],
            'fa': d.choice(form), 'fb': d.choice(form)}


def shaped(v, form, kind):
    if form == 'scalar' and v:
        return v[0], [v[0]]
    dt = {'int': np.int64, 'float': np.float64, 'str': '<U3', 'mix': np.float64}[kind]
    if form == 'mat' and len(v) % 2 == 0 and v:
        return np.array(v, dtype=dt).reshape(2, -1), v
    if form == 'list' and v:
        return list(v), v
    return np.array(v, dtype=dt), v


def chk_member(cs):
    f = S.common.is_member
    a, av = shaped(cs['a'], cs['fa'], 'int' if cs['kind'] == 'mix' else cs['kind'])
    b, bv = shaped(cs['b'], cs['fb'], cs['kind'])
    fz = Frozen(*[x for x in (a, b) if isinstance(x, np.ndarray) and x.dtype.kind != 'U'])
    is_in, where = pair(call(f, a, b), 2, 'membership')
    fz.check('is_member')
    exp = [any(x == y for y in bv) for x in av]
    got = bools(is_in, np.shape(a), 'membership').ravel().tolist()
    expect(got == exp, 'membership is wrong', a=a, b=b, got=got, expected=exp)
    w = flat(where, sum(exp), 'places')
    for i, x in zip(w, [x for x, e in zip(av, exp) if e]):
        expect(i == int(i) and 0 <= i < len(bv) and bv[int(i)] == x, 'the reported place holds another value', a=a, b=b, got=w)
    return res(any(exp) and not all(exp) or sum(exp) > 1, cs['kind'], cs['fa'], cs['fb'])


facet(P, 'membership', gen_member, chk_member, 500,
      rule='integers, floats, strings as scalars, lists, vectors, matrices with repetitions; non-trivial: members and '
           'non-members or several members')


# ---------------------------------------------------------------- sqrt_pos
def gen_sqrt(d):
    shape = d.layout([[], [1], [3], [2, 2], [0], [2, 1, 2]], 200)
    n = int(np.prod(shape)) if shape else 1
    tol = d.choice([0.0, 0.0, 1e-12, 1e-6, 0.1])
    v = []
    for _ in range(n):
        k = d.int(0, 9)
        if k == 0:
            v.append(0.0)
        elif k == 1:
            v.append(-d.choice([0.3, 0.9, 1.0]) * tol)
        elif k == 2:
            v.append(-d.choice([1.001, 2.0]) * tol - (1e-14 if tol == 0 else 0.0))
        elif k == 3:
            v.append(float(d.int(0, 30)))
        elif k == 4:
            v.append(d.choice([1e-300, 1e-16, 1e-8, 1e300]))
        else:
            v.append(d.pos(0.01, 100))
    return {'shape': shape, 'v': v, 'tol': tol, 'form': d.choice(['arr', 'arr', 'list', 'int', 'dflt'])}


def chk_sqrt(cs):
    f = S.gen.sqrt_pos
    v, tol = [x + 0.0 for x in cs['v']], cs['tol']
    args = (tol,)
    if cs['form'] == 'int':
        v = [float(int(x)) if abs(x) < 1e9 else 4.0 for x in v]
    if cs['form'] == 'dflt':
        tol, args = 0.0, ()
    if cs['shape']:
        x = np.array(v, dtype=np.int64 if cs['form'] == 'int' else np.float64).reshape(cs['shape'])
        arg = x.tolist() if cs['form'] == 'list' else x
    else:
        x = np.float64(v[0])
        arg = int(v[0]) if cs['form'] == 'int' else v[0] if cs['form'] != 'list' else np.float64(v[0])
    fz = Frozen(*([x] if cs['shape'] else []))
    bad = bool(np.any(x < -tol))
    if bad:
        rejects('value under minus the tolerance', f, arg, *args)
    else:
        out = arr(call(f, arg, *args), np.shape(x), 'root')
        exp = np.sqrt(np.maximum(np.asarray(x, dtype=float), 0.0))
        expect(np.all(np.abs(out - exp) <= 1e-15 * exp), 'the root of the positive part is wrong', x=x, got=out)
        if cs['shape']:
            for s, o in zip(np.asarray(x, dtype=float).ravel(), out.ravel()):
                expect(num(call(f, float(s), *args)) == o, 'scalars and arrays disagree', x=s)
    fz.check('sqrt_pos')
    rejects('negative tolerance', f, arg, -1e-12)
    return res(x.size > 0 and (bad or bool(np.any(np.asarray(x) != 0))), 'refused' if bad else 'ok', cs['form'],
               'negative' if np.any(np.asarray(x) < 0) else 'nonnegative')


facet(P, 'roots', gen_sqrt, chk_sqrt, 400,
      rule='scalars, lists, arrays of up to 3 axes with values at 0.3..2 tolerances below zero; non-trivial: nonzero values')


# ---------------------------------------------------------------- mat_dot
def gen_dot(d):
    n = d.int(1, d.sz(5, 8, 60))
    sh = d.layout([[], [], [1], [3], [2, 2]], 40)
    k = int(np.prod(sh)) if sh else 1
    return {'n': n, 'sh': sh, 'a': d.mat(k, n * n), 'b': d.mat(k, n * n), 'ints': d.bool(), 'list': d.chance(20),
            'lay': [d.choice(LAYOUTS), d.choice(LAYOUTS)]}


def chk_dot(cs):
    f = S.gen.mat_dot
    n, sh = cs['n'], cs['sh']

    def mk(v):
        v = np.array(v)
        if cs['ints']:
            v = np.round(v)
        return np.moveaxis(v.reshape(sh + [n, n]) if sh else v.reshape(n, n), (-2, -1), (0, 1))
    a, b = layout(mk(cs['a']), cs['lay'][0]), layout(mk(cs['b']), cs['lay'][1])
    fz = Frozen(a, b)
    k = int(np.prod(sh)) if sh else 1
    args = (a.tolist(), b.tolist()) if cs['list'] else (a, b)
    out = flat(call(f, *args), k, 'inner products')
    fz.check('mat_dot')
    aa, bb = a.reshape(n, n, -1), b.reshape(n, n, -1)
    exp = [np.trace(aa[:, :, i].T @ bb[:, :, i]) / n for i in range(k)]
    close(out, exp, 1e-13 * n * scale_of(a) * scale_of(b), 'the inner products are not the normalised traces')
    close(flat(call(f, b, a), k), out, 1e-13 * n * scale_of(a) * scale_of(b), 'the inner product is not symmetric')
    if n > 1:
        rejects('not square', f, a[:, :-1], b[:, :-1])
        rejects('not square', f, a[:-1], b[:-1])
        rejects('different sizes', f, a, b[:-1, :-1])
    rejects('different sizes', f, a, np.stack([b, b], -1))
    return res(n > 1, 'axes%d' % (2 + len(sh)), 'list' if cs['list'] else 'array')


facet(P, 'inner_products', gen_dot, chk_dot, 250,
      rule='matrices and stacks over up to two extra axes; non-trivial: dimension above one')
