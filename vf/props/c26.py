"""C26: tolerance-aware comparison of arrays and dictionaries."""
import copy
import warnings
from vf.registry import facet
from vf.oracle import *

P = 'C26'
ABS = [0.0, 0.0, 1e-12, 1e-7, 1e-3, 0.5, 2.0]
REL = [None, None, 0.0, 1e-10, 1e-6, 1e-2, 0.5]
SPECIAL = {'nan': float('nan'), 'inf': float('inf'), '-inf': float('-inf')}


def fl(x):
    return SPECIAL[x] if isinstance(x, str) else x


# ---------------------------------------------------------------- abs_rel_compare
def gen_num(d, dt):
    if dt == 'bool':
        return d.int(0, 1)
    if dt in ('uint8', 'uint64', 'uint32'):
        return d.int(0, 200)
    if dt in ('int8', 'int64', 'int32'):
        return d.int(-100, 100)
    return d.choice([d.real(-5, 5), d.real(-5, 5) * 10.0 ** d.int(-6, 8), 0.0])


DTS = ['float64'] * 6 + ['int64', 'int32', 'int8', 'uint8', 'uint64', 'bool', 'complex128']


def gen_cmp(d):
    shape = d.choice([[0], [1], [3], [2, 2], [1, 4], [2, 3], [3, 1], [2, 1, 2], [], [2, 0]]) if d.lvl < 2 else [d.int(1, 40), d.int(1, 20)]
    n = int(np.prod(shape)) if shape else 1
    dt = d.choice(DTS)
    dt2 = dt if d.chance(75) else d.choice(DTS)
    a, r = d.choice(ABS), d.choice(REL)
    x, y = [], []
    for _ in range(n):
        u = gen_num(d, dt)
        k = d.int(0, 9)
        v = u
        if k >= 6 and dt == dt2 and dt in ('float64', 'complex128'):
            f = d.choice([0.3, 0.9, 1.1, 3.0])
            base = a if (d.bool() or not r) else r * abs(u)
            v = u + d.choice([1, -1]) * f * (base if base else 1e-3)
        elif k >= 8 or dt != dt2:
            v = gen_num(d, dt2)
            if dt != dt2 and d.bool() and dt2 in ('float64', 'complex128'):
                v = float(u)
        x.append(u)
        y.append(v)
    for v in (x, y):
        if dt == dt2 and dt in ('float64', 'complex128') and n and d.chance(15):
            v[d.int(0, n - 1)] = d.choice(['nan', 'inf', '-inf'] if dt == 'float64' else ['nan'])
    if n and dt == dt2 == 'float64' and d.chance(30):
        i = d.int(0, n - 1)
        x[i] = y[i] = d.choice(['nan', 'inf', '-inf'])
    im = [d.choice([0.0, 1.0, -2.0]) for _ in range(2 * n)] if 'complex128' in (dt, dt2) else None
    return {'shape': shape, 'dt': dt, 'dt2': dt2, 'x': x, 'y': y, 'im': im, 'a': a, 'r': r,
            'norm': d.choice(['abs', 'abs', 'abs', 'row', 'twice'])}


def mk(v, dt, shape, im):
    a = [fl(t) for t in v]
    if dt == 'complex128' and im is not None:
        a = [complex(t, i) if np.isfinite(t) else complex(t, 0) for t, i in zip(a, im)]
    return np.array(a, dtype=dt).reshape(shape)


def norm_op(name):
    if name == 'row':
        return lambda z: np.sqrt(np.sum(np.abs(z) ** 2, axis=-1))
    if name == 'twice':
        return lambda z: 2.0 * np.abs(z)
    return lambda z: np.abs(z)


def ref_compare(x, y, a, r, f, exact=False):
    """(equal or None if too close to call, places of nonfinite values agree, diffs, rel diffs)."""
    x = x.astype(np.complex128) if x.dtype.kind == 'c' else x.astype(np.float64)
    y = y.astype(np.complex128) if y.dtype.kind == 'c' else y.astype(np.float64)

    def cls(z):
        z = z.real if z.dtype.kind == 'c' else z
        return np.where(np.isnan(z), 2, np.where(np.isposinf(z), 1, np.where(np.isneginf(z), -1, 0)))
    if not np.array_equal(cls(x), cls(y)):
        return False, False, None, None
    fin = cls(x) == 0
    x, y = np.where(fin, x, 0), np.where(fin, y, 0)
    if x.size == 0:
        return True, True, np.array([]), np.array([])
    df, sm = np.atleast_1d(f(x - y)), np.atleast_1d(f(x) + f(y))
    eq, unclear = True, False
    rel = []
    for u, s in zip(df.ravel(), sm.ravel()):
        eps = 1e-15 * s
        if abs(u - a) <= eps and u != a:
            unclear = True
        if u <= a:
            continue
        q = 2.0 * u / s
        rel.append((q, u))
        if r is None:
            eq = False
        elif abs(q - r) <= 1e-13 * max(q, r) and not (exact and q == r):
            unclear = True
        elif q > r:
            eq = False
    return (None if unclear else eq), True, df, rel


def chk_cmp(cs):
    g = S.common
    n = int(np.prod(cs['shape'])) if cs['shape'] else 1
    im = cs['im']
    x = mk(cs['x'], cs['dt'], cs['shape'], im[:n] if im else None)
    y = mk(cs['y'], cs['dt2'], cs['shape'], im[n:] if im and cs['x'] != cs['y'] else (im[:n] if im else None))
    a, r = cs['a'], cs['r']
    name = cs['norm'] if cs['shape'] and n else 'abs'
    f = norm_op(name)
    x0, y0 = x.copy(), y.copy()
    exp, fin, df, rel = ref_compare(x, y, a, r, f, cs.get('exact', False))
    outs = [call(g.abs_rel_compare, p, q, a, r, f) for p, q in ((x, y), (y, x))]
    expect(np.array_equal(x, x0, equal_nan=True) and np.array_equal(y, y0, equal_nan=True), 'an argument is modified')
    for o in outs:
        eq, ad, trig, rd, mrd, rep_ = pair(o, 6, 'comparison')
        eq, trig = boolean(eq, 'equality'), boolean(trig, 'relative flag')
        expect(isinstance(rep_, str), 'the report is not a string', got=rep_)
        expect(bool(rep_) == (not eq), 'a report must accompany exactly an inequality', equal=eq, report=rep_)
        if exp is not None:
            expect(eq == exp, 'equality is decided wrongly', got=eq, x=x, y=y, abs_tol=a, rel_tol=r)
        if not fin or exp is None:
            continue
        if df.size == 0:
            expect(np.size(ad) == 0, 'a difference of empty arrays is reported', got=ad)
            continue
        close(num(ad, 'absolute difference'), np.max(df), 1e-14 * np.max(df), 'the absolute difference is not the true one')
        expect(trig == (r is not None and len(rel) > 0), 'the relative comparison flag is wrong', got=trig)
        if trig:
            q = max(t[0] for t in rel)
            close(num(rd, 'relative difference'), q, 1e-12 * q, 'the relative difference is not the true one')
            cand = [u for t, u in rel if t >= q * (1 - 1e-12)]
            m = num(mrd, 'absolute difference there')
            expect(any(abs(m - u) <= 1e-13 * u for u in cand), 'the difference at the largest relative one is wrong', got=m,
                   expected=cand)
    for p in (x, y):
        expect(boolean(pair(call(g.abs_rel_compare, p, p.copy(), 0.0, None, f), 6)[0]), 'an array is not equal to its copy', arr=p)
    nt = bool(df is None or (df.size and np.any(df > 0)))
    return res(nt, cs['dt'], 'equal' if exp else 'unclear' if exp is None else 'different', name, 'rel' if r is not None else 'abs')


def fixed_cmp():
    # differences exactly equal to the tolerance (all quantities are exact in binary)
    out = []
    for dt in ('float64', 'int64', 'uint8'):
        for shape in ([1], [3], [2, 2]):
            n = int(np.prod(shape))
            for norm in ('abs', 'twice'):
                for x, y, a, r in ((5, 3, 2.0, None), (5, 3, 4.0, None), (5, 3, 0.0, 0.5), (5, 3, 1.0, 0.5), (5, 3, 0.5, 0.25), (3, 1, 0.0, 1.0), (12, 4, 0.25, 1.0),
                                   (9, 7, 1.0, 0.25), (9, 7, 0.0, 0.125), (9, 7, 2.0, 0.125), (9, 7, 4.0, 0.125), (0, 4, 1.0, 2.0), (0, 4, 4.0, 2.0)):
                    out.append({'x': [float(x)] * n, 'y': [float(y)] + [float(x)] * (n - 1), 'shape': shape, 'dt': dt, 'dt2': dt, 'a': a, 'r': r, 'im': None,
                                'norm': norm, 'exact': True})
    return out


facet(P, 'arrays', gen_cmp, chk_cmp, 700,
      rule='floating, integer, unsigned, boolean and complex arrays up to 3 axes, differences at 0.3..3 tolerances, NaNs and '
           'infinities, three norms; differences of exactly one tolerance in exact numbers; non-trivial: some difference', fixed=fixed_cmp)


def gen_badargs(d):
    return {'x': d.vec(d.int(1, 4)), 'k': d.int(0, 11)}


def chk_badargs(cs):
    g = S.common
    x = A(cs['x'])
    f = lambda z: np.abs(z)
    bad = [
        ('different sizes', (x, np.append(x, 1.0), 0.1, None, f)),
        ('different shapes', (x, x[None, :], 0.1, None, f)),
        ('nonnumeric', (np.array(['a'] * x.size), np.array(['a'] * x.size), 0.1, None, f)),
        ('nonnumeric right', (x, np.array([None] * x.size), 0.1, None, f)),
        ('negative abs_tol', (x, x, -1e-9, None, f)), ('no abs_tol', (x, x, None, None, f)),
        ('vector abs_tol', (x, x, np.array([0.1, 0.2]), None, f)), ('complex abs_tol', (x, x, 1j, None, f)),
        ('negative rel_tol', (x, x, 0.1, -1e-9, f)), ('vector rel_tol', (x, x, 0.1, np.array([0.1, 0.2]), f)),
        ('complex rel_tol', (x, x, 0.1, 1 + 1j, f)), ('norm is no function', (x, x, 0.1, 0.1, 'abs')),
    ]
    what, args = bad[cs['k']]
    rejects(what, g.abs_rel_compare, *args)
    return res(True, what)


facet(P, 'arrays_refusals', gen_badargs, chk_badargs, 60, rule='12 kinds of invalid arguments; all non-trivial')


# ---------------------------------------------------------------- dictionaries
KEYS = ['a', 'b', 'c', 'key', 'x1']


def gen_val(d, depth):
    k = d.int(0, 16) if depth > 0 else d.int(0, 9)
    if k <= 2:
        return ['float', gen_num(d, 'float64') if d.chance(90) else d.choice(['nan', 'inf', '-inf'])]
    if k == 3:
        return ['int', d.int(-9, 9)]
    if k == 4:
        return ['str', d.text('ab', 0, 3)]
    if k == 5:
        return d.choice([['bool', True], ['bool', False], ['none', None]])
    if k in (6, 7):
        shape = d.choice([[2], [3], [2, 2], [1], [0], [2, 3]])
        n = int(np.prod(shape))
        dt = d.choice(['float64', 'float64', 'int64', 'bool', 'uint8'])
        return ['arr', dt, shape, [gen_num(d, dt) if not (dt == 'float64' and d.chance(6)) else 'nan' for _ in range(n)]]
    if k == 8:
        shape = d.choice([[2], [1], [3], [2, 2], [0]])
        return ['sarr', shape, [d.text('ab', 0, 2) for _ in range(int(np.prod(shape)))]]
    if k == 9:
        return ['npint', d.choice(['int64', 'uint64', 'int32']), d.int(0, 9)]
    if k in (10, 11, 12):
        return ['list', [gen_val(d, depth - 1) for _ in range(d.int(0, 3))]]
    if k in (13, 14):
        return gen_dict(d, depth - 1)
    if k == 16:  # an array holding dictionaries and other values
        shape = d.choice([[2], [3], [1, 2], [2, 2], [1]])
        return ['oarr', shape, [gen_dict(d, depth - 1, 2) if d.bool() else d.choice([['str', d.text('ab', 0, 2)], ['int', d.int(-3, 3)],
                                ['none', None], ['float', gen_num(d, 'float64')]]) for _ in range(int(np.prod(shape)))]]
    shape = d.choice([[1], [2], [1, 2], [2, 1], [3]])
    return ['darr', shape, [gen_dict(d, depth - 1, 2) for _ in range(int(np.prod(shape)))]]


def gen_dict(d, depth, most=3):
    return ['dict', [[k, gen_val(d, depth)] for k in KEYS if d.chance(35)][:most]]


def nodes(v, path=()):
    out = [(path, v)]
    if v[0] == 'list':
        for i, x in enumerate(v[1]):
            out += nodes(x, path + (1, i))
    elif v[0] == 'dict':
        for i, (k, x) in enumerate(v[1]):
            out += nodes(x, path + (1, i, 1))
    elif v[0] in ('darr', 'oarr'):
        for i, x in enumerate(v[2]):
            out += nodes(x, path + (2, i))
    return out


def put(root, path, val):
    if not path:
        return val
    cur = root
    for p in path[:-1]:
        cur = cur[p]
    cur[path[-1]] = val
    return root


def mutate(d, v, a, r):
    """A slightly different value (or nearly the same)."""
    v = copy.deepcopy(v)
    k = v[0]
    if k == 'float' and not isinstance(v[1], str):
        m = d.int(0, 4)
        if m == 0:
            v[1] = d.choice(['nan', 'inf', '-inf'])
        elif m == 1:
            return ['int', int(v[1]) if abs(v[1]) < 1e9 else 1]
        else:
            base = a if (d.bool() or not r) else r * abs(v[1])
            v[1] = v[1] + d.choice([1, -1]) * d.choice([0.3, 0.9, 1.1, 3.0]) * (base if base else 1e-3)
        return v
    if k == 'float':
        v[1] = d.choice(['nan', 'inf', '-inf', 1.0])
        return v
    if k == 'int':
        return d.choice([['int', v[1] + 1], ['float', float(v[1])], ['str', str(v[1])], ['npint', 'int64', abs(v[1])]])
    if k == 'str':
        return d.choice([['str', v[1] + 'a'], ['str', 'b'], ['none', None], ['list', [['str', v[1]]]]])
    if k in ('bool', 'none'):
        return d.choice([['bool', not v[1]], ['int', 1], ['none', None]])
    if k == 'npint':
        return d.choice([['npint', v[1], v[2] + 1], ['npint', 'int32' if v[1] == 'int64' else 'int64', v[2]], ['int', v[2]]])
    if k == 'arr':
        m = d.int(0, 4)
        n = len(v[3])
        if m == 0 and n:
            v[2] = [1] + v[2]
        elif m == 1:
            v[1] = d.choice(['float64', 'int64', 'bool', 'uint8'])
            v[3] = [int(bool(x)) if not isinstance(x, str) else 1 for x in v[3]]
        elif m == 2 and len(v[2]) == 1:
            v[2] = [n + 1]
            v[3] = v[3] + [1]
        elif n:
            i = d.int(0, n - 1)
            x = v[3][i]
            if v[1] == 'float64' and not isinstance(x, str):
                v[3][i] = 'nan' if d.chance(20) else x + d.choice([0.3, 0.9, 1.1, 3.0]) * (a if a else 1e-3)
            elif v[1] == 'bool':
                v[3][i] = 1 - x
            elif not isinstance(x, str):
                v[3][i] = x + 1
        return v
    if k == 'sarr':
        m = d.int(0, 2)
        if m == 0 and len(v[1]) == 1:
            return ['sarr', [v[1][0] + 1], v[2] + ['b']]
        if m == 1 and len(v[1]) == 1 and v[1][0] > 1:
            return ['sarr', [v[1][0] - 1], v[2][:-1]]
        if v[2]:
            i = d.int(0, len(v[2]) - 1)
            v[2][i] = v[2][i] + 'a'
        return v
    if k == 'list':
        m = d.int(0, 2)
        if m == 0 or not v[1]:
            v[1].append(['int', 0])
        elif m == 1:
            v[1].pop(d.int(0, len(v[1]) - 1))
        else:
            v[1].insert(0, ['str', ''])
        return v
    if k == 'dict':
        if v[1] and d.bool():
            if d.bool():
                v[1].pop(d.int(0, len(v[1]) - 1))
            else:
                v[1].reverse()
        else:
            v[1].append(['zz', ['int', 0]])
        return v
    if k == 'oarr':
        m = d.int(0, 3)
        if m == 0:
            v[1] = [1] + v[1]
        elif m == 1:
            v[2][d.int(0, len(v[2]) - 1)] = d.choice([['str', 'q'], ['int', 7], ['dict', []]])
        elif m == 2:
            v[2][0] = ['dict', [['a', ['int', 1]]]] if v[2][0][0] != 'dict' else ['none', None]
        return v
    if k == 'darr':
        m = d.int(0, 2)
        if m == 0:
            return ['darr', [1] + v[1], v[2]]
        if m == 1 and len(v[1]) == 1:
            return ['darr', [v[1][0] + 1], v[2] + [['dict', []]]]
        return ['list', v[2]]
    return v


def build(v):
    k = v[0]
    if k in ('float', 'int', 'str', 'bool', 'none'):
        return fl(v[1]) if k == 'float' else v[1]
    if k == 'npint':
        return getattr(np, v[1])(v[2])
    if k == 'arr':
        return np.array([fl(x) for x in v[3]], dtype=v[1]).reshape(v[2])
    if k == 'sarr':
        return np.array(v[2], dtype='<U4').reshape(v[1])
    if k == 'list':
        return [build(x) for x in v[1]]
    if k == 'dict':
        return {kk: build(x) for kk, x in v[1]}
    return obj_array([build(x) for x in v[2]], v[1])


def num_eq(x, y, a, r):
    e, _, _, _ = ref_compare(np.array(x), np.array(y), a, r, norm_op('abs'))
    return e


def ref_eq(x, y, a, r):
    """True / False / None (too close to call)."""
    if 'darr' in (x[0], y[0]) and 'oarr' in (x[0], y[0]):  # both are arrays of objects
        x, y = ['oarr'] + x[1:], ['oarr'] + y[1:]
    if x[0] != y[0]:
        return False
    k = x[0]
    if k == 'float':
        return num_eq(fl(x[1]), fl(y[1]), a, r)
    if k in ('int', 'bool'):
        return num_eq(x[1], y[1], a, r)
    if k in ('str', 'none'):
        return x[1] == y[1]
    if k == 'npint':
        return x[1] == y[1] and num_eq(x[2], y[2], a, r)
    if k == 'arr':
        if np.dtype(x[1]).kind != np.dtype(y[1]).kind or x[2] != y[2]:
            return False
        return num_eq([fl(t) for t in x[3]], [fl(t) for t in y[3]], a, r) if x[3] else True
    if k == 'sarr':
        return x[1] == y[1] and x[2] == y[2]
    if k == 'list':
        if len(x[1]) != len(y[1]):
            return False
        return every(ref_eq(p, q, a, r) for p, q in zip(x[1], y[1]))
    if k in ('darr', 'oarr'):
        if x[1] != y[1]:
            return False
        return every(ref_eq(p, q, a, r) for p, q in zip(x[2], y[2]))
    dx, dy = dict((k, v) for k, v in x[1]), dict((k, v) for k, v in y[1])
    if set(dx) != set(dy):
        return False
    return every(ref_eq(dx[k], dy[k], a, r) for k in dx)


def every(it):
    ans = True
    for x in it:
        if x is False:
            return False
        if x is None:
            ans = None
    return ans


def gen_dicts(d):
    a, r = d.choice(ABS), d.choice(REL)
    top = d.choice(['dict', 'dict', 'list', 'darr'])
    depth = 3 if d.big else 2
    if top == 'dict':
        x = gen_dict(d, depth)
    elif top == 'list':
        x = ['list', [gen_dict(d, depth - 1) for _ in range(d.int(0, 3))]]
    else:
        shape = d.choice([[1], [2], [2, 1], [1, 2], [2, 2]])
        x = ['darr', shape, [gen_dict(d, depth - 1) for _ in range(int(np.prod(shape)))]]
    y = copy.deepcopy(x)
    for _ in range(d.int(0, 2)):
        cand = [(p, v) for p, v in nodes(y) if p and not (v[0] == 'dict' and len(p) == 2 and top in ('list', 'darr') and False)]
        if top != 'dict' and d.chance(20):
            cand = []
        if not cand:
            if top == 'list':
                y[1].append(['dict', []]) if d.bool() or not y[1] else y[1].pop()
            elif top == 'dict':
                y = mutate(d, y, a, r)
            elif len(y[1]) == 1:
                y = ['darr', [y[1][0] + 1], y[2] + [['dict', []]]]
            continue
        p, v = d.choice(cand)
        if len(p) == 2 and top in ('list', 'darr'):
            v2 = mutate(d, v, a, r) if v[0] == 'dict' else v
        else:
            v2 = mutate(d, v, a, r)
        y = put(y, p, v2)
    return {'x': x, 'y': y, 'a': a, 'r': r}


def size_of(v):
    return len(nodes(v))


def chk_dicts(cs):
    f = S.dict.dict_compare
    a, r = cs['a'], cs['r']
    x, y = build(cs['x']), build(cs['y'])
    exp = ref_eq(cs['x'], cs['y'], a, r)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        for p, q, e in ((x, y, exp), (y, x, exp), (x, build(cs['x']), True), (y, y, True)):
            eq, rep_ = pair(call(f, p, q, a, r), 2, 'comparison')
            eq = boolean(eq, 'equality')
            expect(isinstance(rep_, str), 'the report is not a string', got=rep_)
            if e is None:
                continue
            expect(eq == e, 'equality of dictionaries is decided wrongly', got=eq, expected=e, left=p, right=q, abs_tol=a,
                   rel_tol=r, report=rep_)
            expect(bool(rep_) == (not eq), 'a report must accompany exactly an inequality', equal=eq, report=rep_)
        if a == 0 and r is None and exp is not None:
            expect(boolean(pair(call(f, x, y), 2)[0]) == exp, 'the default tolerances are not zero')
        # element-wise form
        if cs['x'][0] == 'darr' and cs['y'][0] == 'darr':
            eqs, rep_ = pair(call(S.dict.dict_compare_vec, x, y, a, r), 2, 'element-wise comparison')
            if cs['x'][1] != cs['y'][1]:
                expect(not np.any(np.asarray(eqs)) and rep_, 'arrays of different sizes are equal', got=eqs)
            else:
                got = [bool(t) for t in np.asarray(eqs).ravel()]
                want = [ref_eq(p, q, a, r) for p, q in zip(cs['x'][2], cs['y'][2])]
                expect(len(got) == len(want) and all(w is None or w == t for w, t in zip(want, got)),
                       'element-wise equality is decided wrongly', got=got, expected=want)
    return res(size_of(cs['x']) > 2, cs['x'][0], 'equal' if exp else 'unclear' if exp is None else 'different',
               'rel' if r is not None else 'abs')


facet(P, 'dictionaries', gen_dicts, chk_dicts, 900,
      rule='nested dictionaries, lists, arrays of numbers, strings and dictionaries with up to two edits each; non-trivial: '
           'more than two values',
      fixed=lambda: [
          {'x': ['dict', [['a', ['list', [['int', 1], ['int', 2]]]]]], 'y': ['dict', [['a', ['list', [['int', 1]]]]]], 'a': 0.0, 'r': None},
          {'x': ['list', []], 'y': ['list', []], 'a': 0.0, 'r': None},
          {'x': ['dict', [['a', ['bool', True]]]], 'y': ['dict', [['a', ['bool', False]]]], 'a': 0.0, 'r': None},
          {'x': ['dict', [['a', ['sarr', [2], ['a', 'b']]]]], 'y': ['dict', [['a', ['sarr', [1], ['a']]]]], 'a': 0.0, 'r': None},
          {'x': ['dict', [['a', ['list', [['arr', 'float64', [2, 3], [0.0] * 6], ['arr', 'float64', [2, 2], [0.0] * 4]]]]]],
           'y': ['dict', [['a', ['list', [['arr', 'float64', [2, 3], [0.0] * 6], ['arr', 'float64', [2, 2], [0.0] * 4]]]]]],
           'a': 0.0, 'r': None},
          {'x': ['dict', [['a', ['oarr', [2], [['dict', [['b', ['int', 1]]]], ['str', 'q']]]]]],
           'y': ['dict', [['a', ['oarr', [2], [['dict', [['b', ['int', 1]]]], ['str', 'q']]]]]], 'a': 0.0, 'r': None},
          {'x': ['dict', [['a', ['oarr', [2], [['dict', [['b', ['int', 1]]]], ['str', 'q']]]]]],
           'y': ['dict', [['a', ['darr', [2], [['dict', [['b', ['int', 1]]]], ['dict', []]]]]]], 'a': 0.0, 'r': None}])


def gen_baddict(d):
    return {'x': gen_dict(d, 1), 'k': d.int(0, 8)}


def chk_baddict(cs):
    f = S.dict.dict_compare
    x = build(cs['x'])
    bad = [None, 5, 'abc', (x,), np.array([1.0, 2.0]), [1, 2], ['a'], {1, 2}, np.array(['a'])]
    b = bad[cs['k']]
    rejects('not a dictionary on the left', f, b, x)
    rejects('not a dictionary on the right', f, x, b)
    return res(True, type(b).__name__)


facet(P, 'dictionaries_refusals', gen_baddict, chk_baddict, 60, rule='9 kinds of invalid arguments on both sides; all non-trivial')


# ---------------------------------------------------------------- large structures
def gen_large(d):
    kind = d.choice(['keys', 'list', 'deep', 'darr', 'arr', 'lists'])
    n = d.int(2, 40) if kind == 'deep' else d.choice([d.int(5, 40), d.int(30, 150), d.int(100, 400)])
    return {'kind': kind, 'n': n, 'at': [d.int(0, n - 1) for _ in range(d.choice([0, 1, 1, 1, 2]))],
            'by': d.choice([2.0, 1.1]), 'below': d.int(0, n - 1), 'a': d.choice([1e-3, 0.5]), 'near': d.choice([0.0, 0.5, 0.9])}


def build_large(cs, changed):
    kind, n, a = cs['kind'], cs['n'], cs['a']
    v = [float(i % 7) for i in range(n)]
    if changed:
        v[cs['below']] += cs['near'] * a
        for i in cs['at']:
            v[i] = i % 7 + cs['by'] * a
    if kind == 'keys':
        return {'k%d' % i: x for i, x in enumerate(v)}
    if kind == 'list':
        return {'u': 1.0, 'v': list(v)}
    if kind == 'lists':
        return {'u': [[x, 'w'] for x in v]}
    if kind == 'deep':
        out = {'leaf': v[-1]}
        for x in v[:-1][::-1]:
            out = {'x': x, 'in': out}
        return out
    if kind == 'darr':
        return [{'x': x, 'y': 'q'} for x in v]
    return {'z': np.array(v)}


def chk_large(cs):
    f = S.dict.dict_compare
    x, y = build_large(cs, False), build_large(cs, True)
    e = not cs['at']
    for p, q, want in ((x, y, e), (y, x, e), (y, build_large(cs, True), True)):
        eq, rep_ = pair(call(f, p, q, cs['a'], None), 2, 'comparison')
        eq = boolean(eq, 'equality')
        expect(eq == want, 'equality of large structures is decided wrongly', got=eq, expected=want, at=cs['at'])
        expect(isinstance(rep_, str) and bool(rep_) == (not eq), 'a report must accompany exactly an inequality', report=rep_)
    return res(True, cs['kind'], 'equal' if e else 'different')


facet(P, 'large', gen_large, chk_large, 100,
      rule='dictionaries of up to 400 keys, lists and arrays of up to 400 elements, nesting up to 40 levels, with zero to two '
           'places beyond and one within the tolerance; all non-trivial')
