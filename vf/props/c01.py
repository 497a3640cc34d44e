"""C01: construction accepts exactly the valid ellipsoids and hyperplanes and reports what it was given."""
from vf.registry import facet
from vf.oracle import *

P = 'C01'
DEF = {'abs_tol': 1e-6, 'rel_tol': 1e-5, 'n_plot_2d_points': 200, 'n_plot_3d_points': 200}


def gen_props(d, for_hyp=False):
    p = {}
    if d.chance(60):
        p['abs_tol'] = d.choice([1e-6, 1e-3, 1e-8, 1e-2, 2.5e-5])
    if d.chance(40):
        p['rel_tol'] = d.choice([1e-4, 1e-2, 0.5, 1e-9])
    if not for_hyp:
        if d.chance(30):
            p['n_plot_2d_points'] = d.int(1, 500)
        if d.chance(30):
            p['n_plot_3d_points'] = d.int(1, 500)
    return p


def vec_layout(v, lay):
    a = np.array(v)
    if lay == 'col':
        return a.reshape(-1, 1)
    if lay == 'row':
        return a.reshape(1, -1)
    if lay == 'deep':
        return a.reshape(1, 1, -1)
    return a


def check_props(o, cls, p):
    for name in ('abs_tol', 'rel_tol') + (('n_plot_2d_points', 'n_plot_3d_points') if cls is S.Ellipsoid else ()):
        exp = p.get(name, DEF[name])
        got = num(call(cls.get_property, [o], name, None), name)
        expect(got == exp, 'object reports a wrong ' + name, got=got, expected=exp)
    t, agg = pair(call(cls.get_abs_tol, [o]), 2)
    expect(num(t) == p.get('abs_tol', DEF['abs_tol']) and num(agg) == num(t), 'get_abs_tol is wrong', got=(t, agg))
    t, agg = pair(call(cls.get_rel_tol, [o]), 2)
    expect(num(t) == p.get('rel_tol', DEF['rel_tol']) and num(agg) == num(t), 'get_rel_tol is wrong', got=(t, agg))


def check_ell(o, c, q, p):
    c = np.asarray(c, dtype=float)
    q = np.asarray(q, dtype=float)
    if not isinstance(o, S.Ellipsoid):
        fail('no ellipsoid was created', value=o)
    for name in ('double', 'parameters'):
        gc, gq = pair(call(getattr(o, name)), 2)
        expect(np.array_equal(arr(gc, c.shape, 'centre'), c), name + ' reports another centre', got=gc, expected=c)
        expect(np.array_equal(arr(gq, q.shape, 'shape'), q), name + ' reports another shape', got=gq, expected=q)
    expect(np.array_equal(arr(call(o.get_center_vec), c.shape), c), 'get_center_vec differs', got=o.get_center_vec())
    expect(np.array_equal(arr(call(o.get_shape_mat), q.shape), q), 'get_shape_mat differs', got=o.get_shape_mat())
    check_props(o, S.Ellipsoid, p)
    expect(isinstance(call(str, o), str), 'str() fails')


# ---- valid ellipsoids
def gen_valid(d):
    n = d.int(0, d.sz(6, 10, 24))
    p = gen_props(d)
    tol = p.get('abs_tol', DEF['abs_tol'])
    kind = d.choice(['exact', 'exact', 'asym', 'neg', 'cimag', 'qimag', 'int', 'scaled'])
    q = d.psd(n) if n else []
    c = d.vec(n, -100, 100)
    case = {'n': n, 'p': p, 'kind': kind, 'q': q, 'c': c, 'lay': d.choice(['flat', 'col', 'row', 'deep']),
            'args': d.choice(['cq', 'cq', 'q']), 'frac': d.choice([0.5, 0.9, 0.1]), 'order': d.choice(['C', 'F'])}
    if n == 0:
        case['kind'] = 'exact'
        case['args'] = d.choice(['none', 'cq0'])
        case['lay'] = 'flat'
        return case
    if kind == 'asym' and n > 1:
        i = d.int(1, n - 1)
        case['ij'] = [i, d.int(0, i - 1)]
        case['up'] = d.bool()
        case['q'] = d.spd(n, 0.5, 10)
    elif kind == 'neg':
        # smallest eigenvalue a fraction of the tolerance below zero (diagonal keeps it exact)
        from vf.draws import diag
        v = [d.pos(0.5, 5) for _ in range(n)]
        v[d.int(0, n - 1)] = -tol * case['frac']
        case['q'] = diag(v)
    elif kind == 'scaled':
        # finite data of any magnitude: powers of two keep the matrix well conditioned
        case['q'] = d.spd(n, 0.5, 10)
        case['qe'] = d.choice([d.int(-1000, 1000), d.int(-60, 60), d.int(500, 1000)])
        case['ce'] = d.choice([d.int(-1000, 1000), d.int(-60, 60), d.int(500, 1000)])
    elif kind in ('cimag', 'qimag'):
        case['k'] = d.int(0, n - 1)
        if case['lay'] == 'deep':  # complex centres are taken as plain vectors only
            case['lay'] = 'flat'
    elif kind == 'int':
        f = d.imat(n, n, -2, 2)
        case['q'] = [[sum(f[i][k] * f[j][k] for k in range(n)) for j in range(n)] for i in range(n)]
        case['c'] = d.ivec(n)
    return case


def chk_valid(cs):
    n = cs['n']
    tol = cs['p'].get('abs_tol', DEF['abs_tol'])
    E = S.Ellipsoid
    if n == 0:
        if cs['args'] == 'none':
            o = call(E, **cs['p'])
        else:
            o = call(E, np.zeros((0,)), np.zeros((0, 0)), **cs['p'])
        check_ell(o, np.zeros((0,)), np.zeros((0, 0)), cs['p'])
        return res(True, 'empty')
    q = np.array(M(cs['q']), order=cs['order'])
    c = A(cs['c'])
    qi, ci = q.copy(), c.copy()
    kind = cs['kind']
    if kind == 'asym' and n > 1:
        i, j = cs['ij']
        qi[(i, j) if cs['up'] else (j, i)] += tol * cs['frac']
        q = qi.copy()
    elif kind == 'cimag':
        ci = c + 0j
        ci[cs['k']] += 1j * tol * cs['frac']
    elif kind == 'qimag':
        qi = q + 0j
        qi[cs['k'], cs['k']] += 1j * tol * cs['frac']
    elif kind == 'scaled':
        qi = q = q * 2.0 ** cs['qe']
        ci = c = c * 2.0 ** cs['ce']
    elif kind == 'int':
        qi = q.astype(int)
        ci = c.astype(int)
    if cs['args'] == 'q':
        o = call(E, qi, **cs['p'])
        check_ell(o, np.zeros(n), q, cs['p'])
    else:
        o = call(E, vec_layout(ci, cs['lay']), qi, **cs['p'])
        check_ell(o, c, q, cs['p'])
    return res(n > 1 or kind != 'exact', kind, cs['args'], cs['lay'])


facet(P, 'valid_ellipsoid', gen_valid, chk_valid, 700,
      rule='valid centre/shape specs, dimensions 0..6 (10), with asymmetry, negative eigenvalue or imaginary part at '
           '0.1-0.9 of the tolerance, integer dtype, magnitudes 2^-1000..2^1000, all layouts; non-trivial: n > 1 or a tolerance case')


# ---- invalid ellipsoids
def gen_invalid(d):
    n = d.int(1, 5)
    p = gen_props(d)
    kind = d.choice(['asym', 'indef', 'indef_full', 'nan_q', 'inf_q', 'nan_c', 'inf_c', 'nonsquare', 'vecshape', 'cube',
                     'mismatch', 'matcentre', 'cimag', 'qimag', 'textc', 'objc', 'asym1', 'nan_q1', 'big_indef',
                     'neg1', 'tallc'])
    cs = {'n': n, 'p': p, 'kind': kind, 'q': d.spd(n, 0.5, 5), 'c': d.vec(n), 'i': d.int(0, n - 1), 'j': d.int(0, n - 1),
          'fac': d.choice([2.0, 10.0, 1e3]), 'm': d.choice([-1, 1, 2]), 'sgn': d.choice([1.0, -1.0])}
    if kind in ('asym', 'asym1') and n == 1:
        cs['kind'] = 'indef'
    if cs['kind'] == 'asym' or cs['kind'] == 'asym1':
        cs['i'] = d.int(1, n - 1)
        cs['j'] = d.int(0, cs['i'] - 1)
    if kind == 'indef_full':
        eig = [d.pos(0.5, 5) for _ in range(n)]
        eig[0] = -d.pos(0.05, 5)
        cs['q'] = d.sym_eig(eig)
    if kind == 'big_indef':
        eig = [d.pos(5, 500) for _ in range(n)]
        eig[0] = -d.pos(0.05, 1)
        cs['q'] = d.sym_eig(eig)
    return cs


def chk_invalid(cs):
    n, kind, E, p = cs['n'], cs['kind'], S.Ellipsoid, cs['p']
    tol = p.get('abs_tol', DEF['abs_tol'])
    q, c = M(cs['q']), A(cs['c'])
    i, j, f, sg = cs['i'], cs['j'], cs['fac'], cs['sgn']
    one = False
    if kind in ('asym', 'asym1'):
        q[i, j] += sg * tol * f
        one = kind == 'asym1'
    elif kind in ('indef', 'neg1'):
        q = np.diag(np.diag(np.ones((n, n))) * 2.0)
        q[i, i] = -tol * f
        one = kind == 'neg1'
    elif kind in ('nan_q', 'nan_q1'):
        q[i, j] = q[j, i] = np.nan
        one = kind == 'nan_q1'
    elif kind == 'inf_q':
        q[i, j] = q[j, i] = sg * np.inf
    elif kind == 'nan_c':
        c[i] = np.nan
    elif kind == 'inf_c':
        c[i] = sg * np.inf
    elif kind == 'nonsquare':
        q = np.ones((n, n + 1))
        rejects('non-square shape', E, q, **p)
        rejects('non-square shape', E, q.T, **p)
    elif kind == 'vecshape':
        q = np.ones(n)
        one = True
    elif kind == 'cube':
        q = np.ones((n, n, n))
    elif kind == 'mismatch':
        m = n + cs['m'] if n + cs['m'] > 0 else n + 1
        c = np.ones(m)
    elif kind == 'matcentre':
        c = np.ones((2, 2))
        q = np.eye(4)
    elif kind == 'tallc':
        c = np.ones((n + 1, n + 1))
        q = np.eye((n + 1) ** 2)
    elif kind == 'cimag':
        c = c + 0j
        c[i] += 1j * tol * f * sg
    elif kind == 'qimag':
        q = q + 0j
        q[i, i] += 1j * tol * f * sg
        one = cs['j'] == 0
    elif kind == 'textc':
        c = np.array(['a'] * n)
    elif kind == 'objc':
        c = np.array([None] * n, dtype=object)
    if one:
        rejects(kind, E, q, **p)
    rejects(kind, E, c, q, **p)
    return res(True, kind)


facet(P, 'invalid_ellipsoid', gen_invalid, chk_invalid, 700,
      rule='one violated condition per case (asymmetry, negative eigenvalue, imaginary part at 2x..1000x the tolerance, '
           'non-finite entry, bad sizes, bad types); non-trivial: all')


# ---- hyperplanes
def gen_hyp(d):
    n = d.int(1, d.sz(7, 10, 40))
    return {'n': d.vec(n, -50, 50) if d.chance(90) else [0.0] * n, 's': d.real(-50, 50), 'p': gen_props(d, True),
            'lay': d.choice(['flat', 'col', 'row', 'deep']), 'sk': d.choice(['float', 'int', 'arr', 'arr2', 'omit', 'list']),
            'kind': d.choice(['plain', 'plain', 'int', 'complex0', 'scaled']),
            'e': [d.choice([d.int(-60, 60), d.int(500, 1000), d.int(-1000, 1000)]) for _ in range(2)]}


def chk_hyp(cs):
    H = S.Hyperplane
    n = A(cs['n'])
    s = float(cs['s'])
    sk = cs['sk']
    if sk == 'int':
        s = float(round(s))
    ni = n
    if cs['kind'] == 'int':
        n = np.round(n)
        ni = n.astype(int)
    elif cs['kind'] == 'complex0':
        ni = n + 0j
    elif cs['kind'] == 'scaled':
        n = ni = n * 2.0 ** cs['e'][0]
        s = s * 2.0 ** cs['e'][1] if sk not in ('int', 'omit') else s
    sv = {'float': s, 'int': int(s), 'arr': np.array([s]), 'arr2': np.array([[s]]), 'list': [s], 'omit': None}[sk] \
        if sk != 'int' else int(s)
    if sk == 'omit':
        s = 0.0
        o = call(H, vec_layout(ni, cs['lay']), **cs['p'])
    else:
        o = call(H, vec_layout(ni, cs['lay']), sv, **cs['p'])
    for name in ('double', 'parameters'):
        gn, gs = pair(call(getattr(o, name)), 2)
        expect(np.array_equal(arr(gn, n.shape, 'normal'), n), name + ' reports another normal', got=gn, expected=n)
        expect(num(gs) == s, name + ' reports another shift', got=gs, expected=s)
    check_props(o, H, cs['p'])
    if cs['kind'] != 'scaled' and (np.any(n != 0) or n.size == 1):
        expect(isinstance(call(str, o), str), 'str() fails')
    return res(n.size > 1, cs['kind'], sk)


facet(P, 'valid_hyperplane', gen_hyp, chk_hyp, 400,
      rule='normals of dimension 1..7 in every layout and dtype, shifts as number/array/list/default, magnitudes 2^-1000..2^1000; non-trivial: n > 1')


def gen_badhyp(d):
    n = d.int(1, 5)
    return {'kind': d.choice(['nan_n', 'inf_n', 'imag_n', 'mat', 'text', 'nan_s', 'inf_s', 'two_s', 'text_s', 'imag_s',
                              'none_s', 'empty_s']),
            'n': d.vec(n), 'i': d.int(0, n - 1), 's': d.real(-5, 5), 'sgn': d.choice([1.0, -1.0]),
            'eps': d.choice([1e-3, 1.0, 1e-9]), 'p': gen_props(d, True)}


def chk_badhyp(cs):
    H = S.Hyperplane
    n, s, k, i, sg = A(cs['n']), cs['s'], cs['kind'], cs['i'], cs['sgn']
    if k == 'nan_n':
        n[i] = np.nan
    elif k == 'inf_n':
        n[i] = sg * np.inf
    elif k == 'imag_n':
        n = n + 0j
        n[i] += sg * cs['eps'] * 1j
    elif k == 'mat':
        n = np.ones((2, 2))
    elif k == 'text':
        n = np.array(['a'] * n.size)
    elif k == 'nan_s':
        s = np.nan
    elif k == 'inf_s':
        s = sg * np.inf
    elif k == 'two_s':
        s = np.array([s, s])
    elif k == 'text_s':
        s = 'abc'
    elif k == 'imag_s':
        s = complex(s, sg * cs['eps'])
    elif k == 'none_s':
        s = None
    elif k == 'empty_s':
        s = np.zeros((0,))
    rejects('hyperplane ' + k, H, n, s, **cs['p'])
    return res(True, k)


facet(P, 'invalid_hyperplane', gen_badhyp, chk_badhyp, 240,
      rule='one violated condition per case; non-trivial: all')
