"""C03: support function values and boundary points."""
import math

from vf.registry import facet
from vf.oracle import *

P = 'C03'


def gen_ell(d, n, kinds='any'):
    k = d.int(0, 3) if kinds == 'any' else 1
    if k == 0:
        q = [[0.0] * n for _ in range(n)] if d.chance(20) else d.psd(n)
    elif k == 1:
        q = d.spd(n)
    elif k == 2:
        q = d.spd(n, 1e-3, 1e3)
    else:
        q = d.psd(n, d.int(0, n))
    return {'c': d.vec(n, -10, 10) if d.chance(80) else [0.0] * n, 'q': q}


def gen_dirs(d, n, k, ells=()):
    out = []
    for _ in range(k):
        t = d.int(0, 9)
        if t == 0 and n > 1:
            # tries to hit the kernel of integer-factor shapes: difference of axis vectors
            v = [0.0] * n
            i = d.int(0, n - 1)
            j = d.int(0, n - 1)
            v[i] += 1.0
            v[j] -= 1.0
        elif t == 1:
            v = [x * 1e3 for x in d.dirv(n)]
        elif t == 2:
            v = [x * 1e-3 for x in d.dirv(n)]
        else:
            v = d.dirv(n)
        out.append(v)
    return out


def check_value(c, q, l, sup, x, what):
    """sup and x must be the support value and a maximiser of <l,.> over E(c,q)."""
    n = c.size
    nl = np.linalg.norm(l)
    sq = max(1.0, float(np.max(np.abs(q))) if q.size else 1.0)
    lq = float(l @ q @ l)
    exact = supf(c, q, l)
    well = lq > 1e-7 * sq * nl * nl
    sc = (1.0 + np.sqrt(sq) + np.linalg.norm(c))
    tol = (1e-10 if well else 1e-6) * sc
    if not abs(sup - exact) <= tol * max(nl, 1e-9):
        fail('support value is wrong' + what, got=sup, expected=exact, direction=l, centre=c, shape=q)
    if not np.all(np.isfinite(x)):
        fail('boundary point is not finite' + what, got=x, direction=l, centre=c, shape=q)
    if not abs(float(l @ x) - exact) <= 10 * tol * max(nl, 1e-9):
        fail('boundary point does not attain the support value' + what, got=x, value=float(l @ x), expected=exact,
             direction=l, centre=c, shape=q)
    # membership: <m,x> <= rho(m) for the directions that matter
    w, v = np.linalg.eigh(q)
    y = x - c
    zinv = v @ ((v.T @ y) / np.maximum(w, 1e-9 * sq))
    for m in list(probe_dirs(n, 6, 3)) + [zinv / max(np.linalg.norm(zinv), 1e-300)] + [v[:, i] for i in range(n)] + \
            [-v[:, i] for i in range(n)]:
        if float(m @ x) > supf(c, q, m) + (1e-8 if well else 3e-6) * sc * (1 + np.sqrt(sq)):
            fail('boundary point lies outside the ellipsoid' + what, point=x, centre=c, shape=q, direction=l)


def tags_of(ells, dirs):
    t = set()
    for e in ells:
        w = np.linalg.eigvalsh(M(e['q']))
        t.add('degenerate' if w[0] < 1e-9 else 'regular')
    for e in ells[:3]:
        for l in dirs[:4]:
            if A(l) @ M(e['q']) @ A(l) < 1e-9:
                t.add('kernel-direction')
    t.add('dim%d' % len(ells[0]['q']))
    return t


# ---- one ellipsoid, many directions
def gen_one(d):
    n = d.int(1, d.sz(5, 9, 14))
    e = gen_ell(d, n)
    nd = d.int(0, 2)
    shp = [[d.count(1, 6, 20, 300)], [d.count(1, 3, 5, 20), d.count(1, 3, 5, 20)], [d.int(1, 2), d.count(1, 3, 3, 12), d.int(1, 2)]][nd]
    k = 1
    for s in shp:
        k *= s
    return {'e': e, 'dirs': gen_dirs(d, n, k), 'shape': shp, 'wrap': d.choice(['array', 'list', 'obj', 'arr2'])}


def wrap_one(o, how):
    if how == 'list':
        return [o]
    if how == 'obj':
        return o
    if how == 'arr2':
        return obj_array([o], (1, 1))
    return obj_array([o], (1,))


def chk_one(c):
    e = c['e']
    n = len(e['q'])
    o = mk_ell(e)
    k = len(c['dirs'])
    dm = A(c['dirs']).T  # (n,k)
    dirs = dm.reshape((n,) + tuple(c['shape']))
    before = dirs.copy()
    sup, bp = pair(call(S.Ellipsoid.rho, wrap_one(o, c['wrap']), dirs), 2, 'rho')
    sup = arr(sup, None, 'support values')
    bp = arr(bp, None, 'boundary points', finite=False)
    if len(c['shape']) > 1:
        if sup.shape != tuple(c['shape']):
            fail('support values are not in the layout of the directions', got=sup.shape, expected=c['shape'])
        if bp.shape != dirs.shape:
            fail('boundary points are not in the layout of the directions', got=bp.shape, expected=dirs.shape)
    if sup.size != k or bp.size != n * k:
        fail('wrong number of results', sup=sup.shape, bp=bp.shape, k=k)
    if len(c['shape']) == 1 and bp.shape != (n, k):
        fail('boundary points are not columns', got=bp.shape, expected=(n, k))
    s = sup.ravel()
    b = bp.reshape(n, k)
    cc, q = A(e['c']), M(e['q'])
    for i in range(k):
        check_value(cc, q, dm[:, i], s[i], b[:, i], ' (one ellipsoid, many directions)')
    expect(np.array_equal(before, dirs), 'the directions were modified')
    t = tags_of([e], c['dirs'])
    return res(k > 1 or 'kernel-direction' in t or n > 1, *t)


facet(P, 'one_many', gen_one, chk_one, 900,
      rule='one ellipsoid (eigenvalue/factor specs, rank 0..n) x direction arrays of 1-3 trailing dims; non-trivial: '
           'more than one direction or dimension > 1',
      fixed=lambda: [
          {'e': {'c': [0.0, 0.0], 'q': [[1.0, 1.0], [1.0, 1.0]]}, 'dirs': [[1.0, -1.0]], 'shape': [1], 'wrap': 'array'},
          {'e': {'c': [1.0, 2.0], 'q': [[0.0, 0.0], [0.0, 0.0]]}, 'dirs': [[1.0, -1.0], [0.0, 1.0]], 'shape': [2],
           'wrap': 'array'},
          {'e': {'c': [0.0, 0.0, 0.0], 'q': [[0.01, 0.02, 0.03], [0.02, 0.04, 0.06], [0.03, 0.06, 0.09]]},
           'dirs': [[3.0, 0.0, -1.0]], 'shape': [1], 'wrap': 'array'},
          {'e': {'c': [0.0, 0.0, 0.0], 'q': [[0.01, 0.02, 0.03], [0.02, 0.04, 0.06], [0.03, 0.06, 0.09]]},
           'dirs': [[3.0, 0.0, -1.0], [2.0, -1.0, 0.0]], 'shape': [2], 'wrap': 'array'},
      ])


# ---- kernel directions of inexactly represented degenerate shapes
def gen_kernel(d):
    n = d.int(2, 5)
    r = d.int(1, n - 1)
    u = d.orth(n)
    from vf.draws import sym_from
    q = sym_from(u, [d.pos(0.1, 50) for _ in range(r)] + [0.0] * (n - r))
    k = d.int(1, 3)
    dirs = []
    for _ in range(k):
        w = d.vec(n - r, -2, 2)
        v = [sum(u[i][r + j] * w[j] for j in range(n - r)) for i in range(n)]
        if sum(x * x for x in v) < 1e-2:
            v = [u[i][r] for i in range(n)]
        dirs.append(v)
    return {'e': {'c': d.vec(n), 'q': q}, 'dirs': dirs, 'shape': [k], 'wrap': 'array'}


def gen_kernel2(d):
    return gen_kernel(d)


facet(P, 'kernel', gen_kernel2, chk_one, 400,
      rule='degenerate shape with inexact entries, directions in its kernel up to rounding; non-trivial: all')


# ---- many ellipsoids, one direction
def gen_many(d):
    n = d.int(1, d.sz(5, 5, 8))
    shp = d.shape(3, d.sz(6, 12, 60))
    if d.chance(15):
        shp = [d.count(2, 6, 12, 120)]
    k = 1
    for s in shp:
        k *= s
    return {'es': d.dups([gen_ell(d, n) for _ in range(k)]), 'shape': shp, 'dir': gen_dirs(d, n, 1)[0],
            'list': len(shp) == 1 and d.bool()}


def chk_many(c):
    es = c['es']
    n = len(es[0]['q'])
    k = len(es)
    os_ = mk_ells(es)
    ea = os_ if c['list'] else obj_array(os_, c['shape'])
    l = A(c['dir'])
    sup, bp = pair(call(S.Ellipsoid.rho, ea, l.reshape(-1, 1)), 2, 'rho')
    sup = arr(sup, None, 'support values')
    bp = arr(bp, None, 'boundary points', finite=False)
    if k > 1:
        if sup.shape != tuple(c['shape']):
            fail('support values are not in the layout of the ellipsoids', got=sup.shape, expected=c['shape'])
        if len(c['shape']) > 2 and bp.shape != (n,) + tuple(c['shape']):
            fail('boundary points are not in the layout of the ellipsoids', got=bp.shape, expected=c['shape'])
    if sup.size != k or bp.size != n * k or bp.shape[0] != n:
        fail('wrong number of results', sup=sup.shape, bp=bp.shape, k=k)
    s = sup.ravel()
    b = bp.reshape(n, k)
    for i in range(k):
        check_value(A(es[i]['c']), M(es[i]['q']), l, s[i], b[:, i], ' (many ellipsoids, one direction)')
    return res(k > 1, *tags_of(es, [c['dir']]))


facet(P, 'many_one', gen_many, chk_many, 500,
      rule='arrays of 1..6 ellipsoids (1-3 dims, lists too) x one direction; non-trivial: more than one ellipsoid')


# ---- arrays of both
def gen_both(d):
    n = d.int(1, 4)
    mode = d.choice(['row', 'col', 'same', 'same1'])
    if mode == 'row':
        k = d.count(2, 5, 9, 70)
        es, ds = [1, k], [k]
    elif mode == 'col':
        k = d.count(2, 5, 9, 70)
        es, ds = [k, 1], [k]
    elif mode == 'same1':
        k = d.count(2, 5, 9, 70)
        es, ds = [k], [k]
    else:
        es = [d.count(1, 3, 3, 8), d.count(2, 3, 3, 8)] + ([d.int(1, 2)] if d.bool() else [])
        ds = list(es)
        k = 1
        for s in es:
            k *= s
    return {'es': d.dups([gen_ell(d, n) for _ in range(k)]), 'shape': es, 'dshape': ds, 'dirs': gen_dirs(d, n, k)}


def chk_both(c):
    es = c['es']
    n = len(es[0]['q'])
    k = len(es)
    ea = obj_array(mk_ells(es), c['shape'])
    dm = A(c['dirs']).T
    dirs = dm.reshape((n,) + tuple(c['dshape']))
    sup, bp = pair(call(S.Ellipsoid.rho, ea, dirs), 2, 'rho')
    sup = arr(sup, None, 'support values')
    bp = arr(bp, None, 'boundary points', finite=False)
    if sup.size != k or bp.size != n * k or bp.shape[0] != n:
        fail('wrong number of results', sup=sup.shape, bp=bp.shape, k=k)
    if len(c['dshape']) > 1 and (sup.shape != tuple(c['dshape']) or bp.shape != dirs.shape):
        fail('results are not in the layout of the arguments', sup=sup.shape, bp=bp.shape)
    s = sup.ravel()
    b = bp.reshape(n, k)
    for i in range(k):
        check_value(A(es[i]['c']), M(es[i]['q']), dm[:, i], s[i], b[:, i], ' (array with array)')
    return res(k > 1, 'x'.join(map(str, c['shape'])), *tags_of(es, c['dirs']))


facet(P, 'array_array', gen_both, chk_both, 400,
      rule='equally laid out arrays of ellipsoids and directions (row, column, flat, 2-3 dims); non-trivial: all')


# ---- scales and tolerances
def gen_scale(d):
    n = d.int(1, 4)
    m, k = d.weighted([(2, (1, d.int(1, 4))), (2, (d.int(2, 4), 1)), (1, (3, 3))])
    return {'es': [{'c': d.vec(n), 'q': d.spd(n, 0.1, 10), 'e': d.choice([0, d.int(-40, 40)])} for _ in range(m)],
            'dirs': [[x * 2.0 ** e for x in d.dirv(n)] for e in [d.choice([0, d.int(-40, 40)]) for _ in range(k)]]}


def chk_scale(c):
    es = [(A(e['c']) * 2.0 ** e['e'], M(e['q']) * 4.0 ** e['e']) for e in c['es']]
    os_ = [call(S.Ellipsoid, x, q) for x, q in es]
    dm = A(c['dirs']).T
    n, k = dm.shape
    m = max(len(es), k)
    sup, bp = pair(call(S.Ellipsoid.rho, obj_array(os_, [len(os_)]), dm), 2, 'rho')
    sup, bp = flat(sup, m, 'support values'), arr(bp, (n, m), 'boundary points')
    for i in range(m):
        x, q = es[i % len(es)]
        l = dm[:, i % k]
        r = np.sqrt(l @ q @ l)
        sc = np.linalg.norm(x) + np.sqrt(np.max(np.abs(q)))
        expect(abs(sup[i] - (l @ x + r)) <= 1e-11 * sc * np.linalg.norm(l), 'support value is wrong (scaled)', got=sup[i],
               expected=l @ x + r, centre=x, shape=q, direction=l)
        expect(np.all(np.abs(bp[:, i] - (x + q @ l / r)) <= 1e-10 * sc), 'boundary point is wrong (scaled)', got=bp[:, i],
               expected=x + q @ l / r, centre=x, shape=q, direction=l)
    return res(any(e['e'] for e in c['es']) or m > 1, 'm%dk%d' % (len(es), k), 'dim%d' % n)


facet(P, 'scales', gen_scale, chk_scale, 250,
      rule='nondegenerate ellipsoids of size 2^-40..2^40 and directions of length 2^-40..2^40: one-many, many-one, paired; non-trivial: '
           'another scale or several results')


def gen_tol(d):
    n = d.int(1, 4)
    m = d.count(1, 4, 6, 40)
    es = []
    for _ in range(m):
        t = d.choice([1e-7, 1e-6, 1e-4, 1e-2])
        es.append({'q': [d.choice([-0.5 * t, -0.9 * t, 0.0, 1.0, d.pos(0.1, 9)]) for _ in range(n)], 'c': d.vec(n),
                   'p': {'abs_tol': t} if t != 1e-6 or d.bool() else {}})
    return {'es': es, 'ax': [[d.int(0, n - 1), d.choice([1.0, -1.0, 0.5])] for _ in range(m)], 'one': d.bool()}


def chk_tol(c):
    os_ = [call(S.Ellipsoid, A(e['c']), np.diag(e['q']), **e['p']) for e in c['es']]
    n, m = len(c['es'][0]['q']), len(os_)
    ax = [c['ax'][0]] * m if c['one'] else c['ax']
    dm = np.zeros((n, m))
    for i, (a, s) in enumerate(ax):
        dm[a, i] = s
    sup, bp = pair(call(S.Ellipsoid.rho, obj_array(os_, [m]), dm[:, :1] if c['one'] else dm), 2, 'rho')
    sup, bp = flat(sup, m, 'support values'), arr(bp, (n, m), 'boundary points')
    for i, (a, s) in enumerate(ax):
        e = c['es'][i]
        r = abs(s) * math.sqrt(max(e['q'][a], 0.0))
        expect(abs(sup[i] - (e['c'][a] * s + r)) <= 1e-10, 'support value is wrong (eigenvalue negative within the tolerance)',
               got=sup[i], expected=e['c'][a] * s + r, ellipsoid=e, direction=dm[:, i])
        x = A(e['c'])
        x[a] += math.copysign(math.sqrt(max(e['q'][a], 0.0)), s)
        expect(np.all(np.abs(bp[:, i] - x) <= 1e-10), 'boundary point is wrong (eigenvalue negative within the tolerance)',
               got=bp[:, i], expected=x, ellipsoid=e, direction=dm[:, i])
    return res(m > 1, 'one direction' if c['one'] else 'paired', 'dim%d' % n)


facet(P, 'tolerances', gen_tol, chk_tol, 200,
      rule='arrays of 1..4 (6, 40) diagonal ellipsoids with eigenvalues negative within their own tolerances, axis directions; '
           'non-trivial: several ellipsoids')


# ---- mismatches are refused
def gen_bad(d):
    n = d.int(1, 4)
    kind = d.choice(['dim', 'count', 'layout', 'text', 'mixed'])
    c = {'kind': kind, 'n': n, 'm': n + d.choice([1, 2, -1] if n > 1 else [1, 2]), 'k': d.int(2, 4)}
    c['j'] = c['k'] + d.int(1, 3)
    if d.bool():
        c['k'], c['j'] = c['j'], c['k']
    c['axis'] = d.choice(['row', 'col', 'flat'])
    return c


def chk_bad(c):
    n, m, k, j = c['n'], c['m'], c['k'], c['j']
    E = S.Ellipsoid
    mk = lambda dim: call(E, np.eye(dim))
    lay = {'row': (1, k), 'col': (k, 1), 'flat': (k,)}[c['axis']]
    kind = c['kind']
    if kind == 'dim':
        rejects('directions of another dimension', E.rho, [mk(n)], np.ones((m, j)))
        rejects('directions of another dimension', E.rho, obj_array([mk(n) for _ in range(k)], lay), np.ones((m, 1)))
    elif kind == 'mixed':
        rejects('ellipsoids of different dimensions', E.rho, obj_array([mk(n)] + [mk(m)] * (k - 1), lay),
                np.ones((n, 1)))
    elif kind == 'count':
        rejects('different numbers of ellipsoids and directions', E.rho, obj_array([mk(n) for _ in range(k)], lay),
                np.ones((n, j)))
    elif kind == 'layout':
        rejects('different layouts', E.rho, obj_array([mk(n) for _ in range(k * j)], (k, j)), np.ones((n, j, k)))
    else:
        rejects('non-numeric directions', E.rho, [mk(n)], np.array([['a', 'b']] * n))
        rejects('non-ellipsoids', E.rho, np.array([1.0, 2.0]), np.ones((n, 1)))
    return res(True, kind)


facet(P, 'refusals', gen_bad, chk_bad, 60,
      rule='dimension, count, layout and type mismatches; non-trivial: all')
