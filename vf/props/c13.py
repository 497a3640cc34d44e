"""C13: hyperplane membership, parallelism, negation."""
from vf.registry import facet
from vf.oracle import *

P = 'C13'
INF = 'inf'


def gen_h(d, n, zeros=False):
    v = d.dirv(n)
    if zeros and n > 1 and sum(1 for x in v if x != 0) == n:
        v[d.int(0, n - 1)] = 0.0
        if not any(v):
            v[0] = 1.0
    p = {}
    if d.bool():
        p['abs_tol'] = d.choice([1e-7, 1e-5, 1e-3, 1e-2])
    return {'n': v, 's': d.real(-5, 5), 'p': p}


def gen_pt(d, n, infs):
    """How a point is placed: a base vector moved along the normal to a given offset in tolerances (or raw)."""
    pt = {'b': d.vec(n, -5, 5), 'k': d.weighted([(5, 'off'), (2, 'raw')]),
          't': d.choice([0.0, 0.0, 0.5, -0.5, 2.0, -2.0, 50.0, -1e4])}
    if infs:
        pt['inf'] = [[i, d.choice([1, -1])] for i in range(n) if d.chance(50)]
        pt['inf_ok'] = d.bool()
    return pt


def point(h, pt):
    nv, s = A(h['n']), float(h['s'])
    tol = h['p'].get('abs_tol', 1e-6)
    x = A(pt['b'])
    if pt['k'] == 'off':
        x = x + nv * ((s - nv @ x) / (nv @ nv))
        x = x + nv * (pt['t'] * tol / (nv @ nv))
    for i, sg in pt.get('inf', ()):
        if pt.get('inf_ok') and nv[i] != 0:
            continue
        x[i] = sg * np.inf
    return x


def expected(h, x):
    """True / False / None (too close to the tolerance to call)."""
    nv, s = A(h['n']), float(h['s'])
    tol = h['p'].get('abs_tol', 1e-6)
    fin = np.isfinite(x)
    if np.any(nv[~fin] != 0):
        return False
    r = abs(float(nv[fin] @ x[fin]) - s)
    eps = 1e-12 * (1 + abs(s) + float(np.abs(nv[fin]) @ np.abs(x[fin])))
    if abs(r - tol) <= 1e-6 * tol + eps:
        return None
    return r < tol


def gen_case(d):
    n = d.int(1, d.sz(5, 5, 30))
    mode = d.choice(['one_many', 'many_one', 'match', 'single'])
    infs = d.chance(20)
    lay = d.layout([[1], [2], [4], [7], [2, 2], [1, 3], [3, 1], [2, 3, 1], [2, 1, 2]], 120)
    k = 1
    for x in lay:
        k *= x
    nh = k if mode in ('many_one', 'match') else 1
    npt = k if mode in ('one_many', 'match') else 1
    h0 = gen_h(d, n, infs)
    hs = [h0] + [gen_h(d, n, infs) if d.chance(70) else h0 for _ in range(nh - 1)]
    return {'mode': mode, 'lay': lay, 'hs': hs, 'pts': [gen_pt(d, n, infs) for _ in range(npt)], 'on': d.int(0, nh - 1),
            'how': d.choice(['arr', 'list', 'obj']), 'flat': d.bool(), 'int': d.chance(10)}


def chk(cs):
    H = S.Hyperplane
    hs, pts, lay, mode = cs['hs'], cs['pts'], tuple(cs['lay']), cs['mode']
    n = len(hs[0]['n'])
    objs = mk_hyps(hs)
    if mode == 'match':
        xs = [point(h, p) for h, p in zip(hs, pts)]
    else:
        xs = [point(hs[min(cs['on'], len(hs) - 1)], p) for p in pts]
    if cs['int'] and not any(np.isinf(x).any() for x in xs):
        xs = [np.round(x) for x in xs]
    if n == 1 and any(abs(h['n'][0]) < 1e-9 for h in hs):
        return res(False)
    if mode in ('many_one', 'match'):
        arg = obj_array(objs, lay)
        if cs['how'] == 'list' and len(lay) == 1:
            arg = list(objs)
    else:
        arg = objs[0] if cs['how'] == 'obj' and mode == 'single' else \
            ([objs[0]] if cs['how'] != 'arr' else np.array([objs[0]]))
    if mode == 'many_one' or mode == 'single':
        x = xs[0] if cs['flat'] else xs[0].reshape(-1, 1)
        shape = lay if mode == 'many_one' else np.shape(arg)
        pairs = [(h, xs[0]) for h in hs]
    else:
        x = np.array(xs).T.reshape((n,) + lay)
        shape = lay
        pairs = [(hs[0] if mode == 'one_many' else hs[i], xs[i]) for i in range(len(xs))]
    if cs['int']:
        xi = x.astype(int) if np.all(np.isfinite(x)) and np.all(x == np.round(x)) else x
        got = call(H.contains, arg, xi)
    else:
        got = call(H.contains, arg, x)
    got = bools(got, None, 'membership')
    if mode in ('many_one', 'match') or (mode == 'one_many' and len(xs) > 1):
        expect(got.shape == tuple(shape) , 'membership answers have a wrong layout', got=got.shape, expected=shape)
    expect(got.size == len(pairs), 'wrong number of answers', got=got.shape, expected=len(pairs))
    seen = set()
    for i, (h, p) in enumerate(pairs):
        e = expected(h, p)
        if e is None:
            continue
        expect(bool(got.ravel()[i]) == e, 'membership in a hyperplane is wrong', point=p, hyperplane=h, expected=e, index=i)
        seen.add('inside' if e else 'outside')
        if not np.all(np.isfinite(p)):
            seen.add('infinite-' + ('in' if e else 'out'))
    return res(len(seen) > 0 and (len(pairs) > 1 or 'inside' in seen), mode, 'dim%d' % n, *seen)


def fixed_c():
    z = {'b': [0.0, 0.0], 'k': 'raw', 't': 0.0, 'inf': [[1, 1]], 'inf_ok': True}
    out = []
    for hn in ([1.0, 0.0], [1.0, 1e-12], [1.0, 1.0]):
        out.append({'mode': 'single', 'lay': [1], 'hs': [{'n': hn, 's': 0.0, 'p': {}}], 'on': 0, 'how': 'obj', 'flat': True,
                    'int': False, 'pts': [{'b': [0.0, 0.0], 'k': 'raw', 't': 0.0, 'inf': [[1, -1]], 'inf_ok': False}]})
    return out


facet(P, 'membership', gen_case, chk, 1000, fixed=fixed_c,
      rule='one/many hyperplanes with one/many/matching points in arrays of 1..3 axes, offsets of 0, 0.5, 2, 50 tolerances '
           'and infinite coordinates; non-trivial: several answers or a contained point')


def gen_ref(d):
    n = d.int(1, 4)
    return {'n': n, 'hs': [gen_h(d, n) for _ in range(d.int(1, 3))], 'k': d.choice(['nan', 'dim', 'mixdim', 'text', 'notme', 'count']),
            'm': d.choice([1, 2, 3]), 'i': d.int(0, 9)}


def chk_ref(cs):
    H = S.Hyperplane
    n, k = cs['n'], cs['k']
    objs = mk_hyps(cs['hs'])
    if k == 'nan':
        x = np.zeros((n, len(objs)))
        x[cs['i'] % n, cs['i'] % len(objs)] = np.nan
        rejects('NaN point', H.contains, objs, x)
    elif k == 'dim':
        rejects('point of another dimension', H.contains, objs, np.zeros((n + cs['m'], 1)))
        if n > 1:
            rejects('point of another dimension', H.contains, objs, np.zeros((n - 1, 1)))
    elif k == 'mixdim':
        o2 = objs + [mk_hyp({'n': [1.0] * (n + 1), 's': 0.0})]
        rejects('hyperplanes of different dimensions', H.contains, o2, np.zeros((n, 1)))
        if len(objs) > 1:
            rejects('arrays of different layout', H.is_parallel, objs, objs + [objs[0]])
            rejects('arrays of different layout', H.is_parallel, obj_array(objs, (len(objs), 1)), obj_array(objs, (1, len(objs))))
    elif k == 'text':
        rejects('text instead of a point', H.contains, objs, np.array(['a'] * n))
    elif k == 'count':
        if len(objs) > 1:
            m = len(objs) + cs['m']
            rejects('numbers of hyperplanes and points differ', H.contains, objs, np.ones((n, m)))
            if len(objs) > 2:
                rejects('numbers of hyperplanes and points differ', H.contains, objs, np.ones((n, 2)))
    else:
        e = call(S.Ellipsoid, np.eye(n))
        rejects('not a hyperplane', H.contains, [e], np.zeros((n, 1)))
        rejects('not a hyperplane', H.is_parallel, [e], objs[:1])
        rejects('not a hyperplane', H.is_parallel, objs[:1], [e])
        rejects('not a hyperplane', H.uminus, [objs[0], e])
    return res(True, k)


facet(P, 'refusals', gen_ref, chk_ref, 150, rule='NaN, wrong dimensions, mixed dimensions, foreign objects; all non-trivial')


def gen_par(d):
    lay = d.layout([[1], [2], [3], [2, 2], [1, 3], [3, 1], [2, 1, 2]], 120)
    k = 1
    for x in lay:
        k *= x
    mode = d.choice(['match', 'one_first', 'one_second'])
    ps = []
    base = None
    for i in range(k):
        n = d.int(1, d.sz(5, 5, 30))
        if mode == 'match' or base is None:
            h = gen_h(d, n)
            base = h
        n = len(base['n'])
        ps.append({'h': base, 'rel': d.choice(['same', 'scaled', 'neg', 'perm', 'onecoord', 'edge_in', 'edge_out', 'other', 'dim', 'orth']),
                   'sc': d.choice([1.0, 2.0, 1e-3, 1e3, 0.37]), 'i': d.int(0, 9), 'v': d.dirv(n), 's': d.real(-5, 5),
                   'p': gen_h(d, 1)['p']})
    return {'lay': lay, 'mode': mode, 'ps': ps, 'list': d.bool()}


def second(p):
    n0 = A(p['h']['n'])
    n = n0.size
    u = n0 / np.linalg.norm(n0)
    tol = p['h']['p'].get('abs_tol', 1e-6)
    r = p['rel']
    if r in ('same', 'scaled'):
        v = u if r == 'scaled' else n0
    elif r == 'neg':
        v = -u
    elif r == 'perm':
        v = u[::-1].copy()
    elif r == 'onecoord':  # agrees with the first in one coordinate only
        v = A(p['v'])
        v = v / np.linalg.norm(v)
        i = p['i'] % n
        rest = np.sqrt(max(0.0, 1 - u[i] ** 2))
        w = np.delete(v, i)
        nw = np.linalg.norm(w)
        v[i] = u[i]
        if n > 1 and nw > 1e-6:
            v[np.arange(n) != i] = w / nw * rest
        else:
            v = u.copy()
    elif r in ('edge_in', 'edge_out'):
        w = A(p['v'])
        w = w - u * (u @ w)
        if np.linalg.norm(w) < 1e-3:
            v = u
        else:
            w /= np.linalg.norm(w)
            v = u + w * tol * (0.3 if r == 'edge_in' else 4.0)
            v = v / np.linalg.norm(v)
            if p['i'] % 2:
                v = -v
    elif r == 'dim':
        v = np.append(u, [0.0] if p['i'] % 2 else [1.0])
    elif r == 'orth':
        v = A(p['v'])
        v = v - u * (u @ v)
        if np.linalg.norm(v) < 1e-3:
            v = u.copy()
    else:
        v = A(p['v'])
    return v * p['sc']


def parallel(a, b, tol):
    if a.size != b.size:
        return False
    u, v = a / np.linalg.norm(a), b / np.linalg.norm(b)
    m = min(np.max(np.abs(u - v)), np.max(np.abs(u + v)))
    if abs(m - tol) < 1e-4 * tol + 1e-14:
        return None
    return bool(m < tol)


def chk_par(cs):
    H = S.Hyperplane
    ps, lay, mode = cs['ps'], tuple(cs['lay']), cs['mode']
    firsts = [{'n': p['h']['n'], 's': p['h']['s'], 'p': p['h']['p']} for p in ps]
    secs = [{'n': [float(x) for x in second(p)], 's': p['s'], 'p': p['p']} for p in ps]
    if mode == 'match':
        a, b = firsts, secs
    elif mode == 'one_first':
        a, b = firsts[:1], secs
    else:  # many first: each with its own tolerance
        a, b = secs, firsts[:1]
    oa, ob = mk_hyps(a), mk_hyps(b)
    xa = obj_array(oa, lay) if len(oa) == len(ps) else np.array([oa[0]])
    xb = obj_array(ob, lay) if len(ob) == len(ps) else np.array([ob[0]])
    if cs['list'] and len(lay) == 1:
        xa, xb = list(oa), list(ob)
    got = bools(call(H.is_parallel, xa, xb), None, 'parallelism')
    m = len(ps)
    expect(got.size == m, 'wrong number of answers', got=got.shape, expected=m)
    if m > 1:
        expect(got.shape == (lay if not (cs['list'] and len(lay) == 1) else (m,)), 'answers have a wrong layout',
               got=got.shape, expected=lay)
    tags = set()
    for i in range(m):
        h1, h2 = a[i if len(a) > 1 else 0], b[i if len(b) > 1 else 0]
        e = parallel(A(h1['n']), A(h2['n']), h1['p'].get('abs_tol', 1e-6))
        if e is None:
            continue
        expect(bool(got.ravel()[i]) == e, 'parallelism is wrong', first=h1, second=h2, expected=e, relation=ps[i]['rel'])
        tags.add('parallel' if e else 'not')
        tags.add(ps[i]['rel'])
    return res(bool(tags), mode, *tags)


facet(P, 'parallelism', gen_par, chk_par, 900,
      rule='pairs that are proportional, opposite, differ in some coordinates only, by 0.3 and 4 tolerances, or in dimension, '
           'one-to-one, one-to-many, many-to-one and array; non-trivial: a decided pair')


def gen_neg(d):
    lay = d.layout([[1], [3], [2, 2], [1, 2], [2, 1, 2]], 120)
    k = 1
    for x in lay:
        k *= x
    return {'hs': [gen_h(d, d.int(1, d.sz(5, 5, 30))) for _ in range(k)], 'lay': lay, 'how': d.choice(['arr', 'list', 'op'])}


def chk_neg(cs):
    H = S.Hyperplane
    hs, lay = cs['hs'], tuple(cs['lay'])
    objs = mk_hyps(hs)
    if cs['how'] == 'op':
        out = [call(lambda o: -o, o) for o in objs]
        shape = (len(out),)
    elif cs['how'] == 'list':
        out = call(H.uminus, list(objs))
        shape = (len(objs),)
    else:
        out = call(H.uminus, obj_array(objs, lay))
        shape = lay
    with interp('negated hyperplanes'):
        expect(np.asarray(out, dtype=object).shape == shape, 'negation changes the layout')
    lst = objs_of(out, len(objs), H)
    for h, o, x in zip(hs, objs, lst):
        n, s = hyp_data(x)
        expect(np.array_equal(n, -A(h['n'])) and s == -float(h['s']), 'negation is wrong', got=(n, s), expected=h)
        n0, s0 = hyp_data(o)
        expect(np.array_equal(n0, A(h['n'])) and s0 == float(h['s']), 'negation changed the original', got=(n0, s0))
        if len(h['n']) == 1 and abs(h['n'][0]) < 1e-6:
            continue
        nv = A(h['n'])
        for t in (0.0, 1.0):
            pt = nv * ((h['s'] + t) / (nv @ nv))
            b1 = boolean(call(H.contains, [o], pt.reshape(-1, 1)))
            b2 = boolean(call(H.contains, [x], pt.reshape(-1, 1)))
            expect(b1 == b2 == (t == 0.0), 'the negated hyperplane is another set', point=pt, hyperplane=h)
        expect(boolean(call(H.is_parallel, [o], [x])), 'a hyperplane is not parallel to its negation')
        if abs(h['s']) > 0.1:
            expect(bool(bools(call(H.is_equal, [o], [x])[0]).all()), 'a hyperplane does not equal its negation', h=h)
        n2, s2 = hyp_data(call(lambda v: -v, x))
        expect(np.array_equal(n2, A(h['n'])) and s2 == float(h['s']), 'double negation is not the identity')
    return res(True, cs['how'])


facet(P, 'negation', gen_neg, chk_neg, 200, rule='arrays of hyperplanes negated by operator and function; all non-trivial')
