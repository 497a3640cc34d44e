"""C34: points of the difference of two ellipsoids, by the kind of the direction."""
import inspect

from vf.registry import facet
from vf.oracle import *

P = 'C34'


def gen(d):
    n = d.weighted([(3, 2), (4, 3), (1, 1), (1, 4), (1, 5)]) if d.lvl < 2 else d.choice([2, 3, 9, 16])
    k = d.count(1, 6, 12, 60)
    kind = d.weighted([(6, 'usual'), (2, 'centre'), (1, 'almost')])
    cs = {'n': n, 'kind': kind, 'dirs': [d.dirv(n) for _ in range(k)], 'flags': d.choice(['good', 'bad', 'mixed', 'mixed']),
          'c1': [float(d.int(-5, 5)) for _ in range(n)], 'c2': [float(d.int(-5, 5)) for _ in range(n)]}
    cs['g'] = [cs['flags'] == 'good' or (cs['flags'] == 'mixed' and d.bool()) for _ in range(k)]
    cs['how'] = d.choice(['list', 'arr'])
    if kind == 'usual':
        cs['q2'] = d.spd(n, 0.1, 5)
        cs['s'] = d.choice([1.0, 1.5, 4.0])
        cs['r'] = d.spd(n, 0.05, 5)
        cs['e'] = d.choice([0, 0, 0, 0, 20, 30])        # almost equal ellipsoids: their difference is small
        cs['f'] = [d.choice([0.1, 0.5, 0.9, 0.05 + 0.85 * d.real(0, 1)]) for _ in range(k)]
        if d.bool():
            cs['c1'], cs['c2'] = d.vec(n), d.vec(n)
    else:
        cs['q2'] = [[float(d.int(1, 9)) if i == j else 0.0 for j in range(n)] for i in range(n)]
        cs['odd'] = d.int(0, k - 1) if kind == 'almost' else -1
    return cs


def chk(cs):
    f = S.Ellipsoid.__dict__.get('_calc_diff_one_dir')
    if not isinstance(f, staticmethod) or len(inspect.signature(f.__func__).parameters) != 5:
        return res(False, 'absent')     # an internal method: nothing is claimed about its name and parameters
    n, k = cs['n'], len(cs['dirs'])
    c1, c2, q2 = A(cs['c1']), A(cs['c2']), M(cs['q2'])
    lm = np.array(cs['dirs'], dtype=float).T
    if cs['kind'] == 'usual':
        q1 = cs['s'] * q2 + M(cs['r']) if not cs['e'] else q2 + M(cs['r']) * 2.0 ** -cs['e']
        q1 = 0.5 * (q1 + q1.T)
        w = np.linalg.eigvals(np.linalg.solve(q2, q1)).real.min()
        p = np.array([1.0 + f * (w - 1.0) for f in cs['f']])
        if cs['e']:
            cs = dict(cs, g=[True] * k, flags='good')
    else:
        q1 = q2.copy()
        p = np.ones(k)
        if cs['kind'] == 'almost':      # one direction has a point of its own
            q1 = 4.0 * q2
            p[cs['odd']] = 2.0
    good = [bool(g) for g in cs['g']]
    if cs['kind'] == 'almost':
        good = [False] * k
    e1, e2 = call(S.Ellipsoid, c1, q1), call(S.Ellipsoid, c2, q2)
    a = (list(p), list(good)) if cs['how'] == 'list' else (p.copy(), np.array(good))
    l0 = lm.copy()
    pts, flag = pair(call(S.Ellipsoid._calc_diff_one_dir, e1, e2, lm, a[0], a[1]), 2)
    expect(np.array_equal(l0, lm) and np.array_equal(a[0], p), 'the arguments were modified')
    for o, c, q in ((e1, c1, q1), (e2, c2, q2)):
        cc, qq = ell_data(o, n)
        expect(np.array_equal(cc, c) and np.array_equal(qq, q), 'an ellipsoid was changed')
    pts = arr(pts, (k, n), 'points')
    sc = scale_of(c1, c2, q1)
    exp = np.zeros((k, n))
    for i in range(k):
        l = lm[:, i]
        if good[i]:
            exp[i] = c1 - c2 + q1 @ l / np.sqrt(l @ q1 @ l) - q2 @ l / np.sqrt(l @ q2 @ l)
        else:
            q = (1.0 - p[i]) * q2 + (1.0 - 1.0 / p[i]) * q1
            exp[i] = c1 - c2 + (q @ l / np.sqrt(l @ q @ l) if p[i] > 1.0 else 0.0)
    close(pts, exp, (1e-10 if all(good) and cs['kind'] == 'usual' else 1e-7) * sc, 'points of the difference are wrong', good=good, p=p)
    dev = np.max(np.abs(exp - (c1 - c2)))
    if dev > 1e-9 or n != 3:
        expect(not boolean(flag, 'centre flag'), 'a point is not the centre (or the space is not 3-dimensional), but the flag is set')
    elif dev == 0.0 or cs['kind'] == 'centre':
        expect(boolean(flag, 'centre flag'), 'all points are the centre, but the flag is not set')
        expect(np.array_equal(pts, np.tile(c1 - c2, (k, 1))), 'points are not the centre exactly', got=pts)
    return res(k > 1, 'n%d' % n, cs['kind'], cs['flags'] if cs['kind'] != 'almost' else 'bad')


facet(P, 'points', gen, chk, 400,
      rule='1-5-D (16) pairs of nested ellipsoids, 1..6 (60) directions of any length marked good or bad, parameters from 1 up '
           'to the admissible bound, equal shapes, almost equal shapes; non-trivial: more than one direction')
