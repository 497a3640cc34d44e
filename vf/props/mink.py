"""Shared generators and oracles for the Minkowski sum approximations (C04, C05)."""
from vf.oracle import *

TOLS = [1e-6, 1e-6, 1e-4, 1e-7]


def gen_nondeg(d, n, wide=False):
    return {'c': d.vec(n, -10, 10) if d.chance(80) else [0.0] * n,
            'q': d.spd(n, 0.02, 50) if wide else d.spd(n, 0.1, 10),
            'p': {'abs_tol': d.choice(TOLS)} if d.chance(40) else {}}


def gen_any(d, n):
    if d.chance(35):
        return gen_nondeg(d, n)
    return {'c': d.vec(n, -5, 5), 'q': d.psd(n), 'p': {'abs_tol': d.choice(TOLS)} if d.chance(40) else {}}


def gen_dirs(d, n, k):
    return [d.dirv(n) for _ in range(k)]


def gen_case(d, gen_ell, lo=2):
    n = d.int(1, d.sz(5, 8, 11))
    m = d.count(lo, 5, 10, 25)
    k = d.count(1, 5, 5, 40)
    es = [gen_ell(d, n) for _ in range(m)]
    if m > 1 and d.chance(20):
        es[d.int(1, m - 1)] = dict(es[0])  # equal summands, or the very same one again
    if m > 1 and d.chance(15):
        f = d.choice([0.25, 4.0, 2.0])
        es[-1] = dict(es[0], q=[[x * f for x in r] for r in es[0]['q']])
    return {'es': es, 'dirs': gen_dirs(d, n, k), 'flat': k == 1 and d.bool(), 'lay': d.choice(['list', 'arr', 'col', 'two']),
            'sc': [d.choice([1.0, 2.0, 0.01, 1000.0, 0.3]) for _ in range(k)], 'perm': d.perm(k)}


def arrange(os_, lay):
    if lay == 'list':
        return os_
    if lay == 'col':
        return obj_array(os_, (len(os_), 1))
    if lay == 'two' and len(os_) % 2 == 0:
        return obj_array(os_, (2, len(os_) // 2))
    return obj_array(os_, (len(os_),))


def run(fn, cs, dm, count):
    os_ = mk_ells(cs['es'])
    n = len(cs['es'][0]['q'])
    before = dm.copy()
    r = call(fn, arrange(os_, cs['lay']), dm[:, 0].copy() if cs['flat'] else dm)
    expect(np.array_equal(before, dm), 'the directions were modified')
    return [ell_data(o, n, 'approximation') for o in objs_of(r, count, S.Ellipsoid, 'approximations')]


def sums(cs):
    cc = np.sum([A(e['c']) for e in cs['es']], axis=0)
    qs = [M(e['q']) for e in cs['es']]
    tols = [e.get('p', {}).get('abs_tol', 1e-6) for e in cs['es']]
    return cc, qs, tols


def half(qs, m):
    return sum(np.sqrt(max(0.0, float(m @ q @ m))) for q in qs)


def probes(n, cs, dirs, q, tight):
    """Directions probing the containment: random, summands' eigenvectors, and directions close to the touching one."""
    ex = [d for d in dirs]
    for l in dirs:
        for i in range(n):
            e = np.zeros(n)
            e[i] = 1.0
            for s in (0.1, -0.1, 1e-3):
                ex.append(l / np.linalg.norm(l) + s * e)
    for qq in q + [tight]:
        ex += list(np.linalg.eigh(0.5 * (qq + qq.T))[1].T)
    return probe_dirs(n, 16, 7, ex)


def same_results(fn, cs, dm, base, tol):
    """Order, scale and other directions do not matter."""
    k = dm.shape[1]
    perm = cs['perm']
    dm2 = (dm * np.array(cs['sc']))[:, perm]
    cs2 = dict(cs, flat=False)
    out = run(fn, cs2, dm2, k)
    for i, p in enumerate(perm):
        sc = scale_of(base[p][1])
        close(out[i][0], base[p][0], 1e-9 * scale_of(base[p][0]), 'centre depends on scale or order of the directions')
        close(out[i][1], base[p][1], tol * sc, 'shape depends on scale or order of the directions')
    j = perm[0]
    one = run(fn, cs2, dm[:, [j]], 1)
    close(one[0][1], base[j][1], tol * scale_of(base[j][1]), 'shape depends on the other directions')


def chk_single(fn, cs):
    e = cs['es'][0]
    dm = A(cs['dirs']).T
    out = run(fn, dict(cs, es=[e]), dm, dm.shape[1])
    for c, q in out:
        expect(np.array_equal(c, A(e['c'])) and np.array_equal(q, M(e['q'])),
               'one summand alone is not returned unchanged', got=(c, q))
    return res(dm.shape[1] > 1, 'single')


def chk_bad(fn, cs):
    E = S.Ellipsoid
    n, k = cs['n'], cs['k']
    mk = lambda dim: call(E, np.eye(dim))
    bad = cs['bad']
    if bad == 'dims':
        rejects('summands of different dimensions', fn, [mk(n), mk(n + 1)], np.ones((n, k)))
        rejects('summands of different dimensions', fn, [mk(n + 1), mk(n)], np.ones((n, k)))
    elif bad == 'dirdim':
        rejects('directions of another dimension', fn, [mk(n), mk(n)], np.ones((n + 1, k)))
        rejects('directions of another dimension', fn, [mk(n)], np.ones((n + 1, k)))
    elif bad == 'none':
        rejects('no summands', fn, [], np.ones((n, k)))
    elif bad == 'empty':
        rejects('an empty summand', fn, [mk(n), call(E)], np.ones((n, k)))
        rejects('only empty summands', fn, [call(E), call(E)], np.ones((n, k)))
    else:
        rejects('non-ellipsoids', fn, [mk(n), 5], np.ones((n, k)))
    return res(True, bad)


def gen_bad(d):
    return {'n': d.int(1, 4), 'k': d.int(1, 3), 'bad': d.choice(['dims', 'dirdim', 'none', 'empty', 'type'])}
