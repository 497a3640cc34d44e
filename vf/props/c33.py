"""C33: operations compose - results of any chain of operations are consistent."""
from vf.registry import facet
from vf.oracle import *
from vf.props.c29 import QUERIES, PROPS, canon, same, run, settings

P = 'C33'
OPS = [(4, 'uminus'), (3, 'copy'), (2, 'rep'), (3, 'dict'), (4, 'proj'), (4, 'get_proj'), (5, 'polar'), (5, 'ea'), (5, 'ia'), (3, 'new'),
       (2, 'newh'), (2, 'uminush'), (2, 'copyh'), (2, 'dicth'), (2, 'conf'), (1, 'verb')]


def gen_p(d, plots=True):
    p = {}
    if d.chance(30):
        p['abs_tol'] = d.choice([1e-7, 1e-6, 1e-5])
    if d.chance(30):
        p['rel_tol'] = d.choice([1e-6, 1e-4])
    if plots and d.chance(50):
        p['n_plot_2d_points'] = d.int(3, 40)
    if plots and d.chance(50):
        p['n_plot_3d_points'] = d.int(3, 40)
    return p


def gen_ell(d, n, zero):
    w = d.weighted([(6, 's'), (1, 'p')])
    return {'c': d.vec(n, -0.4, 0.4) if zero else d.vec(n, -3, 3), 'q': d.spd(n, 0.4, 6.0) if w == 's' else d.psd(n), 'p': gen_p(d)}


def gen(d):
    dims = d.choice([[2], [3], [2, 3], [1, 2], [4], [3, 3, 4], [5]]) if d.lvl < 2 else d.choice([[2, 3, 4], [6], [8, 3], [10]])
    zero = d.chance(60)
    init = [gen_ell(d, n, zero) for n in dims for _ in range(d.int(1, 3))]
    steps = []
    for _ in range(d.int(2, d.sz(10, 16, 40))):
        op = d.weighted([(w, o) for w, o in OPS])
        n = d.choice(dims)
        s = {'op': op, 'a': d.int(0, 11), 'sel': d.int(1, 3), 'lst': d.bool(), 'seed': d.int(0, 10 ** 6),
             'qs': [[d.choice(sorted(QUERIES)), [d.int(0, 5) for _ in range(d.int(1, 3))]] for _ in range(d.int(1, 3))]}
        if op == 'new':
            s.update(gen_ell(d, n, zero))
        elif op == 'newh':
            s.update(n=d.dirv(n), s=d.real(-4, 4), p=gen_p(d, False))
        elif op in ('dict', 'dicth'):
            s['props'] = d.bool()
        elif op in ('proj', 'get_proj'):
            s['k'] = d.weighted([(1, 0), (3, 1), (1, 2)])
        elif op in ('ea', 'ia'):
            s['nd'] = d.int(1, 2)
        elif op == 'conf':
            s['tol'] = d.choice([1e-7, 1e-6, 1e-5, 1e-2, 0.5, 3.0, 1e-13])
        steps.append(s)
    return {'init': init, 'steps': steps}


class Ell:
    """An ellipsoid of the library, its data according to the model, and the operations it went through."""
    def __init__(self, obj, c, q, how, tol=1e-9):
        gc, gq = ell_data(obj, len(c))
        sc = scale_of(c, q)
        close(gc, c, tol * sc, 'the centre is not that of the chain of operations', chain=how)
        close(gq, q, tol * sc, 'the shape is not that of the chain of operations', chain=how)
        self.obj, self.c, self.q, self.how, self.set = obj, gc.copy(), gq.copy(), how, settings(obj)


class Hyp:
    def __init__(self, obj, n, s, how):
        gn, gs = hyp_data(obj)
        close(gn, n, 1e-9 * scale_of(n), 'the normal is not that of the chain of operations', chain=how)
        close(gs, s, 1e-9 * scale_of(s), 'the shift is not that of the chain of operations', chain=how)
        self.obj, self.n, self.s, self.how, self.set = obj, gn.copy(), float(gs), how, settings(obj)


def regular(e, lim=1e-3):
    w = np.linalg.eigvalsh(e.q)
    return w[0] > lim * max(1.0, w[-1]) and w[0] > lim


def tame(c, q):
    return scale_of(c, q) < 1e4


def unverify(w, op):
    for e in w['e']:
        c, q = ell_data(e.obj)
        expect(np.array_equal(c, e.c) and np.array_equal(q, e.q), 'an operation changed another ellipsoid', operation=op, chain=e.how,
               got=(c, q), before=(e.c, e.q))
        expect(settings(e.obj) == e.set, 'an operation changed the settings of an ellipsoid', operation=op, chain=e.how)
    for h in w['h']:
        n, s = hyp_data(h.obj)
        expect(np.array_equal(n, h.n) and s == h.s and settings(h.obj) == h.set, 'an operation changed another hyperplane', operation=op, chain=h.how)


def laws(e, rs):
    """Every query on the result agrees with its data."""
    E = S.Ellipsoid
    n, c, q, o = e.c.size, e.c, e.q, e.obj
    sc = scale_of(c, q)
    info = {'chain': e.how, 'centre': c, 'shape': q}
    l = rs.randn(n, 3)
    r, x = pair(call(E.rho, [o], l), 2)
    r, x = flat(r, 3), arr(x, (n, 3))
    for j in range(3):
        s = np.sqrt(max(0.0, l[:, j] @ q @ l[:, j]))
        close(r[j], l[:, j] @ c + s, 1e-7 * sc * max(1.0, np.linalg.norm(l[:, j])), 'the support function does not agree with the data', **info)
        if regular(e):
            close(x[:, j], c + q @ l[:, j] / s, 1e-6 * sc, 'the support vector does not agree with the data', **info)
    close(num(call(E.trace, [o])), np.trace(q), 1e-8 * sc * n, 'the trace does not agree with the data', **info)
    w = np.linalg.eigvalsh(q)
    close(num(call(E.max_eig, [o])), w[-1], 1e-8 * sc * n, 'the largest eigenvalue does not agree with the data', **info)
    if regular(e):
        close(num(call(E.min_eig, [o])), w[0], 1e-8 * sc * n, 'the least eigenvalue does not agree with the data', **info)
        v = num(call(E.volume, [o]))
        from math import gamma, pi
        ref = pi ** (n / 2.0) / gamma(n / 2.0 + 1) * np.sqrt(np.prod(w))
        close(v / ref, 1.0, 1e-6, 'the volume does not agree with the data', **info)
        expect(not boolean(call(E.is_degenerate, [o])), 'a regular ellipsoid is said to be degenerate', **info)
        f = np.linalg.cholesky(q)
        u = rs.randn(n, 4)
        u /= np.linalg.norm(u, axis=0)
        k = np.array([0.0, 0.97, 1.03, 1.5])
        pts = c[:, None] + f @ (u * k)
        got = bools(call(E.is_internal, [o], pts, 'u')).ravel()
        expect(list(got) == [True, True, False, False], 'membership does not agree with the data', got=got, **info)
    expect(num(call(E.dimension, [o])) == n, 'the dimension does not agree with the data', **info)


class View:
    """What the queries of C29 work with."""
    def __init__(self, es, hs, n, data):
        self.n, self.e, self.h = n, es, hs
        self.dirs, self.pts, self.basis = [a.copy() for a in data]


RS = np.random.RandomState(0)      # (creating one takes PyPy 4 ms)


def view_data(n, seed):
    RS.seed(seed)
    return RS.randn(n, 2), RS.randn(n, 3), np.linalg.qr(RS.randn(n, n))[0][:, :1 + RS.randint(n)]


def ask(w, s, n, stats):
    """The same query on the objects of the history and on fresh ones with the same data and settings."""
    es = [e for e in w['e'] if e.c.size == n][-6:]
    hs = [h for h in w['h'] if h.n.size == n][-6:]
    data = view_data(n, s['seed'])
    for name, ix in s['qs']:
        if (name.startswith('h_') and not hs) or not es:
            continue
        fe = [S.Ellipsoid(e.c.copy(), e.q.copy(), **dict(zip(PROPS, kind(e.set)))) for e in es]
        fh = [S.Hyperplane(h.n.copy(), h.s, **dict(zip(PROPS, h.set))) for h in hs]
        a = run(QUERIES[name], View([e.obj for e in es], [h.obj for h in hs], n, data), ix, 'arr')[0]
        b = run(QUERIES[name], View(fe, fh, n, data), ix, 'arr')[0]
        info = {'query': name, 'args': ix, 'chains': [e.how for e in es], 'hyperplanes': [h.how for h in hs]}
        expect(a[0] == b[0], 'a query %s only the results of operations' % ('accepts' if a[0] == 'ok' else 'refuses'), now=a, fresh=b, **info)
        if a[0] == 'ok':
            stats['asked'] += any(len(e.how) > 2 for e in es)
            stats['names'].add(name)
            expect(same(a, b, 1e-8), 'the answer differs from that for fresh objects with the same data', now=a, fresh=b, **info)


ALL = [q for q in sorted(QUERIES) if not q.startswith('h_')]


def everything(es, s, rs, stats):
    """All the queries on each of the ellipsoids alone: before and after a change in place."""
    for e in es:
        ask({'e': [e], 'h': []}, {'qs': [[q, [0]] for q in ALL], 'seed': s['seed']}, e.c.size, stats)


def kind(st):
    return [float(st[0]), float(st[1]), int(st[2]), int(st[3])]


def take(pool, s):
    first = pool[s['a'] % len(pool)]
    rest = [e for e in pool if e is not first and size(e) == size(first)]
    return [first] + rest[:s['sel'] - 1]


def size(e):
    return (e.c if isinstance(e, Ell) else e.n).size


def arg(es, s):
    o = [e.obj for e in es]
    return o if s['lst'] else obj_array(o, (len(o),))


def step(w, s, stats):
    E, H, op = S.Ellipsoid, S.Hyperplane, s['op']
    rs = np.random.RandomState(s['seed'])
    new, newh = [], []
    es = take(w['e'], s)
    hs = take(w['h'], s) if w['h'] else []
    how = lambda e: e.how + [op]
    if op == 'new':
        new = [Ell(call(E, A(s['c']), M(s['q']), **s['p']), A(s['c']), M(s['q']), ['new'], 0)]
    elif op == 'newh':
        newh = [Hyp(call(H, A(s['n']), s['s'], **s['p']), A(s['n']), s['s'], ['new'])]
    elif op == 'uminus':
        new = [Ell(o, -e.c, e.q, how(e), 0) for e, o in zip(es, objs_of(call(E.uminus, arg(es, s)), len(es), E))]
    elif op == 'copy':
        new = [Ell(o, e.c, e.q, how(e), 0) for e, o in zip(es, objs_of(call(E.get_copy, arg(es, s)), len(es), E))]
        for e, f in zip(es, new):
            expect(e.set == f.set, 'a copy has other settings', chain=f.how)
    elif op == 'rep':
        e = es[0]
        new = [Ell(o, e.c, e.q, how(e), 0) for o in objs_of(call(e.obj.rep_mat, [2]), 2, E)][:1]
    elif op == 'dict':
        da = pair(call(E.to_dict, arg(es, s), s['props']), 4)[0]
        new = [Ell(o, e.c, e.q, how(e), 0) for e, o in zip(es, objs_of(call(E.from_dict, da), len(es), E))]
        if s['props']:
            for e, f in zip(es, new):
                expect(e.set == f.set, 'an ellipsoid rebuilt from its structure has other settings', chain=f.how)
    elif op in ('proj', 'get_proj'):
        n = es[0].c.size
        k = max(1, n - s['k'])
        u = np.linalg.qr(rs.randn(n, n))[0][:, :k].copy()
        b = u * rs.uniform(0.3, 3.0, k)
        if op == 'proj':
            before = [(e.c, e.q) for e in es]
            most = es[:1] if s['seed'] % 3 or k == n else []
            everything(most, s, rs, stats)
            out = objs_of(call(E.projection, arg(es, s), b), len(es), E)
            for e, o, (c, q) in zip(es, out, before):
                expect(o is e.obj, 'the in-place projection returns another object')
                e.__init__(o, u.T @ c, u.T @ q @ u, how(e))
                laws(e, rs)
            everything(most, s, rs, stats)
        else:
            new = [Ell(o, u.T @ e.c, u.T @ e.q @ u, how(e)) for e, o in zip(es, objs_of(call(E.get_projection, arg(es, s), b), len(es), E))]
    elif op == 'polar':
        ok = []
        for e in es:
            m = e.q - np.outer(e.c, e.c)
            v = np.linalg.eigvalsh(m)
            if regular(e) and v[0] > 1e-2 * max(1.0, v[-1]):
                ok.append(e)
        if ok:
            for e, o in zip(ok, objs_of(call(E.polar, arg(ok, s)), len(ok), E)):
                mi = np.linalg.inv(e.q - np.outer(e.c, e.c))
                c = -mi @ e.c
                new.append(Ell(o, c, (1 + e.c @ mi @ e.c) * mi, how(e), 1e-7))
    elif op in ('ea', 'ia'):
        es = [e for e in es if regular(e)]
        if es:
            n = es[0].c.size
            l = rs.randn(n, s['nd'])
            out = objs_of(call(E.minksum_ea if op == 'ea' else E.minksum_ia, arg(es, s), l), s['nd'], E)
            c = sum(e.c for e in es)
            hw = max((e.how for e in es), key=len) + [op]
            probe = rs.randn(n, 12)
            for j, o in enumerate(out):
                lj = l[:, j]
                gc, gq = ell_data(o, n)
                sc = scale_of(c, *[e.q for e in es]) * len(es)
                if op == 'ea':
                    sig = [np.sqrt(lj @ e.q @ lj) for e in es]
                    f = Ell(o, c, sum(sig) * sum(e.q / a for e, a in zip(es, sig)), hw, 1e-7)
                else:
                    close(gc, c, 1e-9 * sc, 'the centre of an internal approximation is not the sum of the centres', chain=hw)
                    f = Ell(o, gc, gq, hw)
                for x, tight in [(lj, True)] + [(probe[:, i], False) for i in range(12)]:
                    tot = sum(supf(e.c, e.q, x) for e in es)
                    now = supf(gc, gq, x)
                    tol = 1e-6 * sc * max(1.0, np.linalg.norm(x))
                    expect(now <= tot + tol if op == 'ia' else now >= tot - tol, 'an approximation does not lie on its side of the sum',
                           kind=op, chain=hw, direction=x, got=now, sum=tot)
                    if tight:
                        expect(abs(now - tot) <= tol, 'an approximation is not tight in its direction', kind=op, chain=hw, direction=x, got=now, sum=tot)
                new.append(f)
    elif op == 'uminush' and hs:
        newh = [Hyp(o, -h.n, -h.s, how(h)) for h, o in zip(hs, objs_of(call(H.uminus, arg(hs, s)), len(hs), H))]
    elif op == 'copyh' and hs:
        newh = [Hyp(o, h.n, h.s, how(h)) for h, o in zip(hs, objs_of(call(H.get_copy, arg(hs, s)), len(hs), H))]
    elif op == 'dicth' and hs:
        da = pair(call(H.to_dict, arg(hs, s), s['props']), 4)[0]
        for h, o in zip(hs, objs_of(call(H.from_dict, da), len(hs), H)):
            k = (-1.0 if h.s < 0 else 1.0) / np.linalg.norm(h.n)
            newh.append(Hyp(o, h.n * k, h.s * k, how(h)))
    elif op == 'conf':
        call(S.Properties.set_abs_tol, s['tol'])
        if not 1e-8 < s['tol'] < 1e-4:   # the objects there are keep their own tolerances
            everything(es[:1], s, rs, stats)
            unverify(w, op)
            call(S.Properties.set_abs_tol, 1e-7)
    elif op == 'verb':
        call(S.Properties.set_is_verbose, not call(S.Properties.get_is_verbose))
    for e in new:
        expect(all(e.obj is not f.obj for f in w['e']), 'an operation returns an existing object', operation=op, chain=e.how)
        laws(e, rs)
        if tame(e.c, e.q):
            w['e'].append(e)
            stats['depth'] = max(stats['depth'], len(e.how))
    w['h'] += newh
    del w['e'][:max(0, len(w['e']) - 14)]
    del w['h'][:max(0, len(w['h']) - 8)]
    unverify(w, op)
    n = size((new or newh or es or w['e'])[0])
    ask(w, s, n, stats)
    unverify(w, [q[0] for q in s['qs']])
    return bool(new or newh or op in ('proj', 'conf', 'verb'))


def chk(cs):
    S.Properties.init()
    try:
        w = {'e': [Ell(mk_ell(e), A(e['c']), M(e['q']), ['new'], 0) for e in cs['init']], 'h': []}
        stats = {'asked': 0, 'depth': 1, 'names': set()}
        tags = set()
        for s in cs['steps']:
            if step(w, s, stats):
                tags.add(s['op'])
        if stats['depth'] > 3:
            tags.add('deep chain')
        return res(stats['asked'] > 0 and stats['depth'] > 2, *sorted(tags))
    finally:
        S.Properties.init()


facet(P, 'chains', gen, chk, 280, large=24,
      rule='histories of 2..10 (16, 40) operations (creation, negation, copies, replicas, structures and back, projections in place and not, '
           'polars, sums from outside and inside, hyperplanes, configuration writes) on a pool of 2..9 ellipsoids of dimensions 1..5 (10); after '
           'each the data against the matrices of the chain, 12 laws and 1..3 of 50 queries against fresh objects, around a projection in place all the queries; non-trivial: a chain of '
           'at least three operations and a query on its result')
