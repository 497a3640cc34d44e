"""C02: value semantics - no aliasing, independent copies, in-place projection changes exactly its arguments."""
from vf.registry import facet
from vf.oracle import *

P = 'C02'
DEF = {'abs_tol': 1e-6, 'rel_tol': 1e-5, 'n_plot_2d_points': 200, 'n_plot_3d_points': 200}
OPS = ['new', 'mut_in', 'mut_out', 'copy', 'rep', 'from_rep', 'dict', 'proj', 'proj', 'proj_bad', 'get_proj', 'uminus',
       'query', 'newh', 'copyh', 'reph', 'dicth', 'mut_outh', 'uminush', 'get_proj_bad', 'from_reph']


def gen_p(d, hyp=False):
    p = {}
    if d.bool():
        p['abs_tol'] = d.choice([1e-5, 1e-4, 1e-3])
    if d.bool():
        p['rel_tol'] = d.choice([1e-3, 1e-2])
    if not hyp and d.bool():
        p['n_plot_2d_points'] = d.int(1, 300)
    if not hyp and d.bool():
        p['n_plot_3d_points'] = d.int(1, 300)
    return p


def gen_hist(d):
    steps = []
    k = d.int(2, 12) if not d.big else d.int(4, 40 + 20 * (d.lvl == 2))
    top = d.int(5, d.sz(8, 10, 14)) if d.chance(12) else 4
    dims = (1, 2, 3, top)
    for i in range(k):
        op = 'new' if i == 0 else ('newh' if i == 1 and d.bool() else d.choice(OPS))
        s = {'op': op, 'a': d.int(0, 9), 'b': d.int(0, 9), 'v': d.real(-5, 5)}
        if op in ('new', 'from_rep'):
            n = d.weighted([(3, 2), (3, 3), (1, 1), (1 if top == 4 else 4, top)])
            s.update(c=d.vec(n), q=d.psd(n) if d.bool() else d.spd(n), p=gen_p(d), one=d.chance(20))
        if op in ('newh', 'from_reph'):
            n = d.choice(dims)
            s.update(n=d.dirv(n), s=d.real(-5, 5), p=gen_p(d, True))
        if op in ('copy', 'proj', 'proj_bad', 'get_proj', 'get_proj_bad', 'uminus', 'dict', 'copyh', 'uminush', 'dicth'):
            s['sel'] = d.int(1, 3)
            s['lst'] = d.bool()
        if op in ('proj', 'get_proj'):
            s['u'] = [d.orth(n) for n in dims]
            s['k'] = [d.int(1, n) for n in dims]
            s['sc'] = [d.pos(0.2, 5) for _ in range(top)]
        if op in ('proj_bad', 'get_proj_bad'):
            s['bad'] = d.choice(['angle', 'neg', 'dim', 'many', 'mixed'])
        if op in ('rep', 'from_rep', 'reph', 'from_reph'):
            s['shape'] = d.choice([[1], [2], [3], [1, 2], [2, 2]])
        if op in ('dict', 'dicth'):
            s['props'] = d.bool()
        steps.append(s)
    return {'steps': steps}


class World:
    def __init__(self):
        self.ell = []  # [obj, centre, shape, props]
        self.hyp = []  # [obj, normal, shift, props]
        self.ins = []  # arrays that were passed in

    def add_ell(self, o, c, q, p):
        if not isinstance(o, S.Ellipsoid):
            fail('not an ellipsoid', value=o)
        if len(self.ell) < 14:
            self.ell.append([o, np.array(c, float), np.array(q, float), dict(DEF, **p)])

    def add_hyp(self, o, n, s, p):
        if not isinstance(o, S.Hyperplane):
            fail('not a hyperplane', value=o)
        if len(self.hyp) < 10:
            full = {k: DEF[k] for k in ('abs_tol', 'rel_tol')}
            full.update(p)
            self.hyp.append([o, np.array(n, float), float(s), full])

    def verify(self, step):
        for i, (o, c, q, p) in enumerate(self.ell):
            gc, gq = ell_data(o)
            if not np.array_equal(gc, c) or not np.array_equal(gq, q):
                fail('ellipsoid %d changed (after %s)' % (i, step), centre=gc, shape=gq, expected_centre=c,
                     expected_shape=q)
            for k, v in p.items():
                if num(call(S.Ellipsoid.get_property, [o], k, None)) != v:
                    fail('ellipsoid %d has another %s (after %s)' % (i, k, step), expected=v)
        for i, (o, n, s, p) in enumerate(self.hyp):
            gn, gs = hyp_data(o)
            if not np.array_equal(gn, n) or gs != s:
                fail('hyperplane %d changed (after %s)' % (i, step), normal=gn, shift=gs, expected_normal=n,
                     expected_shift=s)
            for k, v in p.items():
                if num(call(S.Hyperplane.get_property, [o], k, None)) != v:
                    fail('hyperplane %d has another %s (after %s)' % (i, k, step), expected=v)


def poison(x, v):
    if isinstance(x, np.ndarray) and x.size and x.flags.writeable and x.dtype.kind == 'f':
        x[...] = v + 77.0


def pick(lst, s, same_dim=None):
    if not lst:
        return []
    out = []
    for j in range(s['sel']):
        e = lst[(s['a'] + j * (1 + s['b'])) % len(lst)]
        if all(e is not x for x in out):
            out.append(e)
    if same_dim:
        out = [e for e in out if e[1].size == out[0][1].size]
    return out


def rep(es, s):
    """Sometimes one object stands at several places."""
    return es + es[:1] if es and s['b'] % 3 == 1 else es


def as_arg(es, s):
    os_ = [e[0] for e in es]
    m = len(os_)
    return os_ if s['lst'] else obj_array(os_, [(m,), (1, m), (m, 1, 1), (1, 1, m)][(s['a'] + s['b']) % 4])


def apply(w, s):
    E, H, op, v = S.Ellipsoid, S.Hyperplane, s['op'], s['v']
    if op == 'new':
        c, q = A(s['c']), M(s['q'])
        c0, q0 = c.copy(), q.copy()
        if s['one']:
            o = call(E, q, **s['p'])
            c0 = np.zeros(len(c0))
        else:
            o = call(E, c, q, **s['p'])
        w.add_ell(o, c0, q0, s['p'])
        w.ins += [c, q]
    elif op == 'newh':
        n = A(s['n'])
        sh = np.array([s['s']])
        o = call(H, n, sh, **s['p'])
        w.add_hyp(o, n.copy(), s['s'], s['p'])
        w.ins += [n, sh]
    elif op == 'mut_in':
        for a in w.ins:
            poison(a, v)
    elif op == 'mut_out' and w.ell:
        o = w.ell[s['a'] % len(w.ell)][0]
        outs = list(call(o.double)) + list(call(o.parameters)) + [call(o.get_center_vec), call(o.get_shape_mat)]
        for a in outs:
            poison(a, v)
        poison(call(E.get_abs_tol, [o], None), v)
        poison(call(E.get_n_plot_2d_points, [o]), v)
    elif op == 'mut_outh' and w.hyp:
        o = w.hyp[s['a'] % len(w.hyp)][0]
        for a in list(call(o.double)) + list(call(o.parameters)):
            poison(a, v)
    elif op == 'copy' and w.ell:
        es = rep(pick(w.ell, s), s)
        for e, o in zip(es, objs_of(call(E.get_copy, as_arg(es, s)), len(es), E, 'copies')):
            expect(o is not e[0], 'a copy is the same object')
            w.add_ell(o, e[1], e[2], e[3])
    elif op == 'copyh' and w.hyp:
        es = rep(pick(w.hyp, s), s)
        for e, o in zip(es, objs_of(call(H.get_copy, as_arg(es, s)), len(es), H, 'copies')):
            expect(o is not e[0], 'a copy is the same object')
            w.add_hyp(o, e[1], e[2], e[3])
    elif op in ('rep', 'reph'):
        lst, cls, add = (w.ell, E, w.add_ell) if op == 'rep' else (w.hyp, H, w.add_hyp)
        if lst:
            e = lst[s['a'] % len(lst)]
            r = call(e[0].rep_mat, s['shape'])
            os_ = objs_of(r, int(np.prod(s['shape'])), cls, 'replicas')
            expect(np.asarray(r, dtype=object).shape == tuple(s['shape']), 'replicas have a wrong layout')
            ids = [id(x) for x in os_] + [id(e[0])]
            expect(len(set(ids)) == len(ids), 'replicas are not distinct objects')
            for o in os_:
                add(o, e[1], e[2], e[3])
    elif op == 'from_rep':
        c, q = A(s['c']), M(s['q'])
        os_ = objs_of(call(E.from_rep_mat, c, q, s['shape'], **s['p']), int(np.prod(s['shape'])), E)
        expect(len(set(map(id, os_))) == len(os_), 'replicas are not distinct objects')
        for o in os_:
            w.add_ell(o, c.copy(), q.copy(), s['p'])
        w.ins += [c, q]
    elif op == 'from_reph':
        n = A(s['n'])
        os_ = objs_of(call(H.from_rep_mat, n, s['s'], s['shape'], **s['p']), int(np.prod(s['shape'])), H)
        expect(len(set(map(id, os_))) == len(os_), 'replicas are not distinct objects')
        for o in os_:
            w.add_hyp(o, n.copy(), s['s'], s['p'])
        w.ins += [n]
    elif op in ('dict', 'dicth'):
        lst, cls = (w.ell, E) if op == 'dict' else (w.hyp, H)
        es = pick(lst, s)
        if es:
            da = pair(call(cls.to_dict, as_arg(es, s), s['props']), 4)[0]
            ds = list(np.asarray(da).ravel())
            new = objs_of(call(cls.from_dict, da), len(es), cls, 'rebuilt objects')
            for e, o in zip(es, new):
                if op == 'dict':
                    w.add_ell(o, e[1], e[2], e[3] if s['props'] else {})
                else:  # the dictionary holds the normalised hyperplane
                    gn, gs = hyp_data(o)
                    w.add_hyp(o, gn, gs, e[3] if s['props'] else {})
            for dd in ds:
                for a in dd.values():
                    poison(a, v)
                dd['abs_tol'] = 0.5
    elif op in ('proj', 'get_proj') and w.ell:
        es = pick(w.ell, s, True)
        n = es[0][1].size
        if not 1 <= n <= 4:
            return
        j = [len(u) for u in s['u']].index(n) if n in [len(u) for u in s['u']] else None
        k = s['k'][j] if j is not None else max(1, n - 1)
        ub = (M(s['u'][j]) if j is not None else np.eye(n))[:, :k]
        b = ub * np.array(s['sc'][:k])
        b0 = b.copy()
        r = call(E.projection if op == 'proj' else E.get_projection, as_arg(es, s), b)
        expect(np.array_equal(b, b0), 'the basis was modified')
        os_ = objs_of(r, len(es), E, 'projections')
        for e, o in zip(es, os_):
            c, q = ell_data(o, k, 'projection')
            sc = scale_of(e[1], e[2])
            close(c, ub.T @ e[1], 1e-9 * sc, 'projected centre is wrong')
            close(q, ub.T @ e[2] @ ub, 1e-9 * sc, 'projected shape is wrong')
            if op == 'proj':
                expect(o is e[0], 'in-place projection returned another object')
                e[1], e[2] = c.copy(), q.copy()
            else:
                expect(all(o is not x[0] for x in w.ell), 'get_projection returned an existing object')
                w.add_ell(o, c.copy(), q.copy(), e[3])
        w.ins.append(b)
    elif op in ('proj_bad', 'get_proj_bad') and w.ell:
        es = pick(w.ell, s, True)
        n = es[0][1].size
        bad = s['bad']
        arg = as_arg(es, s)
        if bad in ('angle', 'neg') and n > 1:
            b = np.eye(n)[:, :2].copy()
            b[0, 1] = 0.5 if bad == 'angle' else -0.5
        elif bad == 'many':
            b = np.hstack([np.eye(n), np.ones((n, 1))])
        elif bad == 'mixed':
            arg = obj_array([es[0][0], call(E, np.eye(n + 1))], (2,))
            b = np.eye(n)
        else:
            b = np.eye(n + 1)
        rejects('projection on a bad basis (%s)' % bad, E.projection if op == 'proj_bad' else E.get_projection, arg, b)
    elif op == 'uminus' and w.ell:
        es = pick(w.ell, s)
        for e, o in zip(es, objs_of(call(E.uminus, as_arg(es, s)), len(es), E, 'negated')):
            c, q = ell_data(o)
            expect(np.array_equal(c, -e[1]) and np.array_equal(q, e[2]), 'negation is wrong', got=(c, q), of=(e[1], e[2]))
            poison(call(o.double)[0], v)
    elif op == 'uminush' and w.hyp:
        es = pick(w.hyp, s)
        for e, o in zip(es, objs_of(call(H.uminus, as_arg(es, s)), len(es), H, 'negated')):
            n, sh = hyp_data(o)
            expect(np.array_equal(n, -e[1]) and sh == -e[2], 'negation is wrong', got=(n, sh), of=(e[1], e[2]))
    elif op == 'query' and w.ell:
        e = w.ell[s['a'] % len(w.ell)]
        n = e[1].size
        call(E.rho, [e[0]], np.ones((n, 1)))
        call(E.is_internal, [e[0]], np.ones((n, 1)), 'u')
        call(E.volume, [e[0]])
        call(e[0].is_bigger, e[0])
        call(E.minksum_ea, [e[0], w.ell[0][0]] if w.ell[0][1].size == n else [e[0]], np.ones((n, 1)))
        call(E.is_equal, [e[0]], [e[0]])


def chk_hist(cs):
    w = World()
    done = set()
    for i, s in enumerate(cs['steps']):
        apply(w, s)
        w.verify('step %d, %s' % (i + 1, s['op']))
        done.add(s['op'])
    mut = done & {'mut_in', 'mut_out', 'mut_outh', 'proj', 'dict', 'dicth', 'uminus', 'proj_bad', 'get_proj_bad'}
    return res(len(mut) > 0, *sorted(done))


facet(P, 'histories', gen_hist, chk_hist, 900,
      rule='histories of 2..12 (40) creations, copies, replications, dictionary round trips, in-place and copying '
           'projections (good and refused), and overwriting of every array passed in or returned, against an exact '
           'model of every live object; non-trivial: at least one mutating step')
