"""C10: equality of ellipsoids and hyperplanes."""
from vf.registry import facet
from vf.oracle import *

P = 'C10'
ATOLS = [1e-6, 1e-6, 1e-4, 1e-3]
RTOLS = [1e-5, 1e-5, 1e-3]


def gen_p(d, hyp=False):
    p = {}
    if d.bool():
        p['abs_tol'] = d.choice(ATOLS)
    if d.bool():
        p['rel_tol'] = d.choice(RTOLS)
    if not hyp and d.chance(30):
        p['n_plot_2d_points'] = d.int(1, 400)
    if not hyp and d.chance(30):
        p['n_plot_3d_points'] = d.int(1, 400)
    return p


def gen_base(d, n, hyp):
    if hyp:
        near0 = d.choice([0.0, 1.0, -1.0, 1.0, -1.0]) * d.choice([1e-9, 2e-7, 4e-7, 6e-7, 9e-7, 3e-6, 2e-5, 2e-4, 6e-4, 0.01])
        v = d.dirv(n)
        return {'n': v, 's': near0 if d.chance(30) and max(map(abs, v)) > 0.02 else d.choice([d.real(1, 5), -d.real(1, 5), d.real(0.2, 1)]), 'p': gen_p(d, True)}
    return {'c': d.vec(n), 's': d.spd(n, 0.3, 3) if d.chance(70) else d.psd(n, None, 0.3, 3), 'p': gen_p(d)}


KINDS = ['same', 'near', 'far_c', 'far_s', 'dim', 'edge_in', 'edge_out']
HKINDS = ['same', 'near', 'far_n', 'far_sh', 'dim', 'scaled', 'neg', 'edge_in', 'edge_out', 'opp']


def gen_pairs(hyp):
    def g(d):
        lay = d.choice([[1], [2], [3], [1, 2], [2, 1], [2, 2], [2, 1, 2]] if d.lvl < 2 else [[d.int(5, 80)], [d.int(2, 9), d.int(2, 9)], [2, 3, d.int(2, 9)]])
        m = 1
        for x in lay:
            m *= x
        mode = d.choice(['both', 'one_first', 'one_second']) if m > 1 else 'both'
        ps = []
        for i in range(m):
            n = d.int(1, d.sz(4, 4, 10))
            b = gen_base(d, n, hyp) if i == 0 or mode == 'both' else None
            ps.append({'b': b, 'k': d.choice(HKINDS if hyp else KINDS), 'i': d.int(0, 9), 'j': d.int(0, 9),
                       'f': d.choice([0.3, -0.3, 0.45]), 'g': d.choice([30.0, -30.0, 1e3]), 'p2': gen_p(d, hyp),
                       'sc': d.choice([2.0, 0.1, 7.5, 100.0, -3.0, -0.5])})
        if d.chance(25):   # one object alone asks for strict tolerances
            every = [o for p in ps for o in ((p['b'], 'p'), (p, 'p2')) if o[0] is not None]
            for o, k in every:
                o[k].update(abs_tol=1e-3, rel_tol=1e-2)
            if d.chance(70):
                o, k = d.choice(every)
                o[k].update(abs_tol=1e-6, rel_tol=1e-5)
        return {'lay': lay, 'mode': mode, 'ps': ps, 'list': d.bool(), 'swap': d.bool(), 'olay': d.choice([0, 1, 1, 2, 3]),
                'deflt': mode != 'both' and d.bool()}
    return g


def tols(objs_p):
    at = min([p.get('abs_tol', 1e-6) for p in objs_p])
    rt = min([p.get('rel_tol', 1e-5) for p in objs_p])
    return at, rt


def differ(x, y, at, rt):
    """True: clearly unequal; False: clearly equal; None: close to the tolerance."""
    x, y = np.asarray(x, float).ravel(), np.asarray(y, float).ravel()
    if x.size != y.size:
        return True
    d = np.abs(x - y)
    rel = d / np.maximum(0.5 * (np.abs(x) + np.abs(y)), 1e-300)
    bad = (d > at) & (rel > rt)
    near = np.any((np.abs(d - at) < 1e-3 * at) | ((d > at) & (np.abs(rel - rt) < 1e-3 * rt)))
    sure = (d > at * 1.01) & (rel > rt * 1.01)
    if np.any(sure):
        return True
    if near:
        return None
    return bool(np.any(bad))


def second_ell(b, pr, at, rt):
    c, s = A(b['c']), M(b['s'])
    n = c.size
    k = pr['k']
    c2, s2 = c.copy(), s.copy()
    i, j = pr['i'] % n, pr['j'] % n
    if k == 'near':
        c2[i] += pr['f'] * at
        s2[i, i] += abs(pr['f']) * at
    elif k == 'far_c':
        c2[i] += pr['g'] * (at + rt * (1 + abs(c[i])))
    elif k == 'far_s':
        s2[i, i] += abs(pr['g']) * (at + rt * (1 + abs(s[i, i])))
    elif k == 'dim':
        c2 = np.append(c, 1.0)
        s2 = np.zeros((n + 1, n + 1))
        s2[:n, :n] = s
        s2[n, n] = 1.0
    elif k == 'edge_in':
        c2[i] = c[i] + 0.9 * max(at, rt * abs(c[i]))
    elif k == 'edge_out':
        c2[i] = c[i] + 1.2 * max(at, rt * abs(c[i]) * 1.2)
    return c2, s2


def norm_h(n, s):
    m = np.linalg.norm(n)
    n, s = n / m, s / m
    return (-n, -s) if s < 0 else (n, s)


def second_hyp(b, pr, at, rt):
    n, s = A(b['n']), float(b['s'])
    k, i = pr['k'], pr['i'] % n.size
    nn = np.linalg.norm(n)
    n2, s2 = n.copy(), s
    if k == 'near':
        s2 += pr['f'] * at * nn
    elif k == 'far_n' and n.size > 1:
        e = np.zeros(n.size)
        e[i] = 1.0
        e = e - (e @ n) / nn ** 2 * n
        if np.linalg.norm(e) < 1e-3:
            e = np.zeros(n.size)
            e[(i + 1) % n.size] = 1.0
            e = e - (e @ n) / nn ** 2 * n
        n2 = n + abs(pr['g']) * (at + 2 * rt) * 3 * nn * e / np.linalg.norm(e)
    elif k in ('far_sh', 'far_n'):
        s2 = s + np.sign(s) * abs(pr['g']) * (at + rt * (1 + abs(s))) * max(1.0, nn)
    elif k == 'dim':
        n2 = np.append(n, 1.0)
    elif k == 'scaled':
        n2, s2 = n * pr['sc'], s * pr['sc']
    elif k == 'neg':
        n2, s2 = -n, -s
    elif k == 'edge_in':
        s2 = s + np.sign(s) * 0.9 * max(at * nn, rt * abs(s))
    elif k == 'edge_out':
        s2 = s + np.sign(s) * 1.2 * max(at * nn, rt * abs(s) * 1.2)
    elif k == 'opp':
        s2 = -s
    return n2, s2


def chk_pairs(hyp):
    def chk(cs):
        cls = S.Hyperplane if hyp else S.Ellipsoid
        ps = cs['ps']
        m = len(ps)
        lay = tuple(cs['lay'])
        base0 = ps[0]['b']
        bases = [base0 if cs['mode'] != 'both' else p['b'] for p in ps]
        firsts_p = [bases[0]['p']] if cs['mode'] != 'both' else [b['p'] for b in bases]
        at, rt = tols(firsts_p + [p['p2'] for p in ps])
        seconds = []
        for b, pr in zip(bases, ps):
            seconds.append((second_hyp if hyp else second_ell)(b, pr, at, rt))
        if hyp:
            fo = [call(cls, A(b['n']), b['s'], **b['p']) for b in (bases if cs['mode'] == 'both' else bases[:1])]
            so = [call(cls, n, s, **pr['p2']) for (n, s), pr in zip(seconds, ps)]
        else:
            fo = [call(cls, A(b['c']), M(b['s']) @ M(b['s']), **b['p'])
                  for b in (bases if cs['mode'] == 'both' else bases[:1])]
            so = [call(cls, c, s @ s, **pr['p2']) for (c, s), pr in zip(seconds, ps)]
        exp = []
        for b, (x, y) in zip(bases, seconds):
            if hyp:
                n1, s1 = norm_h(A(b['n']), float(b['s']))
                n2, s2 = norm_h(x, y)
                if n1.size == n2.size and n1 @ n2 < 0:    # near the origin either of the opposite normals describes it
                    n2, s2 = -n2, -s2
                ds = [differ(n1, n2, at, rt), differ(s1, s2, at, rt)]
            else:
                r1 = M(b['s'])
                ds = [differ(A(b['c']), x, at, rt), differ(r1, y, at, rt)]
            exp.append(False if any(v is True for v in ds) else (None if any(v is None for v in ds) else True))
        shp = lay if m > 1 else (1,)
        sa = list(so) if (cs['list'] and len(shp) == 1) else obj_array(so, shp)
        if cs['mode'] == 'both' and m > 1:
            fa = list(fo) if (cs['list'] and len(shp) == 1) else obj_array(fo, shp)
        else:
            # a single object: as it is or alone in an array of any number of axes
            fa = fo[0] if cs['olay'] == 0 else [fo[0]] if cs['list'] else obj_array(fo[:1], (1,) * cs['olay'])
        first, second = (fa, sa) if cs['mode'] != 'one_second' else (sa, fa)
        if cs['mode'] == 'both' and cs['swap']:
            first, second = sa, fa
        for f in (cls.is_equal, cls.eq):
            r, rep = pair(call(f, first, second), 2)
            r = bools(r, shp if m > 1 else np.shape(np.array(second, dtype=object)), 'equality')
            expect(isinstance(rep, str), 'the report is not a string', got=rep)
            for i, (g, e) in enumerate(zip(r.ravel(), exp)):
                if e is not None and bool(g) != e:
                    fail('equality is wrong', index=i, kind=ps[i]['k'], got=bool(g), expected=e, tolerances=(at, rt),
                         first=bases[i], second=seconds[i])
            if not np.all(r):
                expect(len(rep) > 0, 'no report accompanies an inequality', got=r)
        r2, _ = pair(call(cls.is_equal, second, first), 2)
        expect(np.array_equal(bools(r2, shp if m > 1 else np.shape(np.array(first, dtype=object))).ravel(), r.ravel()), 'equality is not symmetric', first=r, swapped=r2)
        if m == 1:
            g = call(lambda a, b: a == b, fo[0], so[0])
            expect(bool(g) == bool(r.ravel()[0]), '== disagrees with is_equal', got=g, expected=r)
        # reflexivity
        r3, rep3 = pair(call(cls.is_equal, sa, sa), 2)
        expect(np.all(bools(r3, shp)) and rep3 == '', 'not reflexive', got=r3, report=rep3)
        ks = {p['k'] for p in ps}
        return res(m > 1 or any(e is False for e in exp), cs['mode'], *ks)
    return chk


facet(P, 'ellipsoids', gen_pairs(False), chk_pairs(False), 500,
      rule='arrays (1-3 dims, lists) or one-to-many; second object the same, within 0.9 tolerance, 1.2 tolerances off, '
           'far off, or of another dimension; non-trivial: several objects or an unequal pair')
facet(P, 'hyperplanes', gen_pairs(True), chk_pairs(True), 500,
      rule='as above, also rescaled and negated hyperplanes, some through the origin or near it on either side; non-trivial: several objects or an unequal pair')


# ---- settings included
def gen_props(d):
    hyp = d.bool()
    n = d.int(1, 3)
    names = ['abs_tol', 'rel_tol'] + ([] if hyp else ['n_plot_2d_points', 'n_plot_3d_points'])
    m = d.count(1, 3, 3, 60)
    base = gen_base(d, n, hyp)
    base['p'] = dict(base['p'])
    if hyp and abs(base['s']) < 0.1:
        base['s'] = d.real(1, 5)
    for nm, v in (('abs_tol', 1e-4), ('rel_tol', 1e-4)):
        base['p'][nm] = v
    items = []
    for _ in range(m):
        items.append({'diff': d.choice([None, None] + names), 'data': d.chance(25), 'i': d.int(0, 9)})
    return {'hyp': hyp, 'b': base, 'items': items, 'np': d.int(1, 300), 'one': d.bool(), 'olay': d.choice([0, 1, 1, 2, 3]),
            'big': d.choice([5e-3, 0.05, 0.5]), 'dn': d.choice([1, 7, -1, 100])}


def chk_props(cs):
    hyp = cs['hyp']
    cls = S.Hyperplane if hyp else S.Ellipsoid
    b = cs['b']
    p0 = dict(b['p'])
    if not hyp:
        p0['n_plot_2d_points'] = cs['np'] + 1
        p0['n_plot_3d_points'] = cs['np'] + 2

    def mk(p, shift):
        if hyp:
            return call(cls, A(b['n']), b['s'] + shift, **p)
        return call(cls, A(b['c']) + shift, M(b['s']) @ M(b['s']), **p)

    first, second, exp, exp0 = [], [], [], []
    for it in cs['items']:
        p = dict(p0)
        nm = it['diff']
        if nm in ('abs_tol', 'rel_tol'):
            p[nm] = cs['big']
        elif nm:
            v = p[nm] + cs['dn']
            p[nm] = v if v > 0 else p[nm] + 1
        sh = (5.0 if not hyp else 5.0 * (1 if b['s'] > 0 else -1)) if it['data'] else 0.0
        first.append(mk(p0, 0.0))
        second.append(mk(p, sh))
        exp.append(nm is None and not it['data'])
        exp0.append(not it['data'])
    fa, sa = obj_array(first, (len(first),)), obj_array(second, (len(second),))
    if cs['one']:
        fa = first[0] if cs['olay'] == 0 else obj_array(first[:1], (1,) * cs['olay'])
    rshp = (len(second),) if len(second) > 1 else np.shape(np.array(fa, dtype=object))
    r, rep = pair(call(cls.is_equal, fa, sa, True), 2)
    r = bools(r, (len(second),), 'equality')
    expect(np.array_equal(r, exp), 'equality with settings is wrong', got=r, expected=exp, items=cs['items'])
    expect(bool(rep) == (not all(exp)), 'wrong report', report=rep)
    r, rep = pair(call(cls.is_equal, sa, fa, False), 2)
    expect(np.array_equal(bools(r, rshp).ravel(), exp0), 'equality without settings is wrong', got=r, expected=exp0)
    r, rep = pair(call(cls.is_equal, sa, fa, True), 2)
    expect(np.array_equal(bools(r, rshp).ravel(), exp), 'equality with settings is not symmetric', got=r, expected=exp)
    return res(not all(exp), 'hyperplane' if hyp else 'ellipsoid')


facet(P, 'settings', gen_props, chk_props, 300,
      rule='1..3 pairs differing in one setting or in the data; non-trivial: some pair unequal')


def gen_bad(d):
    return {'hyp': d.bool(), 'bad': d.choice(['layout', 'type', 'empty', 'counts', 'cross']), 'n': d.int(1, 3)}


def chk_bad(cs):
    cls = S.Hyperplane if cs['hyp'] else S.Ellipsoid
    oth = S.Ellipsoid if cs['hyp'] else S.Hyperplane
    n = cs['n']
    mk = lambda c: call(c, np.ones(n), 1.0) if c is S.Hyperplane else call(c, np.eye(n))
    a = obj_array([mk(cls) for _ in range(4)], (2, 2))
    bad = cs['bad']
    if bad == 'layout':
        rejects('other layout', cls.is_equal, a, a.reshape(4))
        rejects('other layout', cls.is_equal, a.reshape(1, 4), a.reshape(4, 1))
    elif bad == 'counts':
        rejects('other counts', cls.is_equal, a.ravel()[:2], a.ravel()[:3])
    elif bad == 'type':
        rejects('not objects', cls.is_equal, a, [1, 2])
        rejects('not objects', cls.is_equal, 'abc', a)
    elif bad == 'empty':
        rejects('one array empty', cls.is_equal, a, np.array([]))
        r, rep = pair(call(cls.is_equal, np.array([]), np.array([])), 2)
        expect(np.all(bools(r)) and rep == '', 'two empty arrays are not equal', got=r)
    else:
        rejects('objects of another kind', cls.is_equal, a, [mk(oth)])
    return res(True, bad)


facet(P, 'refusals', gen_bad, chk_bad, 40, rule='mismatched arguments; non-trivial: all')
