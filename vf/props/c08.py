"""C08: projections onto orthogonal bases."""
from vf.registry import facet
from vf.oracle import *

P = 'C08'


def gen_case(d):
    n = d.int(1, d.sz(6, 9, 16))
    k = d.int(1, n)
    m = d.choice([1, 1, 2, 3, 4] if d.lvl < 2 else [1, 4, 30])
    lays = [[m], [1, m], [m, 1]] + ([[2, 2]] if m == 4 else [])
    basis = d.choice(['orth', 'axes', 'int'])
    cs = {'n': n, 'k': k, 'es': [{'c': d.vec(n), 'q': d.psd(n) if d.bool() else d.spd(n),
                                  'p': {'abs_tol': d.choice([1e-6, 1e-4])} if d.bool() else {}} for _ in range(m)],
          'lay': d.choice(lays), 'u': d.orth(n), 'sc': [d.choice([1.0, -1.0, 2.0, 0.1, 30.0, 1e-4, 1e3]) if d.chance(65) else
          d.choice([1.0, -1.0]) * (1.0 + d.choice([1, -1]) * 10.0 ** -d.int(1, 9) * d.choice([1.0, 2.0, 5.0]))
          for _ in range(k)],
          'axes': basis == 'axes', 'perm': d.perm(n), 'how': d.choice(['projection', 'get_projection']),
          'list': d.bool(), 'scal': m == 1 and d.chance(25), 'ints': d.bool()}
    # one object at several places of the array
    cs['same'] = [d.int(0, i) if d.chance(40) else i for i in range(m)] if d.chance(20) else []
    return cs


def chk(cs):
    E = S.Ellipsoid
    n, k = cs['n'], cs['k']
    u = np.eye(n)[:, cs['perm']] if cs['axes'] else M(cs['u'])
    u = u[:, :k]
    b = u * np.array(cs['sc'])
    if cs['axes'] and cs['ints']:
        b = (np.sign(b) * np.maximum(np.round(np.abs(b) * 10), np.abs(b) > 0)).astype(int)
    ub = b / np.linalg.norm(b, axis=0)
    es = list(cs['es'])
    os_ = mk_ells(es)
    for i, j in enumerate(cs['same']):
        es[i], os_[i] = es[j], os_[j]
    arg = os_[0] if cs['scal'] else (list(os_) if cs['list'] and len(cs['lay']) == 1 else obj_array(os_, cs['lay']))
    b0 = b.copy()
    r = call(getattr(E, cs['how']), arg, b)
    expect(np.array_equal(b0, b), 'the basis was modified')
    if not cs['scal']:
        expect(np.asarray(r, dtype=object).shape == tuple(cs['lay']), 'layout of the array is not kept',
               got=np.asarray(r, dtype=object).shape, expected=cs['lay'])
    out = objs_of(r, len(os_), E, 'projections')
    for i, (e, o) in enumerate(zip(es, out)):
        c, q = ell_data(o, k, 'projection')
        cc, qq = A(e['c']), M(e['q'])
        sc = scale_of(cc, qq)
        close(c, ub.T @ cc, 1e-10 * sc, 'projected centre is wrong', index=i)
        close(q, ub.T @ qq @ ub, 1e-10 * sc, 'projected shape is wrong', index=i)
        for m in probe_dirs(k, 4, i):
            sup, _ = pair(call(E.rho, [o], m.reshape(-1, 1)), 2)
            f = ub @ m
            exp = supf(cc, qq, f)
            tol = 1e-9 * sc if f @ qq @ f > 1e-9 * sc else 1e-3 * np.sqrt(sc)
            expect(abs(num(sup) - exp) <= tol, 'support of the projection differs from the original', got=sup,
                   expected=exp, direction=m)
        tol = num(call(E.get_abs_tol, [o], None))
        expect(tol == e['p'].get('abs_tol', 1e-6), 'tolerance lost', got=tol)
        if cs['how'] == 'projection':
            expect(o is os_[i], 'projection in place returned another object')
        else:
            c0, q0 = ell_data(os_[i], n)
            expect(np.array_equal(c0, cc) and np.array_equal(q0, qq), 'get_projection changed the original', index=i)
    if cs['how'] == 'get_projection':
        expect(len(set(id(o) for o in out)) == len(out), 'projections share an object')
    return res(n > 1, 'n%dk%d' % (n, k), cs['how'], 'many' if len(os_) > 1 else 'one',
               'repeated' if len(set(id(o) for o in os_)) < len(os_) else 'distinct')


facet(P, 'projection', gen_case, chk, 700,
      rule='1..4 ellipsoids (flat, row, column, 2-D, list, single), dimension 1..6 (9), orthogonal bases of 1..n vectors '
           'of different length (far from 1, almost 1, 1) and sign, one object at several places; non-trivial: dimension > 1')


def gen_bad(d):
    n = d.int(1, 5)
    return {'n': n, 'bad': d.choice(['angle', 'neg', 'many', 'dim', 'mixed', 'dup', 'small', 'text']) if n > 1 else
            d.choice(['many', 'dim', 'mixed']), 'k': d.int(2, max(2, n)), 'u': d.orth(n), 'ij': [d.int(0, 9), d.int(0, 9)],
            'x': d.choice([0.5, 1e-3, 0.05, 3.0]), 'sc': [d.choice([1.0, 1.0, 30.0, 1e3, 1e4]), d.choice([1.0, 1.0, 0.1, 1e-2])], 'm': d.int(1, 3), 'q': d.spd(n), 'c': d.vec(n),
            'how': d.choice(['projection', 'get_projection'])}


def chk_bad(cs):
    E = S.Ellipsoid
    n, bad = cs['n'], cs['bad']
    os_ = [call(E, A(cs['c']), M(cs['q'])) for _ in range(cs['m'])]
    arg = list(os_)
    u = M(cs['u'])
    k = min(cs['k'], n)
    if bad in ('angle', 'neg'):
        b = u[:, :k].copy()
        i = cs['ij'][0] % k
        j = (i + 1 + cs['ij'][1] % (k - 1)) % k if k > 1 else 0
        b[:, j] = b[:, j] + (cs['x'] if bad == 'angle' else -cs['x']) * b[:, i]
        b[:, i] *= cs['sc'][0]      # of very different lengths
        b[:, j] *= cs['sc'][1]
    elif bad == 'dup':
        b = np.hstack([u[:, :1], u[:, :1]])
    elif bad == 'small':
        b = np.hstack([u[:, :1], u[:, :1] * -1.0])
    elif bad == 'many':
        b = np.hstack([u, u[:, :1]])
    elif bad == 'dim':
        b = np.eye(n + 1)[:, :1]
    elif bad == 'mixed':
        arg = arg + [call(E, np.eye(n + 1))]
        b = u[:, :1]
    else:
        b = np.array([['a'] * 1] * n)
    rejects('basis: ' + bad, getattr(E, cs['how']), arg, b)
    for o in os_:
        c, q = ell_data(o, n)
        expect(np.array_equal(c, A(cs['c'])) and np.array_equal(q, M(cs['q'])),
               'a refused projection changed an ellipsoid', basis=b, centre=c, shape=q)
    return res(True, bad)


facet(P, 'refusals', gen_bad, chk_bad, 250,
      rule='bases that are not orthogonal (either sign), too many, of another dimension, text; mixed arrays; '
           'non-trivial: all')
