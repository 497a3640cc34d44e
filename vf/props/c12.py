"""C12: conversion to dictionaries and back, replication."""
from vf.registry import facet
from vf.oracle import *

P = 'C12'
LAYS = [[1], [2], [3], [1, 1], [1, 3], [3, 1], [2, 2], [2, 1, 2], [1, 1, 2]]
BASIC = ('abs_tol', 'rel_tol')
PLOT = ('n_plot_2d_points', 'n_plot_3d_points')
DFT = {'abs_tol': 1e-6, 'rel_tol': 1e-5, 'n_plot_2d_points': 200, 'n_plot_3d_points': 200}


def gen_p(d, hyp):
    p = {}
    if d.bool():
        p['abs_tol'] = d.choice([1e-8, 1e-5, 1e-3])
    if d.bool():
        p['rel_tol'] = d.choice([1e-7, 1e-3, 1e-2])
    if not hyp:
        if d.bool():
            p['n_plot_2d_points'] = d.int(3, 60)
        if d.bool():
            p['n_plot_3d_points'] = d.int(3, 42)
    return p


def gen_o(d, hyp, n=None):
    p = gen_p(d, hyp)
    if n is None and d.chance(12):
        return {'empty': True, 'p': p}
    n = n or d.int(1, d.sz(4, 4, 12))
    if hyp:
        return {'n': d.dirv(n), 's': d.real(-5, 5), 'p': p}
    o = {'c': d.vec(n), 'q': d.spd(n) if d.chance(60) else d.psd(n), 'p': p}
    if d.chance(15) and p.get('abs_tol', 0) > 1e-4:
        o['asym'] = True
    return o


def mk(o, hyp):
    if o.get('empty'):
        return call(S.Hyperplane if hyp else S.Ellipsoid, **o['p'])
    if hyp:
        return mk_hyp(o)
    if o.get('asym') and len(o['c']) > 1:
        q = M(o['q'])
        q[0, 1] += 0.4 * o['p']['abs_tol']
        q += 0.5 * o['p']['abs_tol'] * np.eye(len(q))
        return call(S.Ellipsoid, A(o['c']), q, **o['p'])
    return mk_ell(o)


def settings(o, hyp):
    cls = S.Hyperplane if hyp else S.Ellipsoid
    return {k: num(call(cls.get_property, [o], k, None)) for k in BASIC + (() if hyp else PLOT)}


def exp_settings(o, hyp):
    return {k: float(o['p'].get(k, DFT[k])) for k in BASIC + (() if hyp else PLOT)}


def same(a, b, hyp, what, exact=True):
    """Data agreement of two objects by this module's own comparison."""
    if hyp:
        (n1, s1), (n2, s2) = hyp_data(a), hyp_data(b)
        if n1.shape != n2.shape:
            fail(what + ': hyperplanes differ in dimension', first=n1, second=n2)
        z1, z2 = np.linalg.norm(n1), np.linalg.norm(n2)
        if z1 < 1e-7 or z2 < 1e-7:
            expect(z1 < 1e-7 and z2 < 1e-7, what + ': one of the hyperplanes is empty', first=n1, second=n2)
            return
        v1, v2 = np.append(n1, s1) / z1, np.append(n2, s2) / z2
        dmin = min(np.max(np.abs(v1 - v2)), np.max(np.abs(v1 + v2)))
        expect(dmin <= 1e-12 * (1 + abs(v1[-1])), what + ': hyperplanes differ', first=(n1, s1), second=(n2, s2))
    else:
        (c1, q1), (c2, q2) = ell_data(a), ell_data(b)
        expect(np.array_equal(c1, c2) and np.array_equal(q1, q2), what + ': ellipsoids differ', first=(c1, q1),
               second=(c2, q2))


def gen_rt(hyp):
    def g(d):
        lay = d.layout(LAYS, 40)
        m = 1
        for x in lay:
            m *= x
        return {'os': d.dups([gen_o(d, hyp) for _ in range(m)]), 'lay': lay, 'props': d.bool(), 'how': d.choice(['arr', 'list', 'one']),
                'tol': d.choice([None, 1e-3, 1e-6]), 'inlist': d.bool()}
    return g


def chk_rt(hyp):
    def chk(cs):
        cls = S.Hyperplane if hyp else S.Ellipsoid
        os_ = shared(cs['os'], lambda o: mk(o, hyp))
        m = len(os_)
        lay = tuple(cs['lay'])
        props = cs['props'] or any(o.get('asym') for o in cs['os'])
        if cs['how'] == 'one' and m == 1:
            arg, lay = os_[0], ()
        elif cs['how'] == 'list':
            arg, lay = list(os_), (m,)
        else:
            arg = obj_array(os_, lay)
        kw = {} if cs['tol'] is None else {'abs_tol': cs['tol']}
        out, nice, descr, tr = pair(call(cls.to_dict, arg, props, **kw), 4)
        with interp('dictionaries'):
            da = np.asarray(out, dtype=object)
        expect(da.shape == lay, 'dictionary array has another layout', got=da.shape, expected=lay)
        names = ({'normal_vec', 'shift'} if hyp else {'center_vec', 'shape_mat'})
        if props:
            names |= set(BASIC) | (set() if hyp else set(PLOT))
        for dd in da.ravel():
            expect(isinstance(dd, dict), 'not a dictionary', got=dd)
            expect(set(dd) == names, 'wrong set of fields', got=sorted(dd), expected=sorted(names))
        for t in (nice, descr, tr):
            expect(isinstance(t, dict) and set(t) == names, 'field tables do not describe the fields', got=t)
        # the transforms of the fields: square root of the shape, identity elsewhere
        for o, dd in zip(os_, da.ravel()):
            for k in names:
                v = np.asarray(dd[k])
                if v.size == 0 or (k == 'shape_mat' and any(x.get('asym') for x in cs['os'])):
                    continue
                r = call(tr[k], dd[k])
                if k == 'shape_mat':
                    r = arr(r, v.shape, 'transformed field')
                    close(r @ r, v, 1e-5 * scale_of(v), 'transformed shape is not the square root of the shape')
                else:
                    expect(np.array_equal(arr(r), np.asarray(v, float)), 'transform changes field ' + k)
        snap = [{k: np.array(v, copy=True) for k, v in dd.items()} for dd in da.ravel()]
        src = list(da.ravel()) if cs['inlist'] and len(lay) == 1 else da
        back = call(cls.from_dict, src)
        with interp('rebuilt objects'):
            ba = np.asarray(back, dtype=object)
        expect(ba.shape == lay, 'rebuilt array has another layout', got=ba.shape, expected=lay)
        bl = objs_of(back, m, cls)
        expect(len(set(map(id, bl)) | set(map(id, os_))) == m + len(set(map(id, os_))), 'rebuilt objects are not new objects')
        for dd, s0 in zip(da.ravel(), snap):
            expect(set(dd) == set(s0) and all(np.array_equal(np.asarray(dd[k]), s0[k]) for k in s0),
                   'rebuilding changed the dictionaries', got=dd)
        for a, b, o in zip(os_, bl, cs['os']):
            same(a, b, hyp, 'round trip')
            st = settings(b, hyp)
            exp = exp_settings(o, hyp) if props else {k: float(DFT[k]) for k in st}
            expect(st == exp, 'settings of the rebuilt object are wrong', got=st, expected=exp)
            eq = call(cls.is_equal, [a], [b])
            expect(bool(bools(eq[0]).all()), 'rebuilt object is not equal to the original', report=eq[1])
            if props:
                eq = call(cls.is_equal, [a], [b], True)
                expect(bool(bools(eq[0]).all()), 'rebuilt object is not equal to the original (settings included)',
                       report=eq[1])
        if cs['how'] != 'one' or m > 1:
            # second conversion gives the same dictionaries
            da2 = np.asarray(call(cls.to_dict, ba, props)[0], dtype=object).ravel()
            for x, y in zip(da.ravel(), da2):
                for k in x:
                    close(np.asarray(x[k], float), np.asarray(y[k], float), 1e-12 * scale_of(np.asarray(x[k], float)),
                          'converting the rebuilt object gives other data (%s)' % k)
        # independence and usability
        for dd in da.ravel():
            for v in dd.values():
                if isinstance(v, np.ndarray) and v.size and v.flags.writeable and v.dtype != object:
                    v[...] = v + 7.0
        for a, b, o in zip(os_, bl, cs['os']):
            same(a, b, hyp, 'after the dictionaries were modified')
            use(a, b, o, hyp)
        return res(m > 1 or any(o['p'] for o in cs['os']), 'props' if props else 'plain', 'm%d' % m, cs['how'],
                   *(['empty'] if any(o.get('empty') for o in cs['os']) else []))
    return chk


def use(a, b, o, hyp):
    """The second object answers queries as the first does."""
    if hyp:
        H = S.Hyperplane
        n1 = num(call(H.dimension, [b]))
        expect(n1 == num(call(H.dimension, [a])), 'dimension changed')
        if not o.get('empty'):
            n, s = hyp_data(a)
            pt = n * s / (n @ n)
            expect(boolean(call(H.contains, [b], pt.reshape(-1, 1))), 'rebuilt hyperplane lost its points', point=pt)
            far = pt + n / np.linalg.norm(n)
            expect(not boolean(call(H.contains, [b], far.reshape(-1, 1))), 'rebuilt hyperplane gained points', point=far)
            expect(isinstance(call(str, b), str), 'no text')
        return
    E = S.Ellipsoid
    expect(num(call(E.dimension, [b])) == num(call(E.dimension, [a])), 'dimension changed')
    expect(isinstance(call(str, b), str), 'no text')
    if o.get('empty'):
        return
    n = len(o['c'])
    l = np.arange(1, n + 1, dtype=float).reshape(-1, 1)
    s1, _ = call(E.rho, [a], l)
    s2, _ = call(E.rho, [b], l)
    expect(num(s1) == num(s2), 'support value changed')
    if n in (2, 3) and not o.get('asym'):
        k = 20 if n == 2 else 40
        p1 = arr(call(a.get_boundary, k))
        close(arr(call(b.get_boundary, k)), p1, 1e-5 * scale_of(p1), 'boundary changed')
        kk = num(call(E.get_n_plot_2d_points if n == 2 else E.get_n_plot_3d_points, [b]))
        if kk <= 100:
            x = arr(call(b.get_boundary))
            expect(x.shape[0] >= kk, 'default boundary of the rebuilt object is wrong', got=x.shape)
            x = arr(call(b.get_boundary_by_factor, 2))
            expect(x.shape[0] >= 2 * kk, 'boundary by factor of the rebuilt object is wrong', got=x.shape)
    c = call(E.get_copy, [b])
    same(objs_of(c, 1)[0], b, False, 'copy of the rebuilt object')


def fixed_rt(hyp):
    out = []
    for props in (False, True):
        for p in ({}, {'abs_tol': 1e-8, 'rel_tol': 1e-2}):
            out.append({'os': [{'empty': True, 'p': p}], 'lay': [1], 'props': props, 'how': 'arr', 'tol': None, 'inlist': False})
            base = {'n': [3.0, -4.0], 's': -10.0, 'p': p} if hyp else \
                {'c': [1.0, 2.0], 'q': [[4.0, 1.0], [1.0, 3.0]], 'p': dict(p, n_plot_2d_points=7, n_plot_3d_points=11)}
            out.append({'os': [base, {'empty': True, 'p': p}], 'lay': [2], 'props': props, 'how': 'arr', 'tol': 1e-6,
                        'inlist': True})
    return out


facet(P, 'ellipsoids', gen_rt(False), chk_rt(False), 400, fixed=lambda: fixed_rt(False),
      rule='arrays of 1..4 ellipsoids of mixed dimension (empty, degenerate, tolerance-asymmetric ones included) in any '
           'layout, with and without settings; non-trivial: several objects or explicit settings')
facet(P, 'hyperplanes', gen_rt(True), chk_rt(True), 300, fixed=lambda: fixed_rt(True),
      rule='arrays of 1..4 hyperplanes of mixed dimension (empty ones included) in any layout, with and without settings; '
           'non-trivial: several objects or explicit settings')



def gen_rep(d):
    hyp = d.bool()
    lay = d.layout([[1], [3], [2, 2], [1, 3], [3, 1], [2, 1, 2], [2, 1], [0], [2, 0], [1, 1, 1, 2], [1, 1]], 300)
    return {'hyp': hyp, 'o': gen_o(d, hyp, d.choice([None, 1, 2, 3])), 'lay': lay,
            'form': d.choice(['list', 'tuple', 'arr', 'row', 'col', 'float', 'int32', 'scalar']),
            'via': d.choice(['rep', 'from']), 'args': d.choice([1, 2]), 'bad': d.chance(25), 'badk': d.int(0, 7)}


def shape_arg(cs):
    lay, f = cs['lay'], cs['form']
    return {'list': lambda: list(lay), 'tuple': lambda: tuple(lay), 'arr': lambda: np.array(lay),
            'row': lambda: np.array([lay]), 'col': lambda: np.array(lay).reshape(-1, 1),
            'float': lambda: np.array(lay, dtype=float), 'int32': lambda: np.array(lay, dtype=np.int32),
            'scalar': lambda: lay[0] if len(lay) == 1 and cs['via'] == 'from' else list(lay)}[f]()


def chk_rep(cs):
    hyp = cs['hyp']
    cls = S.Hyperplane if hyp else S.Ellipsoid
    o = dict(cs['o'])
    o.pop('asym', None)
    if cs['bad']:
        via = cs['via']
        bads = [[-1], [2, -1], [1.5], [2, 0.5], [float('nan')], [2, float('inf')], ['a', 'b'], []]
        b = bads[cs['badk']]
        obj = mk(o, hyp)
        if via == 'rep':
            rejects('size %r' % (b,), obj.rep_mat, b)
            rejects('matrix of sizes', obj.rep_mat, np.array([[2, 1], [1, 2]]))
        else:
            a = [] if o.get('empty') else ([A(o['n']), o['s']] if hyp else [A(o['c']), M(o['q'])])
            rejects('size %r' % (b,), cls.from_rep_mat, *(a + [b]), **o['p'])
            rejects('no arguments', cls.from_rep_mat)
            if not hyp and not o.get('empty'):
                rejects('invalid shape matrix', cls.from_rep_mat, A(o['c']), -1.0 - M(o['q']), [2, 1])
                rejects('mismatched centre', cls.from_rep_mat, A(o['c'] + [1.0]), M(o['q']), [2, 1])
        return res(True, 'refusal')
    sa = shape_arg(cs)
    if cs['via'] == 'rep':
        src = mk(o, hyp)
        out = call(src.rep_mat, sa)
    else:
        if o.get('empty'):
            a, src = [], mk(o, hyp)
        elif hyp:
            a, src = [A(o['n']), o['s']], mk(o, hyp)
        elif cs['args'] == 1:
            a, o['c'] = [M(o['q'])], [0.0] * len(o['c'])
            src = mk(o, hyp)
        else:
            a, src = [A(o['c']), M(o['q'])], mk(o, hyp)
        out = call(cls.from_rep_mat, *(a + [sa]), **o['p'])
    lay = tuple(cs['lay'])
    with interp('replicated array'):
        oa = np.asarray(out, dtype=object)
    expect(oa.shape == lay, 'replicated array has a wrong shape', got=oa.shape, expected=lay)
    lst = objs_of(out, int(np.prod(lay)), cls)
    expect(len(set(map(id, lst + [src]))) == len(lst) + 1, 'replicated objects are not distinct')
    for x in lst:
        if hyp:
            (n1, s1), (n2, s2) = hyp_data(src), hyp_data(x)
            expect(np.array_equal(n1, n2) and s1 == s2, 'replicated hyperplane differs', got=(n2, s2))
        else:
            same(src, x, hyp, 'replication')
        st = settings(x, hyp)
        expect(st == exp_settings(o, hyp), 'settings of a replica are wrong', got=st, expected=exp_settings(o, hyp))
    if lst and not o.get('empty'):
        use(src, lst[-1], o, hyp)
        if not hyp:
            # changing one replica leaves the others alone
            n = len(o['c'])
            call(cls.projection, [lst[0]], np.eye(n)[:, :1])
            for x in lst[1:]:
                same(src, x, hyp, 'after another replica was projected')
    return res(len(lst) > 1, 'm%d' % len(lst), cs['via'], cs['form'])


facet(P, 'replication', gen_rep, chk_rep, 500,
      rule='replication (method and constructor) into shapes of 0..4 axes given as list, tuple, row, column, float array; '
           'invalid sizes refused; non-trivial: more than one replica')
