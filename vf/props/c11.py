"""C11: boundary grids of 2- and 3-dimensional ellipsoids."""
import math

from vf.registry import facet
from vf.oracle import *
from vf.props.mesh import *

P = 'C11'


def gen_ell(d, n, deg_pct=25):
    e = {'c': d.vec(n, -10, 10) if d.chance(80) else [0.0] * n, 'p': {}}
    if d.chance(deg_pct):
        e['q'] = d.psd(n, d.int(0, n - 1))
        e['deg'] = True
    else:
        e['q'] = d.weighted([(3, 'n'), (1, 'w')])
        e['q'] = d.spd(n) if e['q'] == 'n' else d.spd(n, 1e-2, 1e2)
        e['deg'] = False
    if d.bool():
        e['p']['abs_tol'] = d.choice([1e-7, 1e-5, 1e-4])
    return e


def gen_case(d):
    n = d.choice([2, 3])
    e = gen_ell(d, n)
    p = e['p']
    hi3 = d.sz(170, 700, 2600)
    if d.chance(80):
        p['n_plot_2d_points'] = d.weighted([(1, 1), (1, 2), (3, d.int(3, 40)), (1, d.int(41, d.sz(300, 300, 3000)))])
    if n == 3 or d.chance(50):
        p['n_plot_3d_points'] = d.weighted([(1, 1), (1, 42), (1, 43), (1, 162), (2, d.int(2, hi3))])
    mode = d.choice(['n', 'default', 'factor', 'factor_vec', 'factor_none'])
    cs = {'e': e, 'mode': mode, 'call': d.choice(['boundary', 'boundary', 'rho']), 'grid': d.bool()}
    if mode == 'n':
        cs['k'] = d.int(1, d.sz(60, 60, 2000)) if n == 2 else d.weighted([(3, d.int(1, 42)), (1, d.int(43, d.sz(162, 162, 1500))), (1, 163)])
        cs['float'] = d.chance(20)
    elif mode == 'factor':
        cs['f'] = d.choice([1, 1.0, 2, 0.5, 0.25, 1.5, 3, 0.1])
    elif mode == 'factor_vec':
        cs['f'] = [d.choice([1, 2, 0.5, 3, 1.25, 0.1]), d.choice([1, 0.5, 0.25, 1.5, 0.7])]
        cs['fa'] = d.choice(['list', 'arr'])
    return cs


def n_depth(k):
    """Smallest depth >= 1 whose 10*4^d+2 is at least k."""
    dp = 1
    while 10 * 4 ** dp + 2 < k:
        dp += 1
    return dp


def chk(cs):
    e = cs['e']
    o = mk_ell(e)
    c, q = A(e['c']), M(e['q'])
    n = c.size
    np2, np3 = e['p'].get('n_plot_2d_points', 200), e['p'].get('n_plot_3d_points', 200)
    base = np2 if n == 2 else np3
    m = cs['mode']
    args, kw, by = [], {}, False
    if m == 'n':
        want = cs['k']
        args = [float(want) if cs.get('float') else want]
    elif m == 'default':
        want = base
    else:
        by = True
        if m == 'factor_none':
            f = 1
        else:
            f = cs['f'] if m == 'factor' else cs['f'][n - 2]
            args = [np.array(cs['f']) if cs.get('fa') == 'arr' else cs['f']]
        want = int(math.floor(base * f))
    rho = cs['call'] == 'rho'
    fn = (o.get_rho_boundary_by_factor if by else o.get_rho_boundary) if rho else \
        (o.get_boundary_by_factor if by else o.get_boundary)
    tags = ['dim%d' % n, m, cs['call'], 'degenerate' if e['deg'] else 'regular']
    if want <= 0:
        rejects('no boundary points requested', fn, *args)
        return res(True, 'refused', *tags)
    if rho:
        bp, f, sup, lm = pair(call(fn, *args), 4)
        extra = 1
    else:
        if cs['grid']:
            bp, f = pair(call(fn, *args, return_grid=True), 2)
        else:
            bp, f = call(fn, *args), None
        extra = 0
    exp_n = want if n == 2 else 10 * 4 ** n_depth(want) + 2
    bp = arr(bp, (exp_n + extra, n), 'boundary points')
    sc = 1.0 + float(np.max(np.abs(c))) + math.sqrt(float(np.max(np.abs(q))))
    w, v = np.linalg.eigh(q)
    # on the boundary (in the ellipsoid, for a degenerate one)
    y = bp - c
    if not e['deg']:
        z = (y @ v) / np.sqrt(w)
        r = np.sqrt(np.sum(z * z, 1))
        close(r, np.ones(len(bp)), 1e-9 * sc / math.sqrt(w[0]), 'generated points are not on the boundary')
    else:
        pos = w > 1e-9 * max(1.0, w[-1])
        yt = y @ v
        off = np.max(np.abs(yt[:, ~pos]))
        tol_off = 1e-6 * sc * 4
        expect(off <= tol_off, 'generated points leave the degenerate ellipsoid', distance=off, q=q)
        if np.any(pos):
            z = yt[:, pos] / np.sqrt(w[pos])
            r = np.sqrt(np.sum(z * z, 1))
            expect(np.all(r <= 1 + 1e-7 * sc / math.sqrt(w[pos][0])), 'generated points leave the degenerate ellipsoid',
                   worst=r.max())
    if rho:
        lm = arr(lm, (exp_n + 1, n), 'directions')
        sup = flat(sup, exp_n + 1, 'support values')
        close(np.sqrt(np.sum(lm * lm, 1)), np.ones(exp_n + 1), 1e-9, 'returned directions are not unit vectors')
        quad = np.maximum(0.0, np.sum((lm @ q) * lm, 1))
        exact = lm @ c + np.sqrt(quad)
        tol = np.where(quad > 1e-7, 1e-9, 2e-6) * sc
        expect(np.all(np.abs(sup - exact) <= tol), 'support values do not match', got=sup, expected=exact)
        expect(np.all(np.abs(np.sum(lm * bp, 1) - exact) <= 10 * tol), 'boundary points do not attain the support values',
               got=np.sum(lm * bp, 1), expected=exact)
        expect(np.array_equal(lm[0], lm[-1]) and np.array_equal(bp[0], bp[-1]), 'the grid is not closed')
        dirs = lm[:-1]
    elif not e['deg']:
        dirs = z @ v.T  # symmetric square root undone
    else:
        dirs = None
    # the directions cover the unit sphere
    if dirs is not None:
        if n == 2:
            ang = np.sort(np.arctan2(dirs[:, 1], dirs[:, 0]))
            gaps = np.diff(np.append(ang, ang[0] + 2 * np.pi))
            close(gaps, np.full(exp_n, 2 * np.pi / exp_n), 1e-7 * sc / math.sqrt(max(w[0], 1e-12)) if not rho else 1e-9,
                  'the points do not go evenly around the boundary')
        else:
            g = np.array([[math.sin(t) * math.cos(p), math.sin(t) * math.sin(p), math.cos(t)]
                          for t in np.linspace(0, math.pi, 7) for p in np.linspace(0, 6, 9)])
            near = np.max(g @ dirs.T, axis=1)
            bound = math.cos(0.66 / 2 ** n_depth(want) + 0.02)
            expect(near.min() >= bound, 'part of the boundary has no points', worst=near.min(), bound=bound)
    # faces
    if f is not None:
        if n == 2:
            f = faces_of(f, exp_n, 'faces', 2)
            expect(f.shape[0] == exp_n, 'the polygon has a wrong number of sides', got=f.shape[0], expected=exp_n)
            nxt = {}
            for a, b in f:
                expect(int(a) not in nxt, 'the boundary polygon is not closed', faces=f)
                nxt[int(a)] = int(b)
            k, seen = 0, []
            while k not in seen and k in nxt:
                seen.append(k)
                k = nxt[k]
            expect(k == 0 and len(seen) == exp_n, 'the boundary polygon is not one closed loop', faces=f)
            if dirs is not None and exp_n > 2:
                s = dirs[f[:, 0], 0] * dirs[f[:, 1], 1] - dirs[f[:, 0], 1] * dirs[f[:, 1], 0]
                t = np.sum(dirs[f[:, 0]] * dirs[f[:, 1]], 1)
                turn = np.arctan2(s, t)
                expect(abs(abs(turn.sum()) - 2 * np.pi) < 1e-6, 'polygon sides do not follow the boundary', turns=turn)
        else:
            f = faces_of(f, exp_n, 'faces', 3)
            expect(f.shape[0] == 20 * 4 ** n_depth(want), 'wrong number of faces', got=f.shape[0])
            check_closed(f, exp_n, 'boundary mesh')
            if dirs is not None:
                expect(abs(abs(solid_angle(dirs, f)) - 4 * np.pi) < 1e-6, 'the mesh does not enclose the centre',
                       got=solid_angle(dirs, f))
    return res(want > 2, *tags)


def fixed():
    out = []
    for n in (2, 3):
        e = {'c': [1.0, -2.0, 0.5][:n], 'q': [[2.0, 0.5, 0.0][:n], [0.5, 1.0, 0.25][:n], [0.0, 0.25, 3.0]][:n], 'p': {},
             'deg': False}
        for call_ in ('boundary', 'rho'):
            for mode, ex in (('default', {}), ('factor_none', {}), ('factor', {'f': 0.5}), ('factor', {'f': 2}),
                             ('factor_vec', {'f': [0.5, 2], 'fa': 'arr'}), ('factor_vec', {'f': [3, 0.25], 'fa': 'list'}),
                             ('n', {'k': 1}), ('n', {'k': 7, 'float': True}), ('n', {'k': 42}), ('n', {'k': 43})):
                cs = {'e': e, 'mode': mode, 'call': call_, 'grid': True}
                cs.update(ex)
                out.append(cs)
    return out


facet(P, 'grids', gen_case, chk, 1200, fixed=fixed,
      rule='2-/3-D ellipsoids of any rank, requested count 1..60 (2-D) or across the refinement levels (3-D), default, '
           'scalar and per-dimension factors, plain and support-function grids; non-trivial: more than two points')


def gen_bad(d):
    k = d.choice(['dim', 'count'])
    n = d.choice([1, 4, 5]) if k == 'dim' else d.choice([2, 3])
    return {'k': k, 'e': gen_ell(d, n, 10), 'v': d.choice([0, -1, -5, 2.5, 0.5, 1e-3]),
            'fn': d.choice(['get_boundary', 'get_boundary_by_factor', 'get_rho_boundary', 'get_rho_boundary_by_factor'])}


def chk_bad(cs):
    o = mk_ell(cs['e'])
    f = getattr(o, cs['fn'])
    if cs['k'] == 'dim':
        rejects('dimension %d' % len(cs['e']['c']), f)
        rejects('dimension %d' % len(cs['e']['c']), f, 20 if 'factor' not in cs['fn'] else 1)
        if 'factor' not in cs['fn']:
            return res(True, 'dim')
        rejects('dimension %d' % len(cs['e']['c']), f, np.array([1.0, 1.0]))
        return res(True, 'dim')
    if 'factor' in cs['fn']:
        rejects('no points by the factor', f, 0)
        rejects('no points by the factor', f, -1.0)
        rejects('no points by the factor', f, [0, 0])
    else:
        rejects('%r points' % cs['v'], f, cs['v'])
    return res(True, 'count')


facet(P, 'refusals', gen_bad, chk_bad, 120, rule='dimensions 1, 4, 5 and non-positive or fractional counts; all non-trivial')


def gen_grid(d):
    n = d.choice([2, 2, 3])
    p = {}
    if d.chance(80):
        p['n_plot_2d_points'] = d.int(1, d.sz(80, 300, 3000))
    if n == 3 or d.bool():
        p['n_plot_3d_points'] = d.weighted([(1, 42), (1, 43), (1, 162), (2, d.int(2, d.sz(170, 700, 2600)))])
    cs = {'n': n, 'p': p, 'mode': d.choice(['none', 'number', 'vector'])}
    cs['f'] = [d.choice([1.0, 2.0, 0.5, 3.0, 1.25]), d.choice([1.0, 0.5, 0.25, 1.5, 0.7])]
    return cs


def chk_grid(cs):
    n = cs['n']
    o = call(S.Ellipsoid, np.eye(n), **cs['p'])
    base = cs['p'].get('n_plot_%dd_points' % n, 200)
    f = {'none': 1.0, 'number': cs['f'][0], 'vector': cs['f'][n - 2]}[cs['mode']]
    args = {'none': [], 'number': [np.array(f)], 'vector': [np.array(cs['f'])]}[cs['mode']]
    want = int(math.floor(base * f))
    if want < 1:
        rejects('no points', o._get_grid_by_factor, *args)
        return res(False, 'refused')
    v, fc = pair(call(o._get_grid_by_factor, *args), 2)
    exp_n = want if n == 2 else 10 * 4 ** n_depth(want) + 2
    v = arr(v, (exp_n, n), 'grid directions')
    close(np.sum(v * v, 1), np.ones(exp_n), 1e-9, 'directions of the grid are not unit vectors')
    expect(np.all(v != 0), 'the grid has exact zeros')
    fc = faces_of(fc, exp_n, 'faces', n)
    if n == 2:
        ang = np.sort(np.arctan2(v[:, 1], v[:, 0]))
        close(np.diff(np.append(ang, ang[0] + 2 * np.pi)), np.full(exp_n, 2 * np.pi / exp_n), 1e-9, 'the grid is not even')
        expect(np.array_equal(np.sort(fc[:, 0]), np.arange(exp_n)) and np.array_equal(np.sort(fc[:, 1]), np.arange(exp_n)),
               'the polygon is not closed', faces=fc)
        if exp_n > 2:
            t = np.sum(v[fc[:, 0]] * v[fc[:, 1]], 1)
            close(t, np.full(exp_n, math.cos(2 * np.pi / exp_n)), 1e-9, 'sides do not join neighbours')
    else:
        expect(fc.shape[0] == 20 * 4 ** n_depth(want), 'wrong number of faces', got=fc.shape[0])
        check_closed(fc, exp_n, 'grid')
    return res(want > 2, 'dim%d' % n, cs['mode'])


facet(P, 'factor_grid', gen_grid, chk_grid, 150,
      rule='the grid of directions an ellipsoid is drawn with: plot settings and no, scalar or per-dimension factor; '
           'non-trivial: more than two points')
