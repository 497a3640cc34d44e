"""C20: refinement of triangle meshes."""
from vf.registry import facet
from vf.oracle import *
from vf.props.mesh import *

P = 'C20'


def gen_shrink(d):
    adj = d.weighted([(5, None), (1, 'shift'), (1, 'push'), (1, 'sphere'), (1, 'jitter')])
    lim = d.weighted([(4, 1), (3, 2), (2, 3), (2, 0)])
    if adj and lim == 0:
        lim = 2
    fac = d.choice([0.0, 0.3, 0.5, 0.6, 0.7, 0.8, 0.9, 0.95, 0.99, 1.0, 1.1])
    if lim == 0:
        fac = max(fac, 0.3)
    return {'mesh': gen_mesh(d, d.sz(8, 8, 60)), 'fac': fac, 'q': d.bool(), 'steps': lim, 'adj': adj, 'stat': d.bool(), 'flat1': d.bool(), 'k': d.nice(0.5, 3.0)}


def adjuster(name, k):
    if name is None:
        return None
    if name == 'shift':
        return lambda x: x + np.array([0.0, 0.0, 0.3 * k])
    if name == 'push':
        return lambda x: x * k
    if name == 'sphere':
        return lambda x: x / np.maximum(np.linalg.norm(x, axis=1), 1e-3).reshape(-1, 1)
    return lambda x: x + 0.2 * k * np.sin(17.0 * x[:, ::-1])


def face_keys(v, f):
    c = {}
    vk = [tuple(np.round(x, 9) + 0.0) for x in v]
    for t in f:
        k = tuple(sorted(vk[i] for i in t))
        c[k] = c.get(k, 0) + 1
    return c


def run(v, f, mx, steps, fadj, stat=True):
    v0, f0 = v.copy(), f.copy()
    args = [v, f, mx] + ([] if steps is None else [steps])
    r = call(S.tri.shrink_face_tri, *args, f_vert_adjust_func=fadj, is_stat_collected=stat)
    expect(np.array_equal(v, v0) and np.array_equal(f, f0) and f.shape == f0.shape, 'refinement changed its arguments')
    r = pair(r, 6 if stat else 2, 'refinement')
    v1 = arr(r[0], None, 'refined vertices')
    expect(v1.ndim == 2 and v1.shape[1] == v.shape[1], 'refined vertices have a wrong shape', shape=v1.shape)
    f1 = arr(r[1], None, 'refined faces')
    f1 = faces_of(f1.reshape(-1, 3), len(v1), 'refined faces')
    return v1, f1, r


def chk_shrink(cs):
    v, f, closed = mk_mesh(cs['mesh'])
    fadj = adjuster(cs['adj'], cs['k'])
    es0 = edge_set(f)
    l0 = lengths(v, sorted(es0))
    mx = float(cs['fac'] * (np.median(l0) if cs['q'] else l0.max()))
    if mx > 0 and np.min(np.abs(l0 - mx)) < 1e-9 * mx and cs['fac'] != 1.0:
        mx *= 1.0001
    steps = cs['steps'] or None
    farg = f.copy()
    if len(f) == 1 and cs['flat1']:
        farg = farg[0].copy()
    v1, f1, r = run(v, farg, mx, steps, fadj)
    st, e1, f2e, fdir = r[2:]
    if not cs['stat']:
        v2, f2, _ = run(v, farg, mx, steps, fadj, False)
        expect(np.array_equal(v1, v2) and np.array_equal(f1, f2), 'the mesh depends on whether statistics are collected')
    with interp('statistics'):
        k = int(st['n_steps'])
        nv, nf, ne, ns, ml = (np.ravel(st[x]) for x in ('n_vert_vec', 'n_face_vec', 'n_edge_vec', 'n_edges_to_shrink_vec',
                                                        'max_edge_length_vec'))
    expect(0 <= k and (steps is None or k <= steps), 'more steps than allowed', steps=k, limit=steps)
    for nm, x, m in (('n_vert_vec', nv, k + 1), ('n_face_vec', nf, k + 1), ('n_edge_vec', ne, k + 1), ('n_edges_to_shrink_vec', ns, k),
                     ('max_edge_length_vec', ml, k)):
        expect(x.size == m, 'statistic %s has a wrong size' % nm, value=x, steps=k)
    e1 = check_f2e(f1, e1, f2e, fdir, 'the refined mesh')
    l1 = lengths(v1, e1)
    if l1.max() > mx * (1 + 1e-12):
        expect(steps is not None and k == steps, 'refinement stopped with edges over the limit', longest=l1.max(), limit=mx, steps=k)
    if k == 0:
        expect(l0.max() <= mx, 'no step though an edge is over the limit')
        expect(np.array_equal(f1, f) and np.array_equal(v1, v), 'no step but the mesh changed')
    # every step separately
    pv, pf = v, f
    area0 = areas(v, f)
    deg_split = False
    for i in range(k + 1):
        if i == 0:
            cv, cf = v, f
        elif i == k:
            cv, cf = v1, f1
        else:
            cv, cf, ri = run(v, farg, mx, i, fadj)
            check_f2e(cf, ri[3], ri[4], ri[5], 'the partly refined mesh')
        ec = edge_count(cf)
        expect(nv[i] == len(cv) and nf[i] == len(cf) and ne[i] == len(ec), 'statistics do not count the mesh after step %d' % i,
               got=(nv[i], nf[i], ne[i]), expected=(len(cv), len(cf), len(ec)))
        if i > 0:
            pe = np.array(sorted(edge_set(pf)))
            pl = lengths(pv, pe)
            n0, n1 = len(pv), len(cv)
            expect(np.array_equal(cv[:n0], pv), 'original vertices are not kept first', step=i)
            expect(ns[i - 1] == n1 - n0, 'the number of split edges is wrong', step=i, got=ns[i - 1], new_vertices=n1 - n0)
            expect(abs(ml[i - 1] - pl.max()) <= 1e-12 * pl.max(), 'the longest edge statistic is wrong', step=i, got=ml[i - 1], expected=pl.max())
            mids = 0.5 * (pv[pe[:, 0]] + pv[pe[:, 1]])
            if fadj is not None:
                mids = fadj(mids)
            new = cv[n0:]
            dist = np.min(np.max(np.abs(new[:, None, :] - mids[None, :, :]), axis=2), axis=1) if len(new) else np.zeros(0)
            expect(np.all(dist <= 1e-12 * scale_of(mids)), 'a new vertex is not an (adjusted) edge midpoint', step=i)
            still = edge_set(cf)
            long = [tuple(x) for x, y in zip(pe.tolist(), pl) if y > mx * (1 + 1e-12)]
            expect(not any(x in still for x in long), 'an edge over the limit was not split', step=i)
            deg_split = deg_split or (i > 1 and np.any(areas(pv, pf) < 1e-9))
            # one step from the previous mesh
            sv, sf, _ = run(pv, pf, mx, 1, fadj)
            expect(len(sv) == len(cv) and face_keys(sv, sf) == face_keys(cv, cf), 'refining step by step gives another mesh', step=i)
        if closed:
            expect(all(x == 2 for x in ec.values()), 'a closed mesh is not closed and conforming after step %d' % i)
        else:
            expect(all(x <= 2 for x in ec.values()), 'the mesh is not conforming after step %d' % i)
        if fadj is None:
            a1 = areas(cv, cf)
            sc = area0.sum()
            expect(abs(a1.sum() - sc) <= 1e-10 * sc, 'the area changed', step=i, got=a1.sum(), expected=sc)
            # each new face lies in one old face, and the old faces are covered one by one
            own = np.zeros(len(f))
            cen = cv[cf].mean(axis=1)
            for j in np.nonzero(a1 > 1e-9 * sc)[0]:
                best = None
                for m in range(len(f)):
                    b = np.linalg.lstsq((v[f[m, 1:]] - v[f[m, 0]]).T, cen[j] - v[f[m, 0]], rcond=None)[0]
                    res_ = np.linalg.norm((v[f[m, 1:]] - v[f[m, 0]]).T @ b - (cen[j] - v[f[m, 0]]))
                    viol = max(res_ / np.sqrt(sc), -b.min(), b.sum() - 1.0)
                    if best is None or viol < best[0]:
                        best = (viol, m)
                expect(best[0] <= 1e-7, 'a face of the refined mesh leaves the surface', step=i)
                own[best[1]] += a1[j]
            if i == k and k > 0:
                close(own, area0, 1e-8 * sc, 'an original face is not covered exactly once')
        pv, pf = cv, cf
    return res(k > 0, cs['mesh']['kind'], 'steps%d' % k, cs['adj'] or 'plain', 'partial' if 0 < cs['fac'] and k > 0 else 'full',
               'zero-area-refined' if deg_split else 'regular')


def fixed():
    h = {'n': 4, 'p': [[0.0, 0.0, 0.0]] * 4, 'm': [1, 1], 'h': [0.0, 0.1, 0.2, 0.3] * 4, 'seed': 1, 'drop': 1, 'shuffle': False}
    out = []
    for kind in ('one', 'grid', 'fan', 'strip'):
        for fl in (True, False):
            for st in (1, 2):
                out.append({'mesh': dict(h, kind=kind, n=6), 'fac': 0.9 if kind != 'one' else 0.0, 'q': kind != 'one', 'steps': st, 'adj': None if fl else 'shift',
                            'stat': fl, 'flat1': fl, 'k': 3.0})
    return out


facet(P, 'refine', gen_shrink, chk_shrink, 450, thorough=4000,
      rule='convex hulls, open parts of them, height grids, fans, strips and single faces, vertices and faces renumbered at random, edge limits '
           '0..1.1 of the longest or median edge, 1..3 steps or no limit, five vertex adjustments; non-trivial: at least one step', fixed=fixed)


# ---------------------------------------------------------------- edges exactly at the limit
def gen_limit(d):
    return {'w': d.int(1, 3), 'h': d.int(1, 3), 'e': d.int(-6, 8), 'ax': d.perm(3), 'sg': [d.choice([1, -1]) for _ in range(3)], 'off': d.ivec(3),
            'what': d.choice(['345', '51213', 'flat']), 'steps': d.choice([None, 1, 5]), 'one': d.bool()}


def chk_limit(cs):
    """Right triangles with exactly representable edge lengths: an edge as long as the limit is within it."""
    a, b, c = {'345': (3.0, 4.0, 5.0), '51213': (5.0, 12.0, 13.0), 'flat': (8.0, 15.0, 17.0)}[cs['what']]
    k = 2.0 ** cs['e']
    w, h = (1, 1) if cs['one'] else (cs['w'], cs['h'])
    v = np.array([[i * a, j * b, 0.0] for i in range(w + 1) for j in range(h + 1)]) * k
    v = v[:, cs['ax']] * np.array(cs['sg'], dtype=float) + A(cs['off']) * k
    f = []
    for i in range(w):
        for j in range(h):
            q = [i * (h + 1) + j, (i + 1) * (h + 1) + j, (i + 1) * (h + 1) + j + 1, i * (h + 1) + j + 1]
            f += [[q[0], q[1], q[2]], [q[0], q[2], q[3]]]
    f = np.array(f[:1] if cs['one'] else f)
    if cs['one']:
        v = v[[0, 2, 3]]
        f = np.array([[0, 1, 2]])
    v1, f1, r = run(v, f, c * k, cs['steps'], None)
    expect(int(r[2]['n_steps']) == 0 and np.array_equal(v1, v) and np.array_equal(f1, f), 'an edge exactly as long as the limit is split',
           limit=c * k, steps=r[2]['n_steps'])
    v1, f1, r = run(v, f, c * k / 2, cs['steps'], None)
    expect(int(r[2]['n_steps']) == 1, 'halved edges exactly as long as the limit are split again', limit=c * k / 2, steps=r[2]['n_steps'])
    v1, f1, r = run(v, f, np.nextafter(c * k, 0), 1, None)
    expect(int(r[2]['n_steps']) == 1, 'an edge just over the limit is not split')
    return res(not cs['one'], cs['what'])


facet(P, 'limit_exact', gen_limit, chk_limit, 100,
      rule='grids of Pythagorean triangles with exact edge lengths in any placement, the limit exactly the longest edge, its half, and just below '
           'it; non-trivial: more than one face')
