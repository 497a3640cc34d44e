"""C21: mesh topology, comparison, tubes."""
from vf.registry import facet
from vf.oracle import *
from vf.props.mesh import *

P = 'C21'
DT = {'i8': np.int64, 'i4': np.int32, 'f8': np.float64}


def gen_topo(d):
    return {'mesh': gen_mesh(d, d.sz(10, 12, 150)), 'dt': d.choice(['i8', 'i8', 'i4', 'f8']), 'dt2': d.choice(['i8', 'i8', 'i4', 'f8']), 'off': d.choice([0, 0, 3, 50]),
            'q': [[d.int(0, d.sz(13, 13, 160)) for _ in range(3)] for _ in range(d.count(0, 6, 6, 60))], 'sel': [[d.int(0, d.sz(40, 40, 400)), d.int(0, 5)] for _ in range(d.count(0, 6, 6, 100))],
            'flat': d.bool()}


PERM = [[0, 1, 2], [1, 2, 0], [2, 0, 1], [0, 2, 1], [2, 1, 0], [1, 0, 2]]


def chk_topo(cs):
    t = S.tri
    v, f, _ = mk_mesh(cs['mesh'])
    f = f + cs['off']
    fa = f.copy()
    if len(f) == 1 and cs['flat']:
        fa = fa[0].copy()
    f0 = fa.copy()
    e, f2e, fdir = pair(call(t.map_face_2_edge, fa), 3, 'face-to-edge map')
    e = check_f2e(f, e, f2e, fdir, 'the mesh')
    expect(np.all(e[:, 0] < e[:, 1]), 'an edge is not listed with its lower end first')
    # the underlying attachment table
    f2, e2, ind, cnt = pair(call(t.get_face_edge_info, fa), 4, 'edge attachment table')
    expect(np.array_equal(np.asarray(f2).reshape(-1, 3), f), 'the attachment table returns other faces')
    e2 = arr(e2).astype(int)
    ind, cnt = flat(ind, 3 * len(f), 'attachments').astype(int), flat(cnt, len(e2), 'attachment counts').astype(int)
    expect(cnt.sum() == 3 * len(f), 'attachment counts do not add up')
    p = 0
    for i, k in enumerate(cnt):
        att = sorted(ind[p:p + k].tolist())
        p += k
        exp = sorted(j for j in range(len(f)) if set(e2[i].tolist()) <= set(f[j].tolist()))
        expect(att == exp, 'an edge is attached to wrong faces', edge=e2[i], got=att, expected=exp)
    # lookup
    have = set(tuple(sorted(x)) for x in f.tolist())
    qs = [[x + cs['off'] for x in q] for q in cs['q'] if len(set(q)) == 3] + [[int(f[i % len(f)][j]) for j in PERM[k]] for i, k in cs['sel']]
    if len(f) > 1:  # near misses: triples of neighbouring faces
        for i in range(min(len(f), 6)):
            a, b = f[i], f[(i + 1) % len(f)]
            qs.append([int(a[0]), int(a[1]), int(b[2])])
    qs = [q for q in qs if len(set(q)) == 3]
    hits = 0
    if qs:
        qa = np.array(qs, dtype=DT[cs['dt2']])
        fq = (fa if len(f) > 1 else f).astype(DT[cs['dt']])
        q0, g0 = qa.copy(), fq.copy()
        got = bools(call(t.is_face, fq, qa), (len(qs),), 'face lookup')
        expect(np.array_equal(qa, q0) and np.array_equal(fq, g0), 'the lookup changed its arguments')
        exp = np.array([tuple(sorted(q)) in have for q in qs])
        expect(np.array_equal(got, exp), 'face lookup is wrong', asked=qs, got=got, expected=exp)
        hits = int(exp.sum())
    expect(np.array_equal(fa, f0), 'a topology query changed the faces')
    rejects('wrong number of columns', t.map_face_2_edge, np.array([[0, 1], [1, 2]]))
    rejects('wrong number of columns', t.map_face_2_edge, np.array([[0, 1, 2, 3]]))
    rejects('wrong number of columns', t.map_face_2_edge, np.array([0, 1, 2, 3]))
    return res(len(f) > 1, cs['mesh']['kind'], 'dt-' + cs['dt'] + '-' + cs['dt2'], 'hit' if hits else 'nohit', 'miss' if hits < len(qs) else 'nomiss')


facet(P, 'topology', gen_topo, chk_topo, 600,
      rule='manifold meshes (hulls, open parts, grids, fans, strips, single faces) renumbered at random, index types int64, int32 and float, lookups '
           'of permuted faces, near misses and random triples; non-trivial: more than one face')


def gen_eq(d):
    kind = d.weighted([(4, 'same'), (2, 'moved'), (2, 'flip'), (1, 'swapface'), (1, 'fewer_v'), (1, 'fewer_f'), (1, 'far')])
    return {'mesh': gen_mesh(d, d.sz(9, 12, 120)), 'tol': d.choice([0.0, 1e-12, 1e-9, 1e-6, 1e-3]), 'kind': kind, 'seed': d.int(0, 10 ** 6), 'i': d.int(0, 100),
            'ax': d.int(0, 2), 'ties': d.bool()}


def chk_eq(cs):
    t = S.tri
    v, f, _ = mk_mesh(cs['mesh'])
    rs = np.random.RandomState(cs['seed'])
    tol = cs['tol']
    if cs['ties']:
        v = np.round(v * 4) / 4      # many equal coordinates
    else:
        v = np.round(v, 2)
    # separate vertices by more than the tolerance somewhere
    d = np.max(np.abs(v[:, None, :] - v[None, :, :]), axis=2) + 10 * np.eye(len(v))
    if d.min() < 0.009:
        return res(False, 'coinciding')
    n = len(v)
    u, g = v.copy(), f.copy()
    kind = cs['kind']
    exp = True
    i = cs['i'] % n
    if kind == 'moved':
        u[i, cs['ax']] += max((2 + 0.1 * (cs['i'] % 20)) * tol, 1e-10)
        exp = False
    elif kind == 'far':
        u[i] += 50.0
        exp = False
    elif kind == 'flip':
        # another diagonal in two neighbouring faces
        done = False
        have = set(tuple(sorted(x)) for x in f.tolist())
        for (a, b), k in sorted(edge_count(f).items()):
            if k == 2:
                fs = [j for j in range(len(f)) if a in f[j] and b in f[j]]
                c, e = [int(x) for j in fs for x in f[j] if x not in (a, b)]
                if c != e and (min(c, e), max(c, e)) not in edge_set(f):
                    g[fs[0]], g[fs[1]] = [c, e, a], [c, e, b]
                    done = True
                    break
        exp = not done
    elif kind == 'swapface':
        # one face replaced by a triangle on a new combination of vertices, still manifold
        have = set(tuple(sorted(x)) for x in f.tolist())
        j = cs['i'] % len(f)
        rest = edge_count(np.delete(f, j, axis=0))
        done = False
        for a in range(n):
            for b in range(a + 1, n):
                for c in range(b + 1, n):
                    if not done and (a, b, c) not in have and all(rest.get(x, 0) < 2 for x in ((a, b), (b, c), (a, c))):
                        g[j] = [a, b, c]
                        done = True
        exp = not done
    elif kind == 'fewer_v':
        u = np.vstack((u, [[9.0, 9.0, 9.0]]))
        exp = False
    elif kind == 'fewer_f':
        if len(f) > 1:
            g = g[:-1]
            exp = False
    # renumbering, reordering, moving within the tolerance
    m = len(u)
    if kind != 'far':
        w = v + (rs.rand(*v.shape) - 0.5) * 0.9 * tol
        u = u + (rs.rand(*u.shape) - 0.5) * 0.9 * tol
    else:
        w = v.copy()
    perm = rs.permutation(m)
    u2 = u[perm]
    g2 = np.argsort(perm)[g]
    g2 = g2[rs.permutation(len(g2))]
    for k in range(len(g2)):
        g2[k] = g2[k][rs.permutation(3)]
    sv = [x.copy() for x in (w, f, u2, g2)]
    for a, b, what in (((w, f), (u2, g2), 'mesh comparison'), ((u2, g2), (w, f), 'mesh comparison with the operands swapped')):
        ok, rep = pair(call(t.is_tri_equal, a[0], a[1], b[0], b[1], tol), 2, what)
        expect(boolean(ok) == exp, '%s is wrong' % what, got=ok, expected=exp, report=rep)
        expect(isinstance(rep, str) and (rep == '') == exp, 'the report does not match the answer', got=ok, report=rep)
    expect(all(np.array_equal(x, y) for x, y in zip(sv, (w, f, u2, g2))), 'mesh comparison changed its arguments')
    ok, rep = pair(call(t.is_tri_equal, w, f, w, f, 0.0), 2)
    expect(boolean(ok) and rep == '', 'a mesh differs from itself', report=rep)
    return res(len(f) > 1, cs['mesh']['kind'], kind, 'equal' if exp else 'different', 'tol%g' % tol, 'ties' if cs['ties'] else 'generic')


facet(P, 'comparison', gen_eq, chk_eq, 900,
      rule='a mesh (also with many equal coordinates) against a renumbered, reordered copy with vertices moved by up to 0.45 tolerance, or with one '
           'vertex moved by 4 tolerances, an edge flipped, a face replaced, a vertex or a face more; tolerances 0..1e-3; non-trivial: more than one face')


def gen_tube(d):
    return {'e': d.weighted([(3, d.int(3, 8)), (1, d.int(3, d.sz(40, 40, 200)))]), 'n': d.weighted([(3, d.int(2, 6)), (1, d.int(2, d.sz(30, 30, 60))), (1, 1)])}


def chk_tube(cs):
    t = S.tri
    ne, n = cs['e'], cs['n']
    f = call(t.ell_tube_2_tri, ne, n)
    f = faces_of(f, ne * n, 'tube faces')
    expect(f.shape == (2 * ne * (n - 1), 3), 'the tube has a wrong number of faces', shape=f.shape)
    if n > 1:
        quads = {}
        for a in f:
            s = sorted(set(int(x) // ne for x in a))
            expect(len(s) == 2 and s[1] == s[0] + 1, 'a face does not join consecutive sections', face=a)
            pos = set(int(x) % ne for x in a)
            expect(len(pos) == 2 and ((max(pos) - min(pos)) == 1 or (min(pos) == 0 and max(pos) == ne - 1)), 'a face does not join neighbouring points',
                   face=a)
            st = min(pos) if max(pos) - min(pos) == 1 and not (ne == 2) else ne - 1
            quads.setdefault((s[0], st), []).append(set(int(x) for x in a))
        expect(len(quads) == ne * (n - 1), 'the tube misses a part of its surface', cells=len(quads))
        for (s, i), fs in quads.items():
            full = {s * ne + i, s * ne + (i + 1) % ne, (s + 1) * ne + i, (s + 1) * ne + (i + 1) % ne}
            expect(len(fs) == 2 and fs[0] | fs[1] == full and len(fs[0] & fs[1]) == 2, 'a cell of the tube is not covered by two triangles',
                   cell=(s, i), faces=fs)
        d = directed(f)
        for (a, b), k in d.items():
            rim = a // ne == b // ne and a // ne in (0, n - 1)
            expect(len(k) == 1 and len(d.get((b, a), ())) == (0 if rim else 1), 'the tube is not consistently oriented and open only at its ends', edge=(a, b))
    seg = arr(call(t.ell_tube_discr_tri, ne, n), (n, ne + 1), 'section polylines')
    exp = np.array([[s * ne + i % ne for i in range(ne + 1)] for s in range(n)])
    expect(np.array_equal(seg, exp), 'section polylines are not the closed sections', got=seg)
    return res(n > 1, 'n%d' % min(n, 7), 'e%d' % min(ne, 9))


facet(P, 'tubes', gen_tube, chk_tube, 150, rule='3..40 points per section, 1..30 sections (small ones exhaustively); non-trivial: two sections or more',
      fixed=lambda: [{'e': e, 'n': n} for e in range(3, 9) for n in range(1, 7)])
