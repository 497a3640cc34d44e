"""C29: queries are pure; operands, configuration and results are stable."""
from vf.registry import facet
from vf.oracle import *

P = 'C29'
PROPS = ['abs_tol', 'rel_tol', 'n_plot_2d_points', 'n_plot_3d_points']
CONF = ['is_verbose', 'abs_tol', 'rel_tol', 'n_plot_2d_points', 'n_plot_3d_points', 'n_time_grid_points', 'version']


# ------------------------------------------------------------------ canonical results
def canon(x, depth=0):
    """A comparable copy of a result."""
    E, H = S.Ellipsoid, S.Hyperplane
    if depth > 6:
        return ('deep', str(type(x)))
    if isinstance(x, E):
        c, q = pair(call(x.double), 2, 'ellipsoid')
        return ('ell', canon(c, depth + 1), canon(q, depth + 1), tuple(settings(x)))
    if isinstance(x, H):
        c, q = pair(call(x.double), 2, 'hyperplane')
        return ('hyp', canon(c, depth + 1), canon(q, depth + 1), tuple(settings(x)))
    if isinstance(x, dict):
        return ('dict', tuple((str(k), canon(v, depth + 1)) for k, v in sorted(x.items(), key=lambda kv: str(kv[0]))))
    if isinstance(x, (list, tuple)):
        return ('seq', tuple(canon(v, depth + 1) for v in x))
    if isinstance(x, np.ndarray):
        if x.dtype == object or x.dtype.kind in 'US':
            return ('arr', x.shape, tuple(canon(v, depth + 1) for v in x.ravel()))
        if x.dtype.kind == 'b':
            return ('arr', x.shape, tuple(bool(v) for v in x.ravel()))
        return ('num', x.shape, np.array(x, dtype=complex if x.dtype.kind == 'c' else np.float64))
    if isinstance(x, (bool, np.bool_)):
        return ('bool', bool(x))
    if isinstance(x, (int, float, np.number)):
        return ('num', (), np.array(float(x)))
    if x is None or isinstance(x, str):
        return ('val', x)
    return ('other', type(x).__name__)


def same(a, b, tol):
    if type(a) != type(b):
        return False
    if isinstance(a, tuple):
        if a and a[0] == 'num' and b and b[0] == 'num':
            if a[1] != b[1]:
                return False
            if a[2].size == 0:
                return True
            with np.errstate(all='ignore'):
                s = np.nanmax(np.abs(np.where(np.isfinite(a[2]), a[2], 0.0)))
                return bool(np.allclose(a[2], b[2], rtol=0, atol=tol * max(1.0, s), equal_nan=True))
        return len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    return a == b


def run(fn, *a):
    k, v = outcome(fn, *a)
    return ('error', type(v).__name__, str(v)) if k == 'error' else ('ok', canon(v)), (None if k == 'error' else v)


def settings(o):
    names = PROPS if isinstance(o, S.Ellipsoid) else PROPS[:2]
    return [float(num(call(type(o).get_property, [o], n, None))) for n in names]


def spoil(x, keep, depth=0):
    """Overwrite every array of a result which shares no memory with the operands."""
    if depth > 6:
        return
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            for v in x.ravel():
                spoil(v, keep, depth + 1)
            if x.flags.writeable and not any(x is k for k in keep):
                x.fill(None)
        elif x.flags.writeable and x.dtype.kind in 'bifuc' and not any(np.shares_memory(x, k) for k in keep):
            x.fill(77 if x.dtype.kind != 'b' else True)
    elif isinstance(x, dict):
        for k in list(x):
            spoil(x[k], keep, depth + 1)
            x[k] = 'spoilt'
    elif isinstance(x, (list, tuple)):
        for v in x:
            spoil(v, keep, depth + 1)
        if isinstance(x, list) and not any(x is k for k in keep):
            x[:] = ['spoilt'] * len(x)


# ------------------------------------------------------------------ objects
class Pool:
    def __init__(self, cs):
        self.n = cs['n']
        self.e = [mk_ell(e) for e in cs['e']]
        self.h = [mk_hyp(h) for h in cs['h']]
        self.dirs = np.array(cs['dirs'], dtype=float).T.copy()
        self.pts = np.array(cs['pts'], dtype=float).T.copy()
        self.basis = np.array(cs['basis'], dtype=float)[:, :cs['k']].copy()
        self.arrs = [self.dirs, self.pts, self.basis]

    def state(self):
        return (tuple(canon(o) for o in self.e + self.h), tuple(a.tobytes() + str(a.shape).encode() for a in self.arrs))


def seq(objs, form):
    if form == 'list':
        return list(objs)
    return obj_array(list(objs), [len(objs)])


# name: (kind, function of (pool, indices, form))  ; kind 'e' - needs ellipsoids, 'h' - hyperplanes
def _pick(lst, ix):
    return [lst[i % len(lst)] for i in ix]


def _E(method, *extra):
    def f(p, ix, form):
        return getattr(S.Ellipsoid, method)(seq(_pick(p.e, ix), form), *[x(p) if callable(x) else x for x in extra])
    return f


def _H(method, *extra):
    def f(p, ix, form):
        return getattr(S.Hyperplane, method)(seq(_pick(p.h, ix), form), *[x(p) if callable(x) else x for x in extra])
    return f


def _one(method, *extra):
    def f(p, ix, form):
        return getattr(p.e[ix[0] % len(p.e)], method)(*[x(p) if callable(x) else x for x in extra])
    return f


def _bigger(p, ix, form):
    return p.e[ix[0] % len(p.e)].is_bigger(p.e[ix[-1] % len(p.e)])


def _iseq(cls, attr, props):
    def f(p, ix, form):
        objs = getattr(p, attr)
        a, b = _pick(objs, ix), _pick(objs, [i + 1 for i in ix])
        return cls().is_equal(seq(a, form), seq(b, form), props)
    return f


def _copyeq(p, ix, form):
    c = S.Ellipsoid.get_copy(seq(_pick(p.e, ix), form))
    return S.Ellipsoid.is_equal(c, seq(_pick(p.e, ix), form))


def _parallel(p, ix, form):
    return S.Hyperplane.is_parallel(seq(_pick(p.h, ix), form), seq(_pick(p.h, [ix[0]]), form))


def _contains(p, ix, form):
    return S.Hyperplane.contains(seq(_pick(p.h, ix), form), p.pts[:, :1])


def _todict(cls, attr):
    def f(p, ix, form):
        r = cls().to_dict(seq(_pick(getattr(p, attr), ix), form), True)
        return r
    return f


def _fromdict(cls, attr):
    def f(p, ix, form):
        r = cls().to_dict(seq(_pick(getattr(p, attr), ix), form), True)
        return cls().from_dict(r[0])
    return f


def _op(name):
    def f(p, ix, form):
        a, b = p.e[ix[0] % len(p.e)], p.e[ix[-1] % len(p.e)]
        return bool(a == b)
    return f


QUERIES = {
    'volume': _E('volume'), 'trace': _E('trace'), 'max_eig': _E('max_eig'), 'min_eig': _E('min_eig'),
    'is_degenerate': _E('is_degenerate'), 'is_empty': _E('is_empty'), 'dimension': _E('dimension'),
    'dimrank': _E('dimension', True), 'get_copy': _E('get_copy'), 'uminus': _E('uminus'), 'polar': _E('polar'),
    'polar1': lambda p, ix, form: S.Ellipsoid.polar(seq(_pick(p.e, ix[:1]), form)),
    'rho': _E('rho', lambda p: p.dirs[:, :1]),
    'rho1': lambda p, ix, form: S.Ellipsoid.rho(seq(_pick(p.e, ix[:1]), form), p.dirs),
    'ea': _E('minksum_ea', lambda p: p.dirs), 'ia': _E('minksum_ia', lambda p: p.dirs),
    'get_projection': _E('get_projection', lambda p: p.basis),
    'internal_u': _E('is_internal', lambda p: p.pts, 'u'), 'internal_i': _E('is_internal', lambda p: p.pts, 'i'),
    'abs_tol': _E('get_abs_tol'), 'rel_tol': _E('get_rel_tol', None), 'n2': _E('get_n_plot_2d_points'),
    'n3': _E('get_n_plot_3d_points'), 'rep_mat': _one('rep_mat', (2, 2)), 'double': _one('double'),
    'parameters': _one('parameters'), 'center': _one('get_center_vec'), 'shape_mat': _one('get_shape_mat'),
    'boundary': _one('get_boundary', 12, True), 'boundary0': _one('get_boundary'), 'bfactor': _one('get_boundary_by_factor', 0.5, True),
    'rho_boundary': _one('get_rho_boundary', 12), 'rbfactor': _one('get_rho_boundary_by_factor', 0.5),
    'bigger': _bigger, 'eq': _iseq(lambda: S.Ellipsoid, 'e', False), 'eqp': _iseq(lambda: S.Ellipsoid, 'e', True),
    'copyeq': _copyeq, 'to_dict': _todict(lambda: S.Ellipsoid, 'e'), 'from_dict': _fromdict(lambda: S.Ellipsoid, 'e'), '==': _op('=='),
    'h_dimension': _H('dimension'), 'h_copy': _H('get_copy'), 'h_uminus': _H('uminus'), 'h_empty': _H('is_empty'),
    'h_tol': _H('get_abs_tol'), 'h_eq': _iseq(lambda: S.Hyperplane, 'h', False), 'h_parallel': _parallel, 'h_contains': _contains,
    'h_to_dict': _todict(lambda: S.Hyperplane, 'h'), 'h_from_dict': _fromdict(lambda: S.Hyperplane, 'h'),
    'h_double': lambda p, ix, form: p.h[ix[0] % len(p.h)].double(),
    'h_parameters': lambda p, ix, form: p.h[ix[0] % len(p.h)].parameters(),
    'h_rep': lambda p, ix, form: p.h[ix[0] % len(p.h)].rep_mat((3,)),
}
# the answer for an array of objects does not depend on its being a list or an array
TOL = 1e-8


def gen_hist(d):
    n = d.weighted([(4, 2), (3, 3), (1, 1), (2, 4), (1, 6)])
    es = []
    for _ in range(d.int(2, 5)):
        big = d.chance(50)
        es.append({'c': d.vec(n, -0.3, 0.3) if big else d.vec(n), 'q': d.spd(n, 0.5, 8.0) if d.chance(65) else d.psd(n),
                   'p': dict([(k, v) for k, v in (('abs_tol', d.choice([1e-6, 1e-5])), ('n_plot_2d_points', d.int(4, 30)),
                                                  ('n_plot_3d_points', d.int(4, 30))) if d.chance(40)])})
    hs = [{'n': d.dirv(n), 's': d.real(-4, 4), 'p': {'abs_tol': 1e-5} if d.chance(30) else {}} for _ in range(d.int(1, 3))]
    qs = []
    for _ in range(d.int(3, d.sz(9, 16, 30))):
        qs.append([d.choice(sorted(QUERIES)), [d.int(0, 4) for _ in range(d.int(1, 4))]])
    return {'n': n, 'e': es, 'h': hs, 'dirs': [d.dirv(n) for _ in range(d.int(1, 3))],
            'pts': [d.vec(n) for _ in range(d.int(1, 4))], 'basis': d.orth(n), 'k': d.int(1, n),
            'qs': qs, 'runs': [[d.int(0, 30), d.chance(40), d.choice(['list', 'arr']), d.bool()] for _ in range(d.int(4, d.sz(14, 40, 100)))]}


def chk_hist(cs):
    Pr = S.Properties
    call(Pr.init)
    try:
        return _hist(cs)
    finally:
        Pr.init()


def conf():
    return {k: call(getattr(S.Properties, 'get_' + k)) for k in CONF}


def _hist(cs):
    Pr = S.Properties
    ref = []
    for name, ix in cs['qs']:  # every query on fresh objects
        r, v = run(QUERIES[name], Pool(cs), ix, 'arr')
        ref.append(r)
    p = Pool(cs)
    st0 = p.state()
    c0 = conf()
    seen = set()
    ok = 0
    runs = [[i, False, 'arr', False] for i in range(len(cs['qs']))] + cs['runs'] + [[i, True, 'list', True] for i in range(len(cs['qs']))]
    for k, verb, form, spl in runs:
        i = k % len(cs['qs'])
        name, ix = cs['qs'][i]
        call(Pr.set_is_verbose, bool(verb))
        r, v = run(QUERIES[name], p, ix, form)
        expect(call(Pr.get_is_verbose) == bool(verb), 'a query changed the verbosity', query=name)
        call(Pr.set_is_verbose, c0['is_verbose'])
        info = {'query': name, 'args': ix, 'form': form, 'verbose': verb}
        expect(r[0] == ref[i][0], 'a query which %s before now %s' % (('failed', 'succeeds') if r[0] == 'ok' else ('succeeded', 'fails')),
               now=r, before=ref[i], **info)
        if r[0] == 'ok':
            ok += 1
            expect(same(ref[i], r, TOL), 'the answer differs from that on fresh objects', now=r, fresh=ref[i], **info)
        else:
            expect(r[1] == ref[i][1], 'a different error', now=r, before=ref[i], **info)
        expect(same(p.state(), st0, 0.0), 'a query changed its operands', before=st0, after=p.state(), **info)
        c1 = conf()
        expect(c1 == c0, 'a query changed the configuration', before=c0, after=c1, **info)
        if spl and v is not None:
            objs = [x for x in _objects(v)]
            spoil(v, p.arrs)
            for o in objs:  # the returned objects are not the operands
                if isinstance(o, S.Ellipsoid) and not any(o is x for x in p.e):
                    n = int(num(call(S.Ellipsoid.dimension, [o])))
                    if n > 1:
                        outcome(S.Ellipsoid.projection, [o], np.eye(n)[:, :1])
            expect(same(p.state(), st0, 0.0), 'changing the answer changes the operands', before=st0, after=p.state(), **info)
        if r[0] == 'ok':
            seen.add(name)
    return res(ok >= 2 and len(seen) >= 2, *(['n%d' % cs['n']] + sorted(seen)))


def _objects(x, depth=0):
    if depth > 5:
        return []
    if isinstance(x, (S.Ellipsoid, S.Hyperplane)):
        return [x]
    if isinstance(x, np.ndarray) and x.dtype == object:
        return [o for v in x.ravel() for o in _objects(v, depth + 1)]
    if isinstance(x, (list, tuple)):
        return [o for v in x for o in _objects(v, depth + 1)]
    return []


facet(P, 'objects', gen_hist, chk_hist, 400,
      rule='histories of repeated queries (50 kinds) on a shared pool of 2..5 ellipsoids and 1..3 hyperplanes with verbosity, '
           'list/array form and spoiling of the answers varied, against the answers on fresh objects; non-trivial: at least two '
           'different queries gave answers')


# ------------------------------------------------------------------ matrix functions
def _m(name, mod, *args, **kw):
    """A call of a library function with arrays of the pool named in args."""
    return (name, mod, args, kw)


MF = {
    'not_deg': ('la', 'is_mat_not_deg', ['spd', 1e-9]), 'pos_def': ('la', 'is_mat_pos_def', ['spd', 1e-9]),
    'symm': ('la', 'is_mat_symm', ['spd']), 'orth': ('la', 'mat_orth', ['gen']), 'orth_col': ('la', 'math_orth_col', ['tall']),
    'ml_transl': ('la', 'ml_orth_transl', ['tall', 'tall3']), 'transl': ('la', 'orth_transl', ['vec', 'vec2']),
    'haus': ('la', 'orth_transl_haus', ['vec', 'vec2']), 'qr': ('la', 'orth_transl_qr', ['vec', 'vec2']),
    'maxdir': ('la', 'orth_transl_max_dir', ['vec', 'vec2', 'vec3', 'vec4']), 'maxtr': ('la', 'orth_transl_max_tr', ['vec', 'vec2', 'gen']),
    'regpd': ('la', 'reg_pos_def_mat', ['psd', 0.01]), 'sqrtm': ('la', 'sqrtm_pos', ['psd', 1e-6]),
    'real': ('la', 'try_treat_as_real', ['cplx']), 'real2': ('la', 'try_treat_as_real', ['gen']), 'reg': ('la', 'reg_mat', ['gen', 0.1]),
    'vol': ('gell', 'ell_volume', ['spd']), 'inv': ('gell', 'inv_mat', ['spd']), 'quad': ('gell', 'quad_mat', ['spd', 'vec']),
    'quadc': ('gell', 'quad_mat', ['spd', 'vec', 'vec2', 'inv']), 'quadi': ('gell', 'quad_mat', ['spd', 'vec', 'vec2', 'invadv']),
    'rho': ('gell', 'rho_mat', ['psd', 'tall', 1e-6, 'col']), 'rho0': ('gell', 'rho_mat', ['spd', 'tall']),
    'dot': ('gen', 'mat_dot', ['gen', 'spd']), 'sort': ('gen', 'sort_rows_tol', ['gen', 1e-6]), 'sort2': ('gen', 'sort_rows_tol', ['gen', 1.5]), 'sqrtp': ('gen', 'sqrt_pos', ['nonneg', 1e-6]),
    'circle': ('geom', 'circle_part', [7]), 'circle2': ('geom', 'circle_part', [7, True, 'range']), 'sphere': ('geom', 'sphere_part', [9]),
    'tube': ('tri', 'ell_tube_2_tri', [4, 3]), 'discr': ('tri', 'ell_tube_discr_tri', [4, 3]), 'ico': ('tri', 'icosahedron', []),
    'edges': ('tri', 'get_face_edge_info', ['faces']), 'f2e': ('tri', 'map_face_2_edge', ['faces']),
    'shrink': ('tri', 'shrink_face_tri', ['verts', 'faces', 0.9]), 'sphtri': ('tri', 'sphere_tri', [1]), 'isface': ('tri', 'is_face', ['faces', 'faces1']),
    'trieq': ('tri', 'is_tri_equal', ['verts', 'faces', 'verts', 'facesp', 1e-9]), 'spext2': ('tri', 'sphere_tri_ext', [2, 11, True]),
    'spext3': ('tri', 'sphere_tri_ext', [3, 11, True]), 'sup2': ('sup', 'sup_2_boundary_2', ['circ', 'supc']),
    'sup3': ('sup', 'sup_2_boundary_3', ['verts', 'ones', 'faces']), 'gd2': ('sup', 'sup_geom_diff_2d', ['rho1', 'rho2', 'circT']),
    'gd3': ('sup', 'sup_geom_diff_3d', ['rho1s', 'rho2s', 'vertsT']), 'dep': ('sym', 'is_dependent', ['syms']), 'repl': ('sym', 'var_replace', ['syms', 't', 'tau']),
    'ball': ('core', 'ell_unitball', [3]), 'diag': ('core', 'ell_sim_diag', ['spd', 'psd', 1e-6]), 'valign': ('core', 'ell_valign', ['vec', 'vec2']),
    'fusion': ('core', 'ell_fusion_lambda', [0.3, 'vec', 'spd', 'vec2', 'spd2', 2]),
    'dict': ('dict', 'dict_compare', ['dicta', 'dictb']), 'dict2': ('dict', 'dict_compare', ['dicta', 'dictb', 1e-3, 1e-3]),
    'dictv': ('dict', 'dict_compare_vec', ['dictarr', 'dictarr2']), 'member': ('common', 'is_member', ['ints', 'ints2']),
    'numeric': ('common', 'is_numeric', ['syms']), 'cmp': ('common', 'abs_rel_compare', ['inf1', 'inf2', 0.1, 0.1, 'absf']),
}
for _c, _ns in (('MatVector', ['triu:stk', 'make_symmetric:stk', 'pinv:stk', 'transpose:stk', 'from_formula_mat:syms,tv', 'eval_func:fsum,stk', 'eval_func:fthird,stk,yes,yes', 'eval_func:fthird,stk,nosp',
                               'from_func:ft,tv', 'from_expression:expr,tv', 'r_multiply_by_vec:stk,vecs', 'r_multiply:stk,stk2', 'r_multiply:stk,stk2,stk3',
                               'r_multiply_by_vec:stk,vecs,nosp', 'r_multiply:stk,gen,stk3,nosp']),
                ('SquareMatVector', ['inv:spds', 'sqrtm_pos:spds', 'make_pos_definite_or_nan:mixs', 'make_pos_definite_by_eig:mixs', 'lr_multiply:stk,stk2',
                                     'lr_multiply:gen,stk2', 'lr_multiply_by_vec:stk,vecs', 'lr_divide_vec:spds,vecs']),
                ('SymmetricMatVector', ['lr_svd_multiply:spds,spds2', 'r_svd_multiply_by_vec:spds,vecs', 'lr_svd_multiply_by_vec:spds,vecs',
                                        'lr_svd_divide_vec:spds,vecs'])):
    for _s in _ns:
        _f, _a = _s.split(':')
        MF['%s.%s(%s)' % (_c, _f, _a)] = (_c, _f, _a.split(','))


def gen_mats(d):
    n = d.weighted([(5, 2), (4, 3), (1, 1), (1, 4)])
    t = d.int(1, 4)
    def stk(f):
        return [f() for _ in range(t)]
    return {'n': n, 't': t, 'spd': d.spd(n), 'spd2': d.spd(n), 'psd': d.psd(n), 'gen': d.mat(n, n), 'vecs4': [d.dirv(n) for _ in range(4)],
            'k': d.int(1, n), 'u': d.orth(n), 'stk': stk(lambda: d.mat(n, n)), 'stk2': stk(lambda: d.mat(n, n)), 'stk3': stk(lambda: d.mat(n, n)),
            'spds': stk(lambda: d.spd(n)), 'spds2': stk(lambda: d.spd(n)), 'mixs': stk(lambda: d.spd(n) if d.chance(60) else d.psd(n)),
            'vecs': stk(lambda: d.vec(n)), 'syms': [[d.choice(['t', 'sin(t)', '1', 't*2+3', 'k', '0.5']) for _ in range(2)] for _ in range(2)],
            'tv': sorted(set(d.vec(3, 0, 3))), 'ints': [d.int(0, 5) for _ in range(d.int(1, 6))], 'ints2': [d.int(0, 5) for _ in range(d.int(1, 6))],
            'infs': [[d.choice([1.0, 2.0, 1.05, 'inf', '-inf', 'nan']) for _ in range(4)] for _ in range(2)], 'ncirc': d.int(4, 9),
            'calls': [[d.choice(sorted(MF)), d.bool()] for _ in range(d.int(3, d.sz(10, 20, 40)))],
            'order': [d.int(0, 40) for _ in range(d.int(2, d.sz(10, 20, 80)))], 'lay': d.choice(['C', 'F', 'ro'])}


def mats(cs):
    n, t = cs['n'], cs['t']
    v = [A(x) for x in cs['vecs4']]
    st = lambda k: np.stack([A(x) for x in cs[k]], axis=-1)
    ang = np.arange(cs['ncirc']) * 2 * np.pi / cs['ncirc']
    circ = np.stack([np.cos(ang), np.sin(ang)], axis=1)
    ico_v = np.array([[1, 0, 0], [-1, 0, 0], [0, 1, 0], [0, -1, 0], [0, 0, 1], [0, 0, -1.]])
    ico_f = np.array([[0, 2, 4], [2, 1, 4], [1, 3, 4], [3, 0, 4], [2, 0, 5], [1, 2, 5], [3, 1, 5], [0, 3, 5]])
    infs = [np.array([float(x) for x in r]) for r in cs['infs']]
    if any(np.any(np.isfinite(infs[0]) != np.isfinite(infs[1])) for _ in [0]):
        infs[1] = infs[0] + 0.01
    m = {'spd': A(cs['spd']), 'spd2': A(cs['spd2']), 'psd': A(cs['psd']), 'gen': A(cs['gen']), 'cplx': A(cs['gen']).astype(complex),
         'nonneg': np.abs(A(cs['gen'])), 'vec': v[0], 'vec2': v[1], 'vec3': v[2], 'vec4': v[3], 'col': v[1].reshape(-1, 1),
         'tall': A(cs['u'])[:, :cs['k']] * 2.0, 'range': np.array([0.5, 2.5]), 'verts': ico_v, 'vertsT': ico_v.T.copy(), 'faces': ico_f,
         'facesp': ico_f[[3, 1, 2, 0, 7, 5, 6, 4]], 'faces1': ico_f[[1, 4]], 'circ': circ, 'circT': circ.T.copy(), 'supc': np.ones(cs['ncirc']) * 1.5,
         'ones': np.ones(6), 'rho1': np.full(cs['ncirc'], 2.0), 'rho2': np.full(cs['ncirc'], 0.5), 'rho1s': np.full(6, 2.0), 'rho2s': np.full(6, 0.5),
         'syms': np.array(cs['syms'], dtype=object), 'tv': A(cs['tv']), 'ints': np.array(cs['ints']), 'ints2': np.array(cs['ints2']),
         'inf1': infs[0], 'inf2': infs[1], 'vecs': np.stack([A(x) for x in cs['vecs']], axis=-1)}
    m['tall3'] = np.stack([m['tall'] * (i + 1.0) for i in range(2)], axis=-1)
    for k in ('stk', 'stk2', 'stk3', 'spds', 'spds2', 'mixs'):
        m[k] = st(k)
    for k in m:
        if cs['lay'] == 'F' and isinstance(m[k], np.ndarray):
            m[k] = np.asfortranarray(m[k])
    m['dicta'] = {'a': m['gen'], 'b': {'c': m['vec'], 'd': 'txt'}, 'e': [1, 2.0]}
    m['dictb'] = {'a': m['gen'] + 1e-4, 'b': {'c': m['vec'].copy(), 'd': 'txt'}, 'e': [1, 2.0]}
    m['dictarr'] = obj_array([m['dicta'], m['dictb']], [2])
    m['dictarr2'] = obj_array([m['dicta'], m['dicta']], [2])
    return m


EXTRA = {'absf': np.abs, 'fsum': lambda a: float(np.sum(a)), 'ft': lambda t: np.array([[t, 1.0], [0.0, t * t]]), 'expr': '[[sin(t),1],[t,t**2]]',
         'nosp': False, 'yes': True, 'fthird': lambda a: a / 3.0}


def mcall(name, m):
    where, fn, args = MF[name]
    mod = getattr(S.gen, where) if where.endswith('MatVector') else getattr(S, where)
    av = []
    for a in args:
        if isinstance(a, str) and a in m:
            av.append(m[a])
        elif isinstance(a, str) and a in EXTRA:
            av.append(EXTRA[a])
        else:
            av.append(a)
    return run(getattr(mod, fn), *av)


def _raw(m):
    out = {}
    for k, v in m.items():
        if isinstance(v, np.ndarray) and v.dtype != object:
            out[k] = (v.shape, v.dtype.str, v.tobytes())
        else:
            out[k] = canon(v)
    return out


def chk_mats(cs):
    S.Properties.init()
    names = [c[0] for c in cs['calls']]
    ref = [mcall(n, mats(cs))[0] for n in names]
    m = mats(cs)
    keep = [v for v in m.values() if isinstance(v, np.ndarray)]
    if cs['lay'] == 'ro':
        for v in keep:
            v.setflags(write=False)
    raw = _raw(m)
    c0 = conf()
    seen = set()
    for k in list(range(len(names))) + cs['order'] + list(range(len(names))):
        i = k % len(names)
        r, v = mcall(names[i], m)
        expect(r[0] == ref[i][0], 'a function which %s on fresh arrays now %s' % (('failed', 'succeeds') if r[0] == 'ok' else ('succeeded', 'fails')),
               now=r, before=ref[i], function=names[i])
        if r[0] == 'ok':
            seen.add(names[i].split('(')[0])
            expect(same(ref[i], r, TOL), 'the answer differs from that on fresh arrays', now=r, fresh=ref[i], function=names[i])
        now = _raw(m)
        bad = [x for x in raw if not (now[x] == raw[x] if isinstance(raw[x][0], tuple) else same(now[x], raw[x], 0.0))]
        expect(not bad, 'a function changed its arguments', function=names[i], changed=bad)
        expect(conf() == c0, 'a function changed the configuration', function=names[i])
        if cs['calls'][i][1] and v is not None:
            spoil_far(v, keep)
    return res(len(seen) >= 2, *sorted(seen))


def spoil_far(v, keep):
    try:
        spoil(v, keep)
    except Exception:
        pass


facet(P, 'matrices', gen_mats, chk_mats, 500,
      rule='histories of repeated calls of 80 matrix, mesh, symbolic, time-indexed and comparison functions on shared (also read-only) '
           'arrays, answers spoilt in between, against the answers on fresh arrays; non-trivial: at least two functions gave answers')
