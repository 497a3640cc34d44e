"""C28: configuration and object settings behave as a store."""
from vf.registry import facet
from vf.oracle import *

P = 'C28'
NAMES = ['version', 'is_verbose', 'abs_tol', 'rel_tol', 'reg_tol', 'ode_solver_name', 'is_ode_norm_control',
         'is_enabled_ode_solver_options', 'n_plot_2d_points', 'n_plot_3d_points', 'n_time_grid_points']
SETTERS = ['is_verbose', 'n_plot_2d_points', 'n_plot_3d_points', 'n_time_grid_points', 'abs_tol', 'rel_tol']
SHIPPED = {'version': '2.1', 'is_verbose': False, 'abs_tol': 1e-6, 'rel_tol': 1e-5, 'reg_tol': 1e-5, 'ode_solver_name': 'ode45',
           'is_ode_norm_control': True, 'is_enabled_ode_solver_options': False, 'n_plot_2d_points': 200, 'n_plot_3d_points': 200,
           'n_time_grid_points': 250}
ELL = ['abs_tol', 'rel_tol', 'n_plot_2d_points', 'n_plot_3d_points']
HYP = ['abs_tol', 'rel_tol']


def good(d, name):
    if name in ('abs_tol', 'rel_tol', 'reg_tol'):
        return d.choice([1e-9, 1e-7, 1e-6, 1e-5, 1e-3, 0.1, 1.0, d.pos(1e-8, 1e-2)])
    if name.startswith('n_'):
        v = d.int(1, 400)
        return float(v) if d.chance(20) else v
    if name == 'ode_solver_name':
        return d.choice(['ode45', 'ode23', 'ode113'])
    if name == 'version':
        return d.text('0123.', 1, 4)
    return d.bool()


def bad(d, name):
    if name in ('abs_tol', 'rel_tol', 'reg_tol'):
        return d.choice([0.0, -1e-6, '1e-6', None, 1, [1e-6], True, 'nan!'])
    if name.startswith('n_'):
        return d.choice([2.5, '200', None, [200], 0.1])
    if name == 'ode_solver_name':
        return d.choice(['ode15', '', 45, None])
    if name == 'version':
        return d.choice([2.1, None, 3])
    return d.choice(['on', 1, 0, None, 1.0])


def gen_hist(d):
    ops = []
    nobj = nsnap = 0
    for _ in range(d.int(3, d.sz(14, 30, 120))):
        k = d.weighted([(6, 'set'), (3, 'ell'), (3, 'hyp'), (2, 'snap'), (1, 'init'), (1, 'repl'), (2, 'spoil'), (3, 'parse'),
                        (2, 'query'), (1, 'badobj'), (1, 'again'), (1, 'copy')])
        if k == 'set':
            n = d.choice(SETTERS)
            ops.append(['set', n, good(d, n)])
        elif k in ('ell', 'hyp'):
            names = ELL if k == 'ell' else HYP
            ops.append([k, [[n, good(d, n)] for n in names if d.chance(35)], d.int(1, 3), d.chance(25)])
            nobj += 1
        elif k == 'snap':
            ops.append(['snap'])
            nsnap += 1
        elif k == 'repl':
            ops.append(['repl', [[n, good(d, n)] for n in NAMES]])
        elif k == 'spoil':
            ops.append(['spoil', d.int(0, 5), d.choice(NAMES), d.choice([0, -1.0, 'x', None])])
        elif k == 'parse':
            needed = None if d.chance(20) else [d.choice(NAMES)] if d.chance(20) else [n for n in d_perm(d, NAMES) if d.chance(40)]
            args = [[n, good(d, n)] for n in NAMES if d.chance(30)]
            extra = [[n, d.int(0, 9)] for n in ('foo', 'bar', 'abs', 'q') if d.chance(30)]
            wrong = None
            if d.chance(40):
                wrong = d.choice(['unknown', 'bad', 'bad'])
            b = d.choice(NAMES)
            ops.append(['parse', needed, args, extra, wrong, b, bad(d, b)])
        elif k == 'badobj':
            n = d.choice(ELL)
            ops.append(['badobj', n, bad(d, n)])
        elif k in ('query', 'again', 'copy'):
            ops.append([k, d.int(0, 9)])
        else:
            ops.append(['init'])
    return {'ops': ops}


def d_perm(d, seq):
    return [seq[i] for i in d.perm(len(seq))]


def unnan(v):
    return float('nan') if v == 'nan!' else v


def config():
    """The configuration as the getters tell it."""
    Pr = S.Properties
    return {n: call(getattr(Pr, 'get_' + n)) for n in NAMES}


def same_conf(a, b):
    return set(a) == set(b) and all(type(a[k]) == type(b[k]) and a[k] == b[k] for k in a)


def settings(o, names):
    cls = type(o)
    return {n: float(num(call(cls.get_property, [o], n, None))) for n in names}


def chk_hist(cs):
    Pr = S.Properties
    call(Pr.init)
    try:
        return _hist(cs)
    finally:
        Pr.init()


def _hist(cs):
    Pr = S.Properties
    defaults = config()
    expect(same_conf(defaults, SHIPPED), 'initialisation does not restore the defaults', got=defaults, expected=SHIPPED)
    model = dict(defaults)
    objs, snaps = [], []
    tags = set()
    created_after_write = False
    wrote = False
    for i, op in enumerate(cs['ops']):
        k = op[0]
        tags.add(k)
        if k == 'set':
            call(getattr(Pr, 'set_' + op[1]), op[2])
            model[op[1]] = op[2]
            wrote = True
        elif k == 'init':
            call(Pr.init)
            model = dict(defaults)
        elif k == 'repl':
            call(Pr.set_conf_repo_mgr, {n: v for n, v in op[1]})
            model = {n: v for n, v in op[1]}
            wrote = True
        elif k == 'snap':
            s = call(Pr.get_prop_dict)
            expect(isinstance(s, dict) and same_conf({n: s.get(n) for n in NAMES}, model), 'the snapshot is not the configuration',
                   got=s, expected=model)
            snaps.append((s, dict(s)))
        elif k == 'spoil':
            if snaps:
                s, _ = snaps[op[1] % len(snaps)]
                s[op[2]] = op[3]
                snaps[op[1] % len(snaps)] = (s, dict(s))
        elif k in ('ell', 'hyp'):
            kw = {n: v for n, v in op[1]}
            kw0 = dict(kw)
            n = op[2]
            names = ELL if k == 'ell' else HYP
            if op[3]:
                o = call(S.Ellipsoid, **kw) if k == 'ell' else call(S.Hyperplane, **kw)
            elif k == 'ell':
                o = call(S.Ellipsoid, np.zeros(n), np.eye(n), **kw)
            else:
                o = call(S.Hyperplane, np.ones(n), 1.0, **kw)
            expect(kw == kw0, 'the keyword arguments are modified')
            objs.append((o, names, {m: float(kw.get(m, model[m])) for m in names}))
            created_after_write |= wrote
        elif k == 'copy':
            if objs:
                o, names, st = objs[op[1] % len(objs)]
                if int(call(type(o).dimension, [o]).ravel()[0]):
                    c = objs_of(call(type(o).get_copy, [o]), 1)[0]
                    objs.append((c, names, st))
        elif k == 'badobj':
            v = unnan(op[2])
            rejects('ill-typed %s' % op[1], S.Ellipsoid, np.zeros(2), np.eye(2), **{op[1]: v})
            if op[1] in HYP:
                rejects('ill-typed %s' % op[1], S.Hyperplane, np.ones(2), 1.0, **{op[1]: v})
        elif k == 'parse':
            _, needed, args, extra, wrong, bn, bv = op
            bv = unnan(bv)
            kw = {n: v for n, v in args}
            kw.update({n: v for n, v in extra})
            nd = None if needed is None else list(needed)
            full = list(NAMES) if nd is None else nd
            if wrong == 'unknown':
                nd = (nd or []) + ['no_such_property']
                kw0 = dict(kw)
                rejects('unknown property', Pr.parse_prop, kw, nd)
                expect(kw == kw0, 'a refused call modified its arguments', got=kw)
            elif wrong == 'bad':
                kw[bn] = bv
                kw0 = dict(kw)
                if bn in full:
                    rejects('ill-typed value of %s' % bn, Pr.parse_prop, kw, *(() if nd is None else (nd,)))
                else:
                    vals, rest = pair(call(Pr.parse_prop, kw, nd), 2, 'parsed settings')
                    expect(bn in rest, 'an argument which is not asked for is not passed through', got=rest)
                expect(kw == kw0, 'the call modified its arguments', got=kw)
            else:
                kw0, nd0 = dict(kw), (list(nd) if nd is not None else None)
                vals, rest = pair(call(Pr.parse_prop, kw, *(() if nd is None else (nd,))), 2, 'parsed settings')
                expect(kw == kw0 and nd == nd0, 'the call modified its arguments', got=kw)
                exp = [kw.get(n, model[n]) for n in full]
                with interp('parsed settings'):
                    vals = list(vals)
                    expect(len(vals) == len(exp) and all(type(a) == type(b) and a == b for a, b in zip(vals, exp)),
                           'wrong settings are returned', got=vals, expected=exp, needed=full, args=kw)
                    expect(dict(rest) == {a: b for a, b in kw.items() if a not in full},
                           'the remaining arguments are not passed through', got=rest, args=kw, needed=full)
        elif k == 'query':
            q = op[1] % 5
            if q == 0:
                call(Pr.check_settings)
            elif q == 1:
                expect(same_conf({n: call(Pr.get_conf_repo_mgr).get(n) for n in NAMES}, model),
                       'the repository does not hold the configuration')
            else:
                es = [o for o, names, _ in objs if names is ELL and int(call(S.Ellipsoid.dimension, [o]).ravel()[0])]
                if es:
                    outcome(S.Ellipsoid.volume, es)
                    outcome(S.Ellipsoid.is_degenerate, es)
                    outcome(S.Ellipsoid.minksum_ea, es[:1] + es[:1], np.eye(int(call(S.Ellipsoid.dimension, es[:1]).ravel()[0])))
        elif k == 'again':
            pass
        cur = config()
        expect(same_conf(cur, model), 'the configuration is not what was last written', after=op, got=cur, expected=model)
        for s, s0 in snaps:
            expect(s == s0, 'a snapshot changed after it was handed out', got=s, expected=s0, after=op)
        for o, names, st in objs:
            got = settings(o, names)
            expect(got == st, 'an object does not keep its settings', got=got, expected=st, after=op)
    nt = wrote and (created_after_write or 'snap' in tags or 'parse' in tags)
    return res(nt, *sorted(tags))


facet(P, 'histories', gen_hist, chk_hist, 500,
      rule='histories of 3..14 (30) writes, replacements, re-initialisations, snapshots and their spoiling, object creations with '
           'overrides, copies, settings parsing (valid, unknown, ill-typed) and queries against a model; non-trivial: a write '
           'and a later object, snapshot or parsing')
