"""C25: expressions and functions of time."""
import re
from vf.registry import facet
from vf.oracle import *

P = 'C25'
F1 = ['sin', 'cos', 'tanh', 'arctan']


def gen_ast(d, depth, names=('t',)):
    k = d.int(0, 9) if depth > 0 else d.int(0, 2)
    if k <= 1:
        return ['v', d.choice(names)]
    if k == 2:
        return gen_const(d)
    if k == 3:
        return ['neg', gen_ast(d, depth - 1, names)]
    if k in (4, 5):
        return ['f', d.choice(F1), gen_ast(d, depth - 1, names)]
    if k == 6:
        return ['pow', gen_ast(d, depth - 1, names), d.int(0, 3)]
    if k == 7:
        return ['/', gen_ast(d, depth - 1, names), ['n', d.choice([2, 4.0, 0.5, 3])]]
    return [d.choice(['+', '-', '*']), gen_ast(d, depth - 1, names), gen_ast(d, depth - 1, names)]


def gen_const(d):
    k = d.int(0, 4)
    if k <= 1:
        return ['n', d.int(0, 9)]
    if k == 2:
        return ['n', d.choice([0.25, 0.5, 1.5, 3.0, 0.1, 12.75, 1e-3, 2e-05, 1e3])]
    if k == 3:
        return ['v', 'pi']
    return ['neg', ['n', d.int(1, 5)]]


def render(e, sp):
    """Fully parenthesised where needed, with optional spaces."""
    o = ' ' if sp else ''
    k = e[0]
    if k == 'n':
        return repr(e[1])
    if k == 'v':
        return e[1]
    if k == 'neg':
        return '-' + atom(e[1], sp)
    if k == 'f':
        return e[1] + '(' + o + render(e[2], sp) + o + ')'
    if k == 'pow':
        return atom(e[1], sp) + '**' + str(e[2])
    return atom(e[1], sp) + o + k + o + atom(e[2], sp)


def atom(e, sp):
    s = render(e, sp)
    return s if e[0] == 'f' or e[0] == 'v' or (e[0] == 'n') else '(' + s + ')'


def ev(e, env):
    k = e[0]
    if k == 'n':
        return float(e[1])
    if k == 'v':
        return np.pi if e[1] == 'pi' else env[e[1]]
    if k == 'neg':
        return -ev(e[1], env)
    if k == 'f':
        return float(getattr(np, e[1])(ev(e[2], env)))
    if k == 'pow':
        return ev(e[1], env) ** e[2]
    x, y = ev(e[1], env), ev(e[2], env)
    return x + y if k == '+' else x - y if k == '-' else x * y if k == '*' else x / y


def mag(e, env):
    """A bound of all the intermediate values, for rounding."""
    k = e[0]
    if k in ('n', 'v'):
        return abs(ev(e, env)) + 1.0
    if k in ('neg',):
        return mag(e[1], env)
    if k == 'f':
        return 1.0 + mag(e[2], env)
    if k == 'pow':
        return mag(e[1], env) ** max(1, e[2])
    x, y = mag(e[1], env), mag(e[2], env)
    return x + y if k in '+-' else x * y if k == '*' else 2 * x


def gen_t(d):
    k = d.int(0, 6)
    if k == 0:
        return 'int', [d.int(-2, 3)]
    if k == 1:
        return 'float', [d.real(-3, 3)]
    n = d.count(1, 6, 10, 300)
    return d.choice(['vec', 'vec', 'row', 'col', 'list', 'one']), [d.real(-3, 3) for _ in range(n)]


def mk_t(kind, ts):
    if kind == 'int':
        return int(ts[0]), [float(ts[0])]
    if kind == 'float':
        return float(ts[0]), [float(ts[0])]
    if kind == 'one':
        return np.array(ts[:1], dtype=float), [float(ts[0])]
    ts = [float(x) for x in ts]
    if kind == 'list':
        return list(ts), ts
    a = np.array(ts)
    return {'vec': a, 'row': a[None, :], 'col': a[:, None]}[kind], ts


def gen_expr(d):
    m, n = d.count(1, 3, 4, 12), d.count(1, 3, 4, 12)
    form = d.choice(['full', 'full', 'row', 'plain', 'rows'])
    if form in ('row', 'plain'):
        m = 1
    rows = [[gen_ast(d, d.int(0, 3)) if d.chance(65) else gen_const(d) for _ in range(n)] for _ in range(m)]
    kind, ts = gen_t(d)
    ws = [d.choice(['', '', ' ', '  ', '\n', ' \n  ', '\t']) for _ in range(6)] if d.chance(35) else [''] * 6
    return {'rows': rows, 'form': form, 'sp': d.bool(), 'kind': kind, 't': ts, 'ws': ws}


def chk_values(out, rows, ts, what, **info):
    m, n = len(rows), len(rows[0])
    o = arr(out, (m, n, len(ts)), what)
    for i in range(m):
        for j in range(n):
            for k, t in enumerate(ts):
                e = {'t': t}
                x = ev(rows[i][j], e)
                if abs(o[i, j, k] - x) > 1e-13 * mag(rows[i][j], e):
                    fail('%s has a wrong value' % what, row=i, col=j, t=t, got=o[i, j, k], expected=x, **info)


def chk_expr(cs):
    MV = S.gen.MatVector
    rows, sp = cs['rows'], cs['sp']
    sep = ', ' if sp else ','
    ws = cs['ws']
    body = ['[' + sep.join(render(e, sp) for e in r) + ']' for r in rows]
    expr = '[' + ws[1] + (ws[4] + ',' + ws[2]).join(body) + ws[3] + ']'
    form = cs['form']
    if form == 'rows' and any(ws):
        form = 'full'
    if form == 'row':
        expr = body[0]
    elif form == 'plain':
        expr = body[0][1:-1]
    elif form == 'rows' and expr[1:2] == '[':
        expr = expr[1:-1] if len(rows) == 1 else expr
    if form == 'plain' and expr.endswith(']'):
        return res(False)
    expr = ws[0] + expr + ws[5]
    t, ts = mk_t(cs['kind'], cs['t'])
    t0 = np.array(t, copy=True)
    out = call(MV.from_expression, expr, t)
    expect(np.array_equal(np.asarray(t), t0), 'the time vector is modified', got=t)
    chk_values(out, rows, ts, 'expression', expr=expr)
    if len(ts) > 1:
        for k in (0, len(ts) - 1):
            one = arr(call(MV.from_expression, expr, ts[k]), (len(rows), len(rows[0]), 1), 'expression at one point')
            close(one[:, :, 0], np.asarray(out, dtype=float)[:, :, k], 1e-12 * scale_of(out),
                  'one and many time points disagree', expr=expr, t=ts[k])
    rejects('empty expression', MV.from_expression, '', t)
    dep = any('t' in names_of(render(e, sp)) for r in rows for e in r)
    const = any('t' not in names_of(render(e, sp)) for r in rows for e in r)
    return res(dep, form, cs['kind'], 'mixed' if dep and const else 'time' if dep else 'const')


def names_of(s):
    return set(tok for tok in re.findall(r'\d+\.?\d*(?:[eE][-+]?\d+)?|[A-Za-z_]\w*|\S', s) if re.match(r'[A-Za-z_]', tok))


facet(P, 'expressions', gen_expr, chk_expr, 500,
      rule='1..3 x 1..3 expressions of depth up to 3 with constant entries, full/row/bare forms, 1..6 time points as numbers, '
           'vectors, rows, columns, lists; non-trivial: time occurs')


def gen_table(d):
    m, n = d.count(1, 3, 4, 12), d.count(1, 3, 4, 12)
    vec = d.chance(25)
    rows = [[gen_ast(d, d.int(0, 3)) if d.chance(70) else gen_const(d) for _ in range(1 if vec else n)] for _ in range(m)]
    kind, ts = gen_t(d)
    return {'rows': rows, 'sp': d.bool(), 'kind': kind, 't': ts, 'vec': vec}


def chk_table(cs):
    MV = S.gen.MatVector
    rows, sp = cs['rows'], cs['sp']
    strs = [[render(e, sp) for e in r] for r in rows]
    tab = np.array([r[0] for r in strs] if cs['vec'] else strs)
    tab0 = tab.copy()
    t, ts = mk_t(cs['kind'], cs['t'])
    chk_values(call(MV.from_formula_mat, tab, t), rows, ts, 'expression table', table=strs)
    expect(np.array_equal(tab, tab0), 'the table is modified')
    return res(any('t' in names_of(s) for r in strs for s in r), 'vec' if cs['vec'] else 'mat', cs['kind'])


facet(P, 'tables', gen_table, chk_table, 300,
      rule='tables of 1..3 x 1..3 expressions and vectors of them; non-trivial: time occurs')


def gen_func(d):
    cs = gen_table(d)
    cs['ret'] = d.choice(['mat', 'mat', 'vec', 'scalar', 'npscalar', 'list'])
    # at some of the points the function returns whole numbers, as integers or truth values
    cs['whole'] = [d.weighted([(4, ''), (3, 'int'), (1, 'int32'), (1, 'bool'), (1, 'float32')]) for _ in range(8)] if d.bool() else ['']
    return cs


def chk_func(cs):
    MV = S.gen.MatVector
    rows, ret = cs['rows'], cs['ret']
    if ret in ('scalar', 'npscalar'):
        rows = [rows[0][:1]]
    elif ret in ('vec', 'list'):
        rows = [r[:1] for r in rows]
    t, ts = mk_t(cs['kind'], cs['t'])
    asked, want, ws = [], {}, cs['whole']

    def f(x):
        asked.append(float(x))
        v = np.array([[ev(e, {'t': float(x)}) for e in r] for r in rows])
        w = ws[ts.index(float(x)) % len(ws)] if float(x) in ts else ''
        if w:
            v = np.clip(np.round(np.where(np.isfinite(v), v, 0.0)), -1000, 1000)
            v = (v > 0 if w == 'bool' else v).astype(w)
        want[float(x)] = v.astype(float)
        if ret == 'mat':
            return v
        if w:
            v = v.tolist() if ret != 'npscalar' else v
        if ret == 'scalar':
            return v[0][0]
        if ret == 'npscalar':
            return v.dtype.type(v[0][0])
        if ret in ('vec', 'list'):
            w = [r[0] for r in v]
            return w if ret == 'list' else np.array(w)
        return v
    out = arr(call(MV.from_func, f, t), (len(rows), len(rows[0]), len(ts)), 'function of time')
    expect(set(asked) == set(ts), 'the function is evaluated at other points', asked=asked, times=ts)
    for k, x in enumerate(ts):
        expect(np.array_equal(out[:, :, k], want[x], equal_nan=True), 'function of time has a wrong value', t=x, got=out[:, :, k],
               expected=want[x], returns=ret, types=ws)
    return res(len(ts) > 1, ret, cs['kind'], *[w for w in ws[:len(ts)] if w])


facet(P, 'functions', gen_func, chk_func, 250,
      rule='functions returning numbers, vectors, lists, matrices of any type, at some points whole numbers as integers, at 1..6 points; non-trivial: several points')


# ---------------------------------------------------------------- dependence and replacement
NAMES = ['t', 'k', 'tt', 't1', 'at', 'T', 't_', '_t', 'kt', 'k2', 'x']


def gen_dep(d):
    m, n = d.count(1, 3, 4, 12), d.count(1, 3, 4, 12)
    names = [d.choice(NAMES) for _ in range(d.int(1, 3))] if d.chance(75) else NAMES
    ent = []
    for _ in range(m * n):
        k = d.int(0, 9)
        if k == 0:
            ent.append(['num', d.int(-50, 50)])
        elif k == 1:
            ent.append(['num', d.real(-20, 20) * (10.0 ** d.int(-22, 12) if d.chance(30) else 1.0)])
        else:
            e = gen_ast(d, d.int(0, 3), names)
            if d.chance(5):     # a name occurring many times
                for _ in range(d.int(4, 12)):
                    e = [d.choice(['+', '-', '*']), e, ['v', d.choice(names)]]
            ent.append(['e', e])
    to = gen_ast(d, 2, [d.choice(NAMES)] if d.bool() else names)
    return {'m': m, 'n': n, 'ent': ent, 'sp': d.bool(), 'vec': d.chance(20), 'from': d.choice(NAMES), 'to': to,
            'obj': d.bool()}


TOK = re.compile(r'\d+\.?\d*(?:[eE][-+]?\d+)?|[A-Za-z_]\w*|\S')


def chk_dep(cs):
    sym = S.sym
    sp = cs['sp']
    strs = [render(e[1], sp) if e[0] == 'e' else e[1] for e in cs['ent']]
    obj = cs['obj'] or any(not isinstance(s, str) for s in strs)
    tab = np.array(strs, dtype=object) if obj else np.array(strs)
    if not cs['vec']:
        tab = tab.reshape(cs['m'], cs['n'])
    tab0 = tab.copy()
    names = [names_of(s) if isinstance(s, str) else set() for s in strs]
    expect(boolean(call(sym.is_dependent, tab)) == any('t' in x for x in names), 'dependence on t is misreported', table=strs)
    expect(boolean(call(sym.is_dependent, tab, False)) == any('t' in x for x in names), 'dependence on t is misreported', table=strs)
    expect(boolean(call(sym.is_dependent, tab, True)) == any('k' in x for x in names), 'dependence on k is misreported', table=strs)
    v, to = cs['from'], render(cs['to'], sp)
    out = call(sym.var_replace, tab, v, to)
    expect(np.array_equal(tab, tab0), 'the table is modified')
    with interp('replaced table'):
        o = np.asarray(out)
        expect(o.shape == tab.shape, 'the replaced table has another shape', got=o.shape)
        for s, r in zip(strs, o.ravel()):
            expect(isinstance(r, str), 'the replaced table does not hold strings', got=r)
            if isinstance(s, str):
                exp = ''.join('(' + to.replace(' ', '') + ')' if tok == v else tok for tok in TOK.findall(s))
                expect(r.replace(' ', '') == exp, 'wrong replacement', source=s, var=v, to=to, got=r, expected=exp)
            elif isinstance(s, int):
                expect(int(r) == s, 'a number is changed', source=s, got=r)
            else:
                expect(abs(float(r) - s) <= (5.1e-15 if abs(s) < 1 else 1.6e-15) * abs(s), 'a number is changed', source=s, got=r)
    rejects('empty table', sym.var_replace, np.array([[]]), v, to)
    rejects('non-string name', sym.var_replace, tab, 5, to)
    rejects('non-string name', sym.var_replace, tab, None, to)
    rejects('non-string replacement', sym.var_replace, tab, v, 1.5)
    hit = any(v in x for x in names)
    return res(hit, 'replaced' if hit else 'kept', 'obj' if obj else 'str', 'dep' if any('t' in x for x in names) else 'indep')


facet(P, 'dependence_replacement', gen_dep, chk_dep, 500,
      rule='tables over 11 confusable names with numeric entries; non-trivial: the replaced name occurs separately')


def gen_subst(d):
    cs = gen_table(d)
    cs['to'] = gen_ast(d, 2)
    return cs


def chk_subst(cs):
    rows, sp = cs['rows'], cs['sp']
    strs = [[render(e, sp) for e in r] for r in rows]
    t, ts = mk_t(cs['kind'], cs['t'])
    tab = call(S.sym.var_replace, np.array(strs), 't', render(cs['to'], sp))
    out = arr(call(S.gen.MatVector.from_formula_mat, tab, t), (len(rows), len(rows[0]), len(ts)), 'replaced expression')
    for i, r in enumerate(rows):
        for j, e in enumerate(r):
            for k, x in enumerate(ts):
                y = ev(cs['to'], {'t': x})
                sl = mag(cs['to'], {'t': x}) * mag(e, {'t': y + 1.0 if y >= 0 else y - 1.0}) * 8 + mag(e, {'t': y})
                if abs(y) > 1e4 or sl > 1e9:
                    continue
                if abs(out[i, j, k] - ev(e, {'t': y})) > 1e-13 * sl:
                    fail('the replaced expression is not the original at the substituted argument', source=strs[i][j],
                         to=render(cs['to'], sp), replaced=tab.ravel()[i * len(r) + j], t=x, got=out[i, j, k],
                         expected=ev(e, {'t': y}))
    return res(any('t' in names_of(s) for r in strs for s in r), cs['kind'])


facet(P, 'substitution', gen_subst, chk_subst, 300,
      rule='evaluation of replaced tables against evaluation at the substituted argument; non-trivial: time occurs')
