"""C31: the printed form of an object tells what it is and its data."""
import re
from vf.registry import facet
from vf.oracle import *

P = 'C31'
NUM = re.compile(r'(?<![A-Za-z_0-9.])[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|\.\d+)(?![A-Za-z_0-9])')


def coord(d):
    return d.weighted([(6, lambda: d.real(-5, 5)), (3, lambda: float(d.int(-9, 9))), (1, lambda: 0.0), (1, lambda: d.real(-1e-5, 1e-5)),
                       (1, lambda: d.real(-1e6, 1e6)), (1, lambda: d.int(-9, 9) / 3.0)])()


def gen_p(d, plots):
    p = {}
    if d.chance(30):
        p['abs_tol'] = d.choice([1e-9, 1e-4, 0.5])
    if d.chance(30):
        p['rel_tol'] = d.choice([1e-9, 1e-3])
    if plots and d.chance(30):
        p['n_plot_2d_points'] = d.int(1, 900)
    if plots and d.chance(30):
        p['n_plot_3d_points'] = d.int(1, 900)
    return p


def gen_obj(d):
    k = d.weighted([(5, 'e'), (4, 'h'), (1, 'e0'), (1, 'h0')])
    n = d.weighted([(4, 2), (3, 3), (2, 1), (2, 4), (1, 6)]) if d.lvl < 2 else d.choice([1, 2, 5, 12, 25])
    o = {'k': k, 'p': gen_p(d, k[0] == 'e'), 'n': n}
    if k == 'e':
        o['c'] = [coord(d) for _ in range(n)]
        o['q'] = d.weighted([(4, lambda: d.spd(n)), (2, lambda: d.psd(n)), (1, lambda: [[coord(d) ** 2 if i == j else 0.0 for j in range(n)] for i in range(n)])])()
        s = d.choice([1.0, 1.0, 1.0, 1e-6, 1e5])
        o['q'] = [[x * s for x in r] for r in o['q']]
    elif k == 'h':
        v = [coord(d) for _ in range(n)]
        if max(map(abs, v)) < 1.0:  # a normal within the tolerance of zero is no normal
            v[d.int(0, n - 1)] = d.choice([1.0, -2.0, 3.5])
        o['v'], o['s'] = v, coord(d)
    return o


def gen(d):
    return {'objs': [gen_obj(d) for _ in range(d.int(1, d.sz(4, 8, 12)))], 'verb': d.bool()}


def make(o):
    if o['k'] == 'e':
        return S.Ellipsoid(A(o['c']), M(o['q']), **o['p'])
    if o['k'] == 'h':
        return S.Hyperplane(A(o['v']), o['s'], **o['p'])
    return S.Ellipsoid(**o['p']) if o['k'] == 'e0' else S.Hyperplane(**o['p'])


def has_run(nums, vals):
    """Whether the values stand in the text one after another (8 digits are printed)."""
    v = np.ravel(vals).astype(float)
    tol = 1e-7 * max(1.0, 0.0 if v.size == 0 else float(np.max(np.abs(v))))
    if v.size and np.max(np.abs(v)) < 1e-4:
        tol = 1e-6 * float(np.max(np.abs(v)))
    k = v.size
    for i in range(len(nums) - k + 1):
        if np.all(np.abs(nums[i:i + k] - v) <= tol):
            return True
    return False


def data_numbers(t):
    """Numbers of the data section (of the whole text if there is no such section)."""
    t = t[t.rfind('Data') + 4:] if 'Data' in t else t
    return np.array([float(x) for x in NUM.findall(t)])


def chk(cs):
    S.Properties.init()
    call(S.Properties.set_is_verbose, cs['verb'])
    tags = set()
    texts = []
    for o in cs['objs']:
        x = make(o)
        cls = type(x)
        word, other = ('ellipsoid', 'hyperplane') if cls is S.Ellipsoid else ('hyperplane', 'ellipsoid')
        t = call(str, x)
        expect(isinstance(t, str) and t.strip() != '', 'no text is printed', text=t)
        expect(word in t.lower() and other not in t.lower(), 'the text does not name the kind of the object', text=t)
        empty = o['k'][1:] == '0'
        tags.add('empty ' + word if empty else word)
        if not empty:
            if word == 'ellipsoid':
                a, b = A(o['c']), M(o['q'])
            else:  # structures of hyperplanes hold the unit normal and the non-negative shift
                k = (-1.0 if o['s'] < 0 else 1.0) / np.linalg.norm(A(o['v']))
                a, b = A(o['v']) * k, o['s'] * k
            with interp('printed numbers'):
                nums = data_numbers(t)
                for name, v in (('centre' if word == 'ellipsoid' else 'normal', a), ('shape matrix' if word == 'ellipsoid' else 'shift', b)):
                    expect(has_run(nums, v), 'the text does not show the %s' % name, text=t, value=v)
                need = np.size(a) + np.size(b)
                expect(len(nums) == need, 'the data section shows other numbers than the data', text=t, numbers=nums, centre_or_normal=a, shape_or_shift=b)
        d0, nice, descr, _ = call(cls.to_dict, [x], False)
        with interp('structure'):
            for f in (nice.values() if isinstance(nice, dict) else ()):
                expect(f in t, 'a field is not named in the text', field=f, text=t)
            for f in (descr.values() if isinstance(descr, dict) else ()):
                expect(f in t, 'a field is not described in the text', field=f, text=t)
        expect(call(str, x) == t, 'printing again gives another text', first=t, second=str(x))
        c = objs_of(call(cls.get_copy, [x]), 1)[0]
        expect(call(str, c) == t, 'a copy prints differently', first=t, second=str(c))
        if not empty:
            with interp('structure'):
                r = objs_of(call(cls.from_dict, np.array(d0).flatten()), 1)[0]
            t1 = call(str, r)
            if word == 'ellipsoid':
                expect(t1 == t, 'an ellipsoid rebuilt from its structure prints differently', first=t, second=t1)
            else:
                n1 = data_numbers(t1)
                expect(n1.shape == nums.shape and np.allclose(n1, nums, 1e-6, 1e-12), 'a hyperplane rebuilt from its structure prints differently',
                       first=t, second=t1)
            if word == 'ellipsoid':
                gc, gq = ell_data(x)
                expect(np.array_equal(gc, a) and np.array_equal(gq, b), 'printing changed the object')
            else:
                gv, gs = hyp_data(x)
                expect(np.array_equal(gv, A(o['v'])) and gs == o['s'], 'printing changed the object')
        texts.append(t)
        for i, (o2, t2) in enumerate(zip(cs['objs'], texts)):
            if o2['k'] != o['k']:
                expect(t2 != t, 'different objects print alike', text=t)
    return res(any(o['k'] in 'eh' and o['n'] > 1 for o in cs['objs']), *sorted(tags))


facet(P, 'printed', gen, chk, 500,
      rule='lists of 1..4 (8, 12) ellipsoids and hyperplanes, some empty, of dimensions 1..6 (25) with coordinates from 1e-6 to 1e6 and any '
           'settings; the numbers printed are parsed and compared to the data; non-trivial: a non-empty object of dimension above 1')
