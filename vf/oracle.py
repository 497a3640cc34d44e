"""Oracle-side helpers (run in PyPy, next to the code under test). Importable in CPython too (SUT is lazy)."""
import json
import zlib
import contextlib
import numpy as np


class Violation(Exception):
    def __init__(self, msg, **info):
        Exception.__init__(self, msg)
        self.msg = msg
        self.info = info


class _Sut:
    """Lazy access to the public names of the library."""
    _mods = {
        'Ellipsoid': 'ellipy.elltool.core.ellipsoid.Ellipsoid',
        'Hyperplane': 'ellipy.elltool.core.hyperplane.Hyperplane',
        'ell_unitball': 'ellipy.elltool.core.core',
        'ell_sim_diag': 'ellipy.elltool.core.core',
        'ell_fusion_lambda': 'ellipy.elltool.core.core',
        'ell_valign': 'ellipy.elltool.core.core',
        'Properties': 'ellipy.elltool.conf.properties.Properties',
        'get_logger': 'ellipy.gen.logging.logging',
    }
    _groups = {
        'la': 'ellipy.gras.la.la', 'gen': 'ellipy.gras.gen.gen', 'geom': 'ellipy.gras.geom.geom',
        'gell': 'ellipy.gras.geom.ell.ell', 'tri': 'ellipy.gras.geom.tri.tri', 'sup': 'ellipy.gras.geom.sup.sup',
        'sym': 'ellipy.gras.sym.sym', 'dict': 'ellipy.gen.dict.dict', 'common': 'ellipy.gen.common.common',
        'core': 'ellipy.elltool.core.core',
    }

    def __getattr__(self, name):
        import importlib
        if name in self._mods:
            v = getattr(importlib.import_module(self._mods[name]), name)
        elif name in self._groups:
            v = importlib.import_module(self._groups[name])
        else:
            raise AttributeError(name)
        setattr(self, name, v)
        return v


S = _Sut()


def _short(x, n=400):
    try:
        s = repr(x)
    except Exception as e:  # a broken repr must not break the report
        s = '<unprintable %s: %r>' % (type(x).__name__, e)
    return s if len(s) <= n else s[:n] + '...'


def fail(msg, **info):
    raise Violation(msg, **{k: _short(v) for k, v in info.items()})


def expect(cond, msg, **info):
    if not cond:
        fail(msg, **info)


def call(fn, *a, **k):
    """Call the code under test with a valid input: any exception is a violation."""
    try:
        return fn(*a, **k)
    except Exception as e:
        raise Violation('valid input raised %s: %s' % (type(e).__name__, _short(str(e), 300)),
                        call=_short(getattr(fn, '__qualname__', fn)))


def outcome(fn, *a, **k):
    """('ok', value) or ('error', exception)."""
    try:
        return 'ok', fn(*a, **k)
    except Exception as e:
        return 'error', e


def rejects(what, fn, *a, **k):
    """The code under test must refuse this input with an exception."""
    try:
        r = fn(*a, **k)
    except Exception as e:
        return e
    fail('invalid input accepted: ' + what, returned=r)


@contextlib.contextmanager
def interp(what):
    """Interpretation of a value returned by the code under test; failing to interpret it is a violation."""
    try:
        yield
    except Violation:
        raise
    except Exception as e:
        raise Violation('unusable result (%s): %s: %s' % (what, type(e).__name__, _short(str(e), 300)))


def arr(x, shape=None, what='result', finite=True, dtype=np.float64):
    """Numeric array view of a result; wrong kind, shape or non-finite values are violations."""
    with interp(what):
        a = np.asarray(x)
        if a.dtype == object:
            fail('%s is not numeric' % what, value=x)
        a = np.array(a, dtype=dtype)
    if shape is not None and a.shape != tuple(shape):
        fail('%s has shape %s, expected %s' % (what, a.shape, tuple(shape)), value=x)
    if finite and not np.all(np.isfinite(a)):
        fail('%s has non-finite values' % what, value=x)
    return a


def flat(x, size=None, what='result', finite=True):
    a = arr(x, None, what, finite).ravel()
    if size is not None and a.size != size:
        fail('%s has %d values, expected %d' % (what, a.size, size), value=x)
    return a


def num(x, what='result', finite=True):
    a = arr(x, None, what, finite)
    if a.size != 1:
        fail('%s is not a single number' % what, value=x)
    return float(a.ravel()[0])


def boolean(x, what='result'):
    with interp(what):
        a = np.asarray(x)
    if a.size != 1 or a.dtype.kind not in 'bi':
        fail('%s is not a single boolean' % what, value=x)
    v = a.ravel()[0]
    if a.dtype.kind == 'i' and v not in (0, 1):
        fail('%s is not a boolean' % what, value=x)
    return bool(v)


def bools(x, shape=None, what='result'):
    with interp(what):
        a = np.asarray(x)
    if a.dtype.kind != 'b':
        if a.dtype == object and all(isinstance(v, (bool, np.bool_)) for v in a.ravel()):
            a = a.astype(bool)
        else:
            fail('%s is not boolean' % what, value=x)
    if shape is not None and a.shape != tuple(shape):
        fail('%s has shape %s, expected %s' % (what, a.shape, tuple(shape)), value=x)
    return a


def close(a, b, tol, msg, **info):
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    if a.shape != b.shape:
        fail(msg + ' (shapes differ)', got=a, expected=b, **info)
    if a.size == 0:
        return
    d = np.abs(a - b)
    if not np.all(d <= tol):
        fail(msg, got=a, expected=b, max_diff=float(np.nanmax(d)) if np.any(np.isfinite(d)) else 'nan', tol=tol, **info)


def pair(x, n, what='result'):
    """A tuple of n results."""
    if not isinstance(x, (tuple, list)) or len(x) != n:
        fail('%s should be %d values' % (what, n), value=x)
    return tuple(x)


def A(x):
    return np.array(x, dtype=np.float64)


def M(x, n=None):
    """2-D float matrix from nested lists (keeps (0, n) shapes sane)."""
    a = np.array(x, dtype=np.float64)
    return a


def obj_array(objs, shape):
    """Object array of a given shape built safely."""
    out = np.empty(len(objs), dtype=object)
    for i, o in enumerate(objs):
        out[i] = o
    return out.reshape(tuple(shape))


def mk_ell(e):
    """Build an ellipsoid from {'c':..., 'q':..., 'p': {...}}."""
    p = e.get('p') or {}
    q = M(e['q'])
    if 'c' in e and e['c'] is not None:
        return call(S.Ellipsoid, A(e['c']), q, **p)
    return call(S.Ellipsoid, q, **p)


def mk_hyp(h):
    p = h.get('p') or {}
    return call(S.Hyperplane, A(h['n']), h['s'], **p)


def shared(specs, make):
    """One object per specification; for half of the repeated specifications it is the very same object again."""
    made, out = {}, []
    for sp in specs:
        key = json.dumps(sp, sort_keys=True)
        if key in made and zlib.crc32(key.encode()) % 2:
            out.append(made[key])
        else:
            made[key] = make(sp)
            out.append(made[key])
    return out


def mk_ells(es):
    return shared(es, mk_ell)


def mk_hyps(hs):
    return shared(hs, mk_hyp)


def ell_data(o, n=None, what='ellipsoid'):
    """(centre, shape) of an ellipsoid result, as float arrays."""
    if not isinstance(o, S.Ellipsoid):
        fail('%s is not an ellipsoid' % what, value=o)
    c, q = pair(call(o.double), 2, what)
    c = arr(c, None, what + ' centre')
    q = arr(q, None, what + ' shape')
    if c.ndim != 1 or q.ndim != 2 or q.shape != (c.size, c.size):
        fail('%s has inconsistent data' % what, centre=c, shape=q)
    if n is not None and c.size != n:
        fail('%s has dimension %d, expected %d' % (what, c.size, n))
    return c, q


def hyp_data(o, what='hyperplane'):
    if not isinstance(o, S.Hyperplane):
        fail('%s is not a hyperplane' % what, value=o)
    n, s = pair(call(o.double), 2, what)
    return arr(n, None, what + ' normal'), num(s, what + ' shift')


def objs_of(x, count=None, cls=None, what='result'):
    """List of objects in a result array."""
    with interp(what):
        a = np.asarray(x, dtype=object)
    lst = list(a.ravel())
    if count is not None and len(lst) != count:
        fail('%s has %d elements, expected %d' % (what, len(lst), count))
    if cls is not None:
        for o in lst:
            if not isinstance(o, cls):
                fail('%s holds a wrong object' % what, value=o)
    return lst


def scale_of(*arrs):
    m = 1.0
    for a in arrs:
        a = np.asarray(a, dtype=float)
        if a.size:
            m = max(m, float(np.max(np.abs(a))))
    return m


def supf(c, q, l):
    """Reference support function."""
    l = np.asarray(l, dtype=float)
    return float(l @ c + np.sqrt(max(0.0, float(l @ q @ l))))


def probe_dirs(n, k=24, seed=0, extra=()):
    """Deterministic probing directions (unit), axis, pairs, random, plus extra ones."""
    rs = np.random.RandomState(seed)
    ds = [np.eye(n)[i] for i in range(n)]
    if n > 1:
        ds += list(rs.randn(k, n))
    for e in extra:
        ds.append(np.asarray(e, dtype=float))
    out = []
    for v in ds:
        s = np.linalg.norm(v)
        if s > 1e-12:
            out.append(v / s)
            out.append(-v / s)
    return np.array(out)


class _Tee:
    """Stands for sys.stderr since before the library is imported, so that what it writes can be looked at."""

    def __init__(self, real):
        self.real = real
        self.buf = None

    def write(self, s):
        return (self.buf or self.real).write(s)

    def flush(self):
        (self.buf or self.real).flush()

    def isatty(self):
        return False

    def fileno(self):
        return self.real.fileno()


def install_tee():
    import sys
    if not isinstance(sys.stderr, _Tee):
        sys.stderr = _Tee(sys.stderr)


@contextlib.contextmanager
def captured():
    """What is written to the standard error stream meanwhile (and to the standard output)."""
    import io
    import sys
    install_tee()
    buf = io.StringIO()
    old, out = sys.stderr.buf, sys.stdout
    sys.stderr.buf, sys.stdout = buf, buf
    try:
        yield buf
    finally:
        sys.stderr.buf, sys.stdout = old, out


def res(nontrivial=True, *tags):
    return {'nontrivial': bool(nontrivial), 'tags': [str(t) for t in tags]}
