"""C30: errors, warnings and logs identify their origin."""
import re
import sys
import types
import warnings
from vf.registry import facet
from vf.oracle import *

P = 'C30'
KINDS = ['func', 'method', 'static', 'classm', 'inherited', 'inner', 'closure', 'lambda', 'gen']
WORDS = ['run', 'getValue', 'do_it', 'x', 'Compute', 'f1', 'update', '_hidden']
CLS = ['Shape', 'boxObj', 'Ellipsoid', 'T', '_Priv']
MODS = ['alpha', 'betaMod', 'a.b', 'pkg.Sub.mod', 'util']
_count = [0]


def gen_frame(d):
    return [d.choice(KINDS), d.choice(WORDS), d.choice(CLS), d.int(0, 2)]


def gen_chain(d, lo=1, hi=6):
    return [gen_frame(d) for _ in range(d.int(lo, hi))]


SRC = {
    'func': 'def {f}(chain, i):\n    g, a = chain[i + 1]\n    return g(*a)\nentry = {f}\n',
    'method': 'class {c}:\n    def {f}(self, chain, i):\n        g, a = chain[i + 1]\n        return g(*a)\nentry = {c}().{f}\n',
    'static': 'class {c}:\n    @staticmethod\n    def {f}(chain, i):\n        g, a = chain[i + 1]\n        return g(*a)\nentry = {c}.{f}\n',
    'classm': 'class {c}:\n    @classmethod\n    def {f}(cls, chain, i):\n        g, a = chain[i + 1]\n        return g(*a)\nentry = {c}.{f}\n',
    'inherited': 'class Base{c}:\n    def {f}(self, chain, i):\n        g, a = chain[i + 1]\n        return g(*a)\nclass {c}(Base{c}):\n    pass\nentry = {c}().{f}\n',
    'inner': 'def outer():\n    def {f}(chain, i):\n        g, a = chain[i + 1]\n        return g(*a)\n    return {f}\nentry = outer()\n',
    'closure': 'class {c}:\n    def outer(self):\n        def {f}(chain, i):\n            self.seen = i\n            g, a = chain[i + 1]\n            return g(*a)\n        return {f}\nentry = {c}().outer()\n',
    'lambda': 'entry = lambda chain, i: chain[i + 1][0](*chain[i + 1][1])\n',
    'gen': 'def {f}(chain, i):\n    g, a = chain[i + 1]\n    yield g(*a)\ndef entry(chain, i):\n    return next({f}(chain, i))\n',
}


class Chain:
    """Callers in modules of their own; run(f, args) calls f from the innermost one."""

    def __init__(self, frames):
        self.frames = []   # innermost last: (function name, module and class, file)
        self.entries = []
        self.mods = []
        mods = {}
        for kind, f, c, m in frames:
            _count[0] += 1
            name = '%s%d' % (MODS[(m + _count[0]) % len(MODS)], _count[0])
            mod = types.ModuleType(name)
            mod.__file__ = '/nonexistent/vf_dyn/%s.py' % name
            sys.modules[name] = mod
            self.mods.append(name)
            exec(compile(SRC[kind].format(f=f, c=c), mod.__file__, 'exec'), mod.__dict__)
            self.entries.append(mod.entry)
            if kind == 'gen':
                self.frames.append(('entry', name, mod.__file__))
            full = name + '.' + c if kind in ('method', 'inherited', 'closure') else name
            self.frames.append(('<lambda>' if kind == 'lambda' else f, full, mod.__file__))

    def run(self, f, *args):
        chain = []
        for i, e in enumerate(self.entries):
            chain.append((e, None))
        chain.append((f, args))
        chain = [(e, (chain, i)) if i < len(self.entries) else (e, a) for i, (e, a) in enumerate(chain)]
        for i in range(len(self.entries)):
            chain[i] = (chain[i][0], (chain, i))
        g, a = chain[0]
        return g(*a)

    def up(self, k):
        """The k-th caller up from the called function (1 - the innermost)."""
        return self.frames[-k] if k <= len(self.frames) else None

    def close(self):
        for m in self.mods:
            sys.modules.pop(m, None)


def height():
    """Number of frames including this one."""
    f = sys._getframe()
    n = 0
    while f is not None:
        n += 1
        f = f.f_back
    return n


# ------------------------------------------------------------------ caller lookup
def gen_look(d):
    return {'chain': gen_chain(d, 1, d.sz(7, 9, 40)), 'over': d.int(0, 5), 'rec': d.int(0, 3), 'style': d.choice(['pos', 'pos', 'kw'])}


def chk_look(cs):
    C = S.common
    ch = Chain(cs['chain'])
    kw = cs['style'] == 'kw'

    def ext(k):
        return ch.run((lambda **a: None) if False else C.get_caller_name_ext, k)
    try:
        for k in range(1, len(ch.frames) + 1):
            f, full, _ = ch.up(k)
            got = call(ext, k)
            expect(got == (f, full), 'wrong caller %d level(s) up' % k, got=got, expected=(f, full), chain=ch.frames)
            got = call(ch.run, C.get_caller_name, k, 'full')
            expect(got == full + '.' + f, 'wrong full name of the caller %d level(s) up' % k, got=got, expected=full + '.' + f)
            got = call(ch.run, C.get_caller_name, k)
            expect(got == full, 'wrong class of the caller %d level(s) up' % k, got=got, expected=full)
        got = call(ch.run, C.get_caller_name_ext)
        expect(got == ch.up(1)[:2], 'the default depth is not the caller', got=got, expected=ch.up(1))
        got = call(ch.run, C.get_caller_name)
        expect(got == ch.up(1)[1], 'the default depth is not the caller', got=got, expected=ch.up(1))
        h = ch.run(height) + 2  # call() and the generator of the chain add frames outside
        for k in (h + cs['over'], h + 40):
            got = call(ch.run, C.get_caller_name_ext, k)
            expect(got == ('', ''), 'a caller beyond the top of the stack', got=got, up=k, height=h)
            for mode in ('full', 'default'):
                got = call(ch.run, C.get_caller_name, k, mode)
                expect(got == '', 'a caller beyond the top of the stack', got=got, up=k, height=h)
        rejects('unknown mode', ch.run, C.get_caller_name, 1, 'short')
    finally:
        ch.close()
    return res(len(ch.frames) >= 2, *sorted(set(f[0] for f in cs['chain'])))


facet(P, 'lookup', gen_look, chk_look, 300,
      rule='stacks of 1..7 callers (functions, methods, inherited, static, class, nested, closures, lambdas, generators) of generated '
           'modules, looked up at every depth and beyond the top; non-trivial: at least two frames')


# ------------------------------------------------------------------ errors and warnings
ALPHA = 'abcXYZ:_. %{}1'


def gen_err(d):
    return {'chain': gen_chain(d), 'tag': d.text(ALPHA, 0, 10), 'msg': d.text(ALPHA, 0, 20), 'up': d.choice([None, 1, 1, 2, 3, 4, 5, 200]),
            'throw': d.choice([None, True, False]), 'what': d.choice(['error', 'error', 'warn']), 'times': d.int(1, 3)}


def chk_err(cs):
    C = S.common
    ch = Chain(cs['chain'])
    try:
        if cs['what'] == 'warn':
            f, full, file = ch.up(1)
            exp = (full + '.' + f).replace('.', ':').upper() + ':' + cs['tag'] + ':' + cs['msg']
            for _ in range(cs['times']):
                with warnings.catch_warnings(record=True) as w:
                    warnings.simplefilter('always')
                    call(ch.run, C.throw_warn, cs['tag'], cs['msg'])
                expect(len(w) == 1, 'not exactly one warning', got=[str(x.message) for x in w])
                expect(issubclass(w[0].category, RuntimeWarning), 'a warning of another category', got=w[0].category)
                expect(str(w[0].message) == exp, 'wrong text of the warning', got=str(w[0].message), expected=exp)
                expect(w[0].filename == file, 'the warning points to another place', got=w[0].filename, expected=file)
            return res(True, 'warn')
        up = cs['up']
        k = 1 if up is None else up
        fr = ch.up(k)
        if fr is None and k < 100:
            return res(False, 'outside')
        exp = ('' if fr is None else (fr[1] + '.' + fr[0]).replace('.', ':').upper()) + ':' + cs['tag'] + ':' + cs['msg']
        args = [cs['tag'], cs['msg']]
        if cs['throw'] is not None or up is not None:
            args.append(k)
        if cs['throw'] is not None:
            args.append(cs['throw'])
        for _ in range(cs['times']):
            if cs['throw'] is False:
                e = call(ch.run, C.throw_error, *args)
                expect(isinstance(e, ValueError), 'the error is not returned', got=e)
            else:
                kind, e = outcome(ch.run, C.throw_error, *args)
                expect(kind == 'error', 'the error is not raised', got=e)
                expect(isinstance(e, ValueError), 'an error of another kind', got=repr(e))
            expect(str(e) == exp, 'wrong text of the error', got=str(e), expected=exp, up=up)
        return res(True, 'error', 'up%s' % up, 'throw%s' % cs['throw'])
    finally:
        ch.close()


facet(P, 'errors', gen_err, chk_err, 600,
      rule='errors raised or returned for the caller or 1..5 levels up (or beyond the top) and warnings, with any tag and message; '
           'non-trivial: the level names a generated caller')


# ------------------------------------------------------------------ loggers
LEVELS = ['debug', 'info', 'warning', 'error', 'critical']


def gen_log(d):
    return {'chains': [gen_chain(d, 1, 3) for _ in range(d.int(1, d.sz(4, 4, 10)))],
            'ops': [[d.int(0, 3), d.choice(LEVELS), d.text('abc xyz', 1, 8), d.chance(30)] for _ in range(d.int(2, d.sz(10, 30, 120)))]}


def chk_log(cs):
    chs = [Chain(c) for c in cs['chains']]
    held = {}
    reps = 0
    try:
        used = set()
        for n, (i, level, msg, hold) in enumerate(cs['ops']):
            i %= len(chs)
            ch = chs[i]
            f, full, _ = ch.up(1)
            name = full + '.' + f
            text = 'm%d_%d %s' % (n, _count[0], msg)
            with captured() as buf:
                if hold and i in held:
                    lg = held[i]
                else:
                    lg = call(ch.run, S.get_logger)
                    held[i] = lg
                expect(getattr(lg, 'name', None) == name, 'the logger has another name', got=getattr(lg, 'name', None), expected=name)
                call(getattr(lg, level), text)
            out = buf.getvalue()
            expect(out.count(text) == 1, 'a message is emitted %d times' % out.count(text), output=out, message=text, requested=n)
            line = [x for x in out.splitlines() if text in x][0]
            expect(name in line and level.upper() in line, 'the line does not name the origin and the level', line=line, name=name, level=level)
            expect(len(out.splitlines()) == 1, 'more is emitted than the message', output=out)
            reps += i in used
            used.add(i)
        return res(reps > 0, *sorted(set(o[1] for o in cs['ops'])))
    finally:
        for ch in chs:
            ch.close()


facet(P, 'loggers', gen_log, chk_log, 300,
      rule='sequences of 2..10 (30) requests of loggers by 1..4 callers and messages of every level; non-trivial: a caller logs again')


# ------------------------------------------------------------------ verbose operations
def gen_verb(d):
    n = d.int(2, 3)
    es = [{'c': d.vec(n), 'q': d.psd(n, d.int(0, n - 1)) if d.chance(60) else d.spd(n)} for _ in range(d.int(1, 3))]
    return {'n': n, 'e': es, 'dirs': [d.dirv(n) for _ in range(d.int(1, 2))],
            'ops': [[d.choice(['bigger', 'internal', 'ea', 'ia']), d.int(0, 3), d.chance(80)] for _ in range(d.int(3, 9))]}


def chk_verb(cs):
    E = S.Ellipsoid
    es = mk_ells(cs['e'])
    degs = [bool(x) for x in np.asarray(call(E.is_degenerate, es)).ravel()]
    dirs = np.array(cs['dirs']).T.copy()
    first = {}
    again = False
    S.Properties.init()
    try:
        for op, i, verb in cs['ops']:
            i %= len(es)
            call(S.Properties.set_is_verbose, verb)
            with captured() as buf:
                if op == 'bigger':
                    kind, v = outcome(es[i].is_bigger, es[0])
                    deg, title = degs[i], 'IS_BIGGER'
                elif op == 'internal':
                    kind, v = outcome(E.is_internal, [es[i]], np.zeros((cs['n'], 1)), 'i')
                    deg, title = degs[i], 'ISINTERNAL'
                elif op == 'ea':
                    kind, v = outcome(E.minksum_ea, [es[i], es[0]], dirs)
                    deg, title = degs[i] or degs[0], 'MINKSUM_EA'
                else:
                    kind, v = outcome(E.minksum_ia, [es[i], es[0]], dirs)
                    deg, title = degs[i] or degs[0], 'MINKSUM_IA'
            out = buf.getvalue()
            if not verb or not deg:
                expect(out == '', 'messages %s' % ('without verbosity' if not verb else 'with nothing to report'), op=op, output=out)
                continue
            if kind == 'error' or (op == 'bigger' and not out):
                continue
            expect(title in out, 'the message does not name the operation', op=op, output=out)
            lines = [re.sub(r'^[-\d :,]*', '', x) for x in out.splitlines()]
            key = (op, i)
            if key in first:
                again = True
                expect(len(lines) == first[key], 'the number of messages depends on what was logged before', op=op, lines=lines[:8],
                       count=len(lines), first=first[key])
            else:
                first[key] = len(lines)
    finally:
        S.Properties.init()
    return res(bool(first), 'again' if again else 'once', *sorted(k[0] for k in first))


facet(P, 'verbose', gen_verb, chk_verb, 300,
      rule='sequences of containment, membership and sum queries on ellipsoids some of which are degenerate, verbosity on and off; '
           'non-trivial: a regularization is reported')
