"""Draws of values for cases.

`Draws` builds JSON-able values from three primitives (integer, float, permutation).  `RandD` drives them with a plain
pseudo-random generator (large cases: no limit on the number of draws); `vf.gen.D` with Hypothesis (shrinkable).
"""
import copy
import math
import random


class Draws:
    lvl = 0     # size of cases: 0 quick, 1 thorough, 2 large

    @property
    def big(self):
        return self.lvl >= 1

    def sz(self, quick, thorough, large):
        """An upper bound of a size by level."""
        return (quick, thorough, large)[self.lvl]

    def count(self, lo, quick, thorough, large):
        """A count: small ones as often as large ones."""
        hi = self.sz(quick, thorough, large)
        if self.lvl == 2 and self.int(0, 2):
            return self.int(max(lo, min(quick, hi)), hi)
        return self.int(lo, hi)

    def layout(self, seq, most=60):
        """A shape: one of seq, or (large cases) a bigger random one."""
        if self.lvl < 2 or self.int(0, 3) == 0:
            return self.choice(seq)
        k = self.int(0, 3)
        if k == 0:
            return [self.int(5, most)]
        if k == 1:
            a = self.int(2, 7)
            return [a, self.int(2, max(2, most // a))]
        if k == 2:
            return self.choice([[1, self.int(5, most)], [self.int(5, most), 1]])
        return [2, self.int(1, 4), self.int(1, max(2, most // 8))]

    # ---- scalars
    def int(self, lo, hi):
        return self._i(lo, hi)

    def bool(self):
        return self._i(0, 1) == 1

    def chance(self, pct):
        """True with about pct percent (shrinks to False)."""
        return self._i(0, 99) >= 100 - pct

    def choice(self, seq):
        seq = list(seq)
        return seq[self._i(0, len(seq) - 1)]

    def weighted(self, pairs):
        """pairs: [(weight, value)]; the first is what it shrinks to."""
        tot = sum(w for w, _ in pairs)
        k = self._i(0, tot - 1)
        for w, v in pairs:
            if k < w:
                return v
            k -= w
        raise AssertionError

    def nice(self, lo, hi, den=4):
        """A number lo..hi with a small denominator."""
        return self._i(math.ceil(lo * den), math.floor(hi * den)) / den

    def real(self, lo, hi):
        """A nice number or a full-precision float in lo..hi."""
        k = self._i(0, 3)
        if k == 0:
            return float(self._i(math.ceil(lo), math.floor(hi)))
        if k == 1:
            return self.nice(lo, hi, 8)
        if k == 2:
            return self.nice(lo, hi, 1000)
        v = self._f(lo, hi) + 0.0
        return v if abs(v) > 1e-9 else 0.0

    def pos(self, lo=0.1, hi=10.0):
        """Positive number, log-uniform-ish."""
        k = self._i(0, 2)
        if k == 0:
            return float(max(1, math.ceil(lo))) if hi >= 1 else hi
        t = self._i(0, 1000) / 1000.0
        return math.exp(math.log(lo) + t * (math.log(hi) - math.log(lo)))

    def text(self, alphabet='abcxyz', lo=0, hi=6):
        n = self.int(lo, hi)
        return ''.join(self.choice(alphabet) for _ in range(n))

    def perm(self, n):
        return list(self._perm(n))

    def subset(self, seq):
        return [x for x in seq if self.bool()]

    # ---- vectors and matrices (lists)
    def vec(self, n, lo=-5.0, hi=5.0):
        return [self.real(lo, hi) for _ in range(n)]

    def ivec(self, n, lo=-3, hi=3):
        return [float(self.int(lo, hi)) for _ in range(n)]

    def mat(self, m, n, lo=-5.0, hi=5.0):
        return [self.vec(n, lo, hi) for _ in range(m)]

    def imat(self, m, n, lo=-3, hi=3):
        return [self.ivec(n, lo, hi) for _ in range(m)]

    def dirv(self, n):
        """A nonzero direction: axis, small integer, or real."""
        k = self._i(0, 3)
        if k == 0:
            v = [0.0] * n
            v[self.int(0, n - 1)] = self.choice([1.0, -1.0])
            return v
        if k == 1:
            v = self.ivec(n)
        else:
            v = self.vec(n, -4.0, 4.0)
        if sum(x * x for x in v) < 0.01:
            v[self.int(0, n - 1)] = self.choice([1.0, -1.0, 2.0])
        return v

    def unit(self, n):
        v = self.dirv(n)
        s = math.sqrt(sum(x * x for x in v))
        return [x / s for x in v]

    def orth(self, n):
        """An orthogonal matrix: product of up to 2 Householder reflections and a signed permutation."""
        m = eye(n)
        for _ in range(self.int(0, 2) if n > 1 else 0):
            m = matmul(m, householder(self.unit(n)))
        if self.bool():
            p = self.perm(n)
            m = [[m[i][p[j]] for j in range(n)] for i in range(n)]
        sg = [self.choice([1.0, -1.0]) for _ in range(n)]
        return [[m[i][j] * sg[j] for j in range(n)] for i in range(n)]

    def sym_eig(self, eigs):
        """Symmetric matrix with (nearly exactly) the given spectrum."""
        n = len(eigs)
        u = self.orth(n)
        return sym_from(u, eigs)

    def spd(self, n, lo=0.1, hi=10.0):
        """Well-conditioned positive definite matrix with eigenvalues in about lo..hi."""
        k = self._i(0, 3)
        if k == 0:
            return diag([self.pos(lo, hi)] * n)
        if k == 1:
            return diag([self.pos(lo, hi) for _ in range(n)])
        return self.sym_eig([self.pos(lo, hi) for _ in range(n)])

    def psd(self, n, rank=None, lo=0.2, hi=8.0):
        """Exactly symmetric PSD matrix of given rank (default any, incl. 0)."""
        if rank is None:
            rank = self.int(0, n)
        if rank == 0:
            return [[0.0] * n for _ in range(n)]
        if rank == n and self.bool():
            return self.spd(n, lo, hi)
        if self.bool():  # integer factor: exact zero eigenvalues (up to eigen solver)
            f = self.imat(n, rank, -2, 2)
            m = [[sum(f[i][k] * f[j][k] for k in range(rank)) for j in range(n)] for i in range(n)]
            return m
        eigs = [self.pos(lo, hi) for _ in range(rank)] + [0.0] * (n - rank)
        if self.bool():
            p = self.perm(n)
            return diag([eigs[i] for i in p])
        return self.sym_eig(eigs)

    def dups(self, specs, pct=20):
        """Sometimes make some of the specifications equal to earlier ones."""
        if len(specs) > 1 and self.chance(pct):
            for _ in range(self.int(1, 2)):
                i = self.int(1, len(specs) - 1)
                specs[i] = copy.deepcopy(specs[self.int(0, i - 1)])
        return specs

    def shape(self, max_nd=3, max_size=6, lo=1):
        nd = self.int(1, max_nd)
        out = []
        size = 1
        for _ in range(nd):
            k = self.int(lo, max(lo, max_size // max(size, 1)))
            out.append(k)
            size *= k
        return out


class RandD(Draws):
    def __init__(self, seed, lvl=2):
        self._r = random.Random(seed)
        self.lvl = lvl

    def _i(self, lo, hi):
        return self._r.randint(lo, hi)

    def _f(self, lo, hi):
        return self._r.uniform(lo, hi)

    def _perm(self, n):
        p = list(range(n))
        self._r.shuffle(p)
        return p


# ---- list linear algebra
def eye(n):
    return [[1.0 if i == j else 0.0 for j in range(n)] for i in range(n)]


def diag(v):
    n = len(v)
    return [[float(v[i]) if i == j else 0.0 for j in range(n)] for i in range(n)]


def matmul(a, b):
    return [[math.fsum(a[i][k] * b[k][j] for k in range(len(b))) for j in range(len(b[0]))] for i in range(len(a))]


def transpose(a):
    return [list(r) for r in zip(*a)]


def householder(u):
    n = len(u)
    return [[(1.0 if i == j else 0.0) - 2 * u[i] * u[j] for j in range(n)] for i in range(n)]


def sym_from(u, eigs):
    n = len(eigs)
    m = [[0.0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i, n):
            v = math.fsum(u[i][k] * eigs[k] * u[j][k] for k in range(n))
            m[i][j] = v
            m[j][i] = v
    return m


def prod(seq):
    r = 1
    for x in seq:
        r *= x
    return r
