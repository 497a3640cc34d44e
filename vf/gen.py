"""Generation side (CPython + Hypothesis): draws that shrink."""
from hypothesis import strategies as st

from vf.draws import Draws


class D(Draws):
    def __init__(self, draw, tier='quick'):
        self._draw = draw
        self.lvl = 1 if tier == 'thorough' else 0

    def _i(self, lo, hi):
        return self._draw(st.integers(lo, hi))

    def _f(self, lo, hi):
        return self._draw(st.floats(lo, hi, allow_nan=False, allow_infinity=False, allow_subnormal=False))

    def _perm(self, n):
        return self._draw(st.permutations(list(range(n))))
