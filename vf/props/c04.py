"""C04: external approximations of the Minkowski sum."""
from vf.registry import facet
from vf.oracle import *
from vf.props import mink

P = 'C04'


def judge(cs, degenerate):
    fn = S.Ellipsoid.minksum_ea
    dm = A(cs['dirs']).T
    n, k = dm.shape
    out = mink.run(fn, cs, dm, k)
    cc, qs, tols = mink.sums(cs)
    deg = [np.linalg.eigvalsh(q)[0] <= t * 1.001 for q, t in zip(qs, tols)]
    if not degenerate and any(deg):
        return res(False, 'skipped')
    for i in range(k):
        c, q = out[i]
        l = dm[:, i]
        close(c, cc, 1e-11 * scale_of(cc), 'centre is not the sum of the centres')
        w = np.linalg.eigvalsh(0.5 * (q + q.T))
        touch = np.sqrt(max(0.0, float(l @ q @ l)))
        own = mink.half(qs, l)
        up = own if not degenerate else sum(
            np.sqrt(max(0.0, float(l @ qq @ l)) + (t * float(l @ l) if g else 0.0)) for qq, t, g in zip(qs, tols, deg))
        tol = 1e-9 * np.sqrt(max(1.0, w[-1])) * np.linalg.norm(l)
        if not touch <= up + tol + 1e-10 * up:
            fail('the approximation does not touch the sum in its own direction', direction=l, got=touch, expected=up)
        for m in mink.probes(n, cs, [l], qs, q):
            s = np.sqrt(max(0.0, float(m @ q @ m)))
            r = mink.half(qs, m)
            if s < r - 1e-9 * np.sqrt(max(1.0, w[-1])) - 1e-10 * r:
                fail('the approximation does not contain the sum', direction=m, got=s, expected=r, own=l)
    mink.same_results(fn, cs, dm, out, 1e-9 if not degenerate else 1e-6)
    return res(len(cs['es']) > 1, 'dim%d' % n, 'degenerate' if any(deg) else 'regular', 'summands%d' % len(qs))


facet(P, 'nondegenerate', lambda d: mink.gen_case(d, mink.gen_nondeg), lambda cs: judge(cs, False), 500,
      rule='2..5 (10) nondegenerate summands, dimension 1..5 (8), 1..5 directions; probes: axes, random, eigenvectors '
           'and neighbours of the touching direction; non-trivial: all')
facet(P, 'degenerate', lambda d: mink.gen_case(d, mink.gen_any), lambda cs: judge(cs, True), 400,
      rule='at least some summands of rank 0..n; non-trivial: all')
facet(P, 'single', lambda d: mink.gen_case(d, mink.gen_any, 1), lambda cs: mink.chk_single(S.Ellipsoid.minksum_ea, cs), 100,
      rule='one summand; non-trivial: several directions')
facet(P, 'refusals', mink.gen_bad, lambda cs: mink.chk_bad(S.Ellipsoid.minksum_ea, cs), 40, rule='invalid sums')
