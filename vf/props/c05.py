"""C05: internal approximations of the Minkowski sum."""
from vf.registry import facet
from vf.oracle import *
from vf.props import mink

P = 'C05'


def judge(cs, degenerate):
    fn = S.Ellipsoid.minksum_ia
    dm = A(cs['dirs']).T
    n, k = dm.shape
    out = mink.run(fn, cs, dm, k)
    cc, qs, tols = mink.sums(cs)
    deg = [np.linalg.eigvalsh(q)[0] <= t * 1.001 for q, t in zip(qs, tols)]
    if not degenerate and any(deg):
        return res(False, 'skipped')
    big = max(1.0, max(np.linalg.eigvalsh(q)[-1] for q in qs)) * len(qs) ** 2
    # rotations of (nearly) equal directions are only built to 1e-7
    rt = 3e-7 * np.sqrt(big)
    for i in range(k):
        c, q = out[i]
        l = dm[:, i]
        close(c, cc, 1e-11 * scale_of(cc), 'centre is not the sum of the centres')
        touch = np.sqrt(max(0.0, float(l @ q @ l)))
        own = mink.half(qs, l)
        if not touch >= own - rt * np.linalg.norm(l):
            fail('the approximation does not touch the sum in its own direction', direction=l, got=touch, expected=own)
        for m in mink.probes(n, cs, [l], qs, q):
            s = np.sqrt(max(0.0, float(m @ q @ m)))
            r = sum(np.sqrt(max(0.0, float(m @ qq @ m)) + (t * float(m @ m) if g else 0.0))
                    for qq, t, g in zip(qs, tols, deg))
            if s > r + rt:
                fail('the approximation is not inside the sum', direction=m, got=s, expected=r, own=l)
    mink.same_results(fn, cs, dm, out, 1e-5 if degenerate else 1e-6)
    return res(len(cs['es']) > 1, 'dim%d' % n, 'degenerate' if any(deg) else 'regular', 'summands%d' % len(qs))


facet(P, 'nondegenerate', lambda d: mink.gen_case(d, mink.gen_nondeg), lambda cs: judge(cs, False), 450,
      rule='2..5 (10) nondegenerate summands, dimension 1..5 (8), 1..5 directions; probes: axes, random, eigenvectors '
           'and neighbours of the touching direction; non-trivial: all')
facet(P, 'degenerate', lambda d: mink.gen_case(d, mink.gen_any), lambda cs: judge(cs, True), 350,
      rule='at least some summands of rank 0..n; non-trivial: all')
facet(P, 'single', lambda d: mink.gen_case(d, mink.gen_any, 1), lambda cs: mink.chk_single(S.Ellipsoid.minksum_ia, cs), 100,
      rule='one summand; non-trivial: several directions')
facet(P, 'refusals', mink.gen_bad, lambda cs: mink.chk_bad(S.Ellipsoid.minksum_ia, cs), 40, rule='invalid sums')
