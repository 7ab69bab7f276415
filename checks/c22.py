"""C22: Chebyshev grid and differentiation matrix are exact on polynomials."""
import sys
import numpy as np
from rkv import pkg, gen
from rkv.harness import Check

C = Check("C22", "grids for n from 2 to 420 and many intervals compared with extended-precision Gauss-Lobatto points; the matrix applied to every Chebyshev basis polynomial of degree 0..n (hence to all polynomials) and to random polynomials, against extended-precision derivatives; "
          "non-trivial = every grid and refused argument; distinct by n and interval", assumptions=["intervals with |a|, |b| up to 100 times their length (the matrix inherits the rounding of the nodes)", "an absolute rounding of n*1e-14 per entry is allowed (the diagonal is computed from terms of size 1, visible only for intervals longer than about 1e3)"])
LD = np.longdouble
PI = LD("3.14159265358979323846264338327950288")
EPS = float(np.finfo(float).eps)


def interval(rng):
    k = rng.integers(7)
    if k == 0:
        return None
    if k == 1:
        w = gen.log_u(rng, 1e-4, 1e4)
        return -w, w
    if k == 2:
        return 0.0, gen.log_u(rng, 1e-3, 1e3)
    if k == 3:
        return int(rng.integers(-9, 0)), int(rng.integers(1, 9))
    if k == 4:
        w = gen.log_u(rng, 1e-2, 1e2)
        a = float(rng.uniform(-50, 50)) * w
        return a, a + w
    if k == 5:
        return -2.0, 0.0
    return float(rng.uniform(-3, 0)), float(rng.uniform(0.1, 3))


def cheb(s, kmax):
    """T_k(s), T_k'(s) for k = 0..kmax in extended precision."""
    T, D = [np.ones_like(s), s], [np.zeros_like(s), np.ones_like(s)]
    for k in range(2, kmax + 1):
        T.append(2 * s * T[-1] - T[-2])
        D.append(2 * T[k - 1] + 2 * s * D[-1] - D[-2])
    return T[:kmax + 1], D[:kmax + 1]


def call(fn, n, iv):
    return fn(n) if iv is None else fn(n, iv[0], iv[1]) if n % 2 else fn(n=n, b=iv[1], a=iv[0])


def grid(rng, mon, idx):
    n = int(rng.choice([2, 3, 4, 5, 8, 16, 32, 64])) if rng.random() < 0.4 else int(rng.integers(2, 60 if idx % 10 else 160))
    if idx % 40 == 7:
        n = int(rng.integers(160, 420))
    iv = interval(rng)
    a, b = (-1.0, 1.0) if iv is None else iv
    x0 = call(pkg.grids.construct_x_cheb, n, iv)
    x, D = call(pkg.grids.construct_x_dx_cheb, n, iv)
    tag = "cheb(%d, %r, %r)" % (n, a, b)
    A, W = LD(float(a)), LD(float(b)) - LD(float(a))
    scale = max(abs(float(a)), abs(float(b)))
    s = -np.cos(PI * np.arange(n + 1).astype(LD) / n)
    want = A + W * (s + 1) / 2
    for nm, g in (("construct_x_cheb", x0), ("construct_x_dx_cheb", x)):
        if not mon.check(g.shape == (n + 1,), "%s: number of points of %s" % (tag, nm), got=g.shape):
            return
        d = np.abs(g.astype(LD) - want).astype(float)
        mon.check(np.all(d <= 8 * EPS * (scale + float(W))), "%s: nodes of %s" % (tag, nm), maxdiff=float(d.max()))
        mon.check(np.all(np.diff(g) > 0), "%s: nodes of %s not increasing" % (tag, nm))
    mon.count("points_compared", 2 * (n + 1))
    if not mon.check(D.shape == (n + 1, n + 1), tag + ": shape of the matrix", got=D.shape):
        return
    # rounding of the nodes is amplified by the closest pair
    amp = 1 + scale / float(W)
    tol = 64 * EPS * amp * n ** 4 * 2 / float(W) + 32 * EPS * n
    T, dT = cheb(s, n)
    Dl = D.astype(LD)
    for k in range(n + 1):
        got = (Dl @ T[k]).astype(float)
        w = (dT[k] * 2 / W).astype(float)
        if not mon.check(np.max(np.abs(got - w)) <= tol, tag + ": derivative of the basis polynomial of degree %d" % k, maxdiff=float(np.max(np.abs(got - w))), tol=tol):
            return
        mon.count("basis_polynomials")
    one = np.abs(D @ np.ones(n + 1))
    mon.check(np.all(one <= 16 * EPS * (n + 1) * (1 + np.abs(D).sum(axis=1))), tag + ": derivative of a constant is not zero", got=float(one.max()))
    # the user's product, with random polynomials of degree up to n
    for _ in range(3):
        deg = int(rng.integers(0, n + 1))
        c = rng.standard_normal(deg + 1)
        p = sum(ck * Tk for ck, Tk in zip(c, T))
        dp = sum(ck * dk for ck, dk in zip(c, dT)) * 2 / W
        got = D @ p.astype(float)
        mon.check(np.max(np.abs(got - dp.astype(float))) <= tol * np.sum(np.abs(c)), tag + ": derivative of a random polynomial of degree %d" % deg, maxdiff=float(np.max(np.abs(got - dp.astype(float)))), tol=tol)
        mon.count("random_polynomials")
    # handed out arrays belong to the caller
    x[:] = 7.0
    D[:] = 7.0
    x0[:] = 7.0
    d = np.abs(call(pkg.grids.construct_x_cheb, n, iv).astype(LD) - want).astype(float)
    mon.check(np.all(d <= 8 * EPS * (scale + float(W))), tag + ": a later call of construct_x_cheb returns altered points")
    x2, D2 = call(pkg.grids.construct_x_dx_cheb, n, iv)
    mon.check(np.max(np.abs(x2.astype(LD) - want)) <= 8 * EPS * (scale + float(W)) and not np.all(D2 == 7.0), tag + ": a later call returns altered arrays")
    mon.key(tag)
    mon.note(grid=tag)


BAD = [1, 0, -1, -7, 2.0, 8.0, 3.5, "8", None, [8], 8j, np.float64(8), np.nan]


def refuse(rng, mon, idx):
    for fn in (pkg.grids.construct_x_cheb, pkg.grids.construct_x_dx_cheb):
        for v in BAD + [-int(rng.integers(1, 1000))]:
            try:
                fn(v, -1.0, 1.0)
                mon.viol("%s accepts n=%r" % (fn.__name__, v))
            except (TypeError, ValueError):
                mon.count("refused")
    mon.key(idx)


C.stratum("grid", 1200, 160000, fn=grid)
C.stratum("refuse", 24, 240, fn=refuse)
C.require("points_compared", "basis_polynomials", "random_polynomials", "refused")

if __name__ == "__main__":
    sys.exit(C.main())
