"""C24: spectral derivatives are exact on resolved functions."""
import sys
import numpy as np
from rkv import pkg, gen
from rkv.harness import Check

C = Check("C24", "random trigonometric polynomials below the Nyquist frequency and random polynomials resolved by the Chebyshev grid, on grids of many sizes and intervals, differentiated 0 to 20 times; monitors: analytic derivative (extended precision), linearity, composition, shape, columns, unchanged inputs, "
          "refusals; non-trivial = every differentiated function and refusal; distinct by function, grid and order", assumptions=["intervals with |a|, |b| up to 50 times their length"])
LD, CLD = np.longdouble, np.clongdouble
PI = LD("3.14159265358979323846264338327950288")
EPS = float(np.finfo(float).eps)


def interval(rng):
    k = rng.integers(5)
    if k == 0:
        return 0.0, 2 * np.pi
    w = gen.log_u(rng, 1e-2, 1e2)
    if k == 1:
        return -w, w
    if k == 2:
        return 0.0, w
    a = float(rng.uniform(-20, 20)) * w
    return a, a + w


def trig(rng, mon, idx):
    real = bool(idx % 2)
    N = 2 * int(rng.integers(2, 120)) if rng.random() < 0.8 else int(rng.choice([4, 8, 16, 64, 256, 1024]))
    a, b = interval(rng)
    g = pkg.grids
    odd = bool(rng.random() < 0.2)
    if odd:          # the grids are even; the derivatives also serve wavenumbers the caller built, as their documentation does
        N += int(rng.choice([-1, 1]))
        k = 2 * np.pi * (np.fft.rfftfreq if real else np.fft.fftfreq)(N, d=(b - a) / N)
        mon.count("odd_sizes")
    else:
        x, k = (g.construct_x_kx_rfft if real else g.construct_x_kx_fft)(N, a, b)
    df = pkg.derivatives.dx_rfft if real else pkg.derivatives.dx_fft
    top = (N - 1) // 2
    nm = int(rng.integers(1, min(top, 12) + 1))
    m = np.unique(np.concatenate([rng.integers(0, top + 1, nm), [top] if rng.random() < 0.5 else [0]]))
    c = rng.standard_normal(m.size) + 1j * rng.standard_normal(m.size)
    if not real:
        m = np.unique(m * rng.choice([-1, 1], m.size))
        c = c[: m.size]
    if rng.random() < 0.4:
        c = c * 10.0 ** rng.uniform(-60, 60)
    c[m == 0] = c[m == 0].real
    W = LD(b) - LD(a)
    K = 2 * PI * m.astype(LD) / W
    s = np.arange(N).astype(LD) * W / N
    E = np.exp(1j * K[:, None] * s[None, :])

    def deriv(n, cc=c):
        v = ((cc.astype(CLD) * (1j * K) ** n)[:, None] * E).sum(axis=0)
        return np.real(v).astype(float) if real else v.astype(complex)
    realu = not real and rng.random() < 0.2
    u = deriv(0)
    if realu:                # a real function given to the complex version
        u = np.real(u)
    keep, kk = u.copy(), k.copy()
    if rng.random() < 0.3:
        u = gen.layout(rng, u)
    kmax = float(np.abs(k).max())
    cond = 1 + max(abs(a), abs(b)) / float(W)
    amp = np.sum(np.abs(c))
    tag = "%s N=%d [%r, %r]" % (df.__name__, N, a, b)
    n = int(rng.integers(0, 9)) if rng.random() < 0.85 else int(rng.integers(9, 21))

    def tol(n):
        return 64 * EPS * amp * (kmax ** n) * (n + 1) * cond * np.sqrt(N) if n else 4 * EPS * amp
    d = df(k, u, n) if rng.random() < 0.8 or n != 1 else df(k, u)
    want = deriv(n)
    if realu:
        want = 0.5 * (want + np.conj(want))
    if not mon.check(np.shape(d) == (N,), tag + ": shape", got=np.shape(d)):
        return
    mon.count("values_compared", N)
    if not mon.check(np.max(np.abs(d - want)) <= tol(n), tag + ": derivative of order %d" % n, modes=m, maxdiff=float(np.max(np.abs(d - want))), tol=tol(n)):
        return
    # bin by bin: the wavenumbers do not disturb one another beyond rounding
    v = ((c.astype(CLD) * (1j * K) ** n)[:, None] * E).sum(axis=0)
    F, G = np.fft.fft(np.asarray(d)), np.fft.fft(v.real.astype(CLD) if real or realu else v).astype(complex)
    kf = np.abs(2 * np.pi * np.fft.fftfreq(N, d=(b - a) / N))
    bt = 64 * EPS * ((n + 1) * cond * amp * N * (kf ** n if n else 1.0) + (4 + np.log2(N)) * np.max(np.abs(F)))
    mon.check(np.all(np.abs(F - G) <= bt), tag + ": spectrum of the derivative of order %d" % n, modes=m, worst=float(np.max(np.abs(F - G) / bt)))
    mon.count("bins_compared", N)
    if real:
        mon.check(not np.iscomplexobj(d), tag + ": derivative of a real function is complex")
    mon.check(gen.same(u, keep) and gen.same(k, kk), tag + ": arguments modified")
    # composition, linearity
    p = int(rng.integers(0, n + 1))
    e = df(k, df(k, u, p), n - p)
    mon.check(np.max(np.abs(e - want)) <= 4 * tol(n), tag + ": order %d then %d is not order %d" % (p, n - p, n), maxdiff=float(np.max(np.abs(e - want))), tol=tol(n))
    v = (rng.standard_normal(N) + (0 if real else 1j * rng.standard_normal(N))) * amp / np.sqrt(N) * 10.0 ** rng.uniform(-14, 0)
    al, be = rng.standard_normal(2)
    lhs, rhs = df(k, al * keep + be * v, n), al * df(k, keep, n) + be * df(k, v, n)
    mon.check(np.max(np.abs(lhs - rhs)) <= 16 * tol(n) * (1 + np.max(np.abs(v)) * np.sqrt(N) / amp), tag + ": derivative of order %d is not linear" % n, maxdiff=float(np.max(np.abs(lhs - rhs))))
    # the real and complex versions agree
    if real:
        kf = 2 * np.pi * np.fft.fftfreq(N, d=(b - a) / N) if odd else g.construct_x_kx_fft(N, a, b)[1]
        o = pkg.derivatives.dx_fft(kf, keep, n)
        mon.check(np.max(np.abs(o - d)) <= 4 * tol(n), tag + ": real and complex derivatives differ", order=n)
    mon.count("functions_differentiated")
    mon.key(tag, n, m, c[:2])
    mon.note(case=tag, order=n)


def cheb_basis(s, deg):
    """Values of T_k at s and the matrix of d/ds in the Chebyshev basis."""
    T = [np.ones_like(s), s]
    for k in range(2, deg + 1):
        T.append(2 * s * T[-1] - T[-2])
    return T[: deg + 1]


def cheb_dcoef(c):
    """Chebyshev coefficients of the derivative."""
    n = len(c)
    d = np.zeros(n, dtype=c.dtype)
    for k in range(n - 1, 0, -1):
        d[k - 1] = (d[k + 1] if k + 1 < n else 0) + 2 * k * c[k]
    d[0] = d[0] / 2
    return d


def cheb(rng, mon, idx):
    n = int(rng.integers(2, 48)) if rng.random() < 0.8 else int(rng.integers(2, 100))
    a, b = interval(rng)
    x, D = pkg.grids.construct_x_dx_cheb(n, a, b)
    W = LD(b) - LD(a)
    s = -np.cos(PI * np.arange(n + 1).astype(LD) / n)
    cols = int(rng.integers(0, 4))
    cplx = bool(rng.random() < 0.4)
    deg = int(rng.integers(0, n + 1))
    sh = (deg + 1,) if cols == 0 else (deg + 1, cols)
    c0 = gen.cnorm(rng, sh, cplx).reshape(deg + 1, -1)
    if rng.random() < 0.4:
        c0 = c0 * 10.0 ** rng.uniform(-60, 60)
    c = c0.astype(CLD if cplx else LD)
    T = np.array(cheb_basis(s, max(deg, 1)))[: deg + 1]
    order = int(rng.integers(0, 7))
    tag = "dx_cheb n=%d [%r, %r] order %d" % (n, a, b, order)

    def values(k):
        cc = c.copy()
        for _ in range(k):
            cc = np.stack([cheb_dcoef(cc[:, j]) for j in range(cc.shape[1])], axis=1) * (2 / W)
        v = T.T @ cc
        v = v.astype(complex if cplx else float)
        return v[:, 0] if cols == 0 else v
    u = values(0)
    keep, kd = u.copy(), D.copy()
    if rng.random() < 0.4:
        u = gen.layout(rng, u)
    df = pkg.derivatives.dx_cheb
    d = df(D, u, order) if order != 1 or rng.random() < 0.5 else df(D, u)
    want = values(order)
    nD = float(np.linalg.norm(D, np.inf))
    cond = 1 + max(abs(a), abs(b)) / float(W)
    amp = float(np.sum(np.abs(c)))

    def tol(k):
        # each factor D has relative error of about eps * n^2 (closest nodes) and is applied to values of size nD^(k-1)
        return (128 * EPS * n ** 2 * cond * k * nD ** k + 64 * EPS) * amp
    if not mon.check(np.shape(d) == np.shape(want), tag + ": shape", got=np.shape(d), want=np.shape(want)):
        return
    mon.count("values_compared", int(want.size))
    if not mon.check(np.max(np.abs(d - want)) <= tol(order), tag + ": derivative of a polynomial of degree %d" % deg, maxdiff=float(np.max(np.abs(d - want))), tol=tol(order), columns=cols):
        return
    mon.check(gen.same(u, keep) and gen.same(D, kd), tag + ": arguments modified")
    # repeated application and powers agree far better than the bound above: compare in the norm of the matrix
    p = int(rng.integers(0, order + 1))
    e = df(D, df(D, keep, p), order - p)
    ctol = 64 * EPS * (n + 1) * (order + 1) * nD ** order * amp
    mon.check(np.max(np.abs(e - d)) <= ctol, tag + ": order %d then %d is not order %d" % (p, order - p, order), maxdiff=float(np.max(np.abs(e - d))), tol=ctol)
    rep = keep
    for _ in range(order):
        rep = D @ rep
    mon.check(np.max(np.abs(rep - d)) <= ctol, tag + ": differs from repeated application of the matrix", maxdiff=float(np.max(np.abs(rep - d))), tol=ctol)
    v = gen.cnorm(rng, keep.shape, cplx) * amp
    al, be = rng.standard_normal(2)
    mon.check(np.max(np.abs(df(D, al * keep + be * v, order) - (al * d + be * df(D, v, order)))) <= 8 * ctol * (1 + np.max(np.abs(v)) / amp), tag + ": not linear")
    if cols:
        for j in range(cols):
            mon.check(np.max(np.abs(df(D, np.ascontiguousarray(keep[:, j]), order) - d[:, j])) <= ctol, tag + ": column %d differs from the vector" % j)
    mon.count("functions_differentiated")
    mon.count("cheb_columns", cols)
    mon.key(tag, deg, cols, c0[:1])
    mon.note(case=tag, degree=deg, columns=cols)


def refuse(rng, mon, idx):
    d = pkg.derivatives
    N = 2 * int(rng.integers(4, 20))
    xr, kr = pkg.grids.construct_x_kx_rfft(N)
    xf, kf = pkg.grids.construct_x_kx_fft(N)
    xc, D = pkg.grids.construct_x_dx_cheb(N)
    cases = [(d.dx_rfft, kr, rng.standard_normal(N)), (d.dx_fft, kf, gen.cnorm(rng, N, True)), (d.dx_cheb, D, rng.standard_normal(N + 1)), (d.dx_cheb, D, rng.standard_normal((N + 1, 3)))]

    def bad(exc, fn, *a):
        try:
            fn(*a)
            mon.viol("%s accepts inadmissible arguments" % fn.__name__, args=[str(np.shape(z)) if isinstance(z, np.ndarray) else repr(z) for z in a])
        except exc:
            mon.count("refused")
    for fn, k, u in cases:
        for n in (-1, -2, -100):
            bad(ValueError, fn, k, u, n)
        for n in (1.0, 2.5, "1", None, [1], 1j, np.nan, 0.0):
            bad(TypeError, fn, k, u, n)
        mon.check(gen.same(fn(k, u, 0), u), "%s: order 0 is not the identity" % fn.__name__)
    for n in (0, 1, 2, 3):
        bad(TypeError, d.dx_rfft, kr, gen.cnorm(rng, N, True), n)
        bad(TypeError, d.dx_rfft, kr, rng.standard_normal(N).astype(complex), n)
    for n in (1, 2, 5):
        for M in (N + 2, N - 2, 2 * N, N // 2 + 7):
            bad(ValueError, d.dx_rfft, kr, rng.standard_normal(M + (M % 2)), n) if (M + M % 2) != N else None
            bad(ValueError, d.dx_fft, kf, gen.cnorm(rng, M, True), n) if M != N else None
            bad(ValueError, d.dx_cheb, D, rng.standard_normal(M), n) if M != N + 1 else None
            bad(ValueError, d.dx_cheb, D, rng.standard_normal((M, 2)), n) if M != N + 1 else None
        bad(ValueError, d.dx_fft, kr, gen.cnorm(rng, N, True), n)
        bad(ValueError, d.dx_rfft, kf, rng.standard_normal(N), n)
        bad(ValueError, d.dx_cheb, D, rng.standard_normal((2, N + 1)), n)
        bad(ValueError, d.dx_cheb, D, rng.standard_normal((N + 1, 2, 2)), n)
        bad(ValueError, d.dx_cheb, D[:, :-1], rng.standard_normal(N + 1), n)
    mon.key(idx, N)


C.stratum("trig", 1600, 60000, fn=trig)
C.stratum("cheb", 1000, 40000, fn=cheb)
C.stratum("refuse", 32, 320, fn=refuse)
C.require("bins_compared", "values_compared", "functions_differentiated", "cheb_columns", "refused")

if __name__ == "__main__":
    sys.exit(C.main())
