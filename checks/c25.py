"""C25: model operators and soliton formulas represent their equations."""
import sys
import numpy as np
from rkv import pkg, gen
from rkv.harness import Check

C = Check("C25", "random spectra, grids and parameters for the KdV, Burgers and Allen-Cahn operators, judged against the right-hand side of the stated equation computed in physical space with an own extended-precision Fourier sum / own barycentric Chebyshev derivative; soliton formulas judged by the residual of the KdV equation "
          "(own series derivatives), position, amplitude, translation and additivity; refusals of mismatched lengths; non-trivial = every state or soliton judged; distinct by model, grid, parameters and data",
          assumptions=["spectra given to the operators have a real mean and no Nyquist mode (as the transform of a real resolved function has)"])
LD, CLD = np.longdouble, np.clongdouble
PI = LD("3.14159265358979323846264338327950288")
EPS = float(np.finfo(float).eps)


def fourier(rng, mon, idx):
    model = ("kdv", "burgers")[idx % 2]
    N = 2 * int(rng.integers(2, 70)) if rng.random() < 0.85 else int(rng.choice([4, 6, 8, 128, 256]))
    W = float(rng.choice([2 * np.pi, 1.0, 100.0])) if rng.random() < 0.4 else gen.log_u(rng, 1e-1, 1e3)
    a = float(rng.uniform(-2, 1)) * W
    x, kx = pkg.grids.construct_x_kx_rfft(N, a, a + W)
    mu = None
    keepk = kx.copy()
    if model == "kdv":
        L, f = pkg.models.kdv_ops(kx)
    else:
        mu = float(rng.choice([0.0, 1.0, 0.01, 0.0005])) if rng.random() < 0.3 else gen.log_u(rng, 1e-6, 1e2)
        L, f = pkg.models.burgers_ops(kx, mu)
    tag = "%s N=%d W=%r mu=%r" % (model, N, W, mu)
    n = N // 2 + 1
    for rep in range(3):
        top = n - 1 if rng.random() < 0.5 else max(2, N // 4)
        uf = np.zeros(n, complex)
        amp = gen.log_u(rng, 1e-6, 1e4)
        uf[:top] = amp * gen.cnorm(rng, top, True) * np.exp(-rng.uniform(0, 8) * np.arange(top) / n)
        uf[0] = uf[0].real
        uf[n - 1] = 0
        if rep == 2 and rng.random() < 0.3:
            uf[:] = 0
        keep = uf.copy()
        arg = gen.layout(rng, uf)
        nl = f(arg)
        # own sums in extended precision
        k = 2 * PI * np.arange(n).astype(LD) / LD(W)
        s = np.arange(N).astype(LD) * LD(W) / N
        E = np.exp(1j * (k[:, None] * s[None, :]))
        w = np.full(n, 2, LD)
        w[0] = 1

        def phys(c):
            return np.real(((w * c)[:, None] * E).sum(axis=0)) / N
        u = phys(keep.astype(CLD))
        ux = phys(1j * k * keep)
        uxx = phys(-k ** 2 * keep)
        uxxx = phys(-1j * k ** 3 * keep)
        nonl = (-6 if model == "kdv" else -1) * u * ux
        lin = -uxxx if model == "kdv" else LD(mu) * uxx
        want_nl = (np.conj(E) @ nonl.astype(CLD))
        want_lin = (np.conj(E) @ lin.astype(CLD))
        cond = 1 + abs(a) / W

        tol_n = 64 * EPS * cond * N * (float(np.max(np.abs(u))) + 1e-300) * float(np.sum(np.abs(k * keep)) / N * 2 + 1e-300) * 6
        if not mon.check(np.shape(nl) == (n,) and np.shape(L) == (n,), tag + ": shapes", got=[np.shape(nl), np.shape(L)]):
            return
        mon.count("states_judged")
        if not mon.check(np.max(np.abs(nl - want_nl)) <= tol_n, tag + ": nonlinear term", maxdiff=float(np.max(np.abs(nl - want_nl))), tol=tol_n, scale=float(np.max(np.abs(want_nl)))):
            return
        lv = L * keep
        tol_l = 64 * EPS * cond * (np.abs(lv) + 1e-300) + 64 * EPS * N * float(np.max(np.abs(lv)))
        if not mon.check(np.all(np.abs(lv - want_lin.astype(complex)) <= tol_l), tag + ": linear term", maxdiff=float(np.max(np.abs(lv - want_lin.astype(complex))))):
            return
        # entrywise (also modes that are weak in this state)
        lin_k = (1j * k ** 3) if model == "kdv" else (-LD(mu) * k ** 2)
        mon.check(np.all(np.abs(L - lin_k.astype(complex)) <= 16 * EPS * cond * np.abs(lin_k.astype(complex))), tag + ": linear operator")
        if model == "kdv":
            mon.check(np.all(np.real(L) == 0), tag + ": dispersive operator has growth or damping")
        else:
            mon.check(np.all(np.real(L) <= 0) and np.all(np.imag(L) == 0), tag + ": diffusive operator grows or rotates")
        mon.check(gen.same(arg, keep), tag + ": state modified by the nonlinear term")
        mon.check(gen.same(f(keep), nl), tag + ": nonlinear term is not repeatable")
        # other calls in between do not matter
        f(gen.cnorm(rng, n, True))
        mon.check(gen.same(f(keep), nl), tag + ": nonlinear term depends on earlier calls")
        mon.check(not np.shares_memory(nl, arg), tag + ": result shares memory with the argument")
        # the caller may reuse its array, and change what it got
        buf = gen.cnorm(rng, n, True)
        buf[-1] = 0
        f(buf)[...] = 7.0
        buf[...] = keep
        mon.check(gen.same(f(buf), nl), tag + ": nonlinear term remembers an array that has changed since")
        mon.key(tag, keep[:4], top)
    mon.check(gen.same(kx, keepk), tag + ": wavenumbers modified")
    # a second operator set does not disturb the first
    N2 = 2 * int(rng.integers(2, 40))
    x2, kx2 = pkg.grids.construct_x_kx_rfft(N2, 0, 3.0)
    L0 = L.copy()
    if model == "kdv":
        pkg.models.kdv_ops(kx2)[1](np.zeros(N2 // 2 + 1, complex))
    else:
        pkg.models.burgers_ops(kx2, 7.5)[1](np.zeros(N2 // 2 + 1, complex))
    mon.check(gen.same(f(keep), nl) and gen.same(L, L0), tag + ": operators change when another set is built")
    mon.note(case=tag)


def allen(rng, mon, idx):
    n = int(rng.integers(3, 40)) if rng.random() < 0.85 else int(rng.integers(2, 70))
    a, b = (-1.0, 1.0) if rng.random() < 0.6 else (lambda w, s: (s, s + w))(gen.log_u(rng, 0.2, 20), float(rng.uniform(-5, 5)))
    x, D = pkg.grids.construct_x_dx_cheb(n, a, b)
    if idx % 4 == 3:
        eps = 0.01
        L, f = pkg.models.allen_cahn_ops(x, D)
    else:
        eps = float(rng.choice([0.0, 1.0, 0.01])) if rng.random() < 0.2 else gen.log_u(rng, 1e-6, 1e2)
        L, f = pkg.models.allen_cahn_ops(x, D, eps) if rng.random() < 0.5 else pkg.models.allen_cahn_ops(x, D, epsilon=eps)
    keep = (x.copy(), D.copy())
    tag = "allen_cahn n=%d [%r, %r] eps=%r" % (n, a, b, eps)
    if not mon.check(np.shape(L) == (n - 1, n - 1), tag + ": shape of the operator", got=np.shape(L)):
        return
    # own: v = u - x vanishes at both ends; v a random polynomial vanishing there, derivative from its Chebyshev series
    W = LD(b) - LD(a)
    s = -np.cos(PI * np.arange(n + 1).astype(LD) / n)
    nD = float(np.linalg.norm(D, np.inf))
    for rep in range(3):
        deg = int(rng.integers(0, n - 1))
        amp = float(rng.choice([1.0, 1e-3, 5.0]))
        c = amp * rng.standard_normal(deg + 1)
        cplx = rng.random() < 0.3
        if cplx:
            c = c + 1j * amp * rng.standard_normal(deg + 1)

        cc = c.astype(CLD)
        # multiply by (1 - s^2) = 1/2 - T2/2
        q = np.zeros(deg + 3, CLD)
        for k in range(deg + 1):
            q[k] += cc[k] / 2
            q[k + 2] -= cc[k] / 4
            q[abs(k - 2)] -= cc[k] / 4
        d = q
        for _ in range(2):
            m = len(d)
            e = np.zeros(m, CLD)
            for k in range(m - 1, 0, -1):
                e[k - 1] = (e[k + 1] if k + 1 < m else 0) + 2 * k * d[k]
            e[0] /= 2
            d = e * (2 / W)
        th = np.arccos(np.clip(s, -1, 1))
        T = np.cos(np.arange(deg + 3)[:, None].astype(LD) * th[None, :])
        v, vxx = (T.T @ q), (T.T @ d)
        v[0] = v[-1] = 0
        u = v + x.astype(LD)
        want = (LD(eps) * vxx + u - u ** 3)[1:-1]
        vi = (v.astype(complex) if cplx else np.real(v).astype(float))[1:-1]
        kv = vi.copy()
        arg = gen.layout(rng, vi)
        nl = f(arg)
        if not mon.check(np.shape(nl) == (n - 1,), tag + ": shape of the nonlinear term", got=np.shape(nl)):
            return
        got = L @ kv + nl
        scale = float(np.max(np.abs(v))) + 1e-300
        tol = eps * (512 * EPS * n ** 2 * (1 + max(abs(a), abs(b)) / float(W)) * 2 * nD ** 2 * scale) + 64 * EPS * (float(np.max(np.abs(u))) ** 3 + float(np.max(np.abs(u))) + float(np.max(np.abs(x))))
        mon.count("states_judged")
        if not mon.check(np.max(np.abs(got - want.astype(complex))) <= tol, tag + ": L v + N(v) is not eps u'' + u - u^3", maxdiff=float(np.max(np.abs(got - want.astype(complex)))), tol=tol, degree=deg):
            return
        ui = u[1:-1].astype(complex)
        wn = x[1:-1] - ui ** 3
        tn = 32 * EPS * (float(np.max(np.abs(ui))) ** 3 + float(np.max(np.abs(x))))
        mon.check(np.max(np.abs(nl - wn)) <= tn, tag + ": nonlinear term (profile of the boundary values)", maxdiff=float(np.max(np.abs(nl - wn))), tol=tn)
        mon.check(gen.same(arg, kv) and gen.same(f(kv), nl), tag + ": nonlinear term modifies its argument or is not repeatable")
        buf = gen.cnorm(rng, n - 1, cplx)
        f(buf)[...] = 7.0
        buf[...] = kv
        mon.check(gen.same(f(buf), nl), tag + ": nonlinear term remembers an array that has changed since")
        mon.key(tag, deg, c[:2], cplx)
    # the operator itself
    wantL = eps * (D @ D)[1:-1, 1:-1] + np.eye(n - 1)
    mon.check(np.max(np.abs(L - wantL)) <= 64 * EPS * (n * eps * nD ** 2 + 1), tag + ": operator", maxdiff=float(np.max(np.abs(L - wantL))))
    mon.check(gen.same(x, keep[0]) and gen.same(D, keep[1]), tag + ": grid or matrix modified")
    x2, D2 = pkg.grids.construct_x_dx_cheb(5)
    pkg.models.allen_cahn_ops(x2, D2, 3.0)[1](np.zeros(4))
    mon.check(gen.same(f(kv), nl), tag + ": operators change when another set is built")
    mon.note(case=tag)


def cheb_fit(F, lo, hi, m):
    """Chebyshev coefficients of F on [lo, hi] from m+1 nodes (extended precision nodes, double values)."""
    th = PI * (np.arange(m + 1).astype(LD)) / m
    s = np.cos(th)
    v = F(((hi + lo) / 2 + (hi - lo) / 2 * s).astype(float)).astype(LD)
    w = np.ones(m + 1, LD)
    w[0] = w[-1] = LD(0.5)
    return 2 / LD(m) * np.array([np.sum(w * v * np.cos(k * th)) for k in range(m + 1)]) * np.array([LD(0.5) if k in (0, m) else 1 for k in range(m + 1)])


def dval(c, order, half):
    """Value at the centre of the order-th derivative of the series."""
    d = c.copy()
    for _ in range(order):
        m = len(d)
        e = np.zeros(m, LD)
        for k in range(m - 1, 0, -1):
            e[k - 1] = (e[k + 1] if k + 1 < m else 0) + 2 * k * d[k]
        e[0] /= 2
        d = e / half
    return sum(d[k] * (1, 0, -1, 0)[k % 4] for k in range(len(d)))


def soliton(rng, mon, idx):
    A = gen.log_u(rng, 0.05, 5)
    if rng.random() < 0.1:
        A = -A
    x0 = float(rng.choice([0.0, 1.0])) if rng.random() < 0.3 else float(rng.uniform(-30, 30))
    t = 0.0 if rng.random() < 0.2 else float(rng.uniform(-2, 2)) * min(10.0, 50 / A ** 2)
    S = pkg.models.kdv_soliton
    tag = "soliton A=%r x0=%r t=%r" % (A, x0, t)
    c = x0 + A * A * t
    aA = abs(A)
    # residual of u_t + 6 u u_x + u_xxx = 0 at random places of the profile
    hx, ht = 1.2 / aA, 1.2 / aA ** 3
    for _ in range(3):
        xc = c + float(rng.uniform(-6, 6)) / aA
        cx = cheb_fit(lambda z: S(z, A, x0, t), LD(xc) - hx, LD(xc) + hx, 26)
        ct = cheb_fit(lambda z: np.array([S(np.array([xc]), A, x0, float(tt))[0] for tt in z]), LD(t) - ht, LD(t) + ht, 26)
        u, ux, uxxx, ut = dval(cx, 0, hx), dval(cx, 1, hx), dval(cx, 3, hx), dval(ct, 1, ht)
        res = float(abs(ut + 6 * u * ux + uxxx))
        sc = 0.5 * aA ** 5
        # derivative of double values: rounding of u (and of its argument) amplified by 26^(2*3)
        tol = sc * (1e-6 + 1e-8 * (abs(xc) + abs(x0) + A * A * abs(t)) * aA)
        mon.count("residuals_judged")
        if not mon.check(res <= tol, tag + ": residual of the KdV equation", x=xc, residual=res, tol=tol, scale=sc):
            return
    # profile against its closed form, maximum, symmetry, decay
    z = np.concatenate([[0.0], rng.uniform(-8, 8, 40), rng.uniform(-300, 300, 8)])
    x = c + z / aA
    if rng.random() < 0.2:
        x = np.round(x).astype(int)      # integer grid
        x[0] = int(round(c))
    got = S(x, A, x0, t)
    want = (LD(0.5) * LD(A) ** 2 / np.cosh(LD(A) * (x.astype(LD) - LD(x0) - LD(A) ** 2 * LD(t)) / 2) ** 2).astype(float)
    rel = 64 * EPS * (1 + aA * (np.abs(x) + abs(x0) + A * A * abs(t)))
    mon.check(np.all(np.abs(got - want) <= rel * want + 1e-300), tag + ": profile", maxdiff=float(np.max(np.abs(got - want))))
    mon.check(x.dtype.kind == "i" or abs(got[0] - 0.5 * A * A) <= 0.5 * A * A * (rel[0] * 4), tag + ": height", got=got[0])
    # translation: profile at time t is the initial one moved by A^2 t
    mon.check(np.all(np.abs(S(x, A, x0, t) - S(x - A * A * t, A, x0, 0.0)) <= 4 * rel * want + 1e-300), tag + ": does not translate at speed a^2")
    far = np.array([-1e8, -1e5, 1e5, 1e8])
    fv = S(far, A, x0, t)
    mon.check(np.all(np.isfinite(fv)) and np.all(fv >= 0) and np.all(fv < 1e-300), tag + ": tails", got=fv)
    # defaults
    mon.check(gen.same(S(x), S(x, 0.5, 0.0, 0.0)) and gen.same(S(x, A), S(x, A, 0.0, 0.0)) and gen.same(S(x, ampl=A, t=t), S(x, A, 0.0, t)), tag + ": default arguments")
    mon.count("solitons_judged")
    mon.key(tag)
    mon.note(case=tag)


def multi(rng, mon, idx):
    M = pkg.models.kdv_multi_soliton
    m = int(rng.integers(1, 7))
    A = 10 ** rng.uniform(-1.3, 0.7, m)
    if m > 1 and rng.random() < 0.2:
        A[1] = A[0]
    x0 = rng.uniform(-40, 40, m)
    if m > 1 and rng.random() < 0.2:
        x0[1:] = x0[0]          # at one place
        if rng.random() < 0.5:
            A[-1] = A[0]        # the same soliton twice
    if rng.random() < 0.2:
        A, x0 = np.arange(1, m + 1), np.arange(m) * 3          # integers
    t = 0.0 if rng.random() < 0.3 else float(rng.uniform(-3, 3))
    n = int(rng.integers(1, 200))
    x = np.sort(rng.uniform(-60, 60, n))
    if rng.random() < 0.25:
        x = np.unique(np.round(x)).astype(int)      # integer grid
        n = len(x)
    kx = x.copy()
    tag = "multi soliton A=%r x0=%r t=%r n=%d" % (A.tolist(), x0.tolist(), t, n)
    conv = (np.asarray, list, tuple, lambda z: [float(q) for q in z])[rng.integers(4)]
    pa, px = conv(A), conv(x0)
    got = M(x, pa, px, t) if t else (M(x, pa, px) if rng.random() < 0.5 else M(x, ampl=pa, x0=px, t=0.0))
    want = np.zeros(n)
    for a, p in zip(A, x0):
        want = want + (LD(0.5) * LD(float(a)) ** 2 / np.cosh(LD(float(a)) * (x.astype(LD) - LD(float(p)) - LD(float(a)) ** 2 * LD(t)) / 2) ** 2).astype(float)
    tol = 64 * EPS * (1 + np.max(np.abs(A)) * (60 + 40 + np.max(A) ** 2 * abs(t))) * want + 1e-300
    mon.check(np.shape(got) == (n,), tag + ": shape", got=np.shape(got)) and mon.check(np.all(np.abs(got - want) <= tol * 2), tag + ": is not the sum of its solitons", maxdiff=float(np.max(np.abs(got - want))))
    parts = sum(pkg.models.kdv_soliton(x, float(a), float(p), t) for a, p in zip(A, x0))
    mon.check(np.all(np.abs(got - parts) <= tol * 2), tag + ": differs from the sum of kdv_soliton")
    mon.check(gen.same(x, kx), tag + ": grid modified")
    perm = rng.permutation(m)
    mon.check(np.all(np.abs(M(x, A[perm], x0[perm], t) - got) <= tol * 2), tag + ": depends on the order of the solitons")
    mon.count("solitons_judged", m)
    for da, dx in ((1, 0), (0, 1), (2, 1), (0, m), (m, 0), (3, 0)):
        la, lx = list(A) + [1.0] * da, list(x0) + [0.0] * dx
        if len(la) == len(lx):
            continue
        for cv in (list, tuple, np.array):
            try:
                M(x, cv(la), cv(lx), t)
                mon.viol(tag + ": mismatched lengths accepted", lengths=(len(la), len(lx)))
            except ValueError:
                mon.count("refused")
    if m > 1:
        for la, lx in ((A[:1], x0), (A, x0[:1]), (A, []), ([], x0)):
            try:
                M(x, list(la), list(lx))
                mon.viol(tag + ": mismatched lengths accepted", lengths=(len(la), len(lx)))
            except ValueError:
                mon.count("refused")
    mon.key(tag)


C.stratum("fourier", 2000, 20000, fn=fourier)
C.stratum("allen", 1500, 12000, fn=allen)
C.stratum("soliton", 800, 6000, fn=soliton)
C.stratum("multi", 600, 5000, fn=multi)
C.require("states_judged", "residuals_judged", "solitons_judged", "refused")

if __name__ == "__main__":
    sys.exit(C.main())
