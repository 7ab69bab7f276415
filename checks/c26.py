"""C26: full PDE simulations keep their invariants and match known solutions."""
import sys
import numpy as np
import scipy.special as sp
from scipy.integrate import solve_ivp
from rkv import pkg, gen, probe
from rkv.harness import Check, Inconclusive

C = Check("C26", "simulations assembled from grids, models, derivatives, transforms and every solver (adaptive, and constant-step at h and h/2) on random parameters, domains and resolved initial data: KdV solitons and colliding pairs, Burgers against Cole-Hopf solutions and energy decay, Allen-Cahn on Chebyshev grids against an independent integration, "
          "cylindrical and one-dimensional Schroedinger, Kuramoto-Sivashinsky; monitors over every stored state: conserved or monotone quantities, bounds, Hermitian/real data, distance to the known solution, agreement of the solvers; non-trivial = every simulation judged; distinct by equation, parameters, solver",
          assumptions=["resolved data (spectra below 1e-9 at the end of the grid)", "tolerances proportional to epsilon times the number of steps"])
ALL = list(pkg.CLS)


def simulate(mon, name, L, f, u0, T, eps, n, form="diag", etd=None, hcap=np.inf, h0=None):
    """[(times, states, error estimate of the time integration in units of the state's norm)] of one solver."""
    if pkg.is_as(name):
        s = probe.make_rec(name, L, gen.NL(f, budget=300000), form, pkg.SolverConfig(epsilon=eps, adapt_cutoff=0.0), etd)
        if np.isfinite(hcap):
            u, t, ts, us, h = np.array(u0), 0.0, [0.0], [np.array(u0)], min(hcap, h0 or T / 50)
            while t < T * (1 - 1e-12):
                u, hu, hn = s.step(u, min(h, T - t, hcap))
                t, h = t + hu, min(hn, hcap)
                ts.append(t)
                us.append(u)
            k = len(ts)
        else:
            s.evolve(np.array(u0), 0.0, T, h_init=h0 or T / 50, store_freq=1)
            ts, us = list(s.t), list(s.u)
            k = len(s.rec_steps)
        mon.count("adaptive_steps", k)
        return np.array(ts), us, 20 * eps * (k + 5)
    h = min(T / n, hcap)
    n = int(np.ceil(T / h))
    h = T / n
    outs = []
    for m in (1, 2):
        s = pkg.make(name, L, gen.NL(f, budget=600000), form, None, etd)
        s.evolve(np.array(u0), 0.0, T, h / m, store_freq=m)
        outs.append((np.array(s.t), list(s.u)))
        mon.count("constant_steps", n * m)
    ts, us = outs[1]
    sc = max(np.linalg.norm(v) for v in us)
    if len(outs[0][1]) != len(us):
        d = np.linalg.norm(outs[0][1][-1] - us[-1]) / sc
    else:
        d = max(np.linalg.norm(p - q) for p, q in zip(outs[0][1], us)) / sc
    if not d < 0.05:
        raise Inconclusive("constant step too coarse")
    return ts, us, 2 * d + 1e-12


def fields(us, inv):
    return [inv(v) for v in us]


def reltime(mon, tag, want, got, est, floor, msg, **data):
    e = float(np.linalg.norm(np.asarray(got) - want) / max(np.linalg.norm(want), 1e-300))
    mon.count("solutions_compared")
    return mon.check(e <= est + floor, tag + ": " + msg, relative_error=e, allowed=est + floor, **data)


# ------------------------------------------------------------------ KdV
def kdv(rng, mon, idx):
    two = bool(idx % 3 == 2)
    A = gen.log_u(rng, 0.2, 3)
    N = int(rng.choice([192, 256, 300]))
    W = float(rng.uniform(48, 58)) / A * (1.3 if two else 1)
    a = float(rng.uniform(-1.5, 0.5)) * W
    x, kx = pkg.grids.construct_x_kx_rfft(N, a, a + W)
    L, f0 = pkg.models.kdv_ops(kx)

    def f(g):
        # without the Nyquist mode the discrete derivative is antisymmetric and the mass is conserved to rounding
        g = np.array(g)
        g[-1] = 0
        return f0(g)
    eps = 10 ** rng.uniform(-7, -4.5)
    T = float(rng.uniform(0.5, 3)) / A ** 3
    if two:
        B = A * float(rng.uniform(0.5, 0.75))
        d = float(rng.uniform(4, 9)) / A
        c = a + 0.4 * W
        u0 = pkg.models.kdv_multi_soliton(x, [A, B], [c - d / 2, c + d / 2])
        tag0 = "KdV two solitons"
    else:
        c = a + W * float(rng.uniform(0.42, 0.52))
        u0 = pkg.models.kdv_soliton(x, A, c)
        tag0 = "KdV soliton"
    uf0 = np.fft.rfft(u0)
    names = rng.permutation(ALL)[:3] if idx % 4 else ALL
    mass0, en0 = np.sum(u0), np.sum(u0 ** 2)
    ends = {}
    for name in names:
        tag = "%s %s A=%.3g" % (tag0, name, A)
        ts, us, est = simulate(mon, name, L, f, uf0, T, eps, int(rng.integers(150, 300)))
        U = fields(us, np.fft.irfft)
        for t, u, uf in zip(ts, U, us):
            mon.count("states_monitored")
            if not mon.check(abs(np.sum(u) - mass0) <= 2e-12 * (abs(mass0) + N * np.max(np.abs(u))), tag + ": mass not conserved", t=t, mass=np.sum(u), initial=mass0):
                return
            if not mon.check(abs(np.sum(u ** 2) - en0) <= (est * 2 + 1e-9) * en0, tag + ": energy not conserved", t=t, relative=float(np.sum(u ** 2) / en0 - 1), allowed=est * 2):
                return
            mon.check(abs(uf[0].imag) <= 1e-10 * abs(uf[0]) + 1e-12, tag + ": mean became complex", t=t)
        if not two:
            want = pkg.models.kdv_soliton(x, A, c, T)
            # amplification of errors in the speed over the run
            if not reltime(mon, tag, want, U[-1], est * 6, 1e-8, "soliton does not translate at its speed", T=T):
                return
            k = int(np.argmax(U[-1]))
            if est < 1e-2:
                mon.check(abs(x[k] - (c + A * A * T)) <= W / N + est * 10 / A, tag + ": peak is not where the soliton is", peak=x[k], want=c + A * A * T)
        ends[str(name)] = (U[-1], est)
        mon.key(tag0, name, A, W, eps)
    agree(mon, tag0, ends, 6)
    mon.note(equation=tag0, A=A, W=W, N=N, T=T, epsilon=eps, estimates={k: v[1] for k, v in ends.items()})


def agree(mon, tag, ends, amp):
    ks = sorted(ends)
    for i, p in enumerate(ks):
        for q in ks[i + 1:]:
            d = np.linalg.norm(ends[p][0] - ends[q][0]) / np.linalg.norm(ends[q][0])
            mon.count("solver_pairs_compared")
            mon.check(d <= amp * (ends[p][1] + ends[q][1]) + 2e-8, "%s: %s and %s disagree" % (tag, p, q), difference=float(d), allowed=float(amp * (ends[p][1] + ends[q][1])))


# ------------------------------------------------------------------ Burgers
def burgers(rng, mon, idx):
    N = int(rng.choice([64, 96, 128]))
    W = gen.log_u(rng, 0.5, 20)
    a = float(rng.uniform(-2, 1)) * W
    k0 = 2 * np.pi / W
    nu = gen.log_u(rng, 0.02, 2)               # viscosity in units where the box is 2 pi long
    mu = nu / k0 ** 2
    x, kx = pkg.grids.construct_x_kx_rfft(N, a, a + W)
    m = int(rng.integers(1, 4))
    ck = rng.uniform(-1, 1, m) / (1 + np.arange(m)) ** 2
    ck *= float(rng.uniform(0.2, 0.7)) / np.sum(np.abs(ck))
    th = rng.uniform(0, 6.28, m)
    ks = 1 + np.arange(m)
    mean = 0.0

    def exact(t):
        # a mean velocity carries the Cole-Hopf solution along (Galilean invariance)
        s = (x - a - mean * t) * k0
        ph, px = np.ones(N), np.zeros(N)
        for c, k, o in zip(ck, ks, th):
            e = np.exp(-nu * k * k * t)
            ph = ph + c * e * np.cos(k * s + o)
            px = px - c * e * k * k0 * np.sin(k * s + o)
        return mean - 2 * mu * px / ph
    if rng.random() < 0.6:
        mean = float(rng.choice([-1, 1])) * gen.log_u(rng, 3e-3, 4) * np.max(np.abs(exact(0.0)))
        mon.count("moving_frames")
    L, f = pkg.models.burgers_ops(kx, mu)
    u0 = exact(0.0)
    uf0 = np.fft.rfft(u0)
    if np.abs(uf0[-3:]).max() > 1e-10 * np.abs(uf0).max():
        raise Inconclusive("initial data not resolved")
    T = float(rng.uniform(0.2, 1.0)) / nu
    eps = 10 ** rng.uniform(-8, -5)
    names = rng.permutation(ALL)[:3] if idx % 4 else ALL
    ends = {}
    for name in names:
        tag = "Burgers %s nu=%.3g" % (name, nu)
        ts, us, est = simulate(mon, name, L, f, uf0, T, eps, int(rng.integers(60, 150)))
        U = fields(us, np.fft.irfft)
        pe = np.sum(u0 ** 2)
        for t, u in zip(ts, U):
            mon.count("states_monitored")
            if not mon.check(abs(np.sum(u) - np.sum(u0)) <= 1e-12 * N * np.max(np.abs(u0)), tag + ": mass not conserved", t=t, mass=np.sum(u)):
                return
            e = np.sum(u ** 2)
            if not mon.check(e <= pe * (1 + est + 1e-12), tag + ": energy increases", t=t, energy=e, before=pe):
                return
            pe = e
        for j in sorted({len(ts) - 1, int(rng.integers(len(ts)))}):
            w = exact(ts[j])
            e = float(np.linalg.norm(U[j] - w) / np.linalg.norm(u0))
            mon.count("solutions_compared")
            if not mon.check(e <= est + 1e-9, tag + ": differs from the Cole-Hopf solution", t=ts[j], relative_error=e, allowed=est):
                return
        ends[str(name)] = (U[-1], est * np.linalg.norm(u0) / np.linalg.norm(U[-1]))
        mon.key("burgers", name, nu, eps)
    agree(mon, "Burgers nu=%.3g" % nu, ends, 2)
    mon.note(equation="Burgers", nu=nu, mean=float(mean), N=N, T=T, epsilon=eps)


# ------------------------------------------------------------------ Allen-Cahn
def clencurt(n):
    """Clenshaw-Curtis weights on [-1, 1] (moments of the Chebyshev polynomials)."""
    th = np.pi * np.arange(n + 1) / n
    w = np.zeros(n + 1)
    for k in range(0, n + 1, 2):
        g = 2.0 / (1 - k * k) * (1 if k not in (0, n) else 0.5)
        w += g * np.cos(k * th)
    w *= 2.0 / n
    w[0] /= 2
    w[-1] /= 2
    return w


def barymat(x):
    n = len(x) - 1
    w = (-1.0) ** np.arange(n + 1)
    w[0] *= 0.5
    w[-1] *= 0.5
    D = np.zeros((n + 1, n + 1))
    for i in range(n + 1):
        for j in range(n + 1):
            if i != j:
                D[i, j] = w[j] / w[i] / (x[i] - x[j])
        D[i, i] = -np.sum(D[i])
    return D


AC = [(nm, fm) for nm, fm in pkg.all_forms() if fm != "diag"]


def allen(rng, mon, idx):
    n = int(rng.integers(14, 30))
    de = gen.log_u(rng, 0.02, 0.3)
    x, D = pkg.grids.construct_x_dx_cheb(n)
    L, f = pkg.models.allen_cahn_ops(x, D, de)
    m = int(rng.integers(1, 4))
    c = rng.uniform(-1, 1, m)
    c *= float(rng.uniform(0.2, 0.9)) / np.sum(np.abs(c)) * 0.5
    v0 = sum(ck * np.sin((k + 1) * np.pi * (x + 1) / 2) for k, ck in enumerate(c))
    v0[0] = v0[-1] = 0
    u0 = x + v0
    T = float(rng.uniform(0.5, 4))
    eps = 10 ** rng.uniform(-8, -5)
    # independent integration of u_t = eps u'' + u - u^3, u = -1, 1 at the ends
    xi = -np.cos(np.pi * np.arange(n + 1) / n)
    D2 = barymat(xi) @ barymat(xi)

    def rhs(t, w):
        u = np.concatenate([[-1.0], w, [1.0]])
        return (de * (D2 @ u) + u - u ** 3)[1:-1]
    r = solve_ivp(rhs, (0, T), (u0)[1:-1], method="LSODA", rtol=1e-11, atol=1e-12)
    want = np.concatenate([[-1.0], r.y[:, -1], [1.0]])
    W = clencurt(n)

    def free(u):
        ux = pkg.derivatives.dx_cheb(D, u)
        return float(np.sum(W * (0.5 * de * ux ** 2 + 0.25 * (1 - u ** 2) ** 2)))
    nrm = np.linalg.norm(L, 2)
    bound = max(1.0, np.max(np.abs(u0)))
    k0 = idx % len(AC)
    ends = {}
    for name, form in [AC[(k0 + j * 3) % len(AC)] for j in range(3)]:
        tag = "Allen-Cahn %s/%s eps=%.3g n=%d" % (name, form, de, n)
        etd, hcap = None, np.inf
        if name in pkg.ETDS and form == "full":
            R = 12.0
            etd = pkg.ETDConfig(contour_points=64, contour_radius=R)
            hcap = 0.5 * R / nrm
        if T / hcap > 4000:
            raise Inconclusive("too many steps")
        ts, us, est = simulate(mon, name, L, f, v0[1:-1], T, eps, int(rng.integers(80, 200)), form, etd, hcap, h0=T / 200)
        est += 1e-8
        pf, U = None, []
        for t, v in zip(ts, us):
            mon.count("states_monitored")
            if not mon.check(np.max(np.abs(np.imag(v))) <= 1e-9, tag + ": solution became complex", t=t):
                return
            u = np.concatenate([[0], np.real(v), [0]]) + x
            U.append(u)
            mon.check(u[0] == -1 and u[-1] == 1, tag + ": boundary values lost", t=t)
            if not mon.check(np.max(np.abs(u)) <= bound * (1 + 10 * est) + 2e-3, tag + ": leaves its bounds", t=t, largest=float(np.max(np.abs(u))), bound=bound):
                return
            F = free(u)
            if pf is not None and not mon.check(F <= pf + (abs(pf) + 1) * (5 * est) + 1e-6, tag + ": free energy increases", t=t, energy=F, before=pf):
                return
            pf = F
        if not reltime(mon, tag, want, U[-1], est * np.exp(min(T, 2.5)), 2e-8, "differs from an independent integration", T=T):
            return
        ends[name + "/" + form] = (U[-1], est * np.exp(min(T, 2.5)))
        mon.key("allen", name, form, de, n, eps)
    agree(mon, "Allen-Cahn", ends, 1)
    mon.note(equation="Allen-Cahn", eps=de, n=n, T=T, solvers=list(ends))


# ------------------------------------------------------------------ Schroedinger
def cylinder(rng, mon, idx):
    nr = int(rng.integers(30, 60))
    rmax = gen.log_u(rng, 0.5, 20)
    R0 = rmax / float(rng.uniform(4.5, 6))
    HT = pkg.transforms.HankelTransform(nr=nr, rmax=rmax)
    if idx % 3 == 0:
        HT = pkg.transforms.HankelTransform(nr=nr + 7, rmax=rmax * 2)
        HT.nr = nr
        HT.rmax = rmax
    sg = -1 if rng.random() < 0.5 else 1
    A0 = float(rng.uniform(0.3, 1.2))
    gam = sg * float(rng.uniform(0, 1.0)) / (R0 * A0) ** 2 * (1.0 if sg > 0 else 2.0)
    L = -1j * HT.kr ** 2

    def f(g):
        w = HT.iht(g)
        return 1j * gam * HT.ht((w.real ** 2 + w.imag ** 2) * w)
    u0 = A0 * np.exp(-(HT.r / R0) ** 2) * np.exp(1j * float(rng.uniform(-1, 1)) * (HT.r / R0) ** 2)
    g0 = HT.ht(u0)
    T = float(rng.uniform(0.02, 0.15)) * R0 ** 2
    eps = 10 ** rng.uniform(-8, -5)
    wr = 1 / sp.j1(HT.bessel_zeros()) ** 2            # discrete measure r dr (up to a factor)
    mon.check(abs(np.sum(wr * np.abs(u0) ** 2) * 2 * rmax ** 2 / sp.jn_zeros(0, nr + 1)[-1] ** 2 - A0 ** 2 * R0 ** 2 / 4) <= 1e-6 * A0 ** 2 * R0 ** 2, "cylinder: quadrature of the initial power", got=float(np.sum(wr * np.abs(u0) ** 2) * 2 * rmax ** 2 / sp.jn_zeros(0, nr + 1)[-1] ** 2), want=A0 ** 2 * R0 ** 2 / 4)
    p0 = np.sum(wr * np.abs(u0) ** 2)
    names = rng.permutation(ALL)[:3] if idx % 4 else ALL
    ends = {}
    for name in names:
        tag = "cylindrical NLS %s" % name
        ts, us, est = simulate(mon, name, L, f, g0, T, eps, int(rng.integers(60, 150)))
        for t, g in zip(ts, us):
            mon.count("states_monitored")
            u = HT.iht(g)
            p = np.sum(wr * np.abs(u) ** 2)
            # the transform is its own inverse to about the quasi-discrete accuracy
            if not mon.check(abs(p - p0) <= (4 * est + 1e-7) * p0, tag + ": power not conserved", t=t, relative=float(p / p0 - 1), allowed=4 * est):
                return
        ends[str(name)] = (HT.iht(us[-1]), est)
        mon.key("cylinder", name, nr, rmax, gam, eps)
    agree(mon, "cylindrical NLS", ends, 4)
    # without the nonlinear term a Gaussian beam spreads as known
    b = 1 / R0 ** 2
    u0 = A0 * np.exp(-b * HT.r ** 2)
    s = pkg.make(str(names[0]), L, gen.NL(lambda g: 0 * g))
    z = 0.05 * R0 ** 2
    g = s.evolve(HT.ht(u0), 0.0, z, h_init=z / 7) if pkg.is_as(str(names[0])) else s.evolve(HT.ht(u0), 0.0, z, z / 7)
    want = A0 / (1 + 4j * b * z) * np.exp(-b * HT.r ** 2 / (1 + 4j * b * z))
    d = float(np.max(np.abs(HT.iht(g) - want))) / A0
    mon.count("solutions_compared")
    mon.check(d <= 1e-5, "Gaussian beam %s: differs from the paraxial solution" % names[0], difference=d, nr=nr, rmax=rmax, R0=R0)
    mon.note(equation="cylindrical NLS", nr=nr, rmax=rmax, gamma=gam)


def nls(rng, mon, idx):
    """i u_t + u_xx + 2|u|^2 u = 0: moving bright soliton."""
    N = int(rng.choice([320, 384, 400]))
    A = gen.log_u(rng, 0.3, 3)
    W = float(rng.uniform(56, 62)) / A
    a = float(rng.uniform(-1.5, 0.5)) * W
    x, kx = pkg.grids.construct_x_kx_fft(N, a, a + W)
    v = A * float(rng.uniform(-2, 2))
    c = a + W / 2
    ph = float(rng.uniform(0, 6.28))

    def exact(t):
        y = x - c - v * t
        return A / np.cosh(A * y) * np.exp(1j * (0.5 * v * (x - c) + (A * A - v * v / 4) * t + ph))
    L = -1j * kx ** 2

    def f(g):
        w = np.fft.ifft(g)
        return 2j * np.fft.fft(np.abs(w) ** 2 * w)
    T = float(rng.uniform(0.2, 1.2)) / A ** 2
    eps = 10 ** rng.uniform(-7.5, -5)
    u0 = exact(0)
    g0 = np.fft.fft(u0)
    p0 = np.sum(np.abs(u0) ** 2)

    def mom(g):
        return float(np.sum(kx * np.abs(g) ** 2)) / N
    m0 = mom(g0)
    names = rng.permutation(ALL)[:3] if idx % 4 else ALL
    ends = {}
    for name in names:
        tag = "NLS soliton %s" % name
        ts, us, est = simulate(mon, name, L, f, g0, T, eps, int(rng.integers(120, 250)))
        for t, g in zip(ts, us):
            mon.count("states_monitored")
            p = np.sum(np.abs(np.fft.ifft(g)) ** 2)
            if not mon.check(abs(p - p0) <= (4 * est + 1e-9) * p0, tag + ": power not conserved", t=t, relative=float(p / p0 - 1), allowed=4 * est):
                return
            mon.check(abs(mom(g) - m0) <= (8 * est + 1e-8) * p0 * (A + abs(v)) * 3, tag + ": momentum not conserved", t=t, momentum=mom(g), initial=m0)
        if not reltime(mon, tag, exact(T), np.fft.ifft(us[-1]), est * 6, 1e-7, "differs from the soliton", T=T):
            return
        ends[str(name)] = (np.fft.ifft(us[-1]), est)
        mon.key("nls", name, A, v, eps)
    agree(mon, "NLS soliton", ends, 6)
    mon.note(equation="NLS", A=A, v=v, N=N)


def ks(rng, mon, idx):
    """u_t = -u u_x - u_xx - u_xxxx through dx_rfft: mean conserved, solvers agree."""
    N = int(rng.choice([48, 64, 96]))
    W = float(rng.uniform(15, 35))
    x, kx = pkg.grids.construct_x_kx_rfft(N, 0, W)
    L = kx ** 2 - kx ** 4

    def f(g):
        u = np.fft.irfft(g)
        return -np.fft.rfft(u * pkg.derivatives.dx_rfft(kx, u))
    s = 2 * np.pi * x / W
    u0 = float(rng.uniform(-0.5, 0.5)) + 0.5 * np.cos(s + 1) * float(rng.uniform(0.3, 1.5)) + 0.4 * np.sin(2 * s) * float(rng.standard_normal())
    T = float(rng.uniform(1, 5))
    eps = 10 ** rng.uniform(-7.5, -5)
    g0 = np.fft.rfft(u0)
    m0 = np.mean(u0)
    names = rng.permutation(ALL)[:3] if idx % 4 else ALL

    def rhs(t, u):
        return np.fft.irfft(L * np.fft.rfft(u)) - u * np.fft.irfft(1j * kx * np.fft.rfft(u))
    r = solve_ivp(rhs, (0, T), u0, method="LSODA", rtol=1e-10, atol=1e-11)
    want = r.y[:, -1]
    for name in names:
        tag = "Kuramoto-Sivashinsky %s" % name
        ts, us, est = simulate(mon, name, L, f, g0, T, eps, int(rng.integers(150, 300)))
        for t, g in zip(ts, us):
            mon.count("states_monitored")
            u = np.fft.irfft(g)
            if not mon.check(abs(np.mean(u) - m0) <= 1e-12 * (1 + np.max(np.abs(u))), tag + ": mean not conserved", t=t, mean=np.mean(u), initial=m0):
                return
        if not reltime(mon, tag, want, np.fft.irfft(us[-1]), est * np.exp(0.4 * T) * 3, 1e-6, "differs from an independent integration", T=T):
            return
        mon.key("ks", name, W, N, eps)


C.stratum("kdv", 48, 1600, fn=kdv, chunk=1)
C.stratum("burgers", 64, 2000, fn=burgers, chunk=1)
C.stratum("allen", 64, 2000, fn=allen, chunk=1)
C.stratum("cylinder", 64, 2000, fn=cylinder, chunk=1)
C.stratum("nls", 48, 1600, fn=nls, chunk=1)
C.stratum("ks", 40, 1200, fn=ks, chunk=1)
C.require("states_monitored", "solutions_compared", "solver_pairs_compared", "adaptive_steps", "constant_steps")

if __name__ == "__main__":
    sys.exit(C.main())
