"""C05: convergence to the true solution at full order."""
import sys
import numpy as np
from scipy.integrate import solve_ivp
from rkv import pkg, ref, gen
from rkv.harness import Check, Inconclusive

C = Check("C05", "a problem with a known (closed form or independent DOP853, rtol 1e-13) solution is run at successively halved steps; non-trivial = at least two step halvings observed above "
          "the rounding floor; distinct by solver, form, problem, dtype, size",
          assumptions=["the observed order is judged on non-stiff problems (|L| T <= 6), where the classical order holds; scipy DOP853 at rtol 1e-13 or a closed form is the reference",
                       "violation: both of the last two halvings show an order below p - 0.5 and agree to 0.3"])
FLOOR = 3e-12


def problem(rng, cplx, n, kind=None):
    """(lam, f, u0, exact or None, kind)"""
    top = kind or ("split", "bernoulli", "rotor", "uniform", "uniform", "generic", "generic")[rng.integers(7)]
    sub = gen.NKINDS if top.count("-") == 0 else (top.split("-")[1],)
    kind = top.split("-")[0]
    lam = -rng.uniform(0.1, 3, n)
    if cplx:
        lam = lam * rng.uniform(0, 1, n) + 1j * rng.uniform(-3, 3, n)
    if rng.random() < 0.3:
        lam[rng.integers(n)] = 0
    u0 = gen.cnorm(rng, n, cplx) * 0.7
    if kind == "split":
        M = gen.cnorm(rng, (n, n), cplx)
        f = lambda u: M @ u
        return lam, f, u0, lambda T: np.asarray(ref.phis_mat((np.diag(lam) + M) * T)[0] @ u0.astype(ref.CLD), complex), kind
    if kind == "bernoulli":
        lam = np.real(lam) - 0.2
        a = rng.uniform(0.3, 1.5, n)
        u0 = rng.uniform(0.2, 1.2, n)
        f = lambda u: -a * u ** 3
        return lam, f, u0, lambda T: 1 / np.sqrt((1 / u0 ** 2 - a / lam) * np.exp(-2 * lam * T) + a / lam), kind
    if kind == "rotor" and cplx:
        om = np.imag(lam)
        a = rng.uniform(-1.5, 1.5, n)
        f = lambda u: 1j * a * np.abs(u) ** 2 * u
        return 1j * om, f, u0, lambda T: u0 * np.exp(1j * (om + a * np.abs(u0) ** 2) * T), kind
    if kind == "uniform":
        kind = "uniform-"
        lam = np.full(n, lam[0] if lam[0] != 0 else -1.0)       # L a multiple of the identity commutes with everything
    else:
        kind = "generic-"
    pre = kind
    kind, f = gen.nonlinear(rng, n, cplx, rng.uniform(0.4, 1.2), kinds=[k for k in ("forced", "lin", "quad", "conv") if k in sub])
    if kind == "conv":
        b, p = gen.cnorm(rng, n, cplx), rng.permutation(n)
        f = lambda u: b * u[p] * (np.conj(u) if pre == "generic-" else u) if cplx else b * np.sin(u[p]) * u
    return lam, f, u0, None, pre + kind


def case(rng, mon, idx, name, form):
    """A single odd error sequence can fake a low order; a real loss of order shows on most problems of its family."""
    cplx = bool(rng.random() < 0.6)
    kind, bad = one(rng, mon, name, form, cplx)
    if not bad:
        return
    fails, tried = [bad], 1
    while tried < 9 and len(fails) < 4:
        try:
            kind2, bad = one(rng, mon, name, form, cplx, kind)
        except Inconclusive:
            bad = None
        tried += 1
        if bad:
            fails.append(bad)
    mon.count("suspicions re-examined")
    if len(fails) >= 4:
        mon.viol(fails[0][0], problems_failing=len(fails), problems_tried=tried, **fails[0][1])


def one(rng, mon, name, form, cplx, kind=None):
    n = int(rng.integers(2, 5))
    lam, f0, u0, exact, kind = problem(rng, cplx, n, kind)
    cplx = cplx or np.iscomplexobj(u0)
    T = float(rng.uniform(0.4, 1.2))
    # reference at four times: the error of a run is the largest over all of them, so that a sign change of the
    # error at one instant does not fake an order
    want = []
    if exact is None:
        y = u0.astype(complex) if cplx else u0
        for _ in range(4):
            r = solve_ivp(lambda t, y: lam * y + f0(y), (0, T / 4), y, method="DOP853", rtol=1e-13, atol=1e-15)
            if not r.success or np.max(np.abs(r.y)) > 20:
                raise Inconclusive("solution grows out of range")
            y = r.y[:, -1]
            want.append(y)
    else:
        want = [exact(T * (j + 1) / 4) for j in range(4)]
    want = np.array(want).T
    L, f, u, W = lam, f0, u0, want
    if form != "diag":
        S = gen.orthobasis(rng, n, cplx) @ np.diag(rng.uniform(0.6, 1.6, n))
        Si = np.linalg.inv(S)
        L = S @ np.diag(lam) @ Si
        f = lambda w: S @ f0(Si @ w)
        u, W = S @ u0, S @ want
    if form == "diagonalized" and np.linalg.cond(L) > 1e10:
        raise Inconclusive("singular")
    p = pkg.ORDER[name]
    if name in ("ETD5", "ETD35") and kind.split("-")[0] not in ("bernoulli", "uniform"):
        p = 4   # the published scheme is fifth order only where L commutes with the Jacobian of N
    mon.count("judged as order %d" % p)
    errs, hs = [], []
    scale = max(np.max(np.abs(W)), np.max(np.abs(u)))
    m = 4
    if name in pkg.ETDS and form == "full":
        while T / m * np.linalg.norm(L, 2) > 0.4:
            m *= 2
    aso = pkg.is_as(name)
    via = "evolve" if (not aso and rng.random() < 0.5) else "steps"
    s = pkg.make(name, L, gen.NL(f), form, pkg.SolverConfig(epsilon=1e30) if aso else None)
    for lev in range(8):
        h = T / m
        if via == "evolve":
            s.evolve(u, 0.0, T, h, store_freq=m // 4)
            V = np.array(s.u[1:]).T
        else:
            s.reset()
            v, V = u, []
            for j in range(m):
                if aso:
                    try:
                        v, hu, _ = s.step(v, h)
                    except s.SolverError:
                        raise Inconclusive("coarse step unstable")
                    if hu != h:
                        raise Inconclusive("step shortened")
                else:
                    v = s.step(v, h)
                if (j + 1) % (m // 4) == 0:
                    V.append(v)
            V = np.array(V).T
        if not np.all(np.isfinite(V)):
            raise Inconclusive("coarse step unstable")
        if V.shape != W.shape:
            return kind, ("unexpected number of snapshots", dict(got=V.shape, want=W.shape))
        e = float(np.max(np.linalg.norm(V - W, axis=0))) / scale
        errs.append(e)
        hs.append(h)
        m *= 2
        mon.count("runs_measured")
        if e < FLOOR * 30:
            break
    orders = [np.log2(errs[i] / errs[i + 1]) for i in range(len(errs) - 1) if errs[i + 1] > FLOOR and errs[i] < 0.05]
    mon.note(solver=name, form=form, problem=kind, T=T, h=hs, errors=errs, orders=orders)
    # whatever the order: it must get there
    if errs[-1] > 1e-4:
        return kind, ("%s/%s does not converge to the solution" % (name, form), dict(errors=errs, h=hs, problem=kind))
    if len(orders) < 2:
        raise Inconclusive("fewer than two halvings above the floor")
    mon.count("orders_judged")
    mon.key(name, form, kind, cplx, n, via)
    # settled at a lower order: the last two halvings agree with each other and both fall short
    o1, o2 = orders[-2:]
    if max(o1, o2) < p - 0.5:
        if abs(o1 - o2) < 0.3 and errs[len(orders)] > 5 * FLOOR:
            return kind, ("%s/%s converges at order %.2f, not %d" % (name, form, o2, p), dict(errors=errs, h=hs, orders=orders, problem=kind))
        else:
            mon.count("not yet asymptotic")
    else:
        mon.count("full order seen")
    return kind, None


for nm, fm in pkg.all_forms():
    C.stratum("%s-%s" % (nm, fm), 30, 700, fn=lambda r, m, i, nm=nm, fm=fm: case(r, m, i, nm, fm))
C.require("orders_judged", "full order seen")

if __name__ == "__main__":
    sys.exit(C.main())
