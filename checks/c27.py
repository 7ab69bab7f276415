"""C27: adaptive runs meet their tolerance at a sensible cost."""
import sys
import numpy as np
from scipy.integrate import solve_ivp
from rkv import pkg, ref, gen, probe
from rkv.harness import Check, Inconclusive

C = Check("C27", "adaptive runs of every solver and operator form over a ladder of tolerances (1e-3 to 1e-9) and initial steps (1e-6 to the whole interval) on generated smooth problems; the final error is judged against an independent tight integration (Dormand-Prince 8(5,3) at 1e-12) or a closed form, "
          "the number of steps against the integral of the largest acceptable step along the exact trajectory (own evaluation of the scheme's error estimate), its growth with the tolerance and its dependence on h_init; non-trivial = every run judged; distinct by solver, form, problem and tolerance",
          assumptions=["adapt_cutoff=0, so that every mode is controlled", "tolerances leave a factor of about 4 or more to the worst ratios seen on several thousand problems"])
FORMS = [x for x in pkg.all_forms() if pkg.is_as(x[0])]
LADDER = (1e-3, 1e-4, 1e-5, 1e-6, 1e-7, 1e-8, 1e-9)


def run(p, eps, h0, T, t0=0.0):
    # the problem is posed in units of its own: states times amp, times times tau
    amp, tau = getattr(p, "amp", 1.0), getattr(p, "tau", 1.0)
    f = p.f if amp == tau == 1.0 else (lambda v: p.f(v / amp) * (amp / tau))
    s = probe.make_rec(p.name, p.L / tau, gen.NL(f, budget=400000), p.form, pkg.SolverConfig(epsilon=eps, adapt_cutoff=0.0, minh=1e-16 * tau))
    u = s.evolve(p.u0 * amp, t0 * tau, (t0 + T) * tau, h_init=h0 * tau)
    return u / amp, len(s.rec_steps), len(s.rec_attempts), [(a / amp, h / tau, b / amp, hu / tau, hs / tau) for a, h, b, hu, hs in s.rec_steps]


def units(rng, mon, p):
    """A quarter of the problems is posed in extreme units: the tolerance is relative."""
    if rng.random() < 0.25:
        p.amp = gen.log_u(rng, 1e-14, 1e14)
        p.tau = gen.log_u(rng, 1e-12, 1e12) if rng.random() < 0.5 else 1.0
        mon.count("problems_in_extreme_units")


def lucky(p, u, h, eps, rng):
    """Does the scheme's own estimate (independently evaluated) accept a step much longer than the usual ones?"""
    w, _, e, _ = ref.attempt(p.name, p.L, h, u, p.f, p.form, None, rng, True, 1.0, reps=0)
    ne, nw = np.linalg.norm(e), np.linalg.norm(w)
    return ne == 0 or 0.8 * (eps * nw / ne) ** (1.0 / pkg.Q[p.name]) >= 0.99


def judge(mon, p, T, exact, path, tag, rng, stiff):
    """path: function t -> exact state (or None)."""
    sc = max(np.linalg.norm(path(t)) for t in np.linspace(0, T, 41)) if path else np.linalg.norm(exact)
    eps_list = sorted(rng.choice(LADDER, 3, replace=False), reverse=True)
    q = pkg.Q[p.name]
    got = {}
    for eps in eps_list:
        ns, hmax = [], None
        for h0 in (T * float(rng.choice([1e-6, 1e-4])), T * float(rng.uniform(0.005, 0.2)), T):
            u, n, at, steps = run(p, eps, h0, T)
            mon.count("runs_judged")
            mon.count("steps_seen", n)
            err = float(np.linalg.norm(u - exact))
            # on stiff problems a large step may meet a zero of the error estimate
            if hmax is None:
                hmax = max(x[3] for x in steps)
            for ua, _, _, h, _ in steps:
                if not stiff and h > 2.5 * hmax and lucky(p, ua, h, eps, rng):
                    steps = None
                    break
            if steps is None:
                mon.count("steps_at_a_zero_of_the_estimate")
                continue
            bound = (3000 if stiff else 20) * eps * sc * (n + 5) + 2e-11 * sc
            if err > bound and any(h > 0.2 * T and lucky(p, ua, h, eps, rng) for ua, _, _, h, _ in steps):
                # a step too long for the estimate to mean anything, accepted by the scheme itself
                mon.count("steps_beyond_the_estimate")
                continue
            got.setdefault(eps, []).append((err, n, at))
            if not mon.check(err <= bound, tag + ": error far above the tolerance", epsilon=eps, h_init=h0, error=err, size=sc, steps=n, ratio=err / eps / sc):
                return
            mon.check(at - n <= 25 + 0.6 * n, tag + ": most attempts are rejected", epsilon=eps, h_init=h0, steps=n, attempts=at)
            ns.append(n)
        if not ns:
            raise Inconclusive("every run took a step beyond the estimate")
        stiff or mon.check(max(ns) <= 1.35 * min(ns) + 16, tag + ": number of steps depends on h_init", epsilon=eps, steps=ns)
        mon.key(tag, p.kind, p.lam[:3], eps)
    for a, b in zip(eps_list[:-1], eps_list[1:]):
        na, nb = min(x[1] for x in got[a]), max(x[1] for x in got[b])
        stiff or mon.check(nb <= 2.2 * (na + 4) * (a / b) ** (1.0 / q) + 16, tag + ": number of steps grows faster with the tolerance than the order implies", tolerances=(a, b), steps=(na, nb), q=q)
        ea, eb = max(x[0] for x in got[a]), max(x[0] for x in got[b])
        # a coarse run may be lucky; it must not beat the tight one by much
        mon.check(eb <= 2 * ea + (3000 if stiff else 20) * b * sc + 1e-10 * sc, tag + ": error does not shrink with the tolerance", tolerances=(a, b), errors=(ea, eb))
        mon.count("tolerance_pairs")
    lo, hi = eps_list[0], eps_list[-1]
    if lo / hi >= 1e3:
        ea, eb = max(x[0] for x in got[lo]), min(x[0] for x in got[hi])
        if not stiff and ea > 1e-2 * lo * sc:
            mon.check(eb <= ea / 3, tag + ": error does not shrink although the tolerance is at least 1000 times smaller", tolerances=(lo, hi), errors=(ea, eb))
    # cost against the largest acceptable steps along the exact trajectory
    if path is None or stiff:
        return
    eps = eps_list[-1]
    kappa = 1.0
    inv = []
    ts = (np.arange(8) + 0.5) / 8 * T
    for t in ts:
        u = path(t)
        h = T / 20
        for _ in range(14):
            w, _, e, _ = ref.attempt(p.name, p.L, h, u, p.f, p.form, None, rng, True, kappa, reps=0)
            ne, nw = np.linalg.norm(e), np.linalg.norm(w)
            if ne == 0 or not np.isfinite(ne):
                raise Inconclusive("no error estimate on the trajectory")
            s = 0.8 * (eps * nw / ne) ** (1.0 / q)
            h2 = h * min(max(s, 0.2), 5.0)
            if abs(h2 / h - 1) < 0.01:
                break
            h = h2
            if h > 4 * T:
                break
        inv.append(1.0 / h)
    inv = np.array(inv)
    ideal = float(np.mean(inv) * T)
    if inv.max() > 8 * np.median(inv):
        mon.count("cost_not_resolved")
        return
    for err, n, at in got[eps]:
        mon.count("costs_judged")
        if not mon.check(n <= 1.7 * ideal + 16, tag + ": many more steps than the tolerance needs", epsilon=eps, steps=n, needed=ideal):
            return
        mon.check(n >= 0.5 * ideal - 3, tag + ": far fewer steps than the tolerance needs", epsilon=eps, steps=n, needed=ideal)
    mon.note(case=tag, epsilon=eps, ideal_steps=ideal, steps=[x[1] for x in got[eps]], errors_over_epsilon=[x[0] / eps / sc for x in got[eps]])


def smooth(rng, mon, idx):
    name, form = FORMS[idx % len(FORMS)]
    stiff = (idx // len(FORMS)) % 3 == 2 and not (form == "full" and name in pkg.ETDS)
    p = probe.Prob(rng, name, form, stiff=stiff)
    T = float(rng.uniform(0.5, 1.5))
    if form == "diagonalized" and np.linalg.cond(p.S) > 30:
        raise Inconclusive("ill-conditioned eigenbasis")
    if name in pkg.ETDS and form == "full":
        p.L = p.L * 0.5 / (T * np.linalg.norm(p.L, 2))
    Lm = np.diag(p.L) if form == "diag" else p.L
    u0 = np.asarray(p.u0, complex)
    r = solve_ivp(lambda t, u: Lm @ u + p.f(u), (0, T), u0, method="DOP853", rtol=1e-12, atol=1e-14, dense_output=True, max_step=T)
    if not r.success:
        raise Inconclusive("reference integration failed")
    units(rng, mon, p)
    judge(mon, p, T, r.y[:, -1], r.sol, "%s/%s%s" % (name, form, " stiff" if stiff else ""), rng, stiff)


def closed(rng, mon, idx):
    """u' = l u - a u^3 componentwise (real), solved in closed form; and linear problems with N = M u split arbitrarily."""
    name, form = FORMS[idx % len(FORMS)]
    n = int(rng.integers(1, 6)) if form == "diag" else int(rng.integers(2, 6))
    T = float(rng.uniform(0.5, 2))
    lin = bool((idx // len(FORMS)) % 2)

    class P:
        pass
    p = P()
    p.name, p.form, p.kind = name, form, "split" if lin else "bernoulli"
    lam = rng.uniform(-2, 1.0, n) + 1e-2
    if name in pkg.ETDS and form == "full":
        lam = lam * 0.2 / T
    a = rng.uniform(0.2, 1.0, n)
    u0 = rng.uniform(0.3, 1.5, n) * rng.choice([-1, 1], n)
    p.lam = lam
    if form == "diag":
        V = Vi = np.eye(n)
    else:
        V = gen.orthobasis(rng, n, False)
        Vi = V.T
    if lin:
        # commuting split: exact solution exp((lam + mu) t)
        mu = rng.uniform(-1.5, 1.0, n) + (0.5j * rng.standard_normal(n) if rng.random() < 0.5 else 0)
        M = V @ np.diag(mu) @ Vi
        p.f = lambda u: M @ u
        path = lambda t: V @ (np.exp((lam + mu) * t) * u0)
    else:
        p.f = lambda u: V @ (-a * (Vi @ u) ** 3)

        def path(t):
            E = np.exp(2 * lam * t)
            # w = u^-2: w' = -2 lam w + 2 a
            w = (u0 ** -2.0 - a / lam) / E + a / lam
            return V @ (np.sign(u0) / np.sqrt(w))
    p.L = lam if form == "diag" else V @ np.diag(lam) @ Vi
    if form == "diagonalized" and np.linalg.cond(p.L) > 1e12:
        raise Inconclusive("singular")
    p.u0 = V @ u0
    units(rng, mon, p)
    judge(mon, p, T, path(T), path, "%s/%s %s" % (name, form, p.kind), rng, False)


C.stratum("smooth", 270, 8000, fn=smooth, chunk=4)
C.stratum("closed", 180, 6000, fn=closed, chunk=4)
C.require("problems_in_extreme_units", "runs_judged", "tolerance_pairs", "costs_judged")

if __name__ == "__main__":
    sys.exit(C.main())
