"""C11: reuse of stages and coefficients between steps is invisible (shadow execution)."""
import sys
import numpy as np
from rkv import pkg, gen, probe, ref
from rkv.harness import Check, Inconclusive

C = Check("C11", "sequences of steps with repeated, alternating, nearly equal, growing and shrinking sizes and provoked rejections on one solver; every step is mirrored on a solver built for that step alone and "
          "compared attempt by attempt; non-trivial = more than one step; distinct by solver, form, time scale, pattern of sizes and of accept/reject outcomes",
          assumptions=["each step starts from the array the previous step returned (or an equal copy)", "tolerance: 1e-12 times the state (times the conditioning of the eigenbasis for matrices)"])

PAT = ("same", "alternate", "near", "ulp", "random", "growshrink", "returning", "nearchain", "big", "halving")


def hseq(rng, pat, h, k):
    if pat == "same":
        return [h] * k
    if pat == "alternate":
        g = h * float(rng.uniform(0.2, 0.9))
        return [h if i % 2 == 0 else g for i in range(k)]
    if pat == "near":
        d = gen.log_u(rng, 1e-9, 1e-2) * rng.choice([-1, 1])
        return [h * (1 + d * (i % 2)) for i in range(k)]
    if pat == "nearchain":
        d = gen.log_u(rng, 1e-8, 1e-3)
        return [h * (1 - d) ** i for i in range(k)]
    if pat == "ulp":
        return [h if i % 2 == 0 else float(np.nextafter(h, 0)) for i in range(k)]
    if pat == "halving":
        # exact halves, doubles and quarters of the step before
        hs = [h]
        for _ in range(k - 1):
            hs.append(min(h, hs[-1] * float(rng.choice([0.5, 0.5, 0.5, 2.0, 0.25, 1.0]))))
        return hs
    if pat == "growshrink":
        return [h * 2.0 ** -abs(i - k // 2) for i in range(k)]
    if pat == "returning":
        hs = [h, h / 3, h / 7]
        return [hs[int(rng.integers(3))] for _ in range(k)]
    return [h * float(rng.uniform(0.05, 1)) for _ in range(k)]


class Scaled:
    """A Prob with time measured in other units: L, N divided by tau."""

    def __init__(self, rng, name, form, tau):
        p = probe.Prob(rng, name, form)
        self.p, self.tau, self.n, self.cplx = p, tau, p.n, p.cplx
        self.name, self.form = name, form
        L = p.L
        if form == "diag" and p.cplx and np.iscomplexobj(L) and rng.random() < 0.25:
            # modes that turn many times within a step
            L = L + 1j * rng.uniform(-200, 200, p.n) * (rng.random(p.n) < 0.7)
        c = 0.0 if rng.random() < 0.6 else gen.cnorm(rng, p.n, p.cplx)     # a term that is not odd
        self.L = L / tau
        self.f = lambda u: p.f(u + c) / tau
        self.u0, self.hmax = p.u0, p.hmax * tau
        self.kappa = 1.0 if form == "diag" else (np.linalg.cond(p.S) ** 2 if form == "diagonalized" else np.linalg.cond(p.S))

    def solver(self, N, cfg, ecfg):
        return probe.make_rec(self.name, self.L, N, self.form, pkg.SolverConfig(**cfg), pkg.ETDConfig(**ecfg))

    def build(self, N, cfg, ecfg):
        return self.solver(N, cfg, ecfg)


def outcome(s, u, h):
    n = len(s.rec_attempts)
    try:
        r = s.step(u, h)
    except pkg.BaseSolverAS.SolverError as e:
        r = type(e).__name__
    return r, s.rec_attempts[n:]


def compare(mon, sp, a, b, cfg, tag, **kw):
    """Attempts of the chained solver (a) against those of the fresh one (b)."""
    name = sp.name
    for k in range(max(len(a), len(b))):
        if k >= len(a) or k >= len(b):
            return "length"
        ha, ua, ea = a[k]
        hb, ub, eb = b[k]
        if not mon.check(abs(ha - hb) <= 1e-3 * hb, tag + ": attempt made with another step size than by a new solver", attempt=k, got=ha, want=hb, **kw):
            return "bad"
        if abs(ha - hb) > 1e-12 * hb:
            return "drift"       # sizes from rounding-dominated estimates: later attempts are not comparable
        if ea is not None and k + 1 < len(b) and not (np.all(np.isfinite(ub)) and np.all(np.isfinite(eb))):
            # a rejected candidate that is not finite: nothing to compare, but the retry must not notice
            if not mon.check(not (np.all(np.isfinite(ua)) and np.all(np.isfinite(ea))), tag + ": an attempt is finite, but not that of a new solver", attempt=k, h=ha, **kw):
                return "bad"
            mon.count("nonfinite_attempts")
            continue
        if not (np.all(np.isfinite(ub)) and np.max(np.abs(ub)) < 1e3):
            return "unbounded"
        scale = np.max(np.abs(ub)) + 1e-300
        tol = 1e-12 * sp.kappa * scale * (1 + 0.1 * k)
        if not probe.close(mon, ua, ub, tol, tag + ": state of an attempt differs from a new solver's", attempt=k, h=ha, **kw):
            return "bad"
        if ea is not None and not probe.close(mon, ea, eb, tol, tag + ": error estimate of an attempt differs from a new solver's", attempt=k, h=ha, **kw):
            return "bad"
        mon.count("attempts_compared")
    return "same"


def case(rng, mon, idx):
    name, form = probe.pick_form(rng, idx)
    tau = 1.0 if rng.random() < 0.5 else float(10 ** rng.uniform(-10, 4))
    sp = Scaled(rng, name, form, tau)
    adaptive = pkg.is_as(name)
    cfg = dict(epsilon=gen.log_u(rng, 1e-7, 1e-3), incr_f=float(rng.uniform(1.02, 1.6)), decr_f=float(rng.uniform(0.5, 0.95)), safety_f=float(rng.uniform(0.6, 1.0)),
               adapt_cutoff=float(rng.choice([0.0, 0.01])), minh=1e-30)
    ecfg = dict(modecutoff=0.01, contour_points=32, contour_radius=1.0)
    pat = PAT[rng.integers(len(PAT))]
    h0 = min(gen.log_u(rng, 0.005, 2.0 if pat == "big" else 0.3) * tau, sp.hmax)
    k = int(rng.integers(2, 9))
    mode = ("given", "suggested", "mixed")[rng.integers(3)] if adaptive else "given"
    hs = hseq(rng, pat, h0, k)
    if adaptive and rng.random() < 0.3:
        # a nonlinear term that is not finite at states beyond a wall: attempts with large steps fail
        f0, wall, badv = sp.f, float(rng.uniform(1.02, 1.5)) * np.max(np.abs(sp.u0)), float(rng.choice([np.nan, np.inf, -np.inf]))

        def f(v):
            w = f0(v)
            return np.where(np.abs(v) > wall, badv, w)
        sp.f = f
    N = gen.NL(sp.f)
    s = sp.solver(N, cfg, ecfg)
    u, outs = sp.u0, []
    hnext = hs[0]
    copyu = bool(rng.random() < 0.3)
    for i in range(k):
        h = hs[i] if mode == "given" or (mode == "mixed" and rng.random() < 0.5) else hnext
        h = min(h, sp.hmax)
        fresh = sp.build(gen.NL(sp.f), cfg, ecfg)
        r, a = outcome(s, u, h)
        rb, b = outcome(fresh, np.array(u, copy=True), h)
        mon.count("steps_mirrored")
        outs.append(len(a))
        c = compare(mon, sp, a, b, cfg, "%s/%s" % (name, form), step=i, pattern=pat, tau=tau, sizes=hs[:i + 1])
        if c != "same" or mon.viols:
            mon.count("stopped_" + c)
            break
        if len(a) > 1:
            # the last retry equals the first attempt of a solver that never saw the rejected ones
            pure = sp.build(gen.NL(sp.f), cfg, ecfg)
            _, b1 = outcome(pure, np.array(u, copy=True), a[-1][0])
            c = compare(mon, sp, a[-1:], b1[:1], cfg, "%s/%s retry" % (name, form), step=i, pattern=pat, tau=tau, rejected=[x[0] for x in a[:-1]])
            mon.count("retries_mirrored")
            if c != "same":
                break
        if isinstance(r, str) or isinstance(rb, str):
            mon.check(isinstance(r, str) and isinstance(rb, str) and r == rb, "%s/%s: ended differently from a new solver" % (name, form), got=str(r)[:50], want=str(rb)[:50])
            break
        if adaptive:
            # the factor follows from the estimate; noise in a tiny estimate may move the suggestion
            e = np.linalg.norm(b[-1][2])
            noise = 1e-12 * sp.kappa * np.linalg.norm(rb[0]) / e if e > 0 else 1
            if noise < 1e-4 and abs(rb[2] - r[2]) > 1e-3 * rb[2] and not (min(r[2], rb[2]) == h and abs(max(r[2], rb[2]) / h - cfg["incr_f"]) < 0.01):
                mon.viol("%s/%s: suggested step size differs from a new solver's" % (name, form), got=r[2], want=rb[2], h=h)
            u, hnext = r[0], r[2]
        else:
            u = r
        if copyu:
            u = np.array(u, copy=True)
    mon.note(solver=name, form=form, pattern=pat, tau=tau, attempts=outs)
    mon.count("rejections_seen", sum(max(0, o - 1) for o in outs) if adaptive else 0)
    if len(outs) > 1:
        mon.key(name, form, round(np.log10(tau)), pat, mode, outs)


def loop(rng, mon, idx):
    """evolve equals the same loop of steps by hand, with the documented end rule."""
    name, form = probe.pick_form(rng, idx)
    sp = Scaled(rng, name, form, 1.0)
    adaptive = pkg.is_as(name)
    cfg = dict(epsilon=gen.log_u(rng, 1e-7, 1e-3), minh=1e-30)
    N1, N2 = gen.NL(sp.f), gen.NL(sp.f)
    a = sp.solver(N1, cfg, {})
    b = sp.solver(N2, cfg, {})
    h = min(gen.log_u(rng, 0.01, 0.3), sp.hmax)
    t0 = float(rng.choice([0.0, 1.0, -0.5]))
    if adaptive:
        tf = t0 + float(rng.uniform(0.5, 12)) * h
        ra = a.evolve(sp.u0, t0, tf, h_init=h)
        u, t, hh = sp.u0, t0, h
        n = 0
        while t < tf - 1e-12 and n < 2000:
            hh = min(hh, tf - t)
            u, hu, hh = b.step(u, hh)
            t += hu
            n += 1
    else:
        n = int(rng.integers(1, 30))
        tf = t0 + n * h
        ra = a.evolve(sp.u0, t0, tf, h)
        u = sp.u0
        for _ in range(n):
            u = b.step(u, h)
    mon.count("loops_compared")
    mon.key(name, form, n, len(a.rec_attempts))
    hp = [x[1] for x in a.rec_steps][:-1]
    hq = [x[1] for x in b.rec_steps][:-1]
    # the last, clamped size may differ by the rounding of the time
    if adaptive and (len(hp) != len(hq) or not np.allclose(hp, hq, rtol=1e-9, atol=0)):
        if not (abs(len(hp) - len(hq)) <= 1 and np.allclose(hp[:min(len(hp), len(hq))], hq[:min(len(hp), len(hq))], rtol=1e-6)):
            mon.viol("%s/%s: evolve takes other steps than the loop of step calls" % (name, form), evolve=hp, loop=hq)
            return
    probe.close(mon, ra, u, 1e-10 * sp.kappa * np.max(np.abs(u)), "%s/%s: evolve differs from the loop of step calls" % (name, form), steps=n)


C.stratum("chain", 2500, 60000, fn=case)
C.stratum("loop", 400, 8000, fn=loop)
C.require("nonfinite_attempts", "retries_mirrored", "attempts_compared", "rejections_seen", "steps_mirrored", "loops_compared")

if __name__ == "__main__":
    sys.exit(C.main())
