"""C06: an adaptive step is returned exactly when its error estimate meets the tolerance."""
import sys
import numpy as np
from rkv import pkg, ref, gen, probe
from rkv.harness import Check, Inconclusive
from rkv.probe import Scripted, judge_step, do_step, rand_config, make_rec, s_doc

C = Check("C06", "online monitor on every attempt of (a) scripted solvers built on the documented subclass interface, (b) instrumented real solvers in runs, (c) real solvers against the independent "
          "reference controller; non-trivial = at least one decision judged; distinct by decision sequence, solver, form, configuration flavour",
          assumptions=["decisions whose factor is within rounding of a threshold are not judged"])


def scripted(rng, mon, idx):
    n = gen.size(rng, 1, 11, 5000)
    cplx = bool(rng.random() < 0.5)
    cfg, kw = rand_config(rng, wild=True)
    q = int(rng.integers(2, 7))
    amp = gen.log_u(rng, 1e-90, 1e90) if rng.random() < 0.2 else gen.log_u(rng, 1e-6, 1e6)
    spread = rng.uniform(0, 6)

    def mk(k, u, h):
        un = gen.cnorm(rng, n, cplx) * amp * 10 ** rng.uniform(-spread, 0, n)
        if cplx and rng.random() < 0.3:
            # entries on the axes of the complex plane
            un = np.abs(un) * rng.choice([1, -1, 1j, -1j], n)
        if n > 1 and rng.random() < 0.2:
            un[rng.integers(n)] = 0
            if rng.random() < 0.5 and n > 2:
                un[rng.random(n) < 0.5] = 0
                un[rng.integers(n)] = amp
        flavour = rng.random()
        er = gen.cnorm(rng, n, cplx)
        m = np.abs(un)
        sel = m > cfg.adapt_cutoff * m.max()
        star = gen.log_u(rng, 0.05, 8) if flavour < 0.75 else gen.log_u(rng, 0.9, 1.15)
        # scale the error so that the factor is `star`
        ne = np.linalg.norm(er[sel])
        er = er / ne * (cfg.epsilon * np.linalg.norm(un[sel] / amp) * (cfg.safety_f / star) ** q) * amp
        if not np.all(np.isfinite(er)):
            er = np.ones(n) * np.inf
        r = rng.random()
        if r < 0.05:
            er = np.zeros(n)
        elif r < 0.08:
            er[:] = 0
            er[rng.integers(n)] = np.nan
        elif r < 0.11:
            er = er.copy()
            er[rng.integers(n)] = rng.choice([np.inf, -np.inf, np.nan])
        elif r < 0.14:
            un = un.copy()
            un[rng.integers(n)] = rng.choice([np.inf, np.nan])
        elif r < 0.16:
            un = np.zeros(n)
            er = np.zeros(n) if rng.random() < 0.5 else er
        elif r < 0.2:
            # error concentrated in the small entries that the cutoff ignores
            er = np.where(sel, 0, np.abs(un) * 10.0)
        return un, er
    s = Scripted(mk, q, cfg, n)
    allsteps = []
    for _ in range(int(rng.integers(1, 6))):
        h0 = gen.log_u(rng, 1e-8, 1e3)
        s.attempts.clear()
        out = do_step(s, np.ones(n), h0)
        allsteps.append(tuple(judge_step(mon, list(s.attempts), out, h0, cfg, q, "scripted")))
        mon.count("steps_judged")
        if not mon.viols and isinstance(out, tuple):
            mon.check(np.all(np.isfinite(out[0])), "non-finite state accepted", unew=out[0])
        if mon.viols:
            mon.note(cfg=kw, q=q)
            return
    mon.key("scripted", allsteps, q, cplx, n)
    mon.note(kind="scripted", q=q, cfg=kw, decisions=allsteps)


def real(rng, mon, idx):
    name, form = probe.pick_form(rng, idx, [(n, f) for n in pkg.AS for f in pkg.forms_of(n)])
    p = probe.Prob(rng, name, form)
    cfg, kw = rand_config(rng)
    if kw["epsilon"] < 1e-8:
        cfg.epsilon = 1e-8
    cfg.minh = 1e-12
    s = p.solver(rec=True, config=cfg)
    q = pkg.Q[name]
    u = p.u0
    h = float(min(p.hmax, gen.log_u(rng, 1e-2, 10)))
    seq = []
    for k in range(int(rng.integers(2, 9))):
        s.rec_attempts.clear()
        out = do_step(s, u, h)
        if not s.rec_attempts:
            raise Inconclusive("attempts not observable")
        seq.append(tuple(judge_step(mon, list(s.rec_attempts), out, h, cfg, q, "%s/%s" % (name, form))))
        mon.count("steps_judged")
        if not isinstance(out, tuple) or mon.viols:
            break
        u, hu, h = out
        h = float(min(h, p.hmax))
        if rng.random() < 0.3:
            h *= float(rng.uniform(1, 6))
        if rng.random() < 0.15:
            cfg.epsilon = gen.log_u(rng, 1e-8, 1e-2)
    mon.key(name, form, seq, p.cplx)
    mon.note(kind="real", solver=name, form=form, cfg=kw, decisions=seq)


def runs(rng, mon, idx):
    """Every accepted step inside evolve meets the tolerance."""
    name, form = probe.pick_form(rng, idx, [(n, f) for n in pkg.AS for f in pkg.forms_of(n)])
    p = probe.Prob(rng, name, form, stiff=bool(rng.random() < 0.5))
    cfg = pkg.SolverConfig(epsilon=gen.log_u(rng, 1e-7, 1e-2))
    A = 10.0 ** float(rng.choice([0, 0, 0, 0, 60, -60, 160, 250]))  # unit of the solution
    s = p.solver(N=gen.NL(p.f if A == 1 else (lambda u: A * p.f(u / A))), rec=True, config=cfg)
    q = pkg.Q[name]
    s.evolve(p.u0 * A, 0.0, 1.0, h_init=float(min(p.hmax, gen.log_u(rng, 1e-2, 1))))
    byh = {}
    for h, un, er in s.rec_attempts:
        byh.setdefault(h, []).append((un, er))
    for u0, hp, un, hu, hn in s.rec_steps:
        cand = [er for v, er in byh.get(hu, []) if gen.same(v, un)]
        if not cand:
            if byh:
                mon.viol("accepted state is not one of the attempts made with its step size", h=hu)
            continue
        sv = s_doc(un, cand[-1], cfg, q)
        if np.max(np.abs(un)) < 1e-140:
            mon.count("states_that_vanished")  # the squares of their entries are zero
            continue
        mon.count("accepted_steps_judged")
        if abs((sv or 0) - 1) > 1e-9:
            mon.check(sv is not None and sv >= 1, "accepted step does not meet its tolerance", s=sv, h=hu, solver=name, form=form)
    mon.key(name, form, A, len(s.rec_steps), len(s.rec_attempts))


def versus_reference(rng, mon, idx):
    """Acceptance, step used and suggestion against the reference controller with the published error estimate."""
    name, form = probe.pick_form(rng, idx, [(n, f) for n in pkg.AS for f in pkg.forms_of(n)])
    cplx = bool(rng.random() < 0.6)
    h = gen.log_u(rng, 1e-3, 3)
    etdfull = name in pkg.ETDS and form == "full"
    n = gen.size(rng, 2, 9, 4000) if form == "diag" else gen.size(rng, 2, 5, 64)
    bands = ("below", "above", "unit", "stiff", "vstiff", "imag", "tiny") if form == "diag" else ("unit", "stiff", "imag")
    if etdfull:
        lam = -0.4 * 10 ** rng.uniform(-1, 0, n) / h
        lam = lam * (np.exp(1j * rng.uniform(-1.5, 1.5, n)) if cplx else 1)
    else:
        lam, _ = gen.diag_op(rng, n, h, cplx, bands)
    kind, f0 = gen.nonlinear(rng, n, cplx, gen.log_u(rng, 0.05, 4) / h, kinds=("sat", "sin", "forced", "quad", "cubic"))
    u = gen.cnorm(rng, n, cplx)
    L, f = lam, f0
    if form != "diag":
        S = gen.orthobasis(rng, n, cplx)
        L = S @ np.diag(lam) @ S.conj().T
        f = lambda w: S @ f0(S.conj().T @ w)
        u = S @ u
        if form == "diagonalized" and (np.linalg.cond(L) > 1e6 or np.linalg.cond(np.linalg.eig(L)[1]) > 50):
            raise Inconclusive("ill-conditioned eigenbasis")
    cfgkw = dict(ref.DEFAULT_CFG, epsilon=gen.log_u(rng, 1e-8, 1e-1), adapt_cutoff=float(rng.choice([0.01, 0.0, 0.2, 1e-5])))
    if rng.random() < 0.5:
        cfgkw.update(incr_f=float(rng.uniform(1.02, 2.5)), decr_f=float(rng.uniform(0.3, 0.95)), safety_f=float(rng.uniform(0.4, 1.0)))
    want = ref.ref_step(name, L, u, h, f, cfgkw, form=form, rng=rng, kappa=1.0 if form == "diag" else 30.0)
    s = pkg.make(name, L, gen.NL(f), form, pkg.SolverConfig(**cfgkw))
    out = do_step(s, u, h)
    mon.count("reference_steps")
    mon.note(kind="reference", solver=name, form=form, N=kind, attempts=[a[0] for a in want["attempts"]], outcome=want["kind"])
    mon.key(name, form, kind, len(want["attempts"]), want["kind"], cplx)
    tag = "%s/%s" % (name, form)
    if want["kind"] != "ok":
        mon.check(out == want["kind"], tag + ": step should have ended with " + want["kind"], got=str(out)[:80])
        return
    if not mon.check(isinstance(out, tuple), tag + ": step failed although an attempt meets the tolerance", got=str(out), attempts=want["attempts"]):
        return
    un, hu, hn = out
    mon.count("reference_attempts", len(want["attempts"]))
    if not mon.check(abs(hu - want["h"]) <= 2e-4 * want["h"] if len(want["attempts"]) > 1 else hu == h, tag + ": accepted step size differs from the reference controller", got=hu, want=want["h"], attempts=want["attempts"]):
        return
    lo, hi = want["hnext"]
    mon.check(lo * (1 - 1e-3) <= hn <= hi * (1 + 1e-3), tag + ": suggested step differs from the reference controller", got=hn, want=[lo, hi], h=hu, attempts=want["attempts"])
    if len(want["attempts"]) == 1:
        probe.close(mon, un, want["unew"], want["tol"], tag + ": accepted state differs from the reference")


def calibrated(rng, mon, idx):
    """The ETD error estimates themselves, observed through the suggested step (C02 does this for the IF solvers)."""
    name = ("ETD34", "ETD35")[idx % 2]
    cplx = bool(rng.random() < 0.6)
    n = gen.size(rng, 1, 9, 4000)
    h = gen.log_u(rng, 1e-3, 3)
    L, bs = gen.diag_op(rng, n, h, cplx)
    kind, f = gen.nonlinear(rng, n, cplx, rng.uniform(0.1, 0.8) / h)
    uk, u = gen.state(rng, n, cplx)
    want, tol, err, te = ref.attempt(name, L, h, u, f, rng=rng)
    if not np.all(np.isfinite(want)) or np.max(np.abs(want)) > 1e6 or np.max(np.abs(want)) == 0:
        raise Inconclusive("solution grows out of range")
    star = float(rng.uniform(1.2, 3.8))
    co = float(rng.choice([0.0, 1e-6, 0.01, 0.3]))
    m = np.abs(want)
    mx = m.max()
    sel = m > co * mx
    ne, nu = np.linalg.norm(err[sel]), np.linalg.norm(want[sel])
    if np.any(np.abs(m / mx - co) < 1e-9 + 8 * tol / mx) or ne == 0 or np.linalg.norm(te[sel]) > 1e-2 * ne:
        raise Inconclusive("estimate at rounding level")
    s = pkg.make(name, L, gen.NL(f), config=pkg.SolverConfig(epsilon=(star / 0.8) ** 4 * ne / nu, incr_f=1.01, adapt_cutoff=co))
    un, hu, hn = s.step(u, h)
    mon.count("error_estimates_observed")
    rel = 2 * np.linalg.norm(te[sel]) / ne + 1e-9
    mon.check(hu == h, "step with factor > 1 not taken as proposed", h=h, used=hu, s=star)
    mon.check(abs(hn / hu - star) <= rel * star, "%s: suggested step does not match the published error estimate" % name, want=star, got=hn / hu, rel=rel, bands=bs)
    mon.key(name, bs, kind, uk, co, cplx)


C.stratum("scripted", 1500, 60000, fn=scripted)
C.stratum("real", 600, 20000, fn=real)
C.stratum("runs", 100, 2500, fn=runs)
C.stratum("reference", 500, 15000, fn=versus_reference)
C.stratum("calibrated", 500, 15000, fn=calibrated)
C.require("attempts_judged", "steps_judged", "reference_steps", "error_estimates_observed", "accepted_steps_judged")

if __name__ == "__main__":
    sys.exit(C.main())
