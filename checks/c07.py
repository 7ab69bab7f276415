"""C07: step-size control obeys its factors and always terminates."""
import sys
import numpy as np
from rkv import pkg, gen, probe
from rkv.harness import Check, Inconclusive
from rkv.probe import Scripted, judge_step, do_step, rand_config

C = Check("C07", "online monitor of the step-size factors over scripted decision sequences (long rejections, alternations, non-finite estimates, threshold values, zero proposals) and over real solvers fed "
          "hostile nonlinear terms (NaN/Inf bursts, noise, discontinuities, explosions, sign flips); non-trivial = at least one rejection or exception; distinct by decision sequence and source",
          assumptions=["MAX_LOOPS = 50 as documented by the class attribute"])
MODES = ("reject-forever-s", "reject-forever-nan", "reject-k-then-accept", "alternating", "near-one", "decreasing", "random", "minh", "zero-h", "inf")


def scripted(rng, mon, idx):
    mode = MODES[idx % len(MODES)]
    n = int(rng.integers(1, 6))
    cfg, kw = rand_config(rng, wild=True)
    cfg.adapt_cutoff = min(cfg.adapt_cutoff, 0.5)
    if mode in ("reject-forever-s", "reject-k-then-accept", "near-one") or rng.random() < 0.3:
        cfg.minh = 1e-300
    q = int(rng.integers(3, 6))
    kacc = int(rng.integers(0, 53))
    base = float(rng.uniform(0.01, 0.999))
    h0 = gen.log_u(rng, 1e-6, 1e3) if rng.random() < 0.7 else gen.log_u(rng, 1e-200, 1e100)
    if mode == "minh":
        cfg.minh = h0 * float(rng.choice([0.9, 0.5, 0.1, 1.5, 0.24, 0.26]))
    if mode == "zero-h":
        h0 = 0.0

    def factor(k):
        if mode == "reject-forever-s":
            return base
        if mode in ("reject-forever-nan", "zero-h"):
            return None if mode == "reject-forever-nan" else float(rng.choice([0.5, 2.0, np.inf]))
        if mode == "reject-k-then-accept":
            return base if k < kacc else float(rng.uniform(1, 6))
        if mode == "alternating":
            return [base, None][k % 2] if k < 30 else 1.5
        if mode == "near-one":
            return 1 - gen.log_u(rng, 1e-7, 1e-2) if k < kacc else 1 + gen.log_u(rng, 1e-7, 1e-2)
        if mode == "decreasing":
            return base ** (k + 1) if k < 12 else 10.0
        if mode == "inf":
            return 0.0 if k < kacc else np.inf
        return float(rng.choice([0.1, 0.3, 0.7, 0.95, 1.01, 1.3, 3.9, 5.0]))

    def mk(k, u, h):
        un = gen.cnorm(rng, n, bool(k % 2))
        er = np.abs(gen.cnorm(rng, n, False)) + 0.1
        s = factor(k)
        if s is None:
            er[rng.integers(n)] = np.nan
            if n > 1 and rng.random() < 0.5:
                er[:] = np.nan
            else:
                er[np.argmax(np.abs(un))] = np.nan
            return un, er
        if s == 0.0:
            return un, np.full(n, np.inf)
        if np.isinf(s):
            return un, np.zeros(n)
        sel = np.abs(un) > cfg.adapt_cutoff * np.abs(un).max()
        er = er / np.linalg.norm(er[sel]) * cfg.epsilon * np.linalg.norm(un[sel]) * (cfg.safety_f / s) ** q
        return un, er
    s = Scripted(mk, q, cfg, n)
    seqs = []
    for _ in range(int(rng.integers(1, 4))):
        s.attempts.clear()
        out = do_step(s, np.ones(n), h0)
        d = judge_step(mon, list(s.attempts), out, h0, cfg, q, "scripted " + mode)
        seqs.append(tuple(d))
        mon.count("steps_judged")
        mon.count("outcome " + (out if isinstance(out, str) else "accepted"))
        for x in set(d):
            mon.count("decision " + x)
        if mon.viols:
            break
        if isinstance(out, tuple):
            mon.check(0 < out[1] <= h0, "step larger than proposed or not positive", h=out[1], proposed=h0)
            mon.check(out[2] >= out[1], "suggestion smaller than the accepted step", h=out[1], next=out[2])
            mon.check(out[2] <= 4 * out[1] * (1 + 1e-12), "suggestion more than 4 times the accepted step", h=out[1], next=out[2])
            if mode != "zero-h":
                h0 = out[2]
    if any(len(x) > 1 for x in seqs) or mode == "zero-h":
        mon.key(mode, seqs)
    mon.note(mode=mode, cfg=kw, decisions=[s[:12] for s in seqs])


HOSTILE = ("nan", "inf", "noise", "jump", "explode", "flip", "nan-late", "huge", "nan-stage", "one-mode-inf")


def hostile(rng, mon, idx):
    name, form = probe.pick_form(rng, idx, [(n, f) for n in pkg.AS for f in pkg.forms_of(n)])
    hk = HOSTILE[(idx // 8) % len(HOSTILE)]
    p = probe.Prob(rng, name, form)
    cfg, kw = rand_config(rng)
    if rng.random() < 0.3:
        cfg.minh = 1e-300
    nrng = np.random.default_rng(rng.integers(1 << 30))
    n = p.n
    thr = gen.log_u(rng, 0.1, 10)
    when = int(rng.integers(1, 12))
    cnt = [0]

    def f(u):
        cnt[0] += 1
        if hk == "nan":
            return np.full(n, np.nan)
        if hk == "inf":
            return np.where(np.arange(n) == 0, np.inf, 0 * u)
        if hk == "noise":
            return thr * nrng.standard_normal(n)
        if hk == "jump":
            return thr * 50 * np.sign(np.real(u) - 0.3)
        if hk == "explode":
            return np.exp(np.minimum(np.abs(u) * 30, 700)) * u
        if hk == "flip":
            return thr * 10 * (-1) ** cnt[0] * np.ones(n)
        if hk == "nan-late":
            return p.f(u) if cnt[0] < when * 3 else p.f(u) * np.nan
        if hk == "huge":
            return 1e300 * u
        if hk == "nan-stage":
            return p.f(u) if np.max(np.abs(u - p.u0)) < 0.05 * thr else np.full(n, np.nan)
        v = p.f(u).astype(complex if p.cplx else float)
        v[n - 1] = np.inf
        return v
    N = gen.NL(f, budget=5000)
    with np.errstate(all="ignore"):
        s = p.solver(N=N, rec=True, config=cfg)
        u = p.u0
        h0 = float(min(p.hmax, gen.log_u(rng, 1e-3, 10)))
        seqs = []
        for k in range(int(rng.integers(1, 5))):
            s.rec_attempts.clear()
            c0 = N.calls
            try:
                out = do_step(s, u, h0)
            except gen.BudgetExceeded:
                mon.viol("step does not end", attempts=len(s.rec_attempts))
                return
            except (ValueError, np.linalg.LinAlgError) as e:
                raise Inconclusive("linear algebra refused non-finite input")
            mon.check(N.calls - c0 <= 51 * 7 + 2, "implausibly many nonlinear evaluations in one step", calls=N.calls - c0)
            mon.count("hostile_steps")
            mon.count("outcome " + (out if isinstance(out, str) else "accepted"))
            if isinstance(out, tuple):
                mon.check(np.all(np.isfinite(out[0])), "non-finite state accepted", unew=out[0], hostile=hk, solver=name, form=form)
                mon.check(0 < out[1] <= h0, "step larger than proposed or not positive", h=out[1], proposed=h0)
            if s.rec_attempts:
                big = max(float(np.max(np.abs(x[1]))) if np.all(np.isfinite(x[1])) else 0 for x in s.rec_attempts)
                if big < 1e100:
                    seqs.append(tuple(judge_step(mon, list(s.rec_attempts), out, h0, cfg, pkg.Q[name], "%s/%s %s" % (name, form, hk))))
            if mon.viols or not isinstance(out, tuple):
                break
            u, _, h0 = out
            h0 = min(float(h0), p.hmax)
        mon.key(name, form, hk, seqs)
        mon.note(hostile=hk, solver=name, form=form, decisions=[q[:10] for q in seqs])


def evolve_hostile(rng, mon, idx):
    """evolve on hostile terms: ends normally at tf with finite states or raises a documented error."""
    name, form = probe.pick_form(rng, idx, [(n, f) for n in pkg.AS for f in pkg.forms_of(n)])
    p = probe.Prob(rng, name, form)
    tb = float(rng.uniform(0.05, 0.8))
    hk = ("blowup", "nan-region", "inf-region")[idx % 3]

    def f(u):
        if hk == "blowup":
            return 5 * u * np.abs(u) ** 2
        bad = np.max(np.abs(u)) > 1.5 * np.max(np.abs(p.u0)) or np.max(np.abs(u)) < tb * np.max(np.abs(p.u0))
        return p.f(u) + (np.nan if hk == "nan-region" else np.inf) * bad if bad else p.f(u)
    N = gen.NL(f, budget=400000)
    with np.errstate(all="ignore"):
        s = p.solver(N=N, config=pkg.SolverConfig(epsilon=1e-4, minh=1e-9))
        try:
            u = s.evolve(p.u0, 0.0, 1.0, h_init=min(0.1, p.hmax))
            mon.check(np.all(np.isfinite(u)), "evolve returned a non-finite state", u=u)
            mon.count("outcome evolve finished")
        except s.SolverError as e:
            mon.count("outcome evolve " + type(e).__name__)
        except gen.BudgetExceeded:
            mon.viol("evolve does not end", t=s.t[-1] if s.t else None)
            return
        except (ValueError, np.linalg.LinAlgError):
            raise Inconclusive("linear algebra refused non-finite input")
        for w in s.u:
            mon.check(np.all(np.isfinite(w)), "non-finite state stored", u=w)
    mon.key(name, form, hk, len(s.t))


C.stratum("scripted", 2500, 80000, fn=scripted)
C.stratum("hostile", 800, 24000, fn=hostile)
C.stratum("evolve-hostile", 96, 1600, fn=evolve_hostile)
C.require("attempts_judged", "steps_judged", "hostile_steps", "outcome MaxLoopsExceeded", "outcome MinimumStepReached", "outcome accepted",
          "decision nonfinite", "decision clamp", "decision decr", "decision scale", "decision grow", "decision keep")

if __name__ == "__main__":
    sys.exit(C.main())
