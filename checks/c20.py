"""C20: finite problems stay finite and non-finite states are never accepted."""
import sys
import numpy as np
from rkv import pkg, gen, probe
from rkv.harness import Check, Inconclusive
from rkv.probe import Scripted, judge_step, do_step

C = Check("C20", "floating-point sanitizer: numpy's overflow, division and invalid-operation traps raise while every solver steps over operators with non-positive real parts of magnitudes 1e-300 to 1e100 (times h), bounded nonlinear terms; NaN/Inf injected at every "
          "evaluation of an adaptive attempt (transient, persistent, by region, in one or all entries), overflowing problems, scripted attempts with non-finite entries anywhere, all cutoffs; monitor: nothing non-finite returned or stored, steps shortened, documented errors only; "
          "non-trivial = a magnitude pattern, or an injection that was reached; distinct by solver, form, pattern",
          assumptions=["full and diagonalized matrices up to |hL| = 1e8 (beyond, rounding of the matrix itself gives eigenvalues with positive real part)", "underflow is not an error"])
TRAPS = dict(over="raise", divide="raise", invalid="raise", under="ignore")
DOCUMENTED = ("MaxLoopsExceeded", "MinimumStepReached")


def mags(rng, n, hi, flavour):
    if flavour == "same":
        m = np.full(n, 10 ** rng.uniform(-3, hi))
    elif flavour == "spread":
        m = 10 ** rng.uniform(-4, hi, n)
    elif flavour == "tiny":
        m = 10 ** rng.uniform(-300, -2, n)
    elif flavour == "mixed":
        m = np.where(rng.random(n) < 0.4, 0.0, 10 ** rng.uniform(-20, hi, n))
    elif flavour == "switch":
        m = 0.01 * (1 + rng.choice([-1e-15, 0, 1e-15, -1e-8, 1e-8], n))
    elif flavour == "exp-limit":
        m = rng.choice([700.0, 709.7, 710, 720, 745, 746, 1000, 1500, 3000], n)
    else:
        m = np.full(n, 10.0 ** hi)
    return m


FL = ("same", "spread", "tiny", "mixed", "switch", "exp-limit", "max")


def operator(rng, n, h, cplx, form, flavour, etd):
    hi = 100 if form == "diag" else 8
    if form == "full" and etd:
        hi = 3
    m = mags(rng, n, hi, flavour)
    if form != "diag":
        m = np.minimum(m, 10.0 ** hi)
        if form == "diagonalized":
            m = np.maximum(m, 1e-3 * np.max(m) if np.max(m) > 0 else 1.0)
    if cplx:
        k = rng.integers(3)
        ph = np.full(n, 1j) if k == 0 else np.exp(1j * rng.uniform(np.pi / 2, 3 * np.pi / 2, n)) if k == 1 else np.where(rng.random(n) < 0.5, -1.0, -1j)
        lam = m * ph
        lam = -np.abs(lam.real) + 1j * lam.imag
    else:
        lam = -m
    with np.errstate(all="ignore"):
        lam = lam / h
    if not np.all(np.isfinite(lam)):
        raise Inconclusive("operator not representable")
    if form == "diag":
        return lam
    if rng.random() < 0.2 and not cplx:
        return np.diag(lam)
    if rng.random() < 0.3:
        B = gen.structured(rng, n, cplx)[1]
        if form == "diagonalized" and np.linalg.cond(np.linalg.eig(B)[1]) > 1e6:
            raise Inconclusive("no usable eigenbasis")
        return (B - np.eye(n)) * min(0.2 if etd else 50.0, float(np.max(np.abs(lam))) * h) / h
    Q = gen.orthobasis(rng, n, cplx)
    return Q @ np.diag(lam) @ np.conj(Q.T)


def finite(rng, mon, idx):
    name, form = probe.pick_form(rng, idx)
    fl = FL[(idx // 16) % len(FL)]
    cplx = bool(rng.random() < 0.6)
    n = gen.size(rng, 1, 6, 3000, 0.08) if form == "diag" else gen.size(rng, 2, 5, 48, 0.08)
    h = float(rng.choice([1.0, gen.log_u(rng, 1e-8, 1e2)]))
    L = operator(rng, n, h, cplx, form, fl, name in pkg.ETDS)
    kind, f = gen.nonlinear(rng, n, cplx, gen.log_u(rng, 1e-2, 10), kinds=("sat", "sin"))
    zero = rng.random() < 0.15
    if zero:
        kind, f = "zero", (lambda u: 0 * u)
    amp = float(rng.choice([0, 0, 0, -5, -30, 10, -200, 170, 280]))
    if abs(amp) > 100 and not zero:
        kind, f = "bounded", (lambda u: 0.3 * u / (1 + np.abs(u)))
    u = gen.cnorm(rng, n, cplx) * 10 ** amp
    if rng.random() < 0.1:
        u = u * 0
    cfg = pkg.SolverConfig(epsilon=gen.log_u(rng, 1e-8, 1e-2), adapt_cutoff=float(rng.choice([0.01, 0.0, 0.5, 1e-8])))
    with np.errstate(**TRAPS):
        try:
            s = p = pkg.make(name, L, gen.NL(f), form, cfg)
        except ValueError as e:
            if form == "diagonalized":
                raise Inconclusive("operator refused by diagonalize=True")
            raise
        hk = h
        for k in range(4):
            if pkg.is_as(name):
                r = do_step(s, u, hk)
                if isinstance(r, str):
                    mon.count("outcome " + r)
                    mon.check(False if kind == "zero" else True, "%s/%s: step of a linear problem fails" % (name, form), outcome=r, L=L, h=hk)
                    break
                u, hu, hn = r
                hk = min(float(hn), h)
            else:
                u = s.step(u, hk)
            mon.count("finite_steps")
            if not mon.check(np.all(np.isfinite(u)), "%s/%s: non-finite result for a finite problem" % (name, form), got=u, L=L, h=h, N=kind):
                return
    mon.key(name, form, fl, cplx, kind, amp, L)
    mon.note(solver=name, form=form, flavour=fl, N=kind, h=h)


def evolves(rng, mon, idx):
    """Whole runs under the traps."""
    name, form = probe.pick_form(rng, idx)
    fl = FL[(idx // 16) % len(FL)]
    cplx = bool(rng.random() < 0.6)
    n = gen.size(rng, 2, 5, 48, 0.08)
    L = operator(rng, n, 0.05, cplx, form, fl, name in pkg.ETDS)
    if form == "full" and name in pkg.ETDS:
        nr = np.linalg.norm(L, 2)
        L = L * (0.4 / (nr * 0.05)) if nr * 0.05 > 0.4 else L
    kind, f = gen.nonlinear(rng, n, cplx, 1.0, kinds=("sat", "sin"))
    N = gen.NL(f, budget=60000)
    with np.errstate(**TRAPS):
        try:
            s = pkg.make(name, L, N, form, pkg.SolverConfig(epsilon=1e-4, incr_f=1e9) if form == "full" else pkg.SolverConfig(epsilon=1e-4))
        except ValueError:
            raise Inconclusive("operator refused by diagonalize=True")
        try:
            if pkg.is_as(name):
                s.evolve(gen.cnorm(rng, n, cplx), 0.0, 1.0, h_init=0.05)
            else:
                s.evolve(gen.cnorm(rng, n, cplx), 0.0, 1.0, h=0.05)
        except gen.BudgetExceeded:
            raise Inconclusive("run too long")
        except getattr(s, "SolverError", ()) as e:
            mon.count("outcome evolve " + type(e).__name__)
        for w in s.u:
            mon.check(np.all(np.isfinite(w)), "%s/%s: non-finite state stored for a finite problem" % (name, form), got=w, L=L)
        mon.count("evolve_states", len(s.u))
    mon.key(name, form, fl, cplx, kind, L)


BAD = (np.nan, np.inf, -np.inf, complex(np.nan, 0), complex(0, np.inf), complex(np.inf, np.nan), 1.7e308, -1.7e308)
MODES = ("transient", "persistent", "region", "from", "overflow", "growth")


def inject(rng, mon, idx):
    name, form = probe.pick_form(rng, idx, [(n, f) for n in pkg.AS for f in pkg.forms_of(n)])
    mode = MODES[(idx // 7) % len(MODES)]
    p = probe.Prob(rng, name, form, stiff=False)
    bad = BAD[rng.integers(len(BAD))]
    if isinstance(bad, complex) and not p.cplx:
        bad = np.nan
    allent = rng.random() < 0.4
    where = int(rng.integers(p.n))
    at = int(rng.integers(1, 24))
    thr = float(rng.uniform(0.2, 3)) * np.max(np.abs(p.u0))
    cfg, kw = probe.rand_config(rng)
    cfg.adapt_cutoff = float(rng.choice([0.01, 0.0, -1.0, -1e-9, 0.5, 0.99]))
    cfg.minh = gen.log_u(rng, 1e-16, 1e-6) if rng.random() < 0.5 else 1e-60
    cnt, hit = [0], [0]

    def spoil(v):
        hit[0] += 1
        v = np.array(v, dtype=complex if p.cplx else float)
        if allent:
            v[:] = bad
        else:
            v[where] = bad
        return v

    def f(u):
        cnt[0] += 1
        v = p.f(u)
        if mode == "transient":
            return spoil(v) if cnt[0] == at else v
        if mode == "persistent":
            return spoil(v)
        if mode == "from":
            return spoil(v) if cnt[0] >= at else v
        if mode == "region":
            return spoil(v) if not np.max(np.abs(u)) < thr else v
        if mode == "overflow":
            return u * np.exp(np.minimum(np.abs(u), 1e3) * 40)
        return v + 10.0 ** at * u
    N = gen.NL(f, budget=20000)
    big = mode == "growth" and form == "diag"
    L = p.L
    if big:
        L = np.array(p.L) + np.where(np.arange(p.n) == where, 10 ** float(rng.uniform(2, 6)), 0)
    with np.errstate(all="ignore"):
        s = probe.make_rec(name, L, N, form, cfg)
        u, hk = p.u0, float(min(p.hmax, gen.log_u(rng, 1e-3, 50)))
        for k in range(6):
            h0 = hk
            s.rec_attempts.clear()
            h_before = hit[0]
            try:
                r = do_step(s, u, hk)
            except gen.BudgetExceeded:
                mon.viol("%s/%s: step does not end" % (name, form), mode=mode, bad=str(bad))
                return
            except (ValueError, np.linalg.LinAlgError):
                raise Inconclusive("linear algebra refused non-finite input")
            mon.count("injected_steps")
            att = s.rec_attempts
            nonf = [not (np.all(np.isfinite(a[1]))) for a in att]
            mon.count("non_finite_attempts", int(sum(nonf)))
            for (a, b), nf in zip(zip(att, att[1:]), nonf):
                mon.check(not nf or b[0] < a[0], "%s/%s: step not shortened after a non-finite attempt" % (name, form), h=a[0], next=b[0])
            if isinstance(r, str):
                mon.count("outcome " + r)
                break
            u, hu, hn = r
            if not mon.check(np.all(np.isfinite(u)), "%s/%s: non-finite state accepted" % (name, form), got=u, mode=mode, bad=str(bad), cutoff=cfg.adapt_cutoff, h=hu):
                return
            mon.check(np.isfinite(hu) and np.isfinite(hn) and 0 < hu <= h0 and hn > 0, "%s/%s: step size not finite and positive" % (name, form), h=hu, hn=hn)
            if mode == "transient" and hit[0] > h_before and any(nonf):
                mon.count("recovered_from_transient")
                mon.check(hu < h0, "%s/%s: step not shortened after a non-finite attempt" % (name, form), h=hu, h0=h0)
            hk = min(float(hn), p.hmax)
    if hit[0] or mode in ("overflow", "growth"):
        mon.key(name, form, mode, str(bad), allent, at, cfg.adapt_cutoff)
    mon.note(solver=name, form=form, mode=mode, bad=str(bad), hits=hit[0])


def scripted(rng, mon, idx):
    """Attempts with non-finite entries anywhere in state or estimate."""
    n = gen.size(rng, 1, 5, 3000, 0.15)
    cplx = bool(rng.random() < 0.5)
    cfg, kw = probe.rand_config(rng)
    cfg.adapt_cutoff = float(rng.choice([0.01, 0.0, -1.0, -1e-9, 0.5, 0.99]))
    cfg.minh = 1e-30
    good = int(rng.integers(0, 12))
    pats = []

    def mk(k, u, h):
        un = gen.cnorm(rng, n, cplx)
        er = np.zeros(n) + cfg.epsilon * np.linalg.norm(un) / np.sqrt(n) * 1e-6 * (rng.random() < 0.8)
        if k >= good:
            return un, er
        w = rng.integers(3)
        b = [x for x in BAD[:6] if cplx or not isinstance(x, complex)]
        b = b[rng.integers(len(b))]
        i = rng.integers(n)
        if w == 0 or w == 2:
            un = un.astype(complex if cplx else float)
            un[i] = b
            if rng.random() < 0.2:
                un[:] = b
        if w in (1, 2):
            er = er.astype(complex if cplx else float)
            i = int(np.argmax(np.abs(un))) if w == 1 else i
            er[i] = b
        pats.append((int(w), str(b)))
        return un, er
    with np.errstate(all="ignore"):
        s = Scripted(mk, int(rng.integers(3, 6)), cfg, n)
        out = do_step(s, np.ones(n), 1.0)
        mon.count("scripted_steps")
        mon.count("scripted_non_finite_attempts", len(pats))
        if isinstance(out, tuple):
            if not mon.check(np.all(np.isfinite(out[0])), "non-finite state accepted", got=out[0], pats=pats[-1:], cutoff=cfg.adapt_cutoff):
                return
            mon.check(len(s.attempts) == good + 1, "attempt with a non-finite %s accepted" % ("state" if good else "value"), attempts=len(s.attempts), want=good + 1, pats=pats[-1:])
            mon.check(good == 0 or out[1] <= 0.85 * 1.0 ** good or out[1] < 1.0, "step not shortened", h=out[1])
        else:
            mon.check(out in DOCUMENTED, "undocumented outcome", outcome=out)
    if pats:
        mon.key(pats, cfg.adapt_cutoff)


C.stratum("finite", 1120, 24000, fn=finite)
C.stratum("evolve", 224, 4000, fn=evolves)
C.stratum("inject", 840, 24000, fn=inject)
C.stratum("scripted", 800, 20000, fn=scripted)
C.require("finite_steps", "evolve_states", "injected_steps", "non_finite_attempts", "recovered_from_transient", "scripted_non_finite_attempts", "outcome MaxLoopsExceeded", "outcome MinimumStepReached")

if __name__ == "__main__":
    sys.exit(C.main())
