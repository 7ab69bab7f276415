"""C10: evolve and reset leave no trace of earlier use (dirty solver versus new solver, bitwise)."""
import sys
import numpy as np
from rkv import pkg, gen, probe
from rkv.harness import Check, Inconclusive

C = Check("C10", "a solver is driven through a random history (runs, steps, rejected steps, failures, interruptions, setting changes), then evolve, or reset and steps, is compared bit for bit with a newly "
          "built solver, including times, states, step sizes and evaluation counts; non-trivial = at least one earlier operation took a step; distinct by solver, form, operation sequence and observed run",
          assumptions=["the nonlinear function is deterministic", "one and the same machine and library build, so equal operations give equal bits"])


class Boom(Exception):
    pass


def rand_etd(rng):
    return dict(modecutoff=float(rng.choice([0.01, 0.05, 0.3, 1.0, 1e-3])), contour_points=int(rng.choice([16, 32, 48, 64])), contour_radius=float(rng.choice([0.5, 1.0, 2.0])))


def setcfg(obj, kw):
    for k, v in kw.items():
        setattr(obj, k, v)


def good(name, form):
    """Settings for the observed run: moderate."""
    return dict(modecutoff=0.01, contour_points=32, contour_radius=1.0)


def prepare(rng, name, form):
    p = probe.Prob(rng, name, form)
    scfg = dict(epsilon=gen.log_u(rng, 1e-7, 1e-3), incr_f=float(rng.uniform(1.05, 2)), decr_f=float(rng.uniform(0.5, 0.95)), safety_f=float(rng.uniform(0.5, 1.0)),
                adapt_cutoff=float(rng.choice([0.0, 0.01, 0.1])), minh=1e-14)
    ecfg = rand_etd(rng) if (rng.random() < 0.4 and form == "diag") else good(name, form)
    return p, scfg, ecfg


def build(p, N, scfg, ecfg):
    return p.solver(N, rec=True, config=pkg.SolverConfig(**scfg), etd_config=pkg.ETDConfig(**ecfg))


def apply(s, scfg, ecfg):
    if hasattr(s, "config"):
        setcfg(s.config, scfg)
    if hasattr(s, "etd_config"):
        setcfg(s.etd_config, ecfg)


def hpick(rng, p, hobs):
    """Step sizes of the history: often the observed one, or close to it."""
    k = rng.integers(5)
    h = hobs if k == 0 else (hobs * (1 + 1e-15) if k == 1 else (hobs / 2 if k == 2 else hobs * float(rng.uniform(0.1, 3))))
    return min(h, p.hmax)


def operate(rng, mon, s, N, p, hobs, scfg, ecfg):
    ops = ("evolve", "evolve", "steps", "steps", "fault", "fault", "tight", "reset", "config", "etdconfig", "nanstep", "zero", "otherdtype", "evolvefault")
    op = ops[rng.integers(len(ops))]
    adaptive = hasattr(s, "config")
    u = gen.cnorm(rng, p.n, p.cplx) * float(10 ** rng.uniform(-3, 0.3))
    if rng.random() < 0.3:
        u = p.u0
    h = hpick(rng, p, hobs)
    try:
        if op == "evolve":
            t0 = float(rng.choice([0.0, 1.0, -2.0]))
            kw = dict(store_data=bool(rng.random() < 0.6))
            if adaptive:
                s.evolve(u, t0, t0 + 8 * h, h_init=None if rng.random() < 0.3 else h, **kw)
            else:
                s.evolve(u, t0, t0 + int(rng.integers(1, 6)) * h, h, **kw)
        elif op in ("steps", "zero", "otherdtype"):
            if op == "zero":
                u = np.zeros_like(u)
            if op == "otherdtype":
                u = np.real(u).astype(np.float32)
            for _ in range(int(rng.integers(1, 5))):
                r = s.step(u, h)
                u, h = (r[0], r[2]) if adaptive else (r, h if rng.random() < 0.7 else hpick(rng, p, hobs))
                h = min(h, p.hmax, 10 * hobs)
        elif op == "fault":
            for _ in range(int(rng.integers(0, 3))):
                r = s.step(u, h)
                u = r[0] if adaptive else r
            N.fault_at = {N.calls + int(rng.integers(1, 8)): Boom()}
            s.step(u, h)
            N.fault_at = {}
        elif op == "evolvefault":
            N.fault_at = {N.calls + int(rng.integers(1, 40)): Boom()}
            if adaptive:
                s.evolve(u, 0.0, 10 * h, h_init=h)
            else:
                s.evolve(u, 0.0, 5 * h, h)
            N.fault_at = {}
        elif op == "tight" and adaptive:
            setcfg(s.config, dict(epsilon=1e-13, minh=h / 3, decr_f=0.9))
            for _ in range(2):
                s.step(u, h)
        elif op == "nanstep":
            N.fault_at = {}
            u = u.copy()
            u[0] = np.nan if rng.random() < 0.5 else np.inf
            s.step(u, h)
        elif op == "reset":
            s.reset()
        elif op == "config" and adaptive:
            setcfg(s.config, dict(epsilon=gen.log_u(rng, 1e-6, 1e-1), incr_f=float(rng.uniform(1.01, 3)), adapt_cutoff=float(rng.uniform(0, 0.5))))
        elif op == "etdconfig" and hasattr(s, "etd_config") and p.form == "diag":
            setcfg(s.etd_config, rand_etd(rng))
    except (Boom, pkg.BaseSolverAS.SolverError) as e:
        mon.count("failed_operations")
        op += "!" + type(e).__name__[:3]
    finally:
        N.fault_at = {}
    mon.count("history_operations")
    return op


def observe(rng_seed, s, N, p, hobs, mode):
    """The observed run: a pure function of (solver, arguments)."""
    adaptive = hasattr(s, "config")
    c0 = N.calls
    s.rec_steps.clear()
    s.rec_attempts.clear()
    out = []
    if mode == "evolve":
        t0 = 0.5
        kw = [dict(), dict(store_data=False), dict(store_freq=3)][rng_seed // 2 % 3]
        try:
            if adaptive:
                # the default first step is used for half of the observed runs
                r = s.evolve(p.u0, t0, t0 + 12 * hobs, **({} if rng_seed % 2 else dict(h_init=hobs)), **kw)
            else:
                r = s.evolve(p.u0, t0, t0 + 5 * hobs, hobs, **kw)
        except pkg.BaseSolverAS.SolverError as e:
            r = np.array([np.nan])
            out.append(type(e).__name__)
        out += [np.array(r), np.array(s.t, dtype=float), np.array(s.u)]
    else:
        s.reset()
        assert_empty = (len(s.t), len(s.u))
        out.append(np.array(assert_empty))
        u, h = p.u0, hobs
        rng = np.random.default_rng(rng_seed)
        for _ in range(4):
            try:
                r = s.step(u, h)
            except pkg.BaseSolverAS.SolverError as e:
                out.append(type(e).__name__)
                break
            if adaptive:
                u, h = r[0], min(r[2], p.hmax)
                out += [np.array(r[0]), np.array(r[1:])]
            else:
                u = r
                out.append(np.array(r))
                if rng.random() < 0.4:
                    h = hobs * 0.5
    out.append(np.array([a[0] for a in s.rec_attempts]))
    out.append(np.array(N.calls - c0))
    return out


def case(rng, mon, idx):
    name, form = probe.pick_form(rng, idx)
    p, scfg, ecfg = prepare(rng, name, form)
    hobs = min(gen.log_u(rng, 0.01, 0.3), p.hmax)
    mode = "evolve" if rng.random() < 0.5 else "steps"
    seed = int(rng.integers(1 << 30))
    N1, N2 = p.N(), p.N()
    new = build(p, N2, scfg, ecfg)
    dirty = build(p, N1, scfg, ecfg)
    ops = [operate(rng, mon, dirty, N1, p, hobs, scfg, ecfg) for _ in range(int(rng.integers(1, 6)))]
    took = len(dirty.rec_attempts)
    apply(dirty, scfg, ecfg)
    kept = [(np.array(x, copy=True)) for x in dirty.u]
    a = observe(seed, dirty, N1, p, hobs, mode)
    b = observe(seed, new, N2, p, hobs, mode)
    mon.count("attempts_before", took)
    mon.count("observed_runs_" + mode)
    mon.note(solver=name, form=form, history=ops, mode=mode, h=hobs)
    if took:
        mon.key(name, form, ops, mode)
    if mode == "steps":
        mon.check(not a[0].any(), "reset left stored times or states", lens=a[0])
    if not mon.check(len(a) == len(b), "%s/%s: outcome differs in kind from a new solver's" % (name, form), history=ops, got=[str(x)[:40] for x in a], want=[str(x)[:40] for x in b]):
        return
    for k, (x, y) in enumerate(zip(a, b)):
        mon.count("values_compared", np.size(y))
        okay = (x == y) if isinstance(x, str) or isinstance(y, str) else gen.same(x, y)
        if not mon.check(okay, "%s/%s: %s after an earlier use differs from a new solver's" % (name, form, mode), history=ops, item=k, got=x, want=y,
                         maxdiff=None if isinstance(x, str) or np.shape(x) != np.shape(y) else float(np.max(np.abs(x - y), initial=0))):
            return


def second(rng, mon, idx):
    """The same solver observed twice in a row, and then after reset, must repeat itself."""
    name, form = probe.pick_form(rng, idx)
    p, scfg, ecfg = prepare(rng, name, form)
    hobs = min(gen.log_u(rng, 0.01, 0.3), p.hmax)
    N = p.N()
    s = build(p, N, scfg, ecfg)
    seq = [("evolve", "steps")[rng.integers(2)] for _ in range(5)]
    first = {}
    mon.key(name, form, seq)
    for k, mode in enumerate(seq):
        o = observe(7, s, N, p, hobs, mode)
        if rng.random() < 0.3:
            s.reset()
            mon.check(len(s.t) == 0 and len(s.u) == 0, "reset left stored times or states", n=len(s.t))
        mon.count("repeats")
        if mode not in first:
            first[mode] = o
            continue
        for x, y in zip(o, first[mode]):
            okay = (x == y) if isinstance(x, str) or isinstance(y, str) else gen.same(x, y)
            if not mon.check(okay and len(o) == len(first[mode]), "%s/%s: repeating the same %s gives another result" % (name, form, mode), sequence=seq, at=k, got=x, want=y):
                return


C.stratum("dirty", 2000, 30000, fn=case)
C.stratum("repeat", 150, 4000, fn=second)
C.require("history_operations", "failed_operations", "observed_runs_evolve", "observed_runs_steps", "values_compared", "repeats")

if __name__ == "__main__":
    sys.exit(C.main())
