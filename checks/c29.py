"""C29: the nonlinear term is evaluated the advertised number of times, at stage values of the current step."""
import sys
import numpy as np
from rkv import pkg, ref, gen, probe
from rkv.harness import Check, Inconclusive

C = Check("C29", "step sequences and evolve runs of every solver and operator form with an instrumented nonlinear term that logs every call together with the attempt and step it was made in; the log is checked offline: number of calls per construction, attempt, step and run, first evaluation of a step, reuse after a rejection "
          "(caused by large steps, tight tolerances and injected NaN/inf), arguments equal to the stage values of the published scheme; non-trivial = every attempt judged; distinct by solver, form, problem, h and config",
          assumptions=["stage values are compared to an extended-precision evaluation of the published scheme with 40x the effect of rounding-level perturbations"])
PER = {"ETD4": 4, "IF4": 4, "ETD5": 6, "ETD34": 4, "IF34": 4, "ETD35": 5, "IF45DP": 6}
FORMS = pkg.all_forms()


class Traced:
    """A solver whose attempts and steps are bracketed in the call log."""

    def __init__(self, p, f, config=None, loglevel=None):
        self.log = []          # ("call", arg, value) | ("attempt", h) | ("end", h, unew) | ("step", u, h) | ("ret",)
        self.poison = {}
        tr = self

        def N(u):
            v = f(u)
            k = sum(1 for e in tr.log if e[0] == "call") + 1
            if k in tr.poison:
                v = np.array(v, copy=True)
                v[0] = tr.poison[k]
            tr.log.append(("call", np.array(u, copy=True), v))
            return v
        base = pkg.CLS[p.name]

        class T(base):
            def _update_stages(self, u, h):
                tr.log.append(("attempt", float(h), np.array(u, copy=True)))
                r = super()._update_stages(u, h)
                tr.log.append(("end", float(h), np.array(r[0] if pkg.is_as(p.name) else r, copy=True)))
                return r

            def step(self, u, h):
                tr.log.append(("step", np.array(u, copy=True), float(h)))
                r = super().step(u, h)
                tr.log.append(("ret",))
                return r
        T.__name__ = T.__qualname__ = base.__name__
        T.__module__ = base.__module__
        saved = pkg.CLS[p.name]
        pkg.CLS[p.name] = T
        try:
            self.s = pkg.make(p.name, p.L, N, p.form, config, None, loglevel)
        finally:
            pkg.CLS[p.name] = saved

    @property
    def calls(self):
        return sum(1 for e in self.log if e[0] == "call")


def attempts(log):
    """[[u at start, h, [call args], result, is a new state]] and the number of calls outside attempts."""
    out, cur, stray, done = [], None, 0, True
    for e in log:
        if e[0] == "ret":
            done = True
        elif e[0] == "attempt":
            cur = [e[2], e[1], [], None, done or not out or not gen.same(e[2], out[-1][0])]
            out.append(cur)
            done = False
        elif e[0] == "call":
            if cur is None:
                stray += 1
            else:
                cur[2].append(e[1])
        elif e[0] == "end":
            if cur is not None:
                cur[3] = e[2]
            cur = None
    return out, stray


def stages(p, u, h, rng, kappa):
    """Arguments of the nonlinear term prescribed by the scheme for one attempt (first one first) with tolerances, and the result."""
    runs = [[]]

    def f(v):
        runs[-1].append(np.array(v, copy=True))
        return p.f(v)
    n_err = p.name not in ("ETD5", "ETD35")
    per = {"ETD4": 5, "ETD34": 5, "IF4": 5, "IF34": 5, "IF45DP": 7, "ETD5": 6, "ETD35": 6}[p.name]
    want, tol, _, _ = ref.attempt(p.name, p.L, h, u, f, p.form, None, rng, n_err, kappa)
    a = runs[0]
    base, rest = a[:per], a[per:]
    out = []
    for j in range(per):
        t = 40 * np.finfo(float).eps * np.abs(base[j])
        for i in range(0, len(rest), per):
            t = np.maximum(t, ref.K_TOL * np.abs(rest[i + j] - base[j]))
        t = np.maximum(t, 0.02 * np.max(t))
        out.append((base[j], t))
    if p.name == "ETD5":
        out.append((want, np.maximum(tol, 0.02 * np.max(tol))))
    return out, want, tol


def count_law(mon, p, log, tag, stray_ok=0):
    """Offline rule over one uninterrupted history (one start): calls per attempt."""
    att, stray = attempts(log)
    mon.check(stray == stray_ok, tag + ": nonlinear term evaluated outside the steps", calls=stray)
    for i, (u, h, args, res, new) in enumerate(att):
        extra = 1 if (i == 0 or (p.name == "ETD35" and new)) else 0
        mon.count("attempts_judged")
        if not mon.check(len(args) == PER[p.name] + extra, tag + ": %d evaluations in %s attempt %d instead of %d" % (len(args), "a first" if i == 0 else ("a continued" if new else "a retried"), i, PER[p.name] + extra), h=h):
            return False
        if not new:
            mon.count("retries_judged")
        if extra:
            mon.check(gen.same(args[0], u), tag + ": the first evaluation is not made at the current state", attempt=i, arg=args[0], u=u)
    return True


def still(rng, p):
    """Make the initial state one that does not move: zero, or a steady state."""
    k = rng.integers(3)
    if k == 0:
        p.u0 = np.zeros_like(p.u0)
        p.f, p.kind = (lambda u: np.zeros_like(u)), "zero"
    elif k == 1:
        c = -(p.L * p.u0 if p.form == "diag" else p.L @ p.u0)
        p.f, p.kind = (lambda u: c.copy()), "steady"
    else:
        p.f, p.kind = (lambda u: np.zeros_like(u)), "no nonlinear term"
    return p


def stepper(rng, mon, idx):
    name, form = probe.pick_form(rng, idx, FORMS)
    p = probe.Prob(rng, name, form)
    if rng.random() < 0.15:
        p = still(rng, p)
        mon.count("still_states")
    aso = pkg.is_as(name)
    kappa = 1.0 if form == "diag" else (10 * np.linalg.cond(p.S) ** 2 if form == "diagonalized" else 30.0)
    eps = gen.log_u(rng, 1e-9, 1e-2)
    cfg = pkg.SolverConfig(epsilon=eps) if aso else None
    tr = Traced(p, p.f, cfg)
    tag = "%s/%s" % (name, form)
    mon.check(tr.calls == 0, tag + ": nonlinear term evaluated by the constructor", calls=tr.calls)
    u = np.array(p.u0)
    h = min(gen.log_u(rng, 1e-3, 3), p.hmax)
    for k in range(int(rng.integers(2, 7))):
        if not aso:
            if rng.random() < 0.3:
                h = min(h * float(rng.choice([0.5, 2.0, 1.1])), p.hmax)
            u = tr.s.step(u, h)
        else:
            r = probe.do_step(tr.s, u, h)
            if isinstance(r, str):
                raise Inconclusive(r)
            u, _, h = r
            h = min(h, p.hmax) * float(rng.choice([1.0, 1.0, 4.0, 0.5]))
            h = min(h, p.hmax)
        if not np.all(np.isfinite(u)) or np.max(np.abs(u)) > 1e8:
            break
        if rng.random() < 0.4:
            u = gen.layout(rng, u)          # a copy continues the run as the returned array does
            mon.count("continued_from_a_copy")
    if not count_law(mon, p, tr.log, tag):
        return
    # arguments of every evaluation
    att, _ = attempts(tr.log)
    for i, (u0, h, args, res, _) in enumerate(att[:8]):
        try:
            st, want, tol = stages(p, u0, h, rng, kappa)
        except Inconclusive:
            continue
        if not np.all(np.isfinite(want)) or np.max(tol) > 1e-4 * max(np.max(np.abs(want)), 1e-300):
            mon.count("ill_conditioned_attempts")
            continue
        body = args[1:] if (i == 0 or (name == "ETD35" and len(args) > PER[name])) else args
        left = list(range(1, len(st)))
        for a in body:
            hit = [j for j in left if np.all(np.abs(a - st[j][0]) <= st[j][1])]
            if not mon.check(bool(hit), tag + ": an evaluation is not made at a stage value of the current step", attempt=i, h=h, arg=a, stages=[s[0] for s in st], tol=[s[1] for s in st]):
                return
            left.remove(hit[0])
            mon.count("stage_values_compared")
    # a reset starts anew: one more evaluation, at the new state
    tr.log.clear()
    tr.s.reset()
    mon.check(tr.calls == 0, tag + ": nonlinear term evaluated by reset", calls=tr.calls)
    v = gen.cnorm(rng, p.n, p.cplx)
    r = probe.do_step(tr.s, v, h) if aso else tr.s.step(v, h)
    if not isinstance(r, str):
        count_law(mon, p, tr.log, tag + " after reset")
        a, _ = attempts(tr.log)
        mon.check(gen.same(a[0][2][0], v), tag + " after reset: the first evaluation is not made at the new state")
    mon.key(tag, p.kind, p.cplx, p.n, att[0][1], eps)
    mon.note(solver=tag, attempts=len(att))


def retry(rng, mon, idx):
    """Rejections by a far too large step and by injected NaN/inf values."""
    forms = [x for x in FORMS if pkg.is_as(x[0])]
    name, form = probe.pick_form(rng, idx, forms)
    p = probe.Prob(rng, name, form, stiff=False)
    cfg = pkg.SolverConfig(epsilon=gen.log_u(rng, 1e-11, 1e-5), minh=1e-14)
    tr = Traced(p, p.f, cfg)
    tag = "%s/%s retry" % (name, form)
    u, h = np.array(p.u0), min(float(rng.uniform(0.5, 5)), p.hmax)
    mode = idx // len(forms) % 2
    per = PER[name]
    if mode:
        # poison a few calls after the first evaluation of the state
        for c in rng.choice(np.arange(2, 40), int(rng.integers(1, 6)), replace=False):
            if name == "ETD35" and int(c) == 1:
                continue
            tr.poison[int(c)] = float(rng.choice([np.nan, np.inf, -np.inf]))
    for k in range(3):
        r = probe.do_step(tr.s, u, h)
        if isinstance(r, str):
            break
        u, h = r[0], min(r[2], p.hmax)
    att, stray = attempts(tr.log)
    mon.check(stray == 0, tag + ": nonlinear term evaluated outside the steps")
    for i, (u0, hh, args, res, new) in enumerate(att):
        extra = 1 if (i == 0 or (name == "ETD35" and new)) else 0
        mon.count("attempts_judged")
        if not mon.check(len(args) == per + extra, tag + ": %d evaluations instead of %d in attempt %d" % (len(args), per + extra, i), h=hh, new_state=new, poison=list(tr.poison)):
            return
        if not new:
            mon.count("retries_judged")
            mon.check(not any(gen.same(a, u0) for a in args) or not np.any(u0), tag + ": the state is evaluated again in a retry", attempt=i)
    mon.key(tag, p.kind, hh, cfg.epsilon, mode, len(att))
    mon.note(solver=tag, attempts=len(att), poisoned=sorted(tr.poison))


def evolve(rng, mon, idx):
    """Whole runs: the total is the sum over the attempts, a further run starts with one more."""
    name, form = probe.pick_form(rng, idx, FORMS)
    p = probe.Prob(rng, name, form)
    if rng.random() < 0.1:
        p = still(rng, p)
    aso = pkg.is_as(name)
    cfg = pkg.SolverConfig(epsilon=gen.log_u(rng, 1e-8, 1e-3)) if aso else None
    tr = Traced(p, p.f, cfg)
    tag = "%s/%s evolve" % (name, form)
    T = min(float(rng.uniform(0.05, 1.0)), 30 * p.hmax)
    for run in range(2):
        tr.log.clear()
        store = bool(rng.random() < 0.5)
        fq = int(rng.integers(1, 5))
        if aso:
            h0 = None if rng.random() < 0.3 and not np.isfinite(p.hmax) else min(gen.log_u(rng, 1e-4, 0.3), p.hmax, 0.9 * T)
            if np.isfinite(p.hmax):
                T = min(T, p.hmax)
                h0 = min(h0, 0.5 * T)
            if h0 is None:
                tr.s.evolve(p.u0, 0.0, T, store_data=store, store_freq=fq)
            else:
                tr.s.evolve(p.u0, 0.0, T, h_init=h0, store_data=store, store_freq=fq)
        else:
            n = int(rng.integers(1, 25)) if rng.random() < 0.85 else int(rng.integers(90, 1200))
            h = min(T / n, p.hmax)
            tr.s.evolve(p.u0, 0.0, n * h, h, store_data=store, store_freq=fq)
            steps = sum(1 for e in tr.log if e[0] == "step")
            mon.check(tr.calls == PER[name] * len(attempts(tr.log)[0]) + 1, tag + ": total number of evaluations", got=tr.calls, steps=steps)
        if not count_law(mon, p, tr.log, tag + " run %d" % run):
            return
        mon.count("runs_judged")
        a, _ = attempts(tr.log)
        mon.check(gen.same(a[0][2][0], np.asarray(p.u0)), tag + ": run %d does not start at the initial state" % run)
    mon.key(tag, p.kind, p.n, T, len(a))
    mon.note(solver=tag, attempts=len(a))


C.stratum("step", 400, 16000, fn=stepper)
C.stratum("retry", 240, 9000, fn=retry)
C.stratum("evolve", 260, 9000, fn=evolve)
C.require("continued_from_a_copy", "attempts_judged", "retries_judged", "stage_values_compared", "runs_judged")

if __name__ == "__main__":
    sys.exit(C.main())
