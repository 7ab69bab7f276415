"""Instrumented solver classes and shared comparison monitors."""
import numpy as np
from . import pkg, ref, gen
from .harness import Inconclusive

CLOSE = 1e-9


def recorder(name):
    """Subclass of a solver class (same name, hence same logger) that records what happens.

    Uses only the documented extension points: step() and _update_stages().
    """
    base = pkg.CLS[name]

    class R(base):
        def __init__(self, *a, **k):
            self.rec_steps, self.rec_attempts = [], []
            super().__init__(*a, **k)

        def step(self, u, h):
            u0 = np.array(u, copy=True)
            r = super().step(u, h)
            if pkg.is_as(name):
                self.rec_steps.append((u0, float(h), np.array(r[0], copy=True), float(r[1]), float(r[2])))
            else:
                self.rec_steps.append((u0, float(h), np.array(r, copy=True), float(h), float(h)))
            return r

        def _update_stages(self, u, h):
            r = super()._update_stages(u, h)
            if pkg.is_as(name):
                self.rec_attempts.append((float(h), np.array(r[0], copy=True), np.array(r[1], copy=True)))
            else:
                self.rec_attempts.append((float(h), np.array(r, copy=True), None))
            return r
    R.__name__ = base.__name__
    R.__qualname__ = base.__qualname__
    R.__module__ = base.__module__
    return R


def make_rec(name, L, N, form="diag", config=None, etd_config=None, loglevel=None):
    saved = pkg.CLS[name]
    R = recorder(name)
    pkg.CLS[name] = R
    try:
        return pkg.make(name, L, N, form, config, etd_config, loglevel)
    finally:
        pkg.CLS[name] = saved


def s_doc(unew, err, cfg, q):
    """The documented scaling factor, written from the documentation (None = not finite)."""
    unew, err = np.asarray(unew), np.asarray(err)
    if not np.all(np.isfinite(unew)):
        return None
    m = np.abs(unew)
    mx = m.max() if m.size else 0.0
    idx = (m > cfg.adapt_cutoff * mx) if mx > 0 else np.ones(m.shape, bool)
    if not np.all(np.isfinite(err[idx])):
        return None
    # norms in extended precision so that neither overflows nor underflows
    un = np.sqrt(np.sum(np.abs(unew[idx].astype(ref.CLD)) ** 2))
    en = np.sqrt(np.sum(np.abs(err[idx].astype(ref.CLD)) ** 2))
    if en == 0:
        return np.inf
    return float(ref.LD(cfg.safety_f) * (ref.LD(cfg.epsilon) * un / en) ** (ref.LD(1) / q))


def close(mon, got, want, tol, msg, **data):
    got, want = np.asarray(got), np.asarray(want)
    mon.count("states_compared")
    mon.count("entries_compared", want.size)
    if got.shape != want.shape:
        mon.viol(msg + ": shape", got=got.shape, want=want.shape, **data)
        return False
    d = np.abs(got - want)
    if not np.all(d <= tol):
        mon.viol(msg, got=got, want=want, diff=d, maxdiff=float(np.max(np.where(np.isnan(d), np.inf, d))), tol=tol, **data)
        return False
    return True


def reltol(want, rel, floor=0.0):
    return rel * (np.max(np.abs(want)) if np.asarray(want).size else 0.0) + floor


# ------------------------------------------------------------------ problems with bounded behaviour
class Prob:
    """A well-behaved problem u' = L u + N(u) used for runs of many steps."""

    def __init__(self, rng, name, form, n=None, cplx=None, stiff=None, etd_small=None, T=1.0):
        self.name, self.form = name, form
        self.cplx = bool(rng.random() < 0.6) if cplx is None else cplx
        self.n = n = (1 if n is None and rng.random() < 0.04 else gen.size(rng, 2, 8, 1500, 0.02) if form == "diag" else gen.size(rng, 2, 8, 48, 0.03)) if n is None else n
        etd_full = name in pkg.ETDS and form == "full"
        st = (rng.choice(["mild", "stiff"]) if stiff is None else ("stiff" if stiff else "mild"))
        lam = -10 ** rng.uniform(-1.5, 0.7 if (st == "mild" or etd_full) else 3.0, n)
        real_L = self.cplx and rng.random() < 0.15       # a real operator on complex states
        if self.cplx and not real_L:
            lam = lam * rng.uniform(0, 1, n) + 1j * rng.uniform(-4, 4, n)
        self.lam = lam
        self.S = None
        if form == "diag":
            self.L = lam.copy()
        else:
            A = gen.orthobasis(rng, n, self.cplx and not real_L)
            if rng.random() < 0.5:
                A = A @ np.diag(rng.uniform(0.5, 2, n)) @ gen.orthobasis(rng, n, self.cplx and not real_L)
            self.S = A
            self.L = A @ np.diag(lam) @ np.linalg.inv(A)
            if n > 1 and rng.random() < 0.3:
                self.structured(rng, st == "stiff" and not etd_full)
        self.kind, self.f = gen.nonlinear(rng, n, self.cplx, rng.uniform(0.2, 1.5), kinds=("sat", "sin", "sat", "sin", "mag"))
        self.u0 = gen.cnorm(rng, n, self.cplx)
        self.T = T
        # a step size for which full-matrix ETD stays inside its contour
        nrm = float(np.linalg.norm(np.atleast_2d(self.L) if form != "diag" else np.diag(self.L), 2))
        self.hmax = 0.4 / nrm if etd_full else np.inf

    def structured(self, rng, stiff):
        """Replace the matrix by one of a special structure (triangular, banded, circulant, ...) that does not grow."""
        kind, B = gen.structured(rng, self.n, self.cplx)
        mag = gen.log_u(rng, 0.05, 100 if stiff else 4)
        L = mag * (B - rng.uniform(1.0, 1.5) * np.eye(self.n))
        lam, V = np.linalg.eig(L)
        c = np.linalg.cond(V)
        if np.max(np.abs(lam)) > 0 and c < 50 and np.linalg.cond(L) < 1e4:
            self.L, self.lam, self.S, self.skind = L, lam, V, kind
        elif self.form == "full" and np.linalg.norm(L, 2) < 5:
            # (nearly) defective: S only serves as a measure of conditioning
            self.L, self.lam, self.S, self.skind = L, lam, np.diag(np.linspace(1, 50, self.n)), kind

    skind = None

    def N(self, **k):
        return gen.NL(self.f, **k)

    def solver(self, N=None, rec=False, config=None, etd_config=None, loglevel=None):
        mk = make_rec if rec else pkg.make
        return mk(self.name, self.L, self.N() if N is None else N, self.form, config, etd_config, loglevel)


def pick_form(rng, idx, forms=None):
    forms = forms or pkg.all_forms()
    return forms[idx % len(forms)]


# ------------------------------------------------------------------ scripted adaptive solver
class Scripted(pkg.BaseSolverAS):
    """Adaptive solver whose candidate states and error estimates come from a script.

    Implements the three methods the base class documents as its extension interface.
    """

    def __init__(self, script, q, config=None, n=3, loglevel=None):
        self.script, self.q = script, q
        self.attempts = []
        super().__init__(np.zeros(n), lambda u: u, config=config, loglevel=loglevel or pkg.LEVEL)

    def _reset(self):
        pass

    def _q(self):
        return self.q

    def _update_stages(self, u, h):
        un, er = self.script(len(self.attempts), u, h)
        self.attempts.append((float(h), un, er))
        return un, er


def judge_step(mon, attempts, outcome, h0, cfg, q, tag, max_loops=50):
    """Online specification of one adaptive step: attempts = [(h, unew, err)], outcome = (unew, h, hnext) or exception name.

    Returns the list of decisions seen.
    """
    want_h, want_hs = h0, (h0,)
    decisions = []
    for i, (h, un, er) in enumerate(attempts):
        mon.count("attempts_judged")
        mon.check(any(abs(h - w) <= 1e-9 * abs(w) + 1e-300 for w in want_hs), tag + ": attempt made with an unexpected step size", attempt=i, h=h, want=want_h)
        s = s_doc(un, er, cfg, q)
        last = i == len(attempts) - 1
        if s is not None:
            m = np.abs(np.asarray(un)).astype(float)
            mx = m.max()
            if 0 < mx < 1e-120 or mx > 1e140:
                raise Inconclusive("norms of the state leave the double range")
            # (an entry that is exactly zero does not exceed a cutoff of zero, however that is computed)
            if mx > 0 and np.any((np.abs(m / mx - cfg.adapt_cutoff) < 1e-12) & ((m > 0) | (cfg.adapt_cutoff != 0))):
                raise Inconclusive("entry at the adapt_cutoff threshold")
            if abs(s - 1) < 1e-9:
                raise Inconclusive("factor within rounding of 1")
        accept = s is not None and s >= 1 and h > 0
        if accept:
            decisions.append("grow" if min(s, 4.0) > cfg.incr_f else "keep")
            if not mon.check(last and isinstance(outcome, tuple), tag + ": attempt meeting the tolerance was not accepted", attempt=i, s=s, outcome=str(outcome)[:60]):
                return decisions
            unew, hu, hn = outcome
            mon.check(hu == h, tag + ": reported step size is not the one taken", h=h, reported=hu)
            mon.check(gen.same(unew, un), tag + ": returned state is not the accepted attempt's", got=unew, want=un)
            sm = min(s, 4.0)
            if abs(sm - cfg.incr_f) > 1e-9:
                w = sm * h if sm > cfg.incr_f else h
                mon.check(abs(hn - w) <= 1e-9 * w, tag + ": suggested step size is not the documented one", s=s, h=h, got=hn, want=w, incr_f=cfg.incr_f)
            return decisions
        decisions.append("nonfinite" if s is None else ("clamp" if s < 0.25 else ("decr" if s > cfg.decr_f else "scale")))
        if last and isinstance(outcome, tuple):
            mon.viol(tag + ": a step that does not meet its tolerance was returned", s=s, h=h, epsilon=cfg.epsilon, attempt=i)
            return decisions
        fac = 0.25 if s is None else min(max(s, 0.25), cfg.decr_f)
        want_h, want_hs = fac * h, (fac * h,)
        if s is None and not np.any(np.isnan(np.asarray(er))):
            # an infinite estimate may be read as the factor 0, clamped like any other
            want_hs += (min(0.25, cfg.decr_f) * h,)
    # ended by an exception
    n = len(attempts)
    if outcome == "MaxLoopsExceeded":
        mon.check(n >= max_loops, tag + ": gave up after too few attempts", attempts=n)
    elif outcome == "MinimumStepReached":
        mon.check(min(want_hs) <= cfg.minh * (1 + 1e-9), tag + ": minimum step reported although the next step is not below it", h=want_h, minh=cfg.minh)
    else:
        mon.viol(tag + ": unexpected end of step", outcome=str(outcome)[:80])
    mon.check(n <= max_loops + 1, tag + ": more attempts than allowed", attempts=n)
    # below minh it must not have gone on
    for h, _, _ in attempts[1:]:
        mon.check(h >= cfg.minh * (1 - 1e-9), tag + ": attempted a step below minh", h=h, minh=cfg.minh)
    return decisions


def do_step(s, u, h):
    try:
        return s.step(u, h)
    except pkg.BaseSolverAS.MaxLoopsExceeded:
        return "MaxLoopsExceeded"
    except pkg.BaseSolverAS.MinimumStepReached:
        return "MinimumStepReached"


def rand_config(rng, wild=False):
    kw = dict(epsilon=gen.log_u(rng, 1e-10, 1e-1), incr_f=float(1 + gen.log_u(rng, 1e-3, 4)), decr_f=float(rng.uniform(0.3, 0.99)),
              safety_f=float(rng.uniform(0.3, 1.0)), adapt_cutoff=float(rng.choice([0.0, 1e-6, 0.01, 0.3, 0.9])), minh=gen.log_u(rng, 1e-18, 1e-8))
    if wild:
        if rng.random() < 0.1:
            kw["decr_f"] = float(rng.choice([0.05, 0.2, 0.25]))
        if rng.random() < 0.1:
            kw["safety_f"] = float(rng.choice([1.0, 0.01]))
        if rng.random() < 0.1:
            kw["adapt_cutoff"] = float(rng.choice([-1.0, 0.999]))
        if rng.random() < 0.1:
            kw["minh"] = gen.log_u(rng, 1e-4, 1e2)
        if rng.random() < 0.1:
            kw["epsilon"] = float(rng.choice([1e-14, 1.0, 1e6]))
    return pkg.SolverConfig(**kw), kw


class ScriptedCS(pkg.BaseSolverCS):
    """Constant-step solver on the documented subclass interface: the state counts the steps taken."""

    def __init__(self, n=2, loglevel=None):
        self.log = []
        self.resets = 0
        super().__init__(np.zeros(n), lambda u: u, loglevel=loglevel or pkg.LEVEL)

    def _reset(self):
        self.resets += 1

    def _update_stages(self, u, h):
        v = np.array([u[0] + 1, u[0] * 0 + len(self.log)])
        self.log.append((float(h), np.array(u), v))
        return v


def time_pair(rng):
    """(t0, tf) of many flavours."""
    k = rng.integers(10)
    span = gen.log_u(rng, 1e-6, 1e4) if rng.random() < 0.7 else gen.log_u(rng, 1e-25, 1e25)
    if k == 0:
        t0 = 0.0
    elif k == 1:
        t0 = -span                       # ends at zero
    elif k == 2:
        t0 = -span * rng.uniform(0.1, 3)
    elif k == 3:
        t0 = span * 10 ** rng.uniform(0, 5)
    elif k == 4:
        t0 = -span * 10 ** rng.uniform(0, 5)
    elif k == 5:
        t0, span = float(rng.integers(-50, 50)), float(rng.integers(1, 40))
        return int(t0), int(t0 + span)
    elif k == 6:
        t0, span = round(float(rng.uniform(-5, 5)), 2), round(float(rng.uniform(0.05, 3)), 2)
    elif k == 9:
        return np.array(float(rng.uniform(-3, 3))), np.array(float(rng.uniform(3.5, 9)))
    elif k == 7:
        return np.float64(rng.uniform(-3, 3)), np.float64(rng.uniform(3.5, 9))
    else:
        t0, span = float(rng.uniform(-1, 1)), float(rng.uniform(0.1, 2))
    t0 = float(t0)
    return t0, t0 + span


def near_threshold(solver, name, cfg):
    for h, un, er in solver.rec_attempts:
        m = np.abs(un)
        if not np.all(np.isfinite(m)):
            return True
        mx = m.max()
        if mx == 0 or np.any((np.abs(m / mx - cfg.adapt_cutoff) < 1e-7) & ((m > 0) | (cfg.adapt_cutoff != 0))):
            return True
        s = s_doc(un, er, cfg, pkg.Q[name])
        if s is None or abs(s - 1) < 1e-6 or abs(s - cfg.incr_f) < 1e-6:
            return True
        # an estimate that is mostly rounding
        idx = m > cfg.adapt_cutoff * mx
        if s < 50 and np.linalg.norm(er[idx]) < 1e-9 * np.linalg.norm(m[idx]):
            return True
    return False


class Nonlinear:
    """A nonlinear term that can be pickled and copied: saturating coupling with given coefficients, in double precision."""

    def __init__(self, rng, n, cplx, strength):
        self.a, self.b = strength * gen.cnorm(rng, n, cplx), 0.5 * strength * gen.cnorm(rng, n, cplx)
        self.perm = rng.permutation(n)
        self.calls = 0
        self.fault_at = 0
        self.double = False         # convert the argument to double precision first

    def __call__(self, u):
        self.calls += 1
        if self.calls == self.fault_at:
            raise ArithmeticError("call %d" % self.calls)
        if self.double:
            u = np.asarray(u)
            u = u.astype(complex if np.iscomplexobj(u) else float)
        return self.a * u / (1 + np.abs(u) ** 2) + self.b * u[self.perm] / (1 + np.abs(u[self.perm]) ** 2)
