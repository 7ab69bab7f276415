"""C12: a step interrupted by an exception can be repeated (enumerated fault injection)."""
import contextlib, sys
import numpy as np
from rkv import pkg, gen, probe
from rkv.harness import Check, Inconclusive

C = Check("C12", "for each scenario (solver, form, position in the run, rejections, changed step size) the fault point is enumerated over every nonlinear evaluation and every exponential, inverse and psi "
          "evaluation of the step; after the fault(s) the step is repeated and compared with a solver that was never interrupted; non-trivial = a fault fired; distinct by solver, form, scenario, fault kind and position",
          level="fault_enumeration",
          assumptions=["faults are exceptions raised by the nonlinear function or by a numerical function called while coefficients are computed; asynchronous exceptions between two statements are not claimed",
                       "tolerance 1e-11 times the state (times the conditioning of the eigenbasis)"])


class Boom(Exception):
    pass


class Hard(BaseException):
    pass


def mk_exc(rng):
    k = rng.integers(5)
    return (Boom("injected"), Hard("injected"), KeyboardInterrupt("injected"), FloatingPointError("injected"), np.linalg.LinAlgError("injected"))[k]


class Inject:
    """Raises `exc` at the k-th call of a numerical function made while the context is active."""

    def __init__(self, k, exc):
        self.k, self.exc, self.n, self.fired = k, exc, 0, False

    def wrap(self, f):
        def g(*a, **kw):
            self.n += 1
            if self.n == self.k:
                self.fired = True
                raise self.exc
            return f(*a, **kw)
        return g

    @contextlib.contextmanager
    def active(self):
        mods = [m for m in sys.modules.values() if getattr(m, "__name__", "").startswith("rkstiff")]
        spots = [(np, "exp"), (np.linalg, "inv"), (np.linalg, "solve")]
        spots += [(m, a) for m in mods for a in ("expm", "psi1", "psi2", "psi3") if callable(m.__dict__.get(a))]
        saved = [(o, a, getattr(o, a)) for o, a in spots]
        try:
            for o, a, f in saved:
                setattr(o, a, self.wrap(f))
            yield self
        finally:
            for o, a, f in saved:
                setattr(o, a, f)


def tolr(p, want):
    return 1e-11 * p.kappa * (np.max(np.abs(want)) + 1e-300)


def setup(rng, name, form):
    p = probe.Prob(rng, name, form, n=int(rng.integers(2, 5)))
    p.kappa = 1.0 if form == "diag" else np.linalg.cond(p.S) ** 2
    cfg = dict(epsilon=gen.log_u(rng, 1e-6, 1e-3), minh=1e-14, adapt_cutoff=float(rng.choice([0.0, 0.01])))
    mk = lambda N: p.solver(N, config=pkg.SolverConfig(**cfg))
    return p, mk


SCEN = ("first", "second", "later", "newh", "later-newh", "rejecting", "rejecting-later", "aftermax")


def drive(rng_h, s, p, scen, adaptive):
    """Bring a solver to the point just before the observed step; returns (u, h)."""
    h0, h1 = rng_h
    u, h = p.u0, h0
    k = {"first": 0, "second": 1, "later": 3, "newh": 1, "later-newh": 2, "rejecting": 0, "rejecting-later": 2, "aftermax": 1}[scen]
    for _ in range(k):
        r = s.step(u, h)
        u = r[0] if adaptive else r
        if adaptive:
            h = min(r[2], p.hmax)
    if scen in ("newh", "later-newh"):
        h = h1
    if scen.startswith("rejecting"):
        h = min(5.0, p.hmax)
    if scen == "aftermax" and adaptive:
        save = s.config.epsilon, s.config.minh
        s.config.epsilon, s.config.minh = 1e-30, h / 20
        try:
            s.step(u, h)
        except pkg.BaseSolverAS.SolverError:
            pass
        s.config.epsilon, s.config.minh = save
    return u, h


def pack(r, adaptive):
    return r if adaptive else (r, 0.0, 0.0)


def same_result(mon, p, got, want, adaptive, tag, **kw):
    g, w = pack(got, adaptive), pack(want, adaptive)
    if not mon.check(abs(g[1] - w[1]) <= 1e-6 * abs(w[1]), tag + ": repeated step uses another step size", got=g[1], want=w[1], **kw):
        return False
    probe_ok = probe.close(mon, g[0], w[0], tolr(p, w[0]), tag + ": repeated step differs from an uninterrupted one", **kw)
    if probe_ok and adaptive:
        # noise of a tiny estimate may move the suggestion a little
        mon.check(abs(g[2] - w[2]) <= 1e-3 * abs(w[2]) or min(g[2], w[2]) >= 0.999 * w[1], tag + ": suggestion after the repeated step differs", got=g[2], want=w[2], **kw)
    return probe_ok


def follow(mon, p, s, ref_s, r, rr, adaptive, tag, **kw):
    """The run goes on after the repeated step."""
    u, v = pack(r, adaptive)[0], pack(rr, adaptive)[0]
    h = min(pack(rr, adaptive)[2], p.hmax) if adaptive else kw["h"]
    for _ in range(2):
        r, rr = s.step(u, h), ref_s.step(v, h)
        if not same_result(mon, p, r, rr, adaptive, tag + " (following step)", **kw):
            return
        u, v = pack(r, adaptive)[0], pack(rr, adaptive)[0]


def nlfault(rng, mon, idx):
    name, form = probe.pick_form(rng, idx)
    adaptive = pkg.is_as(name)
    scen = SCEN[(idx // len(pkg.all_forms())) % len(SCEN)]
    p, mk = setup(rng, name, form)
    hh = (min(0.05, p.hmax), min(0.031, p.hmax * 0.7))
    ref_s = mk(p.N())
    u, h = drive(hh, ref_s, p, scen, adaptive)
    c0 = ref_s.nl_func.calls
    want = ref_s.step(u, h)
    ncalls = ref_s.nl_func.calls - c0
    mon.note(solver=name, form=form, scenario=scen, calls=ncalls)
    after = mk(p.N())
    for k in range(1, min(ncalls, 40) + 1):
        N = p.N()
        s = mk(N)
        us, hs = drive(hh, s, p, scen, adaptive)
        ufp = gen.fp(us)
        plan = [k] + [int(rng.integers(1, ncalls + 1)) for _ in range(int(rng.integers(0, 3)) if rng.random() < 0.4 else 0)]
        for kk in plan:
            exc = mk_exc(rng)
            N.fault_at = {N.calls + kk: exc}
            done = None
            try:
                done = s.step(us, hs)
            except BaseException as e:  # noqa
                if not mon.check(e is exc, "%s/%s: the injected exception did not reach the caller unchanged" % (name, form), got=repr(e)[:80], want=repr(exc)):
                    return
                mon.count("nl_faults_fired")
            else:
                if N.fault_at:
                    mon.count("nl_faults_not_reached")
                else:
                    mon.viol("%s/%s: the injected exception was swallowed" % (name, form), scenario=scen, call=kk)
                    return
            N.fault_at = {}
            if done is not None:
                break       # the repeated step needs fewer evaluations: it went through
            mon.key(name, form, scen, "nl", plan)
        mon.check(gen.fp(us) == ufp, "%s/%s: interrupted step modified the state" % (name, form))
        got = s.step(us, hs) if done is None else done
        if not same_result(mon, p, got, want, adaptive, "%s/%s after fault at call %s" % (name, form, plan), scenario=scen, h=h):
            return
        if k in (1, ncalls) or rng.random() < 0.3:
            rs = mk(p.N())
            ur, hr = drive(hh, rs, p, scen, adaptive)
            rr = rs.step(ur, hr)
            follow(mon, p, s, rs, got, rr, adaptive, "%s/%s after fault at call %s" % (name, form, plan), scenario=scen, h=h)
            if mon.viols:
                return


def coeffault(rng, mon, idx):
    name, form = probe.pick_form(rng, idx)
    adaptive = pkg.is_as(name)
    scen = ("first", "newh", "later-newh", "rejecting", "rejecting-later")[(idx // len(pkg.all_forms())) % 5]
    p, mk = setup(rng, name, form)
    hh = (min(0.05, p.hmax), min(0.031, p.hmax * 0.7))
    ref_s = mk(p.N())
    u, h = drive(hh, ref_s, p, scen, adaptive)
    with Inject(-1, None).active() as inj:
        want = ref_s.step(u, h)
    total = inj.n
    mon.count("coefficient_calls_seen", total)
    mon.note(solver=name, form=form, scenario=scen, numerical_calls=total)
    ks = range(1, total + 1) if total <= 40 else sorted(set([1, 2, 3, 4, 5, total, total - 1] + [int(x) for x in rng.integers(1, total + 1, 24)]))
    for k in ks:
        s = mk(p.N())
        us, hs = drive(hh, s, p, scen, adaptive)
        exc = mk_exc(rng)
        hfault = hs
        if rng.random() < 0.25 and not scen.startswith("rej"):
            hfault = hs * 0.83            # interrupted with one size, repeated with another
        with Inject(k, exc).active() as inj:
            try:
                s.step(us, hfault)
            except BaseException as e:  # noqa
                if not mon.check(e is exc, "%s/%s: the injected exception did not reach the caller unchanged" % (name, form), got=repr(e)[:80], want=repr(exc)):
                    return
            else:
                if inj.fired:
                    mon.viol("%s/%s: the injected exception was swallowed" % (name, form), scenario=scen, call=k)
                    return
        if not inj.fired:
            mon.count("coef_faults_not_reached")
            continue
        mon.count("coef_faults_fired")
        mon.key(name, form, scen, "coef", k, hfault == hs)
        got = s.step(us, hs)
        if not same_result(mon, p, got, want, adaptive, "%s/%s after fault in coefficient call %d" % (name, form, k), scenario=scen, h=h, hfault=hfault):
            return
        # falling back to the size used before the interrupted one must be right as well
        if scen in ("newh", "later-newh") and rng.random() < 0.3:
            s2 = mk(p.N())
            us, hs = drive(hh, s2, p, scen, adaptive)
            with Inject(k, exc).active():
                try:
                    s2.step(us, hs)
                except BaseException:  # noqa
                    pass
            r3 = mk(p.N())
            ur, _ = drive(hh, r3, p, scen, adaptive)
            same_result(mon, p, s2.step(us, hh[0]), r3.step(ur, hh[0]), adaptive, "%s/%s old size after fault in coefficient call %d" % (name, form, k), scenario=scen, h=hh[0])
        if mon.viols:
            return


def evolvefault(rng, mon, idx):
    """evolve interrupted at a random call and run again: bitwise a new solver's result."""
    name, form = probe.pick_form(rng, idx)
    adaptive = pkg.is_as(name)
    p, mk = setup(rng, name, form)
    h = min(0.08, p.hmax)
    run = lambda s: (s.evolve(p.u0, 0.0, 8 * h, h_init=h) if adaptive else s.evolve(p.u0, 0.0, 6 * h, h))
    r = mk(p.N())
    want = run(r)
    ncalls = r.nl_func.calls
    N = p.N()
    s = mk(N)
    if rng.random() < 0.5:
        run(s)
    for _ in range(int(rng.integers(1, 3))):
        exc = mk_exc(rng)
        if rng.random() < 0.7:
            N.fault_at = {N.calls + int(rng.integers(1, ncalls + 1)): exc}
            ctx = contextlib.nullcontext()
            what = "nl"
        else:
            ctx = Inject(int(rng.integers(1, 30)), exc).active()
            what = "coef"
        try:
            with ctx:
                run(s)
        except BaseException as e:  # noqa
            if not mon.check(e is exc, "%s/%s: the injected exception did not reach the caller of evolve unchanged" % (name, form), got=repr(e)[:80]):
                return
            mon.count("evolve_faults_fired")
        N.fault_at = {}
        mon.key(name, form, what, len(s.t))
    got = run(s)
    mon.check(gen.same(got, want) and gen.same(np.array(s.t, float), np.array(r.t, float)) and all(gen.same(x, y) for x, y in zip(s.u, r.u)),
              "%s/%s: evolve run again after an interruption differs from an uninterrupted one" % (name, form), got=got, want=want)


def afterfail(rng, mon, idx):
    """A step that ended in MaxLoopsExceeded / MinimumStepReached, repeated with a smaller size or a looser tolerance."""
    name, form = probe.pick_form(rng, idx, [x for x in pkg.all_forms() if pkg.is_as(x[0])])
    p, mk = setup(rng, name, form)
    N = p.N()
    s = mk(N)
    pre = int(rng.integers(0, 3))
    eps = s.config.epsilon
    hp = min(0.05, p.hmax)
    u, ref_s = p.u0, mk(p.N())
    v = u
    for _ in range(pre):
        u, v = s.step(u, hp)[0], ref_s.step(v, hp)[0]
    kind = ("minh", "maxloops", "nan")[rng.integers(3)]
    h = min(0.4, p.hmax)
    for _ in range(int(rng.integers(1, 3))):
        if kind == "minh":
            s.config.epsilon, s.config.minh = 1e-30, h * 0.3
        elif kind == "maxloops":
            s.config.minh = 1e-300
        else:
            s.config.minh = h * 0.01
        if kind != "minh":
            f = N.f
            first = N.calls
            N.f = lambda x: (f(x) * np.nan if N.calls > first + 2 else f(x))
        try:
            s.step(u, h)
            raise Inconclusive("the step went through")
        except pkg.BaseSolverAS.SolverError as e:
            mon.count("failures_" + type(e).__name__)
            mon.key(name, form, kind, pre, type(e).__name__)
        finally:
            if kind != "minh":
                N.f = f
        s.config.epsilon, s.config.minh, s.config.decr_f = eps, 1e-14, 0.85
    h2 = min(float(rng.choice([0.1, 0.03, 0.01])), p.hmax)
    got, want = s.step(u, h2), ref_s.step(v, h2)
    if same_result(mon, p, got, want, True, "%s/%s after %s failure" % (name, form, kind), pre=pre, h=h2):
        follow(mon, p, s, ref_s, got, want, True, "%s/%s after %s failure" % (name, form, kind), pre=pre, h=h2)


n = len(pkg.all_forms())
C.stratum("nl-fault", 8 * n * 3, 8 * n * 40, fn=nlfault)
C.stratum("coef-fault", 5 * n * 2, 5 * n * 25, fn=coeffault)
C.stratum("evolve-fault", 300, 6000, fn=evolvefault)
C.stratum("after-failure", 300, 6000, fn=afterfail)
C.require("nl_faults_fired", "coef_faults_fired", "evolve_faults_fired", "failures_MinimumStepReached", "failures_MaxLoopsExceeded", "states_compared")

if __name__ == "__main__":
    sys.exit(C.main())
