"""C14: solver instances do not influence one another (interleavings and threads against isolated runs)."""
import copy, sys, threading
import numpy as np
from rkv import pkg, gen, probe, ref
from rkv.harness import Check, Inconclusive, in_fork

C = Check("C14", "2-4 solvers (same or different classes and forms, sharing operator, state, nonlinear-function and configuration objects or none) are interleaved call by call, nested (a nonlinear function that "
          "drives another solver), or run in threads under a deterministic scheduler that switches at every nonlinear call; each result is compared bit for bit with the same solver run alone; non-trivial = the "
          "schedule switches between solvers; distinct by classes, sharing and schedule",
          assumptions=["threads are switched at nonlinear-function calls (plus free-running threads in one stratum)", "one thread per solver", "the nonlinear function itself is thread-safe"])


class Sched:
    """Deterministic scheduler: exactly one thread runs; the token moves at every yield point as the seeded choice says."""

    def __init__(self, rng, n):
        self.cv = threading.Condition()
        self.rng, self.alive, self.cur = rng, set(range(n)), None
        self.trace = []

    def start(self):
        with self.cv:
            self._pick()

    def _pick(self):
        self.cur = sorted(self.alive)[int(self.rng.integers(len(self.alive)))] if self.alive else None
        self.trace.append(self.cur)
        self.cv.notify_all()

    def point(self, me):
        with self.cv:
            self._pick()
            while self.cur != me:
                self.cv.wait(30)

    def enter(self, me):
        with self.cv:
            while self.cur != me:
                self.cv.wait(30)

    def leave(self, me):
        with self.cv:
            self.alive.discard(me)
            self._pick()


def plan(rng, names=None):
    """A solver job: everything needed to build and drive one solver, as data."""
    name, form = names[rng.integers(len(names))] if names else pkg.all_forms()[rng.integers(len(pkg.all_forms()))]
    return name, form


class Job:
    def __init__(self, rng, name, form, p, explicit):
        self.name, self.form, self.p, self.explicit = name, form, p, explicit
        self.adaptive = pkg.is_as(name)
        self.h = min(gen.log_u(rng, 0.01, 0.2), p.hmax)
        self.mode = ("steps", "evolve")[rng.integers(2)]
        self.k = int(rng.integers(2, 6))
        self.eps = gen.log_u(rng, 1e-6, 1e-3) if rng.random() < 0.6 else None
        self.ecut = float(rng.choice([0.01, 0.3])) if rng.random() < 0.4 and form == "diag" else None
        self.u0 = p.u0
        self.cfgs = None

    def build(self, N, cfg=None, ecfg=None):
        s = pkg.make(self.name, self.p.L, N, self.form, cfg, ecfg)
        if self.eps is not None and self.adaptive:
            s.config.epsilon = self.eps
        if self.ecut is not None and hasattr(s, "etd_config"):
            s.etd_config.modecutoff = self.ecut
        return s

    def shared(self, N):
        return self.build(N, *self.cfgs) if self.cfgs else self.build(N)

    def actions(self, s):
        """Generator performing the job, yielding after every public call; returns the log of results."""
        out = []
        u, h = self.u0, self.h
        if self.mode == "steps":
            for _ in range(self.k):
                r = s.step(u, h)
                if self.adaptive:
                    u, h = r[0], min(r[2], self.p.hmax)
                    out += [np.array(r[0]), np.array(r[1:])]
                else:
                    u = r
                    out.append(np.array(r))
                yield out
        else:
            for rep in range(2):
                if self.adaptive:
                    r = s.evolve(u, 0.0, self.k * self.h, h_init=self.h)
                else:
                    r = s.evolve(u, 0.0, self.k * self.h, self.h)
                out += [np.array(r), np.array(s.t, float), np.array(s.u)]
                yield out
        yield out

    def run(self, s):
        out = []
        try:
            for out in self.actions(s):
                pass
        except pkg.BaseSolverAS.SolverError as e:
            out = out + [np.array([ord(c) for c in type(e).__name__])]
        return out


def alone(j):
    """A solver for the isolated run: nothing shared, own copies of everything."""
    p = j.p
    f = p.f
    cfg = ecfg = None
    if j.cfgs:
        cfg, ecfg = pkg.SolverConfig(epsilon=j.cfgs[0].epsilon), copy.copy(j.cfgs[1])
    keep, p.L = p.L, np.array(p.L, copy=True)
    try:
        return j.build(gen.NL(f), cfg, ecfg)
    finally:
        p.L = keep


def alone_runs(jobs):
    """Every job in a process of its own in which no other solver was ever built."""
    return [in_fork(lambda j=j: j.run(alone(j))) for j in jobs]


def eq(mon, got, want, tag, **kw):
    if not mon.check(len(got) == len(want), tag + ": number of results differs from the isolated run", got=len(got), want=len(want), **kw):
        return False
    for i, (a, b) in enumerate(zip(got, want)):
        mon.count("results_compared")
        if not mon.check(gen.same(a, b), tag + ": result differs from the isolated run", item=i, got=a, want=b, **kw):
            return False
    return True


def make_jobs(rng, mon, m):
    """m jobs with some sharing pattern."""
    share = ("nothing", "problem", "sameclass", "problem-sameclass", "config", "problem-sameclass-settings")[rng.integers(6)]
    forms = pkg.all_forms()
    if share.endswith("settings"):
        forms = [x for x in forms if x[0] in pkg.ETDS]
    first = forms[rng.integers(len(forms))]
    jobs = []
    base = None
    for i in range(m):
        if "sameclass" in share:
            name, form = first
        elif share == "problem":
            cand = [x for x in forms if (x[1] == "diag") == (first[1] == "diag")]
            name, form = cand[rng.integers(len(cand))]
        else:
            name, form = forms[rng.integers(len(forms))]
        if "problem" in share and base is not None and (form == "diag") == (base.form == "diag"):
            p = base
        else:
            p = probe.Prob(rng, name, form, n=int(rng.integers(2, 6)))
            if "problem" in share:
                nrm = float(np.linalg.norm(p.L if form != "diag" else np.diag(p.L), 2))
                p.hmax = 0.4 / nrm if form != "diag" else np.inf   # every form must be usable on the shared operator
            base = base or p
        jobs.append(Job(rng, name, form, p, share == "config"))
    if rng.random() < 0.6:
        h = min(j.h for j in jobs)      # a cache shared by accident would be keyed by the step size
        for j in jobs:
            j.h = h
    if share.endswith("settings"):      # same operator and step, different ways to evaluate psi
        if rng.random() < 0.5:
            base.L = base.L * 10 ** rng.uniform(-5, -1)
        for j in jobs:
            j.ecut = None
            j.cfgs = pkg.SolverConfig(epsilon=j.eps or 1e-4), pkg.ETDConfig(modecutoff=float(rng.choice([0.01, 0.3, 1.0])), contour_points=int(rng.choice([2, 3, 5, 8, 16, 32, 33])),
                                                                             contour_radius=float(rng.choice([0.5, 0.8, 1.0, 1.5])))
            j.eps = None
    if share == "config":               # one configuration object for all, left alone
        cfgs = pkg.SolverConfig(epsilon=gen.log_u(rng, 1e-6, 1e-3)), pkg.ETDConfig()
        for j in jobs:
            j.eps = j.ecut = None
            j.cfgs = cfgs
    return share, jobs


def interleave(rng, mon, idx):
    """Call-level interleaving in one thread, solvers built at random moments."""
    m = int(rng.integers(2, 5))
    share, jobs = make_jobs(rng, mon, m)
    shared_nl = {}

    def nl(p):
        return shared_nl.setdefault(id(p), p.N()) if rng.random() < 0.5 else p.N()
    want = alone_runs(jobs)
    gens, outs, built = [None] * m, [[] for _ in jobs], [None] * m
    order = []
    if rng.random() < 0.5:
        for i, j in enumerate(jobs):
            built[i] = j.shared(nl(j.p))
    alive = set(range(m))
    while alive:
        i = sorted(alive)[int(rng.integers(len(alive)))]
        order.append(i)
        if built[i] is None:
            built[i] = jobs[i].shared(nl(jobs[i].p))
            continue
        if gens[i] is None:
            gens[i] = jobs[i].actions(built[i])
        try:
            outs[i] = next(gens[i])
        except StopIteration:
            alive.discard(i)
        except pkg.BaseSolverAS.SolverError as e:
            outs[i] = outs[i] + [np.array([ord(c) for c in type(e).__name__])]
            alive.discard(i)
    sw = sum(a != b for a, b in zip(order, order[1:]))
    mon.count("call_switches", sw)
    mon.note(jobs=[(j.name, j.form, j.mode) for j in jobs], sharing=share, order=order)
    if sw:
        mon.key([(j.name, j.form, j.mode) for j in jobs], share, order)
    for i, j in enumerate(jobs):
        eq(mon, outs[i], want[i], "interleaved %s/%s" % (j.name, j.form), others=[(o.name, o.form) for o in jobs], sharing=share)


def threads(rng, mon, idx):
    """Threads with a deterministic schedule: control changes hands inside steps, at every nonlinear call."""
    m = int(rng.integers(2, 4))
    share, jobs = make_jobs(rng, mon, m)
    want = alone_runs(jobs)
    sch = Sched(rng, m)
    Ns, solvers = [], []
    for i, j in enumerate(jobs):
        N = j.p.N()
        N.hook = lambda k, u, i=i: sch.point(i)
        Ns.append(N)
        solvers.append(j.shared(N))
    res, errs = [None] * m, [None] * m

    def work(i):
        sch.enter(i)
        try:
            res[i] = jobs[i].run(solvers[i])
        except BaseException as e:  # noqa
            errs[i] = e
        finally:
            sch.leave(i)
    th = [threading.Thread(target=work, args=(i,), daemon=True) for i in range(m)]
    for t in th:
        t.start()
    sch.start()
    for t in th:
        t.join(60)
    if any(t.is_alive() for t in th):
        raise Inconclusive("threads did not finish")
    for e in errs:
        if e is not None:
            raise e
    sw = sum(a != b for a, b in zip(sch.trace, sch.trace[1:]))
    mon.count("thread_switches_inside_steps", sw)
    mon.note(jobs=[(j.name, j.form, j.mode) for j in jobs], sharing=share, switches=sw)
    mon.key([(j.name, j.form, j.mode) for j in jobs], share, sch.trace)
    for i, j in enumerate(jobs):
        eq(mon, res[i], want[i], "threaded %s/%s" % (j.name, j.form), others=[(o.name, o.form) for o in jobs], sharing=share)


def free(rng, mon, idx):
    """Free-running threads with a tiny switch interval: control changes hands anywhere."""
    m = 3
    share, jobs = make_jobs(rng, mon, m)
    for j in jobs:
        j.k += 3
    want = alone_runs(jobs)
    res, errs = [None] * m, [None] * m
    solvers = [j.shared(j.p.N()) for j in jobs]
    bar = threading.Barrier(m)

    def work(i):
        try:
            bar.wait(30)
            res[i] = jobs[i].run(solvers[i])
        except BaseException as e:  # noqa
            errs[i] = e
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        th = [threading.Thread(target=work, args=(i,), daemon=True) for i in range(m)]
        for t in th:
            t.start()
        for t in th:
            t.join(60)
    finally:
        sys.setswitchinterval(old)
    for e in errs:
        if e is not None:
            raise e
    mon.count("free_thread_runs")
    mon.key([(j.name, j.form, j.mode) for j in jobs], share)
    for i, j in enumerate(jobs):
        eq(mon, res[i], want[i], "free-threaded %s/%s" % (j.name, j.form), others=[(o.name, o.form) for o in jobs], sharing=share)


def nested(rng, mon, idx):
    """The nonlinear function of one solver drives another solver."""
    share, jobs = make_jobs(rng, mon, 2)
    a, b = jobs
    want = alone_runs(jobs)
    inner = b.shared(b.p.N())
    g = {"it": None, "out": [], "done": False}

    def hook(k, u):
        if g["done"]:
            return
        if g["it"] is None:
            g["it"] = b.actions(inner)
        try:
            g["out"] = next(g["it"])
            mon.count("nested_calls")
        except StopIteration:
            g["done"] = True
        except pkg.BaseSolverAS.SolverError as e:
            g["out"] = g["out"] + [np.array([ord(c) for c in type(e).__name__])]
            g["done"] = True
    N = a.p.N()
    N.hook = hook
    ra = a.run(a.shared(N))
    while not g["done"]:
        hook(0, None)
    mon.key(a.name, a.form, a.mode, b.name, b.form, b.mode, share)
    eq(mon, ra, want[0], "outer %s/%s" % (a.name, a.form), inner=(b.name, b.form))
    eq(mon, g["out"], want[1], "inner %s/%s" % (b.name, b.form), outer=(a.name, a.form))


DEF = dict(epsilon=1e-4, incr_f=1.25, decr_f=0.85, safety_f=0.8, adapt_cutoff=0.01, minh=1e-16)
EDEF = dict(modecutoff=0.01, contour_points=32, contour_radius=1.0)


def config(rng, mon, idx):
    """Settings changed on one solver built without an explicit configuration leave all others at the defaults."""
    forms = [x for x in pkg.all_forms() if pkg.is_as(x[0]) or x[0] in pkg.ETDS]
    hist = []
    solvers = []
    expect = []
    for _ in range(int(rng.integers(4, 14))):
        if not solvers or rng.random() < 0.45:
            name, form = forms[rng.integers(len(forms))]
            L = -np.arange(1.0, 4)
            s = pkg.make(name, L if form == "diag" else np.diag(L), lambda u: u, form)
            solvers.append(s)
            expect.append((dict(DEF) if hasattr(s, "config") else {}, dict(EDEF) if hasattr(s, "etd_config") else {}))
            hist.append("new " + name)
            mon.count("solvers_built")
        else:
            i = int(rng.integers(len(solvers)))
            s = solvers[i]
            which = "config" if (hasattr(s, "config") and (rng.random() < 0.6 or not hasattr(s, "etd_config"))) else "etd_config"
            ch = {"config": dict(epsilon=gen.log_u(rng, 1e-8, 1e-1), incr_f=float(rng.uniform(1.1, 3)), decr_f=float(rng.uniform(0.3, 0.9)), safety_f=float(rng.uniform(0.2, 1)),
                                 adapt_cutoff=float(rng.uniform(0, 0.9)), minh=gen.log_u(rng, 1e-12, 1e-3)),
                  "etd_config": dict(modecutoff=float(rng.uniform(0.01, 1)), contour_points=int(rng.integers(2, 64)), contour_radius=float(rng.uniform(0.2, 3)))}[which]
            k = sorted(ch)[int(rng.integers(len(ch)))]
            setattr(getattr(s, which), k, ch[k])
            expect[i][which == "etd_config"][k] = ch[k]
            hist.append("%d.%s" % (i, k))
            mon.count("settings_changed")
        for s, (c, e) in zip(solvers, expect):
            for o, d in ((getattr(s, "config", None), c), (getattr(s, "etd_config", None), e)):
                for k, v in d.items():
                    if not mon.check(getattr(o, k) == v, "setting %s of one solver changed through another solver" % k, got=getattr(o, k), want=v, history=hist):
                        return
    if len(solvers) > 1:
        mon.key(hist)
    mon.note(history=hist)


def memo(rng, mon, idx):
    """Many solvers of one class with operators that are easily confused: each first step against the reference."""
    name, form = probe.pick_form(rng, idx, [x for x in pkg.all_forms() if x[1] != "diagonalized"])
    n = int(rng.integers(2, 5))
    cplx = bool(rng.random() < 0.5)
    h = gen.log_u(rng, 1e-3, 1)
    lam = -rng.uniform(0.05, 0.6, n) + (1j * rng.uniform(-0.5, 0.5, n) if cplx else 0)
    variants = [lam, lam[::-1], np.r_[lam[0], lam[1:] * 0.5], lam.conj() if cplx else lam * 0.7, np.roll(lam, 1), lam * 0.9, np.round(lam, 1), -np.abs(lam)]
    u = gen.cnorm(rng, n, True)
    order = rng.permutation(len(variants))
    keep = []
    for k in order:
        z = np.asarray(variants[k])
        M = z / h if form == "diag" else (np.diag(z) + 0.05 * np.diag(np.ones(n - 1), 1)) / h
        _, f = gen.nonlinear(rng, n, True, 0.5 / h, kinds=("sat",))
        s = pkg.make(name, M, f, form)
        if pkg.is_as(name):
            s.config.epsilon = 1e12
        want, tol, _, _ = ref.attempt(name, M, h, u, f, form, {}, rng, kappa=30.0)
        got = s.step(u, h)
        if pkg.is_as(name) and got[1] != h:
            raise Inconclusive("step shortened")
        mon.count("memo_solvers")
        probe.close(mon, got[0] if pkg.is_as(name) else got, want, tol, "%s/%s: step of one of several similar solvers" % (name, form), variant=int(k), order=order)
        if rng.random() < 0.5:
            keep.append(s)
        del s, M, z, f, got       # memory of dropped operators and solvers is used again by later ones
    mon.key(name, form, order)


C.stratum("memo", 150, 3000, fn=memo)
C.stratum("interleave", 600, 15000, fn=interleave, isolate=True)
C.stratum("threads", 250, 6000, fn=threads, isolate=True)
C.stratum("free-threads", 60, 1500, fn=free, isolate=True)
C.stratum("nested", 300, 6000, fn=nested, isolate=True)
C.stratum("default-config", 200, 4000, fn=config)
C.require("call_switches", "thread_switches_inside_steps", "free_thread_runs", "nested_calls", "settings_changed", "results_compared", "memo_solvers")

if __name__ == "__main__":
    sys.exit(C.main())
