"""C32: coefficients are computed only when the step size changes, and memory and cost do not grow with the length of a run."""
import gc, sys, time, tracemalloc, weakref
import numpy as np
import scipy.linalg
from rkv import pkg, gen, probe
from rkv.harness import Check, Inconclusive

C = Check("C32", "step sequences and runs under an allocation monitor (tracemalloc: retained and peak bytes against run length, storage settings, number of step sizes used, number of solvers built and dropped), a call monitor on the exponential/inverse/expm primitives (calls against changes of the step size), object lifetimes by weak references, "
          "and processor time against run length; non-trivial = every run measured; distinct by solver, form, size and workload",
          assumptions=["primitives are counted where the package reaches them through numpy / scipy attributes or its own module globals", "processor-time rules leave a factor 2 to spare"])
FORMS = pkg.all_forms()


def used():
    gc.collect()
    return tracemalloc.get_traced_memory()[0]


class Traced:
    def __enter__(self):
        tracemalloc.start()
        return self

    def __exit__(self, *a):
        tracemalloc.stop()


def problem(rng, name, form, big=True):
    """(L, N, u0, bytes of a state): a calm problem of some size."""
    n = int(rng.integers(300, 1500)) if form == "diag" else int(rng.integers(12, 24))
    lam = -rng.uniform(0.05, 1.0, n) + 0.3j * rng.standard_normal(n)
    lam *= 0.5 / np.max(np.abs(lam))
    L = lam if form == "diag" else np.diag(lam) + 0.02 * gen.cnorm(rng, (n, n), True) / n
    w = rng.uniform(0.5, 1.0, n)
    N = lambda u: 1j * w * u
    return L, N, gen.cnorm(rng, n, True) + 2, 16 * n, n


def make(rng, name, form, L, N, eps=1e-4):
    # all modes by the contour, or none: how many varies with the step size otherwise
    etd = pkg.ETDConfig(modecutoff=float(rng.choice([1.0, 1e-12]))) if name in pkg.ETDS else None
    return pkg.make(name, L, N, form, pkg.SolverConfig(epsilon=eps) if pkg.is_as(name) else None, etd)


def one(s, name, u, h):
    r = s.step(u, h)
    return r[0] if pkg.is_as(name) else r


def run_memory(rng, mon, idx):
    """Peak and retained memory of a run against its length and storage."""
    name, form = FORMS[idx % len(FORMS)]
    L, N, u0, sz, n = problem(rng, name, form)
    aso = pkg.is_as(name)
    s = make(rng, name, form, L, N, 1e-5)
    tag = "%s/%s run memory" % (name, form)
    freq = int(rng.integers(1, 8))
    lens = (15, 150) if not aso else (2.0, 20.0)

    def go(k, store):
        if aso:
            s.evolve(u0, 0.0, k, 0.05, store_data=store, store_freq=freq)
        else:
            s.evolve(u0, 0.0, k * 0.02, 0.02, store_data=store, store_freq=freq)
        return len(s.u)
    with Traced():
        for store in (False, True):
            go(lens[0], False)
            s.reset()
            res = []
            for k in lens:
                base = used()
                tracemalloc.reset_peak()
                m = go(k, store)
                peak = tracemalloc.get_traced_memory()[1] - base
                kept = used() - base
                s.reset()
                left = used() - base
                res.append((m, peak, kept, left))
            (m1, p1, k1, l1), (m2, p2, k2, l2) = res
            allow = 6 * sz + 60000
            if store:
                if not aso:
                    mon.check(m2 > m1, tag + ": nothing stored")
                mon.check(k2 - k1 <= 1.5 * (m2 - m1) * sz + 1000 * (m2 - m1) + allow, tag + ": stored data take more room than the snapshots", kept=(k1, k2), snapshots=(m1, m2), state=sz)
                mon.check(p2 - p1 <= 2.5 * (m2 - m1) * sz + 2000 * (m2 - m1) + allow, tag + ": peak memory grows faster than the snapshots", peak=(p1, p2), snapshots=(m1, m2), state=sz)
            else:
                mon.check(k2 - k1 <= allow, tag + ": memory kept by a run without storage grows with its length", kept=(k1, k2), state=sz, lengths=lens)
                mon.check(p2 - p1 <= allow, tag + ": peak memory of a run without storage grows with its length", peak=(p1, p2), state=sz, lengths=lens)
            mon.check(l2 - l1 <= allow, tag + ": reset does not release what the run stored", left=(l1, l2), state=sz, lengths=lens, store=store)
            mon.count("runs_measured", 2)
            mon.count("bytes_watched", p2)
    mon.key(tag, n, freq)
    mon.note(solver=tag, n=n, freq=freq)


def sizes(rng, mon, idx):
    """Many step sizes, many steps, many rejections: retained memory stays that of one set of coefficients."""
    name, form = FORMS[idx % len(FORMS)]
    L, N, u0, sz, n = problem(rng, name, form)
    aso = pkg.is_as(name)
    kind = ("sizes", "steps", "rejections", "states")[idx // len(FORMS) % 4]
    if kind == "rejections" and not aso:
        kind = "sizes"
    tag = "%s/%s %s" % (name, form, kind)
    with Traced():
        b0 = used()
        s = make(rng, name, form, L, N, 1e-9 if kind == "rejections" else 1e6 if aso else 1e-4)
        one(s, name, u0, 0.01)
        unit = used() - b0
        hs = iter(0.01 * (1 + 0.9 * rng.random(10000)))

        def phase(k):
            u = u0
            for i in range(k):
                if kind == "sizes":
                    u = one(s, name, u, float(next(hs)))
                elif kind == "steps":
                    u = one(s, name, u, 0.01)
                elif kind == "states":
                    u = one(s, name, u0 * (1 + 0.01 * i), 0.01)
                else:
                    u = one(s, name, u, 0.5 + float(next(hs)))
                if np.max(np.abs(u)) > 1e3:
                    u = u0
        phase(20)
        u1 = used()
        phase(200)
        u2 = used()
    mon.check(u2 - u1 <= 60 * max(unit, sz) if kind in ("sizes", "rejections") else u2 - u1 <= 6 * sz + 40000, tag + ": memory grows with the number of steps taken", growth=u2 - u1, solver=unit, state=sz, n=n)
    mon.count("runs_measured")
    mon.count("bytes_watched", u2)
    mon.key(tag, n, kind)
    mon.note(solver=tag, growth=u2 - u1, solver_bytes=unit)


class Callable:
    """A nonlinear term that can be watched by a weak reference."""

    def __init__(self, f):
        self.f = f
        self.n = 0
        self.fail = 0

    def __call__(self, u):
        self.n += 1
        if self.n == self.fail:
            raise ArithmeticError("stop")
        return self.f(u)


class Op(np.ndarray):
    pass


def lifetime(rng, mon, idx):
    """Dropped solvers disappear with everything they refer to."""
    name, form = FORMS[idx % len(FORMS)]
    aso = pkg.is_as(name)
    tag = "%s/%s lifetime" % (name, form)
    ends = ("plain", "evolved", "interrupted", "refused")[idx // len(FORMS) % 4]
    L, N, u0, sz, n = problem(rng, name, form)
    marks = []

    def life(watch):
        f = Callable(N)
        s = make(rng, name, form, L, f)
        if ends != "refused":
            u = one(s, name, u0, 0.02)
            u = one(s, name, u, 0.02)
        if ends == "evolved":
            s.evolve(u0, 0.0, 0.2, 0.05)
        if ends == "interrupted":
            f.fail = f.n + 5
            try:
                s.evolve(u0, 0.0, 0.2, 0.05)
            except ArithmeticError:
                pass
        if ends == "refused":
            try:
                pkg.make(name, np.zeros((3, 4)), f, "diag", None)
            except ValueError:
                pass
        if watch:
            marks.append((weakref.ref(s), "solver"))
            marks.append((weakref.ref(f), "nonlinear term"))
            if aso:
                marks.append((weakref.ref(s.config), "configuration"))
    with Traced():
        for _ in range(3):
            life(False)
        a = used()
        for _ in range(25):
            life(True)
        b = used()
    for r, what in marks:
        if not mon.check(r() is None, tag + ": the %s of a dropped solver is still alive" % what, how=ends):
            break
        mon.count("objects_watched")
    mon.check(b - a <= 8 * sz + 60000, tag + ": memory grows with the number of solvers built and dropped", growth=b - a, state=sz, solvers=25, how=ends)
    mon.count("runs_measured")
    mon.key(tag, n, ends)
    mon.note(solver=tag, growth=b - a)


class Primitives:
    """Counts calls of the primitives coefficients are made of, wherever the package looks them up."""

    def __init__(self):
        self.n = 0
        self.undo = []

    def __enter__(self):
        targets = [(np, "exp"), (np, "expm1"), (np.linalg, "inv"), (np.linalg, "solve"), (np.linalg, "eig"), (scipy.linalg, "expm"), (scipy.linalg, "inv")]
        orig = {id(getattr(o, a)): getattr(o, a) for o, a in targets}
        for m in list(sys.modules.values()):
            if getattr(m, "__name__", "").startswith("rkstiff"):
                for a, v in list(vars(m).items()):
                    if id(v) in orig or a in ("psi1", "psi2", "psi3"):
                        targets.append((m, a))
        for o, a in targets:
            f = getattr(o, a)

            def w(*x, _f=f, **k):
                self.n += 1
                return _f(*x, **k)
            self.undo.append((o, a, f))
            setattr(o, a, w)
        return self

    def __exit__(self, *a):
        for o, at, f in reversed(self.undo):
            setattr(o, at, f)


def reuse(rng, mon, idx):
    """Primitives are called in attempts with a new step size only."""
    name, form = FORMS[idx % len(FORMS)]
    p = probe.Prob(rng, name, form, stiff=False)
    aso = pkg.is_as(name)
    eps = gen.log_u(rng, 1e-8, 1e-2)
    tag = "%s/%s reuse" % (name, form)
    s = probe.make_rec(name, p.L, lambda u: p.f(np.asarray(u)), form, pkg.SolverConfig(epsilon=eps) if aso else None)
    log = []
    with Primitives() as pr:
        upd = s._update_stages

        def watched(u, h):
            a, r0 = pr.n, upd(u, h)
            log.append((float(h), pr.n - a))
            return r0
        s._update_stages = watched
        # the nonlinear terms in use call no such primitive
        a = pr.n
        p.f(p.u0)
        if pr.n != a:
            raise Inconclusive("nonlinear term uses the primitives itself")
        try:
            u, h = p.u0, min(gen.log_u(rng, 1e-3, 0.5), p.hmax)
            for _ in range(int(rng.integers(4, 15))):
                if aso:
                    u, _, h = s.step(u, equal(rng, h))
                    h = min(float(h), p.hmax)
                else:
                    u = s.step(u, equal(rng, h))
                    if rng.random() < 0.3:
                        h = min(h * float(rng.choice([0.5, 0.999999, 1.2])), p.hmax)
                if rng.random() < 0.2:
                    u = p.u0 * float(rng.uniform(0.5, 1))     # a state of its own
            cut = len(log)
            T = min(1.0, p.hmax * 8)
            if aso:
                s.evolve(p.u0, 0.0, min(T, p.hmax) if np.isfinite(p.hmax) else T, min(0.05, p.hmax))
            else:
                s.evolve(p.u0, 0.0, T, T / int(rng.integers(8, 30)))
        except (pkg.BaseSolverAS.MinimumStepReached, pkg.BaseSolverAS.MaxLoopsExceeded) as e:
            raise Inconclusive(type(e).__name__)
    first = True
    prev = None
    for i, (h, c) in enumerate(log):
        fresh = first or i == cut or h != prev
        if fresh:
            mon.count("new_sizes")
            mon.count("primitive_calls", c)
        else:
            mon.count("repeated_sizes")
            if not mon.check(c == 0, tag + ": coefficients are computed again although the step size did not change", attempt=i, h=h, calls=c):
                return
        first, prev = False, h
    mon.check(sum(c for _, c in log) > 0 or form != "diag", tag + ": no primitive seen")
    mon.key(tag, p.kind, eps, len(log))
    mon.note(solver=tag, attempts=len(log))


def equal(rng, h):
    """An equal step size, as another object."""
    return (float(repr(float(h))), np.float64(h), np.array(float(h)), float(np.float64(h)))[rng.integers(4)]


def clock(f, reps=3):
    best = np.inf
    for _ in range(reps):
        t = time.thread_time()
        f()
        best = min(best, time.thread_time() - t)
    return best


def cost(rng, mon, idx):
    """A step of the same size costs much less than one of a new size, where the coefficients are expensive."""
    name, form = FORMS[idx % len(FORMS)]
    etd = name in pkg.ETDS
    if form == "diag" and not etd:
        raise Inconclusive("coefficients as cheap as the step")
    aso = pkg.is_as(name)
    if form == "diag":
        n = int(rng.integers(3000, 6000))
        L = -1e-6 * rng.random(n)
        cfg = pkg.ETDConfig(contour_points=32)
    elif form == "full":
        n = int(rng.integers(50, 80)) if etd else int(rng.integers(120, 160))
        L = -np.diag(rng.random(n)) + 0.01 * rng.standard_normal((n, n)) / n
        cfg = None
    else:
        if not etd:
            raise Inconclusive("coefficients as cheap as the step")
        n = int(rng.integers(40, 60))
        L = -np.diag(0.5 + rng.random(n))
        cfg = pkg.ETDConfig(contour_points=600, modecutoff=1.0)
    u0 = rng.standard_normal(n) + 0j
    s = pkg.make(name, L, lambda u: -0.1 * u, form, pkg.SolverConfig(epsilon=1e9) if aso else None, cfg)
    sizes = iter(0.01 * (1 + rng.random(400)))
    one(s, name, u0, float(next(sizes)))
    new = clock(lambda: one(s, name, u0, float(next(sizes))), 5)
    h = float(next(sizes))
    one(s, name, u0, h)
    same = min(clock(lambda: one(s, name, u0, h), 15) for _ in range(2))
    tag = "%s/%s cost" % (name, form)
    mon.check(same <= 0.5 * new, tag + ": a step of the same size is not much cheaper than one of a new size", same=same, new=new, n=n)
    mon.count("costs_compared")
    mon.key(tag, n)
    mon.note(solver=tag, n=n, same_ms=same * 1e3, new_ms=new * 1e3)


def length(rng, mon, idx):
    """Processor time of a run is linear in its length."""
    if idx % 2:
        s = probe.ScriptedCS(2, loglevel="ERROR")
        s._update_stages = lambda u, h: u
        go = lambda k: s.evolve(np.ones(2), 0.0, float(k), 1.0, store_data=store, store_freq=fq)
    else:
        cfg = pkg.SolverConfig()
        un, er = np.ones(2), np.full(2, cfg.epsilon * (cfg.safety_f / 1.1) ** 4)
        s = probe.Scripted(lambda k, u, h: (un, er), 4, cfg, 2, loglevel="ERROR")
        s._update_stages = lambda u, h: (un, er)
        go = lambda k: s.evolve(np.ones(2), 0.0, float(k), 1.0, store_data=store, store_freq=fq)
    store, fq = bool(rng.random() < 0.7), int(rng.choice([1, 1, 2, 10]))
    short, long = (4000, 20000) if idx % 2 == 0 else (10000, 50000)
    gc.collect()
    gc.disable()
    try:
        a = clock(lambda: go(short), 3)
        b = clock(lambda: go(long), 2)
    finally:
        gc.enable()
    mon.check(b <= 10 * a + 0.05, "evolve: five times the steps take more than ten times the time", short=a, long=b, steps=(short, long), store=store)
    mon.count("costs_compared")
    mon.key("length", idx % 2, store, fq)
    mon.note(short_s=a, long_s=b)


def long_run(rng, mon, idx):
    """Retained and peak memory of very many cheap steps, steps and rejections, without storage."""
    kind = ("steps", "evolve", "rejections")[idx // 2 % 3]
    n = int(rng.integers(1, 4))
    cfg = pkg.SolverConfig()
    un = np.ones(n)
    errs = np.full(n, cfg.epsilon * (cfg.safety_f / 1.1) ** 4), np.full(n, cfg.epsilon * (cfg.safety_f / 0.5) ** 4)
    count = [0]
    if idx % 2:
        s = probe.ScriptedCS(n, loglevel="ERROR")
        s._update_stages = lambda u, h: u
        kind = "evolve" if kind == "rejections" else kind
    else:
        s = probe.Scripted(lambda k, u, h: (un, errs[0]), 4, cfg, n, loglevel="ERROR")

        def stages(u, h):
            count[0] += 1
            return un, errs[1 if kind == "rejections" and count[0] % 3 else 0]
        s._update_stages = stages

    def go(k):
        u, h = np.ones(n), 1.0
        if kind == "evolve":
            s.evolve(u, 0.0, float(k), 1.0, store_data=False)
        else:
            for _ in range(k):
                r = s.step(u, h)
                u = r[0] if isinstance(r, tuple) else r
    with Traced():
        go(1500)
        base = used()
        tracemalloc.reset_peak()
        go(9000)
        kept, peak = used() - base, tracemalloc.get_traced_memory()[1] - base
    mon.check(kept <= 24000, "%s %s: memory is kept that grows with the number of steps" % (type(s).__bases__[0].__name__, kind), kept=kept, steps=9000)
    mon.check(peak <= 60000, "%s %s: peak memory grows with the number of steps" % (type(s).__bases__[0].__name__, kind), peak=peak, steps=9000)
    mon.count("long_runs_measured")
    mon.key("long", idx % 2, kind, n)


C.stratum("long-run", 6, 120, fn=long_run, chunk=1)
C.stratum("run-memory", 34, 800, fn=run_memory, chunk=2)
C.stratum("sizes", 68, 1400, fn=sizes, chunk=2)
C.stratum("lifetime", 68, 1400, fn=lifetime, chunk=2)
C.stratum("reuse", 300, 8000, fn=reuse)
C.stratum("cost", 34, 300, fn=cost, chunk=2)
C.stratum("length", 8, 60, fn=length, chunk=1)
C.require("runs_measured", "long_runs_measured", "bytes_watched", "objects_watched", "new_sizes", "repeated_sizes", "primitive_calls", "costs_compared")

if __name__ == "__main__":
    sys.exit(C.main())
