"""C31: the package leaves the process-wide state alone and does not depend on it."""
import contextlib, decimal, gc, io, locale, logging, os, random, shutil, signal, sys, tempfile, threading, warnings
import numpy as np
import scipy.linalg
from rkv import pkg, gen, probe
from rkv.harness import Check, Inconclusive

C = Check("C31", "whole sessions (solvers built, stepped, evolved, interrupted, refused, collected; grids, derivatives, transforms, models, configurations) between two snapshots of everything a process shares - numpy error state, print options, random generators, warning filters, logging tree, environment, working directory and its files, standard output, "
          "threads, garbage collector, signal handlers, numpy/scipy functions - and again under a different such state, results compared bit for bit; the nonlinear term's own floating-point signals must follow the caller's settings; non-trivial = sessions with a run; distinct by workload and altered settings",
          assumptions=["settings that change what numpy computes or raises (error state 'raise', BLAS threads) are not varied"])


THREADS = ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS")


def process_state():
    """Everything shared, by name."""
    st = {}
    st["numpy error state"] = np.geterr()
    st["numpy error callback"] = np.geterrcall()
    st["numpy buffer size"] = np.getbufsize()
    st["print options"] = {k: v for k, v in np.get_printoptions().items()}
    st["warning filters"] = list(warnings.filters)
    st["showwarning"] = warnings.showwarning
    s = np.random.get_state()
    st["numpy random state"] = (s[0], s[1].tobytes()) + s[2:]
    st["random state"] = random.getstate()
    m = logging.root.manager
    st["root logger"] = (logging.root.level, list(logging.root.handlers), list(logging.root.filters), logging.root.disabled)
    st["logging"] = (logging.raiseExceptions, m.disable, logging.getLoggerClass(), logging.getLogRecordFactory(), logging.lastResort, logging.Formatter.default_time_format, logging.getLevelName(10), logging.getLevelName(30), logging.getLevelName(35), logging.logThreads)
    st["other loggers"] = {n: (l.level, list(l.handlers), l.propagate, l.disabled) for n, l in m.loggerDict.items() if isinstance(l, logging.Logger) and not n.startswith("rkstiff.")}
    st["environment"] = dict(os.environ)
    st["working directory"] = os.getcwd()
    st["streams and hooks"] = (sys.stdout, sys.stderr, sys.stdin, sys.excepthook, sys.displayhook, sys.unraisablehook, sys.gettrace(), sys.getprofile())
    st["interpreter"] = (sys.getrecursionlimit(), sys.getswitchinterval(), sys.dont_write_bytecode, sys.get_int_max_str_digits())
    st["search path"] = list(sys.path)
    st["garbage collector"] = (gc.isenabled(), gc.get_threshold(), gc.get_debug(), list(gc.callbacks))
    st["signals"] = {n: signal.getsignal(n) for n in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGFPE, signal.SIGUSR1)}
    st["threads"] = threading.active_count()
    st["locale"] = locale.setlocale(locale.LC_ALL)
    c = decimal.getcontext()
    st["decimal"] = (c.prec, c.rounding)
    st["umask"] = None
    st["numpy functions"] = {n: id(getattr(np, n)) for n in ("exp", "dot", "abs", "sum", "any", "zeros", "array", "power", "isnan", "isinf", "errstate", "float64", "complex128")}
    st["numpy submodules"] = {n: id(getattr(np.linalg, n)) for n in ("inv", "eig", "norm", "cond", "solve")} | {n: id(getattr(np.fft, n)) for n in ("fft", "ifft", "rfft", "irfft")}
    st["scipy functions"] = {n: id(getattr(scipy.linalg, n)) for n in ("expm", "inv", "eig")}
    st["default integer and float"] = (np.array([1]).dtype.str, np.array([1.0]).dtype.str)
    return st


def solver_work(rng, name, form):
    """A fixed plan: f() performs it and returns its results."""
    p = probe.Prob(rng, name, form, n=int(rng.integers(20, 70)) if form != "diag" and rng.random() < 0.2 else None, stiff=bool(rng.random() < 0.3))
    aso = pkg.is_as(name)
    kw = dict(epsilon=gen.log_u(rng, 1e-7, 1e-2), minh=1e-30)
    h = min(gen.log_u(rng, 1e-3, 0.3), p.hmax)
    T = min(float(rng.uniform(0.1, 1.5)), 20 * h if not aso else (p.hmax if np.isfinite(p.hmax) else 1e9))
    n = max(1, int(T / h)) if not aso else 1
    level = str(rng.choice(["DEBUG", "INFO", "WARNING", "CRITICAL"]))
    bad = int(rng.integers(2, 12))
    poison = int(rng.integers(2, 20)) if aso and rng.random() < 0.3 else 0

    def f():
        out = []
        cfg = pkg.SolverConfig(**kw) if aso else None
        N = p.N()
        s = pkg.make(name, p.L, N, form, cfg, pkg.ETDConfig() if name in pkg.ETDS else None, level)
        u, hh = p.u0, h
        for _ in range(3):
            if aso:
                u, a, hh = s.step(u, hh)
                out += [a, hh]
                hh = min(hh, p.hmax)
            else:
                u = s.step(u, hh)
            out.append(u)
        out.append(s.evolve(p.u0, 0.0, T, min(h, T)) if aso else s.evolve(p.u0, 0.0, n * h, h))
        out += list(s.t) + list(s.u)
        s.set_loglevel("ERROR")
        # ends with an exception
        N.fault_at = {N.calls + bad: KeyError("interrupted")}
        try:
            s.evolve(p.u0, 0.0, T, min(h, T)) if aso else s.evolve(p.u0, 0.0, n * h, h)
            out.append("not interrupted")
        except KeyError as e:
            out.append(str(e))
        if poison:
            # non-finite values from here on: documented errors
            N2 = gen.NL(lambda v: np.full(v.shape, np.nan) if N2.calls >= poison else p.f(v))
            s2 = pkg.make(name, p.L, N2, form, cfg, None, level)
            try:
                with np.errstate(all="ignore"):
                    out.append(s2.evolve(p.u0, 0.0, T, min(h, T)))
            except s2.SolverError as e:
                out.append(type(e).__name__)
        s.reset()
        out.append(repr(getattr(s, "solver_type")))
        return out
    return f


def other_work(rng):
    n = 2 * int(rng.integers(2, 25))
    a, b = sorted(rng.uniform(-5, 5, 2))
    b = b + 0.5
    data = rng.standard_normal((n + 1, 3))
    rm = float(rng.uniform(0.1, 10))

    def refused(fn, out, *args, **k):
        try:
            fn(*args, **k)
            out.append("accepted")
        except (ValueError, TypeError) as e:
            out.append(type(e).__name__)

    def f():
        out = []
        G, D, M = pkg.grids, pkg.derivatives, pkg.models
        x, k = G.construct_x_kx_rfft(n, a, b)
        out += [x, k] + list(G.construct_x_kx_fft(n, a, b)) + list(G.construct_x_cheb(n, a, b) if isinstance(G.construct_x_cheb(n, a, b), tuple) else [G.construct_x_cheb(n, a, b)])
        out.append(D.dx_rfft(k, data[:n, 0], 2))
        out.append(D.dx_fft(G.construct_x_kx_fft(n, a, b)[1], data[:n, 0] + 1j, 1))
        xc, W = G.construct_x_dx_cheb(n, a, b)
        out += [xc, W, D.dx_cheb(W, data, 2)]
        H = pkg.transforms.HankelTransform(max(n, 4), rm)
        out += [H.r, H.kr, H.ht(data[:max(n, 4), 0]) if n >= 4 else 0, H.hankel_matrix(), H.bessel_zeros()]
        H.nr = 7
        H.rmax = 2 * rm
        out.append(H.iht(data[:7] if n >= 7 else np.ones(7)))
        out += [y for y in G.mirror_grid(H.r, np.ones(7))]
        L, N = M.kdv_ops(k)
        out += [L, N(np.fft.rfft(data[:n, 0]))]
        L, N = M.burgers_ops(k, 0.01)
        out += [L, N(np.fft.rfft(data[:n, 0]))]
        L, N = M.allen_cahn_ops(xc, W, 0.01)
        out += [L, N(data[1:-1, 0])]
        out += [M.kdv_soliton(x, 0.5, 0.1, 0.2), M.kdv_multi_soliton(x, [0.5, 0.7], [0.1, 1.0], 0.2)]
        out += [p(data[:, 0] + 3) for p in (pkg.psi1, pkg.psi2, pkg.psi3)]
        refused(G.construct_x_kx_rfft, out, 5)
        refused(G.construct_x_dx_cheb, out, 1)
        refused(pkg.SolverConfig, out, epsilon=-1)
        refused(pkg.ETDConfig, out, contour_points=1)
        refused(pkg.ETD4, out, np.zeros((2, 3)), lambda u: u)
        refused(pkg.IF4, out, np.zeros(2), lambda u: u, loglevel="no such level")
        return out
    return f


def run(work):
    return [f() for f in work]


def same(a, b):
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (str, type(None))):
        return a == b
    return gen.same(a, b) and np.asarray(a).dtype == np.asarray(b).dtype


@contextlib.contextmanager
def captured_fd(fd):
    """What is written to a file descriptor, by whatever means."""
    tmp = tempfile.TemporaryFile()
    sys.stdout.flush()
    saved = os.dup(fd)
    os.dup2(tmp.fileno(), fd)
    got = []
    try:
        yield got
    finally:
        sys.stdout.flush()
        os.dup2(saved, fd)
        os.close(saved)
        tmp.seek(0)
        got.append(tmp.read())
        tmp.close()


class Formatting(logging.Handler):
    def __init__(self):
        super().__init__(0)
        self.n = 0

    def emit(self, r):
        self.n += 1
        r.getMessage()


def plan(rng, idx):
    name, form = probe.pick_form(rng, idx)
    work = [solver_work(rng, name, form)]
    if rng.random() < 0.5:
        work.append(other_work(rng))
    if rng.random() < 0.3:
        nm, fo = probe.pick_form(rng, int(rng.integers(1000)))
        work.append(solver_work(rng, nm, fo))
    return name, form, work


class Scratch:
    """A scratch working directory."""

    def __enter__(self):
        self.old = os.getcwd()
        self.dir = tempfile.mkdtemp(prefix="rkv_c31_")
        os.chdir(self.dir)
        return self.dir

    def __exit__(self, *a):
        os.chdir(self.old)
        shutil.rmtree(self.dir, ignore_errors=True)


def session(rng, mon, idx):
    """Nothing shared is changed."""
    name, form, work = plan(rng, idx)
    tag = "%s/%s" % (name, form)
    # once in whatever state this process is in
    gc.enable()
    for v in THREADS:
        os.environ.pop(v, None)         # set by run.sh, long read by now
    level = logging.root.level
    logging.root.setLevel(int(rng.choice([30, 30, 50, 5])))
    st0, rst0 = np.random.get_state(), random.getstate()
    before = process_state()
    try:
        ref = run(work)
    except (pkg.BaseSolverAS.MinimumStepReached, pkg.BaseSolverAS.MaxLoopsExceeded) as e:
        raise Inconclusive(type(e).__name__)
    finally:
        after = process_state()
        logging.root.setLevel(level)
        gc.enable()
        np.random.set_state(st0)
        random.setstate(rst0)
    for k in before:
        mon.check(before[k] == after[k], tag + ": %s changed" % k, before=str(before[k])[:300], after=str(after[k])[:300])
    # and in one that was set up
    set_err = {k: str(rng.choice(["ignore", "warn"])) for k in ("over", "divide", "invalid", "under")}
    opts = dict(precision=int(rng.integers(2, 12)), suppress=bool(rng.random() < 0.5), linewidth=int(rng.integers(40, 120)))
    with Scratch() as d, np.printoptions(**opts), np.errstate(**set_err), warnings.catch_warnings():
        warnings.simplefilter(str(rng.choice(["ignore", "always"])))
        warnings.showwarning = lambda *a, **k: None
        random.seed(int(rng.integers(1 << 30)))
        st0 = np.random.get_state()
        np.random.seed(int(rng.integers(1 << 30)))
        host = logging.getLogger("some.application")
        host.setLevel(int(rng.integers(1, 50)))
        before = process_state()
        try:
            with captured_fd(1) as got:
                res = run(work)
                gc.collect()
            after = process_state()
        finally:
            np.random.set_state(st0)
        files = os.listdir(d)
    for k in before:
        mon.check(before[k] == after[k], tag + ": %s changed" % k, before=str(before[k])[:300], after=str(after[k])[:300])
        mon.count("settings_compared")
    mon.check(not got[0], tag + ": something was written to standard output", text=got[0][:200].decode("utf8", "replace"))
    mon.check(not files, tag + ": files were left in the working directory", files=files)
    mon.check(same(ref, res), tag + ": results differ after changing print options, error state, random seeds, warning filters and directory", settings=set_err)
    mon.count("sessions")
    mon.key(tag, set_err, opts, idx)
    mon.note(solver=tag, parts=len(work))


def settings(rng, mon, idx):
    """Results do not depend on anything shared."""
    name, form, work = plan(rng, idx)
    tag = "%s/%s" % (name, form)
    try:
        ref = run(work)
    except (pkg.BaseSolverAS.MinimumStepReached, pkg.BaseSolverAS.MaxLoopsExceeded) as e:
        raise Inconclusive(type(e).__name__)
    which = sorted(rng.choice(["random", "errstate", "print", "warnings", "logging", "gc", "recursion", "env", "bufsize", "optimistic time", "handlers", "disabled"], int(rng.integers(2, 8)), replace=False))
    with contextlib.ExitStack() as es:
        d = es.enter_context(Scratch())
        del d
        st, rst = np.random.get_state(), random.getstate()
        es.callback(np.random.set_state, st)
        es.callback(random.setstate, rst)
        if "random" in which:
            np.random.seed(7)
            random.seed(7)
        if "errstate" in which:
            es.enter_context(np.errstate(over="call", divide="warn", invalid="call", under="warn", call=lambda *a: None))
        if "print" in which:
            es.enter_context(np.printoptions(precision=1, threshold=3, suppress=True, sign="+"))
        if "warnings" in which:
            es.enter_context(warnings.catch_warnings())
            warnings.simplefilter("always")
            warnings.showwarning = lambda *a, **k: None
        fmt = Formatting()
        pk = logging.getLogger("rkstiff")
        if "logging" in which:
            old = logging.root.level
            logging.root.setLevel(1)
            es.callback(logging.root.setLevel, old)
            pk.addHandler(fmt)
            es.callback(pk.removeHandler, fmt)
            prop = pk.propagate
            pk.propagate = True
            es.callback(setattr, pk, "propagate", prop)
            # the user's own handlers on the root logger
            logging.root.addHandler(fmt)
            es.callback(logging.root.removeHandler, fmt)
        if "handlers" in which:
            lg = logging.getLogger("rkstiff." + name)
            saved = list(lg.handlers)
            lg.handlers[:] = [fmt]
            es.callback(lg.handlers.__setitem__, slice(None), saved)
        if "disabled" in which:
            logging.disable(logging.CRITICAL)
            es.callback(logging.disable, logging.NOTSET)
        if "gc" in which:
            gc.disable()
            es.callback(gc.enable)
        if "recursion" in which:
            old = sys.getrecursionlimit()
            sys.setrecursionlimit(400)
            es.callback(sys.setrecursionlimit, old)
        if "env" in which:
            for k in ("RKSTIFF_DEBUG", "DEBUG", "PYTHONHASHSEED", "HOME", "TZ", "LANG"):
                was = os.environ.get(k)
                os.environ[k] = "1"
                es.callback(lambda k=k, was=was: os.environ.pop(k, None) if was is None else os.environ.__setitem__(k, was))
        if "bufsize" in which:
            old = np.setbufsize(int(rng.choice([16, 1024, 65536])))
            es.callback(np.setbufsize, old)
        if "optimistic time" in which:
            import time as _t
            real = _t.time
            _t.time = lambda: 0.0          # a clock that stands still
            es.callback(setattr, _t, "time", real)
        res = run(work)
    mon.check(same(ref, res), tag + ": results depend on process-wide settings", altered=list(which))
    mon.count("runs_under_other_settings")
    mon.count("log_records_formatted", fmt.n)
    mon.key(tag, which, idx)
    mon.note(solver=tag, altered=list(which))


def signals_of_n(rng, mon, idx):
    """The nonlinear term runs under the caller's floating-point settings."""
    name, form = probe.pick_form(rng, idx)
    p = probe.Prob(rng, name, form, stiff=False)
    aso = pkg.is_as(name)
    at = int(rng.integers(1, 8))
    what = ("divide", "invalid", "over")[rng.integers(3)]
    seen = []

    def N(u):
        seen.append(dict(np.geterr()))
        if len(seen) == at:
            if what == "divide":
                np.ones(1) / np.zeros(1)
            elif what == "invalid":
                np.zeros(1) / np.zeros(1)
            else:
                np.full(1, 1e308) * 10
        return p.f(u)
    h = min(0.05, p.hmax)
    s = pkg.make(name, p.L, N, form, pkg.SolverConfig(epsilon=1e-3) if aso else None)
    tag = "%s/%s" % (name, form)

    def go():
        u, hh = p.u0, h
        for _ in range(4):
            u = s.step(u, hh)
            u = u[0] if aso else u
    mode = {k: str(rng.choice(["ignore", "raise", "warn"])) for k in ("divide", "invalid", "over")}
    mode["under"] = "ignore"
    # only the settings of one kind raise, so that the package's own arithmetic is not affected
    mode = {k: (v if v != "raise" or k == what else "ignore") for k, v in mode.items()}
    raised = False
    with np.errstate(**mode):
        before = np.geterr()
        try:
            go()
        except FloatingPointError:
            raised = True
        mon.check(np.geterr() == before, tag + ": error state changed by a step", before=before, after=np.geterr(), raised=raised)
    if len(seen) >= at:
        mon.check(raised == (mode[what] == "raise"), tag + ": the nonlinear term's own floating-point error did not follow the caller's settings", what=what, mode=mode, raised=raised)
        mon.check(all(x == before for x in seen), tag + ": the nonlinear term was called under another error state", caller=before, seen=seen[0])
        mon.count("signals_followed")
        mon.key(tag, what, mode, at)


C.stratum("session", 1200, 12000, fn=session)
C.stratum("settings", 900, 10000, fn=settings)
C.stratum("signals", 600, 6000, fn=signals_of_n)
C.require("settings_compared", "sessions", "runs_under_other_settings", "signals_followed", "log_records_formatted")

if __name__ == "__main__":
    sys.exit(C.main())
