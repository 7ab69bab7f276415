"""C18: storage and logging options never change the numerical result."""
import logging, sys
import numpy as np
from rkv import pkg, gen, probe
from rkv.harness import Check, Inconclusive
from rkv.probe import Scripted, ScriptedCS

C = Check("C18", "groups of identical runs under different store_data, store_freq and log levels (set at construction, at run time, from inside the nonlinear term): every recorded step, step size, evaluation point and result compared bit for bit, "
          "log records counted; logger contract checked against a model over random histories of constructions, level changes and refused names; non-trivial = groups with at least two different option sets, or histories with at least one level change; distinct by solver and options or history")

NAMES = {"DEBUG": 10, "INFO": 20, "WARNING": 30, "ERROR": 40, "CRITICAL": 50}
UNKNOWN = ["VERBOSE", "TRACE", "", "10", "debugg", "LOUD", "none", "handlers", "StreamHandler", "BASIC_FORMAT", "Level 10", "warning!"]


def casing(rng, s):
    k = rng.integers(4)
    return s if k == 0 else s.lower() if k == 1 else s.capitalize() if k == 2 else "".join(c.lower() if rng.random() < 0.5 else c for c in s)


def any_level(rng):
    """(value to pass, level number)"""
    n = list(NAMES)[rng.integers(5)]
    k = rng.integers(4)
    if k == 0:
        return NAMES[n], NAMES[n]
    if k == 1 and rng.random() < 0.5:
        v = int(rng.choice([0, 1, 9, 51, 70, 100, 10 ** 6])) if rng.random() < 0.4 else int(rng.integers(0, 60))
        return v, v
    return casing(rng, n), NAMES[n]


class Counter(logging.Handler):
    """Formats every record (so that a broken log call is noticed) and counts it."""

    def __init__(self):
        super().__init__(level=0)
        self.n = 0
        self.bad = []

    def emit(self, r):
        self.n += 1
        try:
            r.getMessage()
        except Exception as e:  # noqa
            self.bad.append((r.msg, str(e)))


def runs(rng, mon, idx, scripted):
    if scripted:
        adaptive = bool(idx % 2)
        name, form = ("scripted-as" if adaptive else "scripted-cs"), "-"
        nst = int(rng.choice([3, 99, 100, 101, 250, 420]))
        span = gen.log_u(rng, 1e-3, 1e3)
    else:
        name, form = probe.pick_form(rng, idx)
        adaptive = pkg.is_as(name)
        p = probe.Prob(rng, name, form, stiff=False)
        span = float(rng.uniform(0.3, 2))
        nst = int(rng.choice([3, 20, 60, 130, 210])) if form != "full" else int(rng.choice([3, 20, 45]))
        nst = max(nst, int(np.ceil(span / p.hmax)))
        if form == "full" and nst > 220:
            span *= 200.0 / nst
            nst = max(200, int(np.ceil(span / p.hmax)))
    t0 = [0.0, -span, 5, -3.25][rng.integers(4)]
    tf = t0 + span
    cfg_kw = dict(epsilon=gen.log_u(rng, 1e-7, 1e-3))
    facs = np.array([float(rng.choice([0.5, 0.9, 1.05, 1.05, 1.1, 1.4])) for _ in range(41)])
    if scripted and rng.random() < 0.5:
        facs[:] = 1.1
    many = adaptive and not scripted and rng.random() < 0.4 and form == "diag"
    base, opts = None, []
    for k in range(int(rng.integers(2, 5))):
        store, freq = (True, 1) if k == 0 else (bool(rng.random() < 0.6), int(rng.choice([1, 2, 3, 7, 10, 1000])))
        lv, num = ("CRITICAL", 50) if k == 0 else any_level(rng)
        lv2 = any_level(rng)[0] if k and rng.random() < 0.4 else None
        mid = {int(rng.integers(1, 120)): any_level(rng)[0] for _ in range(int(rng.integers(0, 4)))} if k and rng.random() < 0.4 else {}
        opts.append((store, freq, lv, lv2, sorted(mid.items())))
        cfg = pkg.SolverConfig(**cfg_kw)
        if scripted and adaptive:
            sel = cfg.epsilon * cfg.safety_f ** 4

            def mk(i, u, h):
                return np.array([np.sin(i), 1.0 + u[0] * 0.5]), np.full(2, 1.0) * cfg.epsilon * np.linalg.norm([np.sin(i), 1.0 + u[0] * 0.5]) / np.sqrt(2) * (cfg.safety_f / facs[i % 41]) ** 4
            cfg.adapt_cutoff = 0.0
            s = Scripted(mk, 4, cfg, 2, loglevel=lv)
            u0, N = np.ones(2), None
        elif scripted:
            s = ScriptedCS(loglevel=lv)
            u0, N = np.zeros(2), None
        else:
            N = p.N(record=True, budget=100000)
            if many:
                cfg.incr_f = 50.0
            if form == "full" and name in pkg.ETDS:
                cfg.incr_f = 1e9
            s = p.solver(N=N, rec=True, config=cfg, loglevel=lv)
            u0 = p.u0
            N.hook = lambda c, u, s=s, mid=mid: s.set_loglevel(mid[c]) if c in mid else None
        ct = Counter()
        s.logger.addHandler(ct)
        try:
            if lv2 is not None:
                s.set_loglevel(lv2)
            kw = dict(store_data=store, store_freq=freq)
            try:
                u = s.evolve(u0, t0, tf, h_init=span / nst, **kw) if adaptive else s.evolve(u0, t0, tf, h=span / nst, **kw)
                end = "ok"
            except getattr(s, "SolverError", ()) as e:
                u, end = None, type(e).__name__
        finally:
            s.logger.removeHandler(ct)
        mon.count("runs")
        mon.count("log_records_seen", ct.n)
        mon.check(not ct.bad, "log record cannot be formatted", bad=ct.bad[:2])
        if scripted:
            trace = [(a[0], a[1].tobytes(), np.asarray(a[2]).tobytes()) for a in (s.attempts if adaptive else s.log)]
        else:
            trace = [(r[0].tobytes(), r[1], r[2].tobytes(), r[3], r[4]) for r in s.rec_steps] + [a.tobytes() for a in N.args]
        out = (end, None if u is None else np.asarray(u).tobytes(), None if u is None else np.asarray(u).dtype.str)
        mon.count("trace_items", len(trace))
        if not store:
            mon.check(len(s.t) == 0 and len(s.u) == 0, "%s: data stored although store_data is off" % name, n=len(s.t))
        if base is None:
            base = (trace, out, list(s.t), [np.array(x) for x in s.u])
            continue
        mon.count("pairs_compared")
        if not mon.check(out == base[1], "%s/%s: result depends on storage or logging options" % (name, form), options=opts[-1], got=out[0], want=base[1][0]):
            return
        if not mon.check(trace == base[0], "%s/%s: steps or evaluation points depend on storage or logging options" % (name, form), options=opts[-1], got=len(trace), want=len(base[0])):
            return
        if store:
            wt, wu = base[2][::freq], base[3][::freq]
            mon.check(len(s.t) == len(wt) and all(a == b for a, b in zip(s.t, wt)), "%s: stored times are not every store_freq-th" % name, freq=freq, got=s.t[:5], want=wt[:5])
            mon.check(all(gen.same(a, b) for a, b in zip(s.u, wu)), "%s: stored states are not every store_freq-th" % name, freq=freq)
            mon.count("stored_compared", len(wt))
    mon.key(name, form, opts)
    mon.note(solver=name, form=form, options=opts, steps=nst)


def manual(rng, mon, idx):
    """step() under changing log levels."""
    name, form = probe.pick_form(rng, idx)
    p = probe.Prob(rng, name, form, stiff=False)
    hs = [float(min(p.hmax, gen.log_u(rng, 1e-3, 0.3))) for _ in range(6)]
    res = []
    for k in range(3):
        s = p.solver(loglevel=any_level(rng)[0] if k else "CRITICAL")
        u, tr = p.u0, []
        for h in hs:
            if k and rng.random() < 0.6:
                s.set_loglevel(any_level(rng)[0])
            if pkg.is_as(name):
                u, a, b = s.step(u, h)
                tr.append((u.tobytes(), a, b))
            else:
                u = s.step(u, h)
                tr.append(u.tobytes())
        res.append(tr)
        mon.count("manual_steps", len(hs))
    mon.check(res[0] == res[1] == res[2], "%s/%s: steps depend on the log level" % (name, form))
    mon.key(name, form, hs)


def contract(rng, mon, idx):
    """Random histories of constructions and level changes against a model of the logger of each class."""
    L, N = -np.arange(1.0, 4.0), (lambda u: u * 0)
    model = {}
    solvers = []
    hist = []
    own = "Mine%d" % rng.integers(10 ** 9)
    mine = type(own, (pkg.CLS[list(pkg.CLS)[rng.integers(7)]],), {})
    classes = [pkg.CLS[n] for n in list(pkg.CLS)[:]] + [mine]

    def verify():
        for c, lvl in model.items():
            lg = logging.getLogger("rkstiff." + c.__name__)
            mon.check(lg.level == lvl, "logger does not carry the requested level", cls=c.__name__, got=lg.level, want=lvl, history=hist[-4:])
            mon.check(len(lg.handlers) == 1, "logger does not have exactly one handler", cls=c.__name__, got=len(lg.handlers), history=hist[-4:])
        for s, c in solvers:
            mon.check(s.logger is logging.getLogger("rkstiff." + c.__name__) and s.logger.name == "rkstiff." + c.__name__, "solver's logger is not the one named after its class", got=s.logger.name, cls=c.__name__)
        mon.count("contract_checks", len(model))
        return not mon.viols
    for _ in range(int(rng.integers(6, 25))):
        op = rng.integers(6)
        if op <= 1 or not solvers:
            c = classes[rng.integers(len(classes))]
            if rng.random() < 0.2:
                hist.append(("new", c.__name__, None))
                s, want = c(L, N), 30
            elif rng.random() < 0.25:
                bad = UNKNOWN[rng.integers(len(UNKNOWN))]
                hist.append(("new", c.__name__, bad))
                try:
                    c(L, N, loglevel=bad)
                    mon.viol("unknown level name accepted at construction", name=bad)
                    return
                except ValueError:
                    mon.count("unknown_refused")
                    if not verify():
                        return
                    continue
            else:
                v, want = any_level(rng)
                hist.append(("new", c.__name__, v))
                s = c(L, N, loglevel=v)
            solvers.append((s, c))
            model[c] = want
        elif op <= 3:
            s, c = solvers[rng.integers(len(solvers))]
            v, want = any_level(rng)
            hist.append(("set", c.__name__, v))
            if rng.random() < 0.7:
                s.set_loglevel(v)
            else:
                pkg.loghelper.set_log_level(s.logger, v)
            model[c] = want
            mon.count("level_changes")
        elif op == 4:
            s, c = solvers[rng.integers(len(solvers))]
            bad = UNKNOWN[rng.integers(len(UNKNOWN))]
            hist.append(("set", c.__name__, bad))
            try:
                (s.set_loglevel if rng.random() < 0.6 else (lambda b: pkg.loghelper.set_log_level(s.logger, b)))(bad)
                mon.viol("unknown level name accepted", name=bad)
                return
            except ValueError:
                mon.count("unknown_refused")
        else:
            s, c = solvers[rng.integers(len(solvers))]
            v, want = any_level(rng)
            hist.append(("get", c.__name__, v))
            lg = pkg.loghelper.get_solver_logger(c, v)
            mon.check(lg is s.logger, "get_solver_logger returns another logger than the solver's", cls=c.__name__)
            model[c] = want
        if not verify():
            return
    for n in list(NAMES.values()) + [int(rng.integers(1, 60))]:
        want = {v: k for k, v in NAMES.items()}.get(n, "Level %d" % n)
        mon.check(pkg.loghelper.get_level_name(n) == want, "get_level_name", got=pkg.loghelper.get_level_name(n), want=want)
    logging.getLogger("rkstiff." + own).handlers.clear()
    mon.key(hist)
    mon.note(history=hist[:8])


C.stratum("runs-scripted", 240, 4000, fn=lambda r, m, i: runs(r, m, i, True))
C.stratum("runs-real", 260, 4000, fn=lambda r, m, i: runs(r, m, i, False))
C.stratum("manual", 160, 2400, fn=manual)
C.stratum("contract", 240, 4000, fn=contract)
C.require("runs", "pairs_compared", "log_records_seen", "stored_compared", "manual_steps", "contract_checks", "unknown_refused", "level_changes")

if __name__ == "__main__":
    sys.exit(C.main())
