"""C35: what solvers log is well formed and true."""
import logging, re, sys
import numpy as np
from rkv import pkg, gen, probe
from rkv.harness import Check, Inconclusive
from rkv.probe import s_doc

C = Check("C35", "one merged event log per run (log records, attempts, steps, failures, stored snapshots) of steps, evolves, resets and level changes of every solver, with non-finite, failing and long runs; an online monitor follows it and compares every number in a recognized record with what was observed; the same run repeated at every level: its records are the sub-sequence of the full log; "
          "non-trivial = every record judged; distinct by solver, form, run and settings",
          assumptions=["records are recognized by their present wording; a record with other wording is only held to the rules that need none (format, logger, level, sub-sequence, warnings and errors)"])
FLOAT = r"([-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|inf|nan))"


def num(x):
    return r"\s*(?:np\.float64\()?" + x + r"\)?"


F = num(FLOAT)
PATTERNS = [(k, re.compile(v, re.I)) for k, v in [
    ("init", r"^initialized (\w+) solver"), ("shape", r"operator shape: (.*), diagonal: (\w+)"),
    ("config", r"epsilon=" + F + r", incr_f=" + F + r", decr_f=" + F + r", safety_f=" + F),
    ("level", r"level changed to (.+)$"), ("coeffs", r"coefficients updated for step size h=" + F), ("start", r"starting step with h_suggest=" + F),
    ("s", r"computed s=" + F + r" for h=" + F), ("accepted", r"step accepted, returning h=" + F + r", h_suggest=" + F), ("rejected_s", r"step rejected with s =" + F), ("accepted_s", r"step accepted with s =" + F),
    ("reduce", r"reducing step size to" + F), ("increase", r"increasing step size to" + F), ("evolve", r"starting evolution from t=" + F + r" to t=" + F), ("h0", r"(?:initial )?step size h=" + F + r", store_freq=(\d+)"),
    ("progress", r"progress: t=" + F + r"/" + F + r" \(" + F + r"%\), steps=(\d+)"), ("stored", r"stored \w+ at t=" + F + r" \(step (\d+)\)"), ("complete", r"complete after (\d+) steps"), ("snapshots", r"stored (\d+) (?:\w+ )?snapshots")]]


class Tap(logging.Handler):
    def __init__(self, events):
        super().__init__(level=0)
        self.events = events

    def emit(self, r):
        try:
            m = r.getMessage()
        except Exception as e:  # noqa
            m = e
        self.events.append(("rec", r.levelno, m, r.name))


def tapped(name, L, N, form, config, level, events):
    """A solver whose steps and attempts are written into the event log that also receives its log records."""
    base = pkg.CLS[name]
    aso = pkg.is_as(name)
    lg = logging.getLogger("rkstiff." + base.__name__)
    tap = Tap(events)

    class R(base):
        def step(self, u, h):
            events.append(("step", float(h)))
            try:
                r = super().step(u, h)
            except Exception as e:
                events.append(("raised", type(e).__name__))
                raise
            events.append(("stepped", float(r[1]), float(r[2])) if aso else ("stepped", float(h), float(h)))
            return r

        def _update_stages(self, u, h):
            events.append(("attempt", float(h)))
            r = super()._update_stages(u, h)
            events.append(("attempted", float(h), np.array(r[0]), np.array(r[1])) if aso else ("attempted", float(h), None, None))
            return r
    R.__name__, R.__qualname__, R.__module__ = base.__name__, base.__qualname__, base.__module__
    lg.addHandler(tap)
    pkg.CLS[name] = R
    try:
        s = pkg.make(name, L, N, form, config, None, level)
    except BaseException:
        lg.removeHandler(tap)
        raise
    finally:
        pkg.CLS[name] = base
    return s, lg, tap


def rel(a, b, r=1e-12):
    return a == b or (np.isnan(a) and np.isnan(b)) or abs(a - b) <= r * max(abs(a), abs(b))


class Spec:
    """Follows the merged log."""

    def __init__(self, mon, tag, aso, q, s):
        self.mon, self.tag, self.aso, self.q, self.s = mon, tag, aso, q, s
        self.cur = None             # attempts of the step under way: [(h, s)]
        self.in_step = False
        self.warned = self.errors = 0
        self.pending = []           # promises to be kept by later events
        self.steps = 0
        self.times = []
        self.run = None
        self.open_attempt = None

    def say(self, ok, msg, **d):
        return self.mon.check(ok, self.tag + ": " + msg, **d)

    def event(self, e, ev, i):
        k = e[0]
        if k == "step":
            self.in_step, self.cur, self.warned, self.errors, self.promise = True, [], 0, 0, None
            self.step_h = e[1]
        elif k == "attempt":
            if self.promise is not None:
                self.say(rel(self.promise, e[1]), "reports a reduced step size it does not use", reported=self.promise, used=e[1])
                self.promise = None
            self.open_attempt = e[1]
        elif k == "attempted":
            self.open_attempt = None
            if self.aso:
                self.cur.append((e[1], s_doc(e[2], e[3], self.s.config, self.q), e[2], e[3]))
        elif k in ("stepped", "raised"):
            self.in_step = False
            if self.aso:
                bad = sum(1 for a in self.cur if a[1] is None)
                if self.run_level <= 30 and all(a[1] is None or a[1] < 1e100 for a in self.cur):
                    self.say(self.warned == bad, "warnings do not match the attempts with non-finite results", warnings=self.warned, attempts=bad)
                if self.run_level <= 40:
                    doc = k == "raised" and e[1] in ("MaxLoopsExceeded", "MinimumStepReached")
                    if doc or k == "stepped":
                        self.say((self.errors > 0) == doc, "error records do not match failures", errors=self.errors, end=e[:2])
                if k == "stepped" and self.cur:
                    self.say(self.promise is None, "reports a reduced step size although the step was accepted", reported=self.promise)
            if k == "stepped":
                self.steps += 1
                self.last = e
                if self.run is not None:
                    self.run["steps"] += 1
                    self.run["tc"] += e[1]
        elif k == "evolve":
            self.run = dict(t0=e[1], tf=e[2], h=e[3], freq=e[4], steps=0, tc=e[1], store=e[5])
            self.mark_start = i
        elif k == "evolved":
            self.run["end"] = True
            r = self.run
            if self.run_level <= 20 and self.saw.get("complete"):
                self.say(self.saw["complete"] == r["steps"], "reports another number of steps than were taken", reported=self.saw["complete"], taken=r["steps"])
            if self.run_level <= 20 and self.saw.get("snapshots") is not None:
                self.say(self.saw["snapshots"] == e[1], "reports another number of snapshots than were stored", reported=self.saw["snapshots"], stored=e[1])
            if self.run_level <= 10 and self.saw["stored"]:
                self.say(len(self.saw["stored"]) == max(e[1] - 1, 0), "reports another number of stored states than there are", reported=len(self.saw["stored"]), stored=e[1])
                for (t, n), w in zip(self.saw["stored"], e[2][1:]):
                    self.say(abs(t - w) <= 1e-6 + 1e-9 * abs(w), "reports a stored time that is not", reported=t, stored=w)
                    self.say(n % r["freq"] == 0, "reports a state stored at another step", step=n, freq=r["freq"])
            self.run = None
        elif k == "failed":
            if self.saw.get("complete") is not None:
                self.say(False, "reports an evolution as complete that failed", end=e[1])
            self.run = None
        if k in ("evolve",):
            self.saw = dict(stored=[])

    saw = dict(stored=[])
    last = None
    promise = None

    def record(self, e):
        _, lv, m, name = e
        self.mon.count("records_judged")
        if not isinstance(m, str):
            self.say(False, "log record cannot be formatted", error=repr(m))
            return
        self.say(name == "rkstiff." + type(self.s).__name__, "record comes from another logger", name=name)
        self.say(lv >= self.run_level, "record below the level in force", level=lv, want=self.run_level, record=m)
        if self.in_step:
            self.warned += lv == 30
            self.errors += lv >= 40
        for k, p in PATTERNS:
            g = p.search(m)
            if g:
                self.mon.count("record " + k)
                try:
                    getattr(self, "r_" + k)(lv, *g.groups())
                except ValueError:
                    self.say(False, "record without a readable number", record=m)
                return
        self.mon.count("records_unrecognized")

    def r_init(self, lv, n):
        self.say(n == type(self.s).__name__, "reports another class", got=n)

    def r_shape(self, lv, sh, d):
        L = np.asarray(self.s.lin_op)
        dims = [int(x) for x in re.findall(r"\d+", sh)]
        self.say(dims == list(L.shape), "reports another operator shape", got=sh, want=L.shape)
        self.say((d == "True") == (L.ndim == 1), "reports the form of the operator wrongly", got=d, shape=L.shape)

    def r_config(self, lv, *v):
        c = self.s.config if hasattr(self.s, "config") else self.cfg
        for x, w in zip(v, (c.epsilon, c.incr_f, c.decr_f, c.safety_f)):
            self.say(rel(float(x), w), "reports other settings than given", got=v)

    def r_level(self, lv, n):
        want = {10: "DEBUG", 20: "INFO", 30: "WARNING", 40: "ERROR", 50: "CRITICAL"}.get(self.run_level, "Level %d" % self.run_level)
        self.say(n.strip() == want, "reports another level than set", got=n, want=want)

    def r_coeffs(self, lv, h):
        if self.open_attempt is not None:
            self.say(rel(float(h), self.open_attempt), "reports coefficients of another step size", got=h, want=self.open_attempt)

    def r_start(self, lv, h):
        self.say(rel(float(h), self.step_h), "reports another proposed step size", got=h, want=self.step_h)

    def judgeable(self, a):
        """Whether the factor of an attempt is determined beyond rounding."""
        m = np.abs(a[2])
        mx = m.max()
        if a[1] is None or 0 < mx < 1e-120 or mx > 1e140:
            return False        # norms leave the double range
        return not (mx > 0 and np.any(np.abs(m / mx - self.s.config.adapt_cutoff) < 1e-12))

    def r_s(self, lv, s, h):
        a = self.cur[-1]
        self.say(rel(float(h), a[0]), "reports a factor for another step size", got=h, want=a[0])
        s = float(s)
        m = np.abs(a[2])
        if a[1] is None:
            self.say(not np.isfinite(s) or not np.all(np.isfinite(m)) or not np.all(np.isfinite(a[3])), "reports a finite factor of a non-finite attempt", got=s)
            return
        if not self.judgeable(a):
            return
        self.say(rel(s, a[1], 1e-9) or (a[1] >= 4 and s >= 4 - 1e-9), "reports another factor than that of the estimate", got=s, want=a[1])

    def r_accepted(self, lv, h, hs):
        self.say(rel(float(h), self.cur[-1][0]), "reports another accepted step size", got=h, want=self.cur[-1][0])
        self.after = (float(h), float(hs))
        self.want_return.append((float(h), float(hs)))

    def r_rejected_s(self, lv, s):
        a = self.cur[-1]
        if self.judgeable(a) and a[0] != 0:
            w = min(max(a[1], 0.25), self.s.config.decr_f)
            self.say(abs(float(s) - w) <= 0.0052 or abs(float(s) - a[1]) <= 0.0052, "reports another factor for a rejected attempt", got=s, want=w)
            self.say(a[1] < 1 + 1e-9, "reports an attempt that meets the tolerance as rejected", s=a[1])

    def r_accepted_s(self, lv, s):
        a = self.cur[-1]
        if a[1] is None or self.judgeable(a):
            self.say(a[1] is not None and a[1] >= 1 - 1e-9, "reports an attempt that misses the tolerance as accepted", s=a[1])
        if self.judgeable(a):
            w = min(a[1], 4.0)
            self.say(abs(float(s) - w) <= 0.0051 * max(1, w) or rel(float(s), a[1], 1e-2), "reports another factor for an accepted attempt", got=s, want=w)

    def r_reduce(self, lv, h):
        self.promise = float(h)

    def r_increase(self, lv, h):
        self.inc = float(h)

    def r_evolve(self, lv, a, b):
        if self.run:
            self.say(rel(float(a), self.run["t0"]) and rel(float(b), self.run["tf"]), "reports another interval", got=(a, b), want=(self.run["t0"], self.run["tf"]))

    def r_h0(self, lv, h, fq):
        if self.run:
            self.say(rel(float(h), self.run["h"]), "reports another step size", got=h, want=self.run["h"])
            self.say(int(fq) == self.run["freq"], "reports another store_freq", got=fq, want=self.run["freq"])

    def r_progress(self, lv, t, tf, pc, n):
        r = self.run
        if r:
            self.say(int(n) == r["steps"], "reports progress with another number of steps", got=n, want=r["steps"])
            self.say(abs(float(t) - r["tc"]) <= 2e-6 + 1e-9 * abs(r["tc"]), "reports progress at another time", got=t, want=r["tc"])
            self.say(abs(float(tf) - r["tf"]) <= 2e-6 + 1e-9 * abs(r["tf"]), "reports another final time", got=tf, want=r["tf"])
            w = 100 * (r["tc"] - r["t0"]) / (r["tf"] - r["t0"])
            self.say(abs(float(pc) - w) <= 0.051 + 1e-9 * abs(w) + 1e-4 * abs(r["t0"]) / (r["tf"] - r["t0"]), "reports another percentage", got=pc, want=w)

    def r_stored(self, lv, t, n):
        r = self.run
        if r:
            self.saw["stored"].append((float(t), int(n)))
            self.say(int(n) == r["steps"], "reports a state stored at another step", got=n, want=r["steps"])
            self.say(abs(float(t) - r["tc"]) <= 2e-6 + 1e-9 * abs(r["tc"]), "reports a state stored at another time", got=t, want=r["tc"])
            self.say(r["store"], "reports a stored state although nothing is stored")

    def r_complete(self, lv, n):
        if self.run:
            self.saw["complete"] = int(n)

    def r_snapshots(self, lv, n):
        if self.run:
            self.saw["snapshots"] = int(n)

    def follow(self, events, level):
        self.run_level = level
        self.want_return, self.inc = [], None
        for i, e in enumerate(events):
            if e[0] == "rec":
                self.record(e)
            elif e[0] == "levelset":
                self.run_level = e[1]
            else:
                self.event(e, events, i)
                if e[0] == "stepped":
                    for a, b in self.want_return:
                        self.say(rel(a, e[1]) and rel(b, e[2]), "reports other step sizes than it returns", reported=(a, b), returned=e[1:3])
                    if self.inc is not None:
                        self.say(rel(self.inc, e[2]), "reports another increased step size than it suggests", reported=self.inc, suggested=e[2])
                    elif self.want_return and self.run_level <= 10 and self.increase_known:
                        self.say(e[2] == e[1], "does not report an increase of the step size", h=e[1], suggested=e[2])
                    self.want_return, self.inc = [], None
                elif e[0] == "raised":
                    self.want_return, self.inc = [], None
            if len(self.mon.viols) > 3:
                return

    increase_known = False


def scenario(rng, name, form, p):
    """A list of operations, and the fault pattern of the nonlinear term."""
    ops = []
    for _ in range(int(rng.integers(1, 4))):
        k = rng.integers(4)
        h = float(min(p.hmax, gen.log_u(rng, 1e-3, 0.5)))
        if k == 0:
            ops.append(("steps", [h * float(rng.choice([1, 1, 0.5, 2 if np.isinf(p.hmax) else 1])) for _ in range(int(rng.integers(1, 5)))]))
        elif k == 1:
            ops.append(("reset",))
        else:
            t0 = float(rng.choice([0.0, -1.5, 20.0]))
            n = int(rng.integers(1, 30)) if rng.random() < 0.6 or form != "diag" else int(rng.integers(90, 330))
            ops.append(("evolve", t0, t0 + n * h, h, bool(rng.random() < 0.8), int(rng.choice([1, 1, 2, 5]))))
    return ops


def run(p, ops, f, cfg, level, lv_changes):
    events = []
    aso = pkg.is_as(p.name)
    calls = [0]

    def N(u):
        calls[0] += 1
        if calls[0] > 30000:
            raise gen.BudgetExceeded()
        return f(u, calls[0])
    s, lg, tap = tapped(p.name, p.L, N, p.form, cfg, level, events)
    try:
        with np.errstate(all="ignore"):
            for i, op in enumerate(ops):
                if lv_changes and i in lv_changes:
                    s.set_loglevel(lv_changes[i])
                    n = len(events)
                    new = []
                    while events and events[-1][0] == "rec" and "changed" in str(events[-1][2]):
                        new.append(events.pop())
                    events.append(("levelset", lv_changes[i]))
                    events += new
                try:
                    if op[0] == "steps":
                        u = p.u0
                        for h in op[1]:
                            r = s.step(u, h)
                            u = r[0] if aso else r
                    elif op[0] == "reset":
                        s.reset()
                    else:
                        _, a, b, h, store, fq = op
                        events.append(("evolve", a, b, h, fq, store))
                        try:
                            s.evolve(p.u0, a, b, h, store_data=store, store_freq=fq)
                            events.append(("evolved", len(s.t), list(s.t)))
                        except Exception as e:
                            events.append(("failed", type(e).__name__))
                            raise
                except (pkg.BaseSolverAS.MinimumStepReached, pkg.BaseSolverAS.MaxLoopsExceeded, ArithmeticError):
                    pass
    finally:
        lg.removeHandler(tap)
    return s, events


def case(rng, mon, idx):
    name, form = probe.pick_form(rng, idx)
    aso = pkg.is_as(name)
    p = probe.Prob(rng, name, form, stiff=bool(rng.random() < 0.3))
    cfgkw = probe.rand_config(rng)[1] if aso else {}
    if aso and rng.random() < 0.3:
        cfgkw["minh"] = gen.log_u(rng, 1e-6, 1e-2)
    if aso and form == "full" and name in pkg.ETDS:
        cfgkw["incr_f"] = 1e9
    if aso:
        cfgkw["epsilon"] = gen.log_u(rng, 1e-7, 1e-2)
    ops = scenario(rng, name, form, p)
    kind = ("plain", "plain", "nan once", "nan always", "raise", "nan from")[rng.integers(6)]
    at = int(rng.integers(1, 40))

    def f(u, c):
        v = p.f(u)
        if (kind == "nan once" and c == at) or (kind == "nan from" and c >= at) or kind == "nan always":
            return v * np.nan
        if kind == "raise" and c == at:
            raise ArithmeticError("fault")
        return v
    tag = "%s/%s" % (name, form)
    logs = {}
    lv2 = {int(rng.integers(1, 4)): int(rng.choice([10, 20, 30, 40, 50, 15, 1])) for _ in range(int(rng.integers(0, 2)))}
    try:
        s, ev = run(p, ops, f, pkg.SolverConfig(**cfgkw) if aso else None, 10, lv2)
    except (gen.BudgetExceeded, np.linalg.LinAlgError, ValueError) as e:
        raise Inconclusive(type(e).__name__)
    spec = Spec(mon, tag, aso, pkg.Q.get(name), s)
    spec.increase_known = aso and any(e[0] == "rec" and isinstance(e[2], str) and re.search("increasing step size to", e[2]) for e in ev)
    spec.follow(ev, 10)
    mon.count("logs_followed")
    mon.count("events_followed", len(ev))
    if mon.viols:
        return
    # the same run at another level: the records at or above it, nothing else
    s, full = run(p, ops, f, pkg.SolverConfig(**cfgkw) if aso else None, 1, None)
    for lv in rng.permutation([10, 20, 30, 40, 50, 15])[:2]:
        lv = int(lv)
        s2, part = run(p, ops, f, pkg.SolverConfig(**cfgkw) if aso else None, lv, None)
        want = [(e[1], str(e[2])) for e in full if e[0] == "rec" and e[1] >= lv]
        got = [(e[1], str(e[2])) for e in part if e[0] == "rec"]
        mon.count("levels_compared")
        if not mon.check(got == want, tag + ": the log at a level is not the part of the full log at or above it", level=lv, got=len(got), want=len(want), first=next(((a, b) for a, b in zip(got + [None], want + [None]) if a != b), None)):
            return
    mon.key(name, form, kind, at, ops)
    mon.note(solver=name, form=form, kind=kind, ops=[o[0] for o in ops], records=sum(1 for e in ev if e[0] == "rec"))


C.stratum("case", 1200, 30000, fn=case)
C.require("records_judged", "logs_followed", "levels_compared", "events_followed")

if __name__ == "__main__":
    sys.exit(C.main())
