"""C15: configuration constraints are enforced and settings take effect."""
import math, sys
import numpy as np
from rkv import pkg, gen, probe
from rkv.harness import Check, Inconclusive
from rkv.probe import Scripted, judge_step, do_step

C = Check("C15", "every field is given boundary, neighbouring, extreme, NaN and wrongly typed values at construction and in random assignment histories against a model of the documented ranges; live effect: settings "
          "changed before, between and after steps of scripted and real adaptive solvers, each step judged against the settings in force; non-trivial = at least one refusal or one change followed by a step; distinct by value history or settings",
          assumptions=["values that are neither numbers nor clearly of another type (bool, numpy integers for contour_points) are not judged"])

nx = lambda x, d: float(np.nextafter(x, d))
INF = math.inf
# field -> predicate of the documented range (NaN is never in it)
RANGE = {
    "epsilon": lambda v: v > 0, "minh": lambda v: v > 0, "incr_f": lambda v: v > 1, "decr_f": lambda v: v < 1, "adapt_cutoff": lambda v: v < 1, "safety_f": lambda v: v <= 1,
    "contour_radius": lambda v: v > 0, "modecutoff": lambda v: 0 < v <= 1, "contour_points": lambda v: isinstance(v, int) and v > 1}
SC = ("epsilon", "incr_f", "decr_f", "safety_f", "adapt_cutoff", "minh")
EC = ("modecutoff", "contour_points", "contour_radius")
DEF = dict(epsilon=1e-4, incr_f=1.25, decr_f=0.85, safety_f=0.8, adapt_cutoff=0.01, minh=1e-16, modecutoff=0.01, contour_points=32, contour_radius=1.0)
SPECIAL = [0.0, -0.0, 1.0, -1.0, nx(1, 2), nx(1, 0), nx(0, 1), nx(0, -1), INF, -INF, math.nan, -math.nan, 1e308, -1e308, 1e-308, 0.5, 2.0, 1, 0, -1, 2, 10 ** 6, np.float64(0.3), np.float64("nan"), np.float32(0.5), np.float32("nan"),
           0.1, 0.25, 1.25, 1e-16, 3, 64]
INTS = [0, 1, 2, 3, -1, -5, 17, 32, 1000, 10 ** 9]
NOTINT = [2.0, 32.0, math.nan, INF, 1.5, "32", None, 2 + 0j, [32], np.float64(4)]
WRONG = ["0.1", None, [0.5], (0.5,), {}, object, 0.5 + 0j]


def pickv(rng, field):
    """(value, expected): expected True accept, False refuse."""
    if field == "contour_points":
        if rng.random() < 0.4:
            return NOTINT[rng.integers(len(NOTINT))], False
        v = INTS[rng.integers(len(INTS))] if rng.random() < 0.7 else int(rng.integers(-10, 200))
        return v, v > 1
    r = rng.random()
    if r < 0.08:
        return WRONG[rng.integers(len(WRONG))], False
    if r < 0.75:
        v = SPECIAL[rng.integers(len(SPECIAL))]
    else:
        v = float(rng.choice([-1, 1]) * gen.log_u(rng, 1e-6, 1e3))
    return v, bool(RANGE[field](v))


def is_bad(v):
    return isinstance(v, (str, type(None), list, tuple, dict, type, complex))


def equal(a, b):
    try:
        return float(a) == float(b)
    except Exception:  # noqa
        return False


def history(rng, mon, idx):
    etd = bool(idx % 2)
    fields = EC if etd else SC
    mk = pkg.ETDConfig if etd else pkg.SolverConfig
    # construction: each argument good except possibly one
    kw, bad = {}, []
    for f in fields:
        if rng.random() < 0.5:
            v, good = pickv(rng, f)
            if not good and rng.random() < 0.5:
                continue
            kw[f] = v
            if not good:
                bad.append(f)
    hist = ["new(%s)" % ", ".join("%s=%r" % kv for kv in sorted(kw.items(), key=lambda x: x[0]))]
    try:
        c = mk(**kw)
    except (ValueError, TypeError) as e:
        mon.count("constructions_refused")
        mon.check(bool(bad), "admissible settings refused at construction", settings=hist[0], error=str(e))
        mon.key(hist[0])
        c = mk()
        model = {f: DEF[f] for f in fields}
    else:
        if not mon.check(not bad, "inadmissible setting accepted at construction", settings=hist[0], fields=bad):
            return
        model = {f: kw.get(f, DEF[f]) for f in fields}
        mon.count("constructions_accepted")

    def verify():
        for f in fields:
            if not mon.check(equal(getattr(c, f), model[f]), "setting %s does not have its last accepted value" % f, got=getattr(c, f), want=model[f], history=hist):
                return False
        return True
    if not verify():
        return
    for _ in range(int(rng.integers(3, 15))):
        f = fields[rng.integers(len(fields))]
        v, good = pickv(rng, f)
        hist.append("%s=%r" % (f, v))
        try:
            setattr(c, f, v)
        except (ValueError, TypeError) as e:
            mon.count("assignments_refused")
            if not mon.check(not good, "admissible value of %s refused" % f, value=repr(v), error=str(e)):
                return
            if f == "contour_points" and not is_bad(v) and not isinstance(v, int):
                mon.check(isinstance(e, TypeError), "non-integer contour_points refused with another exception", value=repr(v), error=type(e).__name__)
            elif not is_bad(v):
                mon.check(isinstance(e, ValueError), "value out of range refused with another exception", field=f, value=repr(v), error=type(e).__name__)
        else:
            mon.count("assignments_accepted")
            if not mon.check(good, "inadmissible value of %s accepted" % f, value=repr(v), now=getattr(c, f), history=hist):
                return
            model[f] = v
        if not verify():
            return
    mon.key(hist)
    mon.note(history=hist)


def grid(rng, mon, idx):
    """Every field with every special value, at construction and at assignment."""
    f = (SC + EC)[idx % 9]
    mk = pkg.ETDConfig if f in EC else pkg.SolverConfig
    vals = (INTS + NOTINT) if f == "contour_points" else (SPECIAL + WRONG)
    for v in vals:
        good = (isinstance(v, int) and v > 1) if f == "contour_points" else (not is_bad(v) and bool(RANGE[f](v)))
        for how in ("init", "set"):
            c = None
            try:
                if how == "init":
                    c = mk(**{f: v})
                else:
                    c = mk()
                    setattr(c, f, v)
                ok = True
            except (ValueError, TypeError):
                ok = False
            mon.count("grid_values")
            mon.check(ok == good, "%s: %s %s by %s" % (f, repr(v), "accepted although out of range" if ok else "refused although in range", how))
            if c is not None:
                mon.check(equal(getattr(c, f), v if ok else DEF[f]), "%s: wrong value after %s" % (f, how), value=repr(v), got=getattr(c, f))
    mon.key(f)


def rand_settings(rng):
    kw = dict(epsilon=gen.log_u(rng, 1e-8, 1e-1), incr_f=float(1 + gen.log_u(rng, 1e-2, 3)), decr_f=float(rng.uniform(0.26, 0.99)), safety_f=float(rng.uniform(0.3, 1.0)),
              adapt_cutoff=float(rng.choice([0.0, 0.01, 0.1, 0.5])), minh=gen.log_u(rng, 1e-18, 1e-3))
    return {k: v for k, v in kw.items() if rng.random() < 0.6}


def change(rng, s, cfgref, mon):
    """Change settings in one of the ways a user has."""
    kw = rand_settings(rng)
    how = ("attr", "replace", "ref")[rng.integers(3)]
    if how == "replace":
        cur = {k: getattr(s.config, k) for k in SC}
        cur.update(kw)
        s.config = pkg.SolverConfig(**cur)
    else:
        for k, v in kw.items():
            setattr(s.config if how == "attr" or cfgref is not s.config else cfgref, k, v)
        if rng.random() < 0.3:
            try:
                setattr(s.config, SC[rng.integers(6)], math.nan)
            except ValueError:
                mon.count("refused_midrun")
    mon.count("midrun_changes")
    return how, sorted(kw)


def live_scripted(rng, mon, idx):
    n, q = int(rng.integers(2, 6)), int(rng.integers(3, 6))
    cfgref = pkg.SolverConfig()
    # estimates do not know the settings: what is accepted depends on them
    mags = 10 ** rng.uniform(-9, -1, 400)

    def mk(k, u, h):
        un = gen.cnorm(rng, n, False) * 10 ** rng.uniform(-1, 0, n)
        er = gen.cnorm(rng, n, False) * mags[k % 400] * min(1.0, h) ** 3
        return un, er
    s = Scripted(mk, q, cfgref, n)
    hist = []
    for _ in range(int(rng.integers(3, 8))):
        hist.append(change(rng, s, cfgref, mon))
        s.attempts.clear()
        h0 = gen.log_u(rng, 1e-3, 10)
        out = do_step(s, np.ones(n), h0)
        judge_step(mon, list(s.attempts), out, h0, s.config, q, "settings changed between steps")
        mon.count("steps_after_change")
        if mon.viols:
            return
    mon.key(hist)


def live_real(rng, mon, idx):
    name, form = probe.pick_form(rng, idx, [x for x in pkg.all_forms() if pkg.is_as(x[0])])
    p = probe.Prob(rng, name, form)
    cfgref = pkg.SolverConfig()
    s = p.solver(rec=True, config=cfgref)
    if rng.random() < 0.3:
        s = p.solver(rec=True)
        cfgref = s.config
    hist = []
    u, h = p.u0, min(0.3, p.hmax)
    for _ in range(int(rng.integers(2, 6))):
        hist.append(change(rng, s, cfgref, mon))
        s.rec_attempts.clear()
        h = min(h, p.hmax)
        out = do_step(s, u, h)
        judge_step(mon, list(s.rec_attempts), out, h, s.config, pkg.Q[name], "%s/%s settings changed between steps" % (name, form))
        mon.count("steps_after_change")
        if mon.viols or isinstance(out, str):
            break
        u, h = out[0], out[2]
    mon.key(name, form, hist)
    mon.note(solver=name, form=form, changes=hist)


def live_evolve(rng, mon, idx):
    """Settings changed during an evolve (from the nonlinear function) and between evolves."""
    name, form = probe.pick_form(rng, idx, [x for x in pkg.all_forms() if pkg.is_as(x[0])])
    p = probe.Prob(rng, name, form)
    eps = [gen.log_u(rng, 1e-7, 1e-3) for _ in range(2)]
    s = p.solver(rec=True, config=pkg.SolverConfig(epsilon=eps[0]))
    h = min(0.1, p.hmax)
    run = lambda x: x.evolve(p.u0, 0.0, 6 * h, h_init=h)
    try:
        run(s)
        s.config.epsilon = eps[1]
        a = run(s)
        b = run(p.solver(config=pkg.SolverConfig(epsilon=eps[1])))
    except pkg.BaseSolverAS.SolverError:
        raise Inconclusive("run failed")
    mon.count("evolves_after_change")
    mon.key(name, form, round(np.log10(eps[0]), 1), round(np.log10(eps[1]), 1))
    mon.check(gen.same(a, b), "%s/%s: evolve after changing epsilon differs from one configured so from the start" % (name, form), got=a, want=b, epsilon=eps)


C.stratum("grid", 9, 9, fn=grid)
C.stratum("history", 3000, 60000, fn=history)
C.stratum("live-scripted", 800, 20000, fn=live_scripted)
C.stratum("live-real", 400, 10000, fn=live_real)
def live_minh(rng, mon, idx):
    """minh assigned near the steps in use: the next step must not go below it, nor stop above it."""
    q = int(rng.integers(3, 6))
    cfgref = pkg.SolverConfig(minh=gen.log_u(rng, 1e-18, 10))
    real = idx % 2
    if real:
        name, form = probe.pick_form(rng, idx // 2, [x for x in pkg.all_forms() if pkg.is_as(x[0])])
        p = probe.Prob(rng, name, form)
        s, n, q, u, top = p.solver(rec=True, config=cfgref), p.n, pkg.Q[name], p.u0, p.hmax
    else:
        n, top = int(rng.integers(2, 6)), np.inf
        hgood = [1.0]
        # the tolerance is met only well below the proposed step
        s = Scripted(lambda k, u, h: (np.ones(n), np.full(n, 1e-3 * (h / hgood[0]) ** q)), q, cfgref, n)
        u = np.ones(n)
    hist = []
    for _ in range(int(rng.integers(2, 6))):
        h0 = min(gen.log_u(rng, 1e-2, 3), top)
        s.config.minh = m = h0 * gen.log_u(rng, 1e-4, 1.0 if rng.random() < 0.9 else 3.0)
        s.config.epsilon = gen.log_u(rng, 1e-13, 1e-9) if real else 1e-3
        if not real:
            hgood[0] = h0 * gen.log_u(rng, 1e-4, 1e-1)
        (s.rec_attempts if real else s.attempts).clear()
        s.reset()
        out = do_step(s, u, h0)
        att = list(s.rec_attempts if real else s.attempts)
        judge_step(mon, att, out, h0, s.config, q, "minh assigned before the step")
        hist.append((round(float(np.log10(m / h0)), 1), len(att), isinstance(out, str)))
        mon.count("steps_near_minh")
        if out == "MinimumStepReached":
            mon.count("stopped_at_minh")
        if mon.viols:
            return
    mon.key(real, hist)


C.stratum("live-minh", 400, 10000, fn=live_minh)
C.stratum("live-evolve", 100, 2000, fn=live_evolve)
C.require("grid_values", "constructions_refused", "constructions_accepted", "assignments_refused", "assignments_accepted", "steps_after_change", "midrun_changes", "refused_midrun", "evolves_after_change", "steps_near_minh", "stopped_at_minh")

if __name__ == "__main__":
    sys.exit(C.main())
