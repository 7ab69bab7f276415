"""C17: shifting the time interval does not change the solution."""
import sys
import numpy as np
from rkv import pkg, gen, probe
from rkv.harness import Check, Inconclusive
from rkv.probe import Scripted, ScriptedCS

C = Check("C17", "pairs (groups) of runs of the same problem over shifted intervals, recorded step by step: constant-step states and step sizes bit for bit, adaptive interior steps bit for bit and the last step to rounding, times shifted; "
          "shifts make endpoints zero, negative, straddling, large; runs of 1 to several thousand steps, with and without logging; non-trivial = groups of at least two runs with different sign pattern or magnitude of the endpoints; distinct by solver, shifts and lengths",
          assumptions=["shifts up to 1e6 times the interval (beyond, rounding in the times is a visible fraction of a step)"])

LEVELS = ("CRITICAL", "CRITICAL", "WARNING", "INFO", "DEBUG")


def shifts(rng, span):
    """Start times of several flavours."""
    out = [0.0, -span, -span * float(rng.uniform(0.05, 0.95)), float(rng.choice([-1, 1])) * span * 10 ** rng.uniform(0, 6), -span * 2, float(rng.integers(-20, 20))]
    k = rng.permutation(len(out))[: int(rng.integers(2, 5))]
    return [out[i] for i in k]


def typed(rng, t0, tf):
    k = rng.integers(4)
    if k == 0 and float(t0).is_integer() and float(tf).is_integer():
        return int(t0), int(tf)
    if k == 1:
        return np.float64(t0), np.float64(tf)
    return float(t0), float(tf)


def teps(*t):
    return np.finfo(float).eps * max(abs(float(x)) for x in t)


def cmp_times(mon, tag, ta, a0, tb, b0, n, **data):
    """The first n times agree after removing the shift."""
    da = np.array(ta[:n], float) - a0
    db = np.array(tb[:n], float) - b0
    tol = 8 * (n + 2) * teps(a0, b0, ta[-1], tb[-1])
    mon.count("times_compared", n)
    return mon.check(np.all(np.abs(da - db) <= tol), tag + ": times are not shifted copies", got=da[-4:], want=db[-4:], tol=tol, **data)


def cs_case(rng, mon, idx, real):
    nst = int(rng.choice([1, 2, 3, int(rng.integers(4, 99)), 100, 101, int(rng.integers(100, 400))] + ([int(rng.integers(1000, 3000))] if not real else [])))
    frac = 0.0 if rng.random() < 0.6 else float(rng.uniform(0.05, 0.95))
    if real:
        name, form = probe.pick_form(rng, idx, [(n, f) for n in pkg.CS for f in pkg.forms_of(n)])
        p = probe.Prob(rng, name, form, stiff=False)
        h = float(min(p.hmax, gen.log_u(rng, 1e-3, 0.3)))
        if form == "full":
            nst = min(nst, 60)
    else:
        name, form, h = "scripted", "-", gen.log_u(rng, 1e-5, 1e3)
    if rng.random() < 0.2:
        h = float(rng.choice([0.1, 0.01, 0.05, 0.25, 0.3])) if real and np.isinf(p.hmax) else h
    span = h * (nst + frac)
    store_freq = int(rng.choice([1, 1, 2, 7]))
    base = None
    starts = shifts(rng, span)
    for c in starts:
        t0, tf = typed(rng, c, c + span)
        lv = LEVELS[rng.integers(len(LEVELS))]
        if real:
            s = p.solver(rec=True, loglevel=lv)
            u = s.evolve(p.u0, t0, tf, h, store_freq=store_freq)
            hs = [r[3] for r in s.rec_steps]
            us = [r[2] for r in s.rec_steps]
        else:
            s = ScriptedCS(loglevel=lv)
            u = s.evolve(np.zeros(2), t0, tf, h, store_freq=store_freq)
            hs = [r[0] for r in s.log]
            us = [r[2] for r in s.log]
        mon.count("runs")
        mon.count("steps_recorded", len(hs))
        # number of steps: within rounding of the times, ceil(span/h)
        rr = 64 * teps(t0, tf) / h
        lo, hi = int(np.ceil(span / h - rr - 1e-9)), int(np.ceil(span / h + rr + 1e-9))
        if frac == 0.0:
            lo = hi = nst        # rounding in tf must not add a step
        if not mon.check(max(lo, 1) <= len(hs) <= max(hi, 1), "%s: number of steps" % name, got=len(hs), want=(lo, hi), t0=t0, tf=tf, h=h):
            return
        if base is None:
            base = (t0, hs, us, s.t, s.u, u)
            continue
        b0, bh, bu, bt, bU, bl = base
        mon.count("pairs_compared")
        if len(bh) != len(hs):
            if frac == 0.0:
                mon.viol("%s: shifted run has another number of steps" % name, got=len(hs), want=len(bh), t0=t0, b0=b0, tf=tf, h=h)
                return
            raise Inconclusive("number of steps within rounding")
        ok = mon.check(hs == bh, "%s/%s: step sizes differ in the shifted run" % (name, form), t0=t0, b0=b0, h=h)
        ok &= mon.check(all(gen.same(x, y) for x, y in zip(us, bu)), "%s/%s: states differ in the shifted run" % (name, form), t0=t0, b0=b0, tf=tf, h=h)
        ok &= mon.check(gen.same(u, bl), "%s/%s: returned state differs in the shifted run" % (name, form), t0=t0, b0=b0, tf=tf, h=h)
        ok &= mon.check(len(s.t) == len(bt) and all(gen.same(x, y) for x, y in zip(s.u, bU)), "%s/%s: stored states differ in the shifted run" % (name, form), t0=t0, b0=b0)
        mon.count("states_compared", len(us))
        if not ok or not cmp_times(mon, name, s.t, float(t0), bt, float(b0), len(bt), h=h):
            return
    mon.key(name, form, nst, frac, starts)
    mon.note(solver=name, form=form, starts=starts, h=h, steps=nst)


def as_case(rng, mon, idx, real):
    cfg, kw = probe.rand_config(rng)
    cfg.minh = 1e-15
    cfg.epsilon = gen.log_u(rng, 1e-7, 1e-3)
    span = float(rng.uniform(0.3, 3))
    given = rng.random() < 0.6
    h0 = span * gen.log_u(rng, 1e-3, 0.9) if given else None
    if real:
        name, form = probe.pick_form(rng, idx, [(n, f) for n in pkg.AS for f in pkg.forms_of(n)])
        p = probe.Prob(rng, name, form, stiff=False)
        if name in pkg.ETDS and form == "full":
            cfg.incr_f = 1e9                     # stay within the contour
            h0, given = min(h0 or span / 100, p.hmax), True
        n = p.n
    else:
        name, form, n = "scripted", "-", 2
        facs = np.array([float(rng.choice([0.5, 0.9, 1.05, 1.05, 1.1, 1.4, 3.0])) for _ in range(300)])
        if rng.random() < 0.4:
            facs = np.ones(9000) * 1.05          # many steps of one size
            facs[:7] = 1.5
            cfg.incr_f = 4.0
            h0, given = span / float(rng.integers(150, 2500)), True
        sel = cfg.epsilon * np.sqrt(2.0)

        def mk(k, u, h):
            return np.array([1.0, 1.0]) + 0 * u, np.full(2, sel / np.sqrt(2) * (cfg.safety_f / facs[k % len(facs)]) ** 4)
    base = None
    starts = shifts(rng, span)
    for c in starts:
        t0, tf = typed(rng, c, c + span)
        lv = LEVELS[rng.integers(len(LEVELS))]
        if real:
            N = p.N(budget=200000)
            s = p.solver(N=N, rec=True, config=cfg, loglevel=lv)
            u0 = p.u0
        else:
            s = Scripted(mk, 4, cfg, 2, loglevel=lv)
            steps = []
            orig = s.step

            def wrapped(u, h):
                r = orig(u, h)
                steps.append((None, float(h), np.array(r[0]), float(r[1]), float(r[2])))
                return r
            s.step = wrapped
            u0 = np.ones(2)
        try:
            u = s.evolve(u0, t0, tf, h0)
            end = "ok"
        except s.SolverError as e:
            u, end = None, type(e).__name__
        except gen.BudgetExceeded:
            raise Inconclusive("run too long")
        st = s.rec_steps if real else steps
        mon.count("runs")
        mon.count("steps_recorded", len(st))
        if base is None:
            base = (t0, st, s.t, u, end)
            continue
        b0, bs, bt, bu, bend = base
        mon.count("pairs_compared")
        # (a scripted rejection of a rounding-sized last step cannot be told from a real failure)
        if not mon.check(end == bend or not real, "%s/%s: shifted run ends differently" % (name, form), got=end, want=bend, t0=t0, b0=b0, tf=tf):
            return
        if end == "ok":
            mon.check(abs(float(s.t[-1]) - float(tf)) <= 4 * teps(t0, tf), "%s/%s: shifted run does not end at tf" % (name, form), got=s.t[-1], tf=tf)
        if given:
            # from the first step shortened to end at tf on, steps see the rounding of tf - t
            cl = [next((i for i in range(1, len(z)) if z[i][1] != z[i - 1][4]), max(len(z) - 1, 0)) for z in (bs, st)]
            m = min(cl)
            # the step shortened to end at tf may, within rounding, need no shortening in the other run
            if m < min(len(bs), len(st)) and not mon.check(abs(bs[m][1] - st[m][1]) <= 16 * (m + 4) * teps(t0, tf, b0, b0 + span), "%s/%s: the shifted run is shortened to end at tf differently" % (name, form),
                                                           got=st[m][1], want=bs[m][1], at=m, t0=t0, b0=b0, tf=tf):
                return
            ok = all(x[1] == y[1] and x[3] == y[3] and x[4] == y[4] and gen.same(x[2], y[2]) for x, y in zip(st[:m], bs[:m]))
            mon.check(ok, "%s/%s: interior steps differ in the shifted run" % (name, form), t0=t0, b0=b0, tf=tf, h0=h0, m=m, first=[(i, x[1:2] + x[3:], y[1:2] + y[3:]) for i, (x, y) in enumerate(zip(st[:m], bs[:m])) if not (x[1] == y[1] and x[3] == y[3] and x[4] == y[4] and gen.same(x[2], y[2]))][:2])
            # (a clipped scripted step may be rejected, after which rounding decides how many follow)
            mon.check(not real or abs(len(st) - len(bs)) <= 2, "%s/%s: shifted run takes another number of steps" % (name, form), got=len(st), want=len(bs), t0=t0, b0=b0)
            mon.count("interior_steps_compared", m)
            if mon.viols or not cmp_times(mon, name, s.t, float(t0), bt, float(b0), min(m + 1, len(bt), len(s.t))):
                return
        elif real:
            mon.check(abs(len(st) - len(bs)) <= 2 + 0.02 * len(bs), "%s/%s: shifted run takes another number of steps" % (name, form), got=len(st), want=len(bs), t0=t0, b0=b0)
        if u is not None and real:
            rnd = 200 * teps(t0, b0, tf) / span + 1e-12
            tol = 300 * rnd * max(1, np.max(np.abs(p.L)) if form == "diag" else np.linalg.norm(p.L, 2)) + (0 if given else 1e-3 * cfg.epsilon)
            mon.check(np.max(np.abs(u - bu)) <= tol * max(1, np.max(np.abs(bu))), "%s/%s: final state differs in the shifted run" % (name, form), got=u, want=bu, t0=t0, b0=b0, tf=tf, tol=tol)
            mon.count("final_states_compared")
    mon.key(name, form, starts, h0)
    mon.note(solver=name, form=form, starts=starts, h_init=h0, steps=len(base[1]))


C.stratum("cs-scripted", 400, 6000, fn=lambda r, m, i: cs_case(r, m, i, False))
C.stratum("cs-real", 200, 4000, fn=lambda r, m, i: cs_case(r, m, i, True))
C.stratum("as-scripted", 300, 5000, fn=lambda r, m, i: as_case(r, m, i, False))
C.stratum("as-real", 200, 4000, fn=lambda r, m, i: as_case(r, m, i, True))
C.require("runs", "pairs_compared", "states_compared", "interior_steps_compared", "final_states_compared", "times_compared")

if __name__ == "__main__":
    sys.exit(C.main())
