"""C09: constant-step evolve takes the right steps and records them."""
import sys
from fractions import Fraction as F
import math
import numpy as np
from rkv import pkg, gen, probe
from rkv.harness import Check, Inconclusive
from rkv.probe import ScriptedCS, time_pair

C = Check("C09", "constant-step evolve with dividing and non-dividing steps over intervals of every flavour (scripted solvers count steps, real solvers give states); the number of steps and times come from exact "
          "rational arithmetic; non-trivial = more than one step or a refusal; distinct by interval flavour, divisibility, steps, storage",
          assumptions=["a step size within 200 ulp (of the largest time) but not within 2 ulp of dividing the interval is not judged"])


def expected(t0, tf, h):
    """Number of steps by exact arithmetic on the given doubles; None = h does not fit; 'skip' = not determined."""
    a, b, hh = F(float(t0)), F(float(tf)), F(float(h))
    r = (b - a) / hh
    ulp = F(float(np.spacing(max(abs(float(t0)), abs(float(tf)), float(h)))))
    m = round(r)
    off = abs(r - m) * hh
    # h itself carries half an ulp of its own, m times
    tol = 2 * ulp + m * F(float(np.spacing(float(h))))
    if m >= 1 and off <= tol and m * F(float(np.spacing(float(h)))) <= 4 * ulp:
        return m
    if m >= 1 and off <= 200 * ulp + 2 * tol:
        return "skip"
    if r < 1:
        return None
    return math.ceil(r)


def pick_h(rng, t0, tf):
    span = float(tf) - float(t0)
    k = ("divide", "divide", "decimal", "any", "half", "whole", "tiny", "toobig", "linspace", "almost", "almost")[rng.integers(11)]
    if k == "divide":
        return k, span / int(rng.integers(1, 400))
    if k == "decimal":
        d = float(rng.choice([0.1, 0.05, 0.01, 0.2, 0.02, 0.3, 0.7]))
        return k, d
    if k == "any":
        return k, span * float(rng.uniform(0.003, 1))
    if k == "half":
        return k, span / (int(rng.integers(1, 50)) + 0.5)
    if k == "almost":
        return k, span / (int(rng.integers(1, 60)) + float(rng.choice([-1, 1])) * gen.log_u(rng, 1e-12, 1e-2))
    if k == "whole":
        return k, span
    if k == "tiny":
        return k, span / float(rng.integers(1000, 4000))
    if k == "toobig":
        return k, span * float(rng.choice([1.001, 1.5, 100.0]))
    n = int(rng.integers(2, 60))
    return k, float(np.linspace(t0, tf, n)[1] - t0)


def run(mon, s, u0, t0, tf, h, store, freq, kw, tag):
    want = expected(t0, tf, h)
    if want == "skip":
        raise Inconclusive("divisibility within rounding")
    if want is None:
        try:
            s.evolve(u0, t0, tf, h, **kw)
        except ValueError:
            mon.count("refusals")
            return want, None
        mon.viol(tag + ": step larger than the interval accepted", t0=t0, tf=tf, h=h)
        return want, None
    r = s.evolve(u0, t0, tf, h, **kw)
    mon.count("runs")
    return want, r


def judge(mon, s, u0, r, log, want, t0, tf, h, store, freq, tag):
    mon.count("steps_counted", len(log))
    if not mon.check(len(log) == want, tag + ": wrong number of steps", got=len(log), want=want, t0=t0, tf=tf, h=h):
        return
    mon.check(all(x[0] == h for x in log), tag + ": a step used another size", h=h)
    mon.check(gen.same(r, log[-1][2]), tag + ": returned state is not the last one", got=r)
    if not store:
        mon.check(len(s.t) == 0 and len(s.u) == 0, tag + ": data stored although store_data=False", n=len(s.t))
        return
    ks = [k for k in range(0, want + 1) if k % freq == 0]
    if not mon.check(len(s.t) == len(ks) and len(s.u) == len(ks), tag + ": wrong number of snapshots", stored=len(s.t), states=len(s.u), want=len(ks), steps=want, freq=freq):
        return
    mon.count("snapshots_compared", len(ks))
    T = max(abs(float(t0)), abs(float(tf)), float(h))
    for j, k in enumerate(ks):
        w = F(float(t0)) + k * F(float(h))
        # allowance: rounding of k*h and of the sum, or of a running sum
        if not mon.check(abs(F(float(s.t[j])) - w) <= F(float(np.spacing(T))) * (k + 4), tag + ": stored time is not t0+k*h", k=k, got=s.t[j], want=float(w)):
            return
        wu = u0 if k == 0 else log[k - 1][2]
        if not mon.check(gen.same(s.u[j], wu), tag + ": stored state is not the one reached at its time", k=k, got=s.u[j], want=wu):
            return
    # the end is reached, and not overshot by a step or more
    end = F(float(t0)) + want * F(float(h))
    mon.check(end - F(float(tf)) < F(float(h)), tag + ": overshoot of a whole step", end=float(end), tf=tf, h=h)


def scripted(rng, mon, idx):
    t0, tf = time_pair(rng)
    hk, h = pick_h(rng, t0, tf)
    if not 0 < (float(tf) - float(t0)) / h < 20000:
        h = (float(tf) - float(t0)) / 97.0
        hk = "divide"
    store, freq = bool(rng.random() < 0.85), int(rng.choice([1, 1, 1, 2, 3, 7, 10, 100000]))
    kw = {}
    if not store:
        kw["store_data"] = False
    if freq != 1:
        kw["store_freq"] = freq
    s = ScriptedCS()
    u0 = np.array([0.0, 7.0])
    for rep in range(2 if rng.random() < 0.3 else 1):
        s.log.clear()
        want, r = run(mon, s, u0, t0, tf, h, store, freq, kw, "scripted " + hk)
        mon.note(t0=t0, tf=tf, h=h, kind=hk, want=want, store=store, freq=freq)
        mon.key(hk, want, store, freq, np.sign(t0), np.sign(tf))
        if want is None:
            mon.check(len(s.log) == 0, "steps taken although h was refused", n=len(s.log))
            return
        if mon.viols:
            return
        judge(mon, s, u0, r, list(s.log), want, t0, tf, h, store, freq, "scripted " + hk)


def real(rng, mon, idx):
    name, form = probe.pick_form(rng, idx, [(n, f) for n in pkg.CS for f in pkg.forms_of(n)])
    p = probe.Prob(rng, name, form)
    s = p.solver(rec=True)
    t0 = float(rng.choice([0.0, -1.0, 2.5, -3.7, 100.0, -0.3]))
    tf = t0 + round(float(rng.uniform(0.2, 2.0)), 1)
    hk, h = pick_h(rng, t0, tf)
    if hk == "tiny":
        h *= 10
    store, freq = bool(rng.random() < 0.85), int(rng.choice([1, 1, 2, 5]))
    want, r = run(mon, s, p.u0, t0, tf, h, store, freq, dict(store_data=store, store_freq=freq), "%s/%s" % (name, form))
    mon.key(name, form, hk, want, store, freq)
    if want is None or mon.viols:
        return
    if not s.rec_steps and s.rec_attempts:
        raise Inconclusive("steps not observable")
    mon.count("real_runs")
    judge(mon, s, p.u0, r, [(hp, u0, un) for u0, hp, un, _, _ in s.rec_steps], want, t0, tf, h, store, freq, "%s/%s" % (name, form))
    prev = p.u0
    for u0, hp, un, _, _ in s.rec_steps:
        if not mon.check(gen.same(u0, prev), "%s/%s: a step did not start from the previous state" % (name, form)):
            break
        prev = un


C.stratum("scripted", 2500, 60000, fn=scripted)
C.stratum("real", 300, 8000, fn=real)
C.require("runs", "steps_counted", "refusals", "snapshots_compared", "real_runs")

if __name__ == "__main__":
    sys.exit(C.main())
