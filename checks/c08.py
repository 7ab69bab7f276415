"""C08: adaptive evolve covers exactly [t0, tf] and records what it did."""
import copy, sys
import numpy as np
from rkv import pkg, gen, probe
from rkv.harness import Check, Inconclusive
from rkv.probe import Scripted, s_doc, time_pair

C = Check("C08", "adaptive evolve on scripted solvers (any sequence of accepted/rejected attempts) and on real solvers over intervals of every flavour, initial steps, storage settings; a monitor rebuilds the timeline "
          "from the observed attempts; non-trivial = at least one accepted step; distinct by interval flavour, solver, number of steps, storage setting",
          assumptions=["times are compared with an allowance for the rounding of accumulated sums (steps * 4 ulp of the largest time)"])


def judge(mon, s, u0, ures, t0, tf, accepted, store, freq, tag):
    """accepted = [(h, unew)] in order."""
    T = float(max(abs(t0), abs(tf)))
    span = float(tf) - float(t0)
    n = len(accepted)
    slack = (n + 4) * 4 * np.spacing(T)
    t, times = np.longdouble(float(t0)), []
    for h, _ in accepted:
        mon.check(h > 0, tag + ": step of non-positive size", h=h)
        t += np.longdouble(h)
        times.append(t)
    mon.count("accepted_steps", n)
    if n:
        mon.check(max(float(x) for x in times) <= float(tf) + slack, tag + ": a step went past tf", tf=float(tf), reached=float(max(times)), slack=slack)
        mon.check(abs(float(times[-1] - np.longdouble(float(tf)))) <= slack, tag + ": run did not end at tf", tf=float(tf), end=float(times[-1]), steps=n)
        mon.check(gen.same(ures, accepted[-1][1]), tag + ": returned state is not the last accepted one", got=ures, want=accepted[-1][1])
    else:
        mon.check(tf <= t0, tag + ": no step taken", t0=t0, tf=tf)
        mon.check(gen.same(ures, u0), tag + ": empty run changed the state")
    if not store:
        mon.check(len(s.t) == 0 and len(s.u) == 0, tag + ": data stored although store_data=False", n=len(s.t))
        return
    want_t = [float(t0)] + [float(times[k - 1]) for k in range(1, n + 1) if k % freq == 0]
    want_u = [u0] + [accepted[k - 1][1] for k in range(1, n + 1) if k % freq == 0]
    mon.count("snapshots_compared", len(want_t))
    if not mon.check(len(s.t) == len(want_t) and len(s.u) == len(want_u), tag + ": wrong number of snapshots", stored=len(s.t), states=len(s.u), want=len(want_t), steps=n, freq=freq):
        return
    mon.check(s.t[0] == t0, tag + ": first stored time is not t0", got=s.t[0])
    d = np.abs(np.array(s.t, float) - np.array(want_t))
    mon.check(np.all(d <= slack), tag + ": stored times are not the times reached", maxdiff=float(d.max()), got=s.t[:6], want=want_t[:6])
    tt = np.array(s.t, float)
    if span / max(n, 1) > 100 * np.spacing(T):
        mon.check(np.all(np.diff(tt) > 0) or any(h < 8 * np.spacing(T) for h, _ in accepted), tag + ": stored times do not increase")
    for k in range(len(want_u)):
        if not mon.check(gen.same(s.u[k], want_u[k]), tag + ": stored state is not the one reached at its time", index=k, got=s.u[k], want=want_u[k]):
            return


def scripted(rng, mon, idx):
    cfg = pkg.SolverConfig(minh=1e-300)
    n = int(rng.integers(1, 4))
    t0, tf = time_pair(rng)
    if rng.random() < 0.03:
        tf = t0
    elif rng.random() < 0.06:
        # a hundredth of the interval is a whole number
        t0 = int(rng.integers(-500, 500))
        tf = t0 + 100 * int(rng.integers(1, 12))
        if rng.random() < 0.5:
            t0, tf = float(t0), float(tf)
    span = float(tf) - float(t0)
    pat = ("grow", "mixed", "rejects", "constant", "shrink")[idx % 5]
    q = 4
    cnt = [0]

    def mk(k, u, h):
        cnt[0] += 1
        un = np.asarray(u) * 0 + cnt[0] + np.arange(n) * 0.5
        if h < span * 1e-3:
            s = 3.0
        elif pat == "grow":
            s = 3.0
        elif pat == "constant":
            s = 1.1
        elif pat == "mixed":
            s = float(rng.choice([0.5, 1.1, 2.0, 1.3, 0.9]))
        elif pat == "rejects":
            s = float(rng.choice([0.3, 0.8, 1.05]))
        else:
            s = 1.1 if rng.random() < 0.7 else 0.4
        e = np.ones(n)
        e = e / np.linalg.norm(e) * cfg.epsilon * np.linalg.norm(un) * (cfg.safety_f / s) ** q
        return un, e
    s = Scripted(mk, q, cfg, n)
    u0 = np.full(n, 0.25)
    store, freq = bool(rng.random() < 0.85), int(rng.choice([1, 1, 2, 3, 7, 10, 1000]))
    hi = None if rng.random() < 0.25 else span * float(rng.choice([1.0, 2.0, 0.5, 0.1, 0.013, 1 / 3, 0.25]))
    kw = {} if hi is None else dict(h_init=hi)
    if not store:
        kw["store_data"] = False
    if freq != 1:
        kw["store_freq"] = freq
    a, b = copy.copy(t0), copy.copy(tf)
    ures = s.evolve(u0, a, b, **kw)
    mon.check(a == t0 and b == tf, "the caller's start or end time was modified", before=(float(t0), float(tf)), after=(float(a), float(b)))
    acc, prop = [], None
    want0 = (span / 100 if hi is None else min(hi, span))
    newstep, sug = True, None
    tc = np.longdouble(float(t0))
    for i, (h, un, er) in enumerate(s.attempts):
        sv = s_doc(un, er, cfg, q)
        slack = (len(s.attempts) + 4) * 4 * np.spacing(float(max(abs(t0), abs(tf))))
        if newstep:
            w = want0 if i == 0 else min(sug, float(np.longdouble(float(tf)) - tc))
            mon.check(abs(h - w) <= 1e-9 * w + slack, "step proposed by evolve is neither the suggestion nor the rest of the interval", attempt=i, got=h, want=w)
        if sv >= 1:
            acc.append((h, un))
            tc += np.longdouble(h)
            sug = min(sv, 4.0) * h if min(sv, 4.0) > cfg.incr_f else h
        newstep = sv >= 1
    mon.note(kind="scripted", t0=t0, tf=tf, h_init=hi, pattern=pat, steps=len(acc), store=store, freq=freq)
    if acc:
        mon.key(pat, len(acc), store, freq, hi is None, np.sign(t0), np.sign(tf))
    judge(mon, s, u0, ures, t0, tf, acc, store, freq, "scripted " + pat)
    if rng.random() < 0.3 and not mon.viols:
        # a second run on the same object starts over
        s.attempts.clear()
        t0, tf = time_pair(rng)
        span = float(tf) - float(t0)
        ures = s.evolve(u0, copy.copy(t0), copy.copy(tf))
        acc = [(h, un) for h, un, er in s.attempts if s_doc(un, er, cfg, q) >= 1]
        judge(mon, s, u0, ures, t0, tf, acc, True, 1, "second run")


def real(rng, mon, idx):
    name, form = probe.pick_form(rng, idx, [(n, f) for n in pkg.AS for f in pkg.forms_of(n)])
    p = probe.Prob(rng, name, form)
    sc = 1.0
    s = p.solver(rec=True, config=pkg.SolverConfig(epsilon=gen.log_u(rng, 1e-7, 1e-2)))
    t0 = float(rng.choice([0.0, -1.0, 2.5, -3.7, 100.0, -0.3]))
    tf = t0 + float(rng.uniform(0.2, 2.0))
    if rng.random() < 0.2:
        tf, t0 = 0.0, -float(rng.uniform(0.2, 2.0))
    hi = None if rng.random() < 0.3 else (tf - t0) * float(rng.choice([1.0, 5.0, 0.3, 0.01]))
    store, freq = bool(rng.random() < 0.85), int(rng.choice([1, 1, 2, 5]))
    try:
        ures = s.evolve(p.u0, t0, tf, hi, store, freq)
    except (s.MaxLoopsExceeded, s.MinimumStepReached):
        if p.form == "full" and name in pkg.ETDS:
            raise Inconclusive("step left the contour")
        raise
    acc = [(hu, un) for _, _, un, hu, _ in s.rec_steps]
    if not acc and s.rec_attempts:
        raise Inconclusive("steps not observable")
    mon.key(name, form, len(acc), store, freq, hi is None)
    mon.note(kind="real", solver=name, form=form, t0=t0, tf=tf, h_init=hi, steps=len(acc))
    mon.count("real_runs")
    judge(mon, s, p.u0, ures, t0, tf, acc, store, freq, "%s/%s" % (name, form))
    # consecutive steps start where the previous one ended
    prev = p.u0
    for u0, hp, un, hu, hn in s.rec_steps:
        if not mon.check(gen.same(u0, prev), "%s/%s: a step did not start from the previous state" % (name, form)):
            break
        prev = un


def cannot_advance(rng, mon, idx):
    """Accepted steps too small to move t: the run must end with an error, not loop."""
    name = list(pkg.AS)[idx % 4]
    t0 = 10.0 ** rng.uniform(10, 15)
    om = 1e4 / np.spacing(t0)
    N = gen.NL(lambda u: 1j * om * u * np.abs(u) ** 2, budget=20000)
    s = pkg.make(name, np.array([0.0j]), N, config=pkg.SolverConfig(minh=1e-300))
    with np.errstate(all="ignore"):
        try:
            s.evolve(np.array([1.0 + 0j]), t0, t0 * (1 + 1e-10) + 1)
            mon.viol("run with unrepresentable steps claims to have finished", t=s.t[-1])
        except s.SolverError:
            mon.count("refused to loop")
            mon.key(name, "noadvance", idx)
        except gen.BudgetExceeded:
            mon.viol("evolve keeps stepping without advancing t", t0=t0)


C.stratum("scripted", 1500, 40000, fn=scripted)
C.stratum("real", 240, 8000, fn=real)
C.stratum("no-advance", 8, 40, fn=cannot_advance)
C.require("accepted_steps", "snapshots_compared", "real_runs", "refused to loop")

if __name__ == "__main__":
    sys.exit(C.main())
