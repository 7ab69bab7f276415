"""C28: results commute with relabelling, conjugation, rescaling and padding of the modes; real problems stay real."""
import sys
import numpy as np
from rkv import pkg, gen, probe
from rkv.harness import Check, Inconclusive
from rkv.probe import near_threshold

C = Check("C28", "pairs of runs of one problem and of its relabelled, conjugated, rescaled (time, amplitude) or padded image, by steps and by evolve, for every solver and operator form, states and step sizes compared after mapping back; imaginary parts of real problems and the Hermitian asymmetry of spectra monitored at every step; "
          "non-trivial = every pair of runs compared; distinct by transformation, solver, form, problem and step size",
          assumptions=["an adaptive pair in which a decision lies within 1e-7 of its threshold is not judged"])
FORMS = pkg.all_forms()


def kap(p):
    return 1.0 if p.form == "diag" else (np.linalg.cond(p.S) ** 2 if p.form == "diagonalized" else np.linalg.cond(p.S))


class Run:
    """One run of a script of steps, or of evolve."""

    def __init__(self, name, form, L, f, u0, plan, cfgkw, tscale=1.0):
        self.aso = pkg.is_as(name)
        self.cfg = pkg.SolverConfig(**cfgkw) if self.aso else None
        self.s = probe.make_rec(name, L, gen.NL(f, budget=200000), form, self.cfg)
        self.states, self.hs = [], []
        u = np.array(u0)
        if plan["kind"] == "step":
            for h in plan["hs"]:
                if self.aso:
                    r = self.s.step(u, h * tscale)
                    u = r[0]
                    self.hs += [r[1] / tscale, r[2] / tscale]
                else:
                    u = self.s.step(u, h * tscale)
                self.states.append(np.array(u))
        else:
            t0, tf = plan["t0"] * tscale, plan["tf"] * tscale
            if self.aso:
                u = self.s.evolve(u, t0, tf, h_init=plan["h"] * tscale, store_freq=plan["fq"])
                self.hs = [r[3] / tscale for r in self.s.rec_steps]
            else:
                u = self.s.evolve(u, t0, tf, plan["h"] * tscale, store_freq=plan["fq"])
            self.states = [np.array(v) for v in self.s.u] + [np.array(u)]
            self.times = np.array(self.s.t) / tscale


def plan_for(rng, p):
    aso = pkg.is_as(p.name)
    h = min(gen.log_u(rng, 1e-3, 0.3), p.hmax)
    if rng.random() < 0.5:
        hs = [h]
        for _ in range(int(rng.integers(1, 6))):
            hs.append(min(hs[-1] * float(rng.choice([1, 1, 0.5, 1.5])), p.hmax))
        return dict(kind="step", hs=hs)
    if aso:
        T = min(float(rng.uniform(0.1, 1.0)), p.hmax)
        return dict(kind="evolve", t0=float(rng.choice([0.0, -1.5, 2.0])), tf=0, h=min(h, 0.37 * T), fq=int(rng.integers(1, 4)), T=T)
    n = int(rng.integers(2, 12))
    return dict(kind="evolve", t0=0.0, tf=n * h, h=h, fq=int(rng.integers(1, 4)))


def finish(pl):
    if pl["kind"] == "evolve" and "T" in pl:
        pl["tf"] = pl["t0"] + pl["T"]
    return pl


def compare(mon, tag, name, a, b, back, kappa, plan, detail):
    """a: original run, b: run of the image; back maps a state of b to one of a."""
    if a.aso and (near_threshold(a.s, name, a.cfg) or near_threshold(b.s, name, b.cfg)):
        raise Inconclusive("decision close to its threshold")
    if a.aso and detail["form"] != "diag":
        # a solution that decays to the rounding errors of its initial state has no determined relative error
        for r in (a, b):
            if min(np.max(np.abs(x[1])) for x in r.s.rec_attempts) < 1e-5 * np.max(np.abs(r.s.rec_steps[0][0])):
                raise Inconclusive("solution decays to rounding level")
    ha, hb = np.array(a.hs), np.array(b.hs)
    if plan["kind"] == "evolve" and len(ha) and len(hb):
        # a last step that only makes up for the rounding of the sum of the others
        tiny = 1e-9 * abs(plan["tf"] - plan["t0"])
        na, nb = len(ha) - (ha[-1] < tiny), len(hb) - (hb[-1] < tiny)
        if na < len(ha) or nb < len(hb):
            mon.count("rounding_steps")
            ha, hb = ha[:na], hb[:nb]
            a.states, b.states = a.states[-1:], b.states[-1:]
            a.times = b.times = np.zeros(0)
    if not mon.check(ha.shape == hb.shape and np.all(np.abs(ha - hb) <= 1e-5 * np.abs(ha)), tag + ": step sizes differ", original=ha, image=hb, **detail):
        return
    if not mon.check(len(a.states) == len(b.states), tag + ": number of states differs", original=len(a.states), image=len(b.states), **detail):
        return
    if plan["kind"] == "evolve":
        mon.check(np.allclose(a.times, b.times, rtol=1e-6, atol=1e-6 * (1e-3 + abs(plan["tf"]))), tag + ": stored times differ", **detail)
    # closed-form psi functions just outside the modecutoff amplify rounding of h*L by cutoff^-3
    sens = name in pkg.ETDS
    rel = (2e-8 if a.aso and plan["kind"] == "evolve" else (2e-9 if sens else 1e-11)) * kappa
    # matrices mix the modes with rounding errors relative to the largest of them
    sc = 1e-300 if detail["form"] == "diag" else max(float(np.max(np.abs(r.s.rec_steps[0][0]))) / (detail["unit"] if r is b else 1) for r in (a, b))
    for k, (x, y) in enumerate(zip(a.states, b.states)):
        sc = max(sc, float(np.max(np.abs(x))))
        if not probe.close(mon, back(y), x, rel * sc * (1 + 0.2 * k), tag + ": state %d differs" % k, **detail):
            return
    mon.count("runs_compared")


def pair(rng, mon, idx):
    kinds = ("permute", "conj", "time", "amplitude", "pad")
    name, form = FORMS[idx % len(FORMS)]
    kind = kinds[(idx // len(FORMS)) % len(kinds)]
    p = probe.Prob(rng, name, form, cplx=True if kind == "conj" and rng.random() < 0.8 else None)
    if name in pkg.ETDS and form == "full":
        p.hmax *= 0.7
    aso = pkg.is_as(name)
    cfgkw = dict(epsilon=gen.log_u(rng, 1e-7, 1e-3), adapt_cutoff=float(rng.choice([0.0, 0.01])), minh=1e-80) if aso else {}
    pl = finish(plan_for(rng, p))
    tag = "%s/%s %s (%s)" % (name, form, kind, pl["kind"])
    n, ts = p.n, 1.0
    if kind == "permute":
        P = rng.permutation(n)
        inv = np.argsort(P)
        L2 = p.L[P] if form == "diag" else p.L[np.ix_(P, P)]
        f2 = lambda v: p.f(v[inv])[P]
        u2 = p.u0[P]
        back = lambda y: y[inv]
        det = dict(perm=P)
    elif kind == "conj":
        L2, u2 = np.conj(p.L), np.conj(p.u0)
        f2 = lambda v: np.conj(p.f(np.conj(v)))
        back = np.conj
        det = {}
    elif kind == "time":
        c = float(2.0 ** rng.integers(-100, 100)) if rng.random() < 0.5 else gen.log_u(rng, 1e-30, 1e30)
        L2, u2, ts = p.L / c, p.u0, c
        f2 = lambda v: p.f(v) / c
        back = lambda y: y
        det = dict(factor=c)
    elif kind == "amplitude":
        c = float(2.0 ** rng.integers(-40, 40)) if rng.random() < 0.5 else gen.log_u(rng, 1e-10, 1e10)
        if p.cplx and rng.random() < 0.5:
            c = c * np.exp(1j * rng.uniform(0, 6))
        L2, u2 = p.L, p.u0 * c
        f2 = lambda v: p.f(v / c) * c
        back = lambda y: y / c
        det = dict(factor=c)
    else:
        m = int(rng.integers(1, 6))
        q = probe.Prob(rng, name, form, n=m, cplx=p.cplx)
        pos = np.sort(rng.permutation(n + m)[:n])
        oth = np.setdiff1d(np.arange(n + m), pos)
        if aso:
            # the error norms see the other modes, so these are at rest
            q.u0, q.f = q.u0 * 0, (lambda v: v * 0)
            if rng.random() < 0.5 and pl["kind"] == "step":
                q.u0 = gen.cnorm(rng, m, p.cplx)
                cfgkw["epsilon"] = 1e10        # not at rest, but no step is rejected
                q.f = (lambda v, w=gen.cnorm(rng, m, p.cplx): w * np.tanh(np.abs(v)))
        qh = q.hmax
        if form != "diag" and np.isfinite(p.hmax):
            q.L = q.L * min(1.0, qh / p.hmax)
        if form == "diag":
            L2 = np.zeros(n + m, np.result_type(p.L, q.L))
            L2[pos], L2[oth] = p.L, q.L
        else:
            L2 = np.zeros((n + m, n + m), np.result_type(p.L, q.L))
            L2[np.ix_(pos, pos)], L2[np.ix_(oth, oth)] = p.L, q.L
        u2 = np.zeros(n + m, np.result_type(p.u0, q.u0))
        u2[pos], u2[oth] = p.u0, q.u0

        def f2(v):
            a, b = np.asarray(p.f(v[pos])), np.asarray(q.f(v[oth]))
            w = np.zeros(n + m, np.result_type(a, b))
            w[pos], w[oth] = a, b
            return w
        back = lambda y: y[pos]
        det = dict(n=n, added=m, at=pos)
    kappa = kap(p)
    if kind == "pad":
        kappa = max(kappa, kap(q)) * 4
    if form == "diagonalized" and kappa > 1e4:
        raise Inconclusive("ill-conditioned eigenbasis")
    try:
        a = Run(name, form, p.L, p.f, p.u0, pl, cfgkw)
    except (pkg.BaseSolverAS.MinimumStepReached, pkg.BaseSolverAS.MaxLoopsExceeded) as e:
        raise Inconclusive(type(e).__name__)
    try:
        b = Run(name, form, L2, f2, u2, pl, cfgkw, ts)
    except (pkg.BaseSolverAS.MinimumStepReached, pkg.BaseSolverAS.MaxLoopsExceeded) as e:
        if near_threshold(a.s, name, a.cfg):
            raise Inconclusive("decision close to its threshold")
        mon.viol(tag + ": the image ends with an exception, the original does not", error=type(e).__name__, **det)
        return
    if kind == "pad" and aso and cfgkw["epsilon"] > 1:
        # the error norms differ: only the states are comparable
        a.hs = b.hs = []
        a.aso = b.aso = False
    det.update(plan=pl, nonlinear=p.kind, form=form, tag=kind, unit=abs(det["factor"]) if kind == "amplitude" else 1.0)
    compare(mon, tag, name, a, b, back, kappa * (100 if form == "full" else 1), pl, det)
    mon.count(kind + "_pairs")
    mon.key(tag, p.kind, p.cplx, n, p.lam[:3], det.get("factor"), det.get("perm"))
    mon.note(case=tag)


def realness(rng, mon, idx):
    """Real problems keep real solutions."""
    name, form = FORMS[idx % len(FORMS)]
    p = probe.Prob(rng, name, form, cplx=False)
    if form != "diag" and rng.random() < 0.6 and p.n > 1:
        # complex conjugate pairs of eigenvalues: still a real matrix
        A = rng.standard_normal((p.n, p.n))
        w = float(rng.uniform(0.2, 3))
        p.L = p.L / max(1e-300, np.linalg.norm(p.L, 2)) * 2 + w * (A - A.T) / np.sqrt(p.n)
        p.hmax = 0.4 / np.linalg.norm(p.L, 2) if name in pkg.ETDS and form == "full" else np.inf
        lam, V = np.linalg.eig(p.L)
        p.S = V
    aso = pkg.is_as(name)
    kappa = kap(p)
    if form == "diagonalized" and kappa > 1e6:
        raise Inconclusive("ill-conditioned eigenbasis")
    u = np.array(p.u0) if rng.random() < 0.5 else np.array(p.u0, complex)
    h = min(gen.log_u(rng, 1e-3, 0.5), p.hmax)
    s = pkg.make(name, p.L, p.N(), form, pkg.SolverConfig(epsilon=1e-4) if aso else None)
    tag = "%s/%s real" % (name, form)
    sc = float(np.max(np.abs(u)))
    for k in range(int(rng.integers(5, 40))):
        if aso:
            try:
                u, _, h = s.step(u, h)
            except (pkg.BaseSolverAS.MinimumStepReached, pkg.BaseSolverAS.MaxLoopsExceeded) as e:
                raise Inconclusive(type(e).__name__)
            h = min(h, p.hmax, 0.5)
        else:
            u = s.step(u, h)
        sc = max(sc, float(np.max(np.abs(u))))
        mon.count("real_states")
        if not mon.check(np.max(np.abs(np.imag(u))) <= 1e-13 * kappa * (20 if form != "diag" else 1) * sc * (k + 2), tag + ": a real problem got an imaginary part", step=k, imag=float(np.max(np.abs(np.imag(u)))), scale=sc, h=h):
            return
    mon.key(tag, p.kind, p.n, p.lam[:3], h)


def hermitian(rng, mon, idx):
    """Spectra of real functions stay Hermitian-symmetric."""
    forms = [f for f in FORMS]
    name, form = forms[idx % len(forms)]
    n = 2 * int(rng.integers(3, 9)) if form != "diag" else 2 * int(rng.integers(3, 33))
    k = np.fft.fftfreq(n, 1.0 / n)
    damp = gen.log_u(rng, 1e-3, 1e-1) * (1 if form == "diag" or name not in pkg.ETDS else 0.1)
    disp = gen.log_u(rng, 1e-3, 1e-1)
    odd = np.where(np.abs(k) == n // 2, 0, k)
    lam = -damp * k ** 2 - 0.01 * float(rng.random()) + 1j * (disp * odd ** 3 * (1 if form == "diag" else 0.1) + float(rng.uniform(-1, 1)) * odd)
    L = lam if form == "diag" else np.diag(lam)
    g = (lambda w: w - w ** 3, lambda w: np.sin(w), lambda w: 0.5 * w / (1 + w ** 2) + 0.3)[rng.integers(3)]
    deriv = rng.random() < 0.3

    def f(uf):
        w = g(np.fft.ifft(uf))
        wf = np.fft.fft(w)
        return wf if not deriv else 1j * odd * np.fft.fft(0.2 * np.fft.ifft(uf) ** 2)
    x = rng.standard_normal(n)
    u = np.fft.fft(x) * np.exp(-0.5 * np.abs(k))
    if form == "diagonalized" and (np.linalg.cond(L) > 1e15):
        raise Inconclusive("singular")
    aso = pkg.is_as(name)
    s = pkg.make(name, L, gen.NL(f), form, pkg.SolverConfig(epsilon=1e-5) if aso else None)
    hmax = 0.5 / max(np.max(np.abs(lam)), 1e-300) if form == "full" and name in pkg.ETDS else 0.1
    h = min(gen.log_u(rng, 1e-3, 1e-1), hmax)
    neg = (-np.arange(n)) % n
    tag = "%s/%s hermitian n=%d" % (name, form, n)
    sc = float(np.max(np.abs(u)))
    for st in range(int(rng.integers(5, 30))):
        if aso:
            try:
                u, _, h = s.step(u, h)
            except (pkg.BaseSolverAS.MinimumStepReached, pkg.BaseSolverAS.MaxLoopsExceeded) as e:
                raise Inconclusive(type(e).__name__)
            h = min(h, hmax)
        else:
            u = s.step(u, h)
        sc = max(sc, float(np.max(np.abs(u))))
        if not np.all(np.isfinite(u)) or sc > 1e6:
            raise Inconclusive("solution grows out of range")
        mon.count("spectra_checked")
        asym = float(np.max(np.abs(u - np.conj(u[neg]))))
        if not mon.check(asym <= 1e-12 * sc * (st + 2) * n, tag + ": spectrum of a real function lost its symmetry", step=st, asymmetry=asym, scale=sc):
            return
    mon.key(tag, lam[1:3], h, deriv)


C.stratum("pair", 1400, 50000, fn=pair)
C.stratum("real", 300, 12000, fn=realness)
C.stratum("hermitian", 300, 12000, fn=hermitian)
C.require("runs_compared", "real_states", "spectra_checked", "permute_pairs", "conj_pairs", "time_pairs", "amplitude_pairs", "pad_pairs")

if __name__ == "__main__":
    sys.exit(C.main())
