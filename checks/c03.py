"""C03: diagonal, full-matrix, other-basis and diagonalized forms of one operator agree."""
import sys
import numpy as np
from rkv import pkg, ref, gen
from rkv.harness import Check, Inconclusive
from rkv.probe import close, make_rec, s_doc

C = Check("C03", "one problem built in two or more operator forms and run through the same calls (steps or evolve); non-trivial = at least two forms compared after a step "
          "with a nonlinear contribution; distinct by solver, forms, operator kind, dtype, mode, settings",
          assumptions=["full-matrix ETD is compared only where the contour encloses the spectrum of h*L (|hL| <= 0.45 R); outside is known finding etd-full-contour"])


def decided_margin(recs, cfg, q):
    """Refuse to judge step sizes when a decision was within rounding of its threshold."""
    for h, un, er in recs:
        s = s_doc(un, er, cfg, q)
        if s is None:
            continue
        m = np.abs(un)
        mx = m.max()
        if mx > 0 and np.any(np.abs(m / mx - cfg.adapt_cutoff) < 1e-7):
            raise Inconclusive("entry at the adapt_cutoff threshold")
        if abs(s - 1) < 1e-5 or abs(s - cfg.incr_f) < 1e-5:
            raise Inconclusive("decision within rounding of its threshold")


def case(rng, mon, idx, name):
    aso = pkg.is_as(name)
    etd = name in pkg.ETDS
    cplx = bool(rng.random() < 0.6)
    n = gen.size(rng, 1, 8, 96, 0.04)
    basis = ("diagmat", "unitary", "oblique")[rng.integers(3)]
    h = gen.log_u(rng, 1e-3, 3) * gen.unit(rng)
    st, R, pts = {}, 1.0, 32
    if etd and rng.random() < 0.5:
        R = float(rng.uniform(0.8, 4.0))
        pts = int(rng.integers(32, 96))
        st = dict(contour_radius=R, contour_points=pts)
    # the largest step the run will see is 1.0*h (adaptive steps only shrink below what is proposed)
    big = 0.45 * R / 1.0 if etd else 10 ** rng.uniform(-0.5, 2.3)
    mags = big * 10 ** rng.uniform(-2.5, 0, n)
    # distinct magnitudes, non-singular so that diagonalize=True is applicable
    lam = -mags if rng.random() < 0.7 else mags * rng.choice([-1, 1], n) * np.where(mags < 2, 1, 0) - mags * np.where(mags < 2, 0, 1)
    if cplx:
        lam = np.abs(lam) * np.exp(1j * rng.uniform(np.pi / 2, 3 * np.pi / 2, n))
    mode = "evolve" if rng.random() < 0.35 else "steps"
    kind, f0 = gen.nonlinear(rng, n, cplx, rng.uniform(0.05, 0.5) / h, kinds=("sat", "sin", "lin") if mode == "evolve" else gen.NKINDS)
    u0 = gen.cnorm(rng, n, cplx)
    if basis == "diagmat":
        S = np.eye(n)
    elif basis == "unitary":
        S = gen.orthobasis(rng, n, cplx)
    else:
        S = gen.orthobasis(rng, n, cplx) @ np.diag(rng.uniform(0.5, 2, n)) @ gen.orthobasis(rng, n, cplx)
    Si = np.linalg.inv(S)
    A = (S @ np.diag(lam) @ Si) / h if basis != "diagmat" else np.diag(lam) / h
    if etd and np.linalg.norm(A, 2) * h > 0.47 * R:
        A = None  # oblique basis enlarged the norm: leave the plain full form out
    forms = {}
    f = lambda w: S @ f0(Si @ w)
    if basis == "diagmat":
        forms["diag"] = (lam / h, f0, u0, np.eye(n))
    else:
        forms["diag"] = (lam / h, f0, u0, S)          # compared after mapping with S
    M = np.diag(lam) / h if basis == "diagmat" else (S @ np.diag(lam) @ Si) / h
    if name != "IF45DP":
        if A is not None:
            forms["full"] = (M, f, S @ u0, None)
        if name in pkg.DIAGONALIZABLE and np.linalg.cond(M) < 1e12:
            w, V = np.linalg.eig(M)
            if np.linalg.cond(V) < 1e3:
                forms["diagonalized"] = (M, f, S @ u0, None)
    if name == "IF45DP":
        # its only form is diagonal: the same operator written as real, complex and strided vectors
        forms["diag2"] = (np.asarray(lam / h, complex), f0, u0, S)
        forms["diag3"] = (gen.layout(rng, lam / h), f0, u0, S)
    if len(forms) < 2:
        raise Inconclusive("one form only")
    cfgkw = dict(epsilon=10 ** rng.uniform(-7, -2), adapt_cutoff=float(rng.choice([0.0, 1e-3, 0.01, 0.2])))
    if rng.random() < 0.3:
        cfgkw.update(incr_f=float(rng.uniform(1.05, 2)), decr_f=float(rng.uniform(0.3, 0.95)), safety_f=float(rng.uniform(0.5, 1)))
    nsteps = int(rng.integers(1, 6))
    hs = [h * float(rng.choice([1.0, 1.0, 0.5, 0.1, 0.9])) for _ in range(nsteps)]
    def run(fm, L, ff, u):
        form = "diag" if fm.startswith("diag") and fm != "diagonalized" else fm
        cfg = pkg.SolverConfig(**cfgkw) if aso else None
        s = make_rec(name, L, gen.NL(ff), form, cfg, pkg.ETDConfig(**st) if st and etd else None)
        seq, sizes = [], []
        if mode == "steps":
            for hk in hs:
                if aso:
                    u, hu, hn = s.step(u, hk)
                    sizes.append((hu, hn))
                else:
                    u = s.step(u, hk)
                seq.append(u)
        else:
            if aso:
                # cap growth so that the contour keeps enclosing the spectrum
                if etd and "full" in forms:
                    s.config.incr_f = 100.0
                s.evolve(u, 0.0, h * 4, h_init=h)
            else:
                s.evolve(u, 0.0, h * nsteps, h)
            seq = list(s.u)[1:]
            sizes = list(np.diff(s.t))
        if aso:
            decided_margin(s.rec_attempts, s.config, pkg.Q[name])
        mon.count("attempts", len(s.rec_attempts))
        if not all(np.all(np.isfinite(x)) for x in seq) or max(np.max(np.abs(x)) for x in seq) > 1e8:
            raise Inconclusive("solution grows out of range")
        return seq, sizes

    out = {fm: run(fm, L, ff, u) + (T,) for fm, (L, ff, u, T) in forms.items()}
    # rounding differences must not be amplified by the problem (or its step-size control) itself
    L, ff, u, _ = forms["diag"]
    seq, sizes = run("diag", L * (1 + 1e-12 * rng.standard_normal(n)), ff, u * (1 + 1e-12 * rng.standard_normal(n)))
    ref0 = out["diag"]
    if len(seq) != len(ref0[0]) or not np.allclose(np.array(sizes), np.array(ref0[1]), rtol=1e-6, atol=0) or \
            any(np.max(np.abs(x - y)) > (1e-9 if aso else 1e-10) * np.max(np.abs(y)) for x, y in zip(seq, ref0[0])):
        raise Inconclusive("run is sensitive to rounding")
    mon.note(solver=name, forms=list(out), n=n, h=h, basis=basis, mode=mode, N=kind, settings=st)
    mon.key(name, sorted(out), basis, cplx, mode, kind, sorted(st))
    base = out.pop("diag")
    same_basis = True
    for fm, (seq, sizes, T) in out.items():
        mon.count("form_pairs_compared")
        mon.count("pair %s: diag-%s" % (name, fm))
        # step sizes are decided by norms over entries, hence only comparable in the same basis
        if aso and basis == "diagmat" or fm in ("diag2", "diag3"):
            mon.check(len(sizes) == len(base[1]) and np.allclose(np.array(sizes), np.array(base[1]), rtol=3e-4, atol=0),
                      "%s: %s and diagonal form take different steps" % (name, fm), a=base[1], b=sizes)
        elif aso:
            continue
        if len(seq) != len(base[0]):
            mon.viol("%s: %s and diagonal form take a different number of steps" % (name, fm), a=len(base[0]), b=len(seq))
            continue
        sens = 1e-8 if not aso else 1e-6
        for k in range(len(seq)):
            want = base[0][k] if fm in ("diag2", "diag3") or basis == "diagmat" else base[2] @ base[0][k]
            if not close(mon, seq[k], want, sens * np.max(np.abs(want)) * (k + 1), "%s: %s and diagonal form differ" % (name, fm), step=k, basis=basis, h=hs[min(k, nsteps - 1)]):
                return
    if aso and "full" in out and "diagonalized" in out:
        a, b = out["full"], out["diagonalized"]
        mon.count("form_pairs_compared")
        mon.count("pair %s: full-diagonalized" % name)
        # in this basis the step sizes are others than in the diagonal form's: is this run sensitive to rounding?
        L, ff, u, _ = forms["full"]
        seq, sizes = run("full", L * (1 + 1e-12 * rng.standard_normal(L.shape)), ff, u * (1 + 1e-12 * rng.standard_normal(n)))
        if len(seq) != len(a[0]) or not np.allclose(np.array(sizes), np.array(a[1]), rtol=1e-6, atol=0):
            raise Inconclusive("run is sensitive to rounding")
        if mon.check(len(a[1]) == len(b[1]) and np.allclose(np.array(a[1]), np.array(b[1]), rtol=3e-4, atol=0),
                     "%s: full and diagonalized form take different steps" % name, full=a[1], diagonalized=b[1], basis=basis):
            for k in range(len(a[0])):
                if not close(mon, b[0][k], a[0][k], 1e-6 * np.max(np.abs(a[0][k])) * (k + 1), "%s: full and diagonalized form differ" % name, step=k, basis=basis):
                    return


def other_basis(rng, mon, idx, name):
    """Adaptive solvers in another basis, driven with a loose tolerance so that both take the proposed step."""
    form = ("full", "diagonalized")[idx % 2]
    if name == "IF45DP":
        raise Inconclusive("diagonal only")
    cplx = bool(rng.random() < 0.6)
    n = gen.size(rng, 2, 8, 96)
    h = gen.log_u(rng, 1e-3, 3) * gen.unit(rng)
    big = 0.42 if name in pkg.ETDS and form == "full" else 10 ** rng.uniform(-0.5, 2.3)
    lam = -big * 10 ** rng.uniform(-2.5, 0, n)
    if cplx:
        lam = np.abs(lam) * np.exp(1j * rng.uniform(np.pi / 2, 3 * np.pi / 2, n))
    S = gen.orthobasis(rng, n, cplx)
    if rng.random() < 0.5 and not (name in pkg.ETDS and form == "full"):
        S = S @ np.diag(rng.uniform(0.5, 2, n)) @ gen.orthobasis(rng, n, cplx)
    Si = np.linalg.inv(S)
    kind, f0 = gen.nonlinear(rng, n, cplx, rng.uniform(0.05, 0.5) / h)
    u0 = gen.cnorm(rng, n, cplx)
    M = (S @ np.diag(lam) @ Si) / h
    a = pkg.make(name, lam / h, gen.NL(f0), "diag", pkg.SolverConfig(epsilon=1e9))
    b = pkg.make(name, M, gen.NL(lambda w: S @ f0(Si @ w)), form, pkg.SolverConfig(epsilon=1e9))
    u, v = u0, S @ u0
    k = 0
    for k in range(int(rng.integers(1, 5))):
        hk = h * float(rng.choice([1, 1, 0.5]))
        try:
            u, ha, _ = a.step(u, hk)
        except (a.MinimumStepReached, a.MaxLoopsExceeded):
            raise Inconclusive("solution grows out of range")
        if ha != hk or not np.all(np.isfinite(u)) or np.max(np.abs(u)) > 1e4:
            raise Inconclusive("solution grows out of range")
        try:
            v, hb, _ = b.step(v, hk)
        except (a.MinimumStepReached, a.MaxLoopsExceeded) as e:
            mon.viol("%s: %s in another basis fails where the diagonal form does not" % (name, form), error=type(e).__name__, step=k, h=hk)
            return
        if not mon.check(hb == hk, "%s: %s in another basis takes a shorter step than the diagonal form" % (name, form), step=k, h=hk, used=hb):
            return
        mon.count("form_pairs_compared")
        if not close(mon, v, S @ u, 1e-8 * np.max(np.abs(S @ u)) * (k + 1), "%s: %s in another basis and diagonal form differ" % (name, form), step=k):
            return
    mon.key(name, form, cplx, kind, k, n)


def structured(rng, mon, idx, name):
    """Triangular, banded, circulant, ... matrices: plain against diagonalized form, and both against the diagonal form in the eigenbasis."""
    cplx = bool(rng.random() < 0.5)
    n = gen.size(rng, 2, 8, 96)
    h = gen.log_u(rng, 1e-3, 3) * gen.unit(rng)
    etd = name in pkg.ETDS
    sk, B = gen.structured(rng, n, cplx)
    if rng.random() < 0.5:
        B = B - rng.uniform(0.0, 1.2) * np.eye(n)
    B = B / max(np.linalg.norm(B, 2), 1e-300) * (0.42 if etd else gen.log_u(rng, 0.05, 3))
    lam, V = np.linalg.eig(B)
    c = np.linalg.cond(V)
    if c > 100:
        raise Inconclusive("(nearly) defective")
    Vi = np.linalg.inv(V)
    kind, f = gen.nonlinear(rng, n, cplx, rng.uniform(0.05, 0.5) / h)
    u0 = gen.cnorm(rng, n, cplx)
    aso = pkg.is_as(name)
    cfg = lambda: pkg.SolverConfig(epsilon=1e9) if aso else None
    sols = {"full": pkg.make(name, B / h, gen.NL(f), "full", cfg()), "diag": pkg.make(name, lam / h, gen.NL(lambda w: Vi @ f(V @ w)), "diag", cfg())}
    if name in pkg.DIAGONALIZABLE and np.linalg.cond(B) < 1e10:
        sols["diagonalized"] = pkg.make(name, B / h, gen.NL(f), "diagonalized", cfg())
    st = {k: (Vi @ u0 if k == "diag" else u0) for k in sols}
    # the diagonal form once more from a perturbed state: what the problem itself makes of rounding
    sols["diag~"] = pkg.make(name, lam / h * (1 + 1e-10 * rng.standard_normal(n)), gen.NL(lambda w: Vi @ f(V @ w)), "diag", cfg())
    st["diag~"] = Vi @ (u0 * (1 + 1e-10 * rng.standard_normal(n)))
    hs = [h * float(rng.choice([1, 1, 0.5, 0.1])) for _ in range(int(rng.integers(1, 5)))]
    for k, hk in enumerate(hs):
        for fm, s in sols.items():
            try:
                r = s.step(st[fm], hk)
            except (pkg.BaseSolverAS.MinimumStepReached, pkg.BaseSolverAS.MaxLoopsExceeded):
                raise Inconclusive("solution grows out of range")
            if aso and r[1] != hk:
                raise Inconclusive("solution grows out of range")
            st[fm] = r[0] if aso else r
        want = V @ st["diag"]
        if not np.all(np.isfinite(want)) or np.max(np.abs(want)) > 1e3:
            raise Inconclusive("solution grows out of range")
        if np.max(np.abs(V @ st["diag~"] - want)) > 1e-8 * max(np.max(np.abs(want)), 1e-2):
            raise Inconclusive("run is sensitive to rounding")
        for fm in sols:
            if not fm.startswith("diag") or fm == "diagonalized":
                mon.count("form_pairs_compared")
                if not close(mon, st[fm], want, (3e-8 if etd else 1e-9) * c * (k + 1) * max(np.max(np.abs(want)), 1e-2), "%s: %s form of a %s matrix and diagonal form in its eigenbasis differ" % (name, fm, sk), step=k, h=hk, L=B / h):
                    return
    mon.count("structure " + sk)
    mon.key(name, sk, cplx, kind, n, len(hs))


class ContourOps(ref.Ops):
    """The documented contour quadrature as it stands (circle about 0), also where it does not enclose."""

    def psi(self, k, c):
        n, R, pts = self.z.shape[0], self.radius, self.points
        z = np.asarray(self.z, complex) * float(c)
        out = np.zeros((n, n), complex)
        for p in R * np.exp(2j * np.pi * np.arange(0.5, pts) / pts):
            v = (pkg.psi1, pkg.psi2, pkg.psi3)[k - 1](p)
            out += p * v * np.linalg.inv(p * np.eye(n) - z) / pts
        return out.astype(ref.CLD)


def contour_known(rng, mon, idx):
    """The recorded finding, on its specific inputs."""
    name = pkg.ETDS[idx % len(pkg.ETDS)]
    lam, c, h = np.array([-200.0, -1.0]), np.array([200.0, 1.0]), 0.1
    f = lambda u: c + 0 * u
    u = np.array([1.0, 1.0])
    s = pkg.make(name, np.diag(lam), gen.NL(f), "full", pkg.SolverConfig(epsilon=1e30))
    r = s.step(u, h)
    got = np.asarray(r[0] if pkg.is_as(name) else r, complex)
    hu = r[1] if pkg.is_as(name) else h
    o = ref.Ops(np.diag(lam), hu)
    want = np.asarray(ref.SCHEME[name](o, ref.LD(hu), u.astype(ref.CLD), lambda v: f(v).astype(ref.CLD))[0], complex)
    o2 = ContourOps(np.diag(lam), hu)
    model = np.asarray(ref.SCHEME[name](o2, ref.LD(hu), u.astype(ref.CLD), lambda v: f(v).astype(ref.CLD))[0], complex)
    mon.count("known_inputs_run")
    mon.key(name, "contour")
    if np.allclose(got, want, rtol=1e-9, atol=1e-9):
        return
    if np.allclose(got, model, rtol=1e-7, atol=1e-9):
        mon.finding("etd-full-contour-%s" % name, "full-matrix %s with L=diag(-200,-1), N=(200,1), h=0.1 steps from the steady state (1,1) to (%.3g, %.3g): h*L lies outside the contour" % (name, got[0].real, got[1].real))
    else:
        mon.viol("full-matrix %s step matches neither the exact scheme nor the documented quadrature" % name, got=got, exact=want, quadrature=model)


for nm in pkg.CLS:
    C.stratum("forms-" + nm, 150, 5000, fn=lambda r, m, i, nm=nm: case(r, m, i, nm))
for nm in ("ETD34", "ETD35", "IF34"):
    C.stratum("basis-" + nm, 80, 2500, fn=lambda r, m, i, nm=nm: other_basis(r, m, i, nm))
for nm in pkg.CLS:
    if nm != "IF45DP":
        C.stratum("struct-" + nm, 90, 2500, fn=lambda r, m, i, nm=nm: structured(r, m, i, nm))
C.stratum("contour-outside", 4, 4, fn=contour_known)
C.require("form_pairs_compared", "known_inputs_run", "pair ETD34: full-diagonalized", "pair IF34: diag-diagonalized")

if __name__ == "__main__":
    sys.exit(C.main())
