"""C02: IF one-step results (diag, full, diagonalized) equal the published scheme; embedded estimates too."""
import sys
import numpy as np
from rkv import pkg, ref, gen
from rkv.harness import Check, Inconclusive
from rkv.probe import close

C = Check("C02", "IF steps on generated operators in every form; the error estimate is observed through the suggested step size with epsilon calibrated so the factor lies "
          "between incr_f and 4; non-trivial = the nonlinear term contributes measurably; distinct by solver, form, operator kind, term, state kind, dtype, steps",
          assumptions=["extended-precision evaluation of the published formulas is the oracle; tolerance = 40x the effect of rounding-level perturbations"])
IFS = [("IF4", "diag"), ("IF4", "full"), ("IF34", "diag"), ("IF34", "full"), ("IF34", "diagonalized"), ("IF45DP", "diag")]


def matrix(rng, n, h, cplx, form):
    kinds = ("normal", "nonnormal", "jordan", "nilpotent", "diagmat", "stiffnormal") if form == "full" else ("normal", "mild", "diagmat", "stiffnormal")
    kind = kinds[rng.integers(len(kinds))]
    lam = np.array([gen.z_band(rng, b, cplx) for b in rng.choice(["below", "above", "unit", "unit", "stiff" if "stiff" in kind else "unit", "imag", "growing"], n)])
    if not cplx:
        lam = np.real(lam)
    Q = gen.orthobasis(rng, n, cplx)
    Qi = Q.conj().T
    kappa = 30.0  # the matrix exponential's rounding
    if rng.random() < 0.4:
        kind, A = gen.structured(rng, n, cplx)
        A = A * gen.log_u(rng, 1e-3, 30 if form == "full" else 3)
    elif kind in ("normal", "stiffnormal"):
        A = Q @ np.diag(lam) @ Qi
    elif kind == "diagmat":
        A = np.diag(lam)
    elif kind == "nonnormal":
        A = Q @ (np.diag(lam) + np.triu(gen.cnorm(rng, (n, n), cplx), 1)) @ Qi
    elif kind == "jordan":
        A = Q @ (lam[0] * np.eye(n) + np.diag(np.ones(n - 1), 1)) @ Qi
    elif kind == "nilpotent":
        A = Q @ (np.diag(np.ones(n - 1), 1)) @ Qi
    else:
        D = rng.uniform(0.4, 2.5, n)
        V = Q @ np.diag(D) @ gen.orthobasis(rng, n, cplx)
        A = V @ np.diag(lam) @ np.linalg.inv(V)
    if form == "diagonalized":
        if np.linalg.cond(A) > 1e13:
            raise Inconclusive("singular")
        w, V = np.linalg.eig(A)
        c = np.linalg.cond(V)
        if c > 1e3:
            raise Inconclusive("ill-conditioned eigenbasis")
        kappa = 10 * c ** 2
    return kind, A / h, kappa


def case(rng, mon, idx, name, form):
    cplx = bool(rng.random() < 0.6)
    h = gen.log_u(rng, 1e-4, 10) * gen.unit(rng)
    if form == "diag":
        n = gen.size(rng, 1, 19, 5000)
        L, bs = gen.diag_op(rng, n, h, cplx)
        okind, kappa = "+".join(bs), 1.0
        if not cplx and rng.random() < 0.15:
            L = np.round(L).astype(int)
    else:
        n = gen.size(rng, 2, 6, 64, 0.02)
        okind, L, kappa = matrix(rng, n, h, cplx, form)
    kind, f = gen.nonlinear(rng, n, cplx, rng.uniform(0.05, 0.6) / h)
    uk, u = gen.state(rng, n, cplx or rng.random() < 0.3)
    if rng.random() < 0.06:
        f, kind = gen.vanishing(rng, f, u), kind + "-vanishing"
    s = pkg.make(name, L, gen.NL(f), form=form)
    aso = pkg.is_as(name)
    hs = [h]
    for _ in range(int(rng.choice([0, 0, 1, 2]))):
        hs.append(hs[-1] * float(rng.choice([1.0, 1.0, 0.5, 1.25, 0.1])))
    mon.note(solver=name, form=form, op=okind, n=n, h=hs, N=kind, state=uk)
    for k, hk in enumerate(hs):
        want, tol, err, te = ref.attempt(name, L, hk, u, f, form=form, rng=rng, kappa=kappa, want_err=aso)
        if not np.all(np.isfinite(want)) or np.max(np.abs(want)) > 1e6:
            if k == 0:
                raise Inconclusive("solution grows out of range")
            break
        if np.median(tol) > 1e-3 * max(1e-300, np.max(np.abs(want))):
            raise Inconclusive("ill-conditioned case")
        starget = 0.0
        if aso:
            q = pkg.Q[name]
            co = float(rng.choice([1e-9, 0.001, 0.01, 0.3, 0.9]))
            starget = float(rng.uniform(1.2, 3.8))
            m = np.abs(want)
            mx = m.max()
            use = mx > 0 and not np.any(np.abs(m / max(mx, 1e-300) - co) < 1e-9 + 8 * tol / max(mx, 1e-300))
            sel = m > co * mx
            ne, nu = np.linalg.norm(err[sel]), np.linalg.norm(want[sel])
            use = use and ne > 0 and nu > 0 and np.linalg.norm(te[sel]) < 1e-2 * ne
            s.config.adapt_cutoff = co if use else 0.01
            s.config.incr_f = 1.01
            s.config.epsilon = float((starget / s.config.safety_f) ** q * ne / nu) if use else 1e12
            un, hu, hn = s.step(u, hk)
            if use:
                mon.count("error_estimates_observed")
                rel = 2 * np.linalg.norm(te[sel]) / ne + 1e-9
                mon.check(hu == hk, "step with factor > 1 not taken as proposed", h=hk, used=hu, s=starget)
                mon.check(abs(hn / hk - starget) <= rel * starget, "suggested step does not match the published pair's error estimate",
                          solver=name, form=form, want=starget, got=hn / hk, rel=rel, cutoff=co, op=okind)
            if hu != hk:
                raise Inconclusive("step shortened")
        else:
            un = s.step(u, hk)
        mon.key(name, form, okind, kind, uk, cplx, len(hs), k)
        if not close(mon, un, want, tol, "%s/%s step differs from the published scheme" % (name, form), step=k, h=hk, op=okind, nonlinear=kind):
            return
        u = un


for nm, fm in IFS:
    C.stratum("%s-%s" % (nm, fm), 260 if fm == "diag" else 110, 8000 if fm == "diag" else 2500, fn=lambda r, m, i, nm=nm, fm=fm: case(r, m, i, nm, fm))
C.require("states_compared", "error_estimates_observed")

if __name__ == "__main__":
    sys.exit(C.main())
