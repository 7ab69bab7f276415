"""C01: ETD one-step results on diagonal operators equal the published scheme with exact psi."""
import sys
import numpy as np
from rkv import pkg, ref, gen
from rkv.harness import Check, Inconclusive

C = Check("C01", "one ETD step (or a short sequence with changing h) on a generated diagonal operator, state, nonlinear term and settings; "
          "non-trivial = the nonlinear term contributes measurably to the compared state; distinct by solver, eigenvalue bands, term, state kind, dtype and settings",
          assumptions=["extended-precision evaluation of the published formulas is the oracle; tolerance = 40x the effect of rounding-level perturbations"])


def settings(rng):
    r = rng.random()
    if r < 0.6:
        return {}
    if r < 0.8:
        return dict(modecutoff=float(gen.log_u(rng, 3e-3, 0.5)))
    return dict(modecutoff=float(gen.log_u(rng, 5e-3, 0.3)), contour_points=int(rng.integers(24, 80)), contour_radius=float(rng.uniform(0.7, 2.0)))


def compare(mon, name, got, want, tol, **data):
    got = np.asarray(got)
    d = np.abs(got - want)
    ok = got.shape == want.shape and np.all(d <= tol)
    mon.count("states_compared")
    mon.count("entries_compared", want.size)
    if not ok:
        i = int(np.argmax(np.where(np.isfinite(d / tol), d / tol, np.inf))) if got.shape == want.shape else -1
        mon.viol("%s step differs from the published scheme" % name, entry=i, got=got, want=want,
                 diff=float(d[i]) if i >= 0 else None, tol=float(tol[i]) if i >= 0 else None, **data)
    return ok


def case(rng, mon, idx, name, bands=gen.BANDS, nmax=24, nmin=1):
    cplx = bool(rng.random() < 0.6)
    n = int(rng.integers(1, nmax + 1)) if nmin == 1 else int(gen.log_u(rng, nmin, nmax))
    h = gen.log_u(rng, 1e-4, 10) * gen.unit(rng)
    square = rng.random() < 0.03
    if square:
        # as many small modes as contour points
        st = settings(rng)
        bands, n = ("tiny", "below", "zero"), st.get("contour_points", 32)
    L, bs = gen.diag_op(rng, n, h, cplx, bands)
    dt = "c" if cplx else "f"
    if not cplx and rng.random() < 0.15:
        L = np.round(L).astype(int)
        dt = "i"
    if not np.all(np.isfinite(L)):
        raise Inconclusive("operator overflow")
    kind, f = gen.nonlinear(rng, n, cplx, rng.uniform(0.05, 0.6) / h)
    uk, u = gen.state(rng, n, cplx or rng.random() < 0.3)
    if rng.random() < 0.06:
        # the nonlinear term vanishes at the start of the step (in all, or in some entries)
        f, kind = gen.vanishing(rng, f, u), kind + "-vanishing"
    st = st if square else settings(rng)
    N = gen.NL(f)
    s = pkg.make(name, L, N, etd_config=pkg.ETDConfig(**st) if st else None)
    cs = not pkg.is_as(name)
    steps = int(rng.choice([1, 1, 2, 3]))
    hs = [h]
    for _ in range(steps - 1):
        hs.append(hs[-1] * float(rng.choice([1.0, 1.0, 0.5, 1.25, 0.1])))
    mon.note(solver=name, n=n, h=hs, bands=bs, N=kind, state=uk, settings=st, dtype=dt)
    cfg = dict(ref.DEFAULT_CFG, epsilon=1e12, incr_f=1.0000001)  # tolerance so loose that any finite step is taken
    for k, hk in enumerate(hs):
        want, tol, _, _ = ref.attempt(name, L, hk, u, f, etd=st, rng=rng, want_err=False)
        if not np.all(np.isfinite(want)) or np.max(np.abs(want)) > 1e6:
            if k == 0:
                raise Inconclusive("solution grows out of range")
            break
        if np.median(tol) > 1e-3 * max(1e-300, np.max(np.abs(want))):
            raise Inconclusive("ill-conditioned case")
        if cs:
            un = s.step(u, hk)
        else:
            s.config.epsilon = 1e12
            un, hu, hn = s.step(u, hk)
            if hu != hk:
                raise Inconclusive("step shortened")
        lin = np.exp(np.asarray(hk * np.asarray(L), complex)) * u
        if np.max(np.abs(want - lin) / (tol + 1e-300)) > 1e3:
            mon.key(name, bs, kind, uk, dt, st, len(hs), k)
        if not compare(mon, name, un, want, tol, step=k, h=hk, settings=st, bands=bs, z=hk * np.asarray(L), nonlinear=kind):
            return
        u = un


for nm in pkg.ETDS:
    C.stratum("mixed-" + nm, 220, 6000, fn=lambda r, m, i, nm=nm: case(r, m, i, nm))
    C.stratum("band-" + nm, 200, 4000, fn=lambda r, m, i, nm=nm: case(r, m, i, nm, bands=(gen.BANDS[i % len(gen.BANDS)],), nmax=6))
    C.stratum("wide-" + nm, 6, 100, fn=lambda r, m, i, nm=nm: case(r, m, i, nm, nmax=300))
    C.stratum("long-" + nm, 12, 120, fn=lambda r, m, i, nm=nm: case(r, m, i, nm, bands=gen.BANDS if r.random() < 0.5 else ("tiny", "below", "above", "zero"), nmin=300, nmax=6000))
C.require("states_compared")

if __name__ == "__main__":
    sys.exit(C.main())
