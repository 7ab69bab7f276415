"""C16: ETD results do not depend on how the psi functions are evaluated."""
import math, sys
import numpy as np
from rkv import pkg, gen, probe, ref
from rkv.harness import Check, Inconclusive
from rkv.probe import make_rec, close

C = Check("C16", "the same attempt is made under several (modecutoff, contour_points, contour_radius) settings: results compared with each other and with extended-precision schemes using exact psi functions, with tolerances from the quadrature's "
          "error bounds; operators with entries placed just below and above the switch; public psi functions against extended precision; non-trivial = at least two settings that treat some entry differently (diagonal), differ in contour (full), or an array of arguments; "
          "distinct by solver, form, settings and operator",
          assumptions=["settings whose contour around some entry passes within 0.25 R of the removable singularity at 0 are not compared (cancellation of the formula there is the accuracy of that quadrature)",
                       "full-matrix ETD with |hL| <= 0.45 R (beyond the contour is known finding etd-full-contour of C03)"])


def attempt_of(name, form, L, u, h, f, st):
    s = make_rec(name, L, gen.NL(f), form, pkg.SolverConfig(epsilon=1e6) if pkg.is_as(name) else None, pkg.ETDConfig(**st) if st is not None else None)
    s.step(u, h)
    hh, un, er = s.rec_attempts[0]
    return un, er


def setting(rng, full=False):
    R = float(10 ** rng.uniform(-0.5, 0.6))
    if full:
        R = float(rng.uniform(0.6, 4))
    pts = int(rng.integers(24, 100)) if R < 1.5 else int(rng.integers(48, 128))
    cut = float(rng.choice([1e-3, 0.01, 0.1, 0.5, 1.0, gen.log_u(rng, 1e-3, 1.0)]))
    return dict(modecutoff=cut, contour_points=pts, contour_radius=R)


def clear(zs, st):
    """No contour point of any small entry comes near 0."""
    zs = np.atleast_1d(zs)
    zs = zs[np.abs(zs) < st["modecutoff"] * (1 + 1e-9)]
    if not zs.size:
        return True
    R = st["contour_radius"]
    return bool(np.all(np.abs(np.abs(zs) - R) > 0.25 * R))


FORMS = [(n, f) for n in pkg.ETDS for f in pkg.forms_of(n)]
DIAG = [x for x in FORMS if x[1] != "full"]
FULL = [x for x in FORMS if x[1] == "full"]


def compare(mon, rng, name, form, L, zs, u, h, f, sts, kappa=1.0):
    base = None
    done = []
    for st in sts:
        real = st or dict(modecutoff=0.01, contour_points=32, contour_radius=1.0)
        if zs is not None and not clear(zs, real):
            mon.count("settings_skipped_near_singularity")
            continue
        un, er = attempt_of(name, form, L, u, h, f, st)
        want, tol, werr, terr = ref.attempt(name, L, h, u, f, form, real, rng, kappa=kappa)
        tol = np.maximum(tol, 1e-13 * np.max(np.abs(want)))
        if not np.all(np.isfinite(tol)) or np.max(tol) > 1e-4 * max(np.max(np.abs(want)), 1e-30):
            mon.count("settings_too_inaccurate")
            continue
        what = "%s/%s with %s" % (name, form, real)
        mon.count("settings_compared")
        if not close(mon, un, want, tol, what + ": result differs from exact psi functions", L=L, h=h, u=u):
            return done
        if er is not None:
            terr = np.maximum(terr, tol)
            if not close(mon, er, werr, terr, what + ": estimate differs from exact psi functions", L=L, h=h, u=u):
                return done
        if base is not None:
            if not close(mon, un, base[0], tol + base[1], what + ": result differs from that with %s" % (base[2],), L=L, h=h, u=u):
                return done
        else:
            base = (un, tol, real)
        done.append(real)
    return done


def diag(rng, mon, idx):
    name, form = probe.pick_form(rng, idx, DIAG)
    cplx = bool(rng.random() < 0.6)
    n = gen.size(rng, 1, 8, 3000) if form == "diag" else gen.size(rng, 2, 6, 40)
    unit = gen.unit(rng)
    h = gen.log_u(rng, 1e-3, 1.0) * unit
    bands = ("zero", "tiny", "below", "above", "unit", "unit", "stiff", "imag")
    if form == "diagonalized":
        bands = ("above", "unit", "below", "imag") if cplx else ("above", "unit", "below")
    lam, bs = gen.diag_op(rng, n, h, cplx, bands)
    kappa = 1.0
    L = lam
    if form == "diagonalized":
        if rng.random() < 0.5 or np.min(np.abs(lam)) == 0:
            lam = lam - 10 ** rng.uniform(-3, 0) / h
        S = gen.orthobasis(rng, n, cplx)
        L = S @ np.diag(lam) @ np.linalg.inv(S)
        if np.linalg.cond(L) > 1e10:
            raise Inconclusive("ill-conditioned operator")
        kappa = 10.0 * n
        lam = np.linalg.eigvals(L)
    kind, f = gen.nonlinear(rng, n, cplx, rng.uniform(0.2, 1.5) / unit, kinds=("sat", "sin", "cubic", "lin"))
    _, u = gen.state(rng, n, cplx, "unit")
    sts = [None] + [setting(rng) for _ in range(3)]
    # one setting whose switch falls right next to an entry
    z = np.abs(h * lam)
    z = z[(z > 2e-3) & (z < 0.9)]
    if z.size:
        zc = float(rng.choice(z))
        for e in (1 - 1e-9, 1 + 1e-9):
            sts.append(dict(modecutoff=zc * e, contour_points=int(rng.integers(32, 64)), contour_radius=float(rng.uniform(1.6, 2.4) if zc > 0.5 else 1.0)))
        mon.count("switch_pairs")
    done = compare(mon, rng, name, form, L, h * lam, u, h, f, sts, kappa)
    masks = {tuple(np.abs(h * lam) < st["modecutoff"]) for st in done}
    if len(masks) > 1:
        mon.count("cases_with_different_treatment")
    if len(done) > 1:
        mon.key(name, form, L, done)
    mon.note(solver=name, form=form, settings=done[:3], bands=bs)


def switch(rng, mon, idx):
    """One entry is moved across the switch in tiny steps; the result must move by no more than the exact one."""
    name, form = probe.pick_form(rng, idx, [(n, "diag") for n in pkg.ETDS])
    cplx = bool(rng.random() < 0.6)
    n = int(rng.integers(1, 5))
    h = gen.log_u(rng, 1e-2, 1.0)
    cut = float(rng.choice([0.003, 0.01, 0.05, 0.2, 0.5, 1.0]))
    st = dict(modecutoff=cut, contour_points=int(rng.integers(32, 80)), contour_radius=float(rng.uniform(1.7, 2.5) if cut > 0.3 else rng.uniform(0.8, 1.4)))
    ph = np.exp(1j * rng.uniform(np.pi / 2, 3 * np.pi / 2)) if cplx else -1.0
    lam0, _ = gen.diag_op(rng, n, h, cplx, ("zero", "unit", "stiff", "above"))
    kind, f = gen.nonlinear(rng, n, cplx, 1.0, kinds=("sat", "sin"))
    _, u = gen.state(rng, n, cplx, "unit")
    out = []
    for e in (-1e-3, -1e-6, -1e-10, 1e-10, 1e-6, 1e-3):
        lam = np.array(lam0)
        lam[0] = cut * ph * (1 + e) / h
        if not clear(h * lam, st):
            raise Inconclusive("contour near the singularity")
        un, er = attempt_of(name, form, lam, u, h, f, st)
        want, tol, _, _ = ref.attempt(name, lam, h, u, f, form, st, rng)
        out.append((un, want, np.maximum(tol, 1e-13 * np.max(np.abs(want)))))
    for (a, wa, ta), (b, wb, tb) in zip(out, out[1:]):
        mon.count("switch_steps")
        if not close(mon, a - b, wa - wb, ta + tb, "%s: result jumps at the switch" % name, settings=st, h=h, lam=lam0):
            return
    mon.key(name, st, h, cplx)
    mon.note(solver=name, settings=st)


def full(rng, mon, idx):
    name, form = probe.pick_form(rng, idx, FULL)
    cplx = bool(rng.random() < 0.5)
    n = gen.size(rng, 2, 6, 64)
    sts = [None] + [setting(rng, True) for _ in range(3)]
    rmin = min([1.0] + [s["contour_radius"] for s in sts[1:]])
    A = gen.cnorm(rng, (n, n), cplx)
    if rng.random() < 0.3:
        A = np.triu(A)
        if rng.random() < 0.5:
            A = A - np.diag(np.diag(A))     # nilpotent
    if rng.random() < 0.4:
        _, A = gen.structured(rng, n, cplx)
    A = A / max(np.linalg.norm(A, 2), 1e-300) * rng.uniform(0.05, 0.45) * rmin
    unit = gen.unit(rng)
    h = gen.log_u(rng, 1e-2, 1.0) * unit
    L = A / h
    kind, f = gen.nonlinear(rng, n, cplx, rng.uniform(0.2, 1.5) / unit, kinds=("sat", "sin", "cubic", "lin"))
    _, u = gen.state(rng, n, cplx, "unit")
    done = compare(mon, rng, name, form, L, None, u, h, f, sts)
    # modecutoff is not used by the full form
    st = dict(sts[1], modecutoff=float(rng.uniform(1e-3, 1)))
    a, ea = attempt_of(name, form, L, u, h, f, st)
    b, eb = attempt_of(name, form, L, u, h, f, sts[1])
    mon.check(gen.same(a, b), "%s/full: modecutoff influences a full operator" % name)
    if len(done) > 1:
        mon.key(name, form, L, done)
    mon.note(solver=name, settings=done[:3])


def run_settings(rng, mon, idx):
    """Whole constant-step runs under two settings agree."""
    name = ("ETD4", "ETD5")[idx % 2]
    form = ("diag", "full")[(idx // 2) % 2]
    p = probe.Prob(rng, name, form)
    nst = int(rng.integers(5, 40))
    h = float(min(p.hmax * 0.6 if form == "full" else 0.2, gen.log_u(rng, 0.005, 0.2)))
    a, b = setting(rng, form == "full"), setting(rng, form == "full")
    for st in (a, b):
        if form == "full":
            st["contour_radius"] = max(st["contour_radius"], 1.0)
        elif not clear(h * p.L, st):
            raise Inconclusive("contour near the singularity")
    ua = p.solver(etd_config=pkg.ETDConfig(**a)).evolve(p.u0, 0.0, nst * h, h)
    ub = p.solver(etd_config=pkg.ETDConfig(**b)).evolve(p.u0, 0.0, nst * h, h)
    small = min(min(x["modecutoff"] for x in (a, b)), 0.01) if form == "diag" else 1.0
    rmin = min(1.0, a["contour_radius"], b["contour_radius"])
    tol = 1e-10 + 1e-13 / min(small, 0.3 * rmin) ** 3
    mon.count("runs_compared")
    close(mon, ua, ub, tol * 10 * max(1, np.max(np.abs(ua))), "%s/%s: run depends on the psi settings" % (name, form), a=a, b=b, L=p.L, h=h)
    mon.key(name, form, a, b)


def psi_ref(z, k):
    return ref.phis_diag(np.asarray(z, dtype=ref.CLD).ravel(), k)[k].reshape(np.shape(z)) * ref.LD(math.factorial(k))


def psis(rng, mon, idx):
    fn, k = ((pkg.psi1, 1), (pkg.psi2, 2), (pkg.psi3, 3))[idx % 3]
    cplx = bool(rng.random() < 0.6)
    shape = [(), (1,), (7,), (3, 4), (2, 3, 2), (1, 1), (40,), (2, 1, 3, 2)][rng.integers(8)]
    mag = 10 ** rng.uniform(-3, 2.3, shape)
    z = mag * (np.exp(2j * np.pi * rng.random(shape)) if cplx else np.where(rng.random(shape) < 0.5, -1.0, 1.0))
    if cplx and rng.random() < 0.3:
        z = 1j * mag
    z = np.asarray(z)
    scalar = shape == () and rng.random() < 0.5
    if shape and rng.random() < 0.5:
        z = gen.layout(rng, z)
    zin = z[()] if scalar else z
    keep = np.array(z)
    got = fn(zin)
    mon.check(np.shape(got) == shape, "psi%d: shape" % k, got=np.shape(got), want=shape)
    mon.check(gen.same(z, keep), "psi%d modifies its argument" % k)
    if not cplx:
        mon.check(not np.iscomplexobj(got), "psi%d of real values is complex" % k)
    want = psi_ref(keep, k)
    az = np.abs(keep)
    tol = 16 * ref.EPS * math.factorial(k) * (1 + az) ** k * np.maximum(1, np.exp(np.real(keep))) / az ** k + 16 * ref.EPS * (1 + az) * np.abs(want).astype(float)
    got, want, tol = np.asarray(got), np.asarray(want, dtype=complex), np.asarray(tol, dtype=float)
    mon.count("psi_values", int(np.prod(shape, dtype=int)))
    close(mon, got, want, tol, "psi%d differs from its definition" % k, z=keep)
    mon.key(k, cplx, shape, keep.ravel()[:4])


C.stratum("diag", 320, 6000, fn=diag)
C.stratum("full", 160, 3000, fn=full)
C.stratum("switch", 96, 1600, fn=switch)
C.stratum("runs", 96, 1500, fn=run_settings)
C.stratum("psi", 600, 12000, fn=psis)
C.require("settings_compared", "switch_pairs", "cases_with_different_treatment", "switch_steps", "runs_compared", "psi_values")

if __name__ == "__main__":
    sys.exit(C.main())
