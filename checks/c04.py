"""C04: with a zero nonlinear term every solver propagates by the exact exponential."""
import sys
import numpy as np
from rkv import pkg, ref, gen
from rkv.harness import Check, Inconclusive

C = Check("C04", "runs (single steps, step sequences, evolve) with zero nonlinear term on diagonal and matrix operators of every stiffness; non-trivial = some mode changes by more than rounding; "
          "distinct by solver, form, bands, zero-term flavour, run kind",
          assumptions=["extended-precision exponential is the oracle; per-mode relative tolerance for diagonal operators, norm-wise for matrices"])

ZERO = {
    "0*u": lambda u: 0 * u,
    "zeros_like": np.zeros_like,
    "real zeros": lambda u: np.zeros(u.shape),
    "u-u": lambda u: u - u,
    "const": None,
}


def diag(rng, mon, idx, name):
    cplx = bool(rng.random() < 0.6)
    n = gen.size(rng, 1, 15, 6000)
    h = gen.log_u(rng, 1e-5, 50) * gen.unit(rng)
    bands = gen.BANDS if rng.random() < 0.7 else ("vstiff", "zero", "imagbig", "stiff")
    L, bs = gen.diag_op(rng, n, h, cplx, bands)
    zk = list(ZERO)[idx % len(ZERO)]
    Z = np.zeros(n, complex if rng.random() < 0.5 else float)
    f = ZERO[zk] or (lambda u: Z)
    uk, u = gen.state(rng, n, cplx or rng.random() < 0.3)
    if rng.random() < 0.05:
        u = np.zeros_like(u)
    s = pkg.make(name, L, gen.NL(f))
    aso = pkg.is_as(name)
    run = ("one", "many", "evolve")[rng.integers(3)]
    T, nst = 0.0, 0
    u0 = u
    if run == "evolve":
        nst = int(rng.integers(1, 40))
        T = h * nst
        if aso:
            u = s.evolve(u, 0.0, T, h_init=h if rng.random() < 0.8 else None)
            nst = len(s.t)
        else:
            u = s.evolve(u, 0.0, T, h)
        mon.count("evolves")
        mon.check(abs(s.t[-1] - T) <= 1e-12 * T, "run did not reach the final time", t=s.t[-1], T=T)
    else:
        for _ in range(1 if run == "one" else int(rng.integers(2, 12))):
            hk = h * float(rng.choice([1, 1, 0.3, 0.01]))
            if aso:
                u, hu, hn = s.step(u, hk)
                mon.check(hu == hk, "exact linear step not taken as proposed", h=hk, used=hu)
                mon.check(hn == 4 * hk, "zero error estimate: the suggested step is not 4*h", h=hk, next=hn)
                hk = hu
            else:
                u = s.step(u, hk)
            T += hk
            nst += 1
    zT = np.asarray(L, ref.CLD) * ref.LD(T)
    want = u0.astype(ref.CLD) * np.exp(zT)
    if not np.all(np.abs(want) < 1e250):
        raise Inconclusive("overflow of the exact solution")
    # T itself carries rounding of the accumulated time
    rel = 4 * ref.EPS * (nst + 2) * (2 + np.abs(zT).astype(float))
    d = np.abs(np.asarray(u, ref.CLD) - want).astype(float)
    mag = np.abs(want).astype(float)
    mon.count("modes_compared", n)
    mon.count("states_compared")
    ok = np.asarray(u).shape == (n,) and np.all(d <= rel * mag + 1e-290)
    if np.any(np.abs(want - u0) > 1e-6 * np.abs(u0)):
        mon.key(name, bs, zk, uk, run, cplx)
    mon.note(solver=name, h=h, T=T, bands=bs, run=run, steps=nst)
    if not ok:
        i = int(np.argmax(d / (rel * mag + 1e-290)))
        mon.viol("%s: linear mode not propagated by exp(T*lambda)" % name, z=complex(zT[i]), got=complex(u[i]), want=complex(want[i]), rel=float(rel[i]), run=run, zero=zk)


def mat(rng, mon, idx, name, form):
    cplx = bool(rng.random() < 0.6)
    n = gen.size(rng, 2, 7, 80)
    h = gen.log_u(rng, 1e-4, 10) * gen.unit(rng)
    bands = ("below", "above", "unit", "stiff", "imag")
    lam, bs = gen.diag_op(rng, n, h, cplx, bands)
    kind = ("normal", "oblique", "diag", "defective")[rng.integers(4)]
    if form == "diagonalized" and kind == "defective":
        kind = "normal"
    Q = gen.orthobasis(rng, n, cplx)
    kappa = 1.0
    if rng.random() < 0.4:
        kind, A = gen.structured(rng, n, cplx)
        A = A * gen.log_u(rng, 1e-3, 30) / h
        kappa = 50
    elif kind == "diag":
        A = np.diag(lam)
    elif kind == "normal":
        A = Q @ np.diag(lam) @ Q.conj().T
    elif kind == "defective":
        A = Q @ (np.diag(np.full(n, lam[0])) + np.diag(np.ones(n - 1) / h, 1)) @ Q.conj().T
        kappa = 50
    else:
        V = Q @ np.diag(rng.uniform(0.5, 2, n)) @ gen.orthobasis(rng, n, cplx)
        A = V @ np.diag(lam) @ np.linalg.inv(V)
        kappa = 20
    if form == "diagonalized":
        if np.linalg.cond(A) > 1e14:
            raise Inconclusive("singular")
        w, V = np.linalg.eig(A)
        kappa *= np.linalg.cond(V)
        if kappa > 1e4:
            raise Inconclusive("ill-conditioned eigenbasis")
    u0 = u = gen.cnorm(rng, n, cplx)
    # contour quadrature must not hit an eigenvalue exactly; any finite coefficient times zero is zero
    s = pkg.make(name, A, gen.NL(lambda v: 0 * v), form)
    aso = pkg.is_as(name)
    T, nst = 0.0, 0
    if rng.random() < 0.5:
        nst = int(rng.integers(1, 12))
        T = h * nst
        u = s.evolve(u, 0.0, T, h) if not aso else s.evolve(u, 0.0, T, h_init=h)
        mon.count("evolves")
        mon.check(abs(s.t[-1] - T) <= 1e-12 * T, "run did not reach the final time", t=s.t[-1], T=T)
    else:
        for _ in range(int(rng.integers(1, 6))):
            hk = h * float(rng.choice([1, 1, 0.3]))
            if aso:
                u, hu, hn = s.step(u, hk)
                mon.check(hu == hk, "exact linear step not taken as proposed", h=hk, used=hu)
            else:
                u = s.step(u, hk)
            T += hk
            nst += 1
    want = np.asarray(ref.phis_mat(A * T)[0] @ u0.astype(ref.CLD), complex)
    nrm = np.linalg.norm(A * T, 2)
    grow = max(1.0, float(np.linalg.norm(want)), float(np.linalg.norm(u0)))
    tol = 200 * ref.EPS * (nst + 2) * (2 + nrm) * kappa * grow
    mon.count("states_compared")
    mon.key(name, form, kind, bs, cplx, n)
    mon.note(solver=name, form=form, kind=kind, h=h, T=T)
    d = float(np.max(np.abs(u - want)))
    if not d <= tol:
        mon.viol("%s/%s: linear system not propagated by exp(T*L)" % (name, form), diff=d, tol=tol, kind=kind, T=T, h=h)


for nm in pkg.CLS:
    C.stratum("diag-" + nm, 300, 8000, fn=lambda r, m, i, nm=nm: diag(r, m, i, nm))
for nm, fm in pkg.all_forms():
    if fm != "diag":
        C.stratum("%s-%s" % (nm, fm), 60, 1500, fn=lambda r, m, i, nm=nm, fm=fm: mat(r, m, i, nm, fm))
C.require("states_compared", "evolves")

if __name__ == "__main__":
    sys.exit(C.main())
