"""C19: unusable operators are refused and solver kinds are reported truthfully."""
import sys
import numpy as np
from rkv import pkg, gen, probe, ref
from rkv.harness import Check, Inconclusive
from rkv.probe import make_rec

C = Check("C19", "every solver is given operators of unusable shapes and (diagonalize=True) singular ones, which must be refused, and the same usable operator in many dtypes and memory layouts, whose step results are compared; solver kinds are asked of "
          "instances in many states and of other objects; non-trivial = a refusal, or a pair of different representations, or a kind; distinct by solver, form and shape or dtype",
          assumptions=["diagonalize=True: matrices whose computed condition number lies between 1e14 and 1e17 are not judged (rounding decides whether they are seen as singular)"])
N0 = lambda u: 0.1 * u


def construct(name, L, **kw):
    return pkg.CLS[name](L, N0, loglevel=pkg.LEVEL, **kw)


def shapes(rng, mon, idx):
    name = list(pkg.CLS)[idx % 7]
    k = (idx // 7) % 6
    n, m = int(rng.integers(1, 9)), int(rng.integers(1, 9))
    if m == n:
        m = n + 1
    shape = [(), (n, n, n), (n, m), (2, n, n), (n, 1) if n > 1 else (1, 3), (1,) * int(rng.integers(3, 6))][k]
    cplx = bool(rng.random() < 0.5)
    L = gen.cnorm(rng, shape, cplx) if shape else np.array(-1.5 + (0.5j if cplx else 0))
    kws = [{}] + ([{"diagonalize": True}] if name in pkg.DIAGONALIZABLE else [])
    if rng.random() < 0.3:
        L = np.asarray(L).astype(int) if not cplx else L
    for kw in kws:
        try:
            construct(name, L, **kw)
            mon.viol("%s accepts an operator of shape %s" % (name, shape), kw=kw)
        except ValueError as e:
            if isinstance(e, np.linalg.LinAlgError):
                mon.viol("%s: operator of shape %s refused by an unrelated error" % (name, shape), error=str(e))
            mon.count("shapes_refused")
    mon.key(name, shape, cplx)
    if name == "IF45DP":
        for sq in (np.diag(-np.arange(1.0, n + 1)), gen.cnorm(rng, (n, n), cplx), np.zeros((1, 1)), np.zeros((n, n))):
            try:
                construct(name, sq)
                mon.viol("IF45DP accepts a matrix", shape=sq.shape)
            except ValueError:
                mon.count("if45dp_matrices_refused")
    mon.note(solver=name, shape=list(shape))


def singular(rng, mon, idx):
    name = pkg.DIAGONALIZABLE[idx % 3]
    n = gen.size(rng, 2, 8, 96, 0.05)
    cplx = bool(rng.random() < 0.5)
    A = gen.cnorm(rng, (n, n), cplx) * 10 ** (rng.uniform(-3, 3) if rng.random() < 0.7 else rng.uniform(-100, 100))
    k = (idx // 3) % 9
    sing = True
    if k == 0:
        A[:, rng.integers(n)] = 0
    elif k == 1:
        A = np.zeros((n, n))
    elif k == 2:
        A = np.triu(A)
        A[0, 0] = 0
    elif k == 3:
        i, j = rng.choice(n, 2, False)
        A[i] = A[j] * float(rng.choice([1, -2, 0.5]))
    elif k == 4:
        d = gen.cnorm(rng, n, cplx)
        d[rng.integers(n)] = 0
        A = np.diag(d)
    elif k == 5:
        A = np.triu(A, 1)
    elif k > 6:
        A = gen.structured(rng, n, cplx)[1] * (gen.log_u(rng, 1e-6, 1e6) if rng.random() < 0.7 else gen.log_u(rng, 1e-100, 1e100))
        sing = not np.linalg.cond(A) < 1e10
    else:
        sing = False
        Q = gen.orthobasis(rng, n, cplx)
        d = -10 ** rng.uniform(0, rng.choice([0.5, 3, 8, 12]), n)
        A = Q @ np.diag(d) @ np.conj(Q.T) * (1.0 if rng.random() < 0.7 else gen.log_u(rng, 1e-100, 1e100))
    c = np.linalg.cond(A)
    if (sing and c < 1e17) or (not sing and c > 1e14):
        raise Inconclusive("condition number near the limit of double precision")
    if not sing and np.linalg.cond(np.linalg.eig(A)[1]) > 1e10:
        raise Inconclusive("no full set of eigenvectors, numerically")
    try:
        construct(name, A, diagonalize=True)
        mon.check(not sing, "%s(diagonalize=True) accepts a singular matrix" % name, A=A, kappa=c)
        mon.count("regular_accepted")
    except ValueError as e:
        mon.check(sing, "%s(diagonalize=True) refuses a regular matrix" % name, A=A, kappa=c, error=str(e))
        mon.count("singular_refused")
    # without diagonalization the same matrix is accepted
    construct(name, A)
    # a vector is accepted whatever the option, with the same results
    v = -np.abs(np.real(gen.cnorm(rng, n, False)))
    a, b = construct(name, v, diagonalize=True), construct(name, v)
    mon.check(gen.same(a.step(np.ones(n), 0.1)[0], b.step(np.ones(n), 0.1)[0]), "%s: diagonalize=True changes the result for a vector" % name)
    mon.key(name, k, n, cplx)


DT = ("int64", "int32", "int8", "float32", "float64", "complex64", "complex128", "longdouble", ">f8", "bool", "uint8", "float16")


def dtypes(rng, mon, idx):
    name, form = probe.pick_form(rng, idx)
    dt = DT[(idx // 16) % len(DT)]
    n = (gen.size(rng, 1, 6, 2000) if form == "diag" else gen.size(rng, 1, 6, 40)) if form != "diagonalized" else gen.size(rng, 2, 6, 40)
    if form != "diag" and dt == "longdouble" or form == "diagonalized" and dt == "float16":
        dt = "float32"      # linear algebra routines do not support these
    vals = rng.integers(-3, 1, n) if dt[0] in "i" else rng.integers(0, 2, n) if dt in ("bool", "uint8") else rng.integers(-64, 8, n) / 16.0
    base = np.asarray(vals, dtype=float)
    if dt.startswith("c"):
        base = base + 1j * rng.integers(-32, 33, n) / 16.0
    if form != "diag":
        M = np.zeros((n, n), base.dtype)
        M[np.diag_indices(n)] = base
        off = rng.integers(-1, 2, (n, n)) * (rng.random((n, n)) < 0.3) if dt[0] not in "bu" else (rng.random((n, n)) < 0.2)
        base = np.where(np.eye(n, dtype=bool), M, off.astype(M.dtype))
        if form == "diagonalized":
            if np.linalg.cond(base) > 1e6 or np.linalg.cond(np.linalg.eig(base)[1]) > 1e3:
                raise Inconclusive("not usefully diagonalizable")
    h = float(2.0 ** -int(rng.integers(2, 6))) if rng.random() < 0.4 else gen.log_u(rng, 0.02, 0.6)
    if form == "full" and name in pkg.ETDS:
        nr = np.linalg.norm(base, 2)
        while h * nr > 0.4:
            h /= 2
    kind, f = gen.nonlinear(rng, n, True, 0.5, kinds=("sat", "sin"))
    u = gen.cnorm(rng, n, True)

    def go(L):
        keep = np.array(L)
        s = make_rec(name, L, gen.NL(f), form, pkg.SolverConfig(epsilon=1.0) if pkg.is_as(name) else None)
        s.step(u, h)
        v = s.step(u, h)
        v = v[0] if pkg.is_as(name) else v
        assert gen.same(keep, L)
        return v, s.rec_attempts[0][2]
    L1 = base.astype(dt)
    want, werr = go(base.astype(complex if np.iscomplexobj(base) else float).copy())
    low = 1e-11         # the values are exact in every type
    for rep in range(3):
        Lr = L1 if rep == 0 else gen.layout(rng, L1)
        got, gerr = go(Lr)
        mon.count("representations_compared")
        sc = max(1.0, np.max(np.abs(want)))
        if not mon.check(np.shape(got) == (n,) and np.all(np.abs(got - want) <= low * 20 * sc), "%s/%s: result depends on the operator's representation" % (name, form), dtype=dt, rep=rep, got=got, want=want, L=base, h=h):
            return
        if werr is not None and not mon.check(np.all(np.abs(gerr - werr) <= low * 20 * sc), "%s/%s: error estimate depends on the operator's representation" % (name, form), dtype=dt, got=gerr, want=werr, L=base, h=h):
            return
    mon.count("dtype " + dt)
    mon.key(name, form, dt, base)
    mon.note(solver=name, form=form, dtype=dt, n=n)


def kinds(rng, mon, idx):
    name, form = probe.pick_form(rng, idx)
    p = probe.Prob(rng, name, form)
    ST = pkg.SolverType
    want = ST.ADAPTIVE_STEP if pkg.is_as(name) else ST.CONSTANT_STEP
    s = p.solver(rec=bool(rng.random() < 0.3))

    def ask(when):
        mon.count("kinds_asked")
        mon.check(s.solver_type is want, "%s: solver_type" % name, got=str(s.solver_type), when=when)
        mon.check(ST.from_solver(s) is want, "%s: SolverType.from_solver" % name, got=str(ST.from_solver(s)), when=when)
    ask("new")
    s.step(p.u0, float(min(0.01, p.hmax)))
    ask("after a step")
    s.reset()
    ask("after reset")
    try:
        if pkg.is_as(name):
            s.evolve(p.u0, 0, 0.05, h_init=float(min(0.01, p.hmax)))
        else:
            s.evolve(p.u0, 0, 0.05, h=float(min(0.01, p.hmax)))
    except ZeroDivisionError:
        raise
    ask("after evolve")
    mon.check(ST.AS is ST.ADAPTIVE_STEP and ST.CS is ST.CONSTANT_STEP and ST.AS is not ST.CS, "aliases of the solver kinds")

    class Other(pkg.solver.BaseSolver):
        """A solver that is neither."""

        def __init__(self):
            super().__init__(np.zeros(2), N0, loglevel=pkg.LEVEL)

        @property
        def solver_type(self):
            return want

        def reset(self):
            pass

        def _reset(self):
            pass

    class Duck:
        solver_type = want
        step = evolve = lambda *a: None
    for o in (None, 3, "ETD4", pkg.CLS[name], Duck(), Other(), p.L, pkg.SolverConfig(), pkg.ETDConfig(), want, N0, [s], object()):
        try:
            r = ST.from_solver(o)
            mon.viol("from_solver reports a kind for something that is no solver of either kind", obj=type(o).__name__, got=str(r))
        except TypeError:
            mon.count("others_refused")
    mon.key(name, form)


C.stratum("shapes", 630, 4000, fn=shapes)
C.stratum("singular", 630, 4000, fn=singular)
C.stratum("dtypes", 1536, 24000, fn=dtypes)
C.stratum("kinds", 48, 640, fn=kinds)
C.require("shapes_refused", "if45dp_matrices_refused", "singular_refused", "regular_accepted", "representations_compared", "kinds_asked", "others_refused", *("dtype " + d for d in DT))

if __name__ == "__main__":
    sys.exit(C.main())
