"""C13: inputs are never modified and results never change afterwards (write protection and fingerprints)."""
import sys
import numpy as np
from rkv import pkg, gen, probe
from rkv.harness import Check, Inconclusive

C = Check("C13", "write-protected, fingerprinted inputs in several dtypes and memory layouts are given to solvers and functions; every returned state, stored snapshot and list is fingerprinted when obtained and "
          "again after further use of the solver; nonlinear functions that return cached, constant or aliased arrays are included; non-trivial = results kept across later use; distinct by solver, form, kind of nonlinear function, layout, later operations",
          assumptions=["the caller does not modify arrays himself (in particular the first snapshot may be the caller's own array)"])


def protect(rng, a):
    """(array to pass, base to fingerprint): frozen, strided, Fortran or plain."""
    a = np.array(a)
    k = ("frozen", "plain", "strided", "fortran", "reversed")[rng.integers(5)]
    if k == "frozen":
        x = gen.frozen(a)
        return k, x, x
    if k == "strided":
        big = np.full(tuple(2 * s for s in a.shape), 7, a.dtype)
        x = big[tuple(slice(None, None, 2) for _ in a.shape)]
        x[...] = a
        return k, x, big
    if k == "fortran":
        x = np.asfortranarray(a)
        return k, x, x
    if k == "reversed":
        big = a[::-1].copy()
        return k, big[::-1], big
    x = a.copy()
    return k, x, x


class Watch:
    def __init__(self):
        self.items = []

    def add(self, what, a):
        self.items.append((what, a, gen.fp(a)))

    def verify(self, mon, tag, **kw):
        for what, a, f in self.items:
            mon.count("fingerprints_verified")
            if not mon.check(gen.fp(a) == f, "%s: %s was modified" % (tag, what), now=a, **kw):
                return


NK = ("plain", "constarray", "buffer", "identity", "view", "inner")


def nlmaker(rng, p, w):
    """Nonlinear functions as users write them; some hand out arrays they keep."""
    k = NK[rng.integers(len(NK))]
    dt = complex if p.cplx else float
    if k == "constarray":
        c = 0.3 * gen.cnorm(rng, p.n, p.cplx)
        if rng.random() < 0.5:
            c = gen.frozen(c)
        w.add("the array returned by the nonlinear function", c)
        return k, lambda u: c
    if k == "identity":
        return k, lambda u: u                     # returns its own argument
    if k == "view":
        return k, lambda u: u[::-1]               # a view of its argument
    if k == "buffer":                             # always new, but made from a kept table
        tab = gen.frozen(0.4 * gen.cnorm(rng, p.n, p.cplx))
        w.add("a table used by the nonlinear function", tab)
        return k, lambda u: tab * u / (1 + np.abs(u) ** 2)
    if k == "inner":
        return k, lambda u: -0.2 * u * np.vdot(u, u).real / (1 + np.vdot(u, u).real)
    return k, p.f


def solver_case(rng, mon, idx):
    name, form = probe.pick_form(rng, idx)
    adaptive = pkg.is_as(name)
    p = probe.Prob(rng, name, form)
    w = Watch()
    nk, f = nlmaker(rng, p, w)
    lk, L, Lb = protect(rng, p.L)
    uk, u0, ub = protect(rng, p.u0)
    w.add("the operator", Lb)
    w.add("the initial state", ub)
    def guarded(u):
        """The nonlinear function fingerprints what it is handed and keeps it."""
        v = f(u)
        args.append((u, gen.fp(u)))
        return v
    args = []
    cfg = pkg.SolverConfig(epsilon=gen.log_u(rng, 1e-6, 1e-3))
    ecfg = pkg.ETDConfig(contour_points=int(rng.choice([16, 32])))
    snap = lambda o: {k: getattr(o, k) for k in ("epsilon", "incr_f", "decr_f", "safety_f", "adapt_cutoff", "minh", "modecutoff", "contour_points", "contour_radius") if hasattr(o, k)}
    cf = snap(cfg), snap(ecfg)
    N = gen.NL(guarded)
    s = probe.make_rec(name, L, N, form, cfg, ecfg)
    h = min(gen.log_u(rng, 0.01, 0.2), p.hmax)
    ops, lists = [], []
    clean = pkg.make(name, np.array(p.L), gen.NL(lambda u: np.array(f(np.array(u)), copy=True)), form, pkg.SolverConfig(**cf[0]), pkg.ETDConfig(**cf[1]))
    for _ in range(int(rng.integers(2, 6))):
        op = ("evolve", "steps", "evolve", "reset", "bigstep", "newstate")[rng.integers(6)]
        ops.append(op)
        x = u0
        try:
            if op in ("evolve", "newstate"):
                if op == "newstate":
                    _, x, xb = protect(rng, 0.5 * gen.cnorm(rng, p.n, p.cplx))
                    w.add("a state passed to evolve", xb)
                k = int(rng.integers(2, 7))
                ta, te, hh = 0.0, k * h, h
                if rng.random() < 0.4:      # times as numbers read from an array file come: 0-d arrays
                    ta, te, hh = np.array(ta), np.array(te), np.array(hh)
                    for what, a in (("the start time", ta), ("the end time", te), ("the step size", hh)):
                        w.add(what, a)
                st = dict(store_data=bool(rng.random() < 0.7), store_freq=int(rng.choice([1, 1, 2, 3])))
                r = s.evolve(x, ta, te, hh, **st) if not adaptive else s.evolve(x, ta, te, h_init=hh, **st)
                w.add("the state returned by evolve", r)
                for j, y in enumerate(s.u):
                    w.add("snapshot %d" % j, y)
                lists.append((s.t, list(s.t), s.u, list(s.u)))
                # aliasing or caching arrays in nl must not matter
                if op == "evolve":
                    rc = clean.evolve(np.array(p.u0), 0.0, k * h, h) if not adaptive else clean.evolve(np.array(p.u0), 0.0, k * h, h_init=h)
                    probe.close(mon, r, rc, 1e-10 * (np.max(np.abs(rc)) + 1e-300) * (1 if form == "diag" else 100), "%s/%s: result depends on whether the nonlinear function returns kept or new arrays" % (name, form), kind=nk)
            elif op in ("steps", "bigstep"):
                s.reset()
                hh = min(1.5, p.hmax) if op == "bigstep" else h
                for _ in range(int(rng.integers(1, 5))):
                    r = s.step(x, hh)
                    if adaptive:
                        x, hh = r[0], min(r[2], p.hmax)
                    else:
                        x = r
                    w.add("a state returned by step", x)
            else:
                s.reset()
        except pkg.BaseSolverAS.SolverError:
            mon.count("solver_errors")
            s.reset()
    mon.count("operations", len(ops))
    mon.count("nl_arguments_watched", len(args))
    tag = "%s/%s" % (name, form)
    w.verify(mon, tag, operations=ops, nl=nk, layout=(lk, uk))
    for a, fpr in args:
        if not mon.check(gen.fp(a) == fpr, tag + ": an array handed to the nonlinear function was modified later", operations=ops, nl=nk):
            break
    for t, tc, us, uc in lists:
        mon.check(t == tc and len(us) == len(uc) and all(a is b for a, b in zip(us, uc)), tag + ": a list of stored times or states changed later", operations=ops, before=len(tc), after=len(t))
    if hasattr(s, "config"):
        mon.check(snap(cfg) == cf[0], tag + ": configuration object modified", before=cf[0], after=snap(cfg))
    mon.check(snap(ecfg) == cf[1], tag + ": ETD configuration modified", before=cf[1], after=snap(ecfg))
    mon.check(gen.same(s.lin_op, p.L), tag + ": the solver's operator changed")
    mon.note(solver=name, form=form, nl=nk, operations=ops, watched=len(w.items))
    if len(w.items) > 3:
        mon.key(name, form, nk, lk, uk, ops)


def func_case(rng, mon, idx):
    """Grids, derivatives, transforms, models."""
    w = Watch()
    n = int(rng.integers(2, 20)) * 2
    n = max(n, 4)

    def arr(a):
        _, x, b = protect(rng, a)
        w.add("an argument", b)
        return x
    kind = ("rfft", "fft", "cheb", "hankel", "mirror", "kdv", "burgers", "allen", "soliton", "psi")[idx % 10]
    dt = (float, np.float32, int, complex, np.complex64)
    data = lambda shape, kinds=dt: np.asarray(rng.uniform(-3, 3, shape)).astype(kinds[rng.integers(len(kinds))])
    outs = []
    if kind == "rfft":
        x, kx = pkg.grids.construct_x_kx_rfft(n)
        k = arr(kx)
        u = arr(data(n, (float, np.float32, int)))
        outs = [pkg.derivatives.dx_rfft(k, u, m) for m in range(4)]
    elif kind == "fft":
        x, kx = pkg.grids.construct_x_kx_fft(n)
        k, u = arr(kx), arr(data(n))
        outs = [pkg.derivatives.dx_fft(k, u, m) for m in range(4)]
    elif kind == "cheb":
        x, D = pkg.grids.construct_x_dx_cheb(n)
        D = arr(D)
        u = arr(data(n + 1 if rng.random() < 0.5 else (n + 1, 3)))
        outs = [pkg.derivatives.dx_cheb(D, u, m) for m in range(4)]
    elif kind == "hankel":
        H = pkg.transforms.HankelTransform(n, float(rng.uniform(0.5, 5)))
        u = arr(data(n if rng.random() < 0.5 else (n, 3)))
        Y, z, r, kr = H.hankel_matrix(), H.bessel_zeros(), H.r, H.kr
        for a in (Y, z, r, kr):
            w.add("an array handed out by the transform", a)
        g = H.ht(u)
        outs = [g, H.iht(u)]
        w.add("a result", g)
        H.rmax = 2.0
        H.nr = n + 3
        H.nr = n
        H.ht(u)
        # the object is not affected by what the user does with the arrays it hands out
        Y2 = H.hankel_matrix()
        ref = gen.fp(H.ht(u)), gen.fp(H.iht(u))
        Y2 *= 0
        z2 = H.bessel_zeros()
        z2 *= 0
        mon.check((gen.fp(H.ht(u)), gen.fp(H.iht(u))) == ref and np.any(H.hankel_matrix()) and np.any(H.bessel_zeros()), "transform changed through an array it handed out")
    elif kind == "mirror":
        r = arr(np.sort(rng.uniform(0, 3, n)))
        u = arr(data(n if rng.random() < 0.5 else (n, n)))
        outs = [x for x in pkg.grids.mirror_grid(r, u, int(rng.integers(-1, u.ndim)))]
        for o in outs:
            if np.size(o):
                o[...] = 0     # results are independent of the inputs
    elif kind in ("kdv", "burgers"):
        x, kx = pkg.grids.construct_x_kx_rfft(n)
        kx = arr(kx)
        L, NLf = pkg.models.kdv_ops(kx) if kind == "kdv" else pkg.models.burgers_ops(kx, float(rng.uniform(0.001, 1)))
        w.add("the linear operator returned", L)
        uf = arr(np.fft.rfft(rng.standard_normal(n)))
        v1 = NLf(uf)
        w.add("a value of the nonlinear function", v1)
        v2 = NLf(arr(np.fft.rfft(rng.standard_normal(n))))
        outs = [v1, v2]
    elif kind == "allen":
        x, D = pkg.grids.construct_x_dx_cheb(n)
        x, D = arr(x), arr(D)
        L, NLf = pkg.models.allen_cahn_ops(x, D, float(rng.uniform(0.001, 0.1)))
        w.add("the linear operator returned", L)
        v1 = NLf(arr(rng.standard_normal(n - 1)))
        w.add("a value of the nonlinear function", v1)
        NLf(arr(rng.standard_normal(n - 1)))
    elif kind == "soliton":
        x = arr(np.linspace(-20, 20, n))
        pkg.models.kdv_soliton(x, 0.7, 1.0, 0.3)
        a, b = [0.5, 0.8], [1.0, -2.0]
        pkg.models.kdv_multi_soliton(x, a, b, 0.3)
        aa, bb = arr(np.array(a)), arr(np.array(b))
        pkg.models.kdv_multi_soliton(x, aa, bb, 0.3)
        mon.check(a == [0.5, 0.8] and b == [1.0, -2.0], "parameter lists modified")
    else:
        z = arr(gen.cnorm(rng, n, True) + 2)
        for f in (pkg.psi1, pkg.psi2, pkg.psi3):
            f(z)
    w.verify(mon, kind)
    mon.count("function_cases")
    mon.key(kind, n, [str(a.dtype) + str(a.ndim) for _, a, _ in w.items])
    mon.note(function=kind, n=n, watched=len(w.items))


C.stratum("solvers", 900, 20000, fn=solver_case)
C.stratum("functions", 400, 6000, fn=func_case)
C.require("fingerprints_verified", "nl_arguments_watched", "function_cases", "states_compared")

if __name__ == "__main__":
    sys.exit(C.main())
