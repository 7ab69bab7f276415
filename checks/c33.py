"""C33: the type and layout in which states, times and step sizes are given do not matter."""
import functools
import sys
import numpy as np
from rkv import pkg, gen, probe
from rkv.harness import Check, Inconclusive
from rkv.probe import near_threshold

C = Check("C33", "one problem run by steps and by evolve from the same initial values given as integers, single and double precision, real and complex, byte-swapped, strided, reversed, read-only, Fortran-ordered, sub-classed and (without a nonlinear term that minds) list states, with times and step sizes as int, float, numpy scalar or 0-d array; "
          "the nonlinear term as another callable, or returning views, its argument, memoized, constant, strided, byte-swapped, read-only or integer arrays; every state, time and step size compared with the run from a plain double array; non-trivial = every variant compared; distinct by solver, form, problem and variant",
          assumptions=["the nonlinear term leaves the arrays it returned unaltered while a step is under way (no buffer used again) and they are of double precision or integers", "times and step sizes are given in types that hold their value exactly", "adaptive pairs with a decision within 1e-7 of its threshold are not judged"])
FORMS = pkg.all_forms()


class Sub(np.ndarray):
    """A subclass without behaviour of its own."""


def swapped(a):
    return a.astype(a.dtype.newbyteorder())


def backwards(a):
    return np.ascontiguousarray(a[::-1])[::-1]


def strided(a):
    b = np.full((a.size, 3), 77, a.dtype)
    b[:, 1] = a
    return b[:, 1]


def readonly(a):
    b = a.copy()
    b.setflags(write=False)
    return b


def unaligned(a):
    buf = np.zeros(a.nbytes + 1, np.uint8)
    b = buf[1:].view(np.uint8)[: a.nbytes].view(a.dtype)
    b[...] = a
    return b


LAYOUTS = [("", lambda a: a), ("", lambda a: a), ("strided", strided), ("backwards", backwards), ("readonly", readonly), ("unaligned", unaligned), ("subclass", lambda a: a.view(Sub)), ("row of a Fortran matrix", lambda a: np.asfortranarray(np.stack([a, a]))[0]),
           ("byte-swapped", lambda a: swapped(a) if a.dtype.itemsize > 1 else a), ("swapped and strided", lambda a: strided(swapped(a))), ("swapped and backwards", lambda a: backwards(swapped(a))), ("read-only strided subclass", lambda a: readonly(strided(a).view(Sub))),
           ("part of a bigger array", lambda a: np.concatenate([a, a + 0, a])[a.size:2 * a.size])]


def variants(u, real_problem):
    """(name, representation, exact type?) of the values of u (integers or multiples of 1/8)."""
    v = []
    r = np.real(u)
    if np.all(np.imag(u) == 0):
        ints = np.all(r == np.round(r))
        if ints:
            v += [(str(np.dtype(t)), r.astype(t)) for t in (np.int64, np.int32, np.int16, np.int8)]
            if np.all(r >= 0):
                v += [("uint8", r.astype(np.uint8)), ("uint64", r.astype(np.uint64))]
            if np.all((r == 0) | (r == 1)):
                v += [("bool", r.astype(bool))]
        v += [("float64", r.astype(float)), ("float32", r.astype(np.float32)), ("float16", r.astype(np.float16)), ("float64 swapped", swapped(r.astype(float))), ("int swapped", swapped(r.astype(np.int32))) if ints else ("float32 swapped", swapped(r.astype(np.float32)))]
    v += [("complex128", u.astype(complex)), ("complex64", u.astype(np.complex64)), ("complex swapped", swapped(u.astype(complex)))]
    base = u.astype(complex) if np.any(np.imag(u)) else r.astype(float)
    v += [("strided", strided(base)), ("backwards", backwards(base)), ("readonly", readonly(base)), ("unaligned", unaligned(base)), ("subclass", base.view(Sub)), ("part of a matrix", np.asfortranarray(np.stack([base, base + 1]))[0])]
    return v


def ways(x):
    """Forms in which a number can be given."""
    out = [float(x), np.float64(x), np.array(float(x))]
    for t in (np.float32, np.float16):
        if float(t(x)) == float(x):
            out += [t(x), np.array(x, t)]
    if float(x) == int(x):
        out += [int(x), np.int64(x), np.int32(x), np.array(int(x))]
        for t in (np.int8, np.uint8, np.int16, np.uint64):
            if np.iinfo(t).min <= x <= np.iinfo(t).max:
                out += [t(x), np.array(int(x), t)]
    return out


def do(p, N, u0, plan, cfgkw, give):
    """(states, numbers, solver)"""
    aso = pkg.is_as(p.name)
    s = probe.make_rec(p.name, p.L, N, p.form, pkg.SolverConfig(**cfgkw) if aso else None)
    us, xs = [], []
    u = u0
    if plan["kind"] == "step":
        for k, h in enumerate(plan["hs"]):
            h = give(h)
            if aso:
                u, a, b = s.step(u, h)
                xs += [float(a), float(b)]
            else:
                u = s.step(u, h)
            us.append(np.array(u))
    else:
        a, b, h = give(plan["t0"]), give(plan["tf"]), give(plan["h"])
        u = s.evolve(u, a, b, h, store_freq=plan["fq"])
        us = [np.array(x) for x in s.u[1:]] + [np.array(u)]
        xs = [float(t) for t in s.t]
        first = s.u[0]
        us.append(np.array(first).astype(complex))
    return us, xs, s, u


def case(rng, mon, idx):
    name, form = FORMS[idx % len(FORMS)]
    aso = pkg.is_as(name)
    p = probe.Prob(rng, name, form, cplx=None, stiff=bool(rng.random() < 0.3))
    n = p.n
    N = probe.Nonlinear(rng, n, p.cplx, float(rng.uniform(0.2, 1.2)))
    N.double = True
    kind = rng.integers(4)
    if kind == 0:
        u = rng.integers(-6, 7, n).astype(complex)
    elif kind == 1:
        u = rng.integers(0, 2, n).astype(complex)
    elif kind == 2:
        u = rng.integers(0, 9, n) / 8 + 0j
    else:
        u = (rng.integers(-9, 9, n) + 1j * rng.integers(-9, 9, n)) / 8
    if not np.any(u):
        u[0] = 1
    h = min(float(rng.choice([1.0, 0.5, 0.125, 0.0625, 0.1, 0.03])), p.hmax)
    if rng.random() < 0.5:
        plan = dict(kind="step", hs=[min(h * float(rng.choice([1, 1, 0.5, 2])), p.hmax) for _ in range(int(rng.integers(1, 5)))])
    else:
        t0 = float(rng.integers(-3, 4))
        T = float(rng.integers(1, 3)) if not np.isfinite(p.hmax) or not aso else p.hmax
        plan = dict(kind="evolve", t0=t0, tf=t0 + T, h=min(h, T) if aso else T / int(np.ceil(T / h)), fq=int(rng.integers(1, 4)))
    cfgkw = dict(epsilon=gen.log_u(rng, 1e-7, 1e-3), adapt_cutoff=float(rng.choice([0.0, 0.01])), minh=1e-60) if aso else {}
    base = u if np.any(u.imag) else u.real.copy()
    try:
        us, xs, s0, last = do(p, N, base.copy(), plan, cfgkw, float)
    except (pkg.BaseSolverAS.MinimumStepReached, pkg.BaseSolverAS.MaxLoopsExceeded) as e:
        raise Inconclusive(type(e).__name__)
    if aso and near_threshold(s0, name, pkg.SolverConfig(**cfgkw)):
        raise Inconclusive("decision close to its threshold")
    kappa = 1.0 if form == "diag" else (np.linalg.cond(p.S) ** 2 if form == "diagonalized" else 10 * np.linalg.cond(p.S))
    if form == "diagonalized" and kappa > 1e4:
        raise Inconclusive("ill-conditioned eigenbasis")
    scale = max(float(np.max(np.abs(x))) for x in us)
    vs = variants(u, not p.cplx)
    pick = [vs[i] for i in rng.permutation(len(vs))[:5]]
    for nm, rep in pick:
        lay, fn = LAYOUTS[rng.integers(len(LAYOUTS))]
        if lay:
            nm, rep = nm + ", " + lay, fn(rep)
        keep = np.array(rep).copy()
        gave = []

        def give(x):
            w = ways(x)
            v = w[rng.integers(len(w))]
            gave.append(type(v).__name__ + ("0d" if isinstance(v, np.ndarray) else ""))
            return v
        mixed = bool(rng.random() < 0.5)
        tag = "%s/%s from %s" % (name, form, nm)
        try:
            vu, vx, s, vlast = do(p, N, rep, plan, cfgkw, give if mixed else float)
        except (pkg.BaseSolverAS.MinimumStepReached, pkg.BaseSolverAS.MaxLoopsExceeded) as e:
            mon.viol(tag + ": ends with %s, the run from a double array does not" % type(e).__name__, plan=plan)
            return
        mon.count("variants_compared")
        mon.check(gen.same(np.array(rep), keep), tag + ": initial state modified")
        if not mon.check(len(vx) == len(xs) and len(vu) == len(us), tag + ": other number of states", got=len(vu), want=len(us), times=gave, plan=plan):
            return
        mon.check(all(abs(a - b) <= 1e-8 * kappa * max(1e-4, max(abs(x) for x in xs)) for a, b in zip(vx, xs)), tag + ": times or step sizes differ", got=vx[:5], want=xs[:5], given=gave, plan=plan)
        for k, (a, b) in enumerate(zip(vu, us)):
            t = (1e-11 if not aso else 1e-9) * kappa * scale * (1 + 0.2 * k)
            if not probe.close(mon, a, b, t, tag + ": state %d differs" % k, given=gave, plan=plan):
                return
        mon.check(np.asarray(vlast).dtype in (np.dtype(float), np.dtype(complex)), tag + ": result is not in double precision", dtype=str(np.asarray(vlast).dtype))
        mon.key(tag, idx, mixed)
    mon.note(solver=name, form=form, plan=plan, variants=[x[0] for x in pick])


class Holder:
    """Callables of several kinds for one function."""

    def __init__(self, f):
        self.f = f

    def __call__(self, u):
        return self.f(u)

    def method(self, u):
        return self.f(u)


def kinds(f, n, cplx, const):
    """Other callables, and other representations of the values, of one nonlinear function."""
    memo = {}

    def remember(u):
        k = (np.asarray(u).dtype.str, np.asarray(u).tobytes())
        if k not in memo:
            memo[k] = f(u)
        return memo[k]
    out = [("memoized", remember), ("partial", functools.partial(lambda c, u: f(u), 0)), ("object", Holder(f)), ("method", Holder(f).method)]
    for nm, fn in LAYOUTS:
        if nm:
            out.append((nm, lambda u, fn=fn: fn(np.asarray(f(u)))))
    out.append(("complex", lambda u: np.asarray(f(u)).astype(complex)) if cplx else ("memoized", remember))
    def plainest(u):
        # integers when all values are, else real when all values are, else complex: the type changes from call to call
        v = np.asarray(f(u))
        if np.iscomplexobj(v) and not np.any(v.imag):
            v = v.real
        return v.astype(np.int64) if v.dtype.kind == "f" and np.all(v == np.round(v)) and np.all(np.abs(v) < 1e9) else v.copy()
    count = [0]

    def changing(u):
        count[0] += 1
        v = np.asarray(f(u))
        v = LAYOUTS[count[0] % len(LAYOUTS)][1](v)
        return v.astype(complex) if cplx and count[0] % 3 == 0 else v
    out += [("the plainest type of each value", plainest)] * 2 + [("changing layouts", changing)]
    if const is not None:
        # one and the same array every time, in types of double precision and integers
        ts = ([complex, ">c16"] if np.iscomplexobj(const) else [float, np.int64, np.int32, ">f8", ">i4"] + ([complex, ">c16"] if cplx else []))
        for t in ts:
            c = const.astype(t)
            out.append(("the same %s array" % np.dtype(t).str, lambda u, c=c: c))
            out.append(("new %s arrays" % np.dtype(t).str, lambda u, c=c: c.copy()))
    return out


def term(rng, mon, idx):
    """The nonlinear term as another callable, or its values in another representation."""
    name, form = FORMS[idx % len(FORMS)]
    aso = pkg.is_as(name)
    p = probe.Prob(rng, name, form, stiff=bool(rng.random() < 0.3))
    n, const = p.n, None
    k = rng.integers(5)
    if k == 4:
        # integers at the initial state only
        c, w = rng.integers(-3, 4, n).astype(float), float(rng.uniform(-0.4, 0.4))
        f, kd = (lambda u: c + w * (u - p.u0) if p.cplx or not np.iscomplexobj(u) else c + w * np.real(u - p.u0)), "relaxation"
    elif k == 0:
        const = rng.integers(-5, 6, n).astype(float)
        if rng.random() < 0.3:
            const = (const > 0).astype(float)
        if p.cplx and rng.random() < 0.5:
            const = const + 1j * rng.integers(-5, 6, n)
        f, kd = (lambda u: const.copy()), "constant"
    elif k == 1:
        # the argument itself, a view of it or of its parts
        f, kd = ((lambda u: u.copy()), "identity")
    elif k == 2:
        f, kd = ((lambda u: np.array(np.real(u))), "real part")
    else:
        f, kd = p.f, p.kind
    alias = {"identity": [("its argument", lambda u: u), ("a view of its argument", lambda u: u[:]), ("its argument as a subclass", lambda u: u.view(Sub))], "real part": [("a view of its argument", lambda u: np.real(u))]}.get(kd, [])
    h = min(float(rng.choice([0.5, 0.125, 0.1, 0.03])), p.hmax)
    if rng.random() < 0.5:
        plan = dict(kind="step", hs=[min(h * float(rng.choice([1, 1, 0.5, 2])), p.hmax) for _ in range(int(rng.integers(1, 5)))])
    else:
        T = 1.0 if not np.isfinite(p.hmax) or not aso else p.hmax
        plan = dict(kind="evolve", t0=0.0, tf=T, h=min(h, T) if aso else T / int(np.ceil(T / h)), fq=1)
    cfgkw = dict(epsilon=gen.log_u(rng, 1e-7, 1e-3), adapt_cutoff=float(rng.choice([0.0, 0.01])), minh=1e-60) if aso else {}
    if form == "diagonalized" and np.linalg.cond(p.S) ** 2 > 1e4:
        raise Inconclusive("ill-conditioned eigenbasis")
    try:
        us, xs, s0, last = do(p, f, p.u0.copy(), plan, cfgkw, float)
    except (pkg.BaseSolverAS.MinimumStepReached, pkg.BaseSolverAS.MaxLoopsExceeded) as e:
        raise Inconclusive(type(e).__name__)
    if aso and near_threshold(s0, name, pkg.SolverConfig(**cfgkw)):
        raise Inconclusive("decision close to its threshold")
    kappa = 1.0 if form == "diag" else (np.linalg.cond(p.S) ** 2 if form == "diagonalized" else 10 * np.linalg.cond(p.S))
    scale = max(float(np.max(np.abs(x))) for x in us)
    if not np.isfinite(scale) or scale > 1e6:
        raise Inconclusive("solution grows out of range")
    vs = kinds(f, n, p.cplx, const)
    pick = [vs[i] for i in rng.permutation(len(vs))[:4]] + alias
    for nm, g in pick:
        tag = "%s/%s, nonlinear term %s returning %s" % (name, form, kd, nm)
        seen = []

        def N(u):
            v = g(u)
            seen.append((v, np.array(v)))
            return v
        try:
            vu, vx, s, vlast = do(p, N, p.u0.copy(), plan, cfgkw, float)
        except (pkg.BaseSolverAS.MinimumStepReached, pkg.BaseSolverAS.MaxLoopsExceeded) as e:
            mon.viol(tag + ": ends with %s, the run with plain arrays does not" % type(e).__name__, plan=plan)
            return
        mon.count("terms_compared")
        mon.check(all(gen.same(np.asarray(a), b) for a, b in seen), tag + ": values returned by the nonlinear term were modified")
        if not mon.check(len(vx) == len(xs) and len(vu) == len(us), tag + ": other number of states", got=len(vu), want=len(us), plan=plan):
            return
        mon.check(all(abs(a - b) <= 1e-8 * kappa * max(1e-4, max(abs(x) for x in xs)) for a, b in zip(vx, xs)), tag + ": times or step sizes differ", got=vx[:5], want=xs[:5], plan=plan)
        for j, (a, b) in enumerate(zip(vu, us)):
            if not probe.close(mon, a, b, (1e-11 if not aso else 1e-9) * kappa * scale * (1 + 0.2 * j), tag + ": state %d differs" % j, plan=plan):
                return
        mon.check(np.asarray(vlast).dtype in (np.dtype(float), np.dtype(complex)), tag + ": result is not in double precision", dtype=str(np.asarray(vlast).dtype))
        mon.key(tag, idx)
    mon.note(solver=name, form=form, term=kd, plan=plan, variants=[x[0] for x in pick])


C.stratum("case", 1500, 40000, fn=case)
C.stratum("term", 1000, 30000, fn=term)
C.require("variants_compared", "terms_compared", "states_compared")

if __name__ == "__main__":
    sys.exit(C.main())
