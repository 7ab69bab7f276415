"""C23: the Hankel transform is its stated formula and inverts itself."""
import sys
import numpy as np
import scipy.special as sp
from rkv import pkg, gen
from rkv.harness import Check, Inconclusive

C = Check("C23", "random histories of nr and rmax changes (accepted and refused) and transforms on one object, after each of which grids, matrix and transforms are compared with independently computed zeros, the stated formula and a newly built object; arrays handed out earlier "
          "are watched for changes; inverse, linearity, columns and Gaussian pairs; non-trivial = every history; distinct by history", assumptions=["Gaussians resolved by grid and range", "nr up to 1300"])
EPS = float(np.finfo(float).eps)
_Z = {}


def zeros(m):
    """First m zeros of J0: Newton from McMahon's expansion, each in its own bracket."""
    if m not in _Z:
        k = np.arange(1, m + 1)
        b = (k - 0.25) * np.pi
        z = b + 1 / (8 * b) - 31 / (384 * b ** 3)
        for _ in range(6):
            z = z + sp.j0(z) / sp.j1(z)
        assert np.all((z > (k - 0.5) * np.pi) & (z < k * np.pi))
        _Z[m] = z
    return _Z[m]


def formula(nr, rmax):
    z = zeros(nr + 1)
    jN, z = z[-1], z[:-1]
    Y = 2 * sp.j0(np.outer(z, z) / jN) / (jN * sp.j1(z)[None, :] ** 2)
    return z * rmax / jN, z / rmax, z, jN, Y, rmax ** 2 / jN


def near(mon, got, want, rel, msg, **data):
    got, want = np.asarray(got), np.asarray(want)
    mon.count("values_compared", int(want.size))
    if got.shape != want.shape:
        mon.viol(msg + ": shape", got=got.shape, want=want.shape, **data)
        return False
    sc = np.max(np.abs(want)) if want.size else 0
    d = np.max(np.abs(got - want)) if want.size else 0
    return mon.check(d <= rel * sc, msg, maxdiff=float(d), scale=float(sc), **data)


def verify(rng, mon, h, nr, rmax, hist):
    r, kr, z, jN, Y, S = formula(nr, rmax)
    tag = "nr=%d rmax=%r" % (nr, rmax)
    if not mon.check(h.nr == nr and h.rmax == rmax, tag + ": reported parameters", nr=h.nr, rmax=h.rmax, history=hist):
        return False
    e = 1e-13
    ok = near(mon, h.r / r, np.ones(nr), e, tag + ": radial grid", history=hist) if np.shape(h.r) == (nr,) else mon.check(False, tag + ": size of the radial grid", got=np.shape(h.r), history=hist)
    ok = ok and (near(mon, h.kr / kr, np.ones(nr), e, tag + ": spectral grid", history=hist) if np.shape(h.kr) == (nr,) else mon.check(False, tag + ": size of the spectral grid", got=np.shape(h.kr), history=hist))
    ok = ok and near(mon, h.bessel_zeros(), z, e, tag + ": zeros", history=hist)
    ok = ok and near(mon, h.hankel_matrix(), Y, 1e-11, tag + ": matrix", history=hist)
    if not ok:
        return False
    cplx = bool(rng.random() < 0.5)
    f = gen.cnorm(rng, nr, cplx) * (10.0 ** rng.uniform(-60, 60) if rng.random() < 0.4 else 1.0)
    keep = f.copy()
    F = h.ht(f)
    g = h.iht(f)
    nrm = 1e-11 * nr
    ok = near(mon, F, S * (Y @ keep), nrm, tag + ": ht is not the stated formula", history=hist) and near(mon, g, (Y @ keep) / S, nrm, tag + ": iht is not the stated formula", history=hist)
    mon.check(gen.same(f, keep), tag + ": transform modifies its argument")
    if not ok:
        return False
    # inverse of each other to the accuracy of the quadrature, measured independently: |Y^2 - I| <= c / nr^3
    q = 4e-4 / nr ** 2
    near(mon, h.iht(F), keep, q * np.sqrt(nr), tag + ": iht does not invert ht", history=hist)
    near(mon, h.ht(g), keep, q * np.sqrt(nr), tag + ": ht does not invert iht", history=hist)
    # linearity and columns
    M = gen.cnorm(rng, (nr, max(1, nr + int(rng.integers(-1, 2))) if rng.random() < 0.2 else int(rng.integers(1, 4))), cplx) * np.max(np.abs(f))
    if rng.random() < 0.5:
        M = gen.layout(rng, M)
    H = h.ht(M)
    ok = near(mon, H, np.stack([h.ht(np.ascontiguousarray(M[:, i])) for i in range(M.shape[1])], axis=1), 1e-12 * nr, tag + ": ht of columns")
    near(mon, h.iht(M), np.stack([h.iht(np.ascontiguousarray(M[:, i])) for i in range(M.shape[1])], axis=1), 1e-12 * nr, tag + ": iht of columns")
    a, b = rng.standard_normal(2)
    near(mon, h.ht(a * f + b * M[:, 0]), a * F + b * H[:, 0], 1e-12 * nr, tag + ": ht is not linear")
    # equal to a newly built transform
    n = pkg.transforms.HankelTransform(nr, rmax)
    for nm, x, y in (("r", h.r, n.r), ("kr", h.kr, n.kr), ("zeros", h.bessel_zeros(), n.bessel_zeros()), ("matrix", h.hankel_matrix(), n.hankel_matrix()), ("ht", F, n.ht(keep)), ("iht", g, n.iht(keep))):
        near(mon, x, y, 1e-12, tag + ": %s differs from that of a new transform" % nm, history=hist)
    mon.count("states_verified")
    return not mon.viols


def size(rng):
    return int(gen.log_u(rng, 120, 1300)) if rng.random() < 0.012 else int(rng.choice([4, 5, 6, 8, 16, 33])) if rng.random() < 0.5 else int(rng.integers(4, 120))


def rsize(rng):
    k = rng.integers(4)
    return 1.0 if k == 0 else int(rng.integers(1, 40)) if k == 1 else gen.log_u(rng, 1e-6, 1e6)


BADN = [3, 2, 1, 0, -1, -50, 4.0, 10.5, "8", None, [8], np.nan]
BADR = [0, 0.0, -1.0, -1e-300, -np.inf, -3]


def history(rng, mon, idx):
    nr, rmax = size(rng), rsize(rng)
    if rng.random() < 0.1:
        h, rmax = pkg.transforms.HankelTransform(nr), 1.0
    else:
        h = pkg.transforms.HankelTransform(nr, rmax) if rng.random() < 0.5 else pkg.transforms.HankelTransform(rmax=rmax, nr=nr)
    hist = [("new", nr, rmax)]
    watched = []
    other = pkg.transforms.HankelTransform(5, 2.5)
    for _ in range(int(rng.integers(2, 9))):
        if not verify(rng, mon, h, nr, rmax, hist):
            return
        # hand out arrays; some are the caller's to change
        for nm, arr, mine in (("r", h.r, False), ("kr", h.kr, False), ("matrix", h.hankel_matrix(), True), ("zeros", h.bessel_zeros(), True), ("ht", h.ht(np.ones(nr)), True), ("iht", h.iht(np.ones(nr)), True)):
            if mine and rng.random() < 0.5:
                arr *= -3.0                # must not influence the transform
            watched.append((nm, arr, arr.copy()))
        op = rng.integers(5)
        if op == 0:
            nr = size(rng)
            h.nr = nr
            hist.append(("nr", nr))
        elif op == 1:
            rmax = rsize(rng) if rng.random() < 0.7 else rmax * (1 + float(rng.choice([1, -1])) * gen.log_u(rng, 1e-12, 1e-2))
            h.rmax = rmax
            hist.append(("rmax", rmax))
        elif op == 2:
            v = BADN[rng.integers(len(BADN))]
            hist.append(("nr refused", str(v)))
            try:
                h.nr = v
                mon.viol("inadmissible nr accepted", value=repr(v))
                return
            except ValueError:
                mon.count("refused")
        elif op == 3:
            v = BADR[rng.integers(len(BADR))]
            hist.append(("rmax refused", str(v)))
            try:
                h.rmax = v
                mon.viol("inadmissible rmax accepted", value=repr(v))
                return
            except ValueError:
                mon.count("refused")
        else:
            other.nr = size(rng)       # another object has no influence
            hist.append(("other",))
        for nm, arr, was in watched:
            if not mon.check(gen.same(arr, was), "array handed out earlier (%s) was changed" % nm, history=hist):
                return
        mon.count("changes")
    verify(rng, mon, h, nr, rmax, hist)
    r, kr, z, jN = pkg.grids.construct_r_kr_hankel(nr, rmax)
    w = formula(nr, rmax)
    near(mon, r, w[0], 1e-13, "construct_r_kr_hankel: r")
    near(mon, kr, w[1], 1e-13, "construct_r_kr_hankel: kr")
    near(mon, z, w[2], 1e-13, "construct_r_kr_hankel: zeros")
    near(mon, jN, w[3], 1e-13, "construct_r_kr_hankel: jN")
    mon.key(hist)
    mon.note(history=hist)


def gauss(rng, mon, idx):
    nr = int(rng.integers(32, 300))
    rmax = gen.log_u(rng, 1e-3, 1e3)
    h = pkg.transforms.HankelTransform(nr, rmax)
    # width such that the Gaussian has decayed at rmax and its transform at the largest kr
    lo, hi = 40 / rmax ** 2, h.kr[-1] ** 2 / 160
    if hi < lo:
        raise Inconclusive("grid too coarse")
    a = gen.log_u(rng, lo, hi)
    c = complex(*rng.standard_normal(2)) if rng.random() < 0.5 else float(rng.standard_normal())
    f = c * np.exp(-a * h.r ** 2)
    G = c * np.exp(-h.kr ** 2 / (4 * a)) / (2 * a)
    near(mon, h.ht(f), G, 1e-9, "Gaussian does not transform to a Gaussian", nr=nr, rmax=rmax, a=a)
    near(mon, h.iht(G), f, 1e-9, "Gaussian does not transform back", nr=nr, rmax=rmax, a=a)
    # Parseval: int |f|^2 r dr = int |F|^2 k dk, with weights of the quadrature
    z, jN = zeros(nr + 1)[:-1], zeros(nr + 1)[-1]
    pr = np.sum(np.abs(f) ** 2 / sp.j1(z) ** 2) * 2 * rmax ** 2 / jN ** 2
    pk = np.sum(np.abs(h.ht(f)) ** 2 / sp.j1(z) ** 2) * 2 / rmax ** 2
    mon.check(abs(pr - pk) <= 1e-7 * pr, "transform does not conserve power", pr=pr, pk=pk)
    mon.check(abs(pr - abs(c) ** 2 / (4 * a)) <= 1e-7 * pr, "power of the Gaussian on the grid", got=pr, want=abs(c) ** 2 / (4 * a))
    mon.count("gaussians")
    mon.key(nr, rmax, a)


def refuse(rng, mon, idx):
    for v in (3, 2, 0, -5):
        for fn in (pkg.transforms.HankelTransform, pkg.grids.construct_r_kr_hankel):
            try:
                fn(v, 1.0)
                mon.viol("%s accepts nr=%r" % (fn.__name__, v))
            except ValueError:
                mon.count("refused")
    for v in BADR:
        for fn in (pkg.transforms.HankelTransform, pkg.grids.construct_r_kr_hankel):
            try:
                fn(int(rng.integers(4, 30)), v)
                mon.viol("%s accepts rmax=%r" % (fn.__name__, v))
            except ValueError:
                mon.count("refused")
    mon.key(idx)


C.stratum("history", 400, 12000, fn=history)
C.stratum("gauss", 200, 4000, fn=gauss)
C.stratum("refuse", 8, 80, fn=refuse)
C.require("states_verified", "values_compared", "changes", "gaussians", "refused")

if __name__ == "__main__":
    sys.exit(C.main())
