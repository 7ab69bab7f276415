"""C21: Fourier grids match the discrete Fourier transform conventions."""
import sys
import numpy as np
from rkv import pkg, gen
from rkv.harness import Check

C = Check("C21", "grids for even n from 4 to a hundred thousand and intervals of many positions, sizes and types are compared point by point with extended-precision values; every (sampled) wavenumber's plane wave is transformed and must fill one bin; refused arguments enumerated; "
          "non-trivial = every grid and every refused argument; distinct by kind, n and interval")
LD = np.longdouble
PI = LD("3.14159265358979323846264338327950288")
EPS = float(np.finfo(float).eps)
BADTYPE = [4.0, 8.5, "8", None, [8], (8,), 8 + 0j, np.float64(16), np.nan, np.inf]
BADVAL = [-8, -2, -1, 0, 1, 2, 3, 5, 7, 9, 101, 1023, -10 ** 6]


def interval(rng):
    k = rng.integers(8)
    if k == 0:
        return None
    if k == 1:
        w = gen.log_u(rng, 1e-6, 1e6)
        return -w, w
    if k == 2:
        return 0.0, gen.log_u(rng, 1e-8, 1e8)
    if k == 3:
        return int(rng.integers(-50, 0)), int(rng.integers(1, 50))
    if k == 4:
        a = float(rng.uniform(-100, 100))
        return a, a + gen.log_u(rng, 1e-2, 1e3)
    if k == 5:
        return np.float64(rng.uniform(-5, 0)), np.float64(rng.uniform(0.1, 5))
    if k == 6:
        return -float(rng.integers(1, 60)), 0.0
    return round(float(rng.uniform(-3, 0)), 1), round(float(rng.uniform(0.1, 3)), 2)


def size(rng, big):
    k = rng.integers(5)
    if big and rng.random() < 0.1:
        return 2 * int(rng.integers(2500, 50000))
    if k == 0:
        return 2 ** int(rng.integers(2, 13 if big else 11))
    if k == 1:
        return int(rng.choice([4, 6, 8, 10, 12]))
    return 2 * int(rng.integers(2, 2500 if big else 300))


def grid(rng, mon, idx):
    real = bool(idx % 2)
    fn = pkg.grids.construct_x_kx_rfft if real else pkg.grids.construct_x_kx_fft
    n = size(rng, rng.random() < 0.2)
    iv = interval(rng)
    if iv is None:
        x, k = fn(n)
        a, b = 0.0, 2 * np.pi
    elif rng.random() < 0.5:
        a, b = iv
        x, k = fn(n, a, b)
    else:
        a, b = iv
        x, k = fn(n=n, b=b, a=a)
    tag = "%s(%d, %r, %r)" % (fn.__name__, n, a, b)
    A, W = LD(float(a)), LD(float(b)) - LD(float(a))
    if not mon.check(x.shape == (n,), tag + ": number of grid points", got=x.shape, want=n):
        return
    if not mon.check(k.shape == ((n // 2 + 1,) if real else (n,)), tag + ": number of wavenumbers", got=k.shape):
        return
    j = np.arange(n).astype(LD)
    scale = max(abs(float(a)), abs(float(b)))
    d = np.abs(x.astype(LD) - (A + j * W / n)).astype(float)
    mon.check(np.max(d) <= 8 * EPS * scale, tag + ": grid points", maxdiff=float(np.max(d)), scale=scale)
    mon.check(x[0] == a, tag + ": first point is not a", got=x[0])
    m = np.arange(n // 2 + 1) if real else np.concatenate([np.arange(n // 2), np.arange(-(n // 2), 0)])
    kw = 2 * PI * m.astype(LD) / W
    dk = np.abs(k.astype(LD) - kw).astype(float)
    cond = 1 + scale / float(W)          # b - a is rounded
    mon.check(np.all(dk <= 8 * EPS * cond * np.abs(kw).astype(float)), tag + ": wavenumbers", got=k[:6], want=kw[:6].astype(float), maxrel=float(np.max(dk) / float(abs(kw[1]))))
    mon.count("points_compared", n)
    mon.count("wavenumbers_compared", len(k))
    # handed out arrays belong to the caller
    x0, k0 = x.copy(), k.copy()
    x[rng.integers(n):] = 7.0
    k[rng.integers(len(k)):] = 7.0
    x, k = fn(n) if iv is None else fn(n, a, b)
    mon.check(gen.same(x, x0) and gen.same(k, k0), tag + ": a later call returns altered arrays")
    # plane waves fill exactly one bin and are periodic
    if cond < 1e4:
        for q in sorted({0, 1, len(k) - 1, len(k) // 2, *map(int, rng.integers(0, len(k), 4))}):
            w = np.exp(1j * k[q] * (x - a))
            F = np.fft.fft(w)
            tol = 200 * EPS * n * n * cond
            t = q if not real else q
            mon.check(abs(F[t] - n) <= tol and np.max(np.abs(np.delete(F, t))) <= tol, tag + ": plane wave does not fill its bin", bin=q, got=abs(F[t]), rest=float(np.max(np.abs(np.delete(F, t)))))
            mon.check(abs(np.exp(1j * k[q] * (float(b) - float(a))) - 1) <= 64 * EPS * n * cond, tag + ": plane wave is not periodic", bin=q)
            if real:
                R = np.fft.rfft(np.cos(k[q] * (x - a)))
                want = n if q in (0, n // 2) else n / 2
                mon.check(abs(R[q] - want) <= tol, tag + ": cosine does not fill its real bin", bin=q, got=abs(R[q]), want=want)
            mon.count("waves_transformed")
    mon.key(tag)
    mon.note(grid=tag)


def refuse(rng, mon, idx):
    for fn in (pkg.grids.construct_x_kx_rfft, pkg.grids.construct_x_kx_fft):
        for v in BADTYPE:
            try:
                fn(v, 0.0, 1.0)
                mon.viol("%s accepts n=%r" % (fn.__name__, v))
            except (TypeError, ValueError):
                mon.count("refused")
        for v in BADVAL + [2 * int(rng.integers(1, 10 ** 4)) + 1, -2 * int(rng.integers(1, 10 ** 4))]:
            try:
                fn(v, 0.0, 1.0)
                mon.viol("%s accepts n=%r" % (fn.__name__, v))
            except (TypeError, ValueError):
                mon.count("refused")
    mon.key(idx)


C.stratum("grid", 2400, 200000, fn=grid)
C.stratum("refuse", 24, 240, fn=refuse)
C.require("points_compared", "wavenumbers_compared", "waves_transformed", "refused")

if __name__ == "__main__":
    sys.exit(C.main())
