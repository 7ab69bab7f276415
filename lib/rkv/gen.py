"""Workload generators: operators of every stiffness band, nonlinear terms, states, step sizes."""
import numpy as np

CALL_BUDGET = 2_000_000


class BudgetExceeded(Exception):
    """Raised by an instrumented nonlinear function that is called implausibly often."""


class NL:
    """Instrumented nonlinear function: counts and records every call, may inject faults."""

    def __init__(self, f, budget=CALL_BUDGET, record=False):
        self.f, self.budget, self.record = f, budget, record
        self.calls = 0
        self.args = []
        self.vals = []
        self.fault_at = {}      # call number (1-based) -> exception instance
        self.hook = None

    def __call__(self, u):
        self.calls += 1
        if self.calls > self.budget:
            raise BudgetExceeded("nonlinear function called more than %d times" % self.budget)
        if self.hook is not None:
            self.hook(self.calls, u)
        ex = self.fault_at.pop(self.calls, None)
        if ex is not None:
            raise ex
        if self.record:
            self.args.append(np.array(u, copy=True))
        v = self.f(u)
        if self.record:
            self.vals.append(np.array(v, copy=True))
        return v


def cnorm(rng, n, cplx):
    x = rng.standard_normal(n)
    return x + 1j * rng.standard_normal(n) if cplx else x


BANDS = ("zero", "tiny", "below", "above", "unit", "stiff", "vstiff", "imag", "imagbig", "growing")


def z_band(rng, band, cplx):
    """One value of h*lambda in the named magnitude band."""
    ph = np.exp(1j * rng.uniform(np.pi / 2, 3 * np.pi / 2)) if cplx else (-1.0 if rng.random() < 0.8 else 1.0)
    if band == "zero":
        return 0.0 * ph
    if band == "tiny":
        return 10 ** rng.uniform(-14, -4) * ph
    if band == "below":
        return 0.01 * rng.uniform(0.2, 0.999) * ph
    if band == "above":
        return 0.01 * rng.uniform(1.001, 8) * ph
    if band == "unit":
        return rng.uniform(0.08, 4) * ph
    if band == "stiff":
        return -abs(10 ** rng.uniform(0.5, 2.6)) * (1 if not cplx else np.exp(1j * rng.uniform(-1.2, 1.2)))
    if band == "vstiff":
        return -10 ** rng.uniform(2.5, 6) * 1.0
    if band == "imag":
        return 1j * rng.uniform(-4, 4) if cplx else -rng.uniform(0, 4)
    if band == "imagbig":
        return 1j * rng.choice([-1, 1]) * 10 ** rng.uniform(0.5, 3) if cplx else -10 ** rng.uniform(0.5, 3)
    if band == "growing":
        return rng.uniform(0.01, 2.0) * (1 if not cplx else np.exp(1j * rng.uniform(-1.2, 1.2)))
    raise KeyError(band)


def diag_op(rng, n, h, cplx, bands=BANDS):
    bs = [bands[rng.integers(len(bands))] for _ in range(n)]
    z = np.array([z_band(rng, b, cplx) for b in bs])
    L = z / h
    return (L if cplx else np.real(L)), sorted(set(bs))


NKINDS = ("cubic", "quad", "sat", "forced", "lin", "sin", "conv", "mag")


def nonlinear(rng, n, cplx, strength, kinds=NKINDS):
    """Returns (kind, f): f maps vectors of length n to vectors; Lipschitz about `strength` for |u| ~ 1."""
    kind = kinds[rng.integers(len(kinds))]
    if kind == "lin" and n > 300:
        kind = "sat"
    a = strength * cnorm(rng, n, cplx)
    b = strength * 0.5 * cnorm(rng, n, cplx)
    c = strength * cnorm(rng, n, cplx)
    p = int(rng.integers(1, n)) if n > 1 else 0
    perm = rng.permutation(n)
    M = strength * (cnorm(rng, (n, n), cplx)) / np.sqrt(n) if kind == "lin" else None
    if kind == "cubic":
        f = lambda u: a * u * np.abs(u) ** 2 - b * u[perm]
    elif kind == "quad":
        f = lambda u: a * u * np.roll(u, p) + b * u ** 2
    elif kind == "sat":
        f = lambda u: a * u / (1 + np.abs(u) ** 2) + b * u[perm] / (1 + np.abs(u[perm]) ** 2)
    elif kind == "forced":
        f = lambda u: c + a * u[perm] * u
    elif kind == "lin":
        f = lambda u: M @ u + 0.3 * c
    elif kind == "sin":
        if cplx:
            f = lambda u: a * np.sin(np.real(u)) + b * np.cos(np.imag(u[perm]))
        else:
            f = lambda u: a * np.sin(np.real(u)) + b * np.cos(np.real(u[perm]))
    elif kind == "mag":
        ra, rb = np.real(a), np.real(b)         # real-valued also for complex states
        f = lambda u: ra * np.tanh(np.abs(u) ** 2) + rb * np.real(u[perm]) / (1 + np.abs(u[perm]) ** 2)
    elif kind == "conv":
        w = np.fft.fft(b) / max(1, n)
        if cplx:
            f = lambda u: np.fft.ifft(np.fft.fft(u) * w) + a * u * np.abs(u)
        else:
            f = lambda u: b * np.mean(u) + a * u * np.abs(u)
    return kind, f


def state(rng, n, cplx, kind=None):
    kind = kind or ("unit", "spread", "tinyamp", "bigamp", "sparse")[rng.integers(5)]
    u = cnorm(rng, n, cplx)
    if kind == "spread":
        u = u * 10 ** rng.uniform(-8, 0, n)
    elif kind == "tinyamp":
        u = u * 1e-3
    elif kind == "bigamp":
        u = u * 2.0
    elif kind == "sparse":
        u = u * (rng.random(n) < 0.5)
    return kind, u


def log_u(rng, lo, hi):
    return float(10 ** rng.uniform(np.log10(lo), np.log10(hi)))


def size(rng, lo, hi, big, p=0.03):
    """A dimension: usually lo..hi, rarely (probability p) far larger, log-uniform up to big."""
    if rng.random() < p:
        return int(round(log_u(rng, hi, big)))
    return int(rng.integers(lo, hi + 1))


def unit(rng, p=0.2):
    """A unit of time: usually 1, sometimes far from it."""
    return log_u(rng, 1e-10, 1e10) if rng.random() < p else 1.0


def orthobasis(rng, n, cplx):
    A = cnorm(rng, (n, n), cplx)
    Q, R = np.linalg.qr(A)
    return Q


def layout(rng, a):
    """The same values in a different memory layout."""
    k = rng.integers(4)
    if k == 0:
        return a.copy()
    if k == 1:
        return np.asfortranarray(a)
    if k == 2:
        big = np.zeros(tuple(2 * s for s in a.shape), a.dtype)
        sl = tuple(slice(None, None, 2) for _ in a.shape)
        big[sl] = a
        return big[sl]
    b = a.copy()
    b.setflags(write=False)
    return b


def frozen(a):
    b = np.array(a, copy=True)
    b.setflags(write=False)
    return b


def fp(a):
    a = np.asarray(a)
    return (a.shape, a.dtype.str, a.tobytes())


def same(a, b):
    """Bitwise equality of values (NaN equal to NaN)."""
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.array_equal(a, b, equal_nan=True)


STRUCTURES = ("lower", "upper", "strict-lower", "tridiag", "laplace", "circulant", "symmetric", "skew", "hamiltonian", "blockdiag",
              "permutation", "rankone", "zero-matrix", "multiple", "companion", "complex-symmetric", "zero-row", "hermitian", "arrow", "checkerboard", "toeplitz", "orthogonal")


def structured(rng, n, cplx, kind=None):
    """(kind, A): a matrix of a special structure with 2-norm of about 1."""
    near = kind is None and rng.random() < 0.25
    kind = kind or STRUCTURES[rng.integers(len(STRUCTURES))]
    G = cnorm(rng, (n, n), cplx)
    if kind == "lower":
        A = np.tril(G)
    elif kind == "upper":
        A = np.triu(G)
    elif kind == "strict-lower":
        A = np.tril(G, -1)
    elif kind == "tridiag":
        A = np.triu(np.tril(G, 1), -1)
    elif kind == "laplace":
        A = np.diag(np.full(n, -2.0)) + np.diag(np.ones(n - 1), 1) + np.diag(np.ones(n - 1), -1)
        if rng.random() < 0.5:
            A[0] = A[-1] = 0        # boundary rows
    elif kind == "circulant":
        A = np.array([np.roll(G[0], k) for k in range(n)])
    elif kind == "symmetric":
        A = np.real(G + G.T)
    elif kind == "skew":
        A = np.real(G - G.T)
    elif kind == "hamiltonian":
        m = n // 2
        A = np.zeros((n, n))
        K = np.real(G[:m, :m]) @ np.real(G[:m, :m]).T + np.eye(m)
        A[:m, m:2 * m], A[m:2 * m, :m] = np.eye(m), -K
    elif kind == "blockdiag":
        m = int(rng.integers(0, n + 1))
        A = G.copy()
        A[:m, m:] = 0
        A[m:, :m] = 0
    elif kind == "permutation":
        A = np.eye(n)[rng.permutation(n)]
    elif kind == "rankone":
        A = np.outer(G[0], G[-1])
    elif kind == "zero-matrix":
        A = np.zeros((n, n))
    elif kind == "multiple":
        A = (np.eye(n) * G[0, 0]) if cplx else np.eye(n) * rng.choice([-1.0, 1.0])
    elif kind == "companion":
        A = np.diag(np.ones(n - 1), -1).astype(G.dtype)
        A[:, -1] = G[0]
    elif kind == "complex-symmetric":
        A = G + G.T
    elif kind == "zero-row":
        A = G.copy()
        A[rng.integers(n)] = 0
        if rng.random() < 0.5:
            A[:, rng.integers(n)] = 0
    elif kind == "hermitian":
        A = G + G.conj().T
    elif kind == "arrow":
        A = np.diag(np.diag(G)).astype(G.dtype)
        A[0], A[:, 0] = G[0], G[:, 0]
    elif kind == "checkerboard":
        A = G * ((np.add.outer(np.arange(n), np.arange(n)) % 2) == int(rng.integers(2)))
    elif kind == "toeplitz":
        g = cnorm(rng, 2 * n - 1, cplx)
        A = np.array([[g[n - 1 + j - i] for j in range(n)] for i in range(n)])
    elif kind == "orthogonal":
        A = orthobasis(rng, n, cplx)
    else:
        raise KeyError(kind)
    s = np.linalg.norm(A, 2)
    A = A / s if s > 0 else A
    if near and s > 0:
        # almost of that structure
        A = A + log_u(rng, 1e-13, 1e-2) * cnorm(rng, (n, n), cplx)
        kind = "nearly " + kind
    return kind, A


def vanishing(rng, f, u0):
    """f shifted by a constant such that it vanishes at u0, in all or in some entries."""
    c = np.array(f(np.array(u0, copy=True)))
    if rng.random() < 0.4 and c.ndim:
        c = c * (rng.random(c.shape) < 0.5)

    def g(v):
        return f(v) - c
    g.hidden = np.abs(c)        # for the rounding allowance
    return g
