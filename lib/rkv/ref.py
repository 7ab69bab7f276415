"""Independent reference: the published schemes in extended precision, written from the
literature (Krogstad/Cox-Matthews ETD4, Whalen-Brio-Moloney ETD5/ETD35, Lawson RK4,
integrating-factor Dormand-Prince) with exact psi functions, and the documented step-size
controller.  Tolerances come from perturbing every ingredient at rounding level.
"""
import math
import numpy as np
from .harness import Inconclusive

LD, CLD = np.longdouble, np.clongdouble
EPS = float(np.finfo(float).eps)


# ---------------------------------------------------------------- phi functions
def phis_diag(z, kmax=3):
    """[phi_0..phi_kmax](z) elementwise in extended precision."""
    z = np.asarray(z, dtype=CLD)
    out = [np.exp(z)] + [np.zeros_like(z) for _ in range(kmax)]
    small = np.abs(z) < 2
    zs, zl = z[small], z[~small]
    if zs.size:
        for k in range(1, kmax + 1):
            term = np.ones_like(zs) / LD(math.factorial(k))
            acc = term.copy()
            for j in range(1, 48):
                term = term * zs / LD(j + k)
                acc = acc + term
            out[k][small] = acc
    if zl.size:
        p = out[0][~small]
        for k in range(1, kmax + 1):
            p = (p - 1 / LD(math.factorial(k - 1))) / zl
            out[k][~small] = p
    return out


def phis_mat(A, kmax=3):
    A = np.asarray(A, dtype=CLD)
    n = A.shape[0]
    nrm = float(np.abs(A).sum(axis=1).max()) if n else 0.0
    s = max(0, int(math.ceil(math.log2(max(nrm, 1e-300) / 0.5)))) if nrm > 0.5 else 0
    B = A / LD(2) ** s
    I = np.eye(n, dtype=CLD)
    ph = []
    pw = [I]
    for _ in range(24):
        pw.append(pw[-1] @ B)
    for k in range(kmax + 1):
        acc = np.zeros_like(I)
        for j in range(24, -1, -1):
            acc = acc + pw[j] / LD(math.factorial(j + k))
        ph.append(acc)
    for _ in range(s):
        p0, p1, p2, p3 = ph
        ph = [p0 @ p0, (p0 @ p1 + p1) / 2, (p1 @ p1 + 2 * p2) / 4, (p1 @ p2 + p2 + 2 * p3) / 8]
    return ph


class Ops:
    """exp and psi of c*z; `noise` (rng) perturbs them at the rounding level of the real code."""

    def __init__(self, L, h, noise=None, kind="exact", cutoff=0.01, radius=1.0, points=32, kappa=1.0):
        L = np.asarray(L)
        self.diag = L.ndim == 1
        self.z = np.asarray(L, dtype=CLD) * LD(h)
        self.noise, self.kind, self.cutoff, self.radius, self.points, self.kappa = noise, kind, cutoff, radius, points, kappa
        self._c = {}

    def _phis(self, c):
        if c not in self._c:
            cz = self.z * (LD(c.numerator) / LD(c.denominator))
            self._c[c] = phis_diag(cz) if self.diag else phis_mat(cz)
        return self._c[c]

    def _rand(self, shape):
        r = self.noise
        return (r.uniform(-1, 1, shape) + 1j * r.uniform(-1, 1, shape)).astype(CLD)

    def E(self, c):
        v = self._phis(c)[0]
        if self.noise is not None:
            cf = float(c)
            if self.diag:
                v = v * (1 + self._rand(v.shape) * (4 * EPS) * (1 + cf * np.abs(self.z)))
            else:
                v = v + self._rand(v.shape) * self._matnoise(v, cf)
        return v

    def _matnoise(self, v, cf):
        nz = cf * float(np.linalg.norm(np.asarray(self.z, dtype=complex), 2))
        nv = float(np.linalg.norm(np.asarray(v, dtype=complex), 2))
        return 4 * EPS * (1 + nz) * max(nv, EPS) * self.kappa

    def psi(self, k, c):
        v = self._phis(c)[k] * LD(math.factorial(k))
        if self.noise is not None:
            cf = float(c)
            kf = math.factorial(k)
            if self.diag or self.kind == "eig":
                if self.diag:
                    az = np.abs(self.z).astype(float)
                else:
                    ev = np.linalg.eigvals(np.asarray(self.z, dtype=complex))
                    az = np.abs(ev)
                with np.errstate(over="ignore", divide="ignore"):
                    ez = np.exp(np.maximum(0.0, cf * np.real(self.z).astype(float))) if self.diag else np.exp(np.maximum(0.0, cf * np.real(ev)))
                    big = EPS * kf * (1 + cf * az) * ez / np.maximum((cf * az) ** k, 1e-300)
                big = np.maximum(big, 4 * EPS * np.max(np.abs(v)) if not self.diag else 4 * EPS * np.abs(v).astype(float))
                R = self.radius
                small = 8 * EPS * kf * math.exp(min(cf * R, 600)) / min(1.0, cf * R) ** k + kf * (cf * R) ** self.points / math.factorial(self.points)
                a = np.where(az < self.cutoff * (1 - 1e-8), small, np.where(az < self.cutoff * (1 + 1e-8), np.maximum(small, big), big))
                if self.diag:
                    v = v + self._rand(v.shape) * a
                else:
                    v = v + self._rand(v.shape) * (float(a.max()) * self.kappa + self._matnoise(v, cf))
            elif self.kind == "contour":
                R, n = self.radius, v.shape[0]
                rho = cf * float(np.linalg.norm(np.asarray(self.z, dtype=complex), 2)) / R
                if rho >= 1:
                    raise Inconclusive("spectrum not enclosed by contour")
                a = 8 * EPS * kf * math.exp(min(R, 600)) / min(1.0, R) ** k / (1 - rho) + math.exp(min(R, 600)) / min(1.0, R) ** k * kf * rho ** self.points / (1 - rho)
                v = v + self._rand(v.shape) * a
            else:
                v = v + self._rand(v.shape) * self._matnoise(v, cf)
        return v

    def ap(self, A, v):
        return A * v if self.diag else A @ v


class Fr:
    """Tiny exact fraction used as a key for c."""

    def __init__(self, n, d=1):
        g = math.gcd(n, d)
        self.numerator, self.denominator = n // g, d // g

    def __hash__(self):
        return hash((self.numerator, self.denominator))

    def __eq__(self, o):
        return (self.numerator, self.denominator) == (o.numerator, o.denominator)

    def __float__(self):
        return self.numerator / self.denominator

    def __sub__(self, o):
        return Fr(self.numerator * o.denominator - o.numerator * self.denominator, self.denominator * o.denominator)


def q(a, b=1):
    return LD(a) / LD(b)


ONE, HALF = Fr(1), Fr(1, 2)


# ---------------------------------------------------------------- schemes
def sch_etd4(o, h, u, N):
    """Krogstad's fourth-order ETD Runge-Kutta; embedded estimate b4*(N4 - N(u_new))."""
    ap = o.ap
    E, E2 = o.E(ONE), o.E(HALF)
    s1, s2 = o.psi(1, HALF), o.psi(2, HALF)
    p1, p2, p3 = o.psi(1, ONE), o.psi(2, ONE), o.psi(3, ONE)
    N1 = N(u)
    k = ap(E2, u) + h * ap(s1, N1) / 2
    N2 = N(k)
    k = ap(E2, u) + h * (ap(s1 - s2, N1) + ap(s2, N2)) / 2
    N3 = N(k)
    k = ap(E, u) + h * (ap(p1 - p2, N1) + ap(p2, N3))
    N4 = N(k)
    b4 = q(2, 3) * p3 - q(1, 2) * p2
    k = ap(E, u) + h * (ap(p1 - q(3, 2) * p2 + q(2, 3) * p3, N1) + ap(p2 - q(2, 3) * p3, N2 + N3) + ap(b4, N4))
    return k, (lambda: h * ap(b4, N4 - N(k)))


def sch_etd5(o, h, u, N):
    """Whalen, Brio & Moloney (2015), ETD(3,5)."""
    ap = o.ap
    C14, C34 = Fr(1, 4), Fr(3, 4)
    E14, E12, E34, E = o.E(C14), o.E(HALF), o.E(C34), o.E(ONE)
    a1, a2 = o.psi(1, C14), o.psi(2, C14)
    h1, h2 = o.psi(1, HALF), o.psi(2, HALF)
    t1, t2 = o.psi(1, C34), o.psi(2, C34)
    p1, p2, p3 = o.psi(1, ONE), o.psi(2, ONE), o.psi(3, ONE)
    N1 = N(u)
    k = ap(E14, u) + h * ap(a1, N1) / 4
    N2 = N(k)
    k = ap(E14, u) + h * (ap(a1 - a2 / 2, N1) / 4 + ap(a2, N2) / 8)
    N3 = N(k)
    k = ap(E12, u) + h * (ap(h1 - h2, N1) + ap(h2, N3)) / 2
    N4 = N(k)
    k = ap(E34, u) + h * (q(3, 4) * ap(t1 - q(3, 4) * t2, N1) - q(3, 8) * ap(t1, N2 - N3) + q(9, 16) * ap(t2, N4))
    N5 = N(k)
    k = ap(E, u) + h * (ap(-77 * p1 + 59 * p2, N1) / 42 + q(8, 7) * ap(p1, N2 - q(3, 2) * N4)
                        + ap(111 * p1 - 87 * p2, N3) / 28 + ap(-47 * p1 + 143 * p2, N5) / 84)
    N6 = N(k)
    b5 = (-313 * p1 + 883 * p2 - 90 * p3) / 1350
    k = ap(E, u) + h * (7 * ap(257 * p1 - 497 * p2 + 270 * p3, N1) / 2700
                        + ap(1097 * p1 - 467 * p2 - 150 * p3, N3) / 1350
                        + 2 * ap(-49 * p1 + 199 * p2 - 135 * p3, N4) / 225
                        + ap(b5, N5)
                        + ap(509 * p1 - 2129 * p2 + 1830 * p3, N6) / 2700)
    return k, (lambda: h * ap(b5, -N1 + 4 * N3 - 6 * N4 + 4 * N5 - N6))


def _lawson(o, h, u, N, A, b, c):
    Ns = []
    for i in range(len(c)):
        k = o.ap(o.E(c[i]), u) if c[i].numerator else u
        for j in range(i):
            if A[i][j] != 0:
                d = c[i] - c[j]
                k = k + h * A[i][j] * (o.ap(o.E(d), Ns[j]) if d.numerator else Ns[j])
        Ns.append(N(k))
    k = o.ap(o.E(ONE), u)
    for j in range(len(c)):
        if b[j] != 0:
            d = ONE - c[j]
            k = k + h * b[j] * (o.ap(o.E(d), Ns[j]) if d.numerator else Ns[j])
    return k, Ns


def sch_if4(o, h, u, N):
    """Lawson's integrating factor with the classical RK4; embedded estimate h/6*(N4 - N(u_new))."""
    A = [[], [q(1, 2)], [0, q(1, 2)], [0, 0, q(1)]]
    k, Ns = _lawson(o, h, u, N, A, [q(1, 6), q(1, 3), q(1, 3), q(1, 6)], [Fr(0), HALF, HALF, ONE])
    return k, (lambda: h * (Ns[3] - N(k)) / 6)


DP_A = [[], [q(1, 5)], [q(3, 40), q(9, 40)], [q(44, 45), q(-56, 15), q(32, 9)],
        [q(19372, 6561), q(-25360, 2187), q(64448, 6561), q(-212, 729)],
        [q(9017, 3168), q(-355, 33), q(46732, 5247), q(49, 176), q(-5103, 18656)]]
DP_B5 = [q(35, 384), 0, q(500, 1113), q(125, 192), q(-2187, 6784), q(11, 84), 0]
DP_B4 = [q(5179, 57600), 0, q(7571, 16695), q(393, 640), q(-92097, 339200), q(187, 2100), q(1, 40)]
DP_C = [Fr(0), Fr(1, 5), Fr(3, 10), Fr(4, 5), Fr(8, 9), ONE]


def sch_if45(o, h, u, N):
    """Integrating-factor Dormand-Prince 5(4)."""
    k, Ns = _lawson(o, h, u, N, DP_A, DP_B5[:6], DP_C)

    def err():
        Ns7 = Ns + [N(k)]
        e = 0
        for j, c in enumerate(DP_C + [ONE]):
            w = DP_B5[j] - DP_B4[j]
            if w != 0:
                d = ONE - c
                e = e + h * w * (o.ap(o.E(d), Ns7[j]) if d.numerator else Ns7[j])
        return e
    return k, err


SCHEME = {"ETD4": sch_etd4, "ETD34": sch_etd4, "ETD5": sch_etd5, "ETD35": sch_etd5, "IF4": sch_if4, "IF34": sch_if4, "IF45DP": sch_if45}
K_TOL = 40.0


def opkind(name, form):
    if form == "diag":
        return "diag"
    if form == "diagonalized":
        return "eig"
    return "contour" if name.startswith("ETD") else "expm"


TINY = 1e-300       # results near the underflow threshold are not relative to their size


def attempt(name, L, h, u, N, form="diag", etd=None, rng=None, want_err=None, kappa=1.0, reps=2):
    """(unew, tol_unew, err, tol_err) of one attempt in complex128/float tolerances."""
    etd = etd or {}
    kw = dict(kind=opkind(name, form), kappa=kappa, cutoff=etd.get("modecutoff", 0.01), radius=etd.get("contour_radius", 1.0), points=etd.get("contour_points", 32))
    want_err = name in ("ETD34", "ETD35", "IF34", "IF45DP") if want_err is None else want_err
    rng = np.random.default_rng(0) if rng is None else rng
    hh = LD(h)
    u0 = np.asarray(u, dtype=CLD)

    def Nf(v):
        return np.asarray(N(np.asarray(v, dtype=complex)), dtype=CLD)

    def run(noise):
        o = Ops(L, h, noise=noise, **kw)
        if noise is None:
            uu, NN = u0, Nf
        else:
            def rnd(shape):
                return (noise.uniform(-1, 1, shape) + 1j * noise.uniform(-1, 1, shape)).astype(CLD)
            def per(v):
                # in another basis the rounding errors are relative to the norm
                if form == "diagonalized":
                    return v + 4 * EPS * math.sqrt(kappa) * np.max(np.abs(v)) * rnd(v.shape)
                return v * (1 + 4 * EPS * rnd(v.shape))
            uu = per(u0)

            def NN(v):
                # stage values and nonlinear values both carry rounding errors
                w = per(Nf(per(v)))
                # terms that cancel in the nonlinear value leave theirs
                hidden = getattr(N, "hidden", None)
                return w if hidden is None else w + 4 * EPS * hidden * rnd(w.shape)
        k, ef = SCHEME[name](o, hh, uu, NN)
        return k, (ef() if want_err else None)
    k0, e0 = run(None)
    tk = 20 * EPS * np.abs(k0)
    te = 20 * EPS * np.abs(e0) if want_err else None
    if not np.all(np.isfinite(k0)):
        return np.asarray(k0, dtype=complex), np.full(k0.shape, np.inf), (np.asarray(e0, dtype=complex) if want_err else None), None
    for _ in range(reps):
        k1, e1 = run(rng)
        tk = np.maximum(tk, K_TOL * np.abs(k1 - k0))
        if want_err:
            te = np.maximum(te, K_TOL * np.abs(e1 - e0))
    # an unluckily small perturbation of one entry must not make its tolerance unrealistic
    tk = np.maximum(tk, 20 * EPS * np.abs(k0)).astype(float)
    tk = np.maximum(tk, 1e-3 * np.median(tk)) if tk.size > 2 else tk
    tk = tk + TINY
    if want_err:
        te = te.astype(float) + TINY
        return np.asarray(k0, dtype=complex), tk, np.asarray(e0, dtype=complex), te
    return np.asarray(k0, dtype=complex), tk, None, None


# ---------------------------------------------------------------- step-size controller
MAX_LOOPS, MAX_S, MIN_S = 50, 4.0, 0.25


def s_interval(unew, tu, err, te, cfg, qq):
    """[s_lo, s_hi] of the documented scaling factor, or None when the estimate is not finite."""
    if not (np.all(np.isfinite(unew)) and np.all(np.isfinite(err))):
        return None
    mag = np.abs(unew)
    m = mag.max() if mag.size else 0.0
    if m > 0:
        rel = mag / m
        amb = np.abs(rel - cfg["adapt_cutoff"]) <= 1e-12 + 4 * (tu / m)
        idx = rel > cfg["adapt_cutoff"]
        if np.any(amb & ((np.abs(err) + te) > 0)):
            raise Inconclusive("entry at the adapt_cutoff threshold")
    else:
        idx = np.ones(mag.shape, bool)
    nu = float(np.linalg.norm(unew[idx]))
    ne = float(np.linalg.norm(err[idx]))
    dn, de = float(np.linalg.norm(tu[idx])), float(np.linalg.norm(te[idx]))
    if not (np.isfinite(dn) and np.isfinite(de)):
        raise Inconclusive("tolerance not finite")
    if de <= 1e3 * TINY and ne == 0:
        return (MAX_S, MAX_S)
    f, ep = cfg["safety_f"], cfg["epsilon"]
    with np.errstate(divide="ignore", over="ignore"):
        lo = f * (ep * max(nu - dn, 0.0) / (ne + de)) ** (1.0 / qq)
        hi_e = max(ne - de, 0.0)
        hi = f * (ep * (nu + dn) / hi_e) ** (1.0 / qq) if hi_e > 0 else np.inf
    if not np.isfinite(lo) or np.isnan(hi):
        raise Inconclusive("factor out of range")
    lo, hi = sorted((lo * (1 - 1e-12), hi * (1 + 1e-12))) if f > 0 else (min(lo, hi), max(lo, hi))
    return (lo, hi)


def ref_step(name, L, u, h, N, cfg, form="diag", etd=None, rng=None, kappa=1.0):
    """Simulates one adaptive step.  Returns a dict describing what must happen."""
    qq = {"ETD34": 4, "ETD35": 4, "IF34": 4, "IF45DP": 5}[name]
    atts = []
    loops = 0
    while True:
        unew, tu, err, te = attempt(name, L, h, u, N, form, etd, rng, True, kappa)
        iv = s_interval(unew, tu, err, te, cfg, qq)
        atts.append((float(h), iv))
        if iv is None:
            h = MIN_S * h
        else:
            lo, hi = iv
            if lo < 1 <= hi:
                raise Inconclusive("accept threshold within rounding")
            if lo >= 1:
                c = [min(x, MAX_S) for x in iv]
                if c[0] <= cfg["incr_f"] < c[1]:
                    hn = (h, c[1] * h)          # growth threshold within rounding
                else:
                    hn = tuple((x * h if x > cfg["incr_f"] else h) for x in c)
                return dict(kind="ok", h=float(h), unew=unew, tol=tu, hnext=hn, attempts=atts)
            c = [min(max(x, MIN_S), cfg["decr_f"]) for x in iv]
            if abs(c[1] - c[0]) > 1e-5 * abs(c[0]):
                raise Inconclusive("retry size not determined to 1e-5")
            h = 0.5 * (c[0] + c[1]) * h
        loops += 1
        if loops > MAX_LOOPS:
            return dict(kind="MaxLoopsExceeded", attempts=atts)
        if abs(h - cfg["minh"]) <= 1e-6 * cfg["minh"]:
            raise Inconclusive("h at minh")
        if h < cfg["minh"]:
            return dict(kind="MinimumStepReached", attempts=atts)


DEFAULT_CFG = dict(epsilon=1e-4, incr_f=1.25, decr_f=0.85, safety_f=0.8, adapt_cutoff=0.01, minh=1e-16)
