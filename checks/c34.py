"""C34: copied and pickled solvers continue exactly like the original and independently of it."""
import copy, os, pickle, subprocess, sys, tempfile
import numpy as np
from rkv import pkg, gen, probe
from rkv.harness import Check, Inconclusive, VERIF

C = Check("C34", "solvers taken through a random history (steps, rejections, runs, interruptions, failures, resets, settings), then deep-copied or pickled (every protocol) at a random moment and continued together with the original in random interleaving, both compared bit for bit with a solver that was never copied; pickled solvers also continued in newly started interpreters; "
          "settings, transforms and exceptions copied and pickled; non-trivial = every continuation compared; distinct by solver, form, history and moment",
          assumptions=["nonlinear terms that can be copied and pickled themselves"])
FORMS = pkg.all_forms()


def clone(rng, s):
    """A copy; any failure to make one is reported by the caller."""
    k = int(rng.integers(0, 8))
    if k < 3:
        return copy.deepcopy(s), "deepcopy"
    return pickle.loads(pickle.dumps(s, protocol=min(k - 1, pickle.HIGHEST_PROTOCOL))), "pickle protocol %d" % min(k - 1, pickle.HIGHEST_PROTOCOL)


def history(rng, p, length, aso):
    """A list of operations, the same for every solver it is applied to."""
    ops = []
    for _ in range(length):
        k = rng.integers(10)
        h = min(gen.log_u(rng, 1e-3, 1.0), p.hmax)
        if k < 5:
            ops.append(("step", h, "same" if rng.random() < 0.6 else "new", int(rng.integers(1 << 30))))
        elif k < 7:
            T = min(float(rng.uniform(0.05, 0.5)), p.hmax if aso else 10 * h)
            ops.append(("evolve", min(h, T / 2), T, bool(rng.random() < 0.7), int(rng.integers(1, 4))))
        elif k == 7:
            ops.append(("interrupt", h, int(rng.integers(1, 9))))
        elif k == 8:
            ops.append(("reset",))
        else:
            ops.append(("setting", gen.log_u(rng, 1e-7, 1e-2)))
    return ops


class Driver:
    """Applies operations to one solver and logs everything that comes back."""

    def __init__(self, s, p, u, h=None):
        self.s, self.p, self.u, self.h = s, p, u, h
        self.aso = pkg.is_as(p.name)
        self.log = []

    def do(self, op):
        s = self.s
        try:
            if op[0] == "step":
                u = self.u if op[2] == "same" else gen.cnorm(np.random.default_rng(op[3]), self.p.n, self.p.cplx)
                h = op[1] if self.h is None or op[2] == "new" else self.h
                if self.aso:
                    u, a, b = s.step(u, h)
                    self.h = min(b, self.p.hmax)
                    self.log.append((np.array(u), a, b))
                else:
                    u = s.step(u, h)
                    self.h = h
                    self.log.append((np.array(u),))
                self.u = u
            elif op[0] == "evolve":
                n = max(1, int(op[2] / op[1]))
                u = s.evolve(self.u, 0.0, op[2], op[1], op[3], op[4]) if self.aso else s.evolve(self.u, 0.0, n * op[1], op[1], op[3], op[4])
                self.log.append((np.array(u), np.array(s.t, float), np.array(s.u)))
                self.u = u
            elif op[0] == "interrupt":
                s.nl_func.fault_at = s.nl_func.calls + op[2]
                try:
                    s.evolve(self.u, 0.0, 3 * op[1], op[1])
                finally:
                    s.nl_func.fault_at = 0
            elif op[0] == "reset":
                s.reset()
                self.log.append((len(s.t), len(s.u)))
            elif self.aso:
                s.config.epsilon = op[1]
        except ArithmeticError as e:
            self.log.append((str(type(e).__name__),))
        except s.SolverError if self.aso else () as e:
            self.log.append((type(e).__name__,))
        self.log.append((s.nl_func.calls,))


def same(a, b):
    return len(a) == len(b) and all(len(x) == len(y) and all((u == v if isinstance(u, str) or isinstance(v, str) else gen.same(u, v)) for u, v in zip(x, y)) for x, y in zip(a, b))


def first_difference(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if not same([x], [y]):
            return dict(at=i, got=[np.asarray(v).tolist() if not isinstance(v, str) else v for v in x][:2], want=[np.asarray(v).tolist() if not isinstance(v, str) else v for v in y][:2])
    return dict(lengths=(len(a), len(b)))


def build(rng, idx):
    name, form = FORMS[idx % len(FORMS)]
    aso = pkg.is_as(name)
    p = probe.Prob(rng, name, form)
    seed = int(rng.integers(1 << 30))
    eps = gen.log_u(rng, 1e-7, 1e-2)

    def mk():
        N = probe.Nonlinear(np.random.default_rng(seed), p.n, p.cplx, 0.8)
        return pkg.make(name, p.L, N, form, pkg.SolverConfig(epsilon=eps, minh=1e-12) if aso else None, pkg.ETDConfig(contour_points=int(24 + seed % 20)) if name in pkg.ETDS and seed % 2 else None)
    return name, form, aso, p, mk


def case(rng, mon, idx):
    name, form, aso, p, mk = build(rng, idx)
    pre = history(rng, p, int(rng.integers(0, 7)), aso)
    post = history(rng, p, int(rng.integers(2, 7)), aso)
    tag = "%s/%s" % (name, form)
    ctl = Driver(mk(), p, np.array(p.u0))
    for op in pre:
        ctl.do(op)
    cut = len(ctl.log)
    orig = Driver(mk(), p, np.array(p.u0))
    for op in pre:
        orig.do(op)
    if not same(orig.log, ctl.log):
        mon.viol(tag + ": two solvers with one history differ")
        return
    try:
        s2, how = clone(rng, orig.s)
    except Exception as e:
        mon.viol(tag + ": a solver cannot be copied or pickled: %s" % type(e).__name__, error=str(e)[:300], history=pre)
        return
    tag += " " + how
    mon.check(type(s2) is type(orig.s) and s2 is not orig.s, tag + ": is not a solver of the same class")
    mon.check(s2.solver_type == orig.s.solver_type, tag + ": reports another kind", got=str(s2.solver_type))
    mon.check(s2.logger is orig.s.logger, tag + ": logs elsewhere than the original", got=getattr(s2.logger, "name", None))
    mon.check(gen.same(np.array(s2.t, float), np.array(orig.s.t, float)) and len(s2.u) == len(orig.s.u) and all(gen.same(a, b) for a, b in zip(s2.u, orig.s.u)), tag + ": other stored times or states")
    cp = Driver(s2, p, np.array(orig.u), orig.h)
    if rng.random() < 0.7:
        for op in post:
            ctl.do(op)
        # both go on, in any order
        todo = [(orig, list(post)), (cp, list(post))]
        while any(q for _, q in todo):
            d, q = todo[rng.integers(2)]
            if q:
                d.do(q.pop(0))
        mon.check(same(orig.log[cut:], ctl.log[cut:]), tag + ": the original goes on differently after it was copied", history=pre, then=post, **first_difference(orig.log[cut:], ctl.log[cut:]))
        mon.check(same(cp.log, ctl.log[cut:]), tag + ": the copy goes on differently than the original", history=pre, then=post, **first_difference(cp.log, ctl.log[cut:]))
        mon.count("continuations_compared", 2)
    else:
        # the two are used for different things
        other = history(rng, p, int(rng.integers(2, 7)), aso)
        ctl2 = Driver(mk(), p, np.array(p.u0))
        for op in pre:
            ctl2.do(op)
        for op in post:
            ctl.do(op)
        for op in other:
            ctl2.do(op)
        todo = [(orig, list(post)), (cp, list(other))]
        while any(q for _, q in todo):
            d, q = todo[rng.integers(2)]
            if q:
                d.do(q.pop(0))
        mon.check(same(orig.log[cut:], ctl.log[cut:]), tag + ": the original is influenced by the use of its copy", history=pre, then=post, other=other, **first_difference(orig.log[cut:], ctl.log[cut:]))
        mon.check(same(cp.log, ctl2.log[cut:]), tag + ": the copy is influenced by the use of the original", history=pre, then=other, other=post, **first_difference(cp.log, ctl2.log[cut:]))
        mon.count("continuations_compared", 2)
        if aso:
            mon.check(cp.s.config is not orig.s.config, tag + ": copy and original share their configuration")
    if rng.random() < 0.3:
        try:
            s3, how3 = clone(rng, cp.s)          # a copy of the copy
        except Exception as e:
            mon.viol(tag + ": a copied solver cannot be copied or pickled: %s" % type(e).__name__, error=str(e)[:300], history=pre)
            return
        a, b = Driver(s3, p, np.array(cp.u), cp.h), Driver(cp.s, p, np.array(cp.u), cp.h)
        for op in post:
            a.do(op)
            b.do(op)
        mon.check(same(a.log, b.log), tag + ": a copy of the copy differs", **first_difference(a.log, b.log))
        mon.count("continuations_compared")
    mon.key(tag, [o[0] for o in pre], [o[0] for o in post], idx)
    mon.note(solver=tag, history=[o[0] for o in pre], then=[o[0] for o in post])


SCRIPT = """
import pickle, sys, types
sys.path[:0] = %r
from rkv import pkg, probe
import importlib.util
spec = importlib.util.spec_from_file_location("c34", %r)
m = importlib.util.module_from_spec(spec); sys.modules["c34"] = m; spec.loader.exec_module(m)
jobs = pickle.load(open(sys.argv[1], "rb"))
out = []
for blob, p, u, h, ops in jobs:
    d = m.Driver(pickle.loads(blob), types.SimpleNamespace(**p), u, h)
    for op in ops:
        d.do(op)
    out.append(d.log)
pickle.dump(out, open(sys.argv[2], "wb"))
"""


def process(rng, mon, idx):
    """Pickled solvers continued in a new interpreter."""
    jobs, want, tags = [], [], []
    for j in range(len(FORMS)):
        name, form, aso, p, mk = build(rng, j)
        pre, post = history(rng, p, int(rng.integers(0, 5)), aso), history(rng, p, int(rng.integers(2, 5)), aso)
        d = Driver(mk(), p, np.array(p.u0))
        for op in pre:
            d.do(op)
        try:
            blob = pickle.dumps(d.s)
        except Exception as e:
            mon.viol("%s/%s: a solver cannot be pickled: %s" % (name, form, type(e).__name__), error=str(e)[:300], history=pre)
            return
        jobs.append((blob, dict(name=p.name, n=p.n, cplx=p.cplx, hmax=p.hmax), np.array(d.u), d.h, post))
        cut = len(d.log)
        for op in post:
            d.do(op)
        want.append(d.log[cut:])
        tags.append("%s/%s in a new process" % (name, form))
    tmp = tempfile.mkdtemp(prefix="rkv_c34_")
    a, b = os.path.join(tmp, "in"), os.path.join(tmp, "out")
    try:
        with open(a, "wb") as f:
            pickle.dump(jobs, f)
        r = subprocess.run([sys.executable, "-c", SCRIPT % ([os.path.join(VERIF, "lib"), pkg.REPO], os.path.join(VERIF, "checks", "c34.py")), a, b], capture_output=True, text=True, timeout=200)
        if r.returncode:
            if "rkstiff" in r.stderr:
                mon.viol("pickled solvers cannot be continued in a new process", stderr=r.stderr[-1500:])
                return
            raise RuntimeError(r.stderr[-2000:])
        with open(b, "rb") as f:
            got = pickle.load(f)
    finally:
        for x in (a, b):
            if os.path.exists(x):
                os.unlink(x)
        os.rmdir(tmp)
    for t, g, w in zip(tags, got, want):
        mon.check(same(g, w), t + ": continues differently", **first_difference(g, w))
        mon.count("processes_compared")
    mon.key(idx)


def others(rng, mon, idx):
    """Configurations, transforms, exceptions, kinds."""
    how = (copy.deepcopy, copy.copy, lambda x: pickle.loads(pickle.dumps(x)))[idx % 3]
    cfg, kw = probe.rand_config(rng)
    c2 = how(cfg)
    for k in ("epsilon", "incr_f", "decr_f", "safety_f", "adapt_cutoff", "minh"):
        mon.check(getattr(c2, k) == kw[k], "copied SolverConfig: other %s" % k, got=getattr(c2, k), want=kw[k])
    c2.epsilon = kw["epsilon"] * 2
    mon.check(cfg.epsilon == kw["epsilon"], "changing a copied SolverConfig changes the original")
    try:
        c2.minh = -1.0
        mon.viol("copied SolverConfig no longer refuses values")
    except ValueError:
        pass
    e = pkg.ETDConfig(contour_points=int(rng.integers(2, 60)), contour_radius=float(rng.uniform(0.2, 3)), modecutoff=float(rng.uniform(0.001, 1)))
    e2 = how(e)
    mon.check((e.contour_points, e.contour_radius, e.modecutoff) == (e2.contour_points, e2.contour_radius, e2.modecutoff), "copied ETDConfig differs")
    e2.contour_radius = 0.1
    mon.check(e.contour_radius != 0.1, "changing a copied ETDConfig changes the original")
    nr = int(rng.integers(4, 30))
    H = pkg.transforms.HankelTransform(nr, float(rng.uniform(0.3, 8)))
    if rng.random() < 0.5:
        H.rmax = float(rng.uniform(0.3, 8))
    f = rng.standard_normal(nr)
    was = H.ht(f), H.iht(f), H.r.copy(), H.kr.copy()
    if how is not copy.copy:
        G = how(H)
        mon.check(gen.same(G.ht(f), was[0]) and gen.same(G.iht(f), was[1]) and gen.same(G.r, was[2]) and gen.same(G.kr, was[3]) and (G.nr, G.rmax) == (H.nr, H.rmax), "copied HankelTransform differs")
        G.rmax = 17.0
        G.nr = nr + 2
        mon.check(gen.same(H.ht(f), was[0]) and gen.same(H.r, was[2]) and H.nr == nr, "changing a copied HankelTransform changes the original")
        H.nr = nr + 5
        mon.check(G.nr == nr + 2 and G.rmax == 17.0 and len(G.r) == nr + 2, "changing a HankelTransform changes its copy")
    B = pkg.BaseSolverAS
    for E in (B.MaxLoopsExceeded, B.MinimumStepReached, B.SolverError):
        x = how(E("what happened"))
        mon.check(type(x) is E and x.args == ("what happened",), "copied %s differs" % E.__name__)
    for k in pkg.SolverType:
        mon.check(how(k) is k, "copied SolverType is another object")
    mon.count("other_objects_compared", 5)
    mon.key(idx % 3, nr, kw)


C.stratum("case", 700, 20000, fn=case)
C.stratum("process", 4, 60, fn=process, chunk=1)
C.stratum("others", 150, 2000, fn=others)
C.require("continuations_compared", "processes_compared", "other_objects_compared")

if __name__ == "__main__":
    sys.exit(C.main())
