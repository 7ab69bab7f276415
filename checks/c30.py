"""C30: mirrored radial grids and data are symmetric."""
import sys
import numpy as np
from rkv import pkg, gen
from rkv.harness import Check

C = Check("C30", "random radial grids (increasing, with and without zero, of lengths 1 to 200, Hankel grids) and vectors and matrices of several dtypes and memory layouts mirrored along every axis spelling; monitors: grid equals the negated reversed grid followed by the grid, data even and aligned along the axis asked for, "
          "untouched along the other, inputs unchanged, other axes refused; non-trivial = every mirrored array; distinct by length, shape, axis, dtype and values")

DTYPES = (float, complex, np.float32, np.complex64, int)


def grid(rng, n):
    k = rng.integers(4)
    if k == 0 and n >= 4:
        return pkg.grids.construct_r_kr_hankel(n, gen.log_u(rng, 1e-2, 1e2))[0]
    r = np.sort(gen.log_u(rng, 1e-3, 1e3) * rng.random(n))
    if k == 1:
        r[0] = 0.0
    if k == 2:
        r = np.arange(n).astype(float) if rng.random() < 0.5 else np.arange(n)
    return r


def data(rng, shape, dt):
    if rng.random() < 0.08:
        return np.full(shape, rng.choice([0, 0, 1, -1]), dt)
    if dt is int:
        return rng.integers(-1000, 1000, shape)
    v = rng.standard_normal(shape)
    if np.issubdtype(dt, np.complexfloating):
        v = v + 1j * rng.standard_normal(shape)
    v = v.astype(dt)
    if rng.random() < 0.1 and v.size:
        v.reshape(-1)[rng.integers(v.size)] = rng.choice([np.inf, np.nan, -np.inf])
    return v


def mirror(rng, mon, idx):
    G = pkg.grids.mirror_grid
    n = int(rng.integers(1, 40)) if rng.random() < 0.8 else int(rng.integers(40, 200))
    if idx % 11 == 0:
        n = int(rng.integers(1, 4))
    r = grid(rng, n)
    n = len(r)
    kr = r.copy()
    rr = gen.layout(rng, r)
    want_r = np.array([-v for v in kr[::-1]] + [v for v in kr])
    dt = DTYPES[rng.integers(len(DTYPES))]
    kind = idx % 3
    if kind == 0:
        shape, axes = (n,), (-1, 0, None)
    elif kind == 1:
        m = int(rng.choice([1, 2, n, n + 1, 7]))
        shape, axes = (m, n), (-1, 1, None)
    else:
        m = int(rng.choice([1, 2, n, n + 1, 7]))
        shape, axes = (n, m), (0,)
    u = data(rng, shape, dt)
    ku = u.copy()
    uu = gen.layout(rng, u)
    for ax in axes:
        tag = "mirror n=%d shape=%s axis=%s %s" % (n, shape, ax, np.dtype(dt).name)
        form = rng.integers(3)
        if ax is None:
            out = G(rr, uu) if form else G(rr, u=uu)
            ax = -1
        else:
            out = G(rr, uu, ax) if form == 0 else (G(rr, uu, axis=ax) if form == 1 else G(r=rr, u=uu, axis=ax))
        if not mon.check(isinstance(out, tuple) and len(out) == 2, tag + ": does not return a pair"):
            return
        rn, un = out
        mon.check(gen.same(rn, want_r), tag + ": mirrored grid", got=rn, want=want_r)
        p = ax % len(shape)
        ws = list(shape)
        ws[p] = 2 * n
        if not mon.check(np.shape(un) == tuple(ws), tag + ": shape of the mirrored data", got=np.shape(un), want=ws):
            return
        v = np.moveaxis(np.asarray(un), p, 0)
        w = np.moveaxis(ku, p, 0)
        mon.check(np.asarray(un).dtype == ku.dtype, tag + ": dtype changed", got=str(np.asarray(un).dtype))
        ok = True
        for j in range(n):
            ok = ok and gen.same(v[n + j], w[j]) and gen.same(v[n - 1 - j], w[j])
        mon.check(ok, tag + ": data is not the even extension", got=un, data=ku)
        mon.count("entries_compared", int(np.asarray(un).size) + rn.size)
        mon.check(gen.same(rr, kr) and gen.same(uu, ku), tag + ": inputs modified")
        if np.asarray(un).flags.writeable and rn.flags.writeable:
            rn[...] = 0
            un[...] = 0
            mon.check(gen.same(rr, kr) and gen.same(uu, ku), tag + ": results share memory with the inputs")
        mon.count("arrays_mirrored")
    # data that belong to no axis of the grid's length, or to the other one: still mirrored along the axis asked for
    a, b = int(rng.integers(1, 9)), int(rng.integers(1, 9))
    ax = int(rng.choice([0, 1, -1]))
    sh = [(n, a), (a, n), (a, b)][rng.integers(3)]
    w = data(rng, sh, dt)
    try:
        _, un = G(rr, w) if ax == -1 and rng.random() < 0.5 else G(rr, w, ax)
    except ValueError:
        mon.check(sh[ax] != n, "mirror n=%d shape=%s axis=%d: fitting data refused" % (n, sh, ax))
    else:
        want = np.concatenate([np.flip(w, ax), w], ax)
        mon.check(gen.same(un, want), "mirror n=%d shape=%s axis=%d: not mirrored along the axis asked for" % (n, sh, ax), got=np.shape(un), want=want.shape)
    mon.count("other_shapes")
    ro, none = G(rr) if rng.random() < 0.5 else G(rr, None, int(rng.choice([-1, 0, 1])))
    mon.check(none is None, "mirror n=%d: omitted data gives %r" % (n, type(none)))
    mon.check(gen.same(ro, want_r), "mirror n=%d: grid without data" % n)
    # other axes
    for bad in (2, -2, 3, 7, -3):
        try:
            G(rr, uu, bad)
            mon.viol("mirror: axis %r accepted" % bad, shape=shape)
        except ValueError:
            mon.count("refused")
    mon.key(n, shape, np.dtype(dt).name, kr[:3], ku.reshape(-1)[:3])
    mon.note(n=n, shape=list(shape), dtype=np.dtype(dt).name)


C.stratum("mirror", 3000, 120000, fn=mirror)
C.require("arrays_mirrored", "refused", "entries_compared")

if __name__ == "__main__":
    sys.exit(C.main())
