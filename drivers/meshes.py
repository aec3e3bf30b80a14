"""Domains and meshes (T_Mesh)."""
from fractions import Fraction as Fr

import numpy as np

from enc import F, Fm, Fv, Raised, call, fl, laid, obs
from mud import plot, util


def fit_event(rng):
    n, p = rng.choice([1, 2, 3, 5]), rng.choice([1, 2, 3])
    ratio = rng.choice([None, None, Fr(0), Fr(1), Fr(1, 2), Fr(1, 4), Fr(3), Fr(1, 10)])
    k = {} if ratio is None else {"pad_ratio": float(ratio) if rng.random() < 0.7 or ratio.denominator > 1 else int(ratio)}
    rr = Fr(1, 10) if ratio is None else ratio
    ints = rng.random() < 0.25
    dt = rng.choice([int, int, "i1", "i4", "u1"]) if ints else float
    val = lambda: Fr(rng.randint(-6, 9) if dt != "u1" else rng.randint(0, 9), 1 if ints else rng.choice([1, 2, 4]))
    X, B, kf = [], [], None
    z = rng.random()
    if z < 0.6:
        X = [[val() for _ in range(p)] for _ in range(n)]
        a = laid(rng, fl(X).astype(dt))
        if rng.random() < 0.2:
            call(util.fit_domain, a, **k)
        r = call(util.fit_domain, a, **k) if rng.random() < 0.6 else call(util.fit_domain, x=a, **k)
        wid = [max(c) - min(c) for c in zip(*X)]
    elif z < 0.95:
        B = [sorted([val(), val()], reverse=rng.random() < 0.2) for _ in range(p)]
        a = fl(B).astype(dt)
        a = a.tolist() if rng.random() < 0.4 else a
        x = fl([[val() for _ in range(p)] for _ in range(n)]) if rng.random() < 0.3 else None  # bounds win
        if rng.random() < 0.3:  # the same box again: the first call left it alone
            call(util.fit_domain, x, min_max_bounds=a, **k)
        r = call(util.fit_domain, x, min_max_bounds=a, **k)
        wid = [b - a for a, b in B]
    else:
        r = call(util.fit_domain, **k)
        wid = [Fr(0)]
    if ints and any((rr * w).denominator != 1 for w in wid):
        lo = B and [b[0] for b in B] or [min(c) for c in zip(*X)]
        hi = B and [b[1] for b in B] or [max(c) for c in zip(*X)]
        cut = [[int(a - rr * (b - a)), int(b + rr * (b - a))] for a, b in zip(lo, hi)]
        if not isinstance(r, Raised) and np.array_equal(r, cut):  # exactly the recorded defect
            kf = "C16-integer-padding"
    return {"op": "fit", "X": Fm(X), "B": Fm(B), "p": F(rr), "obs": obs(r)}, kf


def mesh_event(rng):
    kind, mod = rng.choice([("unit", util), ("unit", plot), ("normal", plot)])
    n, w = rng.choice([1, 2, 3, 4, 5, 6, 7, 9]), rng.choice([Fr(1), Fr(1), Fr(2), Fr(1, 2), Fr(3)])
    fn = getattr(mod, "make_2d_%s_mesh" % kind)
    a, k = (n,), {}
    if rng.random() < 0.4:
        a, k = (), {"N": n}
    wv = int(w) if w.denominator == 1 and rng.random() < 0.6 else float(w)
    if w != 1 or rng.random() < 0.5:
        k["window"] = wv
    r = call(fn, *a, **k)
    if isinstance(r, Raised) or len(r) != 3:
        o = obs(r)
        return {"op": "mesh2", "kind": kind, "n": n, "w": F(w), "X": o, "Y": o, "L": o}
    return {"op": "mesh2", "kind": kind, "n": n, "w": F(w), "X": obs(r[0]), "Y": obs(r[1]), "L": obs(r[2])}


def grid_event(rng):
    d = rng.choice([1, 2, 2, 3, 4])
    n = rng.choice([2, 3, 4, 5, 6] if d < 3 else [2, 3, 4])
    B = []
    for _ in range(d):
        lo = Fr(rng.randint(-4, 5), rng.choice([1, 2]))
        B.append([lo, lo + rng.choice([1, 2, 3, Fr(1, 2)])])
    b = fl(B)
    if all(x.denominator == 1 for r in B for x in r) and rng.random() < 0.5:
        b = b.astype(int)
    b = b.tolist() if rng.random() < 0.5 else b
    r = call(plot.build_nd_mesh_grid, b, aff=n)
    if isinstance(r, Raised) or len(r) != 2:
        return {"op": "grid", "B": Fm(B), "n": n, "mesh": [obs(r)], "pts": obs(r)}
    return {"op": "grid", "B": Fm(B), "n": n, "mesh": [obs(m) for m in r[0]], "pts": obs(r[1])}


def shape_event(rng):
    sh = rng.choice([(), (1,), (3,), (4,), (1, 3), (3, 1), (2, 2), (2, 1, 2)])
    n = int(np.prod(sh))
    v = [Fr(rng.randint(-5, 6), 2) for _ in range(n)]
    t = rng.choice([(1, -1), (-1, 1)])
    a = np.array([float(x) for x in v]).reshape(sh)
    r = call(util.set_shape, a, t if rng.random() < 0.6 else list(t)) if t != (1, -1) or rng.random() < 0.6 else call(util.set_shape, a)
    return {"op": "shape", "shape": list(sh), "target": list(t), "v": Fv(v), "obs": obs(r)}


def c16_traces(ctx):
    rng = ctx.rng
    for it in range(ctx.scale(900, 9000)):
        z = rng.random()
        kf = None
        if z < 0.45:
            e, kf = fit_event(rng)
        elif z < 0.65:
            e = mesh_event(rng)
        elif z < 0.9:
            e = grid_event(rng)
        else:
            e = shape_event(rng)
        ctx.case("T_Mesh", {"ev": [e]}, kf=kf)


def c16_defaults(ctx):
    """default sizes, and random real-valued ranges, by the same laws"""
    rng = np.random.default_rng(ctx.seed + 16)
    for fn, lo in ((util.make_2d_unit_mesh, 0), (plot.make_2d_unit_mesh, 0), (plot.make_2d_normal_mesh, -1)):
        r = call(fn)
        L = np.linspace(lo, 1, 50)
        X, Y = np.meshgrid(L, L)
        ctx.direct(not isinstance(r, Raised) and np.allclose(r[0], X) and np.allclose(r[1], Y) and
                   np.allclose(r[2], np.column_stack([X.ravel(), Y.ravel()])), "default-mesh", lambda: repr(r))
    r = call(plot.build_nd_mesh_grid, [[-2.5, 1.0]])
    ctx.direct(not isinstance(r, Raised) and np.allclose(r[1], np.linspace(-2.5, 1, 100)[None, :-1]), "default-grid", lambda: repr(r))
    for it in range(ctx.scale(30, 200)):  # grids of any size and range, exactly
        d = int(rng.integers(1, 5))
        aff = int(rng.integers(2, [100000, 400, 50, 18][d - 1])) if it % 3 == 0 else int(rng.integers(2, [200, 40, 12, 7][d - 1]))
        B = np.sort(rng.normal(size=(d, 2)) * 10.0 ** rng.integers(-9, 9) + rng.integers(-1, 2), axis=1)
        if rng.random() < 0.3:  # bounds the other way round
            B[0] = B[0, ::-1]
        r = call(plot.build_nd_mesh_grid, B if it % 2 else B.tolist(), aff=aff)
        want = np.meshgrid(*[np.linspace(a, b, aff)[:-1] for a, b in B], indexing="ij")
        ctx.direct(not isinstance(r, Raised) and len(r[0]) == d and all(np.allclose(g, w, rtol=1e-12, atol=0) for g, w in zip(r[0], want)) and
                   np.array_equal(r[1], np.vstack([g.ravel() for g in r[0]])), "grid", lambda: dict(B=B.tolist(), aff=aff, r=repr(r)))
    for it in range(ctx.scale(100, 1000)):
        n, p = int(rng.integers(1, 200)) if it % 20 else 5000, int(rng.integers(1, 7))
        X = rng.normal(size=(n, p)) * rng.uniform(1e-6, 1e6, p) + rng.normal(size=p) * 100
        q = float(rng.choice([0, 0.1, 0.37, 2.0]))
        r = call(util.fit_domain, X, pad_ratio=q)
        lo, hi = X.min(0), X.max(0)
        want = np.column_stack([lo - q * (hi - lo), hi + q * (hi - lo)])
        ctx.direct(not isinstance(r, Raised) and np.allclose(r, want, rtol=1e-9), "fit-domain", lambda: dict(X=X.tolist(), q=q, r=repr(r)))
