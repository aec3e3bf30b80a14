"""Weighted mean error maps (T_Wme)."""
from fractions import Fraction as Fr

import numpy as np

from enc import F, Fm, Fv, Raised, call, close, fl, obs, typed
from lingauss import col, cov
from mud import funs, util
from mud.base import LinearWMEProblem as LWP

SD = [Fr(1), Fr(2), Fr(1, 2), Fr(3), Fr(1, 4)]


def val(rng):
    return Fr(rng.randint(-6, 7), rng.choice([1, 1, 2]))


def num(rng, x):
    """a scalar as float, int or numpy float"""
    if x.denominator == 1 and rng.random() < 0.35:
        return int(x)
    z = rng.random()
    return float(x) if z < 0.7 else np.float64(x) if z < 0.85 else np.float32(x) if z < 0.95 or x.denominator > 1 else np.int64(x)


def data_like(rng, d):
    a = typed(rng, fl(d))
    z = rng.random()
    return a if z < 0.35 else a.reshape(-1, 1) if z < 0.65 else a.tolist() if z < 0.9 else a.reshape(-1, 1).tolist()


def wme_event(ctx):
    rng = ctx.rng
    n, N = rng.choice([1, 2, 3, 5]), rng.choice([1, 2, 2, 3, 4, 5, 6, 9])
    d = [val(rng) for _ in range(N)]
    sd = [rng.choice(SD)]
    if rng.random() < 0.4:  # default level: data with a rational standard deviation
        sd = []
        if rng.random() < 0.5:
            N = rng.choice([2, 4, 6])
            c, k = val(rng), rng.choice([Fr(1), Fr(1, 2), Fr(3)])
            d = [c + k] * (N // 2) + [c - k] * (N // 2)
        else:
            N = 8
            c, k = val(rng), rng.choice([Fr(1), Fr(1, 2)])
            d = [c + k * v for v in (2, 4, 4, 4, 5, 5, 7, 9)]  # variance 4 k^2
        rng.shuffle(d)
    M = N + rng.choice([-1, 1]) if rng.random() < 0.08 and N > 1 else N
    P = [[val(rng) for _ in range(M)] for _ in range(n)]
    if rng.random() < 0.2:  # counts
        P = [[Fr(int(abs(x))) for x in r] for r in P]
        d = [Fr(int(abs(x))) for x in d] if sd else d
    Pa = typed(rng, fl(P), 0.35, single=True)
    if n == 1 and rng.random() < 0.5:
        Pa = Pa[0]
    k = {}
    if sd:
        k["sd"] = num(rng, sd[0])
    elif rng.random() < 0.3:
        k["sd"] = None
    r = call(funs.wme, Pa, data_like(rng, d), **k)
    o = obs(r) if isinstance(r, Raised) else obs(np.asarray(r) * np.sqrt(N))
    return {"op": "wme", "P": Fm(P), "d": Fv(d), "sd": Fv(sd), "obs": o}


def gen_q(rng, di, bad=False):
    N = rng.choice([1, 2, 3, 4, 4, 5, 9])
    rep = rng.random() < 0.4
    rows = 1 if rep else N
    op = [[Fr(rng.choice([-2, -1, 0, 1, 1, 2, 3])) for _ in range(di)] for _ in range(rows)]
    if not any(any(r) for r in op):
        op[0][0] = Fr(1)
    d = [val(rng) for _ in range(N)]
    sdk = "one" if rows == 1 or rng.random() < 0.5 else "many"
    sd = [rng.choice(SD) for _ in range(1 if sdk == "one" else N)]
    if bad:
        z = rng.random()
        if z < 0.35:
            sd[rng.randrange(len(sd))] = Fr(0) if rng.random() < 0.5 else -rng.choice(SD)
        elif z < 0.55 and rows > 1:
            sdk, sd = "many", [rng.choice(SD) for _ in range(N + rng.choice([-1, 1]))]
        elif z < 0.8 and rows > 1:
            op = op + [op[0]]
        elif rows == 1:
            sdk, sd = "many", [rng.choice(SD) for _ in range(N)]
    return dict(op=op, d=d, sdk=sdk, sd=sd)


def enc_q(q):
    return dict(op=Fm(q["op"]), d=Fv(q["d"]), sdk=q["sdk"], sd=Fv(q["sd"]))


def sd_arg(rng, q):
    if q["sdk"] == "one":
        return num(rng, q["sd"][0])
    v = [float(x) for x in q["sd"]]
    z = rng.random()
    return v if z < 0.4 else tuple(v) if z < 0.6 else np.array(v)


def nf(r):
    return obs(r) if isinstance(r, Raised) else {"k": "none"}


def scaled(r, Ns):
    """(A, b) rows times sqrt(N)"""
    if isinstance(r, Raised):
        return {"A": obs(r), "b": obs(r)}
    A, b = r
    f = np.sqrt(np.array(Ns, float)).reshape(-1, 1)
    A, b = np.array(A, float), np.array(b, float)
    try:
        return {"A": obs(A * f), "b": obs(b * f)}
    except ValueError:
        return {"A": obs(A), "b": obs(b)}


def c09_traces(ctx):
    rng = ctx.rng
    for it in range(ctx.scale(600, 8000)):
        ev = [wme_event(ctx) for _ in range(2)]
        di = rng.choice([1, 2, 2, 3])
        nq = rng.choice([1, 1, 2, 2, 3])
        qs = [gen_q(rng, di, bad=rng.random() < 0.1) for _ in range(nq)]
        same_sd = rng.random() < 0.3
        if same_sd:
            for q in qs:
                q["sdk"], q["sd"] = "one", qs[0]["sd"][:1]
        rec = dict(q=[enc_q(q) for q in qs], m=[], C=[], y=[])
        Ns = [len(q["d"]) for q in qs]
        for i, q in enumerate(qs):
            r = call(util.transform_linear_map, typed(rng, fl(q["op"])), data_like(rng, q["d"]), sd_arg(rng, q))
            if isinstance(r, Raised):
                ev.append({"op": "map1", "i": i + 1, "A": obs(r), "b": obs(r)})
            else:
                f = np.sqrt(Ns[i])
                ev.append({"op": "map1", "i": i + 1, "A": obs(np.asarray(r[0]) * f), "b": obs(np.asarray(r[1]) * f)})
        ops = [typed(rng, fl(q["op"])) for q in qs]
        data = [data_like(rng, q["d"]) for q in qs]
        sds = num(rng, qs[0]["sd"][0]) if same_sd and rng.random() < 0.8 else [sd_arg(rng, q) for q in qs]
        if isinstance(sds, list) and rng.random() < 0.1:  # levels beyond the last quantity are not used
            sds = sds + [1.0]
        ev.append(dict(scaled(call(util.transform_linear_setup, ops, data, sds), Ns), op="setup"))
        if nq > 1 and rng.random() < 0.2:  # a list that ends too early
            part = [ops, data, list(sds) if isinstance(sds, list) else [sds] * nq]
            k = rng.choice([0, 1, 2])
            part[k] = part[k][: rng.randrange(1, nq)]
            cnt = dict(op="lists", no=len(part[0]), nd=len(part[1]), ns=len(part[2]))
            ev.append(dict(cnt, obs=nf(call(rng.choice([util.transform_linear_setup, LWP]), *part))))
        kw = {}
        if rng.random() < 0.5:
            m = [val(rng) for _ in range(di)]
            rec["m"], kw["mean_i"] = Fv(m), col(m)
        if rng.random() < 0.5:
            C = cov(rng, di)
            rec["C"], kw["cov_i"] = Fm(C), fl(C)
        sq = all(int(n ** 0.5) ** 2 == n for n in Ns)
        if sq and rng.random() < 0.4:
            y = [val(rng) for _ in range(nq)]
            rec["y"], kw["y"] = Fv(y), col(y)
        P = call(LWP, ops, data, sds, **kw)
        ev.append(dict(scaled(P if isinstance(P, Raised) else (P.A, P.b), Ns), op="class"))
        if not isinstance(P, Raised):
            # rows of the exact map: a row that cancels is only zero up to rounding in the library
            E = [[sum((q["op"][0] if len(q["op"]) == 1 else q["op"][j])[k] / (q["sd"][0] if q["sdk"] == "one" else q["sd"][j])
                      for j in range(len(q["d"]))) for k in range(di)] for q in qs]
            if np.linalg.matrix_rank(fl(E)) == nq:
                ev.append({"op": "solve", "method": "mud", "obs": obs(call(P.solve))})
            if sq:
                ev.append({"op": "solve", "method": "map", "obs": obs(call(P.solve, "map"))})
        ctx.case("T_Wme", dict(rec, ev=ev))


def c09_large(ctx):
    """Larger random systems: the map reproduces the weighted mean error at every parameter."""
    for _ in range(ctx.scale(150, 2000)):
        rng = ctx.rng
        g = np.random.default_rng(rng.randrange(2**31))
        di, nq = rng.choice([1, 2, 5, 8]), rng.choice([1, 2, 4, 6, 11])
        ops, data, sds = [], [], []
        for _ in range(nq):
            N = rng.choice([1, 2, 7, 30, 200, 30, 200, 777, 2500])
            rep = rng.random() < 0.4 or N == 1
            ops.append(g.normal(size=(1 if rep else N, di)))
            data.append(g.normal(size=N) * 3)
            sds.append(float(g.uniform(0.1, 2)) if rep or rng.random() < 0.5 else g.uniform(0.1, 2, N))
            if rng.random() < 0.4:  # the quantity in other units (levels above the smallest accepted)
                u = 10.0 ** rng.randint(-12, 8)
                ops[-1], data[-1], sds[-1] = ops[-1] * u, data[-1] * u, sds[-1] * u
            elif rng.random() < 0.3:  # noise far above the values
                sds[-1] = sds[-1] * 10.0 ** rng.randint(1, 5)
        X = g.normal(size=(4, di))
        want = np.stack([((X @ np.broadcast_to(o, (len(d), di)).T - d) / s).sum(axis=1) / np.sqrt(len(d))
                         for o, d, s in zip(ops, data, sds)])
        det = lambda: dict(ops=[o.tolist() for o in ops], data=[d.tolist() for d in data], sds=[np.array(s).tolist() for s in sds])
        r = call(util.transform_linear_setup, ops, data, sds)
        ctx.direct(not isinstance(r, Raised) and close(r[0] @ X.T + r[1], want), "setup=wme", det)
        P = call(LWP, ops, data, sds)
        ctx.direct(not isinstance(P, Raised) and close(P.A @ X.T + P.b, want), "class=wme", det)
        ctx.direct(not isinstance(P, Raised) and close(P.y, np.zeros((nq, 1))), "class:zero-data", det)
        for o, d, s, w in zip(ops, data, sds, want):
            if np.ndim(s) == 0:
                p = X @ np.broadcast_to(o, (len(d), di)).T
                dd = d if rng.random() < 0.5 else d.reshape(-1, 1)
                v = call(funs.wme, p, dd, s)
                ctx.direct(close(v, w), "wme", det)
                if len(d) > 1:
                    v = call(funs.wme, p, dd)
                    ctx.direct(close(v, w * s / np.std(d)), "wme:default-level", det)
