"""Iterative linear solves (T_IterLin)."""
from fractions import Fraction as Fr

import numpy as np

from enc import F, Fm, Fv, Raised, call, close, fl, obs, typed
from lingauss import col, cov
from mud import funs
from mud.base import IterativeLinearProblem as ILP


def nf(r):
    return obs(r) if isinstance(r, Raised) else {"k": "none"}


def pts_of(r):
    if isinstance(r, Raised) or not isinstance(r, (list, tuple)):
        return [obs(r)]
    return [obs(np.asarray(v)) for v in r]


def gen(rng):
    ns, di = rng.choice([(1, 1), (1, 2), (2, 2), (2, 2), (3, 2), (2, 3), (3, 3), (4, 2)])
    rows = [[Fr(x) for x in r] for r in ([1, 0, 0], [0, 1, 0], [1, 1, 0], [1, -1, 0], [0, 0, 1], [1, 0, 1], [2, 0, 0],
                                         [0, 1, -1], [1, 1, 1], [1, 2, 0])]
    A = []
    while len(A) < ns:
        r = rng.choice(rows)[:di]
        if any(r):
            A.append(list(r))
    whole = rng.random() < 0.12  # counts
    vec = lambda n: [Fr(rng.randint(0, 9)) if whole else Fr(rng.randint(-4, 5), rng.choice([1, 1, 2])) for _ in range(n)]
    keep = lambda p=0.75: rng.random() < p
    g = dict(A=A, b=vec(ns) if keep() else [], y=vec(ns) if keep(0.9) else [], m=vec(di) if keep() else [],
             C=cov(rng, di) if keep(0.6) else [], Co=cov(rng, ns) if keep(0.6) else [], order=[])
    if keep(0.6):
        k = rng.choice([1, ns, ns, ns + 1])
        o = list(range(ns))
        rng.shuffle(o)
        g["order"] = (o + [rng.randrange(ns)])[:k]
    return ns, di, g


def a_or_c(rng, v):
    return typed(rng, fl(v) if rng.random() < 0.5 else col(v), single=True)


def order_arg(rng, o):
    return o if rng.random() < 0.6 else np.array(o) if rng.random() < 0.5 else tuple(o)


def args(rng, g, cls):
    b = a_or_c(rng, g["b"]) if g["b"] else None
    kw = {}
    if g["y"]:
        kw["y"] = a_or_c(rng, g["y"])
    if g["m"]:
        kw["mu_i" if cls else "mean"] = a_or_c(rng, g["m"])
    if g["C"]:
        kw["cov"] = fl(g["C"])
    if g["Co"]:
        kw["data_cov"] = fl(g["Co"])
    if g["order"]:
        kw["idx_order"] = order_arg(rng, g["order"])
    return b, kw


def c10_traces(ctx):
    rng = ctx.rng
    for it in range(ctx.scale(500, 6000)):
        ns, di, g = gen(rng)
        rec = dict(A=Fm(g["A"]), b=Fv(g["b"]), y=Fv(g["y"]), m=Fv(g["m"]), C=Fm(g["C"]), Co=Fm(g["Co"]),
                   order=[i + 1 for i in g["order"]])
        A = fl(g["A"])
        Aa = A[0] if ns == 1 and rng.random() < 0.5 else A
        b, kw = args(rng, g, True)
        P = call(ILP, Aa, b, **kw)
        ev = [{"op": "new", "obs": nf(P)}]
        if not isinstance(P, Raised):
            mixed = rng.random() < 0.3
            m0 = rng.choice(["mud", "mud", "mud", "map", "ls", "mud_alt"])
            for _ in range(rng.choice([1, 1, 2, 3])):
                n = rng.choice([1, 1, 2]) if di > 2 or ns > 2 else rng.choice([1, 1, 2, 3])
                n = n if rng.random() < 0.95 else 0
                me = rng.choice(["mud", "map"]) if mixed else m0
                k = {}
                if n != 1 or rng.random() < 0.5:
                    k["num_epochs"] = n
                if me != "mud" or rng.random() < 0.5:
                    k["method"] = me
                ev.append({"op": "solve", "n": n, "method": me, "obs": obs(call(P.solve, **k))})
                if rng.random() < 0.4:
                    ref = [Fr(rng.randint(-3, 4)) for _ in range(di)]
                    r = call(P.get_errors, a_or_c(rng, ref))
                    ev.append({"op": "errors", "ref": Fv(ref), "obs": obs(r) if isinstance(r, Raised) else obs(np.asarray(r) ** 2)})
                if rng.random() < 0.15 and n == 1:
                    break
            ch = call(lambda: [[obs(np.asarray(x)) for x in c] for c in P.solution_chains])
            ev.append({"op": "chains", "chains": [] if isinstance(ch, Raised) else ch})
            ep = call(lambda: [[dict(mean=obs(np.asarray(q.mean_i)), A=obs(np.asarray(q.A)), b=obs(np.asarray(q.b)),
                                     y=obs(np.asarray(q.y))) for q in e] for e in P.epochs])
            ev.append({"op": "epochs", "epochs": [] if isinstance(ep, Raised) else ep})
            ev.append({"op": "mean", "obs": obs(np.asarray(P.mu_i))})
        b, kw = args(rng, g, False)
        n, me = rng.choice([1, 1, 2, 1, 1, 2, 1, 1, 2, 0]), rng.choice(["mud", "mud", "map", "ls"])
        ev.append({"op": "fsolve", "n": n, "method": me,
                   "obs": obs(call(funs.iter_lin_solve, A, b, num_epochs=n, method=me, **kw))})
        # chain functions take every argument
        bb = fl(g["b"]) if g["b"] else np.zeros(ns)
        yy = fl(g["y"]) if g["y"] else np.zeros(ns)
        mm = fl(g["m"]) if g["m"] else np.zeros(di)
        cc = fl(g["C"]) if g["C"] else (np.eye(di) if rng.random() < 0.7 else None)
        k = {"idx": order_arg(rng, g["order"])} if g["order"] else {}
        if g["Co"] and rng.random() < 0.5:
            k["data_cov"] = fl(g["Co"])
        c = (lambda v: v.reshape(-1, 1) if rng.random() < 0.5 else v)
        ev.append({"op": "epoch", "n": 1, "method": "mud", "pts": pts_of(call(funs.performEpoch, A, c(bb), c(yy), c(mm), cc, **k))})
        n = rng.choice([1, 2, 2, 3]) if di < 3 and ns < 3 else rng.choice([1, 2])
        ev.append({"op": "iterate", "n": n, "method": "mud",
                   "pts": pts_of(call(funs.iterate, A, c(bb), c(yy), c(mm), cc, num_epochs=n, **k))})
        ctx.case("T_IterLin", dict(rec, ev=ev))


def c10_large(ctx):
    """Larger systems: each step meets its row, Fejer monotone, chains link up, calls continue."""
    for _ in range(ctx.scale(80, 1000)):
        rng = ctx.rng
        g = np.random.default_rng(rng.randrange(2**31))
        ns, di = rng.choice([(3, 5), (5, 5), (8, 4), (10, 10), (1, 4), (6, 2), (25, 30), (70, 3)])
        A = g.normal(size=(ns, di))
        # an origin of the parameters far away: steps are small against the parameters themselves
        off = g.normal(size=(di, 1)) * rng.choice([0, 0, 30, 5000])
        z = off + g.normal(size=(di, 1))
        b = g.normal(size=(ns, 1)) - A @ off
        y = A @ z + b
        B = g.normal(size=(di, di))
        C = B @ B.T + 0.3 * np.eye(di)
        m = off + g.normal(size=(di, 1))
        su = rng.choice([1.0, 1.0, 2.0**-14, 2.0**14])  # parameters in other units
        A, z, off, m, C = A / su, z * su, off * su, m * su, C * su**2
        order = [rng.randrange(ns) for _ in range(rng.choice([ns, 2 * ns, 3]))]
        det = lambda: dict(A=A.tolist(), b=b.tolist(), y=y.tolist(), C=C.tolist(), m=m.tolist(), order=order)
        P = call(ILP, A, b, y, mu_i=m, cov=C, idx_order=order)
        n = rng.choice([[1, 3, 2], [1, 3, 2], [1, 3, 2], [1, 12], [25]]) if ns * len(order) < 400 else [2]
        if len(order) <= 4 and rng.random() < 0.3:
            n = rng.choice([[1, 70], [130], [55, 2]])
        xs = [call(P.solve, num_epochs=k) for k in n] if not isinstance(P, Raised) else [P]
        if any(isinstance(x, Raised) for x in xs):
            ctx.direct(False, "accepted", det)
            continue
        iC = np.linalg.inv(C)
        dz = lambda x: float(((x - z).T @ iC @ (x - z))[0, 0])
        same = lambda u, v: not isinstance(u, Raised) and np.shape(u) == np.shape(v) and close((u - off) / su, (v - off) / su, 1e-6, 1e-7)
        prev, ok_row, ok_near, ok_link, pts = m, True, True, True, []
        for chn in P.solution_chains:
            ok_link = ok_link and len(chn) == len(order) + 1 and np.array_equal(np.ravel(chn[0]), np.ravel(prev))
            for i, x0, x in zip(order, chn[:-1], chn[1:]):
                ok_row = ok_row and close(A[[i]] @ x + b[[i]], y[[i]], 1e-5, 1e-7)
                ok_near = ok_near and dz(x) <= dz(x0) * (1 + 1e-9) + 1e-9
                pts.append(x)
            prev = chn[-1]
        ctx.direct(len(P.solution_chains) == sum(n), "chains:one-per-epoch", det)
        ctx.direct(ok_link, "chains:linked", det)
        ctx.direct(ok_row, "step:own-row", det)
        ctx.direct(ok_near, "step:never-away", det)
        e = call(P.get_errors, z)
        ctx.direct(close(e, [np.linalg.norm(x - z) for x in pts]), "errors", det)
        r2 = g.normal(size=(di, 1))
        ctx.direct(close(call(P.get_errors, r2), [np.linalg.norm(x - r2) for x in pts]), "errors:other-reference", det)
        Q = call(ILP, A, b, y, mu_i=m, cov=C, idx_order=order)
        q = call(Q.solve, num_epochs=sum(n))
        ctx.direct(same(q, xs[-1]), "calls-continue", det)
        f = call(funs.iter_lin_solve, A, b, y=y, mean=m, cov=C, num_epochs=sum(n), idx_order=order)
        ctx.direct(same(f, xs[-1]), "iter_lin_solve", det)
        it = call(funs.iterate, A, b, y, m, C, num_epochs=sum(n), idx=order)
        ok = not isinstance(it, Raised) and len(it) == sum(n) * (len(order) + 1)
        ctx.direct(ok and same(np.reshape(it[-1], (-1, 1)), xs[-1]), "iterate", det)
