"""One affine Gaussian problem asked through every part of the library (T_Views)."""
from fractions import Fraction as Fr

import numpy as np
from scipy.stats import multivariate_normal, norm

from enc import F, Fm, Fv, Raised, arr, call, close, fl, obs
from lingauss import col, cov, gen, mm, tr
from mud import funs
from mud.base import (BayesProblem, DensityProblem, IterativeLinearProblem as ILP, LinearGaussianProblem as LGP,
                      LinearWMEProblem as LWP, SpatioTemporalProblem as STP)

SQ = [Fr(1), Fr(4), Fr(1, 4), Fr(9), Fr(9, 4)]


class Gauss:
    """Joint Gaussian density; one column of values."""

    def __init__(self, m, C):
        self.d = multivariate_normal(np.ravel(m), C)

    def pdf(self, x):
        return np.reshape(self.d.pdf(x), (-1, 1))

    def logpdf(self, x):
        return np.reshape(self.d.logpdf(x), (-1, 1))


def diagonal(C):
    return all(C[i][j] == 0 for i in range(len(C)) for j in range(len(C)) if i != j)


def gaussian(rng, m, C):
    """a distribution with pdf()/logpdf(): product form where the covariance allows it"""
    if diagonal(C) and rng.random() < 0.8:
        sd = np.sqrt([float(C[i][i]) for i in range(len(C))])
        loc = fl(m)
        if len(set(m)) == 1 and len(set(sd)) == 1 and rng.random() < 0.5:
            return norm(float(m[0]), float(sd[0]))
        return norm(loc, sd)
    return Gauss(fl(m), fl(C))


def dcov(rng, n):
    """covariance: often diagonal with rational deviations"""
    if rng.random() < 0.55:
        return [[rng.choice(SQ) if i == j else Fr(0) for j in range(n)] for i in range(n)]
    return cov(rng, n)


def solve_exact(M, r):
    """M x = r over fractions"""
    n = len(M)
    T = [list(M[i]) + [r[i]] for i in range(n)]
    for k in range(n):
        p = next(i for i in range(k, n) if T[i][k] != 0)
        T[k], T[p] = T[p], T[k]
        T[k] = [v / T[k][k] for v in T[k]]
        for i in range(n):
            if i != k and T[i][k] != 0:
                T[i] = [a - T[i][k] * b for a, b in zip(T[i], T[k])]
    return [T[i][n] for i in range(n)]


def exact_mud(A, b, y, m, C):
    CA = mm(C, tr(A))
    z = [y[i] - b[i] - sum(A[i][j] * m[j] for j in range(len(m))) for i in range(len(A))]
    w = solve_exact(mm(A, CA), z)
    return [m[j] + sum(CA[j][i] * w[i] for i in range(len(A))) for j in range(len(m))]


def exact_map(A, b, y, m, C, Co):
    S = [[p + q for p, q in zip(r, s)] for r, s in zip(mm(mm(A, C), tr(A)), Co)]
    CA = mm(C, tr(A))
    z = [y[i] - b[i] - sum(A[i][j] * m[j] for j in range(len(m))) for i in range(len(A))]
    w = solve_exact(S, z)
    return [m[j] + sum(CA[j][i] * w[i] for i in range(len(A))) for j in range(len(m))]


def samples(rng, di, extra, n=None):
    n = n or rng.choice([2, 3, 4, 5, 7])
    X = [[Fr(rng.randint(-6, 6), rng.choice([1, 2])) for _ in range(di)] for _ in range(n)]
    for e in extra:
        if e is not None and max(v.denominator for v in e) <= 300:
            X[rng.randrange(n)] = list(e)
            if rng.random() < 0.7:  # a close competitor
                f = list(e)
                f[rng.randrange(di)] += rng.choice([Fr(1, 8), Fr(-1, 8), Fr(1, 4)])
                X[rng.randrange(n)] = f
    return X


def safe(X, A, b, y, m, C, Co):
    """nothing under- or overflows"""
    X, A, b, y, m, C, Co = fl(X), fl(A), fl(b), fl(y), fl(m), fl(C), fl(Co)
    q = lambda R, S: np.einsum("ij,jk,ik->i", R, np.linalg.inv(S), R)
    Y = X @ A.T + b
    t = [q(X - m, C), q(Y - y, Co), q((X - m) @ A.T, A @ C @ A.T)]
    return max(v.max() for v in t) < 500


def weights(rng, n):
    if rng.random() < 0.6:
        return None, list(range(n))
    w = [rng.choice([0, 1]) for _ in range(n)]
    if not any(w):
        w[rng.randrange(n)] = 1
    k = rng.choice([1, 1, 2, 0.5])
    return [k * x for x in w], [i for i in range(n) if w[i]]


def logs(v, live):
    """-2 log differences from the first live sample"""
    if v is None:
        return None
    v = np.asarray(v, float)[live]
    return -2 * (np.log(v) - np.log(v[0]))


def density_events(ctx, ev, D, g, live, by, m, C):
    rng = ctx.rng
    A = fl(g["A"])
    pr = multivariate_normal(A @ fl(m) + fl(g["b"]), A @ fl(C) @ A.T)
    steps = [lambda: D.set_observed(gaussian(rng, g["y"], g["Co"])), lambda: D.set_initial(gaussian(rng, m, C))]
    if rng.random() < 0.5:
        steps.reverse()
    for s in steps + [lambda: D.set_predicted(pr)]:
        r = call(s)
        if isinstance(r, Raised):
            break
    o = call(rng.choice([D.mud_point, D.estimate]))
    ev.append({"op": "sample", "which": "up", "by": by, "obs": obs(o)})
    up = getattr(D, "_up", None)
    if up is not None and not isinstance(o, Raised):
        ev.append({"op": "logs", "which": "up", "by": by, "idx": [i + 1 for i in live], "obs": obs(logs(up, live))})


def bayes_events(ctx, ev, B, like, prior, n, by):
    rng = ctx.rng
    log = rng.random() < 0.5
    steps = [lambda: B.set_likelihood(like, log=log), lambda: B.set_prior(prior)]
    if rng.random() < 0.5:
        steps.reverse()
    for s in steps:
        call(s)
    o = call(rng.choice([B.map_point, B.estimate]))
    by += ":log" if log else ":plain"
    ev.append({"op": "sample", "which": "post", "by": by, "obs": obs(o)})
    ps = getattr(B, "_ps", None)
    if ps is not None and not isinstance(o, Raised):
        ps = np.asarray(ps, float)
        ev.append({"op": "logs", "which": "post", "by": by, "idx": list(range(1, n + 1)),
                   "obs": obs(-2 * (ps - ps[0]) if log else logs(ps, list(range(n))))})


def closed_events(ctx, ev, P, X, by):
    """closed form, covariances and functionals of one problem object"""
    rng = ctx.rng
    r = call(P.solve)
    ev.append({"op": "solve", "method": "mud", "by": by + ":mud", "obs": obs(r)})
    if not isinstance(r, Raised):
        ev.append({"op": "push", "by": by, "obs": obs(call(lambda: P.A @ r + P.b))})
    r2 = call(P.solve, "mud_alt")
    ev.append({"op": "solve", "method": "mud", "by": by + ":mud_alt", "obs": obs(r2)})
    r3 = call(P.solve, "map")
    ev.append({"op": "solve", "method": "map", "by": by + ":map", "obs": obs(r3)})
    if any(isinstance(v, Raised) for v in (r, r2, r3)):
        return
    Xf = fl(X)
    for which, term, at, S in (("up", "dc", r, P.up_cov), ("post", "bayes", r3, P.cov_p)):
        v, v0 = call(P.compute_functionals, Xf, term), call(P.compute_functionals, np.asarray(at).T, term)
        ev.append({"op": "values", "which": which, "by": by + ":" + term, "obs": obs(v)})
        ev.append({"op": "cov", "which": which, "by": by, "obs": obs(S)})
        if not isinstance(v, Raised) and not isinstance(v0, Raised):
            ev.append({"op": "gap", "which": which, "by": by, "obs": obs(np.asarray(v) - np.asarray(v0).ravel()[0])})


def plain(ctx):
    rng = ctx.rng
    orth = rng.random() < 0.4
    while True:
        ns, di, g = gen(rng, deficient=False)
        ns = min(ns, di)
        if len(g["A"]) > ns or (ns * di > 6 and rng.random() < 0.5):
            continue
        g["b"] = g["b"] or [Fr(0)] * ns
        g["y"] = g["y"] or [Fr(0)] * ns
        g["m"] = g["m"] or [Fr(0)] * di
        C, Co = dcov(rng, di), dcov(rng, ns)
        A = g["A"]
        if orth and ns > 1:
            B = []
            for r in A:
                r = list(r)
                for s in B:
                    Cs = [sum(a * b for a, b in zip(row, s)) for row in C]
                    k = sum(a * b for a, b in zip(r, Cs)) / sum(a * b for a, b in zip(s, Cs))
                    r = [a - k * b for a, b in zip(r, s)]
                B.append(r)
            if max(v.denominator for r in B for v in r) > 9 or not all(any(r) for r in B):
                continue
            A = g["A"] = B
        if np.linalg.matrix_rank(fl(A)) == ns:
            break
    g["C"], g["Co"] = C, Co
    b, y, m = g["b"], g["y"], g["m"]
    X = samples(rng, di, [exact_mud(A, b, y, m, C) if rng.random() < 0.8 else None,
                          exact_map(A, b, y, m, C, Co) if rng.random() < 0.8 else None])
    if not safe(X, A, b, y, m, C, Co):
        return
    n = len(X)
    w, live = weights(rng, n)
    ev = []
    Xf, Yf = fl(X), fl(X) @ fl(A).T + fl(b)
    kw = {} if w is None else {"weights": w}
    D = call(DensityProblem, Xf if di > 1 or rng.random() < 0.7 else Xf[:, 0], Yf if ns > 1 or rng.random() < 0.7 else Yf[:, 0], **kw)
    density_events(ctx, ev, D, g, live, "density", m, C)
    B = call(BayesProblem, Xf, Yf)
    bayes_events(ctx, ev, B, gaussian(rng, y, Co), gaussian(rng, m, C), n, "bayes")
    lk = dict(b=col(b), y=col(y), mean_i=col(m), cov_i=fl(C), cov_o=fl(Co))
    closed_events(ctx, ev, call(LGP, fl(A), **lk), X, "class")
    if rng.random() < 0.5:  # the prior covariance given as a multiple of another
        al = rng.choice([Fr(1, 2), Fr(2), Fr(4), Fr(1, 8)])
        Ca = [[v / al for v in r] for r in C]
        P = call(LGP, fl(A), **dict(lk, cov_i=fl(Ca)), alpha=float(al))
        for me in ("mud", "mud_alt", "map"):
            ev.append({"op": "solve", "method": "map" if me == "map" else "mud", "by": "alpha:" + me, "obs": obs(call(lambda: P.solve(me)))})
        for which, at in (("up", "up_cov"), ("post", "cov_p")):
            ev.append({"op": "cov", "which": which, "by": "alpha", "obs": obs(call(lambda: getattr(P, at)))})
        r = call(funs.map_sol_with_cov, fl(A), col(b), y=col(y), mean=col(m), cov=fl(Ca), data_cov=fl(Co), w=float(al))
        ev.append({"op": "solve", "method": "map", "by": "map_sol_with_cov", "obs": obs(r[0] if isinstance(r, tuple) else r)})
        ev.append({"op": "cov", "which": "post", "by": "map_sol_with_cov", "obs": obs(r[1] if isinstance(r, tuple) else r)})
    fk = dict(y=col(y), mean=col(m), cov=fl(C), data_cov=fl(Co))
    ev.append({"op": "solve", "method": "mud", "by": "mud_sol", "obs": obs(call(funs.mud_sol, fl(A), col(b), **fk))})
    ev.append({"op": "solve", "method": "map", "by": "map_sol", "obs": obs(call(funs.map_sol, fl(A), col(b), **fk))})
    order = list(range(ns))
    rng.shuffle(order)
    order += [rng.randrange(ns) for _ in range(rng.choice([0, 0, 1]))]
    it = call(lambda: ILP(fl(A), col(b), y=col(y), mu_i=col(m), cov=fl(C), data_cov=fl(Co), idx_order=list(order)).solve())
    o1 = [i + 1 for i in order]
    ev.append({"op": "epoch", "by": "class", "order": o1, "obs": obs(it)})
    ev.append({"op": "pass", "by": "class", "obs": obs(it)})
    it = call(funs.iter_lin_solve, fl(A), col(b), y=col(y), mean=col(m), cov=fl(C), data_cov=fl(Co), idx_order=list(order))
    ev.append({"op": "pass", "by": "iter_lin_solve", "obs": obs(it)})
    ch = call(funs.performEpoch, fl(A), col(b), col(y), col(m), fl(C))
    ev.append({"op": "pass", "by": "performEpoch", "obs": obs(ch if isinstance(ch, Raised) else ch[-1])})
    ctx.case("T_Views", dict(kind="plain", A=Fm(A), b=Fv(b), y=Fv(y), m=Fv(m), C=Fm(C), Co=Fm(Co), X=Fm(X),
                             live=[i + 1 for i in live], ev=[{"op": "ask"}] + ev))


def wme(ctx):
    """N data of linear predictions through the spatio-temporal problem, the wrappers and the linear class"""
    rng = ctx.rng
    di, E, T = rng.choice([1, 2, 2, 3]), rng.choice([1, 1, 2, 3]), rng.choice([1, 2, 3, 4])
    N = E * T
    rep = rng.random() < 0.4
    while True:
        op = [[Fr(rng.choice([-1, 0, 1, 1, 2])) for _ in range(di)] for _ in range(1 if rep else N)]
        if any(sum(r[j] for r in op) for j in range(di)):
            break
    d = [Fr(rng.randint(-4, 5), rng.choice([1, 2])) for _ in range(N)]
    sd = rng.choice([Fr(1), Fr(2), Fr(1, 2)])
    m = [Fr(rng.randint(-2, 3)) for _ in range(di)]
    C = dcov(rng, di)
    rows = op * N if rep and N > 1 else op
    raw = [[sum(r[j] / sd for r in rows) for j in range(di)]]
    rb = [-sum(x / sd for x in d)]
    one = [[Fr(N)]]
    z = [Fr(0)]
    X = samples(rng, di, [exact_mud(raw, rb, z, m, C) if rng.random() < 0.8 else None])
    if not safe(X, raw, rb, z, m, C, one):
        return
    n = len(X)
    w, live = weights(rng, n)
    Xf, Qf, ev = fl(X), fl(X) @ fl(rows).T, []
    kw = {} if w is None else {"weights": w}
    s = np.sqrt(N)
    g = dict(A=[[float(v) / s for v in raw[0]]], b=[float(rb[0]) / s], y=[Fr(0)], Co=[[Fr(1)]])
    neg = dict(g, A=[[-v for v in g["A"][0]]], b=[-g["b"][0]])
    box = np.array([[min(c) - 1, max(c) + 1] for c in fl(X).T])

    P = STP()
    for f, v in (("domain", box), ("sensors", np.arange(E)), ("times", np.arange(T) / 2.0), ("lam", Xf), ("data", Qf),
                 ("measurements", fl(d)), ("std_dev", float(sd))):
        call(setattr, P, f, v)
    D = call(P.mud_problem, method="wme", **({} if w is None else {"sample_weights": w}))
    if not isinstance(D, Raised):
        ev.append({"op": "qoi", "by": "spatio", "sign": F(-1), "obs": obs(np.asarray(D.y) * s)})
        density_events(ctx, ev, D, neg, live, "spatio", m, C)
    else:
        ev.append({"op": "qoi", "by": "spatio", "sign": F(-1), "obs": obs(D)})

    seed = rng.randrange(10000)
    noise = np.random.RandomState(seed).randn(N) * float(sd)
    np.random.seed(seed)
    D = call(funs.mud_problem, Xf, Qf, fl(d) - noise, box, sd=float(sd), **kw)
    if not isinstance(D, Raised):
        ev.append({"op": "qoi", "by": "mud_problem", "sign": F(1), "obs": obs(np.asarray(D.y) * s)})
        density_events(ctx, ev, D, g, live, "mud_problem", m, C)
    else:
        ev.append({"op": "qoi", "by": "mud_problem", "sign": F(1), "obs": obs(D)})

    L = call(LWP, [fl(op)], [fl(d)], [float(sd)], mean_i=col(m), cov_i=fl(C))
    ev.append({"op": "solve", "method": "mud", "by": "LinearWME", "obs": obs(call(lambda: L.solve()))})
    ev.append({"op": "solve", "method": "map", "by": "LinearWME", "obs": obs(call(lambda: L.solve("map")))})
    ev.append({"op": "values", "which": "up", "by": "LinearWME:dc", "obs": obs(call(lambda: L.compute_functionals(Xf, "dc")))})
    ev.append({"op": "values", "which": "post", "by": "LinearWME:bayes", "obs": obs(call(lambda: L.compute_functionals(Xf, "bayes")))})
    ev.append({"op": "cov", "which": "up", "by": "LinearWME", "obs": obs(call(lambda: L.updated_cov()))})
    common = dict(d=Fv(d), sd=Fv([sd] * N), m=Fv(m), C=Fm(C), X=Fm(X))
    ctx.case("T_Views", dict(common, kind="wme", op=Fm(op), live=[i + 1 for i in live], ev=[{"op": "ask"}] + ev))

    # the same data kept apart
    Co = [[sd * sd if i == j else Fr(0) for j in range(N)] for i in range(N)]
    if N > 4 or not safe_b(X, rows, d, m, C, Co):
        return
    ev = []
    np.random.seed(seed)
    B = call(funs.map_problem, Xf, Qf, fl(d) - noise, box, sd=float(sd))
    if isinstance(B, Raised):
        ev.append({"op": "sample", "which": "post", "by": "map_problem", "obs": obs(B)})
    else:
        if rng.random() < 0.5:
            call(B.set_prior, gaussian(rng, m, C))
            o = call(B.map_point)
            ev.append({"op": "sample", "which": "post", "by": "map_problem", "obs": obs(o)})
        else:
            bayes_events(ctx, ev, B, norm(fl(d), float(sd)), gaussian(rng, m, C), n, "map_problem")
    ctx.case("T_Views", dict(common, kind="data", op=Fm(op), live=list(range(1, n + 1)), ev=[{"op": "ask"}] + ev))


def groups(ctx):
    """several quantities of interest of linear predictions through the wrapper and the linear class"""
    rng = ctx.rng
    di = rng.choice([2, 2, 3])
    K = rng.randint(2, di)
    share = rng.random() < 0.7
    sd = rng.choice([Fr(1), Fr(2), Fr(1, 2)])
    qs = []
    for _ in range(K):
        N = rng.choice([1, 2, 2, 3, 4])
        rep = rng.random() < 0.4
        op = [[Fr(rng.choice([-1, 0, 1, 1, 2])) for _ in range(di)] for _ in range(1 if rep else N)]
        d = [Fr(rng.randint(-4, 5), rng.choice([1, 2])) for _ in range(N)]
        qs.append((op, d, sd if share else rng.choice([Fr(1), Fr(2), Fr(1, 2)])))
    Ns = [len(q[1]) for q in qs]
    rows = [q[0] * N if len(q[0]) == 1 else q[0] for q, N in zip(qs, Ns)]
    raw = [[sum(r[j] / q[2] for r in R) for j in range(di)] for q, R in zip(qs, rows)]
    rb = [-sum(x / q[2] for x in q[1]) for q in qs]
    if np.linalg.matrix_rank(fl(raw)) < K:
        return
    m = [Fr(rng.randint(-2, 3)) for _ in range(di)]
    C = dcov(rng, di)
    Nn = [[Fr(Ns[i]) if i == j else Fr(0) for j in range(K)] for i in range(K)]
    z = [Fr(0)] * K
    X = samples(rng, di, [exact_mud(raw, rb, z, m, C) if rng.random() < 0.8 else None])
    if not safe(X, raw, rb, z, m, C, Nn):
        return
    n = len(X)
    w, live = weights(rng, n)
    Xf, ev, s = fl(X), [], np.sqrt(np.array(Ns, float))
    if share:
        flat = [r for R in rows for r in R]
        data = np.array([float(x) for q in qs for x in q[1]])
        pos = list(range(len(flat)))  # columns in any order, the groups tell them apart
        rng.shuffle(pos)
        at = {p: i for i, p in enumerate(pos)}
        k0, split = 0, []
        for N in Ns:
            g = [at[p] for p in range(k0, k0 + N)]
            split.append(np.array(g))
            k0 += N
        Q = (Xf @ fl(flat).T)[:, pos]
        data = data[pos]
        seed = rng.randrange(10000)
        np.random.seed(seed)
        noise = np.random.RandomState(seed).randn(len(pos)) * float(sd)
        box = np.array([[min(c) - 1, max(c) + 1] for c in Xf.T])
        kw = {} if w is None else {"weights": w}
        D = call(funs.mud_problem, Xf, Q, data - noise, box, sd=float(sd), split=split, **kw)
        if isinstance(D, Raised) or np.shape(D.y) != (n, K):
            ev.append({"op": "qoi", "by": "mud_problem", "sign": F(1), "obs": obs(D)})
        else:
            ev.append({"op": "qoi", "by": "mud_problem", "sign": F(1), "obs": obs(np.asarray(D.y) * s)})
            g = dict(A=[[float(v) / t for v in r] for r, t in zip(raw, s)], b=[float(v) / t for v, t in zip(rb, s)], y=z,
                     Co=[[Fr(int(i == j)) for j in range(K)] for i in range(K)])
            density_events(ctx, ev, D, g, live, "mud_problem", m, C)
    sds = float(sd) if share and rng.random() < 0.6 else [float(q[2]) for q in qs]
    L = call(LWP, [fl(q[0]) for q in qs], [fl(q[1]) for q in qs], sds, mean_i=col(m), cov_i=fl(C))
    ev.append({"op": "solve", "method": "mud", "by": "LinearWME", "obs": obs(call(lambda: L.solve()))})
    ev.append({"op": "solve", "method": "mud", "by": "LinearWME:alt", "obs": obs(call(lambda: L.solve("mud_alt")))})
    ev.append({"op": "solve", "method": "map", "by": "LinearWME", "obs": obs(call(lambda: L.solve("map")))})
    ev.append({"op": "values", "which": "up", "by": "LinearWME:dc", "obs": obs(call(lambda: L.compute_functionals(Xf, "dc")))})
    ev.append({"op": "values", "which": "post", "by": "LinearWME:bayes", "obs": obs(call(lambda: L.compute_functionals(Xf, "bayes")))})
    ev.append({"op": "cov", "which": "up", "by": "LinearWME", "obs": obs(call(lambda: L.updated_cov()))})
    ctx.case("T_Views", dict(kind="groups", m=Fv(m), C=Fm(C), X=Fm(X), live=[i + 1 for i in live],
                             qs=[dict(op=Fm(q[0]), d=Fv(q[1]), sd=Fv([q[2]] * N)) for q, N in zip(qs, Ns)],
                             ev=[{"op": "ask"}] + ev))


def safe_b(X, A, y, m, C, Co):
    X, A, y, m, C, Co = fl(X), fl(A), fl(y), fl(m), fl(C), fl(Co)
    q = lambda R, S: np.einsum("ij,jk,ik->i", R, np.linalg.inv(S), R)
    return max(q(X - m, C).max(), q(X @ A.T - y, Co).max()) < 500


def c21_traces(ctx):
    for _ in range(ctx.scale(260, 3500)):
        plain(ctx)
        if ctx.rng.random() < 0.8:
            wme(ctx)
        if ctx.rng.random() < 0.4:
            groups(ctx)


def spd(gn, n):
    L = gn.normal(size=(n, n))
    return L @ L.T / n + np.eye(n) * gn.uniform(0.2, 1)


def c21_large(ctx):
    """Larger random problems, decided by the same relations numerically."""
    rng = ctx.rng
    for _ in range(ctx.scale(120, 1500)):
        gn = np.random.default_rng(rng.randrange(2**31))
        di = rng.choice([1, 2, 3, 5, 8])
        ns = rng.randint(1, min(di, 4))
        n = rng.choice([5, 40, 300])
        A, b, y, m = gn.normal(size=(ns, di)), gn.normal(size=ns), gn.normal(size=ns), gn.normal(size=di)
        C, Co = spd(gn, di), spd(gn, ns)
        if np.linalg.cond(A @ C @ A.T) > 1e4:
            continue
        X = gn.multivariate_normal(m, C, size=n) if rng.random() < 0.6 else m + gn.uniform(-2, 2, (n, di))
        P = LGP(A, b=b.reshape(-1, 1), y=y.reshape(-1, 1), mean_i=m.reshape(-1, 1), cov_i=C, cov_o=Co)
        det = lambda: dict(A=A.tolist(), b=b.tolist(), y=y.tolist(), m=m.tolist(), C=C.tolist(), Co=Co.tolist(), n=n, X=X[:10].tolist())
        mud, map_ = call(P.solve), call(P.solve, "map")
        alt = call(P.solve, "mud_alt")
        if any(isinstance(v, Raised) for v in (mud, map_, alt)):
            ctx.direct(False, "large:solve", det)
            continue
        K = C @ A.T @ np.linalg.inv(A @ C @ A.T)
        S = C - K @ (A @ C @ A.T - Co) @ K.T
        mu = m + K @ (y - b - A @ m)
        Po = np.linalg.inv(A.T @ np.linalg.inv(Co) @ A + np.linalg.inv(C))
        mp = m + Po @ A.T @ np.linalg.inv(Co) @ (y - b - A @ m)
        for put, at in ((rng.random() < 0.6, mu), (rng.random() < 0.6, mp)):
            if put:
                X[rng.randrange(n)] = at
        q = lambda R, M: np.einsum("ij,jk,ik->i", R, np.linalg.inv(M), R)
        up, po = q(X - mu, S), q(X - mp, Po)
        Y = X @ A.T + b
        D, B = DensityProblem(X, Y), BayesProblem(X, Y)
        D.set_initial(Gauss(m, C))
        D.set_observed(Gauss(y, Co))
        D.set_predicted(multivariate_normal(A @ m + b, A @ C @ A.T))
        log = rng.random() < 0.5
        B.set_prior(Gauss(m, C))
        B.set_likelihood(Gauss(y, Co), log=log)
        big = max(v.max() for v in (q(X - m, C), q(Y - y, Co), q(Y - A @ m - b, A @ C @ A.T))) > 500
        if big:
            continue
        for v, o, by in ((up, call(D.mud_point), "density"), (po, call(B.map_point), "bayes")):
            ok = not isinstance(o, Raised) and np.shape(o) == (di,)
            k = [i for i in range(n) if ok and np.array_equal(X[i], o)]
            ctx.direct(bool(k) and v[k[0]] <= v.min() + 1e-9, "large:sample:" + by, det)
        ratio = np.exp(-0.5 * (q(Y - y, Co) - q(Y - A @ m - b, A @ C @ A.T))) * np.sqrt(
            np.linalg.det(A @ C @ A.T) / np.linalg.det(Co))
        ctx.direct(close(call(D.expected_ratio), ratio.mean(), rtol=1e-6), "large:expected-ratio", det)
        for t, v, at in (("dc", up, mud), ("bayes", po, map_)):
            f, f0 = call(P.compute_functionals, X, t), call(P.compute_functionals, np.asarray(at).T, t)
            ok = not isinstance(f, Raised) and not isinstance(f0, Raised)
            ctx.direct(ok and close(f - f0[0], v, rtol=1e-6, atol=1e-7), "large:gap:" + t, det)
        ctx.direct(close(np.ravel(mud), mu) and close(np.ravel(alt), mu, rtol=1e-6, atol=1e-7) and close(P.up_cov, S, rtol=1e-6, atol=1e-8),
                   "large:closed", det)
        # prior-orthogonal rows: one pass, wherever the origin of the parameters lies
        off = gn.normal(size=di) * rng.choice([0, 1, 100, 5000])
        L = np.linalg.cholesky(C)
        Q = np.linalg.qr(gn.normal(size=(di, di)))[0][:ns] * gn.uniform(0.5, 2, (ns, 1))
        Ao = Q @ np.linalg.inv(L)
        o = list(gn.permutation(ns))
        bo, mo = b - Ao @ off, m + off
        one = call(lambda: ILP(Ao, bo, y=y, mu_i=mo, cov=C, idx_order=o).solve())
        d = call(lambda: LGP(Ao, b=bo.reshape(-1, 1), y=y.reshape(-1, 1), mean_i=mo.reshape(-1, 1), cov_i=C).solve())
        ok = not isinstance(one, Raised) and not isinstance(d, Raised) and np.shape(one) == np.shape(d)
        ctx.direct(ok and close(np.ravel(one) - off, np.ravel(d) - off, 1e-6, 1e-7), "large:one-pass", det)
        f = call(funs.iter_lin_solve, Ao, bo, y=y, mean=mo, cov=C, idx_order=o)
        ctx.direct(not isinstance(f, Raised) and close(np.ravel(f) - off, np.ravel(d) - off, 1e-6, 1e-7), "large:one-pass", det)
