"""One-call wrappers (T_Wrap) and their class-level spellings."""
from fractions import Fraction as Fr

import numpy as np
from scipy.stats import norm, uniform

from bayes import lines as bayes_lines
from density import AFF
from enc import F, Fm, Fv, Raised, call, close, fl, obs
from mud import funs
from mud.base import BayesProblem, DensityProblem, SpatioTemporalProblem as STP
from spatio import Setup, decode, realv

SD = [Fr(1), Fr(1, 2), Fr(2), Fr(1, 4)]


def gen(rng):
    n, p, d = rng.choice([2, 3, 4, 6]), rng.choice([1, 1, 2, 3]), rng.choice([1, 2, 3, 4, 6, 9])
    X = [[Fr(rng.randint(0, 8), 4) for _ in range(p)] for _ in range(n)]
    Q = [[Fr(rng.randint(-8, 9), 2) for _ in range(d)] for _ in range(n)]
    t = [Fr(rng.randint(-8, 9), 2) for _ in range(d)]
    box = [[Fr(rng.choice([0, 0, 0, Fr(1, 8)])), Fr(rng.choice([2, 2, 3, Fr(13, 8)]))] for _ in range(p)]
    return n, p, d, X, Q, t, box


def flat1(rng, M):
    a = fl(M)
    return a[:, 0] if a.shape[1] == 1 and rng.random() < 0.5 else a


def nobs_arg(rng, d):
    """-> (given, number)"""
    z = rng.random()
    if z < 0.3:
        return False, 0
    if z < 0.9:
        return True, rng.randint(1, d)
    return True, rng.choice([0, -1, d + 1, d + 3])


def true_arg(rng, t):
    a = fl(t)
    return a if rng.random() < 0.6 else a.tolist()


def c15_traces(ctx):
    rng = ctx.rng
    for it in range(ctx.scale(500, 6000)):
        n, p, d, X, Q, t, box = gen(rng)
        sd = rng.choice(SD)
        rec = dict(X=Fm(X), Q=Fm(Q), t=Fv(t), sd=F(sd), domain=Fm(box))
        ev = []
        for k in range(rng.choice([1, 2, 2, 3])):
            given, nobs = nobs_arg(rng, d)
            kw = {"num_obs": nobs} if given else ({"num_obs": None} if rng.random() < 0.3 else {})
            seed = rng.randrange(10000)
            N = nobs if given else d
            z = np.random.RandomState(seed).randn(max(N, 0))
            args = (flat1(rng, X), flat1(rng, Q), true_arg(rng, t), fl(box) if rng.random() < 0.6 else fl(box).tolist())
            if rng.random() < 0.65:
                split, groups = [], None
                if rng.random() < 0.5:
                    groups = []
                    for g in range(rng.choice([1, 2, 3])):
                        idx = [rng.randrange(d) for _ in range(rng.choice([1, 2, 3]))] if rng.random() < 0.3 else \
                            rng.sample(range(d), rng.randint(1, d))
                        if rng.random() < 0.6:
                            idx.sort()
                        if N >= 1 and not any(i < N for i in idx):
                            idx.append(rng.randrange(min(N, d)))
                        groups.append(idx)
                    split = [[i + 1 for i in g] for g in groups]
                    kw["split"] = [np.array(g) for g in groups]
                np.random.seed(seed)
                kw["sd"] = float(sd)
                D = call(funs.mud_problem, *args, **kw)
                if isinstance(D, Raised):
                    o = obs(D)
                    e = dict(X=o, y=o, domain=o)
                else:
                    y = np.asarray(D.y, float)
                    G = [[i for i in g if i < N] for g in groups] if groups else [list(range(N))]
                    if y.ndim == 2 and y.shape[1] == len(G):
                        y = y * np.sqrt([len(g) for g in G]) + np.array([z[g].sum() for g in G])
                    e = dict(X=obs(D.X), y=obs(y), domain=obs(D.domain))
                ev.append(dict(e, op="mud", given=given, nobs=nobs, split=split))
            else:
                np.random.seed(seed)
                kw["sd"] = float(sd)
                if rng.random() < 0.4:
                    kw["log"] = rng.random() < 0.7
                B = call(funs.map_problem, *args, **kw)
                if isinstance(B, Raised):
                    o = obs(B)
                    ev.append(dict(op="map", given=given, nobs=nobs, X=o, y=o, domain=o, pt=o, d=[], slack=[0, 1]))
                    continue
                data = fl(t)[:N] + float(sd) * z
                dr = [Fr(round(v * 64), 64) for v in data]
                slack = Fr(0)
                for q in Q:
                    slack = max(slack, sum((abs(a - b) * 2 + Fr(1, 64)) / 128 for a, b in zip(q, dr)))
                ev.append(dict(op="map", given=given, nobs=nobs, X=obs(B.X), y=obs(B.y), domain=obs(B.domain),
                               pt=obs(call(B.map_point)) if sane(X, Q, data, box, float(sd)) else {"k": "skip"}, d=Fv(dr), slack=F(2 * Fr(round(slack * 64) + 1, 64))))
        if rng.random() < 0.5:
            ev.append(data_prob_event(ctx))
        ctx.case("T_Wrap", dict(rec, ev=ev))


def sane(X, Q, data, box, sd):
    """the likelihood of the best admissible sample is a representable number"""
    ins = [i for i, x in enumerate(X) if all(a <= v <= b for v, (a, b) in zip(x, box))]
    ll = norm(loc=data, scale=sd).logpdf(fl(Q)[:, : len(data)]).sum(axis=1)
    return not ins or max(ll[i] for i in ins) > -500


def data_prob_event(ctx):
    rng = ctx.rng
    S = Setup(rng, n=rng.choice([3, 4, 5]))
    ds, kw = [], {}
    for f, nm in (("lam", "lam"), ("data", "qoi"), ("true_vals", "qoi_true"), ("measurements", "measurements"), ("std_dev", "std_dev"),
                  ("sample_dist", "sample_dist"), ("domain", "domain"), ("lam_ref", "lam_ref"), ("times", "times"),
                  ("sensors", "sensors")):
        if f == "sample_dist":
            ds.append({"n": f, "v": {"k": "str", "s": "u"}})
            continue
        if f in ("true_vals", "lam_ref", "domain") and rng.random() < 0.5 or rng.random() < 0.03 and f in ("measurements", "times"):
            continue
        if f == "lam_ref" and "domain" not in kw:
            continue
        v = S.variant(rng, f) if rng.random() < 0.97 or f in ("lam", "data", "std_dev", "times", "sensors") else S.broken(rng, f)
        ds.append({"n": f, "v": v})
        kw[nm] = realv(rng, f, v)
    init = uniform(loc=-100, scale=300)
    D = call(funs.data_prob, init_dist=init, **kw)
    if isinstance(D, Raised):
        if D.name in ("LinAlgError",):  # kernel density of degenerate values
            P = STP()
            call(P.load, dict((x["n"], decode(x["v"])) for x in ds))
            D = call(P.mud_problem, method="wme")
        else:
            o = obs(D)
            return dict(op="data_prob", ds=ds, X=o, y=o, domain=o)
    K = 1
    for x in ds:
        if x["n"] == "data":
            K = x["v"]["shape"][1] * (x["v"]["shape"][2] if len(x["v"]["shape"]) == 3 else 1) if len(x["v"]["shape"]) > 1 else 1
    y = obs(D) if isinstance(D, Raised) else obs(np.asarray(D.y) * np.sqrt(K))
    if isinstance(D, Raised):
        return dict(op="data_prob", ds=ds, X=y, y=y, domain=y)
    return dict(op="data_prob", ds=ds, X=obs(D.X), domain=obs(D.domain), y=y)


def answers(D):
    return [call(D.mud_point), call(D.expected_ratio), call(D.estimate)]


def same(a, b):
    return all(type(x) is type(y) if isinstance(x, Raised) or isinstance(y, Raised) else close(x, y, 1e-9) for x, y in zip(a, b))


def c15_classes(ctx):
    rng = np.random.default_rng(ctx.seed + 15)
    for it in range(ctx.scale(160, 1500)):
        n, p, d = int(rng.integers(8, 40)), int(rng.integers(1, 4)), int(rng.integers(1, 9))
        if it % 5 == 3:
            d = int(rng.integers(9, 31))
        if it % 20 == 19:
            n, d = [(1100, 3), (30, 70), (12, 400)][it // 20 % 3]
        X = rng.uniform(0, 1, (n, p))
        Q = X @ rng.normal(size=(p, d)) + 0.2 * rng.normal(size=(n, d))
        t = rng.normal(size=d)
        box = np.array([[-0.1, 1.2]] * p)
        sd = float(rng.uniform(0.05, 1.5))
        N = int(rng.integers(1, d + 1))
        seed = int(rng.integers(0, 99999))
        if it % 5 == 3:  # data and prior say about as much as each other: the level counts
            n, p, sd, N = 150, 1, 0.6, d
            X = rng.uniform(0, 1, (n, 1))
            G = rng.normal(size=(1, d))
            G *= sd / (0.3 * np.linalg.norm(G))
            Q, t, box = X @ G, 0.9 * G[0], box[:1]
        kw = {} if N == d and rng.random() < 0.5 else {"num_obs": N}
        if sd > 1.2:
            sd = 0.05
        else:
            kw["sd"] = sd
        np.random.seed(seed)
        data = t[:N] + np.random.randn(N) * sd
        w = rng.uniform(0.2, 2, n) if rng.random() < 0.5 else None
        wa = None if w is None else w.tolist() if rng.random() < 0.5 else w
        if rng.random() < 0.5 and d > 1:
            g1 = rng.permutation(d)[: int(rng.integers(1, d + 1))]
            g2 = rng.permutation(d)[: int(rng.integers(1, d + 1))]
            groups = [g for g in (g1, g2) if np.any(g < N)] or [np.arange(d)]
            q = np.array([[(Q[i, g[g < N]] - data[g[g < N]]).sum() / (sd * np.sqrt((g < N).sum())) for g in groups] for i in range(n)])
            k2 = dict(kw, split=groups)
        else:
            q = ((Q[:, :N] - data) / (sd * np.sqrt(N))).sum(axis=1).reshape(-1, 1)
            k2 = kw
        np.random.seed(seed)
        D = call(funs.mud_problem, X, Q, t, box, weights=wa, **k2)
        det = lambda: dict(seed=seed, N=N, d=d, sd=sd, kw=repr(k2), D=repr(D), y=repr(getattr(D, "y", None)), want=q.tolist())
        ok = not isinstance(D, Raised) and close(D.y, q) and close(D.X, X) and close(D.domain, box)
        ctx.direct(ok, "mud-wrapper", det)
        after = np.random.get_state()[1][:5].tolist(), np.random.rand()
        np.random.seed(seed)
        np.random.randn(N)
        ctx.direct(after[1] == np.random.rand(), "noise-drawn-once-per-datum", det)
        if ok and (q.shape[1] == 1 or abs(np.corrcoef(q.T)[0, 1]) < 0.999):
            G = DensityProblem(X, q, box, weights=w)
            ctx.direct(same(answers(D), answers(G)), "mud-wrapper-answers", det)
            for Z in (D, G):
                call(Z.set_initial, norm(0.4, 0.8))
                call(Z.set_observed, norm(0.2, 1.3))
            ctx.direct(same(answers(D), answers(G)), "mud-wrapper-answers", det)
        # MAP
        np.random.seed(seed)
        kb = dict(kw)
        if rng.random() < 0.5:
            kb["log"] = bool(rng.random() < 0.7)
        B = call(funs.map_problem, X if p > 1 or rng.random() < 0.5 else X[:, 0], Q, t, box, **kb)
        detb = lambda: dict(seed=seed, N=N, d=d, sd=sd, kw=repr(kb), B=repr(B))
        ok = not isinstance(B, Raised) and close(B.y, Q[:, :N]) and close(B.X, X) and close(B.domain, box)
        ctx.direct(ok, "map-wrapper", detb)
        if ok:
            for pr in (None, norm(rng.uniform(0, 1), 0.3), norm(0.2, 0.05), norm(0.1, 0.25)):
                if pr is not None:
                    call(B.set_prior, pr)
                lp = norm(loc=data, scale=sd).logpdf(Q[:, :N]).sum(axis=1) + (0 if pr is None else pr.logpdf(X).sum(axis=1))
                order = np.sort(lp)
                if order[-1] - order[-2] < 1e-9 * max(1, abs(order[-1])) or order[-1] < -600:
                    continue
                ctx.direct(close(call(B.map_point), X[np.argmax(lp)]), "map-wrapper-point", detb)
            if it % 4 == 0 and N <= 2:
                observed_curve(ctx, B, Q[:, :N], data, sd, detb)
    # shapes and numbers
    for nm, fn in (("mud", funs.mud_problem), ("map", funs.map_problem)):
        for bad in (0, -2, 4, 17):
            r = call(fn, X[:, :1], Q[:, :3] if d >= 3 else np.hstack([Q] * 3)[:, :3], np.ones(3), [[0, 1]], num_obs=bad)
            ctx.direct(isinstance(r, Raised) and r.name == "ValueError", nm + ":number-refused", lambda: dict(bad=bad, r=repr(r)))


def observed_curve(ctx, B, Q, data, sd, det):
    """the plotted likelihood is that of the noisy data"""
    from matplotlib import pyplot as plt

    fig, ax = plt.subplots()
    try:
        j = Q.shape[1] - 1
        yr = np.array([[q.min() - 1, q.max() + 1] for q in Q.T])
        r = call(B.plot_obs_space, obs_idx=j, ax=ax, aff=AFF, y_range=yr, pf_opts=None)
        if isinstance(r, Raised) or not ax.lines:
            ctx.direct(False, "map-wrapper-likelihood", lambda: dict(det(), r=repr(r)))
            return
        x, v = [np.array(f(), float) for f in (ax.lines[0].get_xdata, ax.lines[0].get_ydata)]
        w = norm(data[j], sd).pdf(x)
        ctx.direct(w.sum() < 1e-200 or close(v / v.sum(), w / w.sum(), 1e-6, 1e-9), "map-wrapper-likelihood",
                   lambda: dict(det(), x=x.tolist(), v=v.tolist()))
    finally:
        plt.close(fig)


def c15_data_prob(ctx):
    rng = np.random.default_rng(ctx.seed + 150)
    for it in range(ctx.scale(80, 800)):
        n, p, E, T = int(rng.integers(8, 40)), int(rng.integers(1, 4)), int(rng.integers(1, 4)), int(rng.integers(1, 5))
        K = E * T
        X = rng.uniform(0, 1, (n, p))
        Q = X @ rng.normal(size=(p, K)) + 0.2 * rng.normal(size=(n, K))
        meas = rng.normal(size=K)
        sd = float(rng.uniform(0.3, 3))
        kw = dict(measurements=meas, std_dev=sd, times=np.arange(T), sensors=np.arange(E))
        if rng.random() < 0.5:
            kw["domain"] = np.array([[0.0, 1.0]] * p)
        if rng.random() < 0.3:
            kw["qoi_true"] = meas + 1
        if rng.random() < 0.3:
            kw["sample_dist"] = ["u", "n"][int(rng.integers(0, 2))]
        init = None
        if rng.random() < 0.6:
            init = norm(0.5, 0.3) if rng.random() < 0.5 else uniform(loc=-0.5, scale=2)
            kw["init_dist"] = init
        method = "wme"
        if K > 2 and rng.random() < 0.4:
            method = ["pca", "svd"][int(rng.integers(0, 2))]
            kw["method"] = method
        D = call(funs.data_prob, X.copy(), Q.copy() if rng.random() < 0.6 else Q.reshape(n, E, T), **kw)
        det = lambda: dict(n=n, p=p, E=E, T=T, kw=repr(kw), D=repr(D))
        P = STP()
        P.load(dict(lam=X.copy(), data=Q.copy(), measurements=meas, std_dev=sd, times=np.arange(T), sensors=np.arange(E),
                    **({"domain": kw["domain"]} if "domain" in kw else {})))
        G = P.mud_problem(method=method)
        G.set_initial(init if init is not None else uniform(0, 1))
        G.set_observed(norm(0, 1))
        if isinstance(call(G.estimate), Raised):
            continue
        ok = not isinstance(D, Raised) and close(D.y, G.y) and close(D.X, X) and close(D.domain, G.domain)
        ctx.direct(ok, "data_prob", det)
        if ok:
            ctx.direct(same(answers(D), answers(G)), "data_prob-answers", det)
