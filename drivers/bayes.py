"""BayesProblem: recorded histories (T_Bayes) and replay of MC_Bayes's labelled steps."""
import copy
import json
import os
from fractions import Fraction as Fr

import numpy as np
from scipy.stats import distributions as dist
from scipy.stats import gaussian_kde

from density import AFF, Scenario, encd, gen_problem, near_max, none_obs, realise, scipy_over, tab_over
from enc import F, Fm, Raised, call, close, fl, obs, typed
from mud.base import BayesProblem


def c05_traces(ctx):
    rng = ctx.rng
    for it in range(ctx.scale(700, 7000)):
        n, p, d, X, y = gen_problem(rng)
        rec = dict(X=Fm(X), y=Fm(y), domain=[])
        kw = {}
        if rng.random() < 0.5:
            box = [[min(r[j] for r in X) - rng.choice([0, 1]), max(r[j] for r in X) + rng.choice([0, 1, 2])]
                   for j in range(p)]
            if rng.random() < 0.06:
                box.append([Fr(0), Fr(1)])
            if rng.random() < 0.2:  # bounds in either order
                box = [b[::-1] if rng.random() < 0.6 else b for b in box]
            rec["domain"] = Fm(box)
            v = fl(box)
            if len(box) == 1 and rng.random() < 0.5:
                v = v[0]
            kw["domain"] = v.tolist() if rng.random() < 0.5 else v
        a = lambda M: fl(M).tolist() if rng.random() < 0.3 else typed(rng, fl(M), 0.6)
        P = call(BayesProblem, a(X), a(y), **kw)
        ev = [{"op": "new", "obs": none_obs(P)}]
        if not isinstance(P, Raised):
            if rng.random() < 0.3:
                ev.append({"op": "shape", "obs": obs(call(lambda: [P.n_params, P.n_features, P.n_samples]))})
                ev.append({"op": "domain", "obs": obs(call(lambda: np.array(P.domain)))})
            if rng.random() < 0.05:
                ev.append({"op": "map_point", "obs": obs(call(P.map_point))})
            for k in range(rng.choice([1, 2, 3, 4])):
                ops = ["likelihood"] if k == 0 else [rng.choice(["likelihood", "prior"])]
                if k == 0 and rng.random() < 0.7:
                    ops.append("prior")
                    rng.shuffle(ops)
                for o in ops:
                    if o == "prior":
                        if rng.random() < 0.2:
                            ev.append({"op": "prior", "d": {"k": "none"}, "obs": none_obs(call(P.set_prior))})
                            continue
                        dd = tab_over(rng, [v for r in X for v in r], rng.choice([0.1, 0.5])) if rng.random() < 0.5 \
                            else scipy_over(rng, X, rng.random() < 0.7)
                        ev.append({"op": "prior", "d": encd(dd), "obs": none_obs(call(P.set_prior, realise(dd)))})
                    else:
                        dd = tab_over(rng, [v for r in y for v in r], rng.choice([0, 0.1, 0.5])) \
                            if rng.random() < 0.5 else scipy_over(rng, y, rng.random() < 0.7)
                        if rng.random() < 0.04:
                            dd = {"k": "tab", "tab": [[v, Fr(0)] for v, _ in dd.get("tab", [[Fr(0), 0]])]}
                        log = rng.random() < 0.5
                        kk = {"log": log} if log or rng.random() < 0.5 else {}
                        ev.append({"op": "likelihood", "d": encd(dd), "log": log,
                                   "obs": none_obs(call(P.set_likelihood, realise(dd), **kk))})
                for o in rng.sample(["fit", "map_point", "estimate"], rng.choice([0, 1, 2])):
                    r = call(getattr(P, o))
                    ev.append({"op": o, "obs": none_obs(r) if o == "fit" else obs(r)})
            for o in ("map_point", "estimate"):
                ev.append({"op": o, "obs": obs(call(getattr(P, o)))})
            ev.append({"op": "X", "obs": obs(np.array(P.X))})
        rec["ev"] = ev
        ctx.case("T_Bayes", rec)


class Masked:
    """A density that is zero at given first-component values (and its row)."""

    def __init__(self, base, vals):
        self.base, self.vals = base, np.array(vals)

    def pdf(self, y):
        v = np.array(self.base.pdf(y), dtype=float)
        v[np.isin(np.asarray(y)[:, 0], self.vals)] = 0.0
        return v

    def logpdf(self, y):
        with np.errstate(divide="ignore"):
            return np.log(self.pdf(y))


class Sc(Scenario):
    def __init__(self, rng, n, p, d):
        super().__init__(rng, n, p, d)
        med = float(np.median(self.X[:, 0]))
        low = self.X[:, 0] < med
        p0 = dist.uniform(loc=[-1.5] + [-2.0] * (p - 1), scale=[med + 1.5 - 1e-9] + [5.0] * (p - 1))
        self.D.update(p1=dist.norm(loc=0.4, scale=1.2), p2=dist.triang(0.3, loc=-4, scale=9),
                      p0=p0,  # zero on half of the samples, l9 on the other half
                      l1=dist.norm(loc=np.linspace(0.5, 1.5, d), scale=0.7), l2=dist.cauchy(loc=0.3),
                      l0=dist.uniform(90, 1), l9=Masked(dist.norm(loc=0.2, scale=1.5), self.y[low, 0]))

    def new(self):
        return BayesProblem(self.X.copy(), self.y.copy(), domain=None if self.domain is None else self.domain.copy())

    def prior(self, t):
        if t["k"] == "defprior":
            return dist.uniform(loc=self.box[:, 0], scale=self.box[:, 1] - self.box[:, 0])
        return self.D[t["id"]]

    def post(self, a):
        return self.prior(a["pr"]).pdf(self.X).prod(axis=1) * self.D[a["ll"]["id"]].pdf(self.y).prod(axis=1)

    def apply(self, P, op):
        o, a = op["op"], op["a"]
        if o == "prior":
            return call(P.set_prior) if a == "def" else call(P.set_prior, self.D[a])
        if o == "likelihood":
            return call(P.set_likelihood, self.D[a], log=op["log"])
        if o.startswith("plot"):
            return call(lines, P, o, self)
        return call(getattr(P, o))


def lines(P, which, sc):
    from matplotlib import pyplot as plt

    fig, ax = plt.subplots()
    try:
        if which == "plot_param":
            P.plot_param_space(param_idx=sc.p - 1, ax=ax, aff=AFF, x_range=sc.box.copy(), true_val=np.arange(sc.p) + 0.25)
        else:
            P.plot_obs_space(obs_idx=sc.d - 1, ax=ax, aff=AFF, y_range=sc.yrange())
        return [(np.array(l.get_xdata(), dtype=float), np.array(l.get_ydata(), dtype=float)) for l in ax.lines]
    finally:
        plt.close(fig)


def prop_to(a, b):
    """equal up to a positive factor"""
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.all(np.isfinite(a)) and a.sum() > 0 and close(a / a.sum(), b / b.sum(), 1e-6, 1e-12)


def check(ctx, sc, P, e, res, where):
    op, a = e["op"]["op"], e["ask"]

    def det():
        return dict(op=e["op"], got=repr(res), term=a, where=where, X=sc.X.tolist(), y=sc.y.tolist())

    if e["refused"]:
        ctx.direct(isinstance(res, Raised), "refused:" + op, det)
    elif isinstance(res, Raised):
        ctx.direct(False, "accepted:" + op, det)
    elif op in ("map_point", "estimate"):
        ctx.direct(near_max(sc.post(a), res, sc.X), op, det)
    elif op == "plot_param":
        w = sc.post(a)
        x, v = sc.marginal(lambda g: sc.prior(a["pr"]).pdf(g.T).prod(axis=1), sc.box, sc.p - 1, AFF)
        _, v2 = sc.marginal(gaussian_kde(sc.X.T, weights=w), sc.box, sc.p - 1, AFF)
        ls = res
        ctx.direct(len(ls) == 4 and close(ls[0][0], x) and close(ls[0][1], v) and close(ls[1][0], x)
                   and close(ls[1][1], v2, 1e-6), "plot_param:prior-and-posterior", det)
        ctx.direct(len(ls) == 4 and any(close(ls[2][0], [X[sc.p - 1]] * 2) for X in sc.X if near_max(w, X, sc.X))
                   and close(ls[3][0], [sc.p - 1 + 0.25] * 2), "plot_param:lines", det)
    elif op == "plot_obs":
        w = sc.post(a)
        box = sc.yrange()
        x, v = sc.marginal(lambda g: sc.D[a["ll"]["id"]].pdf(g.T).prod(axis=1), box, sc.d - 1, AFF)
        _, v2 = sc.marginal(gaussian_kde(sc.y.T, weights=w), box, sc.d - 1, AFF)
        ls = res
        ctx.direct(len(ls) == 2 and close(ls[0][0], x) and close(ls[1][0], x) and prop_to(ls[0][1], v)
                   and prop_to(ls[1][1], v2), "plot_obs:likelihood-and-posterior", det)
    # the question asked next
    m = call(P.map_point)
    if a["k"] == "none":
        ctx.direct(isinstance(m, Raised), "next:refused", det)
    else:
        ctx.direct(not isinstance(m, Raised) and near_max(sc.post(a), m, sc.X), "next:map_point", det)


def c05_edges(ctx):
    E = [json.loads(x) for x in open(os.path.join(ctx.work, "bayes.edges"))]
    key = lambda s: json.dumps(s, sort_keys=True)
    out = {}
    for e in E:
        out.setdefault(key(e["from"]), []).append(e)
    none = {"k": "none"}
    init = next(k for k, v in out.items() if v[0]["from"] == dict(Pr=none, LL=none, Ps=none))
    sub = ctx.scale(0.3, 1.0)
    for (n, p, d) in ctx.scale([(7, 1, 1), (9, 2, 2)], [(7, 1, 1), (9, 2, 2), (12, 2, 1), (14, 1, 3), (20, 3, 2)]):
        sc = Sc(ctx.rng, n, p, d)
        objs = {init: (sc.new(), [])}
        frontier = [init]
        while frontier:
            nxt = []
            for s in frontier:
                P0, path = objs[s]
                for e in out.get(s, []):
                    if e["op"]["op"].startswith("plot") and ctx.rng.random() > sub:
                        continue
                    P = copy.deepcopy(P0)
                    res = sc.apply(P, e["op"])
                    t = key(e["to"])
                    if t not in objs and isinstance(res, Raised) == e["refused"]:
                        objs[t] = (copy.deepcopy(P), path + [e["op"]])
                        nxt.append(t)
                    check(ctx, sc, P, e, res, path)
            frontier = nxt
        ctx.notes[f"bayes states reached n={n} p={p} d={d}"] = len(objs)
        P, s, log = sc.new(), init, []
        for _ in range(ctx.scale(250, 3000)):
            e = ctx.rng.choice(out[s])
            if e["op"]["op"].startswith("plot") and ctx.rng.random() > 0.3:
                continue
            res = sc.apply(P, e["op"])
            log.append(e["op"])
            s = key(e["to"])
            if e["op"]["op"] in ("map_point", "estimate", "fit"):
                check(ctx, sc, P, e, res, {"walk": log[-12:]})
            else:
                ctx.direct(isinstance(res, Raised) == e["refused"], "outcome:" + e["op"]["op"],
                           {"walk": log[-12:], "res": repr(res)})


def c05_many(ctx):
    """Many observables: only logarithms can tell the samples apart, and they do."""
    for _ in range(ctx.scale(30, 300)):
        rng = ctx.rng
        g = np.random.default_rng(rng.randrange(2**31))
        n, d, p = rng.choice([3, 10, 40]), rng.choice([5, 60, 900]), rng.choice([1, 2])
        if rng.random() < 0.15:
            n, d = 3000, rng.choice([1, 5])
        X = g.uniform(0, 1, (n, p))
        if rng.random() < 0.3:  # hardly different samples
            X = X[:1] + np.outer(g.uniform(-1, 1, n), g.uniform(-1, 1, p)) * rng.choice([1e-5, 1e-7])
        A = g.normal(size=(p, d))
        y = X @ A
        data = (g.uniform(0, 1, p) @ A) + 0.1 * g.normal(size=d)
        sd = rng.choice([0.1, 0.05, g.uniform(0.05, 0.3, d)])
        P = call(BayesProblem, X, y, [[0, 1]] * p)
        ll = dist.norm(loc=data, scale=sd)
        r = call(P.set_likelihood, ll, log=True)
        best = ll.logpdf(y).sum(axis=1)
        slack = 1e-12 * np.abs(ll.logpdf(y)).sum(axis=1).max()  # rounding of the sums
        m = call(P.map_point)
        det = lambda: dict(X=X.tolist(), y=y.tolist(), data=data.tolist())
        ctx.direct(not isinstance(r, Raised) and not isinstance(m, Raised)
                   and any(np.array_equal(m, X[i]) for i in range(n) if best[i] >= best.max() - slack),
                   "log:largest", det)
        plain = ll.pdf(y).prod(axis=1)
        call(P.set_likelihood, ll)
        m2 = call(P.map_point)
        if plain.max() == 0:
            ctx.direct(isinstance(m2, Raised), "plain:vanishing-refused", det)
        elif 1e-250 < plain.max() < 1e250:  # otherwise the product leaves the range of floating point
            ok = not isinstance(m2, Raised) and any(np.array_equal(m2, X[i]) for i in range(n) if best[i] >= best.max() - 10 * slack)
            ctx.direct(ok, "log=plain", det)
