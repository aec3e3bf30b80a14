"""DensityProblem: recorded histories (T_Density) and replay of MC_Density's labelled steps."""
import copy
import itertools
import json
import os
from fractions import Fraction as Fr

import numpy as np
from scipy.stats import distributions as dist
from scipy.stats import gaussian_kde

from enc import F, Fm, Fv, Raised, arr, call, close, fl, obs, typed
from mud.base import DensityProblem

ABSENT = {"k": "absent"}
NOW = {"k": "none", "rows": []}


# ------------------------------------------------------------- stub densities
class Tab:
    """Elementwise value -> density table."""

    def __init__(self, tab):
        self.t = {float(a): float(b) for a, b in tab}

    def pdf(self, x, factor=1.0):
        x = np.asarray(x, dtype=float)
        return np.array([self.t.get(float(v), 0.0) * factor for v in x.ravel()]).reshape(x.shape)

    def logpdf(self, x):
        with np.errstate(divide="ignore"):
            return np.log(self.pdf(x))


class Joint:
    """Density of a whole point: one number per row."""

    def __init__(self, rows):
        self.t = {tuple(float(a) for a in p): float(b) for p, b in rows}

    def pdf(self, x):
        return np.array([self.t.get(tuple(float(a) for a in r), 0.0) for r in np.atleast_2d(x)])


def realise(d):
    """distribution record (with Fractions) -> object with pdf()"""
    k = d["k"]
    if k == "none":
        return None
    if k == "tab":
        return Tab(d["tab"])
    if k == "joint":
        return Joint(d["rows"])
    loc = [float(x) for x in d["loc"]]
    sc = [float(x) for x in d["scale"]]
    loc = loc[0] if len(loc) == 1 else np.array(loc)
    sc = sc[0] if len(sc) == 1 else np.array(sc)
    if k == "unif":
        return dist.uniform(loc=loc, scale=sc)
    if k == "pow2":
        return dist.powerlaw(2, loc=loc, scale=sc)
    if k == "tri":
        cc = [float(x) for x in d["c"]]
        cc = cc[0] if len(cc) == 1 else np.array(cc)
        return dist.triang(cc, loc=loc, scale=sc)
    raise AssertionError(k)


def encd(d):
    """distribution record -> JSON"""
    o = {"k": d["k"]}
    for f in ("loc", "scale", "c"):
        if f in d:
            o[f] = Fv(d[f])
    if "tab" in d:
        o["tab"] = [Fv(t) for t in d["tab"]]
    if "rows" in d:
        o["rows"] = [[Fv(p), F(v)] for p, v in d["rows"]]
    return o


PV = [Fr(1, 2), Fr(1), Fr(2), Fr(3), Fr(4), Fr(3, 2)]


def tab_over(rng, vals, zeros=0.0):
    vals = sorted(set(vals))
    t = [[v, Fr(0) if rng.random() < zeros else rng.choice(PV)] for v in vals]
    if all(x[1] == 0 for x in t):
        t[0][1] = Fr(1)
    return {"k": "tab", "tab": t}


def scipy_over(rng, M, cover):
    """A scipy-backed rational density over the columns of M (cover: positive everywhere)."""
    cols = list(zip(*M))
    kind = rng.choice(["unif", "unif", "tri", "pow2"])
    per = len(cols) > 1 and rng.random() < 0.5
    groups = cols if per else [tuple(v for c in cols for v in c)]
    loc, sc, cc = [], [], []
    for g in groups:
        lo, hi = min(g), max(g)
        # densities that are zero exactly at an end of the support must not decide a case
        if cover:
            lo2 = lo - rng.choice([1, 2])
            w = hi - lo2 + rng.choice([1, 2, 3])
        else:
            lo2 = lo + rng.choice([Fr(-1), Fr(-1, 8), Fr(1, 8)])
            w = max(hi - lo2, Fr(0)) + rng.choice([Fr(1, 8), Fr(9, 8), Fr(1, 4)])
            w = w if w > 0 else Fr(1)
        loc.append(Fr(lo2))
        sc.append(Fr(w))
        cc.append(rng.choice([Fr(1, 2), Fr(1, 4)]))
    d = {"k": kind, "loc": loc, "scale": sc}
    if kind == "tri":
        d["c"] = cc
    return d


def joint_over(rng, M):
    rows = []
    for p in sorted(set(tuple(r) for r in M)):
        rows.append([list(p), rng.choice(PV)])
    return {"k": "joint", "rows": rows}


def square_weights(rng, n):
    """Integer weights with a rational 2-norm."""
    if rng.random() < 0.15 and round(n ** 0.5) ** 2 == n:  # equal ones
        return [Fr(rng.choice([1, 2, 5]))] * n
    for _ in range(2000):
        w = [rng.choice([0, 1, 1, 2, 2, 3, 4, 5, 6]) for _ in range(n)]
        s = sum(x * x for x in w)
        r = int(round(s ** 0.5))
        if s and r * r == s:
            return [Fr(x) for x in w]
    w = [Fr(0)] * n
    w[rng.randrange(n)] = Fr(2)
    return w


def gen_weights(rng, n, norm, bad=False):
    """-> (record, python value, normalize flag)"""
    m = n + rng.choice([-1, 1, 2]) if bad else n
    m = max(m, 1) if m != n else n + 1
    if not bad:
        m = n
    k = rng.choice([0, 0, 1, 2, 3])  # 0: 1-D
    if norm and not bad:
        if k <= 1:
            rows = [square_weights(rng, m)]
        else:
            sq = square_weights(rng, m)
            pat = [rng.choice([Fr(1), Fr(2), Fr(1, 2)]) for _ in range(m)]
            rows = [pat, [a / b for a, b in zip(sq, pat)]] + [[Fr(1)] * m for _ in range(k - 2)]
            rng.shuffle(rows)
    else:
        rows = [[rng.choice([Fr(0), Fr(1), Fr(1), Fr(2), Fr(1, 2), Fr(3)]) for _ in range(m)]
                for _ in range(max(k, 1))]
        if rng.random() < 0.25:  # the scale of the weights does not matter
            rows[0] = [x * rng.choice([Fr(1, 32), Fr(1, 64), Fr(16)]) for x in rows[0]] if rng.random() < 0.3 else [x / 32 for x in rows[0]]
        if not bad and all(any(r[i] == 0 for r in rows) for i in range(m)):
            j = rng.randrange(m)
            for r in rows:
                r[j] = Fr(1)
    val = fl(rows)
    if k == 0:
        val = val[0]
    if rng.random() < 0.5:
        val = val.tolist()
    return {"k": "rows", "rows": Fm(rows)}, val, norm


def gen_problem(rng, pmax=3, dmax=3, nmax=7):
    n, p, d = rng.randint(2 if nmax < 100 else nmax * 9 // 10, nmax), rng.randint(1, pmax), rng.randint(1, dmax)
    whole = rng.random() < 0.15  # counts
    X = [[Fr(rng.randint(0, 9)) if whole else Fr(rng.randint(-6, 10), 4) for _ in range(p)] for _ in range(n)]
    for j in range(p):  # every parameter varies
        if len(set(r[j] for r in X)) == 1:
            X[0][j] += 1 if whole else Fr(1, 2)
    yv = [Fr(k, 2) for k in range(-3, 5)]
    if whole:
        yv = [Fr(k) for k in range(7)]
    y = [[rng.choice(yv) for _ in range(d)] for _ in range(n)]
    return n, p, d, X, y


def shaped(rng, M):
    """A p=1 (d=1) matrix is sometimes given 1-D; lists are accepted too."""
    a = typed(rng, fl(M), 0.6)
    if a.shape[1] == 1 and rng.random() < 0.5:
        a = a[:, 0]
    return a.tolist() if rng.random() < 0.4 else a


def peek(P):
    out = {}
    for key, names in (("up", "_up"), ("r", "_r"), ("w", "_weights")):
        v = getattr(P, names, None)
        out[key] = arr(v) if isinstance(v, np.ndarray) else ABSENT
    return out


def ask(rng, P, which=None):
    o = which or rng.choice(["mud_point", "mud_point", "estimate", "expected_ratio", "peek"])
    if o == "peek":
        return dict(op="peek", obs={"k": "none"}, **peek(P)) if getattr(P, "_up", None) is not None else None
    return {"op": o, "obs": obs(call(getattr(P, o)))}


def none_obs(r):
    return obs(r) if isinstance(r, Raised) else {"k": "none"}


def random_dist(rng, M, role, d):
    if role == "in":
        return tab_over(rng, [v for r in M for v in r], 0.15) if rng.random() < 0.5 \
            else scipy_over(rng, M, rng.random() < 0.7)
    if role == "ob":
        return tab_over(rng, [v for r in M for v in r], 0.15) if rng.random() < 0.6 \
            else scipy_over(rng, M, rng.random() < 0.6)
    z = rng.random()
    if z < 0.5:
        return tab_over(rng, [v for r in M for v in r], rng.choice([0.0, 0.0, 0.15]))
    if z < 0.7:
        return joint_over(rng, M)
    return scipy_over(rng, M, rng.random() < 0.9)


def history(ctx, mode, length, nmax=7):
    """One recorded history.  mode: 'plain' (C01), 'calls' (C02), 'weights' (C03)."""
    rng = ctx.rng
    n, p, d, X, y = gen_problem(rng, nmax=nmax)
    rec = dict(X=Fm(X), y=Fm(y), pad=F(Fr(1, 10)), domain=[])
    kw = {}
    if rng.random() < 0.5:
        box = [[min(r[j] for r in X) - rng.choice([0, 1]), max(r[j] for r in X) + rng.choice([0, 1, 2])]
               for j in range(p)]
        if rng.random() < 0.2:  # bounds in either order
            box = [b[::-1] if rng.random() < 0.6 else b for b in box]
        rec["domain"] = Fm(box)
        v = fl(box)
        if p == 1 and rng.random() < 0.5:
            v = v[0]
        kw["domain"] = v.tolist() if rng.random() < 0.5 else v
    elif rng.random() < 0.6:
        pad = rng.choice([Fr(0), Fr(1, 2), Fr(1, 4), Fr(1)])
        rec["pad"] = F(pad)
        kw["pad_domain"] = float(pad)
    w = NOW
    norm = False
    if rng.random() < (0.3 if mode == "plain" else 0.6):
        w, kw["weights"], norm = gen_weights(rng, n, rng.random() < 0.4,
                                             bad=(mode == "weights" and rng.random() < 0.1))
        if norm or rng.random() < 0.3:
            kw["normalize"] = norm
    bad_dom = mode == "plain" and rng.random() < 0.04
    if bad_dom:
        rec["domain"] = Fm([[0, 1]] * (p + 1))
        kw["domain"] = [[0.0, 1.0]] * (p + 1)
    ev = []
    Xa, ya = shaped(rng, X), shaped(rng, y)
    P = call(DensityProblem, Xa, ya, **kw)
    ev.append({"op": "new", "w": w, "norm": norm, "obs": none_obs(P)})
    if isinstance(P, Raised):
        rec["ev"] = ev
        return rec
    if rng.random() < 0.3:
        ev.append({"op": "shape", "obs": obs(call(lambda: [P.n_params, P.n_features, P.n_samples]))})
        ev.append({"op": "domain", "obs": obs(call(lambda: np.array(P.domain)))})

    last_in, last_ob = [], []

    def set_in(default=False):
        if default or rng.random() < 0.2:
            r = call(P.set_initial)
            ev.append({"op": "initial", "d": {"k": "none"}, "obs": none_obs(r)})
        else:
            if last_in and rng.random() < 0.35:  # the same object again
                dd, o = last_in[-1]
            else:
                dd = random_dist(rng, X, "in", p)
                o = realise(dd)
            last_in.append((dd, o))
            r = call(P.set_initial, o)
            ev.append({"op": "initial", "d": encd(dd), "obs": none_obs(r)})

    def set_ob():
        if last_ob and rng.random() < 0.25:
            dd, o = last_ob[-1]
        else:
            dd = random_dist(rng, y, "ob", d)
            o = realise(dd)
        last_ob.append((dd, o))
        r = call(P.set_observed, o)
        ev.append({"op": "observed", "d": encd(dd), "obs": none_obs(r)})

    def set_pr():
        dd = random_dist(rng, y, "pr", d)
        dist_ = realise(dd)
        e = {"op": "predicted", "w": NOW}
        k2 = {}
        if dd["k"] == "tab" and rng.random() < 0.3:
            k2["factor"] = 2.0
            dd = {"k": "tab", "tab": [[a, b * 2] for a, b in dd["tab"]]}
        if mode != "plain" and rng.random() < 0.35:
            e["w"], k2["weights"], _ = gen_weights(rng, n, False,
                                                   bad=(mode == "weights" and rng.random() < 0.15))
        e["d"] = encd(dd)
        e["obs"] = none_obs(call(P.set_predicted, dist_, **k2))
        ev.append(e)

    def set_w():
        w, v, norm = gen_weights(rng, n, rng.random() < 0.4, bad=rng.random() < 0.15)
        if rng.random() < 0.1:
            w, v, norm = NOW, None, False
        k2 = {"normalize": True} if norm else {}
        ev.append({"op": "weights", "w": w, "norm": norm, "obs": none_obs(call(P.set_weights, v, **k2))})

    set_in()
    steps = [set_ob, set_pr]
    rng.shuffle(steps)
    for s in steps:
        s()
    a = ask(rng, P, rng.choice(["mud_point", "expected_ratio", "estimate"]))
    ev.append(a)

    def ask_all():
        if rng.random() < 0.2:
            ev.append({"op": "fit", "obs": none_obs(call(P.fit))})
        for o in (["expected_ratio", "mud_point", "estimate", "peek"]):
            a = ask(rng, P, o)
            if a:
                ev.append(a)

    for _ in range(length):
        op = rng.choice({"plain": [set_ob, set_in, set_pr],
                         "calls": [set_ob, set_in, set_pr, set_w],
                         "weights": [set_w, set_w, set_pr, set_ob]}[mode])
        op()
        last = ev[-1]["op"]
        if last in ("weights", "initial") and rng.random() < 0.85:
            # otherwise the next question falls back to the (inexact) default estimate
            if rng.random() < 0.8 or True:
                set_pr()
        if rng.random() < 0.5:
            a = ask(rng, P)
            if a:
                ev.append(a)
    if ev[-1]["op"] in ("weights", "initial"):
        set_pr()
    ask_all()
    ev.append({"op": "X", "obs": obs(np.array(P.X))})
    ev.append({"op": "y", "obs": obs(np.array(P.y))})
    rec["ev"] = ev
    return rec


def traces(mode, quick, thorough, length):
    def run(ctx):
        for _ in range(ctx.scale(quick, thorough)):
            ctx.case("T_Density", history(ctx, mode, ctx.rng.randint(*length)))
    return run


def c01_big(ctx):
    """the same histories with many samples"""
    for n in ctx.scale([130, 300, 1100], [130, 300, 1100, 1100, 2100, 600, 800]):
        ctx.case("T_Density", history(ctx, "plain", 1, nmax=n))


c01_traces = traces("plain", 500, 6000, (0, 3))
c02_traces = traces("calls", 350, 5000, (3, 9))
c03_traces = traces("weights", 450, 5000, (1, 4))


# ------------------------------------------------ denotation of the specification terms
class Scenario:
    """Concrete meaning of the abstract settings named in MC_Density."""

    def __init__(self, rng, n, p, d, full=False):
        self.n, self.p, self.d = n, p, d
        g = np.random.default_rng(rng.randrange(2**31))
        self.X = g.uniform(-1, 2, (n, p))
        self.y = np.stack([self.X.sum(axis=1) * (j + 1) + 0.3 * j + 0.2 * g.normal(size=n)
                           for j in range(d)], axis=1)
        self.domain = np.array([[-1.5, 2.5]] * p) if rng.random() < 0.5 else None
        self.box = self.domain if self.domain is not None else np.stack(
            [self.X.min(0) - 0.1 * np.ptp(self.X, axis=0), self.X.max(0) + 0.1 * np.ptp(self.X, axis=0)], axis=1)
        self.W = {"w0": None, "w1": g.uniform(0.2, 2, n), "w2": g.uniform(0.0, 1, (2, n))}
        self.D = {
            "i1": dist.norm(loc=0.4, scale=1.2), "i2": dist.triang(0.3, loc=-4, scale=9),
            "o1": dist.norm(loc=np.linspace(0.5, 1.5, d), scale=0.7), "o2": dist.cauchy(loc=0.3),
            "p1": dist.norm(loc=1.0, scale=2.0), "p2": dist.cauchy(loc=-0.5, scale=2.0),
        }
        self.B = {"bw0": None, "bw1": 0.45, "bw2": "silverman", "bw3": lambda k: 0.3 + 1.2 / k.neff}

    def clone(self, P):
        """a copy of the problem holding the very same distribution objects"""
        return copy.deepcopy(P, {id(v): v for v in self.D.values()})

    def new(self):
        return DensityProblem(self.X.copy(), self.y.copy(),
                              domain=None if self.domain is None else self.domain.copy())

    def w(self, name):
        v = self.W[name]
        return np.ones(self.n) if v is None else np.prod(np.atleast_2d(v), axis=0)

    # terms
    def in_dist(self, t):
        if t["k"] == "definit":
            return dist.uniform(loc=self.box[:, 0], scale=self.box[:, 1] - self.box[:, 0])
        return self.D[t["id"]]

    def ob_dist(self, t):
        return dist.norm() if t["k"] == "defobs" else self.D[t["id"]]

    def pr_kde(self, t):
        return gaussian_kde(self.y.T, bw_method=self.B[t["d"]["bw"]], weights=self.w(t["w"]))

    def answer(self, up):
        w = self.w(up["w"])
        i0 = self.in_dist(up["in"]).pdf(self.X).prod(axis=1)
        o = self.ob_dist(up["ob"]).pdf(self.y).prod(axis=1)
        if up["pr"]["d"]["k"] == "kde":
            p = self.pr_kde(up["pr"]).pdf(self.y.T)
        else:
            p = self.D[up["pr"]["d"]["id"]].pdf(self.y).prod(axis=1)
        r = o / p
        return dict(w=w, r=r, up=i0 * w * r, er=float((w * r).sum() / w.sum()))

    # calls
    def apply(self, P, op):
        o, a = op["op"], op["a"]
        if o == "weights":
            return call(P.set_weights, self.W[a])
        if o == "initial":
            return call(P.set_initial) if a == "def" else call(P.set_initial, self.D[a])
        if o == "observed":
            return call(P.set_observed) if a == "def" else call(P.set_observed, self.D[a])
        if o in ("predicted", "predictedw"):
            k = {}
            if o == "predictedw":
                w = self.W[op["w"]]
                k["weights"] = np.ones(self.n) if w is None else w
            if a in self.B:
                if self.B[a] is not None:
                    k["bw_method"] = self.B[a]
                return call(P.set_predicted, **k)
            return call(P.set_predicted, self.D[a], **k)
        if o == "fit":
            return call(P.fit, **({} if self.B[a] is None else {"bw_method": self.B[a]}))
        if o in ("mud_point", "estimate", "expected_ratio"):
            return call(getattr(P, o))
        if o == "plot_param":
            return call(plot_lines, P, "param", self)
        if o == "plot_obs":
            return call(plot_lines, P, "obs", self)
        raise AssertionError(o)

    def marginal(self, f, box, idx, aff):
        """normalised marginal of a joint density on the plotting grid"""
        axes = [np.linspace(a, b, aff)[:-1] for a, b in box]
        m = np.meshgrid(*axes, indexing="ij")
        v = f(np.stack([x.ravel() for x in m])).reshape(m[0].shape)
        other = tuple(i for i in range(len(axes)) if i != idx)
        v = v.sum(axis=other)
        return axes[idx], v / (v.sum() * (axes[idx][1] - axes[idx][0]))


AFF = 7


def plot_lines(P, which, sc):
    from matplotlib import pyplot as plt

    fig, ax = plt.subplots()
    try:
        if which == "param":
            P.plot_param_space(param_idx=sc.p - 1, ax=ax, aff=AFF, x_range=sc.box.copy(),
                               mud_opts={"color": "g"})
        else:
            P.plot_obs_space(obs_idx=sc.d - 1, ax=ax, aff=AFF, y_range=sc.yrange())
        return [(np.array(l.get_xdata(), dtype=float), np.array(l.get_ydata(), dtype=float)) for l in ax.lines]
    finally:
        plt.close(fig)


def _yrange(self):
    return np.stack([self.y.min(0) - 0.4, self.y.max(0) + 0.4], axis=1)


Scenario.yrange = _yrange


def near_max(u, row, X):
    """row is a sample whose updated density is (to rounding) the largest"""
    m = np.nanmax(u)
    for i in range(len(u)):
        if u[i] >= m * (1 - 1e-9) and np.array_equal(np.asarray(row), X[i]):
            return True
    return False


def check_answer(ctx, sc, P, up, res, op, where, kf=None):
    a = sc.answer(up)

    def det(what, got):
        return lambda: {"what": what, "got": repr(got), "expected": {k: repr(v) for k, v in a.items()},
                        "term": up, "where": where, "X": sc.X.tolist(), "y": sc.y.tolist()}

    if op["op"] in ("mud_point", "estimate"):
        ok = not isinstance(res, Raised) and near_max(a["up"], res, sc.X)
        ctx.direct(ok, op["op"], det(op["op"], res), kf)
    elif op["op"] == "expected_ratio":
        ctx.direct(close(res, a["er"]), "expected_ratio", det("E(r)", res), kf)
    elif isinstance(res, Raised):
        ctx.direct(False, "accepted:" + op["op"], det("raised", res), kf)
        return
    elif op["op"] == "plot_param":
        x, v = sc.marginal(sc.in_dist(up["in"]).pdf if False else
                           (lambda g: sc.in_dist(up["in"]).pdf(g.T).prod(axis=1)), sc.box, sc.p - 1, AFF)
        k = gaussian_kde(sc.X.T, weights=a["w"] * a["r"])
        x2, v2 = sc.marginal(k, sc.box, sc.p - 1, AFF)
        ls = res
        ok = len(ls) >= 3 and close(ls[0][0], x) and close(ls[0][1], v) and close(ls[1][0], x2) \
            and close(ls[1][1], v2, 1e-6)
        ctx.direct(ok, "plot_param:initial-and-updated", det("lines", ls), kf)
        mx = [X for X in sc.X if near_max(a["up"], X, sc.X)]
        ok = len(ls) >= 3 and any(close(ls[2][0], [m[sc.p - 1]] * 2) for m in mx)
        ctx.direct(ok, "plot_param:mud-line", det("mud line", ls), kf)
    elif op["op"] == "plot_obs":
        box = sc.yrange()
        x, v = sc.marginal(lambda g: sc.ob_dist(up["ob"]).pdf(g.T).prod(axis=1), box, sc.d - 1, AFF)
        if up["pr"]["d"]["k"] == "kde":
            f = sc.pr_kde(up["pr"])
        else:
            f = (lambda g: sc.D[up["pr"]["d"]["id"]].pdf(g.T).prod(axis=1))
        _, v1 = sc.marginal(f, box, sc.d - 1, AFF)
        _, v2 = sc.marginal(gaussian_kde(sc.y.T, weights=a["w"] * a["r"]), box, sc.d - 1, AFF)
        ls = res
        ok = len(ls) == 3 and all(close(l[0], x) for l in ls) and close(ls[0][1], v) \
            and close(ls[1][1], v1, 1e-6) and close(ls[2][1], v2, 1e-6)
        ctx.direct(ok, "plot_obs:lines", det("lines", ls), kf)
    # the question asked next
    m = call(P.mud_point)
    e = call(P.expected_ratio)
    ctx.direct(not isinstance(m, Raised) and near_max(a["up"], m, sc.X), "next:mud_point", det("mud", m), kf)
    ctx.direct(close(e, a["er"]), "next:expected_ratio", det("E(r)", e), kf)
    u = getattr(P, "_up", None)
    if isinstance(u, np.ndarray):
        ctx.direct(close(u, a["up"]), "next:updated-density", det("up", u), kf)


def edges(ctx, sizes, sub=None):
    E = [json.loads(l) for l in open(os.path.join(ctx.work, "density.edges"))]
    key = lambda s: json.dumps(s, sort_keys=True)
    out = {}
    for e in E:
        out.setdefault(key(e["from"]), []).append(e)
    init = next(k for k, v in out.items() if v[0]["from"] == dict(
        W="w0", In={"k": "none"}, Ob={"k": "none"}, Pr={"k": "none"}, Up={"k": "none"}))
    for (n, p, d) in sizes:
        sc = Scenario(ctx.rng, n, p, d)
        objs = {init: (sc.new(), [])}
        frontier = [init]
        while frontier:
            nxt = []
            for s in frontier:
                P0, path = objs[s]
                for e in out.get(s, []):
                    if sub and e["op"]["op"].startswith("plot") and ctx.rng.random() > sub:
                        continue
                    P = sc.clone(P0)
                    res = sc.apply(P, e["op"])
                    t = key(e["to"])
                    if t not in objs and not isinstance(res, Raised):
                        objs[t] = (sc.clone(P), path + [e["op"]])
                        nxt.append(t)
                    check_answer(ctx, sc, P, e["ask"], res, e["op"], {"path": path, "op": e["op"]})
            frontier = nxt
        ctx.notes[f"states reached n={n} p={p} d={d}"] = len(objs)
        # long walks: interleave without resetting the object
        P, s = sc.new(), init
        log = []
        for _ in range(ctx.scale(250, 3000)):
            e = ctx.rng.choice([x for x in out[s] if not x["op"]["op"].startswith("plot")
                                or ctx.rng.random() < 0.3] or out[s])
            res = sc.apply(P, e["op"])
            log.append(e["op"])
            s = key(e["to"])
            if e["op"]["op"] in ("mud_point", "estimate", "expected_ratio"):
                check_answer(ctx, sc, P, e["ask"], res, e["op"], {"walk": log[-12:]})
            elif isinstance(res, Raised):
                ctx.direct(False, "accepted:" + e["op"]["op"], {"walk": log[-12:], "raised": repr(res)})
            elif ctx.rng.random() < 0.3:  # what it would answer now
                check_answer(ctx, sc, sc.clone(P), e["ask"], res, e["op"], {"walk": log[-12:]})


def c02_edges(ctx):
    edges(ctx, ctx.scale([(7, 1, 1), (9, 2, 2)], [(7, 1, 1), (9, 2, 2), (12, 2, 1), (14, 1, 3), (20, 3, 2)]),
          sub=ctx.scale(0.25, 1.0))


def c01_defaults(ctx):
    """Problems left to their defaults: uniform initial, kernel-estimated predicted, N(0,1) observed."""
    for _ in range(ctx.scale(60, 600)):
        rng = ctx.rng
        n = rng.choice([6, 10, 25]) if rng.random() < 0.9 else rng.choice([700, 1500])
        sc = Scenario(rng, n, rng.randint(1, 3), rng.randint(1, 2))
        P = sc.new()
        w, how = rng.choice(["w0", "w0", "w1", "w2"]), rng.random()
        if w != "w0" and how < 0.4:
            P = DensityProblem(sc.X.copy(), sc.y.copy(), domain=None if sc.domain is None else sc.domain.tolist(), weights=sc.W[w])
        elif w != "w0":
            P.set_weights(sc.W[w])
        ob = rng.choice([{"k": "defobs"}, {"k": "ob", "id": "o1"}, {"k": "ob", "id": "o2"}])
        ini = rng.choice([{"k": "definit"}, {"k": "in", "id": "i1"}])
        bw = rng.choice(["bw0", "bw1", "bw2", "bw3"])
        if ini["k"] != "definit":
            P.set_initial(sc.D[ini["id"]])
        if ob["k"] != "defobs":
            P.set_observed(sc.D[ob["id"]])
        if bw != "bw0":
            if rng.random() < 0.5:
                P.fit(bw_method=sc.B[bw])
            else:  # the initial first, it withdraws the predicted
                if ini["k"] == "definit":
                    P.set_initial()
                P.set_predicted(bw_method=sc.B[bw])
        up = {"w": w, "in": ini, "ob": ob, "pr": {"d": {"k": "kde", "bw": bw}, "w": w}}
        for o in rng.sample(["mud_point", "expected_ratio", "estimate"], 3):
            check_answer(ctx, sc, P, up, call(getattr(P, o)), {"op": o}, "defaults")


def c01_wide(ctx):
    """Many parameters and observables in any units, nearly tied samples: the largest by logarithms."""
    for it in range(ctx.scale(120, 1500)):
        rng = ctx.rng
        g = np.random.default_rng(rng.randrange(2**31))
        n, p, d = rng.choice([2, 5, 30, 30, 200]), rng.randint(1, 12), rng.randint(1, 12)
        if it % 60 == 7:
            n, p, d = rng.choice([5500, 8000, 11000]), 1, rng.randint(1, 2)
        elif rng.random() < 0.05:
            n, p, d = 4000, rng.randint(1, 3), rng.randint(1, 3)
        ux, uy = 10.0 ** g.integers(-4, 5, p), 10.0 ** g.integers(-2, 3, d)
        X, cx = g.normal(size=(n, p)), g.normal(size=p) * rng.choice([0, 1, 50])
        y = X @ g.normal(size=(p, d)) / np.sqrt(p) + 0.3 * g.normal(size=(n, d))
        loc, sd = 0.5 * g.normal(size=d), g.uniform(0.7, 2, d)
        if rng.random() < 0.5:  # the best so far and its near doubles
            k = np.argmax(dist.norm(loc, sd).logpdf(y).sum(axis=1))
            for i in g.permutation(n)[: min(n, 5)]:
                X[i], y[i] = X[k] + 1e-8 * g.normal(size=p), y[k] + 1e-8 * g.normal(size=d)
        X, Y = (X + cx) * ux, y * uy
        w = g.uniform(0.2, 3, n) * rng.choice([1, 1, 1e-3, 40]) if rng.random() < 0.5 else None
        ini = rng.choice(["default", "norm", "scalar"])
        box = None if rng.random() < 0.5 else np.stack([X.min(axis=0) - ux, X.max(axis=0) + ux * g.uniform(0, 3, p)], axis=1)
        P = call(DensityProblem, X, Y, **({} if box is None else {"domain": box}), **({} if w is None else {"weights": w}))
        ob = dist.norm(loc * uy, sd * uy)
        if ini == "default":
            I, li = None, np.zeros(n)
        else:
            I = dist.norm(cx * ux, 2 * ux) if ini == "norm" else dist.t(3)
            li = I.logpdf(X).sum(axis=1)
        steps = [lambda: P.set_observed(ob), lambda: P.set_initial(I) if I is not None else P.set_initial()]
        if rng.random() < 0.5:
            steps.reverse()
        for f in steps:
            call(f)
        ww = np.ones(n) if w is None else w
        if n > 3 * d + 5 and (rng.random() < 0.5 or n > 5000):
            bw = rng.choice([None, "silverman", 0.7])
            r = call(P.set_predicted, bw_method=bw) if bw is not None else None
            lp = np.log(gaussian_kde(Y.T, bw_method=bw, weights=ww)(Y.T))
        else:
            pr = dist.norm(0.2 * uy, 3 * uy) if rng.random() < 0.6 else dist.cauchy(0, uy)
            r = call(P.set_predicted, pr)
            lp = pr.logpdf(Y).sum(axis=1)
        lo = ob.logpdf(Y).sum(axis=1)
        if not all(np.all(np.isfinite(v)) and np.abs(v).max() < 250 for v in (lo, lp, li)):
            continue
        up = np.log(ww) + li + lo - lp
        det = lambda: dict(n=n, p=p, d=d, ini=ini, X=X[:20].tolist(), y=Y[:20].tolist(), w=None if w is None else w[:20].tolist())
        for f in rng.sample(["mud_point", "estimate", "expected_ratio"], 3):
            o = call(getattr(P, f))
            if f == "expected_ratio":
                ctx.direct(close(o, np.average(np.exp(lo - lp), weights=ww), 1e-7, 0), "wide:expected-ratio", det)
            else:
                ok = not isinstance(o, Raised) and any(np.array_equal(o, X[i]) for i in np.flatnonzero(up >= up.max() - 1e-11 * max(1, np.abs(lp).max(), np.abs(lo).max())))
                ctx.direct(ok, "wide:largest", det)


def c03_relations(ctx):
    """Relations between problems that differ only in their weights (kernel-estimated predicted)."""
    for _ in range(ctx.scale(80, 800)):
        rng = ctx.rng
        sc = Scenario(rng, rng.choice([6, 9, 16]) if rng.random() < 0.95 else 1200, rng.randint(1, 2), rng.randint(1, 2))
        w = np.array([rng.choice([0.5, 1.0, 2.0, 0.25, 3.0]) for _ in range(sc.n)])

        def run(weights, perm=None, how=0, **k):
            X, y = (sc.X, sc.y) if perm is None else (sc.X[perm], sc.y[perm])
            if how == 0:
                P = DensityProblem(X, y, sc.box, weights=weights, **k)
            elif how == 1:
                P = DensityProblem(X, y, sc.box)
                P.set_weights(weights, **k)
            else:
                P = DensityProblem(X, y, sc.box)
                P.set_initial()
                P.set_predicted(weights=weights)
            P.set_observed(sc.D["o1"])
            return call(P.mud_point), call(P.expected_ratio), P

        def same(a, b):
            return not isinstance(a[0], Raised) and close(a[0], b[0]) and close(a[1], b[1])

        a = run(w)
        det = lambda: {"X": sc.X.tolist(), "y": sc.y.tolist(), "w": w.tolist()}
        ctx.direct(same(run(np.ones(sc.n)), run(None)), "ones-is-none", det)
        for f in (rng.choice([8.0, 2.0**-10, 1e-6, 1e5]), rng.choice([2.0**-60, 1e-30, 2.0**70, 1e-100])):
            ctx.direct(same(run(w * f), a), "scale-invariant", det)
        ctx.direct(same(run(w, normalize=True), a), "normalize-invariant", det)
        f = rng.choice([1e-3, 1e-9, 0.01, 1.0, 50.0, 1e6])
        b = run(w * f, normalize=True, how=rng.choice([0, 1]))
        kept = getattr(b[2], "_weights", None)
        ctx.direct(same(b, a) and (kept is None or close(kept, w / np.linalg.norm(w))), "normalized", lambda: dict(det(), factor=f, kept=repr(kept)))
        ctx.direct(same(run(w, how=1), a) and same(run(w, how=2), a), "same-through-every-entry", det)
        w2 = np.array([rng.choice([1.0, 2.0, 4.0]) for _ in range(sc.n)])
        ctx.direct(same(run(np.stack([w, w2])), run(w * w2)), "stack-is-product", det)
        many = np.array([[rng.choice([0.5, 1.0, 2.0]) for _ in range(sc.n)] for _ in range(rng.choice([5, 9, 14, 30]))])
        ctx.direct(same(run(many), run(np.prod(many, axis=0))), "stack-is-product:many", det)
        pm = list(range(sc.n))
        rng.shuffle(pm)
        ctx.direct(same(run(w[pm], perm=pm), a), "sample-order", det)
        big = rng.choice([10**5, 10**6, 2**40])  # whole numbers whose product no integer type holds
        ws = [[int(x * 4) * big for x in w]] + [[big * rng.choice([1, 2])] * sc.n for _ in range(4)]
        ctx.direct(same(run(ws if rng.random() < 0.5 else np.array(ws)), a), "stack-is-product:large", det)
        # a zero weight removes the sample
        z = w.copy()
        best = int(np.argmax(getattr(a[2], "_up", np.zeros(sc.n)))) if hasattr(a[2], "_up") else 0
        z[best] = 0.0
        keep = np.flatnonzero(z)
        b = run(z)
        ctx.direct(not isinstance(b[0], Raised) and any(np.array_equal(b[0], sc.X[i]) for i in keep),
                   "zero-weight-never-chosen", det)
        dd = DensityProblem(sc.X[keep], sc.y[keep], sc.box, weights=z[keep])
        dd.set_observed(sc.D["o1"])
        # the kernel estimate also ignores a sample of weight zero
        c = (call(dd.mud_point), call(dd.expected_ratio))
        ctx.direct(same(b, c), "zero-weight-is-absent", det)
        # nor does one far from the others, where the kernel estimate vanishes
        far = np.vstack([sc.y, sc.y[:1] + rng.choice([30.0, 1e3, -1e4])])
        Q = DensityProblem(np.vstack([sc.X, sc.X[:1] + 0.01]), far, sc.box, weights=np.append(w, 0.0))
        far_ob = dist.cauchy(loc=0.3) if rng.random() < 0.5 else sc.D["o1"]
        Q.set_observed(far_ob)
        R = DensityProblem(sc.X, sc.y, sc.box, weights=w)
        R.set_observed(far_ob)
        ctx.direct(same((call(Q.mud_point), call(Q.expected_ratio)), (call(R.mud_point), call(R.expected_ratio))),
                   "zero-weight-is-absent:far", det)
