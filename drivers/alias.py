"""Ownership (T_Alias, MC_Alias): nobody but the caller changes what the caller owns."""
import hashlib
import inspect
import json
import os
from collections import deque

import matplotlib
import numpy as np
from matplotlib import pyplot as plt
from matplotlib.colors import to_hex
from scipy.stats import distributions as dist
from scipy.stats import gaussian_kde

import mud.base
import mud.funs
import mud.norm
import mud.plot
import mud.preprocessing
import mud.util
from density import Joint, Tab
from enc import Raised, call
from mud import funs, norm, plot, preprocessing, util
from mud.base import (BayesProblem, DensityProblem, IterativeLinearProblem, LinearGaussianProblem, LinearWMEProblem,
                      SpatioTemporalProblem)

matplotlib.rcParams["text.usetex"] = False
matplotlib.rcParams["figure.max_open_warning"] = 0
AFF = 7


# ------------------------------------------------------------- fingerprints
def fp(o, depth=0):
    """exact contents of a caller's object, as a string"""
    if o is None or isinstance(o, (bool, int, float, complex, str, bytes, np.generic)):
        return f"{type(o).__name__}:{o!r}"
    if isinstance(o, np.ndarray):
        if o.dtype == object:
            return f"nd:object:{o.shape}:" + ",".join(fp(x, depth + 1) for x in o.ravel())
        return f"nd:{o.dtype.str}:{o.shape}:{o.flags.writeable}:" + hashlib.md5(np.ascontiguousarray(o).tobytes()).hexdigest()
    if isinstance(o, (list, tuple)):
        return type(o).__name__ + "(" + ",".join(fp(x, depth + 1) for x in o) + ")"
    if isinstance(o, (set, frozenset)):
        return "set(" + ",".join(sorted(fp(x, depth + 1) for x in o)) + ")"
    if isinstance(o, dict):
        return type(o).__name__ + "{" + ",".join(fp(k, depth + 1) + "=" + fp(v, depth + 1) for k, v in o.items()) + "}"
    if isinstance(o, range):
        return repr(o)
    if hasattr(o, "args") and hasattr(o, "kwds"):  # frozen distribution
        return "dist:" + type(getattr(o, "dist", o)).__name__ + fp(o.args, depth + 1) + fp(dict(o.kwds), depth + 1)
    if isinstance(o, (Tab, Joint, gaussian_kde)):
        return type(o).__name__ + fp({k: v for k, v in vars(o).items() if k != "_norm_factor"}, depth + 1)
    return type(o).__name__


def _signatures():
    out = []
    for m in (mud.base, mud.funs, mud.norm, mud.plot, mud.preprocessing, mud.util):
        for name, f in sorted(vars(m).items()):
            if getattr(f, "__module__", None) != m.__name__ or name.startswith("_"):
                continue
            if inspect.isfunction(f):
                out.append((m.__name__ + "." + name, f))
            elif inspect.isclass(f):
                out += [(f.__name__ + "." + k, g) for k, g in sorted(vars(f).items())
                        if inspect.isfunction(g) and (not k.startswith("_") or k == "__init__")]
    keep = []
    for n, f in out:
        for p in inspect.signature(f).parameters.values():
            if isinstance(p.default, (dict, list, np.ndarray, set)) or hasattr(p.default, "kwds"):
                keep.append((n + ":" + p.name, p.default))
    return keep


DEFAULTS = _signatures()


def defaults():
    return "|".join(n + "=" + fp(o) for n, o in DEFAULTS)


# --------------------------------------------------------- answers and plots
def style(a):
    out = [a.get_label() if not str(a.get_label()).startswith("_") else "_", a.get_alpha(), a.get_zorder()]
    return out


def drawn(ax):
    """what is on the axes, with its style"""
    out = []
    for ln in ax.lines:
        out.append(("line", *style(ln), to_hex(ln.get_color(), True), ln.get_linestyle(), float(ln.get_linewidth()), str(ln.get_marker()),
                    np.asarray(ln.get_xdata(), float).ravel(), np.asarray(ln.get_ydata(), float).ravel()))
    for c in ax.collections:
        fc = np.asarray(c.get_facecolors(), float)
        out.append((type(c).__name__, *style(c), fc.ravel(), np.asarray(c.get_linewidths(), float).ravel(),
                    np.asarray(c.get_offsets(), float).ravel(), [] if c.get_array() is None else np.asarray(c.get_array(), float).ravel(),
                    [np.asarray(p.vertices, float).ravel() for p in c.get_paths()]))
    for t in ax.texts:
        out.append(("text", t.get_text(), t.get_fontsize(), np.asarray(t.get_position(), float)))
    out.append((ax.get_xlabel(), ax.get_ylabel(), ax.get_title(), ax.get_xscale(), ax.get_yscale()))
    return out


def plain(x):
    """an answer as plain nested data"""
    if isinstance(x, Raised):
        return ("raised", x.name)
    if isinstance(x, (DensityProblem, BayesProblem)):
        return (type(x).__name__, plain(x.X), plain(x.y), plain(x.domain), plain(call(x.estimate)))
    if isinstance(x, LinearGaussianProblem):
        return (type(x).__name__, [plain(getattr(x, k, None)) for k in ("A", "b", "y", "mean_i", "cov_i", "cov_o")])
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, dict):
        return [[str(k), plain(v)] for k, v in x.items()]
    if isinstance(x, (int, float, np.ndarray, np.generic)):
        return np.array(x)
    if isinstance(x, str) or x is None:
        return x
    if hasattr(x, "components_"):
        return [np.array(x.components_), np.array(x.explained_variance_)]
    return type(x).__name__


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        try:
            a, b = np.asarray(a), np.asarray(b)
            return a.shape == b.shape and bool(np.allclose(a.astype(float), b.astype(float), rtol=1e-7, atol=1e-10, equal_nan=True))
        except Exception:
            return False
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return bool(np.isclose(a, b, equal_nan=True))
    return type(a) == type(b) and a == b


class Paper:
    """fresh axes for each plot, a few of them reused"""

    fig = None

    @classmethod
    def axes(cls):
        if cls.fig is None:
            cls.fig = plt.figure(figsize=(3, 3))
        plt.figure(cls.fig.number)
        cls.fig.clf()
        return cls.fig.add_subplot(1, 1, 1)


def draws(f):
    """f(ax) -> what it drew"""
    def g():
        ax = Paper.axes()
        plt.sca(ax)
        f(ax)
        return drawn(ax)
    return g


# ------------------------------------------------------------------ recorder
ATTRS = {
    DensityProblem: ["X", "y", "domain"],
    BayesProblem: ["X", "y", "domain"],
    LinearGaussianProblem: ["A", "b", "y", "mean_i", "cov_i", "cov_o", "alpha"],
    IterativeLinearProblem: ["A", "b", "y", "mu_i", "cov", "data_cov", "idx_order"],
    SpatioTemporalProblem: ["domain", "lam", "lam_ref", "data", "sensors", "times", "measurements", "true_vals", "sample_dist",
                            "std_dev"],
}


def inputs(P):
    k = next(k for k in (IterativeLinearProblem, LinearGaussianProblem, DensityProblem, BayesProblem, SpatioTemporalProblem)
             if isinstance(P, k))
    return "|".join(a + "=" + fp(getattr(P, a, None)) for a in ATTRS[k])


class Rec:
    def __init__(self, ctx, kind):
        self.ctx, self.kind = ctx, kind
        self.heap, self.probs, self.ev = {}, {}, []
        self.ids, self.answers = {}, []
        self.started = False

    def own(self, name, obj):
        assert not self.started
        while name in self.heap:
            name += "'"
        self.heap[name] = obj
        return obj

    def _i(self, s):
        return self.ids.setdefault(s, len(self.ids) + 1)

    def _heap(self):
        return [{"n": n, "f": self._i(fp(o))} for n, o in self.heap.items()]

    def start(self):
        self.started = True
        self.rec = dict(kind=self.kind, heap0=self._heap(), defs0=self._i(defaults()))

    def ans(self, x):
        x = plain(x)
        for i, y in enumerate(self.answers):
            if same(x, y):
                return i + 1
        self.answers.append(x)
        return len(self.answers)

    def event(self, op, fn=None, who=0, key="", wrote=()):
        if not self.started:
            self.start()
        r = call(fn) if fn is not None else None
        if op == "new":
            if isinstance(r, Raised):
                op = "call"
            else:
                who = len(self.probs) + 1
                self.probs[who] = r
        a = self.ans(r) if key else 0
        self.ev.append(dict(op=op, who=who, key=key, ans=a, wrote=list(wrote), heap=self._heap(), defs=self._i(defaults()),
                            ins=[{"n": n, "f": self._i(inputs(P))} for n, P in self.probs.items()]))
        return r, who

    def done(self):
        if self.ev:
            self.rec["ev"] = self.ev
            self.ctx.case("T_Alias", self.rec, key=(self.kind, json.dumps([(e["op"], e["key"]) for e in self.ev])))


def scribble(rng, o):
    """the caller changes what it owns, in place; False if it cannot"""
    if isinstance(o, np.ndarray) and o.size and o.dtype.kind in "if":
        z = rng.random()
        if z < 0.4:
            o += 1
        elif z < 0.7:
            o[...] = 0
        else:
            o.ravel()[rng.randrange(o.size)] += 3 if o.flags.c_contiguous else 0
        return True
    if isinstance(o, list) and o:
        i = rng.randrange(len(o))
        if isinstance(o[i], list):
            return scribble(rng, o[i])
        if isinstance(o[i], (int, float)):
            o[i] = o[i] + 5
            return True
        if isinstance(o[i], np.ndarray):
            return scribble(rng, o[i])
    return False


def A(rng, a, lists=True, kinds="fF"):
    """one of the accepted spellings of an array, owned by the caller"""
    z = rng.random()
    a = np.array(a)
    if lists and z < 0.25:
        return a.tolist()
    if z < 0.4 and a.ndim == 2:
        return np.asfortranarray(a.astype(float))
    if z < 0.55 and a.ndim == 2:
        b = np.zeros((a.shape[0], a.shape[1] * 2))
        b[:, ::2] = a
        return b[:, ::2]
    if z < 0.65 and np.all(a == np.round(a)):
        return a.astype(int)
    return a.astype(float)


def rnd(rng, *shape):
    n = int(np.prod(shape)) if shape else 1
    return np.array([rng.randint(-8, 8) / 4 for _ in range(n)]).reshape(shape)


def opts(rng, r, names, chance=0.6):
    """option dictionaries of the caller"""
    out = {}
    for n in names:
        if rng.random() < chance:
            d = {"color": rng.choice(["red", "#112233", "xkcd:green"])}
            if rng.random() < 0.5:
                d["label"] = rng.choice(["mine", "other"])
            if rng.random() < 0.3:
                d["linestyle"] = rng.choice(["--", ":"])
            if rng.random() < 0.2:
                d = {}
            out[n] = r.own(n, d)
    return out


def play(rng, r, who, asks, n, writable=(), sets=()):
    """random interleaving of questions, later writes and setters"""
    asks = list(asks.items())
    for _ in range(n):
        z = rng.random()
        if z < 0.2 and writable:
            nm = rng.choice(list(writable))
            if nm in r.heap and scribble(rng, r.heap[nm]):
                r.event("write", wrote=[nm])
        elif z < 0.35 and sets:
            r.event("give", rng.choice(sets), who=who)
        else:
            k, f = rng.choice(asks)
            r.event("ask", f, who=who, key=k)
    if writable and rng.random() < 0.8:
        for nm in writable:
            if nm in r.heap and scribble(rng, r.heap[nm]):
                r.event("write", wrote=[nm])
    rng.shuffle(asks)
    for k, f in asks:
        r.event("ask", f, who=who, key=k)


# ------------------------------------------------------------------- classes
def smooth(rng, lo=0.0, hi=1.0):
    return dist.norm(loc=rng.choice([0.0, 0.5]), scale=rng.choice([0.5, 1.0, 2.0]))


def density_asks(rng, r, P, p, d):
    op = opts(rng, r, ["in_opts", "up_opts", "mud_opts", "true_opts", "win_opts"])
    oo = opts(rng, r, ["ob_opts", "pr_opts", "pf_opts"])
    tv = r.own("true_val", A(rng, rnd(rng, p)))
    kx = {"x_range": r.own("x_range", A(rng, np.array([[-2.0, 3.0]] * p)))} if rng.random() < 0.5 else {}
    ky = {"y_range": r.own("y_range", A(rng, np.array([[-3.0, 3.0]] * d)))} if rng.random() < 0.5 else {}
    sk = r.own("scatter", {"c": "r", "marker": "x"})
    i, j = rng.randrange(p), rng.randrange(d)
    a = {
        "mud_point": lambda: P().mud_point(), "estimate": lambda: P().estimate(), "expected_ratio": lambda: P().expected_ratio(),
        "sizes": lambda: [P().n_params, P().n_features, P().n_samples],
    }
    if p <= 2:
        a["plot_param:given"] = draws(lambda ax: P().plot_param_space(param_idx=i, true_val=tv, ax=ax, aff=AFF, **op, **kx))
        a["plot_param:default"] = draws(lambda ax: P().plot_param_space(param_idx=i, true_val=tv, ax=ax, aff=AFF))
    if p > 1:
        a["plot_2d"] = draws(lambda ax: P().plot_params_2d(ax=ax, colorbar=False))
    if d <= 2:
        a["plot_obs:given"] = draws(lambda ax: P().plot_obs_space(obs_idx=j, ax=ax, aff=AFF, **oo, **ky))
        a["plot_obs:default"] = draws(lambda ax: P().plot_obs_space(obs_idx=j, ax=ax, aff=AFF))
        a["plot_qoi"] = draws(lambda ax: P().plot_qoi(0, d - 1, ax=ax, **sk))
    keys = rng.sample(sorted(a), min(len(a), rng.choice([3, 4, 5])))
    return {k: a[k] for k in keys}


def c_density(ctx, rng):
    r = Rec(ctx, "density")
    n, p, d = rng.choice([6, 8, 12] * 4 + [300, 1100]), rng.choice([1, 1, 2]), rng.choice([1, 1, 2])
    X = r.own("X", A(rng, rnd(rng, n, p) if p > 1 or rng.random() < 0.5 else rnd(rng, n)))
    y = r.own("y", A(rng, rnd(rng, n, d) + 0.1 * np.arange(n * d).reshape(n, d)))
    kw = {}
    if rng.random() < 0.6:
        dm = np.array([[-3.0, 3.0]] * p)
        kw["domain"] = r.own("domain", A(rng, dm[0] if p == 1 and rng.random() < 0.5 else dm))
    w = lambda: np.array([rng.choice([1, 2, 3]) for _ in range(n)], float)
    if rng.random() < 0.6:
        kw["weights"] = r.own("weights", A(rng, w() if rng.random() < 0.6 else np.array([w(), w()])))
        if rng.random() < 0.3:
            kw["normalize"] = True
    w2 = r.own("w2", A(rng, w()))
    w3 = r.own("w3", A(rng, np.array([w(), w(), w()])))
    pk = r.own("pdf_kwargs", {"factor": 2.0})
    cell = {}
    P = lambda: cell["P"]
    asks = density_asks(rng, r, P, p, d)
    made, who = r.event("new", lambda: DensityProblem(X, y, **kw))
    if not isinstance(made, Raised):
        cell["P"] = made
        ob = smooth(rng)
        r.event("give", lambda: made.set_initial(dist.norm(0, 2)), who=who)
        r.event("give", lambda: made.set_observed(ob), who=who)
        tb = Tab([(v, 1 + abs(v)) for v in np.ravel(np.array(y, float))])
        sets = [lambda: made.set_weights(w2), lambda: made.set_weights(w3, normalize=True), lambda: made.set_observed(ob),
                lambda: made.set_initial(), lambda: made.set_predicted(weights=w2), lambda: made.set_weights(),
                lambda: made.set_predicted(tb, **pk), lambda: made.fit(bw_method=0.7)]
        play(rng, r, who, asks, rng.choice([3, 6, 9]), ["X", "y", "domain", "weights", "w2", "w3"], sets)
    r.done()


def c_bayes(ctx, rng):
    r = Rec(ctx, "bayes")
    n, p, d = rng.choice([6, 8, 12] * 4 + [300, 1100]), rng.choice([1, 1, 2]), rng.choice([1, 2])
    X = r.own("X", A(rng, rnd(rng, n, p)))
    y = r.own("y", A(rng, rnd(rng, n, d) + 0.1 * np.arange(n * d).reshape(n, d)))
    kw = {}
    if rng.random() < 0.6:
        kw["domain"] = r.own("domain", A(rng, np.array([[-3.0, 3.0]] * p)))
    op = opts(rng, r, ["pr_opts", "ps_opts", "map_opts", "true_opts"])
    oo = opts(rng, r, ["ll_opts", "pf_opts"])
    tv = r.own("true_val", A(rng, rnd(rng, p)))
    kx = {"x_range": r.own("x_range", A(rng, np.array([[-2.0, 3.0]] * p)))} if rng.random() < 0.5 else {}
    ky = {"y_range": r.own("y_range", A(rng, np.array([[-3.0, 3.0]] * d)))} if rng.random() < 0.5 else {}
    i, j = rng.randrange(p), rng.randrange(d)
    sig = inspect.signature(BayesProblem.plot_param_space).parameters
    op = {k: v for k, v in op.items() if k in sig}
    kt = {"true_val": tv} if "true_val" in sig else {}
    made, who = r.event("new", lambda: BayesProblem(X, y, **kw))
    if not isinstance(made, Raised):
        ll = dist.norm(loc=rng.choice([0.0, 0.5]), scale=1.0)
        lg = rng.random() < 0.4
        r.event("give", lambda: made.set_likelihood(ll, log=lg), who=who)
        asks = {
            "map_point": made.map_point, "estimate": made.estimate,
            "sizes": lambda: [made.n_params, made.n_features, made.n_samples],
            "plot_param:given": draws(lambda ax: made.plot_param_space(param_idx=i, ax=ax, aff=AFF, **kt, **op, **kx)),
            "plot_param:default": draws(lambda ax: made.plot_param_space(param_idx=i, ax=ax, aff=AFF)),
            "plot_obs:given": draws(lambda ax: made.plot_obs_space(obs_idx=j, ax=ax, aff=AFF, **oo, **ky)),
            "plot_obs:default": draws(lambda ax: made.plot_obs_space(obs_idx=j, ax=ax, aff=AFF)),
        }
        ks = rng.sample(sorted(asks), 4)
        sets = [lambda: made.set_likelihood(ll, log=not lg), lambda: made.set_prior(), lambda: made.set_prior(dist.norm(0, 2))]
        play(rng, r, who, {k: asks[k] for k in ks}, rng.choice([3, 6]), ["X", "y", "domain"], sets)
    r.done()


def spd(rng, n):
    L = np.tril(rnd(rng, n, n)) + 3 * np.eye(n)
    if rng.random() < 0.25:  # in unlike units
        L = np.diag([10.0 ** rng.choice([-3, -2, 0, 1]) for _ in range(n)]) @ L
    return L @ L.T


def lin_asks(rng, r, P, ns, di):
    pts = r.own("points", A(rng, rnd(rng, rng.choice([3, 3, 3, 400, 1500]), di), lists=False))
    ref = r.own("ref", A(rng, rnd(rng, di)))
    sub = r.own("subset", rng.choice([[0], list(range(ns)), np.arange(ns)]))
    pc = r.own("plot_opts", {"color": "r", "ls": "--"})
    an = r.own("annotate_opts", {"fontsize": 5})
    pt = r.own("pt_opts", {"color": "b", "s": 10})
    ln = r.own("ln_opts", {"color": "g"})
    nl = r.own("note_loc", [0.1, 0.2])
    lv = r.own("levels", [1.0, 2.0, 5.0])
    m = rng.choice(["mud", "map", "ls", "mud_alt"])
    N = rng.choice([3, 3, 3, 20, 40])
    G = np.linspace(0, 1, N)
    mesh = r.own("mesh", np.array([[b, a] for a in G for b in G]))
    a = {"solve:" + k: (lambda k=k: P().solve(method=k)) for k in ("mud", "map", "ls", "mud_alt", "all")}
    a["functionals"] = lambda: P().compute_functionals(pts)
    a["functionals:dc"] = lambda: P().compute_functionals(pts, terms="dc")
    a["updated_cov"] = lambda: P().updated_cov()
    a["reduced"] = lambda: P().solve(method="map", output_dim=1)
    if di == 2:
        a["plot_sol:given"] = draws(lambda ax: P().plot_sol(point=m, ax=ax, label="q", note_loc=nl, pt_opts=pt, ln_opts=ln,
                                                            annotate_opts=an))
        a["plot_sol:default"] = draws(lambda ax: P().plot_sol(point=m, ax=ax, label="q"))
        a["plot_sol:initial"] = draws(lambda ax: P().plot_sol(point="initial", ax=ax))
        a["plot_contours:given"] = draws(lambda ax: P().plot_contours(ref=ref, subset=sub, ax=ax, annotate=True, note_loc=nl, plot_opts=pc,
                                                                      annotate_opts=an))
        a["plot_contours:default"] = draws(lambda ax: P().plot_contours(ax=ax))
        a["plot_fun"] = draws(lambda ax: P().plot_fun_contours(mesh=mesh, N=N, ax=ax, terms="bayes", levels=lv))
    return {k: a[k] for k in rng.sample(sorted(a), rng.choice([4, 6]))}


def c_linear(ctx, rng):
    r = Rec(ctx, "linear")
    ns, di = rng.choice([(1, 2), (2, 2), (1, 1), (2, 3), (3, 2)])
    Am = rnd(rng, ns, di) + np.eye(ns, di) * 5
    args = {"A": r.own("A", A(rng, Am))}
    for k, v, pr in [("b", rnd(rng, ns), 0.7), ("y", rnd(rng, ns), 0.9), ("mean_i", rnd(rng, di), 0.7), ("cov_i", spd(rng, di), 0.7),
                     ("cov_o", spd(rng, ns), 0.7)]:
        if rng.random() < pr:
            v = v.reshape(-1, 1) if v.ndim == 1 and rng.random() < 0.5 else v
            args[k] = r.own(k, A(rng, v))
    if rng.random() < 0.3:
        args["alpha"] = rng.choice([0.5, 2.0])
    cell = {}
    asks = lin_asks(rng, r, lambda: cell["P"], ns, di)
    made, who = r.event("new", lambda: LinearGaussianProblem(**args))
    if not isinstance(made, Raised):
        cell["P"] = made
        play(rng, r, who, asks, rng.choice([3, 6, 9]), ["A", "b", "y", "mean_i", "cov_i", "cov_o"])
    r.done()


def c_lwme(ctx, rng):
    r = Rec(ctx, "linear-wme")
    q, di = rng.choice([1, 2]), 2
    ops, dat, sds = [], [], []
    for _ in range(q):
        m = rng.choice([1, 2, 4])
        rep = rng.random() < 0.4
        ops.append(rnd(rng, 1 if rep else m, di) + np.eye(1 if rep else m, di) * 4)
        v = rnd(rng, m)
        dat.append(rng.choice([v, v.reshape(-1, 1), v.tolist()]))
        sds.append(0.5 if rep or m == 1 else rng.choice([0.5, [0.5] * m, np.array([0.25] * m)]))
    ops, dat = r.own("operators", ops), r.own("data", dat)
    sig = r.own("sigma", sds) if rng.random() < 0.7 or any(not isinstance(s, float) for s in sds) else 0.5
    args = {}
    for k, v in [("y", rnd(rng, q)), ("mean_i", rnd(rng, di)), ("cov_i", spd(rng, di)), ("cov_o", spd(rng, q))]:
        if rng.random() < 0.5:
            args[k] = r.own(k, A(rng, v))
    cell = {}
    asks = lin_asks(rng, r, lambda: cell["P"], q, di)
    if rng.random() < 0.5:
        for _ in range(2):
            r.event("call", lambda: util.transform_linear_setup(ops, dat, sig), key="setup")
    made, who = r.event("new", lambda: LinearWMEProblem(ops, dat, sig, **args))
    if not isinstance(made, Raised):
        cell["P"] = made
        play(rng, r, who, asks, rng.choice([3, 6]), ["operators", "data", "sigma", "y", "mean_i", "cov_i", "cov_o"])
    r.done()


def c_iter(ctx, rng):
    r = Rec(ctx, "iterative")
    ns, di = rng.choice([(2, 2), (3, 2), (2, 3)])
    Am = r.own("A", A(rng, rnd(rng, ns, di) + np.eye(ns, di) * 4, lists=False))
    a = lambda k, v: r.own(k, A(rng, v.reshape(-1, 1) if rng.random() < 0.5 else v, lists=False))
    b, y, m = a("b", rnd(rng, ns)), a("y", rnd(rng, ns)), a("mean", rnd(rng, di))
    C, Co = r.own("cov", A(rng, spd(rng, di), lists=False)), r.own("data_cov", A(rng, spd(rng, ns), lists=False))
    order = r.own("order", rng.choice([list(range(ns)), list(range(ns))[::-1], [0, 1, 0], np.arange(ns)]))
    ref = r.own("ref", A(rng, rnd(rng, di)))
    refc = r.own("refc", rnd(rng, di, 1))
    kc = r.own("note_loc", [0.1, 0.1])
    kw = {}
    for k, v in [("mu_i", m), ("cov", C), ("data_cov", Co), ("idx_order", order)]:
        if rng.random() < 0.7:
            kw[k] = v
    made, who = r.event("new", lambda: IterativeLinearProblem(Am, b, y, **kw))
    if not isinstance(made, Raised):
        steps = {
            "errors": lambda: made.get_errors(ref),
            "plot_error": draws(lambda ax: made.plot_chain_error(ref, ax=ax)),
            "n": lambda: [made.n_params, made.n_samples],
        }
        if di == 2:
            steps["plot_chain"] = draws(lambda ax: made.plot_chain(refc, ax=ax, note_loc=kc))
            steps["plot_contours"] = draws(lambda ax: made.plot_contours(ref=refc, ax=ax))
            steps["plot_contours:default"] = draws(lambda ax: made.plot_contours(ax=ax))
        for k in range(rng.choice([1, 2])):
            # solving goes on from the last point: a new history of answers
            r.event("give", lambda: made.solve(num_epochs=rng.choice([1, 2])), who=who)
            play(rng, r, who, steps, rng.choice([2, 4]))
    f = rng.choice([
        lambda: funs.iter_lin_solve(Am, b, y, m, C, Co, num_epochs=2, idx_order=order),
        lambda: funs.iterate(Am, b, y, m, C, data_cov=Co, num_epochs=3, idx=order),
        lambda: funs.performEpoch(Am, b, y, m, C, idx=order),
    ])
    for _ in range(2):
        r.event("call", f, key="function")
    r.done()


def c_spatio(ctx, rng):
    r = Rec(ctx, "spatio")
    n, p, E, T = rng.choice([5, 8] * 4 + [400]), rng.choice([1, 2]), rng.choice([3, 4]), rng.choice([2, 3])
    lam = np.array([[rng.random() for _ in range(p)] for _ in range(n)])
    df = {
        "lam": A(rng, lam, lists=False), "domain": A(rng, np.array([[-1.0, 2.0]] * p)), "lam_ref": A(rng, np.array([0.5] * p)),
        "sensors": np.array([[rng.random(), rng.random()] for _ in range(E)]), "times": np.arange(T) / 2, "std_dev": 0.5,
        "data": rnd(rng, n, E * T) + np.array([[rng.random() for _ in range(E * T)] for _ in range(n)]),
        "measurements": A(rng, rnd(rng, E * T)), "true_vals": A(rng, rnd(rng, E * T)),
    }
    if rng.random() < 0.3:
        df["data"] = df["data"].reshape(n, E, T)
    df = r.own("df", df)
    cols = r.own("columns", {"lam": "lam"})
    half = lambda k: rng.choice([[0, k - 1], np.arange(k)[::-1], np.array([i != 1 for i in range(k)]), list(range(k))])
    sm = r.own("samples_mask", rng.choice([list(range(n - 1)), np.array([i != 0 for i in range(n)]), np.arange(n)[::-1]]))
    tm, em = r.own("times_mask", half(T)), r.own("sensors_mask", half(E))
    dw = r.own("data_weights", A(rng, np.array([rng.choice([1, 2, 3]) for _ in range(E * T)])))
    sw = r.own("sample_weights", A(rng, np.array([rng.choice([1, 2, 3]) for _ in range(n)])))
    ref = r.own("reference", A(rng, rnd(rng, E * T)))
    cv = r.own("c_vals", rnd(rng, E) + np.arange(E))
    mk, sk = r.own("meas_kwargs", {"color": "b"}), r.own("samples_kwargs", {"color": "g", "alpha": 0.5})
    kk = r.own("kw", {"levels": [0.0, 1.0, 2.0]})
    ms = r.own("some_sensors", [0, 1, 2])
    made, who = r.event("new", lambda: SpatioTemporalProblem(df))
    if isinstance(made, Raised):
        return r.done()
    masks = dict(samples_mask=sm, times_mask=tm, sensors_mask=em)
    asks = {
        "sample_data": lambda: made.sample_data(**masks), "sample_data:all": lambda: made.sample_data(),
        "closest": lambda: made.get_closest_to_measurements(**masks), "closest_true": lambda: made.get_closest_to_true_vals(),
        "validate": lambda: made.validate(check_true=True),
        "plot_ts": draws(lambda ax: made.plot_ts(ax=ax, samples=sm, times=tm, sensor_idx=1, meas_kwargs=mk, samples_kwargs=sk)),
        "plot_ts:default": draws(lambda ax: made.plot_ts(ax=ax)),
        "scatter": draws(lambda ax: made.sensor_scatter_plot(ax=ax, mask=ms, **mk)),
        "contour": draws(lambda ax: made.sensor_contour_plot(ax=ax, mask=ms, c_vals=cv[:3], colorbar=False, **kk)),
        "contour:time": draws(lambda ax: made.sensor_contour_plot(ax=ax, c_vals=cv, colorbar=False, fill=False)),
    }
    for m in ("wme", "pca", "svd"):
        asks["mud:" + m] = lambda m=m: made.mud_problem(method=m, num_components=1, **{k: v for k, v in masks.items() if k != "samples_mask"})
        asks["mudw:" + m] = lambda m=m: made.mud_problem(method=m, num_components=2, data_weights=dw, sample_weights=sw)
    ks = rng.sample(sorted(asks), 6)
    sets = [lambda: made.measurements_from_reference(ref, 0.1, seed=3), lambda: made.load(df, **cols)]
    play(rng, r, who, {k: asks[k] for k in ks}, rng.choice([3, 6]), (), sets)
    r.done()


def c_functions(ctx, rng):
    r = Rec(ctx, "functions")
    ns, di = rng.choice([(2, 2), (1, 2), (2, 3)])
    n = rng.choice([6, 6, 6, 400])
    a = lambda k, v, lists=False: r.own(k, A(rng, v, lists=lists))
    Am, b, y, m = a("A", rnd(rng, ns, di) + 4 * np.eye(ns, di)), a("b", rnd(rng, ns, 1)), a("y", rnd(rng, ns, 1)), a("mean", rnd(rng, di, 1))
    C, Co = a("cov", spd(rng, di)), a("data_cov", spd(rng, ns))
    pred, dat = a("pred", rnd(rng, n, 4)), a("obs", rnd(rng, 4), lists=True)
    pred1 = a("pred1", rnd(rng, 4))
    Z = a("Z", rnd(rng, n, 3) + np.eye(n, 3))
    dom = a("domain", np.array([[0.0, 1.0], [-1.0, 2.0]]), lists=True)
    vec = a("vec", rnd(rng, 4), lists=True)
    lvec = r.own("vectors", [rnd(rng, 3), rnd(rng, 3)])
    mk = r.own("markers", ["o", "x"])
    kw = r.own("options", {"color": "r"})
    kp = r.own("pca_options", {"whiten": True})
    ks = r.own("svd_options", {"full_matrices": False})
    ptsM = a("inputs", rnd(rng, 4 if n == 6 else 700, di))
    ref = a("ref", rnd(rng, 2))
    chain = r.own("chain", [rnd(rng, 2, 1) for _ in range(3)])
    sub = r.own("subset", rng.choice([[0], np.array([0])]))
    A2 = a("A2", rnd(rng, 2, 2) + 4 * np.eye(2))
    om = a("obs_mean", rnd(rng, 1, ns))
    sdl = r.own("std", rng.choice([[0.5] * ns, np.array([0.25] * ns)])) if ns > 1 else 0.5
    F = {
        "wme": lambda: funs.wme(pred, dat, 0.5), "wme:std": lambda: funs.wme(pred, dat), "wme:1": lambda: funs.wme(pred1, dat, 0.5),
        "updated_cov": lambda: funs.updated_cov(Am, C, Co), "updated_cov:default": lambda: funs.updated_cov(Am),
        "lin_prob": lambda: funs.lin_prob(Am, b, y, m, C, Co), "mud_sol": lambda: funs.mud_sol(Am, b, y, m, C, Co),
        "mud_sol_with_cov": lambda: funs.mud_sol_with_cov(Am, b, y, m, C, Co), "map_sol": lambda: funs.map_sol(Am, b, y, m, C, Co, w=2),
        "map_sol_with_cov": lambda: funs.map_sol_with_cov(Am, b, y, m, C, Co, w=2),
        "inner_product": lambda: norm.inner_product(np.asarray(m), C),
        "full_functional": lambda: norm.full_functional(Am, ptsM, b, m, C, om, Co),
        "full_functional:default": lambda: norm.full_functional(Am, ptsM, b, m, C),
        "norm_input": lambda: norm.norm_input(ptsM, m, C), "norm_data": lambda: norm.norm_data(Am, ptsM, b, om, Co),
        "norm_predicted": lambda: norm.norm_predicted(Am, ptsM, m, C),
        "pca": lambda: preprocessing.pca(Z, 2), "pca:kw": lambda: preprocessing.pca(Z, 2, **kp),
        "svd": lambda: preprocessing.svd(Z), "svd:kw": lambda: preprocessing.svd(Z, **ks),
        "transform": lambda: util.transform_linear_map(Am, b, sdl), "null_space": lambda: util.null_space(Am),
        "setup": lambda: util.transform_linear_setup([Am], [b], [sdl]),
        "add_noise": lambda: util.add_noise(vec, 0.5, seed=4), "rank": lambda: util.rank_decomposition(Am),
        "fit_domain": lambda: util.fit_domain(Z), "fit_domain:box": lambda: util.fit_domain(min_max_bounds=dom, pad_ratio=0.5),
        "set_shape": lambda: util.set_shape(pred1, (-1, 1)), "set_shape:2": lambda: util.set_shape(pred, (1, -1)),
        "grid": lambda: plot.build_nd_mesh_grid(dom, aff=4),
        "plot_dist": draws(lambda ax: plot.plot_dist(dist.norm(0, 1), dom, ax=ax, source="pdf", aff=AFF, **kw)),
        "plot_vecs": draws(lambda ax: plot.plot_1D_vecs(lvec, markers=mk, ax=ax, **kw)),
        "plot_vecs:label": draws(lambda ax: plot.plot_1D_vecs(lvec, ax=ax, label=False)),
        "plot_line": draws(lambda ax: plot.plot_vert_line(ax, 0.5, **kw)),
        "plot_contours": draws(lambda ax: plot.plot_contours(A2, ref, subset=sub, **r.own2)),
        "plotChain": draws(lambda ax: plot.plotChain(chain, ref)),
        "std": lambda: util.std_from_equipment(0.2, 0.9), "meshes": lambda: [util.make_2d_unit_mesh(3), plot.make_2d_normal_mesh(3)],
    }
    r.own2 = r.own("contour_options", {"alpha": 0.5})
    ks_ = rng.sample(sorted(F), 9)
    for k in ks_ + rng.sample(ks_, len(ks_)):
        r.event("call", F[k], key=k)
    r.done()


def c_wrappers(ctx, rng):
    """problems made by the wrappers; their arrays are the caller's too"""
    r = Rec(ctx, "wrappers")
    n, p, d = rng.choice([6, 9] * 4 + [300]), rng.choice([1, 2]), rng.choice([2, 3, 4])
    lam = r.own("lam", A(rng, rnd(rng, n, p) if p > 1 or rng.random() < 0.5 else rnd(rng, n), lists=False))
    qoi = r.own("qoi", A(rng, rnd(rng, n, d) + 0.1 * np.arange(n * d).reshape(n, d), lists=False))
    tru = r.own("qoi_true", A(rng, rnd(rng, d), lists=False))
    dom = r.own("domain", A(rng, np.array([[-3.0, 3.0]] * p)))
    w = r.own("weights", A(rng, np.array([rng.choice([1, 2]) for _ in range(n)])))
    split = r.own("split", [np.array([0]), np.arange(1, d)])
    meas = r.own("measurements", A(rng, rnd(rng, d)))
    times = r.own("times", np.arange(d))
    sens = r.own("sensors", np.array([0]))
    z = rng.choice(["mud", "mud", "split", "map", "data"])
    seed = rng.randrange(1000)
    init = dist.uniform(loc=-3, scale=6)

    def make():
        np.random.seed(seed)
        if z == "mud":
            return funs.mud_problem(lam, qoi, tru, dom, sd=0.5, num_obs=rng.choice([None, d - 1]), weights=w)
        if z == "split":
            return funs.mud_problem(lam, qoi, tru, dom, sd=0.5, split=split, weights=w)
        if z == "map":
            return funs.map_problem(lam, qoi, tru, dom, sd=0.5, num_obs=rng.choice([None, d - 1]), log=rng.random() < 0.5)
        return funs.data_prob(lam, qoi, measurements=meas, std_dev=0.5, domain=dom, times=times, sensors=sens, init_dist=init)

    if z in ("mud", "split"):
        cell = {}
        asks = {"estimate": lambda: cell["P"].estimate(), "ratio": lambda: cell["P"].expected_ratio()}
    else:
        cell = {}
        asks = {"estimate": lambda: cell["P"].estimate()}
    made, who = r.event("new", make)
    if not isinstance(made, Raised):
        cell["P"] = made
        play(rng, r, who, asks, rng.choice([3, 5]), ["lam", "qoi", "qoi_true", "domain", "weights", "measurements"])
    r.done()


KINDS = [(c_density, 4), (c_bayes, 3), (c_linear, 3), (c_lwme, 2), (c_iter, 2), (c_spatio, 3), (c_functions, 3), (c_wrappers, 2)]


def c04_traces(ctx):
    rng = ctx.rng
    bag = [k for k, w in KINDS for _ in range(w)]
    seen = {}
    for it in range(ctx.scale(330, 3300)):
        k = bag[it % len(bag)]
        k(ctx, rng)
        seen[k.__name__] = seen.get(k.__name__, 0) + 1
    ctx.notes["histories"] = seen
    ctx.notes["mutable_defaults_watched"] = [n for n, _ in DEFAULTS]


# --------------------------------------------- replay of MC_Alias's histories
def val(kind, name, v, cap=False):
    """contents of the caller's array `name`, version v"""
    s = {"X": 0, "y": 1, "domain": 2, "weights": 3, "w2": 4, "A": 5, "b": 6, "mean_i": 7, "cov_i": 8, "cov_o": 9}[name]
    t = np.arange(6.0)
    if kind in ("density", "bayes"):
        out = {"X": ((t * 7 + 3 * v) % 6 - 2)[:, None] / 2 if v else (t - 2)[:, None] / 2,
               "y": (((t * 5 + 2) % 6) / 3 if v else np.cos(t))[:, None],
               "domain": np.array([[-4.0, 5.0 + v]]), "weights": 1 + (t * (2 + v)) % 3, "w2": 2 + (t + v) % 4}
        return out[name]
    rs = np.random.RandomState(10 * s + v)
    if name == "A":
        return rs.randint(-3, 4, (2, 3)) + 5.0 * np.eye(2, 3)
    if name in ("cov_i", "cov_o"):
        m = 3 if name == "cov_i" else 2
        L = np.tril(rs.randint(-1, 2, (m, m))) + 2.0 * np.eye(m)
        return L @ L.T
    return rs.randint(-4, 5, (3 if name == "mean_i" else 2, 1)) + 0.5


def build(kind, arr):
    if kind == "density":
        P = DensityProblem(arr["X"], arr["y"], **{k: arr[k] for k in ("domain", "weights") if k in arr})
        P.set_initial(dist.norm(0, 2))
        P.set_observed(dist.norm(0.2, 0.5))
        return P
    if kind == "bayes":
        P = BayesProblem(arr["X"], arr["y"], **{k: arr[k] for k in ("domain",) if k in arr})
        P.set_likelihood(dist.norm(0.2, 0.5))
        return P
    return LinearGaussianProblem(**arr)


LINPTS = np.array([[0.5, -1.0, 2.0], [1.0, 0.0, 0.0]])


def question(kind, P, a):
    if a == "plot_param":
        return draws(lambda ax: P.plot_param_space(ax=ax, aff=AFF))
    if a == "plot_obs":
        return draws(lambda ax: P.plot_obs_space(ax=ax, aff=AFF))
    if kind == "lin":
        if a == "functionals":
            return lambda: P.compute_functionals(LINPTS)
        if a == "updated_cov":
            return lambda: P.updated_cov()
        return lambda: P.solve(method=a)
    return getattr(P, a)


def c04_edges(ctx):
    for name in ("alias_density", "alias_bayes", "alias_lin"):
        kind = name.split("_")[1]
        by = {}
        with open(os.path.join(ctx.work, name + ".edges")) as fp_:
            for line in fp_:
                e = json.loads(line)
                es = by.setdefault(json.dumps(e["from"], sort_keys=True), [])
                if e not in es:
                    es.append(e)
        tos = {json.dumps(e["to"], sort_keys=True) for es in by.values() for e in es}
        (init,) = [k for k in by if k not in tos or json.loads(k)["prob"]["k"] == "none"]
        fresh = {}

        def expected(cap, a):
            key = (json.dumps(cap, sort_keys=True), a)
            if key not in fresh:
                P = build(kind, {s: val(kind, c["n"], c["v"]) for s, c in cap.items() if c["n"]})
                fresh[key] = plain(call(question(kind, P, a)))
            return fresh[key]

        def start():
            return dict(heap={n: val(kind, n, 0) for n in json.loads(init)["heap"]}, ver={}, P=None)

        def step(w, e):
            """one labelled step on the real objects"""
            if e["op"] == "new":
                w["P"] = call(build, kind, {s: w["heap"][n] for s, n in e["a"].items() if n})
                return w["P"]
            if e["op"] == "give":
                return call(w["P"].set_weights, w["heap"][e["a"]])
            if e["op"] == "ask":
                return call(question(kind, w["P"], e["a"]))
            v = w["ver"][e["a"]] = w["ver"].get(e["a"], 0) + 1
            w["heap"][e["a"]][...] = val(kind, e["a"], v)

        def judge(w, e, r, path):
            det = lambda: dict(kind=kind, path=[(x["op"], x["a"]) for x in path], step=(e["op"], e["a"]), got=repr(plain(r))[:800])
            P = w["P"]
            ctx.direct(not isinstance(P, Raised) and (e["op"] == "ask" or not isinstance(r, Raised)), kind + ":accepted", det)
            if isinstance(P, Raised):
                return
            for nm, v in e["to"]["heap"].items():
                ctx.direct(fp(w["heap"][nm]) == fp(val(kind, nm, v)), kind + ":caller-array:" + nm, det)
            cap = e["to"]["prob"]["cap"]
            for s, c in cap.items():
                if s != "weights" and c["n"]:
                    ctx.direct(same(np.asarray(getattr(P, s), float).ravel(), val(kind, c["n"], c["v"]).ravel()),
                               kind + ":problem-input:" + s, det)
            if e["op"] == "ask":
                ctx.direct(same(plain(r), expected(cap, e["a"])), kind + ":answer:" + e["a"], det)

        paths = {init: []}
        todo = deque([init])
        n = k = 0
        while todo:
            key = todo.popleft()
            es = by.get(key, [])
            asks = [e for e in es if e["op"] == "ask" and (ctx.thorough or not e["a"].startswith("plot") or k % 3 == 0)]
            k += 1
            ctx.rng.shuffle(asks)
            # questions leave everything as it is: all of them, one after the other, in one run
            w = start()
            for e in paths[key]:
                step(w, e)
            for i, e in enumerate(asks):
                judge(w, e, step(w, e), paths[key] + asks[:i])
                n += 1
            cheap = [e for e in asks if not e["a"].startswith("plot")]
            for e in es:
                if e["op"] == "ask":
                    continue
                # the way to a new state goes through a question, so that what is kept is there to be disturbed
                path = paths[key] + cheap[:1]
                w = start()
                for x in path:
                    step(w, x)
                judge(w, e, step(w, e), path)
                n += 1
                to = json.dumps(e["to"], sort_keys=True)
                if to not in paths:
                    paths[to] = path + [e]
                    todo.append(to)
        ctx.notes[name + "_steps_replayed"] = n
        ctx.notes[name + "_states"] = len(paths)
