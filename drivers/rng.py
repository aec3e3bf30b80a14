"""The stream of random numbers and the settings of the process (T_Rng, MC_Rng)."""
import hashlib
import json
import os
import random
import tempfile

import matplotlib
import numpy as np
from matplotlib import pyplot as plt
from scipy.stats import distributions as dist

import alias
from alias import draws, rnd, spd
from enc import Raised, call
from mud import funs, norm, plot, preprocessing, util
from mud.base import (BayesProblem, DensityProblem, IterativeLinearProblem, LinearGaussianProblem, LinearWMEProblem,
                      SpatioTemporalProblem)


# ------------------------------------------------------------ what is watched
ODD = dict(divide="warn", over="print", under="ignore", invalid="call")


def watched(fn):
    """run fn under error handling of the caller's own -> (outcome, whether the settings are as they were)"""
    seen = []

    def g():
        with np.errstate(call=lambda *a: None, **ODD):
            before = settings()
            try:
                return fn()
            finally:
                after = settings()
                seen.append(None if after == before else after)

    r = call(g)
    return r, seen[0] if seen else None


def state_key(s=None):
    s = np.random.get_state() if s is None else s
    return hashlib.md5(np.asarray(s[1]).tobytes()).hexdigest() + f":{s[2]}:{s[3]}:{s[4] if s[3] else 0!r}"


def settings():
    """everything of the process that a call has no business changing"""
    files = sorted((n, os.path.getsize(n)) for n in os.listdir("."))
    rc = hashlib.md5(repr(sorted((k, repr(v)) for k, v in matplotlib.rcParams.items())).encode()).hexdigest()
    env = hashlib.md5(repr(sorted(os.environ.items())).encode()).hexdigest()
    py = hashlib.md5(repr(random.getstate()).encode()).hexdigest()
    return repr((sorted(np.geterr().items()), sorted((k, repr(v)) for k, v in np.get_printoptions().items()), rc, env, py, os.getcwd(), files))


class Streams:
    """the streams there are, and where in them the generator can be"""

    K = 160

    def __init__(self):
        self.base, self.where = {}, {}

    def known(self, name, state):
        if name in self.base:
            return
        r = np.random.RandomState()
        r.set_state(state)
        put = lambda st, k: self.where.setdefault(state_key(st), []).append({"base": name, "pos": k})
        put(state, 0)
        vals = []
        for k in range(self.K):
            vals.append(float(r.randn()))
            put(r.get_state(), k + 1)
        self.base[name] = np.array(vals)

    def seeded(self, k):
        if k and k not in self.base:
            self.known(k, np.random.RandomState(int(k)).get_state())

    def at(self):
        """all names of the place the generator is at (a choice of series may consume as much as some noise)"""
        return list(self.where.get(state_key(), []))

    def term(self, v):
        return [{"b": b, "i": int(i) + 1} for b, vals in self.base.items()
                for i in np.flatnonzero(np.abs(vals - v) <= (0.034 if isinstance(v, Coarse) else 1e-7 * max(1.0, abs(v))))]


class Rec(alias.Rec):
    """histories of the ownership catalogue, watching the generator and the settings instead"""

    free = staticmethod(lambda r, op, key: False)

    def start(self):
        self.started = True
        self.S = Streams()
        np.random.seed(self.ctx.rng.randrange(2**31))
        np.random.randn(self.ctx.rng.choice([0, 0, 1]))
        self.S.known("start", np.random.get_state())
        self.sets = []
        self.rec = dict(start="start", set0=self.setid(settings()))

    def setid(self, s):
        if s not in self.sets:
            self.sets.append(s)
        return self.sets.index(s) + 1

    def event(self, op, fn=None, who=0, key="", wrote=()):
        if not self.started:
            self.start()
        was = np.random.get_state()
        r, bad = watched(fn) if fn is not None else (None, None)
        if op == "new" and not isinstance(r, Raised):
            who = len(self.probs) + 1
            self.probs[who] = r
        if op == "write":
            return r, who
        s = 1 if bad is None else self.setid(bad)
        name = f"s{len(self.ev) + 1}"
        if key.startswith("plot_ts") and self.free(self, op, key) and not isinstance(r, Raised):
            # the same choice from the same place: the series chosen, and where it ends, are the same
            self.S.known(name, np.random.get_state())
            self.ev.append(dict(op="free", name=name, key=f"{op}:{key}", seed="", n=0, reveals=False, terms=[], at=self.S.at(), set=s))
            np.random.set_state(was)
            r2, bad = watched(fn)
            one, two = alias.plain(r), alias.plain(r2)
            self.ev.append(dict(op="again", name="", key=f"{op}:{key}", seed="", n=0, reveals=False, terms=[], at=self.S.at(),
                                set=1 if bad is None else self.setid(bad), seen=[1, 1 if alias.same(one, two) else 2]))
            return r, who
        if self.free(self, op, key):
            self.S.known(name, np.random.get_state())
            e = dict(op="free", name=name)
        else:
            e = dict(op="quiet", name="")
        self.ev.append(dict(e, key=f"{op}:{key}", seed="", n=0, reveals=False, terms=[], at=self.S.at(), set=s))
        return r, who

    def noise(self, via, seed, n, o):
        """o: outcome of noise() below"""
        self.S.seeded(seed)
        if o is None:  # refused
            name = f"s{len(self.ev) + 1}"
            self.S.known(name, np.random.get_state())
            e = dict(op="free", name=name, key=via, seed="", n=0, reveals=False, terms=[])
        else:
            e = dict(op="noise", name="", key=via, seed=seed, n=n, reveals=len(o) == n and n > 0, terms=[self.S.term(v) for v in o])
        self.ev.append(dict(e, at=self.S.at(), set=self.setid(settings())))

    def reseed(self, k):
        np.random.seed(int(k))
        self.S.seeded(k)
        self.ev.append(dict(op="seed", name="", key="", seed=k, n=0, reveals=False, terms=[], at=self.S.at(), set=self.setid(settings())))

    def done(self):
        if self.ev:
            self.rec["ev"] = self.ev
            self.ctx.case("T_Rng", self.rec, key=(self.kind, json.dumps([(e["op"], e["key"]) for e in self.ev])))


def _draws(r, op, key):
    return key.startswith("plot_ts") or key == "add_noise" or r.kind == "spatio" and op == "give" or r.kind == "wrappers" and op == "new"


# ------------------------------------------------------------- noise, observed
class Coarse(float):
    """a number seen to within 1/30"""


def map_noise(rng, n, sig, sd):
    """samples whose outputs lie on a grid about the noiseless data: the most likely one is next to the data drawn"""
    g = np.linspace(-2.5, 2.5, 76)
    G = g[:, None] if n == 1 else np.array([[a, b] for a in g for b in g])
    X = np.arange(len(G), dtype=float)
    B = call(funs.map_problem, X, sig + sd * G, sig, np.array([[-1.0, len(G)]]), sd=sd, **({"log": True} if rng.random() < 0.5 else {}))
    if isinstance(B, Raised):
        return None
    o = call(B.map_point)
    if isinstance(o, Raised):
        return []
    z = G[int(round(float(np.ravel(o)[0])))]
    return [] if np.any(np.abs(z) > 2.45) else [Coarse(v) for v in z]


def noise(rng, via, n, seed=None):
    """n numbers of noise through entry point `via` -> standard normal values drawn ([]: unseen, None: refused)"""
    sd = rng.choice([0.05, 0.5, 1.0, 2.0, 10.0])
    kw = {} if seed is None else {"seed": seed}
    if seed is None and rng.random() < 0.3:
        kw = {"seed": None}
    sig = np.array([rng.randint(-8, 8) / 4 for _ in range(n)])
    if via == "add_noise":
        shape = rng.choice([(n,), (n, 1), (1, n)] + ([(n // 2, 2)] if n % 2 == 0 else []) + ([()] if n == 1 else []))
        a = sig.reshape(shape)
        if sd == 0.05 and rng.random() < 0.5:
            o = call(util.add_noise, a, **kw)
        else:
            o = call(util.add_noise, a.tolist() if rng.random() < 0.4 else a, sd, **kw)
    elif via == "reference":
        P = SpatioTemporalProblem({"lam": rnd(rng, 3, 1), "data": rnd(rng, 3, n), "domain": [[-3.0, 3.0]], "sensors": np.arange(n, dtype=float),
                                   "times": np.array([0.0])})
        if isinstance(P, Raised):
            return None
        if rng.random() < 0.5:
            P.true_vals, P.std_dev = sig, sd
            o = call(P.measurements_from_reference, **kw)
        else:
            o = call(P.measurements_from_reference, sig, sd, **kw)
        o = o if isinstance(o, Raised) else P.measurements
    elif via == "map" and n <= 2 and rng.random() < 0.5:
        return map_noise(rng, n, sig, sd)
    elif via in ("mud", "split", "map"):
        X = rnd(rng, 4, 1)
        extra = rng.choice([0, 0, 2])
        Q = rnd(rng, 4, n + extra) + 0.1 * np.arange(4)[:, None]
        t = np.concatenate([sig, np.zeros(extra)])
        k = {"num_obs": n} if extra or rng.random() < 0.4 else {}
        if via == "map":
            o = call(funs.map_problem, X, Q, t, np.array([[-3.0, 3.0]]), sd=sd, **k)
            return None if isinstance(o, Raised) else []
        if via == "split":
            k["split"] = [np.array([i]) for i in range(n)]
            if extra and rng.random() < 0.6:  # outputs beyond those observed are left out of their group
                k["split"] = [np.append(s, n + rng.randrange(extra)) for s in k["split"]]
        o = call(funs.mud_problem, X, Q, t, np.array([[-3.0, 3.0]]), sd=sd, **k)
        if isinstance(o, Raised):
            return None
        if via == "mud" and n > 1:
            return []
        y = np.asarray(o.y, float)
        return list((Q[0, :n] - t[:n]) / sd - y[0])
    if isinstance(o, Raised):
        return None
    return list((np.asarray(o, float).ravel() - sig) / sd)


# --------------------------------------------------------- quiet calls, by name
def quiet(rng, name):
    """a call that draws nothing"""
    n, p, d = rng.choice([5, 8, 40]), rng.choice([1, 2]), rng.choice([1, 2])
    X, y = rnd(rng, n, p) + 0.01 * np.arange(n)[:, None], rnd(rng, n, d) + 0.1 * np.arange(n * d).reshape(n, d)
    A, b, z = rnd(rng, 2, 3) + 4 * np.eye(2, 3), rnd(rng, 2, 1), rnd(rng, 2, 1)
    m, C, Co = rnd(rng, 3, 1), spd(rng, 3), spd(rng, 2)
    Z = rnd(rng, 6, 3) + np.eye(6, 3)

    def density():
        D = DensityProblem(X, y, domain=[[-5.0, 5.0]] * p, weights=np.arange(1.0, n + 1) if rng.random() < 0.5 else None)
        if rng.random() < 0.5:
            D.set_initial(dist.norm(0, 2))
        D.set_observed(dist.norm(0, 1))
        if rng.random() < 0.5:
            D.set_predicted(bw_method=0.7)
        D.fit()
        D.mud_point(), D.estimate(), D.expected_ratio()
        return D

    def bayes():
        P = BayesProblem(X, y, domain=[[-5.0, 5.0]] * p)
        P.set_likelihood(dist.norm(0, 1), log=rng.random() < 0.5)
        P.map_point(), P.estimate()
        return P

    def spat():
        dat = rnd(rng, n, 6) + 0.1 * np.arange(6 * n).reshape(n, 6)
        if rng.random() < 0.4:  # samples that agree
            dat[n // 2:] = dat[: n - n // 2]
        P = SpatioTemporalProblem({"lam": X, "data": dat, "sensors": rnd(rng, 3, 2),
                                   "times": np.array([0.0, 1.0]), "domain": [[-5.0, 5.0]] * p, "std_dev": 0.5,
                                   "measurements": rnd(rng, 6), "true_vals": rnd(rng, 6)})
        return P

    def lin():
        return LinearGaussianProblem(A, b, z, m, C, Co)

    def refused():
        call(DensityProblem, X, y[:-1])
        call(lin().solve, method="no such method")
        call(spat().mud_problem, method="no such method")
        call(funs.mud_problem, X, y, np.zeros(d), [[-5.0, 5.0]] * p, num_obs=d + 2)
        call(funs.map_problem, X, y, np.zeros(d), [[-5.0, 5.0]] * p, num_obs=0)
        call(SpatioTemporalProblem, {"lam": X})
        call(SpatioTemporalProblem().measurements_from_reference, seed=5)

    def iterated(ax=None):
        P = IterativeLinearProblem(A, z, b, m, C)
        P.solve(num_epochs=2)
        return P

    def big():
        """sizes at which implementations change their ways"""
        r, c = rng.choice([(520, 3), (520, 40), (6, 520), (1100, 2), (30, 41)])
        M = np.cos(np.arange(r * c, dtype=float) ** 1.1).reshape(r, c)
        z = rng.choice(["pca", "svd", "density", "bayes", "nearest", "mesh", "map:pca"])
        if z == "pca":
            preprocessing.pca(M, rng.choice([1, 2]))
        elif z == "svd":
            preprocessing.svd(M)
        elif z in ("density", "bayes"):
            P = (DensityProblem if z == "density" else BayesProblem)(M[:, :1], M[:, 1:2])
            (P.set_observed if z == "density" else P.set_likelihood)(dist.norm(0, 1))
            P.estimate()
        elif z == "mesh":
            plot.build_nd_mesh_grid([[0.0, 1.0]] * 3, aff=15), plot.plot_dist
        else:
            P = SpatioTemporalProblem({"lam": M[:, :1], "data": M, "sensors": np.array([0.0]), "times": np.arange(1.0 * c), "std_dev": 0.5,
                                       "domain": [[-5.0, 5.0]], "measurements": M[0] + 0.1})
            P.get_closest_to_measurements() if z == "nearest" else P.mud_problem(method="pca", num_components=1)

    def styled(ax):
        """plots with every option that styles them, on axes given or made for the purpose"""
        a = {"ax": ax} if rng.random() < 0.6 else {}
        o = {"color": "C3", "linestyle": ":", "linewidth": 2.5, "label": "L", "alpha": 0.4}
        z = rng.choice(["scatter", "contour", "params2d", "qoi", "density", "bayes", "contours", "sol", "fun", "chain", "error", "vecs", "dist", "save"])
        cm = {"cmap": rng.choice(["magma", "Greys"])}
        if z == "scatter":
            spat().sensor_scatter_plot(mask=[0, 2], c=np.array([0.0, 3.0]), colorbar=rng.random() < 0.5, s=30, vmin=-1, **cm, **a)
        elif z == "contour":
            spat().sensor_contour_plot(c_vals=np.array([0.0, 1.0, 3.0]), fill=rng.random() < 0.5, colorbar=rng.random() < 0.5, levels=[0.0, 1.0, 2.0], **cm, **a)
        elif z == "params2d":
            DensityProblem(rnd(rng, 6, 2) + np.arange(12.0).reshape(6, 2), np.arange(6.0) ** 2).plot_params_2d(contours=True, colorbar=rng.random() < 0.5, s=9, **cm, **a)
        elif z == "qoi":
            DensityProblem(X, np.column_stack([y, y[::-1]])).plot_qoi(0, 1, c=np.arange(float(n)), marker="x", **cm, **a)
        elif z == "density":
            D = density()
            D.plot_param_space(aff=7, in_opts=o, up_opts=o, win_opts=o, mud_opts=o, true_val=np.zeros(p), true_opts=o, ylim=rng.choice([None, 2.0]), **a)
            D.plot_obs_space(aff=7, ob_opts=o, pr_opts=o, pf_opts=o, **a)
        elif z == "bayes":
            B = bayes()
            B.plot_param_space(aff=7, pr_opts=o, ps_opts=o, map_opts=o, true_val=np.zeros(p), true_opts=o, **a)
            B.plot_obs_space(aff=7, ll_opts=o, pf_opts=o, **a)
        elif z == "contours":
            lin().plot_contours(annotate=True, label="row {i}", plot_opts=o, annotate_opts={"fontsize": 31}, **a)
            plot.plot_contours(rnd(rng, 2, 2) + 4 * np.eye(2), np.array([0.3, 0.7]), color="C2", ls="--", lw=7, fs=33)
        elif z == "sol":
            lin().plot_sol(rng.choice(["mud", "map", "ls", "initial"]), label="here", pt_opts={"color": "C4", "s": 77}, ln_opts=o, annotate_opts={"fontsize": 29}, **a)
        elif z == "fun":
            LinearGaussianProblem(A[:, :2] + np.eye(2), b, z_, cov_i=C[:2, :2]).plot_fun_contours(N=5, r=2, terms=rng.choice(["dc", "bayes", "data"]), levels=3, **cm, **a)
        elif z == "chain":
            two = IterativeLinearProblem(A[:, :2] + np.eye(2), b, z_)
            two.solve(num_epochs=2)
            two.plot_chain(np.array([0.3, 0.7]), color="C5", s=31, **a)
            plot.plotChain([rnd(rng, 2, 1) for _ in range(3)], np.array([0.3, 0.7]), color="C5", s=31)
        elif z == "error":
            iterated().plot_chain_error(m, alpha=0.3, color="C6", label="e", s=31, fontsize=37, **a)
        elif z == "vecs":
            plot.plot_1D_vecs([rnd(rng, 3), rnd(rng, 3)], markers=["o", "x"], label=rng.random() < 0.5, c="C7", **a)
        elif z == "dist":
            plot.plot_dist(dist.norm(0, 1), [[-2.0, 2.0]], source="pdf", aff=7, **o, **a)
            plot.plot_vert_line(ax, 0.5, ylim=rng.choice([None, 3.0]), **o)
        elif z == "save":
            with tempfile.TemporaryDirectory() as d:
                keep = rng.random() < 0.5
                plt.plot([0, 1], [0, 1])
                plot.save_figure("f.png", save_path=d, close_fig=not keep, dpi=rng.choice([20, 30]), facecolor="C1", **rng.choice([{}, {"bbox_inches": "tight"}]))

    def styles():
        had = set(plt.get_fignums())
        f = plt.figure(figsize=(3, 3))
        try:
            return styled(f.add_subplot(1, 1, 1))
        finally:
            for k in set(plt.get_fignums()) - had:
                plt.close(k)

    z_ = z
    F = {
        "styled": styles,
        "wme": lambda: (funs.wme(y, y[0], 0.5), funs.wme(y, y[0])), "density": density, "bayes": bayes,
        "linear": lambda: (lin().solve(), lin().solve(method="map"), lin().solve(method="ls"), lin().updated_cov(), lin().compute_functionals(Z)),
        "iterative": lambda: (funs.iterate(A, b, z, m, C, num_epochs=2), funs.performEpoch(A, b, z, m, C), funs.iter_lin_solve(A, b, z, m, C)),
        "lwme": lambda: LinearWMEProblem([A, A], [b, b], [0.5, 0.5], mean_i=m, cov_i=C).solve(),
        "iterated": lambda: (iterated(), iterated().get_errors(m)),
        "load": spat, "sample": lambda: spat().sample_data(samples_mask=[0, 1], times_mask=[1]),
        "nearest": lambda: (spat().get_closest_to_measurements(), spat().get_closest_to_true_vals(), spat().validate()),
        "pca": lambda: preprocessing.pca(Z, 2), "svd": lambda: preprocessing.svd(Z),
        "big": big,
        "norms": lambda: (norm.inner_product(m, C), norm.full_functional(A, Z, b, m, C), norm.norm_predicted(A, Z, m, C)),
        "rank": lambda: util.rank_decomposition(A), "nullspace": lambda: util.null_space(A),
        "transform": lambda: util.transform_linear_map(A, b, 0.5), "domain": lambda: util.fit_domain(Z),
        "meshes": lambda: (util.make_2d_unit_mesh(4), plot.build_nd_mesh_grid([[0.0, 1.0], [0.0, 2.0]], aff=5), plot.make_2d_normal_mesh(4)),
        "dist": draws(lambda ax: plot.plot_dist(dist.norm(0, 1), np.array([[-2.0, 2.0]]), ax=ax, source="pdf", aff=7)),
        "params": draws(lambda ax: density().plot_param_space(ax=ax, aff=7)),
        "observed": draws(lambda ax: density().plot_obs_space(ax=ax, aff=7)),
        "params2d": draws(lambda ax: density().plot_params_2d(ax=ax, colorbar=False)) if p > 1 else draws(lambda ax: density().plot_qoi(0, 0, ax=ax)),
        "scatter": draws(lambda ax: spat().sensor_scatter_plot(ax=ax)),
        "contour": draws(lambda ax: spat().sensor_contour_plot(ax=ax, c_vals=np.array([0.0, 1.0, 3.0]), colorbar=False)),
        "contours": draws(lambda ax: plot.plot_contours(rnd(rng, 2, 2) + 4 * np.eye(2), np.array([0.3, 0.7]))),
        "chain": draws(lambda ax: plot.plotChain([rnd(rng, 2, 1) for _ in range(3)], np.array([0.3, 0.7]))),
        "vecs": draws(lambda ax: plot.plot_1D_vecs([rnd(rng, 3), rnd(rng, 3)], ax=ax)),
        "equipment": lambda: util.std_from_equipment(0.2, 0.9),
        "data_prob": lambda: funs.data_prob(X, rnd(rng, n, 3) + 0.1 * np.arange(3 * n).reshape(n, 3), measurements=rnd(rng, 3), std_dev=0.5,
                                            domain=[[-5.0, 5.0]] * p, times=np.arange(3.0), sensors=np.array([0.0]), init_dist=dist.norm(0, 3)),
        "refused": refused,
    }
    for k in ("wme", "pca", "svd"):
        F["map:" + k] = lambda k=k: spat().mud_problem(method=k, num_components=rng.choice([1, 2]))
    return F[name]


def choose(rng):
    n = rng.choice([4, 4, 9, 60])
    P = SpatioTemporalProblem({"lam": rnd(rng, n, 1), "data": rnd(rng, n, 3), "sensors": np.array([0.0]), "times": np.arange(3.0),
                               "domain": [[-5.0, 5.0]], "std_dev": 0.5, "measurements": rnd(rng, 3)})
    k = {"max_plot": rng.choice([3, 4, 8])} if n > 4 else {}
    return draws(lambda ax: P.plot_ts(ax=ax, **k))


# ------------------------------------------------------------------- replay
def c22_edges(ctx):
    """walks over every labelled step of MC_Rng on the real generator"""
    rng = ctx.rng
    by = {}
    with open(os.path.join(ctx.work, "rng.edges")) as fp:
        for line in fp:
            e = json.loads(line)
            by.setdefault(json.dumps(e["from"], sort_keys=True), []).append(e)
    left = {k: list(range(len(v))) for k, v in by.items()}
    for v in left.values():
        rng.shuffle(v)
    n = raised = 0
    todo = sum(len(v) for v in left.values())
    limit = ctx.scale(2600, 20000)
    begin = json.dumps({"base": "start", "pos": 0}, sort_keys=True)
    chosen = [0]

    def pick(key, S):
        """an unused step if there is one (cheap ones thinned in the quick tier)"""
        if left[key] and rng.random() < 0.85:
            return by[key][left[key].pop()]
        return rng.choice(by[key])

    seen = set()
    while n < limit and (sum(len(v) for v in left.values()) or n < limit // 2):
        S = Streams()
        np.random.seed(rng.randrange(2**31))
        S.known("start", np.random.get_state())
        cur, path = begin, []
        alias_ = {"start": "start"}  # the model's names of streams -> the recorder's
        set0 = settings()
        for _ in range(rng.choice([8, 15, 30])):
            e = pick(cur, S)
            n += 1
            seen.add((cur, e["op"], e["a"], e["n"], e["seed"]))
            path.append((e["op"], e["a"], e["n"], e["seed"]))
            bad = None
            det = lambda: dict(path=list(path), expected=e["to"], at=S.at())
            nm = e["op"] + ":" + e["a"]
            if e["op"] == "seed":
                np.random.seed(int(e["seed"]))
            elif e["op"] == "noise":
                for k in {e["seed"], *(t["b"] for t in e["terms"])}:
                    if k.isdigit():
                        S.seeded(k)
                o = noise(rng, e["a"], e["n"], int(e["seed"]) if e["seed"] else None)
                ctx.direct(o is not None, nm + ":accepted", det)
                if o is None:
                    break
                if o:
                    want = [{"b": alias_.get(t["b"], t["b"]), "i": t["i"]} for t in e["terms"]]
                    got = [S.term(v) for v in o]
                    ctx.direct(len(got) == len(want) and all(w in g for w, g in zip(want, got)), nm + ":numbers", lambda: dict(det(), got=got, want=want))
            elif e["op"] == "choose":
                was, f = np.random.get_state(), choose(rng)
                r, bad = watched(f)
                chosen[0] += 1
                alias_["chosen"] = f"chosen{chosen[0]}"
                S.known(alias_["chosen"], np.random.get_state())
                np.random.set_state(was)
                r2, bad = watched(f) if bad is None else (None, bad)
                ctx.direct(alias.same(alias.plain(r), alias.plain(r2)), nm + ":series", det)
            else:
                r, bad = watched(quiet(rng, e["a"]))
                raised += isinstance(r, Raised)
            if e["seed"]:
                S.seeded(e["seed"])
            to = e["to"]
            ctx.direct({"base": alias_.get(to["base"], to["base"]), "pos": to["pos"]} in S.at(), nm + ":stream", det)
            ctx.direct(bad is None and settings() == set0, nm + ":settings", det)
            cur = json.dumps(to, sort_keys=True)
    ctx.notes["labelled_steps"] = todo
    ctx.notes["steps_replayed"] = n
    ctx.notes["distinct_steps_replayed"] = len(seen)
    ctx.notes["quiet_calls_that_raised"] = raised


# ------------------------------------------------------------------ histories
QUIET = ["wme", "density", "bayes", "linear", "lwme", "iterated", "load", "sample", "nearest", "map:wme", "map:pca", "map:svd", "pca", "svd", "big",
         "norms", "rank", "nullspace", "transform", "domain", "meshes", "dist", "params", "observed", "scatter", "contour", "contours", "chain",
         "vecs", "equipment", "data_prob", "refused", "styled", "styled"]


def c22_histories(ctx):
    """long mixtures of noise, seeds and quiet calls"""
    rng = ctx.rng
    for it in range(ctx.scale(120, 1500)):
        r = Rec(ctx, "noise")
        r.start()
        used = 0
        for _ in range(rng.choice([6, 12, 20])):
            z = rng.random()
            if z < 0.12:
                r.reseed(str(rng.choice([0, 1, 21, 2**31 - 2, rng.randrange(10**6)])))
                used = 0
            elif z < 0.75:
                via = rng.choice(["add_noise", "add_noise", "reference", "mud", "split", "map"])
                n = rng.choice([1, 1, 2, 3, 5, 8])
                k = str(rng.choice([0, 0, 3, 21, rng.randrange(10**6)])) if via in ("add_noise", "reference") and rng.random() < 0.4 else ""
                if k:
                    used = 0
                if used + n > Streams.K - 10:
                    continue
                used += n
                r.noise(via, k, n, noise(rng, via, n, int(k) if k else None))
            else:
                q = rng.choice(QUIET)
                r.event("quiet", quiet(rng, q), key=q)
        r.done()


def c22_catalogue(ctx):
    """the ownership catalogue's histories, of every class and function"""
    rng = ctx.rng
    bag = [k for k, w in alias.KINDS for _ in range(w)]
    was = alias.Rec
    Rec.free = staticmethod(_draws)
    alias.Rec = Rec
    try:
        for it in range(ctx.scale(110, 1500)):
            bag[it % len(bag)](ctx, rng)
    finally:
        alias.Rec = was
        Rec.free = staticmethod(lambda r, op, key: False)
