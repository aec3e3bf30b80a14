"""Plots (T_Plot): what is drawn, on which axes."""
import inspect
import os
from fractions import Fraction as Fr

import matplotlib
import numpy as np
from matplotlib import pyplot as plt
from matplotlib.axes import Axes
from matplotlib.colors import to_hex
from scipy.stats import distributions as dist
from scipy.stats import gaussian_kde

from density import PV, encd, realise, scipy_over
from enc import F, Fm, Fv, Raised, call, close, fl, obs, q
from iterlin import gen as gen_iter
from lingauss import cov, tr
from mud import plot
from mud.base import BayesProblem, DensityProblem, IterativeLinearProblem, LinearGaussianProblem, SpatioTemporalProblem

matplotlib.rcParams["text.usetex"] = False
matplotlib.rcParams["figure.max_open_warning"] = 0
matplotlib.rcParams["savefig.dpi"] = 40


class RecAxes(Axes):
    """Axes that remember what they were asked to contour (every axes made is one, see below)."""

    name = "rectilinear"

    def _rec(self, a, k):
        x, y, z = a[:3]
        self.opts = dict(k, levels=a[3]) if len(a) > 3 else k
        x, y, z = (np.asarray(v, dtype=float) for v in (x, y, z))
        if x.ndim == 1 and z.ndim == 2:
            x, y = np.meshgrid(x, y)
        self.triples = [[float(a), float(b), float(e)] for a, b, e in zip(x.ravel(), y.ravel(), z.ravel())]

    def contour(self, *a, **k):
        self._rec(a, k)
        return super().contour(*a, **k)

    def contourf(self, *a, **k):
        self._rec(a, k)
        return super().contourf(*a, **k)

    def tricontour(self, *a, **k):
        self._rec(a, k)
        return super().tricontour(*a, **k)

    def tricontourf(self, *a, **k):
        self._rec(a, k)
        return super().tricontourf(*a, **k)


matplotlib.projections.register_projection(RecAxes)


def prints(ax):
    """what is on the axes, as hashable descriptions"""
    out = []
    for ln in ax.lines:
        out.append(("line", repr(np.asarray(ln.get_xdata(), float).round(9).tolist()), repr(np.asarray(ln.get_ydata(), float).round(9).tolist())))
    for co in ax.collections:
        out.append((type(co).__name__, repr(np.asarray(co.get_offsets()).round(9).tolist()), len(co.get_paths())))
    for t in ax.texts:
        out.append(("text", t.get_text(), repr(getattr(t, "xy", None))))
    return out


class Canvas:
    def __init__(self, n=2):
        self.axes = [plt.figure(figsize=(3, 3)).add_subplot(1, 1, 1) for _ in range(n)]
        self.intern = {}
        self.ids = self.snap()
        self.ids0 = self.ids

    def snap(self):
        r = []
        for a in self.axes:
            seen, row = {}, []
            for p in prints(a):
                k = seen[p] = seen.get(p, 0) + 1
                row.append(self.intern.setdefault((p, k), len(self.intern) + 1))
            r.append(row)
        return r

    def draw(self, rng, fn, new=0.15, pyplot=False):
        """fn(ax) draws on the axes chosen, or on new ones (ax None) -> event fields, what is new"""
        cur = rng.randrange(len(self.axes))
        plt.sca(self.axes[cur])
        if pyplot:
            t, ax = cur, self.axes[cur]
        elif rng.random() < new:
            t, ax = None, None
        else:
            t = rng.randrange(len(self.axes))
            ax = self.axes[t]
        n = (len(ax.lines), len(ax.collections), len(ax.texts)) if ax is not None else (0, 0, 0)
        for a in self.axes:
            a.triples = []
        r = call(fn, ax)
        if ax is None and not isinstance(r, Raised):
            ax = r if isinstance(r, Axes) else plt.gca()
            if all(a is not ax for a in self.axes):
                self.axes.append(ax)
        ev = dict(target=0 if t is None else t + 1, ids=self.snap(), res=obs(r) if isinstance(r, Raised) else {"k": "none"})
        if ax is None:
            return ev, None
        return ev, New(ax, n)


class New:
    def __init__(self, ax, n):
        self.ax = ax
        self.lines = [(np.asarray(ln.get_xdata(), float).ravel(), np.asarray(ln.get_ydata(), float).ravel(), ln) for ln in ax.lines[n[0]:]]
        self.scatters = [c for c in ax.collections[n[1]:] if type(c).__name__ == "PathCollection"]
        self.texts = ax.texts[n[2]:]
        self.triples = getattr(ax, "triples", [])
        self.opts = getattr(ax, "opts", {})
        self.filled = [bool(c.filled) for c in ax.collections[n[1]:] if hasattr(c, "filled")]

    def points(self):
        return [[q(a), q(b)] for c in self.scatters for a, b in np.asarray(c.get_offsets(), float)]

    def segs(self, degenerate=False):
        out = []
        for x, y, _ in self.lines:
            for k in range(len(x) - 1):
                s = [[q(x[k]), q(y[k])], [q(x[k + 1]), q(y[k + 1])]]
                if degenerate or s[0] != s[1]:
                    out.append(s)
        return out

    def at(self):
        return [[q(t.xy[0] if np.ndim(t.xy[0]) == 0 else np.ravel(t.xy[0])[0]), q(np.ravel(t.xy[1])[0])] if hasattr(t, "xy") else [] for t in self.texts]

    def tri(self):
        return [[q(v) for v in t] for t in self.triples]


def nothing(ev, **k):
    """fields for a call that raised"""
    return dict(ev, **k)


# ----------------------------------------------------------------- densities
class Fn:
    """A joint density given by a table over grid points (callable like a kernel estimate)."""

    def __init__(self, pts, vals):
        self.t = {tuple(round(float(a), 7) for a in p): float(v) for p, v in zip(pts, vals)}

    def __call__(self, g):
        g = np.atleast_2d(np.asarray(g, float))
        return np.array([self.t[tuple(round(float(a), 7) for a in p)] for p in g.T])


class TabD:
    """Elementwise table with a tolerance; callable as a joint density too."""

    def __init__(self, tab, both=False):
        self.t = {round(float(a), 7): float(b) for a, b in tab}
        if both:
            self.__class__ = TabC

    def pdf(self, x):
        x = np.asarray(x, dtype=float)
        return np.array([self.t.get(round(float(v), 7), 0.0) for v in x.ravel()]).reshape(x.shape)


class TabC(TabD):
    def __call__(self, g):
        return self.pdf(np.atleast_2d(g)).prod(axis=0)


def axis_pts(b, n):
    return [b[0] + (b[1] - b[0]) * i / (n - 1) for i in range(n - 1)]


def grid_pts(B, n):
    out = [[]]
    for b in B:
        out = [p + [v] for p in out for v in axis_pts(b, n)]
    return out


def gen_box(rng, D, n):
    B = []
    for _ in range(D):
        lo = Fr(rng.randint(-4, 4), 2)
        B.append([lo, lo + (n - 1) * rng.choice([Fr(1, 2), Fr(1), Fr(1, 4), Fr(2)])])
    return B


def tab_for(rng, vals, zeros=0.15):
    t = [[v, Fr(0) if rng.random() < zeros else rng.choice(PV)] for v in sorted(set(vals))]
    return {"k": "tab", "tab": t}


def total(rec, B, n):
    if rec["k"] == "grid":
        return sum(rec["v"])
    f = realise(rec)
    return f.pdf(fl(grid_pts(B, n))).prod(axis=1).sum() if rec["k"] != "tab" else TabD(rec["tab"]).pdf(fl(grid_pts(B, n))).prod(axis=1).sum()


def gen_density(rng, B, n, kde):
    """density record with positive mass on the grid, and an object"""
    pts = grid_pts(B, n)
    while True:
        if kde and rng.random() < 0.6:
            rec = {"k": "grid", "v": [Fr(rng.choice([0, 1, 1, 2, 3, 5])) for _ in pts]}
            ob = Fn(pts, rec["v"])
        elif kde or rng.random() < 0.5:
            rec = tab_for(rng, [v for p in pts for v in p])
            ob = TabD(rec["tab"], both=kde)
        else:
            rec = scipy_over(rng, pts, rng.random() < 0.6)
            ob = realise(rec)
        if total(rec, B, n) > 0:
            return rec, ob


def enc_density(rec):
    return {"k": "grid", "v": Fv(rec["v"])} if rec["k"] == "grid" else encd(rec)


def curve(name, ln, rec, B, n, idx, unit=True, fit=None):
    d = dict(kind="curve", name=name, x=[q(v) for v in ln[0]] if ln else [], y=[q(v) for v in ln[1]] if ln else [], d=enc_density(rec),
             aff=n, idx=idx + 1, unit=unit, fit=fit is not None, B=Fm(B), X=[], pad=[0, 1])
    if fit:
        d.update(X=Fm(fit.get("X", [])), B=Fm(fit.get("B", [])), pad=F(fit.get("pad", 0)))
    return d


def vline(name, ln, at, top=None):
    return dict(kind="line", name=name, x=[q(v) for v in ln[0]] if ln else [], y=[q(v) for v in ln[1]] if ln else [], at=q(at),
                top=[] if top is None else [F(top)])


def ylim(nw):
    return [q(v) for v in nw.ax.get_ylim()] if nw else []


def by_label(nw):
    return {ln[2].get_label(): ln for ln in nw.lines} if nw else {}


def panel(ev, nw, want, parts):
    L = by_label(nw)
    drawn = [str(ln[2].get_label()) for ln in nw.lines] if nw else []
    return dict(ev, op="panel", want=list(want), drawn=drawn, ylim=ylim(nw), parts=parts(L) if nw else [])


def ev_dist(ctx, cv):
    rng = ctx.rng
    D = rng.choice([1, 1, 2, 2, 3, 4])
    n = rng.choice([3, 4, 5, 6]) if D < 3 else rng.choice([3, 4]) if D == 3 else 3
    B, idx = gen_box(rng, D, n), rng.randrange(D)
    src = rng.choice(["pdf", "kde"])
    rec, ob = gen_density(rng, B, n, src == "kde")
    dom = fl(B) if rng.random() < 0.5 else fl(B).tolist()
    st = Style(rng)
    o = st.line_opts(0.4)
    kw = dict(o, label="c")
    if idx or rng.random() < 0.5:
        kw["idx"] = idx
    if src == "pdf" or rng.random() < 0.5:
        kw["source"] = src
    ev, nw = cv.draw(rng, lambda ax: plot.plot_dist(ob, dom, ax=ax, aff=n, **kw))
    st.lines("dist", o, [ln[2] for ln in nw.lines] if nw else [])
    return dict(panel(ev, nw, ["c"], lambda L: [curve("dist", L.get("c"), rec, B, n, idx)]), sty=st.out)


def ev_vert(ctx, cv):
    rng = ctx.rng
    x = Fr(rng.randint(-8, 8), 4)
    lo, hi = Fr(rng.randint(-4, 1), 2), Fr(rng.randint(3, 9), 2)
    top = Fr(rng.randint(2, 9), 2) if rng.random() < 0.5 else None
    if lo < 0 and rng.random() < 0.3:
        top = rng.choice([Fr(0), lo / 2])
    kw = {} if top is None else {"ylim": float(top) if top or rng.random() < 0.5 else 0}
    i = rng.randrange(len(cv.axes))
    ax = cv.axes[i]
    ax.set_ylim(float(lo), float(hi))
    plt.sca(cv.axes[rng.randrange(len(cv.axes))])
    n = (len(ax.lines), len(ax.collections), len(ax.texts))
    st = Style(rng)
    o = st.line_opts(0.4)
    r = call(plot.plot_vert_line, ax, float(x), label="v", **o, **kw)
    ev = dict(target=i + 1, ids=cv.snap(), res=obs(r) if isinstance(r, Raised) else {"k": "none"})
    nw = New(ax, n)
    # the axes keep their bottom and reach the requested top
    ev = panel(ev, nw, ["v"], lambda L: [vline("vert", L.get("v"), x, top)])
    st.lines("vert", o, [ln[2] for ln in nw.lines])
    ev["sty"] = st.out
    ev["ylim"] = [F(lo), F(top if top is not None else hi)]
    ok = close(ax.get_ylim(), [float(lo), float(top if top is not None else hi)])
    ctx.direct(ok, "vert:limits", lambda: dict(want=[str(lo), str(top), str(hi)], got=list(ax.get_ylim())))
    return ev


def default_label(fn, arg):
    d = inspect.signature(fn).parameters[arg].default
    return d["label"] if isinstance(d, dict) else None


COL = ["m", "c", "tab:orange", "#123456", "y"]
LS = ["-", "--", ":", "-."]


def hexc(c):
    try:
        return to_hex(np.ravel(np.asarray(c)) if not isinstance(c, str) else c)
    except ValueError:
        return repr(c)


class Style:
    """drawing options asked for, compared with the artists drawn"""

    def __init__(self, rng):
        self.rng, self.out = rng, []

    def line_opts(self, p=0.6, short=True):
        """random options of a line, spelled as matplotlib's names or (where nothing is merged into them) their short forms"""
        o, r = {}, self.rng
        if r.random() < p:
            o["color"] = r.choice(COL)
        if r.random() < p:
            o[r.choice(["ls", "linestyle"]) if short else "linestyle"] = r.choice(LS)
        if r.random() < p:
            o[r.choice(["lw", "linewidth"]) if short else "linewidth"] = r.choice([0.5, 2, 3.5])
        if r.random() < p:
            o["alpha"] = r.choice([0.25, 0.5, 0.75])
        return o

    def add(self, name, want, got):
        self.out.append(dict(n=name, want=str(want), got=str(got)))

    def lines(self, name, o, lns):
        for ln in lns:
            if "color" in o:
                self.add(name + ":color", hexc(o["color"]), hexc(ln.get_color()))
            for k in ("ls", "linestyle"):
                if k in o:
                    self.add(name + ":linestyle", o[k], ln.get_linestyle())
            for k in ("lw", "linewidth"):
                if k in o:
                    self.add(name + ":linewidth", float(o[k]), float(ln.get_linewidth()))
            if "alpha" in o:
                self.add(name + ":alpha", float(o["alpha"]), float(ln.get_alpha() if ln.get_alpha() is not None else 1))

    def point_opts(self, p=0.6):
        o, r = {}, self.rng
        if r.random() < p:
            o["color"] = r.choice(COL)
        if r.random() < p:
            o["s"] = r.choice([9, 30, 64])
        return o

    def points(self, name, o, sets):
        for c in sets:
            if "s" in o:
                self.add(name + ":size", [float(o["s"])], sorted(set(float(v) for v in c.get_sizes())))
            if "color" in o:
                self.add(name + ":color", [hexc(o["color"])], sorted({hexc(v) for v in c.get_facecolor()}))

    def texts(self, name, size, ts):
        for t in ts:
            self.add(name + ":fontsize", float(size), float(t.get_fontsize()))


class Panel:
    """options of a panel: which curves are asked for, by argument"""

    def __init__(self, rng, fn, args, off_by_default=()):
        self.kw, self.want, self.o, self.sty = {}, {}, {}, Style(rng)
        for a in args:
            z = rng.random()
            if z < 0.25:
                self.kw[a] = None
            elif z < 0.7 or (a not in off_by_default and default_label(fn, a) is None):
                self.o[a] = self.sty.line_opts(short=False)
                self.kw[a] = dict(self.o[a], label=a)
                self.want[a] = a
            elif a not in off_by_default:
                self.want[a] = default_label(fn, a)

    def style(self, nw):
        L = by_label(nw)
        for a, o in self.o.items():
            if a in self.want and a in L:
                self.sty.lines(a, o, [L[a][2]])
        return self.sty.out


def kde_clause(ctx, name, ln, kde, B, n, idx, detail):
    """curve of a kernel estimate: compared up to rounding"""
    axes = [np.linspace(float(a), float(b), n)[:-1] for a, b in B]
    m = np.meshgrid(*axes, indexing="ij")
    v = kde(np.stack([a.ravel() for a in m])).reshape(m[0].shape).sum(axis=tuple(i for i in range(len(axes)) if i != idx))
    got = np.asarray(ln[1], float) if ln else np.zeros(0)
    if v.sum() < 1e-12 or not np.isfinite(v).all():
        return
    ok = ln is not None and close(ln[0], axes[idx]) and got.shape == v.shape and got.sum() > 0 and \
        close(got / got.sum(), v / v.sum(), 1e-6) and (detail.get("raw") or close(got.sum() * abs(axes[idx][1] - axes[idx][0]), 1.0, 1e-6))
    ctx.direct(ok, name, lambda: dict(detail, got=got.tolist(), want=(v / v.sum()).tolist()))


def gen_xy(rng, p, d):
    n = rng.choice([6, 8, 10])
    X = [[Fr(rng.randint(-8, 8), 4) for _ in range(p)] for _ in range(n)]
    Y = [[Fr(rng.randint(-8, 8), 8) for _ in range(d)] for _ in range(n)]
    for M in (X, Y):
        for j in range(len(M[0])):
            M[j][j] = Fr(9, 4)
            M[j + 2][j] = Fr(-9, 4)
        if np.linalg.matrix_rank(fl(M) - fl(M).mean(0)) < len(M[0]) or np.linalg.cond(np.cov(fl(M).T).reshape(len(M[0]), -1)) > 1e3:
            return gen_xy(rng, p, d)
    return n, X, Y


def pos_tab(rng, vals):
    return tab_for(rng, vals, 0.0)


def ev_problem(ctx, cv):
    """DensityProblem panels"""
    rng = ctx.rng
    p, d = rng.choice([1, 1, 1, 2, 2, 3]), rng.choice([1, 1, 1, 2, 2, 3])
    n, X, Y = gen_xy(rng, p, d)
    aff = rng.choice([3, 5]) if max(p, d) < 3 else 3
    dom = gen_box(rng, p, aff)
    P = DensityProblem(fl(X), fl(Y), fl(dom) if rng.random() < 0.7 else fl(dom).tolist())
    pad = rng.choice([Fr(1, 20), Fr(0), Fr(1, 2), Fr(1, 4)])
    own = rng.random() < 0.4
    xr = gen_box(rng, p, aff) if own else [[a - pad * (b - a), b + pad * (b - a)] for a, b in dom]
    own_y = rng.random() < 0.5
    yr = gen_box(rng, d, aff) if own_y else [[min(c) - (max(c) - min(c)) / 10, max(c) + (max(c) - min(c)) / 10] for c in zip(*Y)]
    inr = pos_tab(rng, [v for b in xr for v in axis_pts(b, aff)] + [v for r in X for v in r])
    obr = pos_tab(rng, [v for b in yr for v in axis_pts(b, aff)] + [v for r in Y for v in r])
    P.set_initial(TabD(inr["tab"]))
    P.set_observed(TabD(obr["tab"]))
    prk = rng.choice(["tab", "tabc", "scipy", "kde"])
    if prk in ("tab", "tabc"):
        prr = pos_tab(rng, [v for b in yr for v in axis_pts(b, aff)] + [v for r in Y for v in r])
        P.set_predicted(TabD(prr["tab"], both=prk == "tabc"))
        pr = TabD(prr["tab"]).pdf(fl(Y)).prod(axis=1)
    elif prk == "scipy":
        prr = scipy_over(rng, [list(r) for r in Y] + [[b[k] for b in yr] for k in (0, 1)], True)
        P.set_predicted(realise(prr))
        pr = realise(prr).pdf(fl(Y)).prod(axis=1)
    else:
        pr = gaussian_kde(fl(Y).T)(fl(Y).T)
    w = np.ones(n)
    if prk == "kde" and rng.random() < 0.5:
        w = np.array([rng.choice([1.0, 2.0, 0.5]) for _ in range(n)])
        P = DensityProblem(fl(X), fl(Y), fl(dom), weights=w)
        P.set_initial(TabD(inr["tab"]))
        P.set_observed(TabD(obr["tab"]))
        pr = gaussian_kde(fl(Y).T, weights=w)(fl(Y).T)
    ratio = TabD(obr["tab"]).pdf(fl(Y)).prod(axis=1) / pr
    if rng.random() < 0.5:
        call(P.fit)
    if rng.random() < 0.55:
        idx = rng.randrange(p)
        pn = Panel(rng, DensityProblem.plot_param_space, ["in_opts", "up_opts", "win_opts", "mud_opts", "true_opts"], ["win_opts"])
        kw = dict(pn.kw, aff=aff)
        if own:
            kw["x_range"] = fl(xr) if rng.random() < 0.5 else fl(xr).tolist()
        elif pad != Fr(1, 20) or rng.random() < 0.3:
            kw["pad_ratio"] = float(pad)
        if idx or rng.random() < 0.5:
            kw["param_idx"] = idx
        tv = [Fr(rng.randint(-8, 8), 4) for _ in range(p)] if rng.random() < 0.6 else None
        if tv is not None:
            kw["true_val"] = fl(tv) if rng.random() < 0.5 else fl(tv).tolist()
        else:
            pn.want.pop("true_opts", None)
        top = Fr(7, 2) if rng.random() < 0.3 else None
        if top is not None:
            kw["ylim"] = float(top)
        ev, nw = cv.draw(rng, lambda ax: P.plot_param_space(ax=ax, **kw))
        want = pn.want
        mud = call(P.estimate)

        def parts(L):
            g = lambda a: L.get(want[a])
            o = []
            if "in_opts" in want:
                o.append(curve("initial", g("in_opts"), inr, xr if own else dom, aff, idx, fit=None if own else dict(B=dom, pad=pad)))
            if "mud_opts" in want:
                o.append(vline("mud", g("mud_opts"), mud[idx], top))
            if "true_opts" in want:
                o.append(vline("true", g("true_opts"), tv[idx], top))
            return o

        e = dict(panel(ev, nw, want.values(), parts), sty=pn.style(nw))
        if nw:
            L = by_label(nw)
            for a, ww in (("up_opts", ratio * w), ("win_opts", w)):
                if a in want:
                    kde_clause(ctx, "param:" + a, L.get(want[a]), gaussian_kde(fl(X).T, weights=ww), xr, aff, idx, dict(X=fl(X).tolist(), w=ww.tolist()))
        return e
    idx = rng.randrange(d)
    pn = Panel(rng, DensityProblem.plot_obs_space, ["ob_opts", "pr_opts", "pf_opts"])
    kw = dict(pn.kw, aff=aff)
    if own_y:
        kw["y_range"] = fl(yr) if rng.random() < 0.5 else fl(yr).tolist()
    if idx or rng.random() < 0.5:
        kw["obs_idx"] = idx
    ev, nw = cv.draw(rng, lambda ax: P.plot_obs_space(ax=ax, **kw))
    want = pn.want

    def parts(L):
        fit = None if own_y else dict(X=Y, pad=Fr(1, 10))
        o = []
        if "ob_opts" in want:
            o.append(curve("observed", L.get(want["ob_opts"]), obr, yr, aff, idx, fit=fit))
        if "pr_opts" in want and prk != "kde":
            o.append(curve("predicted", L.get(want["pr_opts"]), prr, yr, aff, idx, fit=fit))
        return o

    e = dict(panel(ev, nw, want.values(), parts), sty=pn.style(nw))
    if nw:
        L = by_label(nw)
        if "pf_opts" in want:
            kde_clause(ctx, "obs:pf_opts", L.get(want["pf_opts"]), gaussian_kde(fl(Y).T, weights=ratio * w), yr, aff, idx, dict(Y=fl(Y).tolist(), w=(ratio * w).tolist()))
        if "pr_opts" in want and prk == "kde":
            kde_clause(ctx, "obs:pr_opts", L.get(want["pr_opts"]), gaussian_kde(fl(Y).T, weights=w), yr, aff, idx, dict(Y=fl(Y).tolist(), w=w.tolist()))
    return e


def ev_bayes(ctx, cv):
    rng = ctx.rng
    p, d = rng.choice([1, 1, 1, 2, 2, 3]), rng.choice([1, 1, 1, 2, 2, 3])
    n, X, Y = gen_xy(rng, p, d)
    aff = rng.choice([3, 5]) if max(p, d) < 3 else 3
    dom = gen_box(rng, p, aff)
    own = rng.random() < 0.5
    xr = gen_box(rng, p, aff) if own else dom
    own_y = rng.random() < 0.6
    yr = gen_box(rng, d, aff) if own_y else [[Fr(-1), Fr(1)]] * d
    prr = pos_tab(rng, [v for b in xr for v in axis_pts(b, aff)] + [v for r in X for v in r])
    llr = pos_tab(rng, [v for b in yr for v in axis_pts(b, aff)] + [v for r in Y for v in r])
    P = BayesProblem(fl(X), fl(Y), fl(dom))
    T = TabD(llr["tab"])
    T.logpdf = lambda x: np.log(T.pdf(x))
    P.set_prior(TabD(prr["tab"]))
    P.set_likelihood(T, log=True) if rng.random() < 0.4 else P.set_likelihood(T)
    if rng.random() < 0.5:
        call(P.fit)
    post = TabD(prr["tab"]).pdf(fl(X)).prod(axis=1) * T.pdf(fl(Y)).prod(axis=1)
    if rng.random() < 0.55:
        idx = rng.randrange(p)
        pn = Panel(rng, BayesProblem.plot_param_space, ["pr_opts", "ps_opts", "map_opts", "true_opts"])
        kw = dict(pn.kw, aff=aff)
        if own:
            kw["x_range"] = fl(xr) if rng.random() < 0.5 else fl(xr).tolist()
        if idx or rng.random() < 0.5:
            kw["param_idx"] = idx
        tv = [Fr(rng.randint(-8, 8), 4) for _ in range(p)] if rng.random() < 0.6 else None
        if tv is not None:
            kw["true_val"] = fl(tv) if rng.random() < 0.5 else fl(tv).tolist()
        else:
            pn.want.pop("true_opts", None)
        want = pn.want
        ev, nw = cv.draw(rng, lambda ax: P.plot_param_space(ax=ax, **kw))
        mp = call(P.estimate)

        def parts(L):
            o = []
            if "pr_opts" in want:
                o.append(curve("prior", L.get(want["pr_opts"]), prr, xr, aff, idx))
            if "map_opts" in want:
                o.append(vline("map", L.get(want["map_opts"]), mp[idx]))
            if "true_opts" in want:
                o.append(vline("true", L.get(want["true_opts"]), tv[idx]))
            return o

        e = dict(panel(ev, nw, want.values(), parts), sty=pn.style(nw))
        if nw and "ps_opts" in want:
            kde_clause(ctx, "bayes-param:ps_opts", by_label(nw).get(want["ps_opts"]), gaussian_kde(fl(X).T, weights=post), xr, aff, idx,
                       dict(X=fl(X).tolist(), w=post.tolist()))
        return e
    idx = rng.randrange(d)
    pn = Panel(rng, BayesProblem.plot_obs_space, ["ll_opts", "pf_opts"])
    want = pn.want
    kw = dict(pn.kw, aff=aff)
    if own_y:
        kw["y_range"] = fl(yr) if rng.random() < 0.5 else fl(yr).tolist()
    if idx or rng.random() < 0.5:
        kw["obs_idx"] = idx
    ev, nw = cv.draw(rng, lambda ax: P.plot_obs_space(ax=ax, **kw))
    e = dict(panel(ev, nw, want.values(), lambda L: [curve("likelihood", L.get(want["ll_opts"]), llr, yr, aff, idx, unit=False)] if "ll_opts" in want else []),
             sty=pn.style(nw))
    if nw and "pf_opts" in want:
        kde_clause(ctx, "bayes-obs:pf_opts", by_label(nw).get(want["pf_opts"]), gaussian_kde(fl(Y).T, weights=post), yr, aff, idx,
                   dict(Y=fl(Y).tolist(), w=post.tolist(), raw=True))
    return e


# -------------------------------------------------------------- linear maps
ROWS = [[3, 4], [4, -3], [1, 0], [0, 2], [-8, 6], [0, -1], [5, 12], [-3, 4], [Fr(3, 2), 2]]


def gen_lin(rng, zero=0.15):
    ns = rng.choice([1, 2, 2, 3])
    A = [[Fr(x) for x in ([0, 0] if ns > 1 and rng.random() < zero else rng.choice(ROWS))] for _ in range(ns)]
    if not any(any(r) for r in A):
        A[0] = [Fr(3), Fr(4)]
    v = lambda k: [Fr(rng.randint(-4, 5), rng.choice([1, 2])) for _ in range(k)]
    return dict(A=A, b=v(ns), y=v(ns), m=v(2), C=cov(rng, 2), Co=cov(rng, ns))


def lin_rec(g):
    c = lambda v: [[F(x)] for x in v]
    return dict(A=Fm(g["A"]), b=c(g["b"]), y=c(g["y"]), m=c(g["m"]), C=Fm(g["C"]), Co=Fm(g["Co"]))


def lin(g, cls=LinearGaussianProblem, **k):
    c = lambda v: fl(v).reshape(-1, 1)
    return cls(fl(g["A"]), c(g["b"]), y=c(g["y"]), mu_i=c(g["m"]), cov=fl(g["C"]), data_cov=fl(g["Co"]), **k) if cls is IterativeLinearProblem else \
        cls(fl(g["A"]), c(g["b"]), y=c(g["y"]), mean_i=c(g["m"]), cov_i=fl(g["C"]), cov_o=fl(g["Co"]), **k)


def ref2(rng):
    return [Fr(rng.randint(-4, 4), 2) for _ in range(2)]


def spell_ref(rng, r):
    a = fl(r)
    return a if rng.random() < 0.4 else (a.tolist() if rng.random() < 0.5 else a.reshape(-1, 1))


def ev_contours(ctx, cv):
    rng = ctx.rng
    g = gen_lin(rng)
    ns = len(g["A"])
    kw = {}
    sub = None
    if rng.random() < 0.6:
        sub = [rng.randrange(ns) for _ in range(rng.choice([1, 2, ns]))] if rng.random() < 0.3 else rng.sample(range(ns), rng.randint(1, ns))
        kw["subset"] = sub if rng.random() < 0.5 else np.array(sub)
    w = rng.choice([Fr(1), Fr(1, 2), Fr(2)])
    if w != 1 or rng.random() < 0.3:
        kw["w"] = float(w)
    ref = ref2(rng)
    rec = dict(op="contours", pb=lin_rec(g), subset=[i + 1 for i in (sub if sub is not None else range(ns))], w=F(w), ref=Fv(ref), annotate=False, loc=[])
    st, o, fs = Style(rng), {}, None
    if rng.random() < 0.65:
        P = call(lin, g)
        if isinstance(P, Raised):
            return None
        if rng.random() < 0.5:
            kw["plot_opts"] = o = st.line_opts()
        if rng.random() < 0.4:
            fs = rng.choice([7, 11])
            kw["annotate_opts"] = {"fontsize": fs}
        if rng.random() < 0.5:
            kw["ref"] = spell_ref(rng, ref)
        else:
            rec["ref"] = []
        if rng.random() < 0.5:
            kw.update(annotate=True, label="r{i}")
            rec["annotate"] = True
            if rng.random() < 0.4:
                loc = ref2(rng)
                kw["note_loc"] = tuple(fl(loc))
                rec["loc"] = Fv(loc)
        ev, nw = cv.draw(rng, lambda ax: P.plot_contours(ax=ax, **kw))
        pre = "r"
    else:
        rec["annotate"] = True
        o = {k: v for k, v in st.line_opts(0.4).items() if k in ("color", "ls", "lw", "alpha")}
        kw.update(o)
        if rng.random() < 0.4:
            fs = kw["fs"] = rng.choice([7, 11])
        ev, nw = cv.draw(rng, lambda ax: plot.plot_contours(fl(g["A"]), spell_ref(rng, ref), **kw), pyplot=True)
        pre = ""
    nums = []
    for t in (nw.texts if nw else []):
        s = t.get_text()
        nums.append(int(s[len(pre):]) if s.startswith(pre) and s[len(pre):].isdigit() else -1)
    if nw:
        st.lines("contours", o, [ln[2] for ln in nw.lines])
        if fs:
            st.texts("contours", fs, nw.texts)
    return dict(ev, **rec, sty=st.out, segs=[s for s in nw.segs(True)] if nw else [], nums=nums, at=nw.at() if nw else [])


def ev_sol(ctx, cv):
    rng = ctx.rng
    g = gen_lin(rng, 0)
    P = call(lin, g)
    if isinstance(P, Raised):
        return None
    kw = {}
    point = rng.choice(["mud", "mud", "map", "ls", "initial"])
    if point != "mud" or rng.random() < 0.5:
        kw["point"] = point
    rec = dict(op="sol", pb=lin_rec(g), point=point, line=True, label=False, loc=[])
    if rng.random() < 0.3:
        kw["ln_opts"] = None
        rec["line"] = False
    if rng.random() < 0.5:
        kw["label"] = "the label"
        rec["label"] = True
        if rng.random() < 0.5:
            loc = ref2(rng)
            kw["note_loc"] = tuple(fl(loc))
            rec["loc"] = Fv(loc)
    st, po, lo, fs = Style(rng), {}, {}, None
    if rng.random() < 0.5:
        kw["pt_opts"] = po = st.point_opts()
    if rec["line"] and rng.random() < 0.5:
        kw["ln_opts"] = lo = st.line_opts()
    if rng.random() < 0.4:
        fs = rng.choice([7, 11])
        kw["annotate_opts"] = {"fontsize": fs}
    ev, nw = cv.draw(rng, lambda ax: P.plot_sol(ax=ax, **kw))
    if nw:
        st.points("sol", po, nw.scatters)
        for c in nw.scatters:
            st.add("sol:name", point, c.get_label())
        st.lines("sol", lo, [ln[2] for ln in nw.lines])
        if fs:
            st.texts("sol", fs, nw.texts)
    return dict(ev, **rec, sty=st.out, pts=nw.points() if nw else [], segs=nw.segs(True) if nw else [], texts=[t.get_text() for t in nw.texts] if nw else [],
                at=nw.at() if nw else [])


def ev_chain(ctx, cv):
    rng = ctx.rng
    while True:
        g = gen_lin(rng, 0)
        g["C"] = cov(rng, 2)
        order = rng.sample(range(len(g["A"])), rng.randint(1, len(g["A"]))) + ([0] if rng.random() < 0.3 else [])
        P = call(lin, g, IterativeLinearProblem, idx_order=order)
        if not isinstance(P, Raised):
            break
    g["b2"] = g["b"]
    solves = []
    small = Fr(3, 2) in [abs(x) for r in g["A"] for x in r] or 12 in [abs(x) for r in g["A"] for x in r]
    for _ in range(rng.choice([1, 2])):
        n = 1
        call(P.solve, num_epochs=n)
        solves.append(dict(n=n, method="mud"))
        if small:
            break
    ref, near = ref2(rng), None
    if rng.random() < 0.3:  # a reference the chain meets
        near = np.array(rng.choice(rng.choice(P.solution_chains)), float)
        ref = [Fr(float(v)).limit_denominator(2000) for v in near.ravel()]
        if not close([float(v) for v in ref], near.ravel(), 1e-14, 1e-14):
            return None
    rs = lambda: spell_ref(rng, ref) if near is None else near
    rec = dict(pb=lin_rec(g), order=[i + 1 for i in order], solves=solves, ref=Fv(ref))
    if rng.random() < 0.7:
        w = rng.choice([Fr(1), Fr(1, 2)])
        kw = {} if w == 1 else {"w": float(w)}
        st = Style(rng)
        o = st.point_opts()
        kw.update(o)
        ev, nw = cv.draw(rng, lambda ax: P.plot_chain(rs(), ax=ax, **kw))
        if nw:
            st.lines("chain", {k: v for k, v in o.items() if k == "color"}, [ln[2] for ln in nw.lines])
            st.points("chain", {k: v for k, v in o.items() if k == "s"}, nw.scatters)
        return dict(ev, **rec, sty=st.out, op="chain", w=F(w), segs=nw.segs() if nw else [], pts=nw.points() if nw else [])
    st = Style(rng)
    o = {k: v for k, v in st.line_opts().items() if k in ("color", "alpha")}
    if rng.random() < 0.5:
        o["label"] = "errors"
    ev, nw = cv.draw(rng, lambda ax: P.plot_chain_error(rs(), ax=ax, **o), new=0.3)
    if nw:
        st.lines("chain_error", o, [ln[2] for ln in nw.lines])
        if "label" in o:
            st.add("chain_error:label", "errors", nw.lines[0][2].get_label() if nw.lines else "")
    sc = nw.ax.get_yscale() if nw else ""
    if nw:
        nw.ax.set_yscale("linear")
    return dict(ev, **rec, sty=st.out, op="chain_error", sq=[q(v * v) for ln in nw.lines[:1] for v in ln[1]] if nw else [], scale=sc)


def ev_plotchain(ctx, cv):
    rng = ctx.rng
    pts = [[Fr(rng.randint(0, 8), 8) for _ in range(2)] for _ in range(rng.randint(1, 5))]
    ref = [Fr(rng.randint(0, 8), 8) for _ in range(2)]
    ch = [fl(x).reshape(-1, 1) for x in pts]
    st = Style(rng)
    o = st.point_opts()
    ev, nw = cv.draw(rng, lambda ax: plot.plotChain(ch, spell_ref(rng, ref), **o), pyplot=True)
    st.lines("plotChain", {k: v for k, v in o.items() if k == "color"}, [ln[2] for ln in nw.lines])
    st.points("plotChain", {k: v for k, v in o.items() if k == "s"}, nw.scatters)
    lims = [[q(v) for v in nw.ax.get_xlim()], [q(v) for v in nw.ax.get_ylim()]]
    nw.ax.autoscale(True)
    return dict(ev, sty=st.out, op="plotChain", chain=[Fv(x) for x in pts], ref=Fv(ref), segs=nw.segs(), pts=nw.points(), lims=lims)


def ev_fun(ctx, cv):
    rng = ctx.rng
    while True:
        g = gen_lin(rng, 0)
        A = fl(g["A"])
        if np.linalg.matrix_rank(A) == len(A):
            break
    alpha = rng.choice([Fr(1), Fr(1), Fr(2), Fr(1, 2)])
    P = lin(g, alpha=float(alpha))
    N = rng.choice([2, 3])
    r = rng.choice([Fr(1), Fr(2), Fr(3)])
    terms = rng.choice(["dc", "bayes", "data", "reg", "dc_term", "reg_m"])
    kw = dict(N=N) if rng.random() < 2 else {}
    if terms != "dc" or rng.random() < 0.5:
        kw["terms"] = terms
    xs = [r * i / (N - 1) for i in range(N)]
    mesh = [[x, y] for y in xs for x in xs]
    if rng.random() < 0.4:
        mesh = [[x + rng.choice([Fr(-1), Fr(0), Fr(2)]), y] for x, y in mesh] if False else [[x - 1, y + Fr(1, 2)] for x, y in mesh]
        kw["mesh"] = fl(mesh)
    elif r != 1 or rng.random() < 0.3:
        kw["r"] = float(r)
    st = Style(rng)
    if rng.random() < 0.4:
        kw["levels"] = [-1.5, 0.5, 2.5, 1000.5]
    ev, nw = cv.draw(rng, lambda ax: P.plot_fun_contours(ax=ax, **kw))
    if "levels" in kw and nw:
        st.add("fun:levels", kw["levels"], nw.opts.get("levels"))
    return dict(ev, sty=st.out, op="fun", pb=lin_rec(g), alpha=F(alpha), terms=terms, mesh=[Fv(x) for x in mesh], tri=nw.tri())


# ------------------------------------------------------------------ scatters
def base_scatter(**k):
    d = dict(op="scatter", rows=[], i=1, j=2, scatter=True, colour=[], array=[], contour=False, z=[], tri=[])
    d.update(k)
    return d


def spread(rng, n, c):
    """n rows of c columns; any two columns triangulate"""
    while True:
        M = [[Fr(rng.randint(-8, 8), 4) for _ in range(c)] for _ in range(n)]
        a = fl(M)
        ok = len({tuple(r) for r in M}) == n
        for i in range(c):
            for j in range(c):
                if i != j:
                    b = a[:, [i, j]]
                    ok &= np.linalg.matrix_rank(b[1:] - b[0]) == 2 and len({tuple(x) for x in b}) == n
        if ok:
            return M


def ev_qoi(ctx, cv):
    rng = ctx.rng
    n, p, d = rng.choice([4, 5, 6]), rng.choice([2, 3]), rng.choice([1, 2, 3])
    X, Y = spread(rng, n, p), spread(rng, n, d)
    P = DensityProblem(fl(X), fl(Y), [[-3, 3]] * p)
    if d > 1 and rng.random() < 0.4:
        i, j = rng.sample(range(d), 2)
        kw = {}
        if i != 0 or rng.random() < 0.5:
            kw["idx_x"] = i
        if j != 1 or rng.random() < 0.5:
            kw["idx_y"] = j
        st = Style(rng)
        o = st.point_opts()
        ev, nw = cv.draw(rng, lambda ax: P.plot_qoi(ax=ax, **kw, **o))
        st.points("qoi", o, nw.scatters if nw else [])
        return dict(ev, sty=st.out, **base_scatter(M=Fm(Y), i=i + 1, j=j + 1, pts=nw.points() if nw else [], tri=[]))
    i, j = rng.sample(range(p), 2)
    k = rng.randrange(d)
    kw = {}
    if i != 0 or rng.random() < 0.5:
        kw["x_1"] = i
    if j != 1 or rng.random() < 0.5:
        kw["x_2"] = j
    if k != 0 or rng.random() < 0.5:
        kw["y"] = k
    ct = rng.random() < 0.4
    if ct:
        kw["contours"] = True
    if rng.random() < 0.7:
        kw["colorbar"] = False
    z = rng.random()
    if z < 0.15:
        bad = rng.choice(["x_1", "x_2", "y"])
        kw[bad] = (d if bad == "y" else p) + rng.choice([0, 1])
        ev, nw = cv.draw(rng, lambda ax: P.plot_params_2d(ax=ax, **kw))
        return dict(ev, op="refused")
    st = Style(rng)
    o = {k_: v for k_, v in st.point_opts().items() if k_ == "s"}
    ev, nw = cv.draw(rng, lambda ax: P.plot_params_2d(ax=ax, **kw, **o))
    st.points("params_2d", o, nw.scatters if nw else [])
    col = [r[k] for r in Y]
    arr = [q(v) for c in (nw.scatters if nw else []) if c.get_array() is not None for v in np.asarray(c.get_array(), float)]
    return dict(ev, sty=st.out, **base_scatter(M=Fm(X), i=i + 1, j=j + 1, pts=nw.points(), colour=Fv(col), array=arr, contour=ct, z=Fv(col), tri=nw.tri()))


def spell_mask(rng, idx, n):
    z = rng.random()
    if z < 0.35:
        return list(idx)
    if z < 0.7:
        return np.array(idx)
    if sorted(set(idx)) == list(idx):
        m = np.zeros(n, bool)
        m[list(idx)] = True
        return m
    return list(idx)


def ev_sensors(ctx, cv):
    rng = ctx.rng
    ns = rng.choice([5, 6, 7])
    S = spread(rng, ns, 2)
    nsam = rng.choice([1, 2, 3])
    P = SpatioTemporalProblem()
    P.sensors = fl(S)
    D = [[Fr(rng.randint(-8, 8), 2) for _ in range(ns)] for _ in range(nsam)]
    for r in D:
        r[0], r[-1] = Fr(-5), Fr(5)
    P.data = fl(D)
    kw, rows = {}, []
    if rng.random() < 0.6:
        for _ in range(100):
            rows = rng.sample(range(ns), rng.randint(3, ns))
            b = fl([S[k] for k in rows])
            if np.linalg.matrix_rank(b[1:] - b[0]) == 2:
                break
        else:
            rows = list(range(ns))
        if rng.random() < 0.5:
            rows.sort()
        kw["mask"] = spell_mask(rng, rows, ns)
    sel = rows or list(range(ns))
    rec = dict(M=Fm(S), rows=[k + 1 for k in rows])
    if rng.random() < 0.5:
        cvals = [Fr(rng.randint(-9, 9), 2) for _ in sel] if rng.random() < 0.6 else None
        if cvals:
            kw["c"] = fl(cvals)
            if rng.random() < 0.3:
                kw["colorbar"] = True
        st = Style(rng)
        o = {k: v for k, v in st.point_opts().items() if k == "s" or not cvals}
        ev, nw = cv.draw(rng, lambda ax: P.sensor_scatter_plot(ax=ax, **kw, **o))
        st.points("sensors", o, nw.scatters if nw else [])
        arr = [q(v) for c in (nw.scatters if nw else []) if c.get_array() is not None for v in np.asarray(c.get_array(), float)]
        return dict(ev, sty=st.out, **base_scatter(**rec, pts=nw.points() if nw else [], colour=Fv(cvals or []), array=arr))
    k = rng.randrange(nsam)
    z = [D[k][s] for s in sel]
    if k or rng.random() < 0.5:
        kw["idx"] = k
    if rng.random() < 0.4:
        z = [Fr(rng.randint(-9, 9), 2) for _ in sel]
        z[0], z[-1] = Fr(-5), Fr(5)
        kw["c_vals"] = fl(z)
    elif min(z) == max(z):
        return None
    if rng.random() < 0.4:
        kw["fill"] = rng.random() < 0.3
    if rng.random() < 0.7:
        kw["colorbar"] = False
    st = Style(rng)
    lv = {"levels": [-6.5, -1.25, 0.75, 7.5]} if rng.random() < 0.4 else {}
    ev, nw = cv.draw(rng, lambda ax: P.sensor_contour_plot(ax=ax, **kw, **lv))
    if lv and nw:
        st.add("sensors:levels", lv["levels"], nw.opts.get("levels"))
    for c in nw.filled if nw else []:
        st.add("sensors:filled", kw.get("fill", True), c)
    return dict(ev, sty=st.out, **base_scatter(**rec, scatter=False, pts=[], contour=True, z=Fv(z), tri=nw.tri()))


def ev_ts(ctx, cv):
    rng = ctx.rng
    ns, nt, n = rng.choice([1, 2, 3]), rng.choice([1, 2, 3, 4]), rng.choice([1, 2, 3, 5])
    P = SpatioTemporalProblem()
    P.sensors = fl([[Fr(i), Fr(i * i)] for i in range(ns)])
    times = rng.sample([Fr(k, 2) for k in range(12)], nt)
    if rng.random() < 0.5:  # times in any order
        times = sorted(times)
    P.times = fl(times)
    P.domain = [[-10, 10]]
    P.lam = fl([[Fr(k, 2)] for k in range(n)])
    D = [[Fr(rng.randint(-30, 30), 2) for _ in range(ns * nt)] for _ in range(n)]
    P.data = fl(D)
    meas = [Fr(rng.randint(-30, 30), 2) for _ in range(ns * nt)]
    P.measurements = fl(meas)
    kw = {}
    s = rng.randrange(ns)
    if s or rng.random() < 0.5:
        kw["sensor_idx"] = s
    ts, samples, mx = list(range(nt)), list(range(n)), 100
    if rng.random() < 0.5:
        ts = rng.sample(range(nt), rng.randint(1, nt))
        if rng.random() < 0.5:
            ts = sorted(ts)
        kw["times"] = spell_mask(rng, ts, nt)
    if rng.random() < 0.5:
        samples = rng.sample(range(n), rng.randint(1, n))
        kw["samples"] = spell_mask(rng, samples, n)
    if rng.random() < 0.6:
        mx = rng.randint(1, n + 1)
        kw["max_plot"] = mx
    st, mo, so = Style(rng), {}, {}
    if rng.random() < 0.5:
        kw["meas_kwargs"] = mo = st.point_opts()
    if rng.random() < 0.5:
        kw["samples_kwargs"] = so = st.line_opts(short=False)
    al = rng.choice([None, 0.5, 0.75])
    if al:
        kw["alpha"] = al
    ev, nw = cv.draw(rng, lambda ax: P.plot_ts(ax=ax, **kw))
    if nw:
        lns = [ln[2] for ln in nw.lines]
        st.points("ts", mo, nw.scatters)
        st.lines("ts", so, lns[:-1])
        st.add("ts:sensor", [f"Sensor {s}"], [x.get_label() for x in lns if not x.get_label().startswith("_")])
    return dict(ev, sty=st.out, op="ts", D=Fm(D), meas=Fv(meas), times=Fv(times), ns=ns, nt=nt, s=s + 1, ts=[t + 1 for t in ts], samples=[i + 1 for i in samples], max=mx,
                pts=nw.points() if nw else [], lines=[dict(x=[q(v) for v in ln[0]], y=[q(v) for v in ln[1]]) for ln in nw.lines] if nw else [])


def ev_vecs(ctx, cv):
    rng = ctx.rng
    vecs = [[Fr(rng.randint(-8, 8), 2) for _ in range(rng.randint(1, 4))] for _ in range(rng.randint(1, 3))]
    if rng.random() < 0.5:
        vecs = [v[: min(map(len, vecs))] for v in vecs]
    kw = {}
    if rng.random() < 0.4:
        kw["markers"] = ["o", "x", "^"]
    if rng.random() < 0.3:
        kw["label"] = False
    st = Style(rng)
    o = st.point_opts()
    ev, nw = cv.draw(rng, lambda ax: plot.plot_1D_vecs([fl(v) for v in vecs], ax=ax, **kw, **o))
    if nw:
        st.points("vecs", o, nw.scatters)
        st.add("vecs:names", len(vecs), len({c.get_label() for c in nw.scatters}))
    return dict(ev, sty=st.out, op="vecs", vecs=[Fv(v) for v in vecs],
                sets=[[[q(a), q(b)] for a, b in np.asarray(c.get_offsets(), float)] for c in nw.scatters] if nw else [])


EVS = [(ev_dist, 5), (ev_vert, 1), (ev_problem, 7), (ev_bayes, 4), (ev_contours, 4), (ev_sol, 3), (ev_chain, 3), (ev_plotchain, 1), (ev_fun, 2), (ev_qoi, 3),
       (ev_sensors, 3), (ev_ts, 3), (ev_vecs, 1)]


def c17_traces(ctx):
    rng = ctx.rng
    bag = [f for f, n in EVS for _ in range(n)]
    for it in range(ctx.scale(330, 3000)):
        cv = Canvas()
        ids0 = cv.ids0
        ev = []
        for _ in range(rng.choice([2, 3, 4])):
            f = rng.choice(bag)
            try:
                e = f(ctx, cv)
            finally:
                pass
            if e is not None:
                ev.append(e)
            elif cv.snap() != (ev[-1]["ids"] if ev else ids0):
                break
        plt.close("all")
        if ev:
            ctx.case("T_Plot", dict(ids=ids0, ev=ev))


def c17_fine(ctx):
    """curves over fine grids, by the same definition: the density summed over the other axes, scaled to one"""
    rng = np.random.default_rng(ctx.seed + 17)
    for it in range(ctx.scale(24, 200)):
        plt.close("all")
        D, n = [(1, int(rng.integers(40, 900))), (2, int(rng.integers(20, 140))), (3, int(rng.integers(8, 30)))][it % 3]
        idx = int(rng.integers(0, D))
        lo = rng.normal(size=D) * 3
        B = np.stack([lo, lo + rng.uniform(0.1, 9, D)], axis=1)
        mid, wid = B.mean(axis=1), B[:, 1] - B[:, 0]
        at = [np.linspace(a, b, n)[:-1] for a, b in B]
        grid = np.stack([g.ravel() for g in np.meshgrid(*at, indexing="ij")])
        if it % 2:
            f = gaussian_kde((mid[:, None] + wid[:, None] * rng.normal(size=(D, 30)) * 0.3))
            val, src = f(grid), "kde"
        else:
            f = dist.norm(mid + 0.2 * wid, wid * rng.uniform(0.1, 1, D)) if rng.random() < 0.5 else dist.uniform(B[:, 0] - 0.1, 2 * wid)
            val, src = f.pdf(grid.T).prod(axis=1), "pdf"
        y = val.reshape((n - 1,) * D).sum(axis=tuple(a for a in range(D) if a != idx))
        y = y / (y.sum() * (at[idx][1] - at[idx][0]))
        ax = call(plot.plot_dist, f, B, idx=idx, source=src, aff=n)
        ok = not isinstance(ax, Raised) and len(ax.lines) == 1
        ctx.direct(ok and close(ax.lines[0].get_xdata(), at[idx]) and close(ax.lines[0].get_ydata(), y, 1e-7, 1e-9), "curve:fine",
                   lambda: dict(D=D, n=n, idx=idx, src=src, B=B.tolist()))
        fine_panels(ctx, rng, it)
    plt.close("all")


def marginal(val, at, idx, unit=True):
    D = len(at)
    y = val.reshape([len(a) for a in at]).sum(axis=tuple(a for a in range(D) if a != idx))
    return y / (y.sum() * (at[idx][1] - at[idx][0])) if unit else y


def fine_panels(ctx, rng, it):
    """the panels of problems with many samples, drawn one curve at a time"""
    N, p, d = int(rng.integers(20, 250)), int(rng.integers(1, 3)), int(rng.integers(1, 3))
    n = int(rng.integers(30, 200)) if max(p, d) == 1 else int(rng.integers(12, 50))
    X = rng.uniform(-1, 2, (N, p))
    Y = X @ rng.normal(size=(p, d)) + 0.3 * rng.normal(size=(N, d))
    w = rng.uniform(0.1, 3, N) if rng.random() < 0.6 else np.ones(N)
    box = np.array([[-1.2, 2.3]] * p)
    yb = np.stack([Y.min(axis=0) - 0.3, Y.max(axis=0) + 0.2], axis=1)
    obd = dist.norm(Y.mean(axis=0), 0.4 + 0.3 * rng.random())
    at, yt = [np.linspace(a, b, n)[:-1] for a, b in box], [np.linspace(a, b, n)[:-1] for a, b in yb]
    grid, ygrid = [np.stack([g.ravel() for g in np.meshgrid(*t, indexing="ij")]) for t in (at, yt)]
    i, j = int(rng.integers(0, p)), int(rng.integers(0, d))
    bayes = bool(it % 2)
    if bayes:
        P = BayesProblem(X, Y, box)
        log = bool(rng.random() < 0.5)
        P.set_likelihood(obd, log=log)
        w = np.ones(N)
        r = obd.pdf(Y).prod(axis=1)
        none, k = dict(pr_opts=None, map_opts=None), "ps_opts"
        onone = dict(ll_opts=None)
    else:
        P = DensityProblem(X, Y, box, weights=w)
        P.set_observed(obd)
        r = obd.pdf(Y).prod(axis=1) / gaussian_kde(Y.T, weights=w).pdf(Y.T)
        none, k = dict(in_opts=None, win_opts=None, mud_opts=None), "up_opts"
        onone = dict(ob_opts=None, pr_opts=None)
        call(P.fit)
    det = lambda: dict(it=it, N=N, p=p, d=d, n=n, i=i, j=j, bayes=bayes)
    for nm, fn, want, x in (
            ("param", lambda ax: P.plot_param_space(param_idx=i, ax=ax, x_range=box, aff=n, **none), marginal(gaussian_kde(X.T, weights=r * w)(grid), at, i), at[i]),
            ("obs", lambda ax: P.plot_obs_space(obs_idx=j, ax=ax, y_range=yb, aff=n, **onone),
             marginal(gaussian_kde(Y.T, weights=r * w)(ygrid), yt, j, not bayes), yt[j])):
        ax = plt.figure(figsize=(2, 2)).add_subplot(1, 1, 1)
        o = call(fn, ax)
        ok = not isinstance(o, Raised) and len(ax.lines) == 1
        v = np.asarray(ax.lines[0].get_ydata(), float) if ok else None
        if ok and bayes and nm == "obs":  # drawn up to a factor
            v, want = v / v.sum(), want / want.sum()
        ctx.direct(ok and close(ax.lines[0].get_xdata(), x) and close(v, want, 1e-6, 1e-9), "panel:fine:" + nm, det)


def c17_save(ctx):
    """save_figure writes the current figure where asked, and closes it unless told not to"""
    rng = ctx.rng
    for it in range(ctx.scale(12, 60)):
        plt.close("all")
        keep = rng.random() < 0.5
        d = os.path.join(os.getcwd(), f"fig{it}")
        os.makedirs(d, exist_ok=True)
        other = plt.figure(figsize=(2, 2))
        fig = plt.figure(figsize=(2, 1))
        fig.add_subplot(1, 1, 1).plot([0, 1], [1, it])
        name, ext = f"x{it}", rng.choice(["png", "pdf", "svg"])
        kw = {"close_fig": not keep} if keep or rng.random() < 0.5 else {}
        dpi = rng.choice([None, 20, 50])
        if dpi:
            kw["dpi"] = dpi
        r = call(plot.save_figure, name + "." + ext, save_path=d, **kw)
        p = os.path.join(d, name + "." + ext)
        ctx.direct(not isinstance(r, Raised) and os.path.isfile(p) and os.path.getsize(p) > 0 and os.listdir(d) == [name + "." + ext],
                   "save_figure:file", lambda: dict(r=repr(r), files=os.listdir(d)))
        ctx.direct(plt.fignum_exists(fig.number) == keep and plt.fignum_exists(other.number), "save_figure:closed", lambda: dict(keep=keep, open=plt.get_fignums()))
        if ext == "png" and dpi and os.path.isfile(p):
            im = plt.imread(p)
            ctx.direct(im.shape[:2] == (dpi, 2 * dpi), "save_figure:options", lambda: dict(dpi=dpi, shape=im.shape))
    plt.close("all")
