"""Example generators (T_Example)."""
import os
import pickle
import shutil
import tempfile
from fractions import Fraction as Fr

import numpy as np

from decomp import fx
from enc import F, Fm, Fv, Raised, call, close, fl, obs


class Draws:
    """an initial distribution that draws what it was told"""

    def __init__(self, x):
        self.x = x

    def rvs(self, size=None, **k):
        return np.reshape(np.array([float(v) for v in self.x]), size)


def poly_event(rng):
    from mud.examples import simple

    n, N, p = rng.randint(1, 6), rng.choice([1, 1, 2, 5]), rng.choice([1, 2, 3, 5])
    x = [Fr(rng.randint(-6, 7), rng.choice([1, 2, 4])) for _ in range(n)]
    mu, seed = Fr(rng.randint(-3, 4), 4), rng.randrange(9999)
    np.random.seed(seed)
    r = call(simple.polynomial_1D_data, p=p, num_samples=n, init_dist=Draws(x), mu=float(mu), sigma=1.0, N=N)
    if isinstance(r, Raised):
        o = obs(r)
        return dict(op="poly", x=Fv(x), p=p, N=N, mu=F(mu), lam=o, q=o, data=o, unit=o, level=F(1))
    lam, q, data = r
    z = np.random.RandomState(seed).randn(N)
    return dict(op="poly", x=Fv(x), p=p, N=N, mu=F(mu), lam=obs(lam), q=obs(q), data=obs(data), unit=obs((np.asarray(data) - float(mu)) / z), level=F(1))


def noisy_event(rng):
    from mud.examples import linear

    d, rows = rng.randint(1, 3), rng.choice([1, 1, 2, 3])
    num = rows if rows > 1 and rng.random() < 0.85 else rng.choice([1, 2, 4])
    M = [[Fr(rng.randint(-4, 5), 2) for _ in range(d)] for _ in range(rows)]
    ref = [Fr(rng.randint(-4, 5), 2) for _ in range(d if rng.random() < 0.9 else d + 1)]
    per = rng.random() < 0.4
    k = num if rng.random() < 0.85 else num + 1
    std = [Fr(rng.choice([0, 1, 2, 3]), 4) for _ in range(k)] if per else Fr(rng.choice([0, 1, 2]), 4)
    seed = rng.randrange(9999)
    np.random.seed(seed)
    kw = {} if num == rows and rng.random() < 0.5 else {"num_data": num}
    r = call(linear.noisy_linear_data, fl(M), fl(ref) if rng.random() < 0.5 else fl(ref).tolist(), fl(std) if per else float(std), **kw)
    z = np.random.RandomState(seed).randn(num)
    out = r if isinstance(r, Raised) else np.asarray(r) - z[: len(r)] * (fl(std) if per else float(std))
    return dict(op="noisy", M=Fm(M), ref=Fv(ref), nstd=k if per else 0, num=num, out=obs(out))


def rotation_event(rng):
    from mud.examples import linear
    from mud.util import std_from_equipment

    n, tol = rng.randint(2, 9), rng.choice([0.1, 0.5, 2.0])
    given = rng.random() < 0.6
    ref = [Fr(rng.randint(-4, 5), 2) for _ in range(2)] if given else [Fr(1, 2)] * 2
    b = [Fr(rng.randint(-4, 5), 2) for _ in range(n)] if given else [Fr(0)] * n
    kw = dict(b=fl(b).reshape(-1, 1), ref_param=fl(ref).reshape(-1, 1)) if given else {}
    r = call(linear.rotation_map, qnum=n, tol=tol, **kw)
    bad = dict(op="rotation", n=n, A=[[0, 0]] * n, y=[9999999] * n, ref=[0, 0], b=[0] * n, cov=[], sd=-1)
    if isinstance(r, Raised) or np.shape(r[0]) != (n, 2) or np.size(r[2]) != n:
        return bad
    return dict(op="rotation", n=n, A=fx(r[0]), y=fx(np.ravel(r[2])), ref=fx(fl(ref)), b=fx(fl(b)), cov=fx(r[4]), sd=int(round(std_from_equipment(tol) * 1000)))


def flat(r):
    out = []

    def go(x):
        if isinstance(x, (list, tuple)):
            for y in x:
                go(y)
        elif isinstance(x, (int, float, np.ndarray, np.generic)):
            out.append(np.ravel(np.asarray(x, float)))
        elif hasattr(x, "A"):
            go([x.A, x.b, x.y, x.mean_i, x.cov_i])
        elif hasattr(x, "get_xdata") or hasattr(x, "lines"):
            go([ln.get_ydata() for ln in x.lines])
    go(r)
    return np.concatenate(out) if out else np.zeros(0)


def draws(name, fn, seeds):
    """fn(seed) -> anything with numbers"""
    import matplotlib.pyplot as plt

    np.random.seed(11)
    a = call(fn, seeds[0], _limit=60)
    np.random.seed(22)
    b = call(fn, seeds[0], _limit=60)
    c = call(fn, seeds[1], _limit=60)
    plt.close("all")
    ran = not any(isinstance(x, Raised) for x in (a, b, c))
    same = differs = False
    if ran:
        a, b, c = flat(a), flat(b), flat(c)
        same, differs = a.shape == b.shape and bool(np.array_equal(a, b, equal_nan=True)), not (a.shape == c.shape and np.allclose(a, c))
    return dict(op="draws", name=name, ran=ran, same=bool(same), differs=bool(differs))


def problem(name, r, want, f):
    """f(r) -> (shape, inside, model)"""
    if isinstance(r, Raised):
        return dict(op="problem", name=name, ran=False, shape=[], want=want, inside=False, model=False, exc=repr(r))
    shape, inside, model = f(r)
    return dict(op="problem", name=name, ran=True, shape=[int(s) for s in shape], want=want, inside=bool(inside), model=bool(model))


def seeds_of(rng):
    return rng.sample(range(1000), 2)


def c20_generators(ctx):
    from scipy.stats import norm, uniform

    from mud.examples import adcirc, exp_decay, linear, poisson, simple

    rng = ctx.rng
    for _ in range(ctx.scale(150, 3000)):
        ctx.case("T_Example", dict(ev=[f(rng) for f in (poly_event, noisy_event, rotation_event)]))
    for _ in range(ctx.scale(12, 120)):
        ev = []
        i, o = rng.randint(1, 6), rng.randint(1, 6)
        ev.append(draws("linear-problem", lambda s: linear.random_linear_problem(i, o, seed=s), seeds_of(rng)))
        r = call(linear.random_linear_problem, i, o, seed=rng.randrange(99))
        ev.append(problem("linear-problem", r, [o, i, i, 1, o, 1], lambda r: (
            r[1].A.shape + r[0].shape + r[1].y.shape, True,
            close(r[1].y, r[1].A @ r[0] + r[1].b) and close(r[1].mean_i, np.zeros((i, 1))) and close(r[1].cov_i, np.diag(np.diag(r[1].cov_i)))
            and np.all(np.diff(np.diag(r[1].cov_i)) <= 0) and np.all(np.diag(r[1].cov_i) >= 0.5))))
        k, N, rep = rng.randint(1, 3), rng.choice([1, 3, 5]), True
        ref = np.array([rng.uniform(-1, 1) for _ in range(i)])
        seed = rng.randrange(999)
        np.random.seed(seed)
        r = call(linear.random_linear_wme_problem, ref, [0] * k, num_qoi=k, num_observations=[N] * k, repeated=rep, dist=rng.choice(["normal", "uniform"]))
        ev.append(problem("wme-problem", r, [k, k, i, N], lambda r: (
            (len(r[0]), len(r[1]), r[0][-1].shape[1], len(r[1][-1])), True,
            all(close(d, np.repeat(M @ ref, N)) for M, d in zip(r[0], r[1])))))
        do = rng.randint(1, 4)
        di = rng.randint(max(2, do), 5)
        ev.append(draws("high-dim", lambda s: linear.run_high_dim_linear(di, do, seed=s), seeds_of(rng)))
        ev.append(draws("wme-covariance", lambda s: linear.run_wme_covariance(di, do, Ns=[3, 6], seed=s), seeds_of(rng)))
        n, N, lo = rng.choice([40, 90]), rng.choice([1, 4, 20]), rng.choice([0.0, -1.0])
        w = rng.choice([1.0, 2.0])
        r = call(simple.identity_1D_density_prob, num_samples=n, num_obs=N, mu=lo + w / 2, sigma=0.05, domain=[lo, lo + w])
        ev.append(problem("identity-density", r, [n, 1, n, 1], lambda D: (
            np.shape(D.X) + np.shape(D.y), np.all((D.X >= lo) & (D.X <= lo + w)),
            close(D.X, D.y) and abs(float(np.ravel(D.estimate())[0]) - (lo + w / 2)) < 0.4 * w)))
        r = call(simple.identity_1D_bayes_prob, num_samples=n, num_obs=N, mu=0.5, sigma=0.05, init_dist=uniform(lo, w))
        ev.append(problem("identity-bayes", r, [n, 1, n, 1], lambda B: (
            np.shape(B.X) + np.shape(B.y), np.all((B.X >= lo) & (B.X <= lo + w)), close(B.X, B.y))))
        fr, u0, lt = rng.choice([2.0, 5.0]), rng.uniform(0.3, 1), rng.uniform(0.1, 0.9)
        r = call(exp_decay.exp_decay_1D, u_0=u0, time_range=[0, 3.0], domain=[0, 1], num_samples=n, lambda_true=lt, sampling_freq=fr, std_dev=0.1)
        T = int(3 * fr)
        ev.append(problem("decay", r, [n, 1, n, T, T], lambda E: (
            np.shape(E.lam) + np.shape(E.data) + np.shape(E.times), np.all((E.lam >= 0) & (E.lam <= 1)),
            close(E.data, u0 * np.exp(-E.lam.reshape(-1, 1) * E.times)) and close(np.ravel(E.true_vals), u0 * np.exp(-lt * E.times)) and close(np.ravel(E.std_dev)[0], 0.1))))
        ctx.case("T_Example", dict(ev=ev))
    d = tempfile.mkdtemp(prefix="c20g-", dir=os.environ.get("TMPDIR"))
    try:
        from cli import datasets

        datasets(d)
        for name, fn in (("poisson", poisson.load_poisson_prob), ("adcirc", adcirc.load_adcirc_prob)):
            p = os.path.join(d, name)
            with open(p, "rb") as fp:
                raw = pickle.load(fp)
            ev = [draws("load-" + name, lambda s: fn(p, seed=s)[1].measurements, seeds_of(rng)) for _ in range(3)]
            seed = rng.randrange(99)
            r = call(fn, p, std_dev=0.05, seed=seed)

            def model(r, sd):
                np.random.seed(seed)
                z = np.random.randn(*np.shape(r[1].true_vals))
                return close(np.ravel(r[1].measurements), np.ravel(np.ravel(r[1].true_vals) + sd * np.ravel(z)))
            n, T = raw["data"].shape
            ev.append(problem("load-" + name, r, [n, 2, n, T], lambda r: (np.shape(r[1].lam) + np.shape(r[1].data), True, model(r, 0.05) and close(np.ravel(r[1].true_vals), raw["true_vals"]))))
            ctx.case("T_Example", dict(ev=ev))
            r = call(fn, p, std_dev=0.4, seed=seed)
            ctx.case("T_Example", dict(ev=[problem("load-%s-noise" % name, r, [n, 2, n, T], lambda r: (np.shape(r[1].lam) + np.shape(r[1].data), True, model(r, 0.4)))]),
                     kf="C20-load-%s-std" % name)
        # recorded findings
        from random import seed as pyseed

        def solve(s):
            pyseed(s * 7 + int(np.random.randint(1000)))
            P, D, _ = poisson.run_2d_poisson_sol(os.path.join(d, "poisson"), seed=s, plot_fig=[])
            return np.array(D.y)
        ctx.case("T_Example", dict(ev=[draws("poisson-solve", solve, [3, 4])]), kf="C20-poisson-solve-seed")
    finally:
        shutil.rmtree(d, ignore_errors=True)
    np.random.seed(4)
    r = call(simple.polynomial_1D_data, p=1, num_samples=5, N=4, mu=0.0, sigma=0.5, init_dist=Draws([1] * 5))
    z = np.random.RandomState(4).randn(4)
    ctx.case("T_Example", dict(ev=[dict(op="polyLevel", sigma=F(Fr(1, 2)), level=obs(np.mean(np.asarray(r[2]) / z))["v"][0])]), kf="C20-poly-sigma")
    r = call(simple.polynomial_1D_data, p=1, num_samples=20, N=1, domain=[[2, 3]])
    ctx.case("T_Example", dict(ev=[dict(op="polyDomain", n=20, inside=int(np.sum((r[0] >= 2) & (r[0] <= 3))))]), kf="C20-poly-domain")
    ctx.case("T_Example", dict(ev=[draws("rotation-map", lambda s: linear.rotation_map(4, seed=s)[3], [1, 2])]), kf="C20-rotation-seed")
    r = call(simple.identity_1D_temporal_prob, num_samples=60, num_obs=5, domain=[0, 1])
    ctx.case("T_Example", dict(ev=[problem("identity-temporal", r, [60, 1], lambda D: (np.shape(D.X), True, True))]), kf="C20-temporal")
    r = call(exp_decay.exp_decay_2D, num_samples=20, N=5)
    ctx.case("T_Example", dict(ev=[problem("decay-2d", r, [20, 2, 20, 5], lambda E: (np.shape(E.lam) + np.shape(E.data), True, True))]), kf="C20-decay-2d")
    ctx.case("T_Example", dict(ev=[draws("high-dim", lambda s: linear.run_high_dim_linear(2, 4, seed=s), [1, 2])]), kf="C20-high-dim-tall")
    tr = lambda s: [ln.get_ydata() for ln in _axes(linear, s)]  # noqa: E731
    ctx.case("T_Example", dict(ev=[draws("rotation-trials", tr, [1, 2])]), kf="C20-rotation-trials")


def _axes(linear, s):
    import matplotlib.pyplot as plt

    _, ax = plt.subplots()
    linear.rotation_map_trials(numQoI=4, num_trials=2, model_eval_budget=8, ax=ax, seed=s)
    return list(ax.lines)
