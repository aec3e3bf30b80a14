"""The command line (T_Cli): runs with options and seeds, in scratch folders, with synthetic data files."""
import hashlib
import multiprocessing as mp
import os
import pickle
import random
import re
import shutil
import signal
import tempfile

import numpy as np

BLANK = {k: [] for k in "ns p n mu sigma dom plot prob di do y1 y2 x1 x2 k wins mesh".split()}
HOURS = "2018-01-%02d %02d:30:00"


def stamp(h):
    return HOURS % (1 + h // 24, h % 24)


def run(cmd, seed=1, dpi=20, place="ok", bad="", **o):
    return dict(cmd=cmd, seed=seed, dpi=dpi, place=place, bad=bad, o=dict(BLANK, **o))


def datasets(d):
    """small poisson and adcirc data files, as the loaders expect them"""
    import pandas as pd

    r = np.random.RandomState(5)
    lam = r.uniform(-4, 0, (120, 2))
    sens = r.uniform(0, 1, (12, 2))
    fwd = lambda L: 0.05 * (L @ np.vstack([sens[:, 0], sens[:, 1] ** 2]) + 0.3 * np.sin(3 * L[:, :1]) * sens[:, 0])  # noqa: E731
    g = np.linspace(0, 1, 6)
    mesh = np.array([[a, b] for a in g for b in g])
    with open(os.path.join(d, "poisson"), "wb") as fp:
        pickle.dump(dict(lam=lam, data=fwd(lam), true_vals=fwd(np.array([[-3.0, -1.0]]))[0], domain=np.array([[-4.0, 0.0], [-4.0, 0.0]]),
                         sensors=sens, u=(mesh, -0.5 * mesh[:, 0] * mesh[:, 1])), fp)
    hours = list(range(0, 60))
    times = pd.to_datetime(["2018-01-%02d %02d:00:00" % (1 + h // 24, h % 24) for h in hours]).to_numpy()
    T = np.array(hours) / 12.0
    lam = np.column_stack([r.uniform(0.02, 0.12, 30), r.uniform(0.0012, 0.0038, 30)])
    f2 = lambda L: 10 * L[:, :1] * np.sin(T) + 200 * L[:, 1:] * np.cos(T)  # noqa: E731
    tri = []
    for a in range(5):
        for b in range(5):
            k = 6 * a + b
            tri += [[k, k + 1, k + 6], [k + 1, k + 6, k + 7]]
    grid = dict(X=mesh[:, 0] - 73, Y=mesh[:, 1] + 40, triangles=np.array(tri), XEL=np.array([-72.5]), YEL=np.array([40.5]),
                wind_speed_mult_0=mesh[:, 0] + mesh[:, 1], other=mesh[:, 0] * 2 - mesh[:, 1], DP=mesh[:, 0] * 12)
    ref = np.array([[0.07, 0.0025]])
    with open(os.path.join(d, "adcirc"), "wb") as fp:
        pickle.dump(dict(lam=lam, data=f2(lam), true_vals=f2(ref)[0], domain=np.array([[0.02, 0.12], [0.0012, 0.0038]]), lam_ref=ref[0],
                         times=times, wind_speed=(times, np.abs(np.sin(T))), grid_data=grid), fp)
    for name, A in (("other", [[1, 2]]), ("third", [[2, 1]])):
        with open(os.path.join(d, name + ".json"), "w") as fp:
            fp.write('{"A": %s}' % A)
    return [2 * h for h in hours]


def argv(r, rng, d, place):
    a = ["examples", "--save-path", place, "--dpi", str(r["dpi"])]
    if r["seed"] >= 0:
        a += ["--seed", str(r["seed"]) if r["bad"] != "group" else "one"]
    elif r["bad"] == "group":
        a += ["--seed", "1.5"]
    a.append(r["cmd"])
    o = r["o"]
    b = []
    th = lambda v: repr(v / 1000)  # noqa: E731

    def add(key, flags, conv=str):
        vs = o[key]
        if vs:
            f = rng.choice(flags)
            for v in vs:
                b.append([f, conv(v)])

    c = r["cmd"]
    if c == "comparison":
        add("ns", ["--n-vals"])
        add("p", ["-p", "--power"])
        add("n", ["-n", "--num_samples"])
        add("mu", ["-m", "--mu"], th)
        add("sigma", ["-s", "--sigma"], th)
        add("dom", ["-d", "--domain"])
    elif c == "contours":
        add("plot", ["-p", "--plot_fig"])
        if o["prob"] and o["prob"] != ["default"]:
            b.append([rng.choice(["-f", "--lin_prob_file"]), os.path.join(d, o["prob"][0] + ".json")])
        if r["bad"] == "data":
            b.append(["-f", os.path.join(d, "absent.json")])
    elif c == "wme-covariance":
        add("di", ["-i", "--dim_input"])
        add("do", ["-o", "--dim_output"])
        add("sigma", ["-s", "--sigma"], th)
        add("ns", ["-n", "--num_data"])
    elif c == "high-dim-linear":
        add("di", ["-i", "--dim_input"])
        add("do", ["-o", "--dim_output"])
    elif c in ("poisson-trials", "poisson-solve"):
        if r["bad"] != "missing":
            b.append([os.path.join(d, "absent" if r["bad"] == "data" else "poisson")])
        add("sigma", ["-s", "--sigma"], th)
        if c == "poisson-solve":
            add("plot", ["-p", "--plot_fig"])
        else:
            add("ns", ["-n", "--n_vals"])
            add("y1", ["-y1", "--ylim1"], th)
            add("y2", ["-y2", "--ylim2"], th)
            add("x1", ["-x1", "--xlim1"], th)
            add("x2", ["-x2", "--xlim2"], th)
    elif c == "adcirc-solve":
        b.append([os.path.join(d, "absent" if r["bad"] == "data" else "adcirc")])
        add("plot", ["-p", "--plot_fig"])
        add("k", ["-n", "--num-components"])
        add("sigma", ["-s", "--sigma"], th)
        add("mesh", ["-mv", "--mesh-value"])
        for w in o["wins"]:
            b.append(["-t1", stamp(w[0] // 2), "-t2", stamp(w[1] // 2)])
        b.append(["-mz", "[[-72.5, 0.5], [40.5, 0.5]]"])
    if r["bad"] == "option":
        b.append(rng.choice([["--no-such-option"], [{"comparison": "-n", "contours": "-q", "wme-covariance": "-i", "high-dim-linear": "-o",
                                                     "poisson-trials": "-n", "poisson-solve": "-s", "adcirc-solve": "-n"}[c], "x"]]))
    return a + sum(b, [])


def history(job):
    """one case: (case record, kf)"""
    seed, d, steps, times, kf = job
    import matplotlib.pyplot as plt
    from click.testing import CliRunner

    from mud.cli import cli

    rng = random.Random(seed)
    top = tempfile.mkdtemp(prefix="cli-", dir=d)
    place, ev = os.path.join(top, "figs"), []
    try:
        for k, (r, fresh) in enumerate(steps):
            if fresh or k == 0:
                place = os.path.join(top, "figs%d" % k)
            p = os.path.join(top, "none", "deep") if r["place"] == "deep" else place
            np.random.seed(rng.randrange(2**31))
            random.seed(rng.randrange(2**31))
            a = argv(r, rng, d, p)
            signal.setitimer(signal.ITIMER_REAL, 60)
            try:
                res = CliRunner().invoke(cli, a)
                code, out = int(res.exit_code), res.output
                exc = repr(res.exception)[:200]
            except BaseException as e:  # noqa
                code, out, exc = 99, "", repr(e)[:200]
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
                plt.close("all")
            files = []
            if os.path.isdir(p):
                for f in sorted(os.listdir(p)):
                    with open(os.path.join(p, f), "rb") as fp:
                        files.append(dict(name=f, digest=hashlib.sha1(fp.read()).hexdigest()))
            elif r["place"] == "deep" and os.path.isdir(place):
                for f in sorted(os.listdir(place)):
                    with open(os.path.join(place, f), "rb") as fp:
                        files.append(dict(name=f, digest=hashlib.sha1(fp.read()).hexdigest()))
            table = [int(x) for x in re.findall(r"^\|\s*(\d+)\s*\|", out, re.M)] if r["cmd"] == "poisson-trials" else []
            ev.append(dict(run=r, fresh=bool(fresh or k == 0), exit=code, exists=os.path.isdir(place), files=files, table=table,
                           argv=" ".join(a).replace(d, ""), exc=exc))
    finally:
        shutil.rmtree(top, ignore_errors=True)
    return dict(data=dict(times=times), ev=ev), kf


def vary(rng, r):
    """a run differing from r in one option that matters"""
    o = dict(r["o"])
    c = r["cmd"]
    if c == "comparison":
        k = rng.choice(["p", "n", "mu", "sigma", "dom", "ns"])
        o[k] = {"p": [3], "n": [45], "mu": [350], "sigma": [150], "dom": [-2, 3], "ns": [2, 1]}[k]
    elif c == "contours":
        o["prob"] = [rng.choice(["other", "third", "default"])]
    elif c == "wme-covariance":
        k = rng.choice(["di", "do", "sigma", "ns"])
        o[k] = {"di": [7], "do": [2], "sigma": [300], "ns": [6, 30]}[k]
    elif c == "high-dim-linear":
        k = rng.choice(["di", "do"])
        o[k] = {"di": [7], "do": [4]}[k]
    elif c == "poisson-trials":
        k = rng.choice(["y1", "y2", "x1", "x2", "ns"])
        o[k] = {"y1": [-200, 4000], "y2": [-200, 4000], "x1": [-5000, 1000], "x2": [-5000, 1000], "ns": [2]}[k]
    elif c == "adcirc-solve":
        o["k"] = [1] if o["k"] == [2] else [2]
    return dict(r, o=o)


def base(rng, c):
    s = rng.choice([1, 1, 2, 7, 0])
    if c == "comparison":
        return run(c, s, n=[rng.choice([30, 40])], ns=rng.choice([[1], [3], [1, 4], [4, 1]]), dom=rng.choice([[], [-1, 1]]))
    if c == "contours":
        names = ["data_mismatch", "tikhonov", "consistent", "map", "mud", "comparison"]
        return run(c, rng.choice([-1, 1, 2]), plot=rng.choice([[], ["all"], rng.sample(names, 1), rng.sample(names, 2), ["nothing"], ["mud", "nothing"]]),
                   prob=rng.choice([[], ["default"], ["other"]]))
    if c == "wme-covariance":
        return run(c, s, di=[5], do=[3], ns=rng.choice([[4, 9], [5], [9, 4]]))
    if c == "high-dim-linear":
        return run(c, s, di=[5], do=[rng.choice([3, 5])])
    if c == "poisson-trials":
        return run(c, s, ns=rng.choice([[4, 2], [3], [3, 9]]))
    return run("adcirc-solve", s, plot=rng.choice([["updated_dist"], ["ts-pca"], ["full_ts"], ["mesh"], ["ts-pca", "updated_dist"]]), k=[2],
               wins=rng.choice([[], [[9, 41]], [[9, 41], [3, 71]]]))


CMDS = ["comparison", "comparison", "contours", "contours", "wme-covariance", "high-dim-linear", "poisson-trials", "adcirc-solve"]


def steps_of(rng):
    c = rng.choice(CMDS)
    b = base(rng, c)
    L = [(b, True)]
    for _ in range(rng.choice([2, 3, 4])):
        z = rng.random()
        if z < 0.2:
            r = b
        elif z < 0.42:
            r = vary(rng, b)
        elif z < 0.6:
            r = dict(b, seed=rng.choice([x for x in (-1, 3, 4, 0) if x != b["seed"]]))
        elif z < 0.68:
            r = dict(b, dpi=rng.choice([15, 25]))
        elif z < 0.76:
            r = dict(b, place="deep")
        elif z < 0.88:
            kinds = ["group", "option"] + (["data"] if c in ("contours", "poisson-trials", "adcirc-solve") else [])
            r = dict(b, bad=rng.choice(kinds))
        else:
            r = base(rng, rng.choice(CMDS))
        L.append((r, rng.random() < 0.4))
    return L


def c20_cli(ctx):
    import mud.cli  # noqa: F401  (imported before forking)

    rng = ctx.rng
    d = tempfile.mkdtemp(prefix="c20-", dir=os.environ.get("TMPDIR"))
    times = datasets(d)
    jobs = [(rng.randrange(2**31), d, steps_of(rng), times, None) for _ in range(ctx.scale(70, 700))]
    # every command, with a seed, without, and again
    for c in sorted(set(CMDS)):
        b = base(rng, c)
        b["seed"] = 5
        L = [(b, True), (dict(b, seed=-1), True), (b, True), (dict(b, seed=-1), True), (dict(b, seed=6), False), (dict(b, bad="group"), False),
             (dict(b, bad="option"), False), (b, False)]
        jobs.append((rng.randrange(2**31), d, L, times, None))
    # recorded findings, each identified by the run that fails
    for kf, L in FINDINGS:
        jobs.append((rng.randrange(2**31), d, [(r, True) for r in L], times, kf))
    with mp.get_context("fork").Pool(6) as pool:
        for rec, kf in pool.imap(history, jobs, chunksize=1):
            ctx.case("T_Cli", rec, kf=kf)
    ctx.notes["cli_runs"] = sum(len(j[2]) for j in jobs)
    shutil.rmtree(d, ignore_errors=True)


W = [[9, 41]]
FINDINGS = [
    ("C20-poisson-solve-figures", [run("poisson-solve"), run("poisson-solve", plot=["qoi"]), run("poisson-solve", plot=["densities", "response"])]),
    ("C20-poisson-trials-sigma", [run("poisson-trials", ns=[3]), run("poisson-trials", ns=[3], sigma=[400])]),
    ("C20-adcirc-sigma", [run("adcirc-solve", plot=["ts-pca"], wins=W), run("adcirc-solve", plot=["ts-pca"], wins=W, sigma=[400])]),
    ("C20-adcirc-learned-qoi-name", [run("adcirc-solve", plot=["learned_qoi"], wins=W)]),
    ("C20-adcirc-mesh-value", [run("adcirc-solve", plot=["mesh"]), run("adcirc-solve", plot=["mesh"], mesh=["other"])]),
]
