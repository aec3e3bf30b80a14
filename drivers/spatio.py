"""SpatioTemporalProblem: replay of MC_Spatio's labelled steps and recorded histories (T_Spatio)."""
import copy
import json
import os
import pickle
import re
from fractions import Fraction as Fr

import numpy as np

from density import square_weights
from enc import F, Fv, Raised, call, close, fl, obs, typed
from mud.base import DensityProblem, SpatioTemporalProblem as STP, xr_avail

FIELDS = ["domain", "lam", "lam_ref", "data", "sensors", "times", "measurements", "true_vals", "sample_dist", "std_dev"]
COUNTS = ["n_samples", "n_sensors", "n_ts", "n_params"]
NN = {"k": "none"}


def read_all(P):
    return {f: obs(call(getattr, P, f)) for f in FIELDS}


def none_obs(r):
    return obs(r) if isinstance(r, Raised) else NN


# ------------------------------------------------ replay of the state machine
def same(o, v):
    """observation = specification value"""
    if v["k"] != o["k"]:
        return False
    if v["k"] == "str":
        return o["s"] == v["s"]
    if v["k"] == "arr":
        return o["shape"] == v["shape"] and o["v"] == v["v"]
    return True


def decode(v):
    if v["k"] == "str":
        return v["s"]
    if v["k"] == "none":
        return None
    return np.array([a / b for a, b in v["v"]], dtype=float).reshape(v["shape"])


def spell(rng, f, x):
    """equivalent spellings of an assigned value"""
    if isinstance(x, np.ndarray) and f not in ("data", "sensors", "times") and rng.random() < 0.3:
        return x.tolist()
    return typed(rng, x, 0.3 if not isinstance(x, np.ndarray) or np.any(x < 0) else 0.6, single=True)


def c11_edges(ctx):
    rng = ctx.rng
    for name in ("spatio_param", "spatio_data"):
        by = {}
        with open(os.path.join(ctx.work, name + ".edges")) as fp:
            for line in fp:
                e = json.loads(line)
                by.setdefault(json.dumps(e["from"], sort_keys=True), []).append(e)
        n = 0
        first = json.dumps({f: NN for f in FIELDS}, sort_keys=True)
        objs = {first: STP()}
        todo = [first]
        while todo:
            key = todo.pop()
            for e in by.get(key, []):
                P = copy.deepcopy(objs[key])
                x = spell(rng, e["f"], decode(e["v"]))
                r = call(setattr, P, e["f"], x)
                n += 1
                det = lambda: dict(state=e["from"], field=e["f"], value=e["v"], accepted=e["ok"], got=repr(r), reads=read_all(P))
                ctx.direct(isinstance(r, Raised) != e["ok"], ("accepted:" if e["ok"] else "refused:") + e["f"], det)
                if isinstance(r, Raised) == e["ok"]:
                    continue
                good = True
                for f in FIELDS:
                    ok = same(obs(call(getattr, P, f)), e["to"][f])
                    good &= ok
                    ctx.direct(ok, "reads:" + f, det)
                k2 = json.dumps(e["to"], sort_keys=True)
                if good and k2 not in objs:
                    objs[k2] = P
                    todo.append(k2)
        ctx.notes[name + "_steps_replayed"] = n
        ctx.notes[name + "_states_reached"] = len(objs)
        # every state of the model is reachable in the code
        ctx.direct(len(objs) >= len(by) or bool(ctx.direct_fail), "all-states-reached",
                   lambda: dict(reached=len(objs), model=len(by)))


# ------------------------------------------------------- random value material
def ar(v, shape):
    """nested Fractions (flat list) + shape -> record"""
    return {"k": "arr", "shape": list(shape), "v": Fv(v)}


def num(rng):
    return Fr(rng.randint(-6, 8), rng.choice([1, 1, 2]))


class Setup:
    """A consistent set of parts, as flat Fractions with shapes."""

    def __init__(self, rng, p=None, n=None, E=None, T=None, std=True):
        self.p, self.n = p or rng.choice([1, 1, 2, 3]), n or rng.choice([1, 2, 3, 4, 5])
        self.E, self.T = E or rng.choice([1, 1, 2, 3]), T or rng.choice([1, 2, 2, 3, 4])
        p, n, E, T = self.p, self.n, self.E, self.T
        whole = rng.random() < 0.15  # counts
        num = (lambda rng: Fr(rng.randint(0, 9))) if whole else globals()["num"]
        lo = [num(rng) for _ in range(p)]
        hi = [a + rng.choice([1, 2, 3, Fr(5, 2)]) for a in lo]
        self.box = [x for j in range(p) for x in (lo[j], hi[j])]
        frac = [Fr(0), Fr(1), Fr(1, 2), Fr(1, 4), Fr(3, 4)]
        self.V = {
            "domain": ar(self.box, (p, 2)),
            "lam": ar([lo[j] + (hi[j] - lo[j]) * rng.choice(frac) for _ in range(n) for j in range(p)], (n, p)),
            "lam_ref": ar([lo[j] + (hi[j] - lo[j]) * rng.choice(frac) for j in range(p)], (p,)),
            "data": ar([num(rng) for _ in range(n * E * T)], (n, E * T)),
            "sensors": ar([Fr(i) for i in range(E)], (E,)) if rng.random() < 0.4 else
            ar([num(rng) for _ in range(2 * E)], (E, 2)),
            "times": ar([Fr(i, 2) for i in range(T)], (T,)),
            "measurements": ar([num(rng) for _ in range(E * T)], (E * T,)),
            "true_vals": ar([num(rng) for _ in range(E * T)], (E * T,)),
            "std_dev": ar([rng.choice([Fr(1), Fr(1, 2), Fr(2), Fr(1, 4)])], ()),
            "sample_dist": {"k": "str", "s": rng.choice(["u", "n"])},
        }

    def variant(self, rng, f):
        """another accepted shape of the same value"""
        v = dict(self.V[f])
        p, n, E, T = self.p, self.n, self.E, self.T
        z = rng.random()
        if f == "domain" and z < 0.4:
            v["shape"] = [2 * p]
        elif f == "lam" and p == 1 and z < 0.5:
            v["shape"] = [n]
        elif f == "lam_ref" and z < 0.4:
            v["shape"] = rng.choice([[1, p], [p, 1]])
        elif f == "data" and z < 0.5:
            v["shape"] = [n, E, T]
        elif f == "data" and E * T == 1 and z < 0.8:
            v["shape"] = [n]
        elif f in ("measurements", "true_vals") and z < 0.6:
            v["shape"] = rng.choice([[E * T, 1], [E, T], [1, E * T]])
        return v

    def broken(self, rng, f):
        """a value that some state refuses (or, in others, accepts)"""
        v = self.variant(rng, f)
        z = rng.random()
        if v["k"] == "str":
            return {"k": "str", "s": rng.choice(["x", "uniform", "un", "U", ""])}
        vals = [Fr(*x) for x in v["v"]]
        if f == "domain" and z < 0.6:  # a bound moved across the samples by a little
            i = rng.randrange(len(vals))
            vals[i] += rng.choice([Fr(1, 8), Fr(-1, 8)])
            return ar(vals, v["shape"])
        if f == "lam_ref" and z < 0.6:
            i = rng.randrange(len(vals))
            vals[i] = self.box[2 * i + rng.choice([0, 1])] + rng.choice([Fr(1, 8), Fr(-1, 8)])
            return ar(vals, v["shape"])
        return Setup(rng).variant(rng, f) if f != "sample_dist" else v


def realv(rng, f, v):
    if v["k"] != "arr":
        return v["s"]
    if not v["shape"]:
        x = v["v"][0][0] / v["v"][0][1]
        return x
    return spell(rng, f, decode(v))


def setev(ctx, P, f, v):
    r = call(setattr, P, f, realv(ctx.rng, f, v))
    return {"op": "set", "f": f, "v": v, "obs": none_obs(r), "all": read_all(P)}


def counts(P):
    return {"op": "counts", "o": {c: obs(call(getattr, P, c)) for c in COUNTS}}


def c11_traces(ctx):
    rng = ctx.rng
    for it in range(ctx.scale(500, 6000)):
        S = Setup(rng)
        P = STP()
        ev = [counts(P)] if rng.random() < 0.2 else []
        for k in range(rng.choice([3, 6, 9, 12])):
            f = rng.choice(FIELDS)
            # sensors and times are plain attributes: moving them under existing data is the caller's affair
            if f in ("sensors", "times") and (P.data is not None or P.measurements is not None or P.true_vals is not None) \
                    and rng.random() < 0.8:
                f = rng.choice(["data", "measurements", "true_vals", "domain", "lam", "lam_ref"])
            v = S.variant(rng, f) if rng.random() < 0.7 or f in ("sensors", "times", "std_dev") else S.broken(rng, f)
            if f == "sensors" and rng.random() < 0.2:
                v = Setup(rng).variant(rng, f)
            ev.append(setev(ctx, P, f, v))
            if rng.random() < 0.25:
                ev.append(counts(P))
        ev.append(counts(P))
        ctx.case("T_Spatio", {"ev": ev})
    r = call(getattr, STP(), "n_qoi")
    ctx.direct(isinstance(r, Raised) and r.name == "AttributeError", "n_qoi", lambda: repr(r))


class Fine:
    """An increasing map of the specification's values to floats that are hard to tell apart.

    What is refused and what is read back only depends on the order of the values, so a history
    holds for any such map; values read back that are none of them are sentinels.
    """

    NUMERIC = ("domain", "lam", "lam_ref", "data", "measurements", "true_vals")

    def __init__(self, rng):
        g = np.random.default_rng(rng.randrange(2**31))
        m = 8 * 64
        u, z = 10.0 ** rng.choice([-12, -9, -6, -3, 0, 3, 6, 9]), rng.random()
        if z < 0.4:  # neighbouring floats
            t = [float(g.normal() * u)]
            for _ in range(2 * m):
                t.append(float(np.nextafter(t[-1], np.inf)))
        elif z < 0.7:  # small differences around a large value, in any units
            t = np.cumsum(g.uniform(0.1, 1, 2 * m + 1)) * u * 10.0 ** -rng.choice([6, 8, 10]) + u * g.normal()
        else:
            t = np.sort(g.normal(size=2 * m + 1)) * u
        self.t = np.array(t)
        self.m = m
        assert np.all(np.diff(self.t) > 0)
        self.back = {float(x): Fr(i - m, 8) for i, x in enumerate(self.t)}

    def real(self, rng, v):
        x = np.array([self.t[int(Fr(a, b) * 8) + self.m] for a, b in v["v"]]).reshape(v["shape"])
        return x

    def obs(self, f, x):
        if f not in self.NUMERIC or not isinstance(x, (np.ndarray, list)):
            return obs(x)
        a = np.asarray(x)
        if a.dtype.kind not in "biuf":
            return obs(x)
        return {"k": "arr", "shape": list(a.shape), "v": [F(self.back.get(float(v), Fr(99991))) for v in a.ravel()]}


def c11_fine(ctx):
    """the same histories with values apart by one rounding, in any units; read back to the last bit"""
    rng = ctx.rng
    for it in range(ctx.scale(250, 3000)):
        S, fine = Setup(rng, n=rng.choice([1, 2, 3, 5]) if rng.random() < 0.93 else 130), Fine(rng)
        P = STP()
        ev = []
        for k in range(rng.choice([3, 6, 9])):
            f = rng.choice(["domain", "lam", "lam_ref", "domain", "lam", "lam_ref", "data", "measurements", "true_vals"])
            if f in ("data", "measurements", "true_vals") and P.times is None and rng.random() < 0.8:
                for h in ("sensors", "times"):
                    ev.append(setev(ctx, P, h, S.V[h]))
                    ev[-1]["all"] = {g: fine.obs(g, call(getattr, P, g)) for g in FIELDS}
            v = S.variant(rng, f) if rng.random() < 0.5 or S.n > 5 and f != "domain" else S.broken(rng, f)
            x = fine.real(rng, v)
            if f != "data" and rng.random() < 0.4:
                x = x.tolist()
            r = call(setattr, P, f, x)
            ev.append({"op": "set", "f": f, "v": v, "obs": none_obs(r),
                       "all": {g: fine.obs(g, call(getattr, P, g)) for g in FIELDS}})
        ctx.case("T_Spatio", {"ev": ev})


def build(ctx, S, fields, ev, order=None):
    """assign the parts in an admissible order, recording the assignments"""
    P = STP()
    base = order or [f for f in ("domain", "sensors", "times", "lam", "data", "measurements", "true_vals", "lam_ref",
                                 "std_dev", "sample_dist") if f in fields]
    for f in base:
        ev.append(setev(ctx, P, f, S.variant(ctx.rng, f)))
    return P


def change(ctx, P, S, ev, fields):
    """parts assigned anew between questions: other values of the same shape, or another number of samples"""
    rng = ctx.rng
    S2 = Setup(rng, p=S.p, n=S.n if rng.random() < 0.7 else None, E=S.E, T=S.T)
    fs = [f for f in ("lam", "data", "sensors", "times", "measurements", "true_vals", "std_dev") if f in fields]
    fs = [f for f in fs if rng.random() < 0.35] or [rng.choice(fs)]
    if S2.n != S.n:
        fs = ["lam", "data"] + [f for f in fs if f not in ("lam", "data")]
        S.n = S2.n
    for f in fs:
        v = dict(S2.V[f])
        if f == "lam":
            v = ar([S.box[2 * j] + (S.box[2 * j + 1] - S.box[2 * j]) * rng.choice([Fr(0), Fr(1), Fr(1, 2), Fr(1, 4)])
                    for _ in range(S2.n) for j in range(S.p)], (S2.n, S.p))
        elif f == "times":
            v = ar([Fr(i + rng.choice([0, 1]), 4) for i in range(S.T)], (S.T,))
        elif f == "sensors" and len(S.V[f]["shape"]) == 1:
            v = ar([Fr(rng.randint(0, 9)) for _ in range(S.E)], (S.E,))
        elif f == "sensors":
            v = ar([Fr(rng.randint(0, 9), 2) for _ in range(2 * S.E)], (S.E, 2))
        S.V[f] = v
        ev.append(setev(ctx, P, f, S.variant(rng, f)))


# ------------------------------------------------------------------ selection
def mask(rng, n, nonempty=True, int_ok=False):
    """-> (specification mask, python mask)"""
    z = rng.random()
    if z < 0.3:
        return {"k": "none"}, None
    if int_ok and z < 0.4:
        i = rng.randrange(n)
        return {"k": "idx", "i": [i + 1]}, (i if rng.random() < 0.7 else np.int64(i))
    if z < 0.6:  # any order, repetition allowed
        idx = [rng.randrange(n) for _ in range(rng.choice([1, 1, 2, 3]))]
        m = list(idx) if rng.random() < 0.5 else np.array(idx)
        if rng.random() < 0.15:
            m = [i - n for i in idx]
        return {"k": "idx", "i": [i + 1 for i in idx]}, m
    if z < 0.8:
        while True:  # from either end, either way round
            m = slice(rng.choice([None, rng.randrange(-n, n)]), rng.choice([None, rng.randrange(-n, n + 1)]), rng.choice([None, 1, 1, 2, -1]))
            idx = list(range(n))[m]
            if idx:
                return {"k": "idx", "i": [i + 1 for i in idx]}, m
    keep = [rng.random() < 0.6 for _ in range(n)]
    if not any(keep):
        keep[rng.randrange(n)] = True
    return {"k": "idx", "i": [i + 1 for i in range(n) if keep[i]]}, (keep if rng.random() < 0.4 else np.array(keep))


def masks(rng, S, n=None):
    sm, a = mask(rng, S.n)
    em, b = mask(rng, S.E, int_ok=True)
    tm, c = mask(rng, S.T)
    return dict(sm=sm, em=em, tm=tm), dict(samples_mask=a, sensors_mask=b, times_mask=c)


def drop(rng, kw):
    return {k: v for k, v in kw.items() if v is not None or rng.random() < 0.5}


def sampleev(ctx, P, m, kw):
    r = call(P.sample_data, **kw)
    if isinstance(r, Raised) or not isinstance(r, tuple) or len(r) != 5:
        o = obs(r)
        return dict(op="sample", lam=o, times=o, sensors=o, data=o, meas=o, **m)
    return dict(op="sample", lam=obs(r[0]), times=obs(r[1]), sensors=obs(r[2]), data=obs(r[3]), meas=obs(r[4]), **m)


def c12_traces(ctx):
    rng = ctx.rng
    for it in range(ctx.scale(600, 7000)):
        S = Setup(rng)
        fields = {"lam", "data"}
        fields |= {"sensors", "times"} if S.E > 1 or rng.random() < 0.6 else set()
        for f, pr in (("measurements", 0.8), ("true_vals", 0.5), ("domain", 0.5)):
            if rng.random() < pr:
                fields.add(f)
        if rng.random() < 0.04:
            fields = {"lam", "sensors", "times"}
        ev = []
        P = build(ctx, S, fields, ev)
        for k in range(rng.choice([2, 3, 4])):
            if k and "data" in fields and rng.random() < 0.35:
                change(ctx, P, S, ev, fields)
            m, kw = masks(rng, S)
            kw = drop(rng, kw)
            if "data" not in fields:
                ev.append(sampleev(ctx, P, m, kw))
                continue
            z = rng.random()
            if z < 0.55:
                ev.append(sampleev(ctx, P, m, kw))
            elif z < 0.85:
                ev.append(dict(op="nearest", what="meas", obs=obs(call(P.get_closest_to_measurements, **kw)), **m))
            else:
                ev.append(dict(op="nearest", what="true", sm=NN, em=NN, tm=NN, obs=obs(call(P.get_closest_to_true_vals))))
        ev.append({"op": "again", "all": read_all(P)})
        ctx.case("T_Spatio", {"ev": ev})


def c12_large(ctx):
    """larger problems in any units: rows selected as listed, and the nearest sample among near ties, numerically"""
    rng = np.random.default_rng(ctx.seed + 12)
    for it in range(ctx.scale(150, 2000)):
        n, E, T, p = int(rng.integers(2, 60)), int(rng.integers(1, 6)), int(rng.integers(1, 8)), int(rng.integers(1, 5))
        if it % 10 == 9:
            n, E, T = [(1200, 2, 3), (5000, 1, 2), (40, 12, 30), (300, 7, 5)][it // 10 % 4]
        u = float(10.0 ** rng.integers(-5, 6))
        N = E * T
        P = STP()
        lam = rng.normal(size=(n, p)) * float(10.0 ** rng.integers(-3, 4))
        P.lam = lam
        P.sensors, P.times = rng.normal(size=(E, 2)), np.cumsum(rng.uniform(0.1, 1, T))
        ref = u * rng.normal(size=N)
        data = ref + u * rng.normal(size=(n, N)) * rng.uniform(0.5, 3, (n, 1))
        if rng.random() < 0.6:  # near ties of the smallest distance
            k = rng.permutation(n)[: min(n, int(rng.integers(2, 5)))]
            r = np.linalg.norm(data - ref, axis=1).min() * 0.7
            for j, i in enumerate(k):
                v = rng.normal(size=N)
                data[i] = ref + v / np.linalg.norm(v) * r * (1 + 1e-8 * j)
        P.data = data if rng.random() < 0.6 else data.reshape(n, E, T)
        meas = ref if rng.random() < 0.7 else ref + u * rng.normal(size=N) * 0.1
        P.measurements, P.true_vals = meas, ref
        kw, idx = {}, [np.arange(n), np.arange(E), np.arange(T)]
        for a, (nm, sz) in enumerate((("samples_mask", n), ("sensors_mask", E), ("times_mask", T))):
            if rng.random() < 0.4:
                idx[a] = rng.permutation(sz)[: int(rng.integers(1, sz + 1))]
                kw[nm] = idx[a] if rng.random() < 0.6 else idx[a].tolist()
        cols = (idx[1][:, None] * T + idx[2][None, :]).ravel()
        det = lambda: dict(n=n, E=E, T=T, kw=repr(kw), u=u)
        r = call(P.sample_data, **kw)
        ok = isinstance(r, tuple) and len(r) == 5
        want = (lam[idx[0]], P.times[idx[2]], P.sensors[idx[1]], data[np.ix_(idx[0], cols)], meas[cols].reshape(-1, 1))
        ctx.direct(ok and all(np.array_equal(np.reshape(a, np.shape(b)) if np.size(a) == np.size(b) else a, b) for a, b in zip(r, want)), "large:sample", det)
        nm, ax = [("samples_mask", 0), ("sensors_mask", 1), ("times_mask", 2)][int(rng.integers(0, 3))]
        none = [np.array([], dtype=int), [], np.zeros((n, E, T)[ax], dtype=bool), slice(0, 0)][int(rng.integers(0, 4))]
        r = call(P.sample_data, **{nm: none})  # nothing chosen: nothing returned, or refused
        ctx.direct(isinstance(r, Raised) or np.size(r[3]) == 0 and len(r[(0, 2, 1)[ax]]) == 0, "large:nothing-chosen", lambda: dict(det(), mask=nm, none=repr(none)))
        for what, f, rows, cs, at in (("meas", lambda: P.get_closest_to_measurements(**kw), idx[0], cols, meas),
                                      ("true", P.get_closest_to_true_vals, np.arange(n), np.arange(N), ref)):
            o = call(f)
            d = np.sqrt(((data[np.ix_(rows, cs)] - at[cs]).astype(np.longdouble) ** 2).sum(axis=1))
            hit = [] if isinstance(o, Raised) else [i for i, s in enumerate(rows) if np.array_equal(np.ravel(o), lam[s])]
            ctx.direct(bool(hit) and min(d[i] for i in hit) <= d.min() * (1 + 1e-9), "large:nearest:" + what,
                       lambda: dict(det(), got=repr(o)))


# -------------------------------------------------------- data-constructed maps
def mudev(ctx, P, m, kw, w, method, nc, extra):
    k = dict(kw, **extra)
    if method != "pca" or ctx.rng.random() < 0.5:
        k["method"] = method
    if nc != 2 or ctx.rng.random() < 0.5:
        k["num_components"] = nc
    if w:
        wa = [float(x) for x in w]
        z = ctx.rng.random()
        k["data_weights"] = wa if z < 0.4 else typed(ctx.rng, np.array(wa) if z < 0.7 else np.array(wa).reshape(-1, 1))
    D = call(P.mud_problem, **k)
    if isinstance(D, Raised):
        o = obs(D)
        return D, dict(op="mud", X=o, y=o, domain=o, w=Fv(w), method=method, nc=nc, **m)
    return D, dict(op="mud", X=obs(D.X), domain=obs(D.domain), w=Fv(w), method=method, nc=nc, y=D.y, **m)


def nsel(m, k, n):
    return n if m[k]["k"] == "none" else len(m[k]["i"])


def corr_ok(Q):
    """both columns vary and are correlated, clearly"""
    Q = np.asarray(Q, float)
    if Q.shape[0] < 3 or np.any(Q.std(axis=0) < 1e-6):
        return False
    r = np.corrcoef(Q.T)[0, 1]
    return 0.02 < abs(r) < 0.98


def c13_traces(ctx):
    rng = ctx.rng
    for it in range(ctx.scale(600, 7000)):
        two = rng.random() < 0.5
        S = Setup(rng, n=rng.choice([3, 4, 5, 6]) if two else None)
        fields = {"lam", "data", "sensors", "times", "measurements", "std_dev"}
        if rng.random() < 0.5:
            fields.add("domain")
        if rng.random() < 0.04:
            fields.discard(rng.choice(["measurements", "std_dev"]))
        ev = []
        P = build(ctx, S, fields, ev)
        full = {"measurements", "std_dev"} <= fields
        for k in range(rng.choice([1, 2, 3])):
            if k and rng.random() < 0.35:
                change(ctx, P, S, ev, fields)
                two = S.n >= 3
            m, kw = masks(rng, S)
            kw = drop(rng, kw)
            N = nsel(m, "em", S.E) * nsel(m, "tm", S.T)
            n = nsel(m, "sm", S.n)
            w = []
            if rng.random() < 0.45:
                w = [rng.choice([1, 2, Fr(1, 2)]) * x for x in square_weights(rng, N)]
                if rng.random() < 0.1:
                    w = w + [Fr(1)] if N == 1 or rng.random() < 0.5 else w[:-1]
            method = rng.choice(["wme", "wme", "pca", "svd"])
            nc = 2
            if method != "wme":
                sub = call(P.sample_data, **kw)
                if full and not (N == 2 and n >= 3 and corr_ok(sub[3]) and 0 not in w) and len(w) in (0, N):
                    method = "wme"
                nc = rng.choice([1, 2])
            if rng.random() < 0.04:
                method = rng.choice(["qoi", "WME", ""])
            sw = {}
            if rng.random() < 0.4:
                sw["sample_weights"] = np.array([rng.choice([0.5, 1.0, 2.0, 3.0]) for _ in range(n)])
            D, e = mudev(ctx, P, m, kw, w, method, nc, sw)
            if not isinstance(D, Raised):
                f = np.sqrt(N) if method == "wme" else np.sqrt(2)
                ww = e.pop("y")
                e["y"] = obs(np.asarray(ww) * f)
                passes_on(ctx, P, D, sw)
            ev.append(e)
        ev.append({"op": "again", "all": read_all(P)})
        ctx.case("T_Spatio", {"ev": ev})


def passes_on(ctx, P, D, sw):
    """the density problem is the one made of its samples, values, the domain and the weights"""
    G = DensityProblem(np.array(D.X), np.array(D.y), np.array(P.domain), weights=sw.get("sample_weights"))
    y = np.asarray(D.y)
    if not np.all(np.isfinite(y)) or y.shape[0] < 3 or np.any(y.std(axis=0) < 1e-3):
        return
    from scipy.stats import norm

    for Q in (D, G):
        call(Q.set_predicted, norm(0.3, 4.0))
        call(Q.set_observed, norm(0.1, 1.5))
    a, b = call(D.expected_ratio), call(G.expected_ratio)
    ctx.direct(not isinstance(a, Raised) and not isinstance(b, Raised) and close(a, b), "weights-passed-on",
               lambda: dict(a=repr(a), b=repr(b), sw=repr(sw)))


def directions(Q, k):
    """leading eigenvectors of the standardised residuals' covariance, with their gaps"""
    sd = Q.std(axis=0)
    Z = (Q - Q.mean(axis=0)) / np.where(sd == 0, 1.0, sd)
    w, V = np.linalg.eigh(Z.T @ Z / (len(Z) - 1))
    w, V = w[::-1], V[:, ::-1]
    gap = np.array([min(abs(w[i] - w[j]) for j in range(len(w)) if j != i) for i in range(k)])
    return w[:k], V[:, :k], gap, Z


def upto_sign(a, b):
    """columns equal up to a sign each"""
    return a.shape == b.shape and all(close(a[:, i], b[:, i], 1e-6, 1e-8) or close(a[:, i], -b[:, i], 1e-6, 1e-8)
                                      for i in range(a.shape[1]))


def c13_large(ctx):
    """more observables: projection of the residuals on the principal directions, numerically"""
    rng = np.random.default_rng(ctx.seed + 13)
    done = 0
    for it in range(ctx.scale(200, 2500)):
        n, E, T, p = int(rng.integers(6, 40)), int(rng.integers(1, 5)), int(rng.integers(1, 7)), int(rng.integers(1, 4))
        if it % 12 == 11:
            n, E, T = [(900, 2, 2), (1500, 1, 3), (60, 6, 9), (300, 3, 1), (540, 5, 8), (40, 3, 180)][it // 12 % 6]
        if E * T < 3:
            T = 4
        P = STP()
        lam = rng.uniform(-1, 2, (n, p))
        P.domain = np.array([[-1.5, 2.5]] * p)
        P.sensors, P.times = rng.normal(size=(E, 2)), np.linspace(0, 3, T)
        P.lam = lam
        B = rng.normal(size=(p, E * T))
        P.data = lam @ B + 0.3 * rng.normal(size=(n, E * T)) + rng.normal(size=E * T) * 2
        P.measurements = rng.normal(size=E * T)
        P.std_dev = float(rng.uniform(0.1, 3))
        for turn in range(int(rng.integers(1, 4))):
            if turn:  # the same problem after new data, measurements or another level
                for f in rng.permutation(3)[: int(rng.integers(1, 4))]:
                    if f == 0:
                        P.data = lam @ rng.normal(size=(p, E * T)) + 0.3 * rng.normal(size=(n, E * T)) * rng.uniform(0.2, 5, E * T)
                    elif f == 1:
                        P.measurements = rng.normal(size=E * T)
                    else:
                        P.std_dev = float(rng.uniform(0.1, 3))
            fresh = not turn or rng.random() < 0.4
            if fresh:
                kw0, idx = {}, [np.arange(n), np.arange(E), np.arange(T)]
                for a, (nm, sz) in enumerate((("samples_mask", n), ("sensors_mask", E), ("times_mask", T))):
                    if rng.random() < 0.4:
                        k = rng.permutation(sz)[: max(int(rng.integers(1, sz + 1)), 5 if a == 0 else 1)]
                        idx[a] = k
                        kw0[nm] = k if rng.random() < 0.5 else k.tolist()
            kw = dict(kw0)
            cols = (idx[1][:, None] * T + idx[2][None, :]).ravel()
            N = len(cols)
            Q = (P.measurements.ravel()[cols] - P.data[np.ix_(idx[0], cols)]) / P.std_dev
            if rng.random() < 0.5:
                w = rng.uniform(0.2, 3, N) * 10.0 ** int(rng.integers(-8, 9))
                if rng.random() < 0.3:  # equal, or nearly
                    w = np.full(N, w[0]) * (1 + rng.choice([0, 0, 1e-9]) * rng.normal(size=N))
                elif rng.random() < 0.4:  # nearly of unit norm (in one sense or another)
                    w = w / [np.sqrt((w ** 2).sum()), w.sum(), w.max(), np.sqrt((w ** 2).mean())][int(rng.integers(0, 4))]
                    w = w * (1 + rng.choice([0, 1e-6, 1e-3, 0.04]) * rng.choice([-1, 1]))
                kw["data_weights"] = w if rng.random() < 0.5 else w.reshape(-1, 1)
                Q = Q * (w / np.sqrt((w ** 2).sum()))
            sw = rng.uniform(0.1, 2, len(idx[0])) if rng.random() < 0.5 else None
            if sw is not None:
                kw["sample_weights"] = sw
            if fresh or rng.random() < 0.3:
                method = ["wme", "pca", "svd"][int(rng.integers(0, 3))]
                nk = int(rng.integers(1, min(N, len(idx[0]) - 1, 5) + 1))
            k = nk
            if method == "wme" or N == 1:
                D = call(P.mud_problem, method="wme", **kw)
                want = (Q.sum(axis=1) / np.sqrt(N)).reshape(-1, 1)
                ctx.direct(not isinstance(D, Raised) and close(D.y, want), "wme-map", lambda: dict(N=N, got=repr(D)))
            else:
                w, V, gap, Z = directions(Q, k)
                if gap.min() < 1e-3 * max(w[0], 1e-9):
                    continue
                D = call(P.mud_problem, method=method, num_components=k, **kw)
                ok = not isinstance(D, Raised)
                det = lambda: dict(N=N, n=n, k=k, method=method, kw=repr(kw), got=repr(getattr(D, "y", D)), want=(Q @ V).tolist())
                ctx.direct(ok and upto_sign(np.asarray(D.y), Q @ V), method + "-map", det)
                if ok and method == "pca":
                    ctx.direct(isinstance(P.pca, dict) and upto_sign(np.asarray(P.pca["vecs"]).T, V)
                               and upto_sign(np.asarray(P.pca["X_train"]), Z @ V) and close(P.pca["var"], w, 1e-6), "pca-kept", det)
                    ctx.direct(ok and all(np.array_equal(np.sign(np.asarray(P.pca["vecs"])[i] @ V[:, i]),
                                                         np.sign((np.asarray(D.y)[:, i] @ (Q @ V)[:, i]))) for i in range(k)),
                               "pca-same-sign", det)
                if ok and method == "svd":
                    s = P.svd
                    m = min(Z.shape)
                    ctx.direct(close((np.asarray(s["u"])[:, :m] * s["singular_values"]) @ np.asarray(s["singular_vectors"])[:m], Z,
                                     1e-6, 1e-8), "svd-kept", det)
                    ctx.direct(close(D.y, Q @ np.asarray(s["singular_vectors"])[:k].T), "svd-same-sign", det)
            if not isinstance(D, Raised):
                done += 1
                ctx.direct(close(D.X, lam[idx[0]]) and close(D.domain, P.domain), "passed-on", lambda: repr(D.X))
                passes_on(ctx, P, D, {} if sw is None else {"sample_weights": sw})
    ctx.notes["large_maps"] = done
    # requested number reached whatever the default is
    for bad in (["wm"], None, 3):
        r = call(P.mud_problem, method=bad)
        ctx.direct(isinstance(r, Raised), "unknown-map-refused", lambda: repr(r))
    r = call(P.mud_problem, method="nope")
    ctx.direct(isinstance(r, Raised) and r.name == "ValueError", "unknown-map-refused", lambda: repr(r))
    r = call(P.mud_problem, method="wme", data_weights=np.ones(P.data.shape[1] + 1))
    ctx.direct(isinstance(r, Raised) and r.name == "ValueError", "data-weights-refused", lambda: repr(r))


# ------------------------------------------------------------ load and validate
def named(msg):
    parts = ["domain", "lam", "data", "measurements", "lam_ref", "true_vals"]
    return [f for f in parts if re.search(r"(?<![A-Za-z_])%s(?![A-Za-z_])" % f, msg)]


def validate(ctx, P):
    rng = ctx.rng
    meas, true = rng.random() < 0.6, rng.random() < 0.5
    k = {}
    if not meas or rng.random() < 0.5:
        k["check_meas"] = meas
    if true or rng.random() < 0.5:
        k["check_true"] = true
    r = call(P.validate, **k)
    return {"op": "validate", "meas": meas, "true": true, "obs": none_obs(r),
            "named": named(r.msg) if isinstance(r, Raised) else []}


def load_args(rng, S):
    """a data set and renamings: (specification's view, Python objects)"""
    ds, kw, py, pk = [], [], {}, {}
    names = ["alpha", "beta", "q1", "obs data", "d0", "ref"]
    rng.shuffle(names)
    for f in FIELDS:
        if rng.random() < 0.25:
            continue
        v = S.broken(rng, f) if rng.random() < 0.05 and f not in ("sensors", "times", "std_dev") else S.variant(rng, f)
        x = realv(rng, f, v)
        z = rng.random()
        if z < 0.65:
            ds.append({"n": f, "v": v})
            py[f] = x
        elif z < 0.8 and names:
            nm = names.pop()
            ds.append({"n": nm, "v": v})
            py[nm] = x
            kw.append({"f": f, "k": "name", "n": nm})
            pk[f] = nm
            if rng.random() < 0.4:  # a decoy under its own name
                v2 = S.variant(rng, f)
                ds.append({"n": f, "v": Setup(rng).variant(rng, f) if rng.random() < 0.3 else v2})
                py[f] = realv(rng, f, ds[-1]["v"])
        elif v["k"] != "str":
            kw.append({"f": f, "k": "val", "v": v})
            pk[f] = x
        if rng.random() < 0.04 and f not in pk:
            kw.append({"f": f, "k": "name", "n": "absent name"})
            pk[f] = "absent name"
    if rng.random() < 0.2:
        ds.append({"n": "unrelated", "v": S.V["times"]})
        py["unrelated"] = 7
    return ds, kw, py, pk


def c14_traces(ctx):
    rng = ctx.rng
    for it in range(ctx.scale(600, 7000)):
        S = Setup(rng)
        ev = []
        P = STP()
        srcs = []
        for turn in range(rng.choice([1, 1, 2])):
            if turn and rng.random() < 0.5:
                S = Setup(rng, p=S.p, n=S.n, E=S.E, T=S.T)
            ds, kw, py, pk = load_args(rng, S)
            how = rng.choice(["dict", "dict", "pickle", "ctor", "ctor-pickle"])
            if how.startswith("ctor") and (kw or turn):
                how = "dict" if rng.random() < 0.6 else "pickle"
            src = py
            if "pickle" in how:  # few names: a file is often written anew under the name of one read before
                src = rng.choice(["load.pickle", "load.dat", "more.pickle"] + ([] if xr_avail else ["load.nc"]))
                if rng.random() < 0.3:
                    src = os.path.join(os.getcwd(), src)
                with open(src, "wb") as fp:
                    pickle.dump(py, fp)
                srcs.append(src)
            ret = None
            if how.startswith("ctor"):
                r = call(STP, src)
                if not isinstance(r, Raised):
                    P, r = r, None
            else:
                r = ret = call(P.load, src, **pk)
            e = {"op": "load", "ds": ds, "kw": kw, "obs": none_obs(r)}
            e["all"] = read_all(P)
            ev.append(e)
            if ret is not None and not isinstance(ret, Raised):
                ok = ret is py if how == "dict" else isinstance(ret, dict) and sorted(ret) == sorted(py) and \
                    all(np.array_equal(np.asarray(ret[k]), np.asarray(py[k])) for k in py)
                ctx.direct(ok, "returns-the-data-set", lambda: repr(ret))
            if isinstance(r, Raised):
                break
            ev.append(validate(ctx, P))
            if rng.random() < 0.4:
                ev += mref(ctx, P, S)
            elif rng.random() < 0.5:
                f = rng.choice(["domain", "lam", "measurements", "true_vals", "lam_ref"])
                ev.append(setev(ctx, P, f, S.variant(rng, f)))
            if ev[-1].get("obs", {}).get("k") == "err":
                break
            ev.append(validate(ctx, P))
        for src in set(map(os.path.abspath, srcs)):
            os.remove(src)
        ctx.case("T_Spatio", {"ev": ev})
    for nm in ("nothere.pickle", "nothere.nc", os.path.join("nodir", "x.pkl")):
        for fn in (lambda: STP().load(nm), lambda: STP(nm)):
            r = call(fn)
            ctx.direct(isinstance(r, Raised) and r.name == "FileNotFoundError", "missing-file", lambda: repr(r))


def mref(ctx, P, S):
    rng = ctx.rng
    ref = sd = NN
    k = {}
    if rng.random() < 0.5:
        ref = S.variant(rng, "true_vals") if rng.random() < 0.9 else Setup(rng).variant(rng, "true_vals")
        k["ref"] = realv(rng, "true_vals", ref)
    sd0 = False
    if rng.random() < 0.5:
        sdv = rng.choice([Fr(0), Fr(0), Fr(1, 2), Fr(1)])
        sd = ar([sdv], ())
        k["std_dev"] = float(sdv) if rng.random() < 0.7 else int(sdv) if sdv.denominator == 1 else float(sdv)
        sd0 = sdv == 0
    else:
        sd0 = False
    if rng.random() < 0.6:
        k["seed"] = rng.choice([0, rng.randrange(1000)])
    r = call(P.measurements_from_reference, **k)
    return [{"op": "mref", "ref": ref, "sd": sd, "sd0": sd0, "obs": none_obs(r), "all": read_all(P)}]


def c14_noise(ctx):
    """noisy measurements are the true values plus the seeded draw"""
    rng = np.random.default_rng(ctx.seed + 14)
    for it in range(ctx.scale(150, 1500)):
        E, T = int(rng.integers(1, 5)), int(rng.integers(1, 6))
        P = STP()
        P.sensors, P.times = np.arange(E), np.arange(T)
        ref = rng.normal(size=[(E * T,), (E * T, 1), (E, T)][int(rng.integers(0, 3))]) * 3
        sd = float(rng.choice([0.0, 0.05, 1.0, 2.5]))
        seed = int(rng.integers(0, 10000)) if rng.random() < 0.8 else 0
        k = {}
        if rng.random() < 0.5:
            P.true_vals = ref
        else:
            k["ref"] = ref
        if rng.random() < 0.5:
            P.std_dev = sd
        else:
            k["std_dev"] = sd
        want = ref.ravel() + sd * np.random.RandomState(seed).randn(E * T)
        if rng.random() < 0.7:
            r = call(P.measurements_from_reference, seed=seed, **k)
        else:
            np.random.seed(seed)
            r = call(P.measurements_from_reference, **k)
        det = lambda: dict(r=repr(r), seed=seed, sd=sd, got=repr(P.measurements), want=want.tolist())
        ctx.direct(not isinstance(r, Raised) and close(P.measurements, want.reshape(-1, 1)), "reference-noise", det)
        ctx.direct(close(P.true_vals, ref.reshape(-1, 1)) and P.std_dev == sd, "reference-remembered", det)
        m1 = np.array(P.measurements) if P.measurements is not None else None
        call(P.measurements_from_reference, seed=seed)
        ctx.direct(m1 is not None and close(P.measurements, m1, 1e-12, 0), "reference-reproducible", det)
    for miss in ("ref", "std_dev"):
        P = STP()
        P.sensors, P.times = np.arange(2), np.arange(3)
        r = call(P.measurements_from_reference, **({"std_dev": 1.0} if miss == "ref" else {"ref": np.ones(6)}))
        ctx.direct(isinstance(r, Raised) and r.name == "AttributeError", "reference-missing-refused", lambda: repr(r))
        ctx.direct(P.measurements is None, "reference-missing-refused", lambda: repr(P.measurements))
    P = STP()
    P.sensors, P.times = np.arange(2), np.arange(3)
    r = call(P.measurements_from_reference, ref=np.ones(5), std_dev=1.0)
    ctx.direct(isinstance(r, Raised), "reference-shape-refused", lambda: repr(r))
