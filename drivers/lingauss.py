"""LinearGaussianProblem, its function spellings and the norms (T_LinGauss)."""
from fractions import Fraction as Fr

import numpy as np

from enc import F, Fm, Fv, Raised, arr, call, close, fl, obs, typed
from mud import funs, norm
from mud.base import LinearGaussianProblem as LGP


def mm(A, B):
    return [[sum(a * b for a, b in zip(r, c)) for c in zip(*B)] for r in A]


def tr(A):
    return [list(r) for r in zip(*A)]


def cov(rng, n, hard=False):
    """Symmetric positive definite, with small entries and a small determinant."""
    z = rng.random()
    if z < 0.25:
        return [[Fr(int(i == j)) for j in range(n)] for i in range(n)]
    d = [rng.choice([Fr(1), Fr(1), Fr(2), Fr(1, 2)]) for _ in range(n)]
    if z < 0.45:
        return [[d[i] if i == j else Fr(0) for j in range(n)] for i in range(n)]
    L = [[Fr(1) if i == j else (Fr(rng.choice([-1, 0, 1, 1])) if j < i else Fr(0)) for j in range(n)]
         for i in range(n)]
    D = [[d[i] if i == j else Fr(0) for j in range(n)] for i in range(n)]
    return mm(mm(L, D), tr(L))


def rank(A):
    return int(np.linalg.matrix_rank(fl(A)))


def gen(rng, deficient=None, kind="all"):
    z = rng.random()
    ns, di = rng.choice([(1, 1), (1, 2), (1, 3), (2, 2), (2, 3), (2, 3), (3, 3), (2, 1), (3, 2), (1, 2)])
    ent = [-2, -1, -1, 0, 1, 1, 2] if ns * di <= 6 else [-1, 0, 1, 1]
    while True:
        A = [[Fr(rng.choice(ent)) for _ in range(di)] for _ in range(ns)]
        if deficient is False and rank(A) < ns:
            ns = min(ns, di)
            continue
        if deficient and ns > 1:
            k = rng.randrange(ns)
            A[k] = [a * rng.choice([0, 1, -1, 2]) for a in A[(k + 1) % ns]]
        if any(any(r) for r in A):
            break
    g = dict(A=A, b=[], y=[], m=[], C=[], Co=[], alpha=[])
    whole = rng.random() < 0.12  # counts
    vec = lambda n: [Fr(rng.randint(0, 9)) if whole else Fr(rng.randint(-4, 5), rng.choice([1, 1, 2])) for _ in range(n)]
    keep = lambda pr=0.8: rng.random() < pr
    if keep():
        g["b"] = vec(ns)
    if keep(0.9):
        g["y"] = vec(ns)
    if keep():
        g["m"] = vec(di)
    if keep():
        g["C"] = cov(rng, di)
    if keep(0.7):
        g["Co"] = cov(rng, ns)
    if keep(0.35):
        g["alpha"] = rng.choice([Fr(1), Fr(2), Fr(1, 2), Fr(4), Fr(3)])
    return ns, di, g


def rec_of(g):
    return dict(A=Fm(g["A"]), b=Fv(g["b"]), y=Fv(g["y"]), m=Fv(g["m"]), C=Fm(g["C"]), Co=Fm(g["Co"]),
                alpha=F(g["alpha"]) if g["alpha"] != [] else [])


def as_vec(rng, v):
    """1-D, column or nested list spelling of a vector"""
    a = typed(rng, fl(v), single=True)
    z = rng.random()
    return a if z < 0.3 else (a.reshape(-1, 1) if z < 0.75 else a.reshape(-1, 1).tolist())


def scalar(rng, x):
    """a number as int, float or numpy number"""
    kinds = [float, float, np.float64, np.float32] + ([int, int, np.int64, np.uint8] if x.denominator == 1 and x >= 0 else [])
    return rng.choice(kinds)(x)


def as_mat(rng, M):
    a = typed(rng, fl(M), single=True)
    return a if rng.random() < 0.75 else a.tolist()


def col(v):
    return fl(v).reshape(-1, 1)


def kwargs(rng, g):
    kw = {}
    for f, n in (("b", "b"), ("y", "y"), ("m", "mean_i")):
        if g[f]:
            kw[n] = as_vec(rng, g[f])
        elif rng.random() < 0.3:
            kw[n] = None
    for f, n in (("C", "cov_i"), ("Co", "cov_o")):
        if g[f]:
            kw[n] = as_mat(rng, g[f])
        elif rng.random() < 0.3:
            kw[n] = None
    if g["alpha"] != []:
        kw["alpha"] = float(g["alpha"])
    elif rng.random() < 0.3:
        kw["alpha"] = None
    return kw


def new(ctx, g, bad=False):
    rng = ctx.rng
    kw = kwargs(rng, g)
    A = typed(rng, fl(g["A"]), single=True)
    if A.shape[0] == 1 and rng.random() < 0.5:
        A = A[0]
    A = A.tolist() if rng.random() < 0.3 else A
    P = call(LGP, A, **kw)
    ev = [{"op": "new", "obs": obs(P) if isinstance(P, Raised) else {"k": "none"}}]
    return P, ev


def points(rng, di, n=None):
    n = n or rng.choice([1, 2, 3, 4])
    return [[Fr(rng.randint(-3, 3), rng.choice([1, 2])) for _ in range(di)] for _ in range(n)]


def solve_ev(P, method, od, ns):
    k = {} if od is None else {"output_dim": od}
    r = call(P.solve, method, **k)
    return {"op": "solve", "method": method, "od": ns if od is None else od, "obs": obs(r)}


def all_ev(P, od, ns):
    k = {} if od is None else {"output_dim": od}
    r = call(P.solve, "all", **k)
    parts = [r] * 3 if isinstance(r, Raised) or len(r) != 3 else r
    return [{"op": "solve", "method": m, "od": od or ns, "obs": obs(v)} for m, v in zip(["mud", "map", "ls"], parts)]


def bad_case(ctx, ns, g):
    rng = ctx.rng
    g = dict(g, y=[Fr(1)] * (ns + rng.choice([1, 2])))
    P, ev = new(ctx, g)
    ctx.case("T_LinGauss", dict(rec_of(g), ev=ev))


def fun_kw(rng, g):
    """arguments of the function spellings (arrays only: they are typed so)"""
    kw = {}
    if g["y"]:
        kw["y"] = fl(g["y"]) if rng.random() < 0.5 else col(g["y"])
        if rng.random() < 0.2:
            kw["y"] = kw["y"].tolist()
    if g["m"]:
        kw["mean"] = col(g["m"]) if rng.random() < 0.5 else fl(g["m"])
    if g["C"]:
        kw["cov"] = fl(g["C"])
    if g["Co"]:
        kw["data_cov"] = fl(g["Co"])
    b = None
    if g["b"]:
        b = col(g["b"]) if rng.random() < 0.5 else fl(g["b"])
    flat = not ("y" in kw and np.array(kw["y"]).ndim > 1)
    return b, kw, flat


def c06_traces(ctx):
    rng = ctx.rng
    for i in range(ctx.scale(700, 8000)):
        ns, di, g = gen(rng, deficient=rng.random() < 0.25)
        if i % 25 == 0:
            bad_case(ctx, ns, g)
        P, ev = new(ctx, g)
        if not isinstance(P, Raised):
            ev.append({"op": "dims", "obs": obs(call(lambda: [P.n_params, P.n_features, P.n_samples]))})
            for _ in range(rng.choice([1, 2, 3])):
                od = rng.choice([None, None] + list(range(1, ns + 1)))
                if rng.random() < 0.25:
                    ev += all_ev(P, od, ns)
                else:
                    ev.append(solve_ev(P, "mud", od, ns))
                od = rng.choice([od, None] + list(range(1, ns + 1)))
                if rank(g["A"][:od] if od else g["A"]) == (od or ns) and rng.random() < 0.7:
                    ev.append(solve_ev(P, "mud_alt", od, ns))
            ev.append({"op": "kept", "method": "mud", "obs": obs(call(lambda: P.mud))})
        ctx.case("T_LinGauss", dict(rec_of(g), ev=ev))
        g = dict(g, alpha=[])
        b, kw, flat = fun_kw(rng, g)
        ev = [{"op": "new", "obs": {"k": "none"}}]
        A = fl(g["A"])
        ev.append({"op": "sol", "method": "mud", "flat": flat, "obs": obs(call(funs.mud_sol, A, b, **kw))})
        if rank(g["A"]) == ns:
            r = call(funs.mud_sol_with_cov, A, b, **kw)
            if isinstance(r, Raised) or len(r) != 2:
                ev.append({"op": "sol", "method": "mud", "flat": flat, "obs": obs(r)})
            else:
                ev.append({"op": "sol", "method": "mud", "flat": flat, "obs": obs(r[0])})
                ev.append({"op": "up_cov", "obs": obs(r[1])})
        L = call(funs.lin_prob, A, b, alpha=None, **kw)
        ev.append({"op": "solve", "method": "mud", "od": ns, "obs": obs(call(lambda: L.solve("mud")))})
        ctx.case("T_LinGauss", dict(rec_of(g), ev=ev))


def c07_traces(ctx):
    rng = ctx.rng
    for i in range(ctx.scale(600, 7000)):
        ns, di, g = gen(rng, deficient=rng.random() < 0.2)
        P, ev = new(ctx, g)
        if not isinstance(P, Raised):
            done = set()
            for m in rng.choices(["map", "ls", "map", "ls", "all"], k=rng.choice([1, 2, 3, 4])):
                od = rng.choice([None, None] + list(range(1, ns + 1)))
                if m == "all":
                    ev += all_ev(P, od, ns)
                    done |= {"mud", "map", "ls"}
                else:
                    ev.append(solve_ev(P, m, od, ns))
                    done.add(m)
                if "map" in done and rng.random() < 0.5:
                    ev.append({"op": "kept_cov", "obs": obs(call(lambda: P.cov_p))})
                for m in sorted(done):
                    if rng.random() < 0.4:
                        ev.append({"op": "kept", "method": m, "obs": obs(call(getattr, P, m))})
            ev.append({"op": "attr_C", "obs": obs(np.array(call(lambda: P.cov_i)))})
            # updated covariance: as set up, or of other matrices
            C = g["C"] or [[Fr(int(a == b)) for b in range(di)] for a in range(di)]
            Co = g["Co"] or [[Fr(int(a == b)) for b in range(ns)] for a in range(ns)]
            X, k = g["A"], {}
            if rng.random() < 0.5:
                X = [[Fr(rng.choice([-1, 0, 1, 2])) for _ in range(di)] for _ in range(ns)]
                k["A"] = fl(X)
            if rng.random() < 0.4:
                C = cov(rng, di)
                k["init_cov"] = fl(C)
            if rng.random() < 0.4:
                Co = cov(rng, ns)
                k["data_cov"] = fl(Co)
            ev.append({"op": "updated_cov", "X": Fm(X), "C": Fm(C), "Co": Fm(Co),
                       "obs": obs(call(P.updated_cov, **k))})
        ctx.case("T_LinGauss", dict(rec_of(g), ev=ev))
        # function spellings
        b, kw, flat = fun_kw(rng, g)
        if g["alpha"] != []:
            kw["w"] = float(g["alpha"]) if rng.random() < 0.5 or g["alpha"].denominator != 1 else int(g["alpha"])
        A = fl(g["A"])
        ev = [{"op": "new", "obs": {"k": "none"}},
              {"op": "sol", "method": "map", "flat": flat, "obs": obs(call(funs.map_sol, A, b, **kw))}]
        r = call(funs.map_sol_with_cov, A, b, **kw)
        ok = not isinstance(r, Raised) and len(r) == 2
        ev.append({"op": "sol", "method": "map", "flat": flat, "obs": obs(r[0] if ok else r)})
        ev.append({"op": "cov_p", "obs": obs(r[1] if ok else r)})
        if rng.random() < 0.4:
            k = dict(alpha=kw.pop("w", None), **kw)
            if k["alpha"] is None and rng.random() < 0.5:
                del k["alpha"]
            L = call(funs.lin_prob, A, b, **k)
            for m in ("map", "ls"):
                ev.append({"op": "solve", "method": m, "od": ns, "obs": obs(call(lambda: L.solve(m)))})
        C, k = [[Fr(int(a == b)) for b in range(di)] for a in range(di)], {}
        Co = [[Fr(int(a == b)) for b in range(ns)] for a in range(ns)]
        if rng.random() < 0.7:
            C = cov(rng, di)
            k["init_cov"] = fl(C)
        if rng.random() < 0.7:
            Co = cov(rng, ns)
            k["data_cov"] = fl(Co)
        ev.append({"op": "updated_cov", "X": Fm(g["A"]), "C": Fm(C), "Co": Fm(Co),
                   "obs": obs(call(funs.updated_cov, A, **k))})
        ctx.case("T_LinGauss", dict(rec_of(g), ev=ev))
        if i % 20 == 0:
            bad_case(ctx, ns, g)


TERMS = ["data", "reg", "dc_term", "reg_m", "bayes", "dc"]


def c08_traces(ctx):
    rng = ctx.rng
    for i in range(ctx.scale(500, 6000)):
        ns, di, g = gen(rng, deficient=False)
        if rank(g["A"]) < ns:
            continue
        P, ev = new(ctx, g)
        if isinstance(P, Raised):
            ctx.case("T_LinGauss", dict(rec_of(g), ev=ev))
            continue
        X = points(rng, di)
        Xa = typed(rng, fl(X))
        for t in rng.sample(TERMS, 3):
            ev.append({"op": "terms", "which": t, "X": Fm(X), "obs": obs(call(P.compute_functionals, Xa, terms=t))})
        r = call(P.compute_functionals, Xa) if rng.random() < 0.7 else call(P.compute_functionals, Xa, terms="all")
        ok = not isinstance(r, Raised) and len(r) == 5
        for j, t in enumerate(["data", "reg", "dc_term", "bayes", "dc"]):
            ev.append({"op": "terms", "which": t, "X": Fm(X), "obs": obs(r[j] if ok else r)})
        # stand-alone norms
        m = g["m"] or [Fr(0)] * di
        bb = g["b"] or [Fr(0)] * ns
        A = fl(g["A"])
        eye = lambda n, k: [[k if a == b else Fr(0) for b in range(n)] for a in range(n)]
        if rng.random() < 0.35:
            kc = rng.choice([Fr(1), Fr(2), Fr(1, 2)])
            C, Ca = eye(di, kc), scalar(rng, kc)
        else:
            C = cov(rng, di)
            Ca = typed(rng, fl(C))
        if rng.random() < 0.35:
            kc = rng.choice([Fr(1), Fr(2), Fr(1, 4)])
            Co, Coa = eye(ns, kc), scalar(rng, kc)
        else:
            Co = cov(rng, ns)
            Coa = typed(rng, fl(Co))
        if rng.random() < 0.5:
            z = rng.choice([Fr(0), Fr(1), Fr(-2)])
            om, oma = [z] * ns, (int(z) if rng.random() < 0.5 else float(z))
        else:
            om = [Fr(rng.randint(-2, 2)) for _ in range(ns)]
            oma = typed(rng, fl(om).reshape(1, -1))
        base = dict(X=Fm(X), C=Fm(C), Co=Fm(Co), om=Fv(om))
        mi, d = typed(rng, col(m) if rng.random() < 0.6 else fl(m)), typed(rng, col(bb))
        ev.append(dict(base, op="norm_input", obs=obs(call(norm.norm_input, Xa, mi, Ca))))
        ev.append(dict(base, op="norm_data", obs=obs(call(norm.norm_data, A, Xa, d, oma, Coa))))
        ev.append(dict(base, op="norm_predicted", obs=obs(call(norm.norm_predicted, A, Xa, mi, Ca))))
        if isinstance(Ca, np.ndarray):
            ev.append(dict(base, op="inner_product", obs=obs(call(norm.inner_product, Xa.T, Ca))))
        ev.append(dict(base, op="full_functional",
                       obs=obs(call(norm.full_functional, A, Xa, d, mi, Ca, oma, Coa))))
        if rng.random() < 0.5:  # defaults: observed mean 0, observed covariance 1
            dflt = dict(base, om=Fv([Fr(0)] * ns), Co=Fm(eye(ns, Fr(1))))
            ev.append(dict(dflt, op="full_functional", obs=obs(call(norm.full_functional, A, Xa, d, mi, Ca))))
        ctx.case("T_LinGauss", dict(rec_of(g), ev=ev))


# ---------------------------------------------------------------- larger problems, by their defining equations
def big(rng):
    g = np.random.default_rng(rng.randrange(2**31))
    ns, di = rng.choice([(1, 5), (3, 8), (5, 5), (7, 4), (6, 12), (10, 10), (12, 3), (1, 1), (18, 20), (20, 35), (40, 6)])
    A = g.normal(size=(ns, di))
    B = g.normal(size=(di, di))
    C = B @ B.T + 0.5 * np.eye(di)
    D = g.normal(size=(ns, ns))
    Co = D @ D.T + 0.5 * np.eye(ns)
    return ns, di, A, g.normal(size=(ns, 1)), g.normal(size=(ns, 1)), g.normal(size=(di, 1)), C, Co


UNITS = [1.0, 1.0, 2.0**-20, 2.0**17, 2.0**-40]


def units(rng, A, b, y, m, C, Co):
    """the same problem in other units of each parameter and each output (powers of two: without rounding)"""
    ns, di = A.shape
    su, sy = np.full((di, 1), rng.choice(UNITS)), np.full((ns, 1), rng.choice(UNITS))
    if ns <= di and rng.random() < 0.5:  # (a deficient update depends on the units of the outputs)
        k = rng.choice([2, 7])
        su = su * [[2.0 ** rng.randint(-k, k)] for _ in range(di)]
        sy = sy * [[2.0 ** rng.randint(-k, k)] for _ in range(ns)]
    return su, sy, (A * sy / su.T, b * sy, y * sy, m * su, C * (su @ su.T), Co * (sy @ sy.T))


def per(r, u):
    return r if isinstance(r, Raised) else r / u


def equations(which):
    def run(ctx):
        for _ in range(ctx.scale(60, 800)):
            rng = ctx.rng
            ns, di, A, b, y, m, C, Co = big(rng)
            al = rng.choice([1.0, 1.0, 0.5, 4.0, 1.01, 0.985, 1 + 2e-4, 1e-3, 300.0])
            kp = 1.0
            if which == "map" and ns >= di and rng.random() < 0.5:  # data more (or less) precise than the prior
                kp = 10.0 ** rng.randint(-13, 4)
                Co = Co * kp
            su, sy, args = units(rng, A, b, y, m, C, Co)
            P = call(LGP, *args, al)
            det = lambda: dict(A=A.tolist(), b=b.tolist(), y=y.tolist(), m=m.tolist(), C=C.tolist(), Co=Co.tolist(),
                               alpha=al, units=(su.tolist(), sy.tolist()))
            if isinstance(P, Raised):
                ctx.direct(False, "accepted", det)
                continue
            iC, iCo = np.linalg.inv(C), np.linalg.inv(Co)
            z = y - b - A @ m
            ok = lambda u, v: close(u, v, 1e-5, 1e-6)
            wild = max(su.max() / su.min(), sy.max() / sy.min()) > 20  # rounding of the subtracting formulas shows
            if which == "mud":
                x = per(call(P.solve), su)
                if ns <= di:
                    ctx.direct(not isinstance(x, Raised) and ok(A @ x + b, y), "mud:reproduces-data", det)
                    # stationarity: C^-1 (x - m) in the row space of A
                    w = None if isinstance(x, Raised) else iC @ (x - m)
                    lam = None if w is None else np.linalg.lstsq(A.T, w, rcond=None)[0]
                    ctx.direct(w is not None and ok(A.T @ lam, w), "mud:closest", det)
                    ctx.direct(wild or ok(per(call(P.solve, "mud_alt"), su), x), "mud_alt=mud", det)
                else:  # more equations than parameters: weighted least-squares in the predicted directions
                    ctx.direct(ok(x, m + C @ A.T @ np.linalg.pinv(A @ C @ A.T, rcond=1e-12) @ z), "mud:pseudo-inverse", det)
            else:
                uu = su @ su.T
                x = per(call(P.solve, "map"), su)
                good = not isinstance(x, Raised)
                kk = min(kp, 1.0)
                ctx.direct(good and ok(kk * (A.T @ iCo @ (A @ x + b - y) + iC @ (x - m) / al), np.zeros((di, 1))),
                           "map:stationary", det)
                ctx.direct(good and ok(P.cov_p / uu @ (A.T @ iCo @ A + iC / al), np.eye(di)), "map:covariance", det)
                if np.ptp(su) or np.ptp(sy):  # least squares depend on the units: the plain problem,
                    # or only the outputs (parameters) rescaled, which changes nothing when all are met (by one vector)
                    ro, rp = np.ones((ns, 1)), np.ones((di, 1))
                    if ns <= di and rng.random() < 0.7:
                        ro = np.array([[2.0 ** rng.choice([0, 3, -13, 13])] for _ in range(ns)])
                    elif ns >= di:
                        rp = np.array([[2.0 ** rng.choice([0, 3, -13, 13])] for _ in range(di)])
                    if np.linalg.cond(A * ro / rp.T) > 3e9 or np.linalg.cond(A) > 30:
                        ro, rp = np.ones((ns, 1)), np.ones((di, 1))
                    s = per(call(lambda: LGP(A * ro / rp.T, b * ro, y * ro, m * rp, C * (rp @ rp.T), Co, al).solve("ls")), rp)
                else:
                    s = per(call(P.solve, "ls"), su)
                good = not isinstance(s, Raised)
                ctx.direct(good and ok(A.T @ (A @ s + b - y), np.zeros((di, 1))), "ls:normal-equations", det)
                lam = np.linalg.lstsq(A.T, s, rcond=None)[0] if good else 0
                ctx.direct(good and ok(A.T @ lam, s), "ls:minimum-norm", det)
                U = per(call(P.updated_cov), uu)
                good = not isinstance(U, Raised)
                if ns <= di and not wild:
                    ctx.direct(good and ok(A @ U @ A.T, Co), "updated:push-forward", det)
                    ctx.direct(good and ok(U, U.T), "updated:symmetric", det)
        return
    return run


c06_equations = equations("mud")
c07_equations = equations("map")


def c08_equations(ctx):
    """Solutions minimise the functionals, point by point on larger problems."""
    for _ in range(ctx.scale(60, 800)):
        rng = ctx.rng
        ns, di, A, b, y, m, C, Co = big(rng)
        if ns > di:
            continue
        su, sy, args = units(rng, A, b, y, m, C, Co)
        P = LGP(*args)
        g = np.random.default_rng(rng.randrange(2**31))
        det = lambda: dict(A=A.tolist(), b=b.tolist(), y=y.tolist(), m=m.tolist(), C=C.tolist(), Co=Co.tolist())
        for meth, term in (("map", "bayes"), ("mud", "dc")):
            x = call(P.solve, meth)
            x = per(x, su)
            if isinstance(x, Raised):
                ctx.direct(False, meth, det)
                continue
            V = np.vstack([x.T] + [x.T + s * g.normal(size=(1, di)) for s in (1e-2, .1, 1, 10) for _ in range(3)])
            if meth == "map":  # the stand-alone norms, in the same units, against their definition
                V0 = V[1:6]
                if rng.random() < 0.4:  # parameters far from the origin
                    o = g.normal(size=(di, 1)) * 10.0 ** rng.randint(1, 7)
                    V0, m, b = V0 + o.T, m + o, b - A @ o
                    args = (args[0], b * sy, args[2], m * su) + tuple(args[4:])
                iC, iCo, iP = np.linalg.inv(C), np.linalg.inv(Co), np.linalg.inv(A @ C @ A.T)
                qf = lambda Z, M: np.einsum("ij,ik,kj->j", Z, M, Z)
                ni, nd, npr = qf(V0.T - m, iC), qf(A @ V0.T + b - y, iCo), qf(A @ (V0.T - m), iP)
                a = list(args)
                a[3] = a[3] if rng.random() < 0.6 else a[3].ravel()
                near = lambda r, w: not isinstance(r, Raised) and close(r, w, 1e-5, 1e-7)
                ctx.direct(near(call(norm.norm_input, V0 * su.T, a[3], a[4]), ni), "norm_input", det)
                ctx.direct(near(call(norm.norm_data, a[0], V0 * su.T, a[1], a[2].T, a[5]), nd), "norm_data", det)
                ctx.direct(near(call(norm.norm_predicted, a[0], V0 * su.T, a[3], a[4]), npr), "norm_predicted", det)
                ctx.direct(near(call(norm.inner_product, (V0 * su.T).T - args[3], a[4]), ni), "inner_product", det)
                F_ = call(norm.full_functional, a[0], V0 * su.T, a[1], a[3], a[4], a[2].T, a[5])
                ctx.direct(not isinstance(F_, Raised) and close(F_ - nd, ni - npr, 1e-4, 1e-6 * (1 + np.abs(nd).max())), "full_functional", det)
            if rng.random() < 0.1:  # many points at once: each has its own value
                W = np.repeat(V, 120, axis=0) + 0.1 * g.normal(size=(13 * 120, di))
                f = call(P.compute_functionals, W * su.T, terms=term)
                parts = [call(P.compute_functionals, W[i:i + 97] * su.T, terms=term) for i in range(0, len(W), 97)]
                ctx.direct(not any(isinstance(z, Raised) for z in [f] + parts) and close(f, np.concatenate(parts), 1e-7, 1e-6), "many-points", det)
            f = call(P.compute_functionals, V * su.T, terms=term)
            ok = not isinstance(f, Raised) and f.shape == (13,) and bool(np.all(f[0] <= f[1:] + 1e-7 * (1 + abs(f[1:]))))
            ctx.direct(ok, f"{meth}-minimises-{term}", det)
