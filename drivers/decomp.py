"""Decompositions (C18) and linear-algebra/noise utilities (C19), judged by T_Decomp's relations."""
from fractions import Fraction as Fr

import numpy as np
from scipy.special import erf, erfc

from enc import F, Fm, Fv, Raised, call, close, fl, laid, obs
from mud import preprocessing as pp
from mud import util

SC = 1000


def fx(a):
    a = np.asarray(a, float)
    if not np.all(np.isfinite(a)) or np.abs(a).max(initial=0) > 1e6:
        return None
    return np.round(a * SC).astype(int).tolist()


def column(rng, n):
    z = rng.random()
    if z < 0.12 or n == 1:
        v = Fr(rng.randint(-4, 5), 2)
        return [v] * n
    while True:
        c = [Fr(rng.randint(-6, 7), rng.choice([1, 2])) for _ in range(n)]
        m = sum(c) / n
        if sum((x - m) ** 2 for x in c) / n >= Fr(1, 4):
            return c


def gen(rng, nmin=1):
    n, d = rng.randint(nmin, 6), rng.choice([1, 2, 2, 3, 3])
    cols = [column(rng, n) for _ in range(d)]
    if d > 1 and rng.random() < 0.15:  # dependent columns
        cols[1] = [Fr(2) * x for x in cols[0]]
    return n, d, [list(r) for r in zip(*cols)]


def standard(X):
    """standardised columns, by the definition"""
    X = np.asarray(X, float)
    sd = X.std(axis=0)
    sd = np.where(sd < 1e-12 * np.abs(X).max(axis=0), 0, sd)  # rounding of the mean
    return np.where(sd == 0, 0.0, (X - X.mean(axis=0)) / np.where(sd == 0, 1, sd)), sd


def giv(rng, M):
    a = fl(M)
    if rng.random() < 0.25:
        return a.tolist()
    return laid(rng, a)


def svd_event(rng):
    n, d, X = gen(rng)
    _, sd = standard(fl(X))
    full = rng.random() < 0.7
    r = call(pp.svd, giv(rng, X), **({} if full and rng.random() < 0.7 else {"full_matrices": full}))
    e = dict(op="svd", X=Fm(X), sd=fx(sd), full=full, err=True, U=[], s=[], V=[])
    if not isinstance(r, Raised) and len(r) == 3:
        U, s, V = map(fx, r)
        if U is not None and s is not None and V is not None:
            e.update(err=False, U=U, s=s, V=V)
    return e


def pca_event(rng):
    n, d, X = gen(rng, 2)
    Z, sd = standard(fl(X))
    K = min(n, d)
    k = rng.randint(1, K)
    kw = {} if k == 2 and rng.random() < 0.5 else {"n_components": None if k == K and rng.random() < 0.4 else k}
    r = call(pp.pca, giv(rng, X), **kw)
    f = call(pp.pca, fl(X), n_components=K)
    w = np.linalg.eigvalsh(Z.T @ Z / (n - 1))[::-1]
    same = [bool(min([abs(w[i] - w[j]) for j in range(d) if j != i] + [9]) > 0.05 and w[i] > 0.05) for i in range(k)]
    e = dict(op="pca", X=Fm(X), sd=fx(sd), k=k, err=True, C=[], T=[], v=[], Cf=[], same=same)
    if not isinstance(r, Raised) and not isinstance(f, Raised) and len(r) == 2:
        C, T, v, Cf = fx(r[0].components_), fx(r[1]), fx(r[0].explained_variance_), fx(f[0].components_)
        if None not in (C, T, v, Cf):
            e.update(err=False, C=C, T=T, v=v, Cf=Cf)
    return e


def refused_event(rng):
    fn = rng.choice(["pca", "svd"])
    sh = rng.choice([(4,), (2, 2, 2), (), (1, 3, 1), (3, 2, 2, 2)])
    a = np.array([rng.random() for _ in range(int(np.prod(sh)))]).reshape(sh)
    return dict(op="refused", fn=fn, obs=obs(call(getattr(pp, fn), a if rng.random() < 0.6 else a.tolist())))


def c18_traces(ctx):
    rng = ctx.rng
    for it in range(ctx.scale(500, 6000)):
        z = rng.random()
        e = refused_event(rng) if z < 0.1 else svd_event(rng) if z < 0.5 else pca_event(rng)
        ctx.case("T_Decomp", {"ev": [e]})


def c18_large(ctx):
    rng = np.random.default_rng(ctx.seed + 18)
    for it in range(ctx.scale(150, 1500)):
        n, d = int(rng.integers(2, 40)), int(rng.integers(1, 12))
        if it % 25 == 24:
            n, d = [(700, 6), (3, 45), (60, 60), (300, 2), (520, 40), (40, 520)][it // 25 % 6]
        X = rng.normal(size=(n, d)) @ rng.normal(size=(d, d)) * rng.uniform(1e-3, 1e3, d) + rng.normal(size=d) * 10
        if rng.random() < 0.3:
            X[:, int(rng.integers(0, d))] = float(rng.normal())
        if rng.random() < 0.2:
            X = np.round(X).astype(int)
        elif rng.random() < 0.4:  # columns in any units
            # (centring a constant column leaves the rounding of its mean, so those keep theirs)
            X = X * np.where(np.ptp(X, axis=0) > 0, 10.0 ** rng.integers(-13, 13, d), 1.0)
        Z, sd = standard(X)
        det = lambda: dict(X=X.tolist())
        r = call(pp.svd, X)
        m = min(n, d)
        ok = not isinstance(r, Raised)
        ctx.direct(ok and r[0].shape == (n, n) and r[2].shape == (d, d) and r[1].shape == (m,) and
                   close((r[0][:, :m] * r[1]) @ r[2][:m], Z, 1e-7, 1e-7) and close(r[0].T @ r[0], np.eye(n)) and
                   close(r[2] @ r[2].T, np.eye(d)) and np.all(np.diff(r[1]) <= 1e-9) and np.all(r[1] >= 0), "svd", det)
        r2 = call(pp.svd, X, full_matrices=False)
        ctx.direct(not isinstance(r2, Raised) and r2[0].shape == (n, m) and r2[2].shape == (m, d), "svd:options", det)
        k = int(rng.integers(1, m + 1)) if max(n, d) < 500 else int(rng.integers(1, 4))
        r = call(pp.pca, X, n_components=k)
        w, V = np.linalg.eigh(Z.T @ Z / (n - 1))
        w, V = w[::-1], V[:, ::-1]
        ok = not isinstance(r, Raised)
        ctx.direct(ok and r[1].shape == (n, k) and close(r[0].explained_variance_, w[:k], 1e-6, 1e-7) and
                   close(r[0].components_ @ r[0].components_.T, np.eye(k)) and
                   close(Z @ r[0].components_.T, r[1], 1e-6, 1e-7), "pca", det)
        for i in range(k):
            gap = min([abs(w[i] - w[j]) for j in range(d) if j != i] + [9.0])
            if ok and gap > 1e-3 and w[i] > 1e-3:
                c = r[0].components_[i]
                ctx.direct(close(c, V[:, i], 1e-5, 1e-7) or close(c, -V[:, i], 1e-5, 1e-7), "pca:leading", det)
        share = float(rng.uniform(0.05, 0.95))
        part = np.cumsum(w[:m]) / max(w[:m].sum(), 1e-300)
        if w[0] > 1e-3 and np.abs(part - share).min() > 1e-6:  # a share of the variance instead of a number
            r = call(pp.pca, X, n_components=share)
            ctx.direct(not isinstance(r, Raised) and r[1].shape == (n, int((part < share).sum()) + 1), "pca:share", det)
        if k <= m and w[k - 1] > 1e-3:
            r = call(pp.pca, X, n_components=k, whiten=True)
            ctx.direct(not isinstance(r, Raised) and close(np.atleast_2d(np.cov(r[1].T)), np.eye(k), 1e-5, 1e-6), "pca:options", det)


# ------------------------------------------------------------------ utilities
QUANT = {0.5: 674, 0.9: 1645, 0.95: 1960, 0.99: 2576, 0.6826894921: 1000}


def small(rng, m, n):
    A = [[Fr(rng.choice([-2, -1, 0, 0, 1, 1, 2, 3])) for _ in range(n)] for _ in range(m)]
    if m > 1 and rng.random() < 0.4:
        k, a, b = rng.randrange(m), rng.choice([1, -1, 2]), rng.randrange(m)
        if k != b:
            A[k] = [a * x for x in A[b]]
    return A


def util_event(rng):
    z = rng.random()
    if z < 0.1:  # complex matrices: real part A, imaginary part B
        m, n = rng.choice([1, 1, 2, 3]), rng.choice([1, 2, 3])
        A, B = small(rng, m, n), small(rng, m, n)
        if rng.random() < 0.3:  # a row times a complex number
            w = rng.randrange(m)
            A[0], B[0] = [-x for x in B[w]], list(A[w])
        r = call(util.null_space, fl(A) + 1j * fl(B), **({"rcond": 1e-9} if rng.random() < 0.3 else {}))
        e = dict(op="null_space_c", A=Fm(A), B=Fm(B), err=True, Z=[], W=[], k=0)
        if not isinstance(r, Raised) and getattr(r, "ndim", 0) == 2 and None not in (fx(np.real(r)), fx(np.imag(r))):
            e.update(err=False, Z=fx(np.real(r)), W=fx(np.imag(r)), k=int(r.shape[1]))
        return e
    if z < 0.4:
        A = small(rng, rng.choice([1, 1, 2, 3, 4]), rng.choice([1, 2, 3, 4]))
        a = giv(rng, A)
        k = {"rcond": None} if rng.random() < 0.2 else {"rcond": rng.choice([1e-10, 1e-4])} if rng.random() < 0.4 else {}
        if rng.random() < 0.3:  # the null space does not depend on the scale
            a = np.asarray(a, float) * rng.choice([2.0**-40, 2.0**-20, 2.0**30])
        r = call(util.null_space, a, **k)
        e = dict(op="null_space", A=Fm(A), err=True, Z=[], k=0)
        if not isinstance(r, Raised) and getattr(r, "ndim", 0) == 2 and fx(r) is not None:
            e.update(err=False, Z=fx(r), k=int(r.shape[1]))
        return e
    if z < 0.65:
        A = small(rng, rng.choice([1, 2, 3, 4]), rng.choice([1, 2, 3, 4]))
        a, u = giv(rng, A), 1.0
        if rng.random() < 0.4:  # in any units
            u = rng.choice([2.0**-60, 2.0**-30, 2.0**30])
            a = np.asarray(a, float) * u
        r = call(util.rank_decomposition, a)
        e = dict(op="rank", A=Fm(A), err=True, L=[])
        if not isinstance(r, Raised):
            L = [fx(np.asarray(x) / u) if np.ndim(x) == 2 else None for x in r]
            if None not in L:
                e.update(err=False, L=L)
        return e
    if z < 0.9:
        sh = rng.choice([(1,), (3,), (4,), (2, 3), (3, 1), (1, 4), (2, 2, 2), ()])
        n = int(np.prod(sh))
        v = [Fr(rng.randint(-9, 9), 2) for _ in range(n)]
        a = np.array([float(x) for x in v]).reshape(sh)
        sd = rng.choice([0.0, 0.05, 0.5, 2.0, 1])
        seed = rng.randrange(100000)
        k = {} if sd == 0.05 and rng.random() < 0.6 else {"sd": sd}
        if rng.random() < 0.7:
            k["seed"] = seed
            np.random.seed(seed + 1)
        else:
            np.random.seed(seed)
        if all(x.denominator == 1 for x in v) and rng.random() < 0.5:
            a = a.astype(int)
        r = call(util.add_noise, a.tolist() if rng.random() < 0.3 else a, **k)
        if not isinstance(r, Raised) and np.shape(r) == sh:
            r = np.asarray(r) - np.random.RandomState(seed).randn(n).reshape(sh) * sd
        return dict(op="noise", shape=list(sh), v=Fv(v), obs=obs(r))
    p = rng.choice(sorted(QUANT))
    tol = rng.choice([0.1, 0.5, 1, 2, 3.5])
    k = {}
    if tol != 0.1 or rng.random() < 0.5:
        k["tolerance"] = tol
    if p != 0.95 or rng.random() < 0.5:
        k["probability"] = p
    r = call(util.std_from_equipment, **k)
    o = -1 if isinstance(r, Raised) else (fx([r]) or [-1])[0]
    return dict(op="std", tol=int(tol * SC), quantile=QUANT[p], obs=o)


def c19_traces(ctx):
    for it in range(ctx.scale(800, 8000)):
        ctx.case("T_Decomp", {"ev": [util_event(ctx.rng)]})


def c19_large(ctx):
    rng = np.random.default_rng(ctx.seed + 19)
    for it in range(ctx.scale(200, 2000)):
        m, n = int(rng.integers(1, 9)), int(rng.integers(1, 9))
        if it % 25 == 24:
            m, n = int(rng.integers(9, 40)), int(rng.integers(9, 40))
        k = int(rng.integers(0, min(m, n) + 1))
        A = rng.normal(size=(m, k)) @ rng.normal(size=(k, n)) if k else np.zeros((m, n))
        A = A * 10.0 ** int(rng.integers(-4, 5))
        det = lambda: dict(A=A.tolist(), rank=k)
        Z = call(util.null_space, A)
        tol = np.abs(A).max() * 1e-9 + 1e-300
        # numerically exact products may leave rounding above the default tolerance only rarely
        s = np.linalg.svd(A, compute_uv=False)
        want = int(n - (s > s.max() * np.finfo(float).eps * max(m, n)).sum())
        ctx.direct(not isinstance(Z, Raised) and Z.shape == (n, want) and close(Z.T @ Z, np.eye(want)) and
                   (want == 0 or np.abs(A @ Z).max() <= tol), "null-space", det)
        B = rng.normal(size=(m, n))
        u, sv, vt = np.linalg.svd(B)
        q = len(sv)
        g = min(1.0, 8 / q)
        sv2 = np.array([10.0 ** (-i * g) for i in range(q)])  # a spectrum to cut with a tolerance
        B = (u[:, :q] * sv2) @ vt[:q]
        cut = int(rng.integers(0, q))
        rc = 10.0 ** ((-cut - 0.5) * g)
        Z = call(util.null_space, B * 10.0 ** int(rng.integers(-9, 9)), rcond=rc)
        ctx.direct(not isinstance(Z, Raised) and Z.shape == (n, n - cut - 1) and
                   close(np.abs(Z.T @ vt[: cut + 1].T), np.zeros((n - cut - 1, cut + 1)), 0, 1e-6), "null-space:tolerance",
                   lambda: dict(B=B.tolist(), rcond=rc, got=repr(Z)))
        # by default only rounding counts as zero: directions down to 1e-13 of the largest are genuine
        sm = np.array([10.0 ** (-i * min(3.0, 13 / q)) for i in range(q)])
        Bs = (u[:, :q] * sm) @ vt[:q]
        Z = call(util.null_space, Bs * 10.0 ** int(rng.integers(-9, 9)))
        ctx.direct(not isinstance(Z, Raised) and Z.shape == (n, n - q), "null-space:default-tolerance",
                   lambda: dict(B=Bs.tolist(), got=repr(Z)))
        # a tolerance of zero keeps every direction of a non-zero singular value, however small
        tiny = np.diag(10.0 ** -rng.permutation(np.arange(17, 17 + n)).astype(float))
        tiny[0, 0] = 1.0
        Z = call(util.null_space, np.vstack([tiny, np.zeros((m, n))]), rcond=0 if it % 2 else 0.0)
        ctx.direct(not isinstance(Z, Raised) and Z.shape == (n, 0), "null-space:tolerance", lambda: dict(n=n, rcond=0, got=repr(Z)))
        un = 10.0 ** int(rng.integers(-15, 10)) if rng.random() < 0.6 else 1.0
        L = call(util.rank_decomposition, B * un)
        L = [np.asarray(x) / un for x in L] if not isinstance(L, Raised) else L
        ctx.direct(not isinstance(L, Raised) and len(L) == q and close(L[-1], B, 1e-9, 1e-9) and
                   all(close(L[i], (u[:, : i + 1] * sv2[: i + 1]) @ vt[: i + 1], 1e-6, 1e-9) for i in range(q)),
                   "rank-decomposition", lambda: dict(B=B.tolist(), got=repr(L)))
        t, p = float(rng.uniform(0.01, 5)), float(rng.uniform(0.05, 0.999))
        if rng.uniform() < 0.4:
            p = 1 - 10.0 ** -int(rng.integers(3, 9))
        elif rng.uniform() < 0.4:
            p = 10.0 ** -int(rng.integers(2, 15))
        t *= 10.0 ** int(rng.integers(-12, 12)) if rng.uniform() < 0.4 else 1.0
        r = call(util.std_from_equipment, t, p)
        ctx.direct(not isinstance(r, Raised) and close(erf(t / (r * np.sqrt(2))), p, 1e-7, 0) and close(erfc(t / (r * np.sqrt(2))), 1 - p, 1e-4, 0), "std-from-equipment", lambda: dict(t=t, p=p, r=repr(r)))
        seed = int(rng.integers(0, 2**31))
        sig = rng.normal(size=(int(rng.integers(1, 30)),))
        a, b = call(util.add_noise, sig, 0.7, seed), call(util.add_noise, sig, 0.7, seed=seed)
        c = call(util.add_noise, sig, 0.7)
        d = call(util.add_noise, sig, 0.7)
        ctx.direct(close(a, b, 0, 0) and not close(a, c) and not close(c, d), "add-noise:seed", lambda: repr((a, b, c, d)))
        if it % 10 == 0:
            shape = [(1500,), (40, 60), (3000, 1), (7001,)][it // 10 % 4]
            long = call(util.add_noise, np.ones(shape), 0.7, seed)
            ctx.direct(close(long, 1 + 0.7 * np.random.RandomState(seed).randn(*shape)), "add-noise:long", lambda: dict(shape=shape, seed=seed))
        np.random.seed(seed % 2**31)
        x = call(util.add_noise, sig, 0.7, None)
        ctx.direct(close(x, a, 1e-12, 1e-12), "add-noise:seed", lambda: repr((x, a)))
    z = call(util.add_noise, np.zeros(9), seed=0)
    ctx.direct(close(z, 0.05 * np.random.RandomState(0).randn(9)), "add-noise:seed", lambda: repr(z))
    from mud import plot

    A = np.array([[1.0, 2.0, -1.0]])
    ctx.direct(close(call(plot.null_space, A), util.null_space(A)), "null-space", "plot.null_space") if hasattr(plot, "null_space") else None
