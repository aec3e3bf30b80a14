"""Encoding of observed values for the specification, and guarded execution."""
import signal
import warnings
from fractions import Fraction

import numpy as np

MAXDEN = 40000
TOL = 1e-9


def q(x):
    """Observed number -> [num, den] (simplest rational), or a sentinel."""
    if isinstance(x, (bool, np.bool_)):
        return [int(x), 1]
    if isinstance(x, (int, np.integer)):
        x = int(x)
        return [x, 1] if abs(x) < 2**31 - 1 else [2, 0]
    if isinstance(x, Fraction):
        assert abs(x.numerator) < 2**31 and x.denominator < 2**31
        return [x.numerator, x.denominator]
    if isinstance(x, (complex, np.complexfloating)):
        if x.imag != 0:
            return [2, 0]
        x = x.real
    x = float(x)
    if x != x:
        return [0, 0]
    if x in (float("inf"), float("-inf")):
        return [1 if x > 0 else -1, 0]
    f = Fraction(x).limit_denominator(MAXDEN)
    if abs(float(f) - x) <= TOL * max(1.0, abs(x)) and abs(f.numerator) < 2**31 - 1:
        return [f.numerator, f.denominator]
    return [2, 0]


def arr(x):
    a = np.asarray(x)
    if a.dtype == object or a.dtype.kind not in "biufc":
        return {"k": "other", "r": f"{type(x).__name__}:{a.dtype}"}
    if a.size > 4000:
        return {"k": "other", "r": f"array of size {a.size}"}
    return {"k": "arr", "shape": [int(s) for s in a.shape], "v": [q(v) for v in a.ravel()]}


def obs(x):
    """Any returned value -> tagged observation."""
    if x is None:
        return {"k": "none"}
    if isinstance(x, Raised):
        return {"k": "err", "t": x.name}
    if isinstance(x, str):
        return {"k": "str", "s": x}
    if isinstance(x, (int, float, np.ndarray, np.generic, list, tuple, range)):
        try:
            return arr(x)
        except Exception as e:  # ragged
            return {"k": "other", "r": type(e).__name__}
    return {"k": "other", "r": type(x).__name__}


class Raised:
    """An exception the code raised, as an outcome."""

    def __init__(self, e):
        self.name = type(e).__name__
        self.msg = str(e)[:300]

    def __repr__(self):
        return f"Raised({self.name}: {self.msg})"


class Hang(Exception):
    pass


def _alarm(*_):
    raise Hang("call did not return in time")


signal.signal(signal.SIGALRM, _alarm)


def call(fn, *a, _limit=20, **k):
    """Run code under test; an exception (or a hang) is an outcome."""
    signal.setitimer(signal.ITIMER_REAL, _limit)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with np.errstate(all="ignore"):
                return fn(*a, **k)
    except (Exception, SystemExit) as e:
        return Raised(e)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def F(x):
    """Fraction/int -> JSON rational (inputs; exact)."""
    x = Fraction(x)
    return [x.numerator, x.denominator]


def Fv(v):
    return [F(x) for x in v]


def Fm(m):
    return [[F(x) for x in r] for r in m]


def fl(v):
    """(nested) list of Fractions -> float ndarray."""
    return np.array(_fl(v), dtype=float)


def typed(rng, a, p=0.2, single=False):
    """the same numbers held in another type: small or unsigned integers, single precision"""
    return laid(rng, _typed(rng, a, p, single), min(p, 0.3))


def laid(rng, a, p=0.2):
    """the same numbers in another memory layout: columns first, every other item of a longer
    array, counted from the end, or not writable"""
    if not isinstance(a, np.ndarray) or a.size == 0 or a.ndim == 0 or rng.random() >= p:
        return a
    z = rng.random()
    if z < 0.3:
        return np.asfortranarray(a)
    if z < 0.55:
        b = np.full(tuple(2 * n for n in a.shape), 77).astype(a.dtype)
        v = b[tuple(slice(None, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    if z < 0.75:
        flip = tuple(slice(None, None, -1) for _ in a.shape)
        return np.ascontiguousarray(a[flip])[flip]
    a = a.copy()
    a.flags.writeable = False
    return a


def _typed(rng, a, p, single):
    if not isinstance(a, np.ndarray) or a.size == 0 or rng.random() >= p:
        return a
    fits = [t for t in ("u1", "i1", "i2", "u2", "i4", "i8", "u8") if np.all(a == np.round(a))
            and np.all(a >= np.iinfo(t).min) and np.all(a <= np.iinfo(t).max)]
    fits += [t for t in ("u1", "u2") if t in fits]
    if single and np.all(a.astype("f4") == a):
        fits.append("f4")
    return a.astype(rng.choice(fits)) if fits else a


def _fl(v):
    return [_fl(x) for x in v] if isinstance(v, (list, tuple)) else float(v)


def close(a, b, rtol=1e-7, atol=1e-9):
    try:
        a = np.asarray(a, dtype=float)
        b = np.asarray(b, dtype=float)
    except Exception:
        return False
    return a.shape == b.shape and bool(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))
