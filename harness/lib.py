"""Projection of Python values to what the specification reads."""

import contextlib
import io
import math
from fractions import Fraction

import numpy as np


def limbs(n):
    d = []
    while n:
        d.append(n % 10000)
        n //= 10000
    return d


def big(n):
    """Signed big integer for Num.tla."""
    n = int(n)
    return {"s": (n > 0) - (n < 0), "d": limbs(abs(n))}


def num(v):
    """An observed number, scaled by 10^9, for Num.tla."""
    if v is None:
        return {"k": "none", "s": 0, "d": []}
    try:
        if hasattr(v, "detach"):
            v = v.detach().cpu().numpy()
        if isinstance(v, np.ndarray) and v.size == 1:
            v = v.reshape(-1)[0]
        if isinstance(v, (bool, np.bool_)):
            v = int(v)
        if isinstance(v, (int, np.integer)):
            fr = Fraction(int(v))
        else:
            v = float(v)
            if math.isnan(v):
                return {"k": "nan", "s": 0, "d": []}
            if math.isinf(v):
                return {"k": "inf" if v > 0 else "-inf", "s": 0, "d": []}
            fr = Fraction(v)
    except (TypeError, ValueError):
        return {"k": "other", "s": 0, "d": []}
    n = fr * 10**9
    n = (abs(n) + Fraction(1, 2)).__floor__() * (1 if n >= 0 else -1)
    return {"k": "n", **big(n)}


def exact(v):
    """An observed number without rounding (scaled by 2^150)."""
    r = num(v)
    if r["k"] != "n":
        return r
    return {"k": "n", **big(Fraction(float(v)) * 2**150 // 1)}


class Timeout(Exception):
    pass


def call(f, *a, **k):
    """(outcome, value): outcome is "ok" or the exception class name."""
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(
            io.StringIO()
        ):
            return "ok", f(*a, **k)
    except Exception as e:  # noqa: BLE001
        return type(e).__name__, None


def exc_class(e):
    """ValueError for it and its subclasses."""
    return "ValueError" if isinstance(e, ValueError) else type(e).__name__


def outcome(f, *a, **k):
    """Like call, but subclasses of ValueError count as ValueError."""
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(
            io.StringIO()
        ):
            return "ok", f(*a, **k)
    except Exception as e:  # noqa: BLE001
        return exc_class(e), None


def dt(a):
    return str(np.asarray(a).dtype)


def flat(a):
    """Flat list of Python ints of an integer-valued array (C order)."""
    return [int(x) for x in np.asarray(a).ravel(order="C")]
