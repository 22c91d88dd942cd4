"""Encoding of values for the trace files: numbers are exact rationals as strings."""
import math
from fractions import Fraction


def num(x):
    """Exact value of a real number as the string "p" or "p/q" (or "nan", "inf", "-inf")."""
    if hasattr(x, "item"):
        x = x.item()
    if isinstance(x, bool):
        return "1" if x else "0"
    if isinstance(x, int):
        return str(x)
    if isinstance(x, Fraction):
        return str(x)
    x = float(x)
    if math.isnan(x):
        return "nan"
    if math.isinf(x):
        return "inf" if x > 0 else "-inf"
    p, q = x.as_integer_ratio()
    return str(p) if q == 1 else "%d/%d" % (p, q)


def nums(xs):
    return [num(x) for x in xs]


def fl(s):
    """Back from the encoding to a float (exact for encoded floats)."""
    if s in ("nan", "inf", "-inf"):
        return float(s)
    if "/" in s:
        p, q = s.split("/")
        return int(p) / int(q)
    return float(s) if ("." in s or "e" in s) else float(int(s))


def small(n):
    """An int for JSON, which TLC reads as a 32-bit integer."""
    n = int(n)
    if not -2**31 < n < 2**31:
        raise OverflowError(n)
    return n
