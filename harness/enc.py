"""Exact encoding of doubles as the fixed-point numbers of spec/Fix.tla."""
from fractions import Fraction
import math

ONE = 1 << 192


def num(x):
    x = float(x)
    if math.isnan(x):
        return [2]
    if math.isinf(x):
        return [3 if x > 0 else -3]
    f = Fraction(x)
    m = abs(f.numerator) * ONE // f.denominator
    if m == 0:
        return [0]
    out = [1 if f > 0 else -1]
    while m:
        out.append(m & 4095)
        m >>= 12
    return out


def nums(xs):
    return [num(x) for x in xs]


def kern(k):
    """A kernel tree with float parameters -> the record of spec/Cov.tla."""
    if k["op"] == "leaf":
        return {"op": "leaf", "fam": k["fam"], "p": nums(k["p"]), "ord": k.get("ord", 0),
                "name": k.get("name") or k["fam"]}
    if k["op"] == "scale":
        return {"op": "scale", "c": num(k["c"]), "k": kern(k["k"])}
    if k["op"] == "basis":
        return {"op": "basis", "M": [nums(r) for r in k["M"]], "W": [nums(r) for r in k["W"]], "k": kern(k["k"]), "name": k["name"]}
    if k["op"] == "obs":
        return {"op": "obs", "rows": [{"a": nums(r["a"]), "b": nums(r["b"])} for r in k["rows"]], "k": kern(k["k"]), "name": k["name"]}
    if k["op"] == "int":
        return {"op": "int", "k": kern(k["k"]), "name": k["name"]}
    return {"op": k["op"], "l": kern(k["l"]), "r": kern(k["r"])}


def val(x):
    """decode (for messages)"""
    if x[0] in (2, 3, -3):
        return {2: math.nan, 3: math.inf, -3: -math.inf}[x[0]]
    m = 0
    for d in reversed(x[1:]):
        m = (m << 12) | d
    return x[0] * float(Fraction(m, ONE))
