"""What each property's check runs: the specification models, and the sessions to record.

A session is a list of calls (record.py); a group is a list of sessions that share compiled
code, with an estimate of its cost in seconds.
"""
import json
import math
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")


def cfg(module, **over):
    """The .cfg of a model, with some constants replaced."""
    out = []
    for l in open(f"{SPEC}/{module}.cfg"):
        for k, v in over.items():
            if l.strip().removeprefix("CONSTANTS").strip().startswith(k + " ="):
                l = ("CONSTANTS " if l.startswith("CONSTANTS") else " ") + f"{k} = {v}\n"
        out.append(l)
    return "".join(out)


def model(module, as_=None, simulate=None, heap="4g", **over):
    return dict(module=module, cfg=cfg(module, **over), simulate=simulate, heap=heap, **({"as": as_} if as_ else {}))


# ------------------------------------------------------------------ values
def lu(rng, a, b):
    """log-uniform, rounded to a short decimal"""
    return float(f"{math.exp(rng.uniform(math.log(a), math.log(b))):.4g}")


def un(rng, a, b):
    return round(rng.uniform(a, b), 3)


LEAVES = ["Constant", "Exp", "Matern32", "Matern52", "SHOcrit", "SHOunder", "SHOover", "Cosine", "ESS"]
INTS = ["IntegratedExp", "IntegratedMatern32", "IntegratedMatern52", "IntegratedSHOcrit", "IntegratedSHOunder", "IntegratedSHOover"]


def leaf(rng, sym, name=None, order=None, ts=1.0, ss=1.0):
    """A leaf of a family with random parameters: time scale about ts, standard deviation about ss"""
    s = lu(rng, 0.4, 2.5) * ss
    x = lu(rng, 0.5, 3.0) * ts
    pre = "Integrated" if sym.startswith("Integrated") else ""
    b = sym[len(pre):]
    k = {"op": "leaf"}
    if b == "Constant":
        k.update(fam="Constant", p=[s])
    elif b.startswith("SHO"):
        w = lu(rng, 0.5, 4.0) / ts
        near = lu(rng, 3e-3 if pre else 3e-5, 3e-2)       # close to critical damping, where the formulas divide by eta -> 0
        q = {"crit": 0.5, "under": rng.choice([0.6, 0.75, 1.0, 2.5, 7.0, lu(rng, 0.55, 20), 0.5 * (1 + near)]),
             "over": rng.choice([0.1, 0.2, 0.35, 0.45, lu(rng, 0.08, 0.47), 0.5 * (1 - near)])}[b[3:]]
        k.update(fam=pre + "SHO", p=[w, q, s])
    elif b == "ESS":
        o = order if order is not None else rng.choice([2, 3])
        # order 0: chosen from gamma (here always 4 terms: gamma <= 2)
        g = lu(rng, 0.3, 1.9) if o == 0 else lu(rng, 0.3, 4.0)
        k.update(fam="ExpSineSquared", p=[2 * x, g, s], ord=o)
    else:
        k.update(fam=pre + b, p=[x * (2 if b == "Cosine" else 1), s])
    if name:
        k["name"] = name
    return k


def from_tree(rng, t, order=None, ts=1.0):
    """A tree printed by MCAlgebra, with random parameters."""
    if t["op"] == "leaf":
        return leaf(rng, LEAVES[t["j"] - 1], order=order if order is not None else 2, ts=ts)
    if t["op"] == "scale":
        return {"op": "scale", "c": lu(rng, 0.2, 5), "k": from_tree(rng, t["k"], order, ts), "side": rng.choice("lr")}
    return {"op": t["op"], "l": from_tree(rng, t["l"], order, ts), "r": from_tree(rng, t["r"], order, ts)}


def redraw(rng, k, ts=1.0, ss=1.0):
    """The same structure with other parameters."""
    if k["op"] == "leaf":
        fam = k["fam"]
        sym = fam
        if fam.endswith("SHO"):
            sym += "crit" if k["p"][1] == 0.5 else "under" if k["p"][1] > 0.5 else "over"
        if fam == "ExpSineSquared":
            sym = "ESS"
        return dict(leaf(rng, sym, name=k.get("name"), order=k.get("ord"), ts=ts, ss=ss))
    if k["op"] == "scale":
        return dict(k, c=lu(rng, 0.2, 5), k=redraw(rng, k["k"], ts, ss), side=rng.choice("lr"))
    if k["op"] in ("basis", "obs", "int"):
        return dict(k, k=redraw(rng, k["k"], ts, ss))
    return dict(k, l=redraw(rng, k["l"], ts, ss), r=redraw(rng, k["r"], ts, ss))


def dim(k):
    if k["op"] == "leaf":
        b = k["fam"].replace("Integrated", "")
        if b == "ExpSineSquared":
            return 2 * (k.get("ord") or 4)
        return {"Constant": 1, "Exp": 1, "Matern52": 3, "Matern72": 4}.get(b, 2)
    if "k" in k:
        return dim(k["k"])
    a, b = dim(k["l"]), dim(k["r"])
    return a + b if k["op"] == "sum" else a * b


def tdim(t):
    """dimension of a tree printed by MCAlgebra"""
    if t["op"] == "leaf":
        return {"Constant": 1, "Exp": 1, "Matern52": 3, "ESS": 4}.get(LEAVES[t["j"] - 1], 2)
    if t["op"] == "scale":
        return tdim(t["k"])
    a, b = tdim(t["l"]), tdim(t["r"])
    return a + b if t["op"] == "sum" else a * b


def show(k):
    if k["op"] == "leaf":
        b = k["fam"]
        if b.endswith("SHO"):
            b += "[q%s]" % k["p"][1]
        if k.get("ord") is not None:
            b += str(k["ord"])
        return b
    if k["op"] == "scale":
        return "c*" + show(k["k"])
    if k["op"] in ("basis", "obs", "int"):
        return {"basis": "matrices", "obs": "seen", "int": "Integrated"}[k["op"]] + "<" + show(k["k"]) + ">"
    return f"({show(k['l'])} {'+' if k['op'] == 'sum' else '*'} {show(k['r'])})"


def sums(ks):
    k = ks[0]
    for r in ks[1:]:
        k = {"op": "sum", "l": k, "r": r}
    return k


# ------------------------------------------------------------------ data
MODES = ["random", "even", "ties", "clusters", "wide", "offset", "negative"]


def times(rng, n, mode=None, ts=1.0):
    mode = mode or rng.choice(MODES)
    if mode == "even":
        h = lu(rng, 0.2, 2)
        t = [h * i for i in range(n)]
    elif mode == "ties":
        t = sorted(rng.choice([0.0, 0.5, 1.25, 3.0, 4.75]) for _ in range(n))
    elif mode == "clusters":
        t = sorted(rng.choice([0.0, 4.0, 30.0]) + un(rng, 0, 0.6) for _ in range(n))
    elif mode == "wide":
        t = sorted(lu(rng, 0.01, 60.0) for _ in range(n))
    elif mode == "offset":
        o = rng.choice([1e3, 58321.5, -4e4])
        t = sorted(o + un(rng, 0, 6) for _ in range(n))
    elif mode == "negative":
        t = sorted(un(rng, -8, 2) for _ in range(n))
    else:
        t = sorted(un(rng, 0, 1.2 * n) for _ in range(n))
    return [x * ts for x in t]


def data(rng, n, ss=1.0):
    return [round(rng.gauss(0, 1.3), 3) * ss for _ in range(n)]


def noises(rng, n, ss=1.0, scalar=None):
    if scalar or (scalar is None and rng.random() < 0.3):
        return lu(rng, 1e-3, 1.0) * ss * ss
    lo = rng.choice([1e-4, 1e-2, 0.05])
    return [lu(rng, lo, 1.5) * ss * ss for _ in range(n)]


def queries(rng, t, m=6, ts=1.0):
    """Test points before, on, between and after the data, unsorted, one repeated"""
    out = [t[0] - un(rng, 0.1, 3) * ts, rng.choice(t), t[-1] + un(rng, 0.1, 5) * ts]
    while len(out) < m - 1:
        if len(t) > 1 and t[-1] > t[0]:
            j = rng.randrange(len(t) - 1)
            out.append(t[j] + (t[j + 1] - t[j]) * rng.choice([0.5, un(rng, 0.01, 0.99)]))
        else:
            out.append(t[0] + un(rng, -2, 2) * ts)
    out.append(rng.choice(out))
    rng.shuffle(out)
    return out[:m]


def gp(k, t, noise, **kw):
    return dict(op="gp", k=k, X=[[x] for x in t], noise=noise, **kw)


def ses(label, *calls, **kw):
    return dict(label=label, calls=list(calls), **kw)


def group(cost, sessions):
    return dict(cost=cost + 0.3 * sum(len(s["calls"]) for s in sessions), sessions=sessions)


def seg(k):
    """how much slower compiled code of this kernel is"""
    return 1 + dim(k) / 8


# ------------------------------------------------------------------ structures for instantaneous kernels
SIZES = [1, 2, 3, 5, 8]


def structures(rng, scn, n2, n3, maxdim=8, leaves=None):
    """Every leaf family, then composite expressions drawn from MCAlgebra's behaviours."""
    out = [leaf(rng, s) for s in LEAVES if s != "ESS"] + [leaf(rng, "ESS", order=2), leaf(rng, "ESS", order=0)]
    if leaves:
        out = rng.sample(out, leaves)
    for key, n in (("A2", n2), ("A3", n3)):
        ts_ = [t for t in scn.get(key, []) if t["op"] != "leaf" and tdim(t) <= maxdim]
        # by shape, so that rare shapes are not drowned by common ones
        shapes = {}
        for t in ts_:
            shapes.setdefault(shape(t), []).append(t)
        keys = sorted(shapes)
        rng.shuffle(keys)
        for i in range(n if keys else 0):
            out.append(from_tree(rng, rng.choice(shapes[keys[i % len(keys)]])))
    return out


def shape(t):
    if t["op"] == "leaf":
        return "."
    if t["op"] == "scale":
        return "c" + shape(t["k"])
    return f"({shape(t['l'])}{'+' if t['op'] == 'sum' else '*'}{shape(t['r'])})"


def alg(tier):
    """the expressions of MCAlgebra: all of 2 leaves checked; 3 leaves emitted (a random walk of them)"""
    big = tier == "thorough"
    return [model("MCAlgebra", "A2"),
            model("MCAlgebra", "A3", MaxLeaves=3, Fams="{2,3,6,8}" if not big else "{1,2,3,4,6,7,8}", Check="FALSE",
                  MaxScale=1 if not big else 0)]


def lite(tier):
    """the expressions of MCAlgebra for inputs only (their properties are checked elsewhere)"""
    return alg(tier) if tier != "quick" else [model("MCAlgebra", "A2", Check="FALSE", MaxScale=0), model("MCExposure", "E2"),
                                              model("MCExposure", "E3", MaxObs=3, Check="FALSE", MaxT=3)]


def est(tier):
    return [model("MCEstimator", MaxN=2 if tier == "quick" else 3)]


# ---------------------------------------------------------------- C01
def gen_c01(rng, tier, scn):
    big = tier == "thorough"
    gs = []
    for j, k0 in enumerate(structures(rng, scn, 14 if not big else 60, 8 if not big else 40)):
        for n in ([SIZES[j % len(SIZES)]] if not big else SIZES + [13]):
            ss = []
            for v in range(5 if not big else 12):
                k = redraw(rng, k0) if v else k0
                mode = MODES[v % len(MODES)] if v < len(MODES) else None
                t = times(rng, n, mode)
                kw = {}
                if v == 1 and j % 3 == 0:
                    kw["conv"] = rng.choice(["float", "np"])
                nz = noises(rng, n)
                if v == 2 and j % 4 == 0:
                    # the default noise: nearly none, so round-off is amplified
                    nz, kw["noisekind"], kw["tol"] = 2.0**-26, "default", -5
                if v == 3 and j % 4 == 1:
                    kw["noisekind"] = "object"
                if v == 4 and j % 3 == 1:
                    kw["unique"] = False          # parts may then have the same name
                calls = [gp(k, t, nz, **kw), dict(op="logp", y=data(rng, n)), dict(op="logp", y=data(rng, n, rng.choice([1e-3, 1, 30])))]
                if v == 0 and j % 6 == 2:
                    calls.append(dict(op="logp", y=data(rng, n), how="jit"))
                if v == 0 and j % 6 == 4:
                    calls.append(dict(op="logp", y=data(rng, n), how="cond"))
                ss.append(ses(f"logp {show(k)} N={n} {mode}", *calls))
            gs.append(group(1.2 * seg(k0) + (1.5 if j % 6 in (2, 4) else 0), ss))
    # longer series
    for sym in (["Matern32", "SHOunder"] if not big else LEAVES[:-1]):
        n = 60 if not big else 150
        k = leaf(rng, sym)
        gs.append(group(4, [ses(f"logp {show(k)} N={n}", gp(k, times(rng, n, m), noises(rng, n)), dict(op="logp", y=data(rng, n)))
                            for m in ["random", "clusters"]]))
    # many data in small and in large units, for products over the data under- or overflow; almost no noise
    for sym, ss, n in [("Exp", 1e-6, 60), ("Matern52", 1e6, 60)] + ([("SHOunder", 0.02, 200), ("Matern32", 1e4, 150)] if big else []):
        k = leaf(rng, sym, ss=ss)
        gs.append(group(4, [ses(f"logp {show(k)} N={n}", gp(k, times(rng, n, "random"), noises(rng, n, ss, scalar=False)), dict(op="logp", y=data(rng, n, ss)))]))
    for j, k0 in enumerate(structures(rng, scn, 2 if not big else 12, 0, leaves=3 if not big else None)):
        ss = []
        for v in range(3 if not big else 6):
            k = redraw(rng, k0)
            nz, tol = [(1e-8, -6), (1e-10, -5), ([10.0 ** -rng.randrange(1, 11) for _ in range(6)], -5)][v % 3]
            mode = MODES[(v + j) % len(MODES)]
            ss.append(ses(f"logp {show(k)} N=6 {mode} noise {nz}", gp(k, times(rng, 6, mode), nz, tol=tol), dict(op="logp", y=data(rng, 6))))
        gs.append(group(1.2 * seg(k0), ss))
    # default amplitude, whole-number times
    for sym in ["Exp", "SHOunder", "Matern52", "Cosine", "ESS", "Constant", "Matern32"]:
        k = leaf(rng, sym)
        k["p"][-1] = 1.0
        k["dflt"] = True
        t = sorted(rng.randrange(-5, 12) for _ in range(4))
        gs.append(group(2.2, [ses(f"logp {show(k)} integer times, default amplitude",
                                  gp(k, t, noises(rng, 4), intx=True), dict(op="logp", y=data(rng, 4)))]))
    return gs


# ---------------------------------------------------------------- C02
def gen_c02(rng, tier, scn):
    big = tier == "thorough"
    gs = []
    for j, k0 in enumerate(structures(rng, scn, 12 if not big else 50, 6 if not big else 30)):
        for n in ([SIZES[(j + 2) % len(SIZES)]] if not big else SIZES):
            ss = []
            for v in range(4 if not big else 8):
                k = redraw(rng, k0) if v else k0
                mode = MODES[(v + j) % len(MODES)]
                t = times(rng, n, mode)
                calls = [gp(k, t, noises(rng, n)), dict(op="cond", y=data(rng, n))]
                if v == 0:
                    calls += [dict(op="pred", X=None, tag="predict.atdata"), dict(op="cond", y=data(rng, n, 10))]
                if v == 1 and j % 3 == 0:
                    calls.append(dict(op="pred", X=None, y=data(rng, n), tag="predict.atdata.y"))
                ss.append(ses(f"condition {show(k)} N={n} {mode}", *calls))
            gs.append(group(3 * seg(k0), ss))
    for sym in (["Matern52"] if not big else LEAVES[1:-1]):
        n = 50
        k = leaf(rng, sym)
        gs.append(group(8, [ses(f"condition {show(k)} N={n}", gp(k, times(rng, n, "random"), noises(rng, n)), dict(op="cond", y=data(rng, n)))]))
    for sym in ["SHOunder", "Exp"]:
        k = leaf(rng, sym)
        t = sorted(rng.randrange(-5, 12) for _ in range(4))
        gs.append(group(2.2, [ses(f"condition {show(k)} integer times", gp(k, t, noises(rng, 4), intx=True), dict(op="cond", y=data(rng, 4)),
                                  dict(op="pred", X=[[0], [3], [-9], [30]])), ]))
    # almost no noise
    for j, k0 in enumerate(structures(rng, scn, 2 if not big else 12, 0, leaves=3 if not big else None)):
        ss = []
        for v in range(3 if not big else 6):
            k = redraw(rng, k0)
            nz, tol = [(1e-8, -6), (1e-10, -5), ([10.0 ** -rng.randrange(1, 11) for _ in range(6)], -5)][v % 3]
            mode = MODES[(v + j) % len(MODES)]
            t = times(rng, 6, mode)
            ss.append(ses(f"condition {show(k)} N=6 {mode} noise {nz}", gp(k, t, nz, tol=tol), dict(op="cond", y=data(rng, 6)),
                          dict(op="pred", X=[[x] for x in queries(rng, t, 4)])))
        gs.append(group(3 * seg(k0), ss))
    return gs


# ---------------------------------------------------------------- C03
def gen_c03(rng, tier, scn):
    big = tier == "thorough"
    gs = []
    for j, k0 in enumerate(structures(rng, scn, 10 if not big else 40, 4 if not big else 24)):
        for n in ([SIZES[(j + 3) % len(SIZES)]] if not big else SIZES):
            m = 6 if j % 5 else 1
            ss = []
            for v in range(4 if not big else 8):
                k = redraw(rng, k0) if v else k0
                mode = MODES[(v + j) % len(MODES)]
                t = times(rng, n, mode)
                nz = noises(rng, n)
                q = lambda: [[x] for x in queries(rng, t, m)]
                calls = [gp(k, t, nz), dict(op="cond", y=data(rng, n)), dict(op="pred", X=q())]
                if v == 0:
                    calls.append(dict(op="pred", X=q()))
                    calls.append(dict(op="pred", X=q(), y=data(rng, n), tag="predict.y"))
                    if j % 4 == 1:
                        calls.append(dict(op="condx", X=q(), y=data(rng, n)))
                    if j % 4 == 2:
                        calls.append(dict(op="pred", X=q(), how="state", tag="predict.state"))
                    if j % 8 == 3:
                        calls.append(dict(op="pred", X=q(), how="jit", tag="predict.jit"))
                    if j % 4 == 0:
                        calls.append(dict(op="pred", X=q(), how="meanonly", tag="predict.mean"))
                if v == 1 and k0["op"] == "leaf" and j % 2 == 0:
                    d = dim(k)
                    h = [round(rng.gauss(0, 1), 3) for _ in range(d)]
                    calls.append(dict(op="predh", X=q(), h=h))
                    calls.append(dict(op="predh", X=None, h=h, tag="predict.observation_model.atdata"))
                ss.append(ses(f"predict {show(k)} N={n} M={m} {mode}", *calls))
            gs.append(group(4.5 * seg(k0), ss))
    # a far-away query, a query at the limits of resolution next to a datum
    for sym in ["Matern32", "SHOunder", "Exp", "SHOover"]:
        k = leaf(rng, sym)
        t = times(rng, 4, "random")
        x = [t[0] - 200.0, t[0] - 1e-9, t[1] + 1e-9, t[-1] + 1e-9, t[-1] + 500.0, (t[1] + t[2]) / 2]
        gs.append(group(3.5, [ses(f"predict {show(k)} near and far", gp(k, t, noises(rng, 4)), dict(op="cond", y=data(rng, 4)),
                                  dict(op="pred", X=[[a] for a in x]))]))
    # data at whole numbers (given as integers), test points between them
    for sym, sv in [("Matern52", {}), ("SHOunder", {"solver": "par"})]:
        k = leaf(rng, sym)
        t = sorted(rng.randrange(-5, 12) for _ in range(4))
        gs.append(group(3.5, [ses(f"predict {show(k)} integer times", gp(k, t, noises(rng, 4), intx=True, **sv), dict(op="cond", y=data(rng, 4)),
                                  dict(op="pred", X=[[x] for x in queries(rng, t, 6)]), dict(op="condx", X=[[x] for x in queries(rng, t, 6)], y=data(rng, 4)))]))
    return gs


# ---------------------------------------------------------------- C04
def gen_c04(rng, tier, scn):
    big = tier == "thorough"
    gs = []
    P = dict(solver="par")
    for j, k0 in enumerate(structures(rng, scn, 3 if not big else 40, 2 if not big else 24, leaves=7 if not big else None)):
        for n in ([[1, 2, 3, 4, 5, 7, 8, 9][j % 8]] if not big else [1, 2, 3, 4, 5, 6, 7, 8, 9, 13]):
            m = 5 if j % 5 else 1
            ss = []
            for v in range(4 if not big else 8):
                k = redraw(rng, k0) if v else k0
                mode = MODES[(v + j) % len(MODES)]
                t = times(rng, n, mode)
                q = lambda: [[x] for x in queries(rng, t, m)]
                calls = [gp(k, t, noises(rng, n), **P), dict(op="logp", y=data(rng, n)), dict(op="cond", y=data(rng, n)),
                         dict(op="pred", X=q()), dict(op="pred", X=None, tag="predict.atdata")]
                if v == 0:
                    calls += [dict(op="pred", X=q(), y=data(rng, n), tag="predict.y"), dict(op="cond", y=data(rng, n, 10)), dict(op="states")]
                    if j % 3 == 0:
                        calls.append(dict(op="pstate", X=q()))
                    if j % 3 == 1:
                        calls.append(dict(op="condx", X=q(), y=data(rng, n)))
                ss.append(ses(f"parallel {show(k)} N={n} M={m} {mode}", *calls))
            gs.append(group(6 * seg(k0), ss))
    for sym in (["SHOunder"] if not big else LEAVES[1:-1]):
        n = 33
        k = leaf(rng, sym)
        t = times(rng, n, "random")
        gs.append(group(10, [ses(f"parallel {show(k)} N={n}", gp(k, t, noises(rng, n), **P), dict(op="cond", y=data(rng, n)),
                                 dict(op="pred", X=[[x] for x in queries(rng, t, 5)]))]))
    k = leaf(rng, "Matern32")
    t = sorted(rng.randrange(-5, 12) for _ in range(4))
    gs.append(group(5, [ses(f"parallel {show(k)} integer times", gp(k, t, noises(rng, 4), intx=True, **P), dict(op="cond", y=data(rng, 4)))]))
    return gs


# ---------------------------------------------------------------- exposures
def pieces(rng, sched, ni, h, t0=0.0, relabel=True, shuffle=True):
    """Coordinates [t, delta, instrument] of a schedule printed by MCExposure (ticks of h)"""
    used = sorted({o["i"] for o in sched})
    lab = rng.sample(range(ni), len(used)) if relabel else list(range(ni))
    lab = dict(zip(used, lab))
    X = [[t0 + h * (o["s"] + o["e"]) / 2, h * (o["e"] - o["s"]), lab[o["i"]]] for o in sched]
    if shuffle:
        rng.shuffle(X)
    return X


def tied(X):
    """two shutters open at the same moment (or a snapshot at that moment)"""
    st = [x[0] - x[1] / 2 for x in X]
    return len(set(st)) < len(st)


def campaign(rng, n, ni, ts=1.0, t0=0.0, snap=0.15, shuffle=True, short=False):
    """n exposures of ni instruments over overlapping windows, some starting together"""
    h = 2.0**-10
    cur = [rng.uniform(0, 1.5) for _ in range(ni)]
    X, starts = [], []
    while len(X) < n:
        i = rng.randrange(ni) if rng.random() < 0.7 else min(range(ni), key=lambda j: cur[j])
        s = cur[i] + (0 if rng.random() < 0.15 else rng.choice([rng.uniform(0.05, 0.5), rng.uniform(0.3, 3), rng.uniform(1, 12) if rng.random() < 0.2 else 0.1]))
        d = 0.0 if rng.random() < snap else rng.choice([rng.uniform(0.1, 0.5), rng.uniform(0.3, 2.5), 0.25])
        s, d = round(s / (2 * h)) * 2 * h, round(d / (2 * h)) * 2 * h
        together = [x for x in starts if x >= cur[i]]
        if together and rng.random() < 0.25:            # with another instrument
            s = rng.choice(together)
        elif any(0 < abs(s - x) < 0.06 for x in starts):
            cur[i] = s + 0.07
            continue
        starts.append(s)
        X.append([s + d / 2, d, i])
        cur[i] = s + d if d else s + 0.06
    p = 2.0 ** round(math.log2(ts)) if ts != 1.0 else 1.0
    X = [[t0 + x * p, d * p, i] for x, d, i in X]
    if shuffle:
        rng.shuffle(X)
    return X


def ispan(X):
    return min(x[0] - x[1] / 2 for x in X), max(x[0] + x[1] / 2 for x in X)


def iqueries(rng, X, m=6, ts=1.0):
    """times before, inside, between, at the start, middle and end of exposures, and after"""
    lo, hi = ispan(X)
    a = rng.choice(X)
    b = rng.choice([x for x in X if x[1] > 0] or X)
    out = [lo - un(rng, 0.1, 3) * ts, hi + un(rng, 0.1, 4) * ts, a[0], b[0] - b[1] / 2, b[0] + b[1] / 2,
           b[0] + b[1] * un(rng, -0.45, 0.45), rng.uniform(lo, hi), rng.uniform(lo, hi), lo, hi]
    rng.shuffle(out)
    return out[:m]


def igp(k, X, ni, noise, **kw):
    return dict(op="gp", k=k, X=X, ni=ni, noise=noise, **kw)


def exposures(rng, scn, keys, n, ni, count, ts=1.0, free=True):
    """count coordinate lists of n exposures: schedules of MCExposure first, then campaigns"""
    pool = [s for k in keys for s in scn.get(k, []) if len(s) == n and max(o["i"] for o in s) < ni]
    out = []
    for c in range(count):
        h = rng.choice([0.125, 0.25, 0.5, 1.0]) * ts
        t0 = rng.choice([0.0, -3.5, 64.0, 1000.25]) * ts
        if pool and (c % 4 or not free):
            X = pieces(rng, rng.choice(pool), ni, h, t0)
        else:
            X = campaign(rng, n, ni, ts, t0)
        out.append(X)
    return out


def istructures(rng, big, extra=True):
    out = [leaf(rng, s) for s in INTS]
    out[5 % len(out)]["p"][1] = 0.45
    if extra:
        out += [sums([leaf(rng, "IntegratedExp"), leaf(rng, "IntegratedSHOunder")]),
                {"op": "scale", "c": lu(rng, 0.2, 5), "k": leaf(rng, "IntegratedMatern32"), "side": "l"}]
    if big:
        out += [sums([leaf(rng, "IntegratedMatern52"), leaf(rng, "IntegratedSHOover")]),
                sums([{"op": "scale", "c": lu(rng, 0.2, 5), "k": leaf(rng, "IntegratedSHOcrit"), "side": "r"}, leaf(rng, "IntegratedMatern32"), leaf(rng, "IntegratedExp")])]
    return out


def exp_models(tier):
    if tier == "quick":
        return [model("MCExposure", "E2"), model("MCExposure", "E3", MaxObs=3, Check="FALSE")]
    return [model("MCExposure", "E2", KSet="{1,2,3,4}", MaxT=4), model("MCExposure", "E3", MaxObs=3, Check="TRUE"),
            model("MCExposure", "E33", MaxObs=3, NInst=3, Check="FALSE")]


EK = ["E2", "E3", "E33"]


def tname(X):
    return f"N={len(X)} inst={len({x[2] for x in X})}" + (" simultaneous starts" if tied(X) else "")


# ---------------------------------------------------------------- C05
def gen_c05(rng, tier, scn):
    big = tier == "thorough"
    gs = []
    ks = istructures(rng, big) + [leaf(rng, "IntegratedCosine")]
    for j, k0 in enumerate(ks):
        for n, ni, cnt in ([[(2, 2, 7), (3, 2, 9)][j % 2]] + [[(1, 1, 3), (6, 3, 3), (4, 3, 4), (8, 2, 3)][j // 2 % 4]] if not big else
                           [(1, 1, 4), (2, 2, 60), (3, 2, 80), (3, 3, 60), (4, 3, 20), (6, 3, 10), (9, 2, 8), (12, 3, 6)]):
            ss = []
            for v, X in enumerate(exposures(rng, scn, EK, n, ni, cnt)):
                k = redraw(rng, k0)
                calls = [igp(k, X, ni, noises(rng, n)), dict(op="logp", y=data(rng, n))]
                calls += [dict(op="cond", y=data(rng, n))]
                if v % 5 == 0:
                    calls += [dict(op="pred", X=None, tag="predict.atdata")]
                ss.append(ses(f"exposures {show(k)} {tname(X)}", *calls))
            gs.append(group(3.5 * seg(k0), ss))
    # many instruments; mid-exposure times at whole numbers (given as integers); almost no noise
    for j, k0 in enumerate([leaf(rng, "IntegratedExp"), leaf(rng, "IntegratedSHOunder")] if not big else ks):
        n, ni = [(7, 5), (8, 4)][j % 2]
        ss = []
        for v in range(3 if not big else 9):
            k = redraw(rng, k0)
            kw, nz = {}, noises(rng, n)
            X = campaign(rng, n, ni, 1.0, 0.0)
            if v % 3 == 1:
                kw["intx"], X = True, [[3.0 * q + rng.choice([0.0, 1.0]) * (x[2] % 2), rng.choice([0.0, 0.5, 1.0, 1.5, 2.0]), x[2]] for q, x in zip(rng.sample(range(-n, n), n), X)]
            elif v % 3 == 2:
                nz, kw["tol"] = 1e-8, -4
            ss.append(ses(f"exposures {show(k)} {tname(X)} {list(kw)}", igp(k, X, ni, nz, **kw), dict(op="logp", y=data(rng, n)), dict(op="cond", y=data(rng, n)),
                          dict(op="pred", X=[[x] for x in iqueries(rng, X, 4)])))
        gs.append(group(5 * seg(k0), ss))
    return gs


# ---------------------------------------------------------------- C06
def gen_c06(rng, tier, scn):
    big = tier == "thorough"
    gs = []
    for j, k0 in enumerate(istructures(rng, big)):
        for n, ni, cnt in ([[(3, 2, 8), (2, 2, 6), (4, 3, 5), (1, 1, 2), (3, 2, 8), (6, 3, 3), (5, 2, 4), (2, 2, 6)][j % 8]] if not big else
                           [(1, 1, 4), (2, 2, 40), (3, 2, 50), (3, 3, 30), (4, 3, 16), (6, 3, 8), (9, 2, 8)]):
            m = 6 if n != 1 else 1
            ss = []
            Xs = exposures(rng, scn, EK, n, ni, 3 * cnt)[:cnt]
            for v, X in enumerate(Xs):
                k = redraw(rng, k0)
                q = lambda: [[x] for x in iqueries(rng, X, m)]
                calls = [igp(k, X, ni, noises(rng, n)), dict(op="cond", y=data(rng, n)), dict(op="pred", X=q()), dict(op="pred", X=q())]
                if v == 0 and (big or j % 2 == 0):
                    calls += [dict(op="pstate", X=q())]
                if v == 0 and (big or j % 2):
                    calls += [dict(op="pred", X=q(), y=data(rng, n), tag="predict.y")]
                if v == 1 and (big or j % 3 == 0):
                    calls += [dict(op="condx", X=[[x[0], 0.0, rng.randrange(ni)] for x in q()], y=data(rng, n), form="tuple"),
                              dict(op="pred", X=[[x[0], 0.0, rng.randrange(ni)] for x in q()], form="tuple", tag="predict.tuple")]
                ss.append(ses(f"latent {show(k)} {tname(X)} M={m}", *calls))
            gs.append(group(6 * seg(k0), ss))
    return gs


# ---------------------------------------------------------------- C07
def gen_c07(rng, tier, scn):
    big = tier == "thorough"
    gs = []
    ks = istructures(rng, big)
    if not big:
        ks = [ks[0], ks[4], ks[rng.choice([3, 5])], ks[7], sums([leaf(rng, "IntegratedExp"), leaf(rng, "IntegratedMatern32")]), ks[2]]
    plan = [(1, 1, 3), (3, 2, 8), (2, 2, 6), (4, 3, 5), (3, 2, 7), (2, 2, 7)]
    for j, k0 in enumerate(ks):
        for n, ni, cnt in ([plan[j % len(plan)]] if not big else [(1, 1, 4), (2, 2, 40), (3, 2, 50), (4, 3, 16), (5, 2, 10), (8, 3, 8)]):
            m = 5
            ss = []
            for v, X in enumerate(exposures(rng, scn, EK, n, ni, cnt)):
                k = redraw(rng, k0)
                q = lambda: [[x] for x in iqueries(rng, X, m)]
                calls = [igp(k, X, ni, noises(rng, n), solver="par"), dict(op="logp", y=data(rng, n))]
                calls += [dict(op="cond", y=data(rng, n)), dict(op="pred", X=q())]
                if v == 0:
                    extra = [dict(op="states"), dict(op="pred", X=None, tag="predict.atdata"), dict(op="pstate", X=q())]
                    calls += extra if big else [extra[j % 3]]
                ss.append(ses(f"parallel exposures {show(k)} {tname(X)}", *calls))
            gs.append(group(18 * seg(k0), ss))
    k0 = leaf(rng, "IntegratedMatern32")
    gs.append(group(15, [ses(f"parallel exposures {show(k)} {tname(X)}", igp(k, X, 4, noises(rng, 7), solver="par"), dict(op="logp", y=data(rng, 7)), dict(op="cond", y=data(rng, 7)))
                         for k, X in [(redraw(rng, k0), campaign(rng, 7, 4, 1.0, 0.0)) for _ in range(2 if not big else 8)]]))
    return gs


# ---------------------------------------------------------------- C08
def lags(rng, ts=1.0):
    base = rng.choice([0.0, -7.5, 1000.0])
    A = [base + x * ts for x in (0.0, un(rng, 0.01, 1), un(rng, 1, 6), un(rng, 6, 40))]
    B = [A[rng.randrange(4)], base + un(rng, -30, 0) * ts, base + un(rng, 0, 5) * ts, A[1] + 1e-4 * ts, A[0] + 300 * ts]
    rng.shuffle(A)
    rng.shuffle(B)
    return [[x] for x in A], [[x] for x in B]


UNDAMPED = ("Constant", "Cosine", "ExpSineSquared", "IntegratedCosine")


def gen_c08(rng, tier, scn):
    big = tier == "thorough"
    gs = []
    fams = [(s, None) for s in LEAVES if s != "ESS"] + [("ESS", o) for o in (0, 1, 2, 3, 5, 12, 20)] + [(s, None) for s in INTS + ["IntegratedCosine"]]
    if big:
        fams += [("ESS", o) for o in (4, 6, 8, 24)]
    for sym, o in fams:
        ss = []
        for v in range(6 if not big else 60):
            ts = 1.0 if v < 3 else rng.choice([1e-3, 40.0, 3e3])
            k = leaf(rng, sym, order=o, ts=ts)
            if sym == "ESS" and v % 3 == 2:
                k["p"][1] = lu(rng, 4, 300) if o and o >= 8 else lu(rng, 2, 60)
            if v == 1 and not sym.startswith("SHO") and "SHO" not in sym:
                k["p"][-1], k["dflt"] = 1.0, True
            A, B = lags(rng, ts)
            conv = "array" if v % 3 else rng.choice(["float", "np", "array"])
            jit = {"how": "jit"} if v % 3 else {}
            calls = [dict(op="eval", k=k, X1=A, X2=B, conv=conv, **jit), dict(op="diag", k=k, X1=A, conv=conv, **jit)]
            if v == 0:
                calls += [dict(op="eval", k=k, X1=A[:2], X2=B[:2], how="pair", conv=conv, tag="evaluate.pair"),
                          dict(op="eval", k=k, X1=A[:1], X2=B[:2], how="float", conv=conv, tag="evaluate.number"),
                          dict(op="diag", k=k, X1=A[:2], how="pair", conv=conv)]
            if k["fam"] not in UNDAMPED and v % 2 == 0 and not k["fam"].startswith("Integrated"):
                calls.append(dict(op="psd", k=k, w=[0.0, un(rng, 0.01, 1) / ts, un(rng, 1, 9) / ts, -un(rng, 0.5, 3) / ts]))
            ss.append(ses(f"covariance {show(k)} {k['p']}", *calls))
        gs.append(group(12 if sym.startswith("IntegratedSHO") else 4 if sym.startswith("Int") or sym == "ESS" else 2, ss))
    ss = []
    for v in range(8 if not big else 40):                # around critical damping, where the formulas change
        k = leaf(rng, "SHOcrit")
        k["p"][1] = 0.5 * (1 + (-1) ** v * lu(rng, 3e-5 * 6 ** (v // 2 % 4), 18e-5 * 6 ** (v // 2 % 4)))
        A, B = lags(rng)
        ss.append(ses(f"near-critical {show(k)} {k['p']}", dict(op="eval", k=k, X1=A, X2=B, how="jit")))
    gs.append(group(3, ss))
    # the generic half-integer Matern class (not compilable: plain evaluation only)
    ss = []
    for v, sym in enumerate(["Exp", "Matern32", "Matern52", "Matern72"] * (2 if not big else 12)):
        ts = 1.0 if v < 4 else rng.choice([1e-5, 1e-3, 40.0, 1e5])
        k = dict(leaf(rng, sym, ts=ts), generic=True)
        A, B = lags(rng, ts)
        B[0] = [B[1][0] + 1e6 * ts]
        ss.append(ses(f"generic {show(k)} {k['p']}", dict(op="eval", k=k, X1=A[:2], X2=B[:2], how="pair"), dict(op="diag", k=k, X1=A[:2], how="pair")))
    return gs + [group(6, ss)]


# ---------------------------------------------------------------- C09
def gen_c09(rng, tier, scn):
    big = tier == "thorough"
    gs = []
    fams = [(s, None) for s in LEAVES if s != "ESS"] + [("ESS", o) for o in (0, 1, 2, 3, 5)]
    for sym, o in fams:
        ss = []
        for v in range(14 if not big else 80):
            ts = 1.0 if v < 9 else rng.choice([1e-3, 40.0, 3e3])
            k = leaf(rng, sym, order=o, ts=ts)
            if sym == "ESS" and v % 3 == 2:
                k["p"][1] = lu(rng, 2, 60)
            x1 = rng.choice([0.0, un(rng, -5, 5), 100.0]) * ts
            dt = [0.0, 1.0, un(rng, 0.01, 0.1), un(rng, 0.1, 2), un(rng, 2, 9), un(rng, 20, 90), 1e-3, 400.0][v % 8] * ts
            c = dict(op="mats", k=k, x1=x1, x2=x1 + dt, conv="array" if v % 3 else rng.choice(["float", "np"]), xarr=v % 4 != 1)
            if sym == "Constant":
                c["vl"] = True
            ss.append(ses(f"matrices {show(k)} {k['p']} dt={dt}", c))
        gs.append(group(2, ss))
    # around critical damping, where the formulas change
    ss = []
    for v in range(12 if not big else 60):
        k = leaf(rng, "SHOcrit")
        k["p"][1] = 0.5 * (1 + (-1) ** v * lu(rng, 3e-5 * 4 ** (v // 2 % 6), 12e-5 * 4 ** (v // 2 % 6)))
        x1 = un(rng, -5, 5)
        ss.append(ses(f"near-critical {show(k)} {k['p']}", dict(op="mats", k=k, x1=x1, x2=x1 + un(rng, 0.5, 6))))
    gs.append(group(3, ss))
    ss = []
    for v, sym in enumerate(["Exp", "Matern32", "Matern52", "Matern72"] * (2 if not big else 12)):
        ts = 1.0 if v < 4 else rng.choice([1e-5, 1e-3, 40.0, 1e5])
        k = dict(leaf(rng, sym, ts=ts), generic=True)
        x1 = un(rng, -5, 5) * ts
        dt = [0.0, un(rng, 0.01, 0.1), un(rng, 0.1, 2), un(rng, 2, 9), 60.0, 1e6][(v + v // 4) % 6] * ts
        ss.append(ses(f"generic {show(k)} {k['p']} dt={dt}", dict(op="mats", k=k, x1=x1, x2=x1 + dt, vl=True)))
    return gs + [group(5, ss)]


# ---------------------------------------------------------------- C10
def gen_c10(rng, tier, scn):
    big = tier == "thorough"
    gs = []
    comps = structures(rng, scn, 22 if not big else 120, 12 if not big else 100, maxdim=9 if not big else 12)[10:]
    for j, k0 in enumerate(comps):
        ss = []
        for v in range(2 if not big else 6):
            k = redraw(rng, k0) if v else k0
            if v and k["op"] == "sum":
                k = dict(k, py=True)           # the sum() of a list of kernels
            A, B = lags(rng)
            x1 = un(rng, -3, 3)
            calls = [dict(op="eval", k=k, X1=A, X2=B, conv="array" if v else "float"), dict(op="diag", k=k, X1=A)]
            if dim(k) <= 8:
                calls += [dict(op="mats", k=k, x1=x1, x2=x1 + d) for d in (un(rng, 0.05, 3), rng.choice([0.0, un(rng, 3, 40)]))]
            if not any(f in str(k) for f in UNDAMPED) and dim(k) <= 6:
                calls.append(dict(op="psd", k=k, w=[0.0, un(rng, 0.1, 2), -un(rng, 0.5, 3)]))
            if j % 4 == 0 and v == 0:
                t = times(rng, 3)
                calls += [gp(k, t, noises(rng, 3)), dict(op="cond", y=data(rng, 3))]
            ss.append(ses(f"algebra {show(k)}", *calls))
        gs.append(group(3 * seg(k0), ss))
    # sums and scales of integrated kernels
    for k0 in [sums([leaf(rng, "IntegratedExp"), leaf(rng, "IntegratedMatern32")]), {"op": "scale", "c": 2.5, "k": leaf(rng, "IntegratedSHOunder"), "side": "l"},
               sums([{"op": "scale", "c": 0.3, "k": leaf(rng, "IntegratedMatern52"), "side": "r"}, leaf(rng, "IntegratedSHOover")])]:
        A, B = lags(rng)
        gs.append(group(3, [ses(f"algebra {show(k0)}", dict(op="eval", k=k0, X1=A, X2=B), dict(op="diag", k=k0, X1=A))]))
    return gs


# ---------------------------------------------------------------- C11
def gen_c11(rng, tier, scn):
    big = tier == "thorough"
    gs = []
    for sym in INTS + ["IntegratedCosine"]:
        ss = []
        for v in range(12 if not big else 60):
            ts = 1.0 if v < 8 else rng.choice([0.01, 40.0, 3e3])
            k = leaf(rng, sym, ts=ts)
            ni = [1, 2, 3, 4][v % 4]
            x1 = rng.choice([0.0, un(rng, -5, 5), 50.0]) * ts
            dt = [un(rng, 0.01, 0.1), 1.0, un(rng, 0.1, 2), un(rng, 2, 9), un(rng, 9, 40), 0.003, 0.0][v % 7] * ts
            if "SHO" in sym and "crit" not in sym and v % 6 == 4:   # almost critical, and no tiny steps
                k["p"][1] = 0.5 * (1 + lu(rng, 3e-5, 3e-3) * (1 if "under" in sym else -1))
                dt = un(rng, 0.3, 9) * ts
            c = dict(op="imats", k=k, ni=ni, inst=rng.randrange(ni), d=lu(rng, 0.05, 5) * ts, x1=x1, x2=x1 + dt)
            if v % 2 and sym not in ("IntegratedSHOcrit",):
                c["num"] = True
            ss.append(ses(f"augmented {show(k)} ni={ni} dt={dt}", c))
        gs.append(group(3, ss))
    return gs


def gen_c21(rng, tier, scn):
    """dense kernels of exposures"""
    big = tier == "thorough"
    gs = []
    pool = [s for key in EK for s in scn.get(key, []) if len(s) >= 2]
    for v in range(24 if not big else 150):
        h = rng.choice([0.125, 0.25, 0.5, 1.0])
        X = pieces(rng, rng.choice(pool), 2, h, rng.choice([0.0, 7.5])) if v % 3 else campaign(rng, 4, 2)
        X += [[x, 0.0, 0] for x in iqueries(rng, X, 2)]
        fam = "IntegratedSHO"
        k = {"op": "leaf", "fam": fam, "p": [lu(rng, 0.5, 4), rng.choice([0.6, 1.0, 3.0, lu(rng, 0.55, 15)]), lu(rng, 0.4, 2.5)]}
        how = "swq" if v % 2 else "rhotau"
        ss = [ses(f"dense integrated SHO {k['p']} {how}", dict(op="dense", k=k, X1=X, X2=X, how=how))]
        k2 = dict(k, fam="SHO")
        A, B = lags(rng)
        ss += [ses(f"dense SHO {k['p']} {how}", dict(op="dense", k=k2, X1=A, X2=B, how=how, form="array"))]
        gs.append(group(1.5, ss))
    return gs


# ---------------------------------------------------------------- C12
def gen_c12(rng, tier, scn):
    big = tier == "thorough"
    gs = []
    L = lambda s, **kw: leaf(rng, s, **kw)
    sc = lambda k: {"op": "scale", "c": lu(rng, 0.2, 5), "k": k, "side": rng.choice("lr")}
    pr = lambda a, b: {"op": "prod", "l": a, "r": b}
    sm = lambda a, b: {"op": "sum", "l": a, "r": b}
    shapes = [lambda f: sm(L(f()), L(f())), lambda f: sm(sm(L(f()), L(f())), L(f())), lambda f: sm(L(f()), sm(L(f()), L(f()))),
              lambda f: sm(sc(L(f())), L(f())), lambda f: sm(pr(L(f()), L(f())), L(f())), lambda f: sm(L(f()), sc(pr(L(f()), L(f())))),
              lambda f: sm(sm(L(f()), sc(L(f()))), sm(L(f()), L(f()))), lambda f: sc(sm(L(f()), L(f()))), lambda f: L(f()), lambda f: pr(L(f()), L(f()))]
    simple = ["Exp", "Matern32", "SHOunder", "Cosine", "Constant", "SHOover"]

    def calls_for(rng, k, g, n, q, j, v):
        names = partnames(k)
        nv = {"novar": True} if (j + v) % 2 else {}       # means asked for alone
        cs = [g, dict(op="cond", y=data(rng, n)), dict(op="comps", **nv)]
        if v == 0:
            cs.append(dict(op="comps", X=q(), tag="components.test", **nv))
        nm = rng.choice(names)
        pair = rng.sample(names, rng.randint(2, len(names))) if len(names) > 1 else [nm]
        cs += [dict(op="pred", X=None, comp=[nm], how="component", tag="component.mean", **nv),
               dict(op="pred", X=None, comp=pair, how="component", tag="components.joint"),
               dict(op="pred", X=None, comp=[nm], tag="predict.component.atdata")]
        if v == 0:
            cs += [dict(op="pred", X=q(), comp=[nm], tag="predict.component"),
                   dict(op="pred", X=q(), comp=pair, how="state", tag="predict.state.components", **nv),
                   dict(op="pred", X=q(), y=data(rng, n), comp=[nm], tag="predict.y.component")]
        if v == 0 and j % 3 == 0:
            cs.append(dict(op="pred", X=q(), comp=[nm], how="object", tag="predict.component.object"))
        if v == 0 and j % 3 == 1 and g.get("ni") is None:
            cs.append(dict(op="condx", X=q(), y=data(rng, n), comp=[nm]))
        return cs

    for j in range(12 if not big else 60):
        sh = shapes[j % len(shapes)]
        same = rng.choice(simple)
        f = (lambda: same) if j % 3 == 0 else (lambda: rng.choice(simple))
        k0 = sh(f)
        n = [3, 2, 5, 1][j % 4]
        ss = []
        for v in range(3):
            k = redraw(rng, k0) if v else k0
            if v == 2:
                k = rename(rng, k)
            t = times(rng, n)
            q = lambda: [[x] for x in queries(rng, t, 4)]
            ss.append(ses(f"components {show(k)} N={n}", *calls_for(rng, k, gp(k, t, noises(rng, n), **({"solver": "par"} if j % 5 == 4 else {})), n, q, j, v)))
        gs.append(group(9 * seg(k0), ss))
    isimple = ["IntegratedExp", "IntegratedMatern32", "IntegratedSHOunder", "IntegratedMatern52"]
    ishapes = [shapes[0], shapes[3], shapes[1], shapes[8]]
    for j in range(4 if not big else 16):
        same = rng.choice(isimple)
        f = (lambda: same) if j % 2 == 0 else (lambda: rng.choice(isimple))
        k0 = ishapes[j % len(ishapes)](f)
        n, ni = [(3, 2), (2, 1), (4, 2), (3, 3)][j % 4]
        ss = []
        for v, X in enumerate(exposures(rng, scn, EK, n, ni, 12)[:2]):
            k = redraw(rng, k0) if v else k0
            q = lambda: [[x] for x in iqueries(rng, X, 4)]
            ss.append(ses(f"components {show(k)} {tname(X)}", *calls_for(rng, k, igp(k, X, ni, noises(rng, n)), n, q, j, v)))
        gs.append(group(14 * seg(k0), ss))
    return gs


def rename(rng, k):
    """give some leaves names, some of them equal"""
    if "name" in k or k["op"] == "leaf":
        return dict(k, name=rng.choice(["a", "a", "b", "trend", "a_1"])) if rng.random() < 0.8 else k
    if k["op"] == "scale":
        return dict(k, k=rename(rng, k["k"]))
    return dict(k, l=rename(rng, k["l"]), r=rename(rng, k["r"]))


def rawname(k):
    if k["op"] in ("leaf", "basis", "obs", "int"):
        return k.get("name") or k["fam"]
    if k["op"] == "scale":
        return "Scale(%s)" % rawname(k["k"])
    return "%s(%s, %s)" % ("Sum" if k["op"] == "sum" else "Product", rawname(k["l"]), rawname(k["r"]))


def partnames(k):
    """the names of the components (inputs for addressing them; the specification judges the replies)"""
    def parts(x):
        return parts(x["l"]) + parts(x["r"]) if x["op"] == "sum" else [rawname(x)]
    ns = parts(k)
    taken, used, out = set(ns), {}, []
    for n in ns:
        if ns.count(n) == 1:
            out.append(n)
            continue
        used[n] = used.get(n, 0) + 1
        while f"{n}_{used[n]}" in taken:
            used[n] += 1
        taken.add(f"{n}_{used[n]}")
        out.append(f"{n}_{used[n]}")
    return out


# ---------------------------------------------------------------- C13
def gen_c13(rng, tier, scn):
    big = tier == "thorough"
    trees = [t for t in scn.get("MCNaming", [])]
    rng.shuffle(trees)
    fam = {"A": "Exp", "B": "Matern32", "A_1": "Constant"}

    def mk(t, integ=False):
        if t["op"] == "leaf":
            f = ("Integrated" if integ else "") + (rng.choice(["Exp", "Matern32"]) if integ else rng.choice(["Exp", "Matern32", "Constant", "Cosine"]))
            k = leaf(rng, f)
            k["name"] = t["name"]
            return k
        if t["op"] == "scale":
            return {"op": "scale", "c": 2.0, "k": mk(t["k"], integ), "side": rng.choice("lr")}
        return {"op": t["op"], "l": mk(t["l"], integ), "r": mk(t["r"], integ)}
    gs = []
    n = 500 if not big else len(trees)
    for i in range(0, min(n, len(trees)), 20):
        gs.append(group(1, [ses("names " + json.dumps(t), dict(op="names", k=mk(t))) for t in trees[i:i + 20]]))
    # default names: every pair and triple of families with repeats
    for i in range(0, 60, 20):
        ss = []
        for _ in range(20):
            ks = [leaf(rng, rng.choice(["Exp", "Matern32", "Constant", "SHOunder", "Cosine"])) for _ in range(rng.choice([1, 2, 3, 4, 5]))]
            if rng.random() < 0.4:
                ks = [dict(k, name=rng.choice(["Exp", "Exp_1", "Matern32_2", "Product(Exp, Exp)"])) if rng.random() < 0.5 else k for k in ks]
            while len(ks) > 1:
                a = rng.randrange(len(ks) - 1)
                ks[a:a + 2] = [{"op": rng.choice(["sum", "sum", "prod"]), "l": ks[a], "r": ks[a + 1]}]
                if rng.random() < 0.2:
                    ks[a] = {"op": "scale", "c": 3.0, "k": ks[a], "side": "l"}
            ss.append(ses("names " + rawname(ks[0]), dict(op="names", k=ks[0])))
        gs.append(group(1, ss))
    # addressing components through the conditioned GP
    deep = [t for t in trees if t["op"] == "sum"][:12 if not big else 60]
    for t in deep:
        integ = "prod" not in json.dumps(t) and rng.random() < 0.4
        k = mk(t, integ)
        if not integ:
            X = times(rng, 2, "random")
            g = gp(k, X, 0.1)
        else:
            X = campaign(rng, 2, 1)
            g = igp(k, X, 1, 0.1)
        gs.append(group(5, [ses("addressing " + json.dumps(t), g, dict(op="cond", y=data(rng, 2)), dict(op="comps"),
                                *[dict(op="pred", X=None, comp=[nm], how="component", tag="component.mean") for nm in partnames(k)])]))
    return gs


# ---------------------------------------------------------------- C14
def gen_c14(rng, tier, scn):
    big = tier == "thorough"
    gs = []
    for j, k0 in enumerate(structures(rng, scn, 4 if not big else 30, 0 if not big else 12, maxdim=6, leaves=6 if not big else None)):
        for n in ([SIZES[j % 4] + 1] if not big else [1, 2, 3, 5, 8]):
            ss = []
            for v in range(3 if not big else 6):
                k = redraw(rng, k0) if v else k0
                t = times(rng, n)
                calls = [gp(k, t, noises(rng, n), **({"solver": "par"} if j % 4 == 3 else {})), dict(op="cond", y=data(rng, n)), dict(op="states"), dict(op="datastate")]
                if v == 0:
                    calls.append(dict(op="pstate", X=[[x] for x in queries(rng, t, 5)]))
                elif v == 1:
                    calls.append(dict(op="states", via="solver"))
                ss.append(ses(f"states {show(k)} N={n}", *calls))
            gs.append(group(4 * seg(k0), ss))
    iks = istructures(rng, big)
    for j, k0 in enumerate(iks if big else rng.sample(iks, 6)):
        for n, ni, cnt in ([[(3, 2, 4), (2, 2, 4), (4, 3, 2), (5, 2, 2)][j % 4]] if not big else [(1, 1, 3), (2, 2, 20), (3, 2, 30), (4, 3, 10), (6, 2, 4)]):
            ss = []
            for v, X in enumerate(exposures(rng, scn, EK, n, ni, 3 * cnt)[:cnt]):
                k = redraw(rng, k0)
                calls = [igp(k, X, ni, noises(rng, n), **({"solver": "par"} if j % 3 == 2 else {})), dict(op="cond", y=data(rng, n)), dict(op="states"), dict(op="datastate")]
                if v == 0:
                    calls.append(dict(op="pstate", X=[[x] for x in iqueries(rng, X, 5)]))
                elif v == 1:
                    calls.append(dict(op="states", via="solver"))
                ss.append(ses(f"states {show(k)} {tname(X)}", *calls))
            gs.append(group(5 * seg(k0), ss))
    return gs


# ---------------------------------------------------------------- C15
def gen_c15(rng, tier, scn):
    big = tier == "thorough"
    pool = list(scn["MCSession"])
    rng.shuffle(pool)
    # half of them on one object that is conditioned again when it is already, and then read
    again = [s for s in pool if len({c["g"] for c in s}) == 1 and s[-1]["op"] in ("pred", "data", "comps")
             and any(c["on"] == "cond" and c["op"].startswith("cond") for c in s)]
    pool = [s for pr in zip(again * (1 + len(pool) // max(1, len(again))), pool) for s in pr]
    L = lambda s: leaf(rng, s)
    gs = []
    # (kernel of GP 1, kernel of GP 2, solver kinds)
    kinds = [(lambda: L("Matern32"), lambda: L("Matern32"), {}, {}),
             (lambda: sums([L("Exp"), L("SHOunder")]), lambda: sums([L("Exp"), L("SHOunder")]), {}, {"solver": "par"}),
             (lambda: L("IntegratedExp"), lambda: L("IntegratedExp"), {}, {}),
             (lambda: sums([L("IntegratedExp"), L("IntegratedMatern32")]), lambda: L("Exp"), {}, {}),
             (lambda: L("Cosine"), lambda: L("SHOover"), {}, {}),
             (lambda: L("ESS"), lambda: L("Constant"), {}, {})]
    per = 12 if not big else 120
    for kj, (k1, k2, s1, s2) in enumerate(kinds):
        ss = []
        n = [3, 2, 3, 2, 4, 1][kj]
        for v in range(per):
            seq = pool[(kj * per + v) % len(pool)]
            ks = [k1(), k2()]
            cfgs, qs = [], []
            for k, s in zip(ks, (s1, s2)):
                if '"Integrated' in json.dumps(k):
                    X = campaign(rng, n, 2)
                    cfgs.append(igp(k, X, 2, noises(rng, n, scalar=False), **s))
                    qs.append([[x] for x in iqueries(rng, X, 4)])
                else:
                    t = times(rng, n)
                    cfgs.append(gp(k, t, noises(rng, n, scalar=False), **s))
                    qs.append([[x] for x in queries(rng, t, 4)])
            ys = [data(rng, n), data(rng, n, 3)]
            calls = [dict(op="use", slot=1), cfgs[0], dict(op="use", slot=2), cfgs[1]]
            cur = 2
            for c in seq:
                g, y = c["g"], ys[c["y"] - 1]
                if cur != g:
                    calls.append(dict(op="use", slot=g))
                    cur = g
                q = qs[g - 1]
                integ = "ni" in cfgs[g - 1]
                on = c["on"]
                calls.append({"logp": dict(op="logp", y=y, on=on), "cond": dict(op="cond", y=y, on=on),
                              "condx": dict(op="condx", X=[x + [0.0, 0] for x in q[:1 + v % 5]] if integ else q[:1 + v % 5], y=y, on=on, keep=True, **({"form": "tuple"} if integ else {})),
                              "predy": dict(op="pred", X=q, y=y, tag="predict.y"), "pred": dict(op="pred", X=q),
                              "data": dict(op="pred", X=None, tag="predict.atdata"), "comps": dict(op="comps")}[c["op"]])
            # the GP that was there first still answers as if nothing had happened
            calls += [dict(op="use", slot=3), dict(op="share", slot=1), dict(op="logp", y=ys[0]), dict(op="cond", y=ys[1]),
                      dict(op="use", slot=1), dict(op="logp", y=ys[1])]
            ss.append(ses(f"session {json.dumps(seq)}", *calls))
        gs.append(group(14, ss[:per // 2]))
        gs.append(group(14, ss[per // 2:]))
    # jit and vmap do not change answers
    for k0, kw in [(L("Matern52"), {}), (L("SHOunder"), {"solver": "par"}), (sums([L("Exp"), L("Cosine")]), {})]:
        t = times(rng, 4, "random")
        gs.append(group(8, [ses(f"jit/vmap {show(k0)}", gp(k0, t, noises(rng, 4, scalar=False), **kw), dict(op="logp", y=data(rng, 4), how="jit"),
                                dict(op="vmap", ys=[data(rng, 4) for _ in range(3)]), dict(op="vmapk", y=data(rng, 4), ss=[0.7, 1.0, 1.6]) if not kw else dict(op="logp", y=data(rng, 4)),
                                dict(op="cond", y=data(rng, 4)), dict(op="pred", X=[[x] for x in queries(rng, t, 4)], how="jit", tag="predict.jit"))]))
    X = campaign(rng, 3, 2)
    k0 = L("IntegratedMatern32")
    gs.append(group(10, [ses(f"jit/vmap {show(k0)}", igp(k0, X, 2, noises(rng, 3, scalar=False)), dict(op="logp", y=data(rng, 3), how="jit"),
                             dict(op="vmap", ys=[data(rng, 3) for _ in range(3)]), dict(op="cond", y=data(rng, 3)),
                             dict(op="pred", X=[[x] for x in iqueries(rng, X, 4)], how="jit", tag="predict.jit"))]))
    return gs


# ---------------------------------------------------------------- C16
def gen_c16(rng, tier, scn):
    big = tier == "thorough"
    gs = []
    syms = ["IntegratedExp", "IntegratedSHOunder", "IntegratedMatern32"] if not big else INTS
    for j, sym in enumerate(syms):
        for n, ni, cnt in ([(2, 2, 8), (3, 2, 12), (4, 4, 4)] if not big else [(2, 2, 60), (3, 2, 100), (3, 3, 80), (5, 4, 20), (8, 3, 8)]):
            for solver in (["seq", "par"] if (j == 0 and n == 3) or big and n <= 3 else ["seq"]):
                ss = []
                k0 = leaf(rng, sym)
                for v, X in enumerate(exposures(rng, scn, EK, n, ni, cnt)):
                    k = redraw(rng, k0)
                    nz, y = noises(rng, n, scalar=False), data(rng, n)
                    order = list(range(n))
                    calls = []
                    for rep in range(2):
                        lab = list(range(ni))
                        if rep:
                            rng.shuffle(order)
                            rng.shuffle(lab)
                        Xr = [[X[o][0], X[o][1], lab[X[o][2]]] for o in order]
                        calls += [igp(k, Xr, ni, [nz[o] for o in order], solver=solver), dict(op="logp", y=[y[o] for o in order])]
                        calls += [dict(op="cond", y=[y[o] for o in order]), dict(op="states", full=False)]
                    ss.append(ses(f"bookkeeping {show(k)} {tname(X)} {solver}", *calls))
                gs.append(group(5 if solver == "seq" else 14, ss))
    return gs


# ---------------------------------------------------------------- C17
def gen_c17(rng, tier, scn):
    big = tier == "thorough"
    gs = []
    ks = [leaf(rng, s) for s in LEAVES if s != "ESS"] + [leaf(rng, "ESS", order=2), sums([leaf(rng, "Matern32"), leaf(rng, "SHOunder")])]
    if big:
        ks += [sums([leaf(rng, "Exp"), leaf(rng, "SHOover")]), {"op": "prod", "l": leaf(rng, "Exp"), "r": leaf(rng, "Cosine")}]
    for j, k0 in enumerate(ks):
        ss = []
        n = 4
        for v, (ts, ss_) in enumerate([(1e-4, 1.0), (3e5, 1.0), (1.0, 1e-5), (1.0, 2e4), (86400.0, 1e3), (1e-3, 1e-3), (1e-9, 30.0), (1e8, 1.0)] * (1 if not big else 6)):
            k = redraw(rng, k0, ts, ss_ if k0["op"] == "leaf" else math.sqrt(1) * ss_)
            t = times(rng, n, ["random", "ties", "clusters", "wide", "negative"][v % 5], ts)
            calls = [gp(k, t, noises(rng, n, ss_)), dict(op="cond", y=data(rng, n, ss_)), dict(op="pred", X=[[x] for x in queries(rng, t, 4, ts)])]
            ss.append(ses(f"units {show(k)} time {ts} amplitude {ss_}", *calls))
        # the origin of time
        for o in (0.0, 2.0**20, -2.0**16):
            k = redraw(rng, k0)
            t = [round(x * 64) / 64 + o for x in times(rng, n, "random")]
            ss.append(ses(f"origin {o} {show(k)}", gp(k, t, noises(rng, n)), dict(op="cond", y=data(rng, n)), dict(op="pred", X=[[x] for x in queries(rng, t, 4)])))
        gs.append(group(4 * seg(k0), ss))
    for j, sym in enumerate(INTS):
        ss = []
        k0 = leaf(rng, sym)
        n, ni = 3, 2
        for v, (ts, ss_) in enumerate([(2.0**-10, 1.0), (2.0**17, 1.0), (1.0, 1e-4), (1.0, 1e3), (2.0**-26, 1.0), (2.0**28, 1e2)] * (1 if not big else 6)):
            k = redraw(rng, k0, ts, ss_)
            X = campaign(rng, n, ni, ts)
            ss.append(ses(f"units {show(k)} time {ts} amplitude {ss_}", igp(k, X, ni, noises(rng, n, ss_)), dict(op="cond", y=data(rng, n, ss_)),
                          dict(op="pred", X=[[x] for x in iqueries(rng, X, 4, ts)])))
        for h in [2.0**-5, 2.0**-8] * (1 if not big else 6):         # exposures much shorter than the process
            k = redraw(rng, k0)
            X = [[x, d * h, i] for x, d, i in campaign(rng, n, ni)]
            ss.append(ses(f"short exposures {show(k)} {h}", igp(k, X, ni, noises(rng, n), tol=-3), dict(op="cond", y=data(rng, n)),
                          dict(op="pred", X=[[x] for x in iqueries(rng, X, 4)])))
        gs.append(group(6 * seg(k0), ss))
    return gs


# ---------------------------------------------------------------- C18
def wrts(rng, k, n, kinds=("noise", "y", "t")):
    out = []
    j = [0]

    def walk(x):
        if x["op"] == "leaf":
            j[0] += 1
            for q in range(len(x["p"])):
                if x["fam"].endswith("SHO") and q == 1 and x["p"][1] == 0.5:
                    continue
                out.append(dict(kind="param", leaf=j[0], q=q + 1))
        elif x["op"] == "scale":
            j[0] += 1
            out.append(dict(kind="param", leaf=j[0], q=1))
            walk(x["k"])
        elif x["op"] in ("obs", "int"):
            walk(x["k"])
        elif x["op"] == "basis":
            j[0] += 1
        else:
            walk(x["l"])
            walk(x["r"])
    walk(k)
    for kind in ("noise", "y", "t", "texp"):
        if kind in kinds:
            out += [dict(kind=kind, q=q + 1) for q in range(n)]
    return out


def gen_c18(rng, tier, scn):
    big = tier == "thorough"
    gs = []
    ks = [leaf(rng, s) for s in LEAVES if s not in ("ESS",)] + [leaf(rng, "ESS", order=2), sums([leaf(rng, "Matern32"), leaf(rng, "SHOunder")]),
         {"op": "prod", "l": leaf(rng, "Exp"), "r": leaf(rng, "Cosine")}, {"op": "scale", "c": 1.7, "k": leaf(rng, "Matern52"), "side": "r"}]
    if big:
        ks += structures(rng, scn, 12, 6, maxdim=6)
    for j, k0 in enumerate(ks):
        n = [2, 3, 1, 4][j % 4]
        ss = []
        for v in range(2 if not big else 5):
            k = redraw(rng, k0) if v else k0
            t = sorted({round(un(rng, 0.1, 1.5 * n) + 0.37 * i, 3) for i in range(n)})
            while len(t) < n:
                t.append(t[-1] + 0.5)
            ss.append(ses(f"gradient {show(k)} N={n}", gp(k, t, noises(rng, n, scalar=False), tol=-6),
                          dict(op="grad", y=[v_ or 0.1 for v_ in data(rng, n)], wrt=wrts(rng, k, n), mode="fwd" if j % 5 == 4 else "rev")))
        gs.append(group(5 * seg(k0), ss))
    for j, (sym, sv) in enumerate([("Matern32", "par"), ("SHOunder", "par")]):
        k = leaf(rng, sym)
        t = [0.3, 1.1, 2.75]
        gs.append(group(8, [ses(f"gradient parallel {show(k)}", gp(k, t, noises(rng, 3, scalar=False), tol=-6, solver=sv),
                                dict(op="grad", y=[v_ or 0.1 for v_ in data(rng, 3)], wrt=wrts(rng, k, 3)))]))
    for j, sym in enumerate(INTS if big else INTS):
        k = leaf(rng, sym)
        X = campaign(rng, 2 if j % 2 else 3, 2, snap=0)
        n = len(X)
        gs.append(group(10, [ses(f"gradient {show(k)} {tname(X)}", igp(k, X, 2, noises(rng, n, scalar=False), tol=-5),
                                 dict(op="grad", y=[v_ or 0.1 for v_ in data(rng, n)], wrt=wrts(rng, k, n, ("noise", "y")), mode="rev" if j else "fwd"))]))
    # data at the same moment (not with respect to the times, which have kinks there)
    for j, sym in enumerate(["Matern32", "SHOunder", "SHOcrit", "SHOover", "Exp", "Cosine", "Matern52"] if big else ["Matern32", "SHOover", "SHOunder"]):
        k = leaf(rng, sym)
        n = 4
        gs.append(group(8, [ses(f"gradient ties {show(k)}", gp(k, [0.4, 0.4, 1.3, 1.3], noises(rng, n, scalar=False), tol=-6, solver="par" if j % 2 else "seq"),
                                dict(op="grad", y=[v_ or 0.1 for v_ in data(rng, n)], wrt=wrts(rng, k, n, ("noise", "y"))))]))
    # mid-times and exposure times; both solvers; sums; integrals of composite models; snapshots
    iks = [leaf(rng, INTS[j % len(INTS)]) for j in range(3)] + [sums([leaf(rng, "IntegratedExp"), leaf(rng, "IntegratedSHOunder")]),
           {"op": "int", "k": sums([leaf(rng, "Matern32"), leaf(rng, "Exp")]), "name": "Integral"}, {"op": "scale", "c": 1.3, "k": leaf(rng, "IntegratedMatern32"), "side": "l"}]
    for j, k in enumerate(iks + [redraw(rng, k) for k in iks] * (3 if big else 0)):
        n = [3, 4, 2][j % 3]
        ni = [2, 1, 3][j % 3]
        edges, X = [un(rng, -0.5, 0.5)], []
        for i in range(n):
            d = round(un(rng, 0.15, 0.9), 3)
            edges.append(edges[-1] + un(rng, 0.95 / ni, 1.3 / ni))   # exposures of one instrument do not overlap
            X.append([round(edges[-1], 3), d, i % ni])
        while len({e for x in X for e in (round(x[0] - x[1] / 2, 6), round(x[0] + x[1] / 2, 6))}) < 2 * n:
            X[-1][0] += 0.013
        gs.append(group(12, [ses(f"gradient exposures {show(k)} {tname(X)}", igp(k, X, ni, noises(rng, n, scalar=False), tol=-5, solver="par" if j % 2 else "seq"),
                                 dict(op="grad", y=[v_ or 0.1 for v_ in data(rng, n)], wrt=wrts(rng, k, n, ("noise", "y", "t", "texp")), mode="fwd" if j % 3 == 2 else "rev"))]))
    for j, sym in enumerate(INTS if big else INTS[:2]):
        k = leaf(rng, sym)
        X = [[0.5, 0.0, 0], [0.9, 0.8, 1], [0.9, 0.8, 0], [2.0, 0.0, 0]]
        gs.append(group(10, [ses(f"gradient snapshots {show(k)}", igp(k, X, 2, noises(rng, 4, scalar=False), tol=-5, solver="par" if j % 2 else "seq"),
                                 dict(op="grad", y=[v_ or 0.1 for v_ in data(rng, 4)], wrt=wrts(rng, k, 4, ("noise", "y"))))]))
    return gs


# ---------------------------------------------------------------- C19
def gen_c19(rng, tier, scn):
    import ast
    src = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "record.py")).read()
    node = next(n for n in ast.parse(src).body if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == "REJECT")
    codes = [k.value for k in node.value.keys]
    gs = [group(4, [ses("rejected: " + c, dict(op="reject", what="code", code=c)) for c in codes[i::4]]) for i in range(4)]
    big = tier == "thorough"
    for j, sym in enumerate(LEAVES[:-1] + ["ESS"] + INTS):
        n = 3
        k = leaf(rng, sym)
        for sv in (["seq", "par"] if (j % 4 == 0 or big) else ["seq"]):
            if sym in INTS:
                X = campaign(rng, n, 2)
                g = igp(k, X, 2, noises(rng, n, scalar=False), solver=sv)
            else:
                g = gp(k, times(rng, n, "random"), noises(rng, n, scalar=False), solver=sv)
            calls = [g]
            for bad in ["nan", "inf", "-inf"]:
                y = data(rng, n)
                y[rng.randrange(n)] = bad
                calls.append(dict(op="impossible", y=y, **({"how": "cond"} if bad == "nan" else {})))
            # a noise that is no covariance: variance far below zero
            nz = list(g["noise"])
            nz[rng.randrange(n)] = -50.0 * (k["p"][-1] ** 2 + 1)
            calls.append(dict(op="logp", y=data(rng, n)))
            calls.append(dict(op="impossible", y=data(rng, n), noise=nz))
            gs.append(group(4 if sv == "seq" else 9, [ses(f"impossible {show(k)} {sv}", *calls)]))
    return gs


# ---------------------------------------------------------------- C20
def gen_c20(rng, tier, scn):
    big = tier == "thorough"
    gs = []
    for j, k0 in enumerate(structures(rng, scn, 3 if not big else 30, 2 if not big else 12, maxdim=6, leaves=5 if not big else None)):
        n = [4, 6, 8][j % 3]
        ss = []
        for v in range(4 if not big else 10):
            k = redraw(rng, k0) if v else k0
            t = [times(rng, n, "ties"), sorted(un(rng, 0, 0.2) for _ in range(n)), times(rng, n, "wide"), times(rng, n, "clusters")][v % 4]
            nz = [1e-10, [10.0 ** -rng.randrange(0, 12) for _ in range(n)], 1e-6, lu(rng, 1e-3, 1)][(v + j) % 4]
            sv = {"solver": "par"} if j % 5 == 4 else {}
            if sv:  # (below that: known finding)
                nz = [max(x, 1e-6) for x in nz] if isinstance(nz, list) else max(nz, 1e-6)
            calls = [gp(k, t, nz, **sv), dict(op="valid", y=data(rng, n), X=[[x] for x in queries(rng, t, 5)])]
            ss.append(ses(f"covariances {show(k)} N={n} noise {nz}", *calls))
        gs.append(group(5 * seg(k0), ss))
    iks = istructures(rng, big)
    for j, k0 in enumerate(iks if big else rng.sample(iks, 5)):
        ss = []
        n, ni = [(3, 2), (4, 2), (5, 3)][j % 3]
        for v, X in enumerate(exposures(rng, scn, EK, n, ni, 16)[:3 if not big else 8]):
            k = redraw(rng, k0)
            nz = [1e-6, lu(rng, 1e-3, 1), [10.0 ** -rng.randrange(0, 6) for _ in range(n)]][v % 3]
            ss.append(ses(f"covariances {show(k)} {tname(X)} noise {nz}", igp(k, X, ni, nz), dict(op="valid", y=data(rng, n), X=[[x] for x in iqueries(rng, X, 5)])))
        gs.append(group(6 * seg(k0), ss))
    return gs


# ---------------------------------------------------------------- C22
def gen_c22(rng, tier, scn):
    """the mean function"""
    big = tier == "thorough"
    gs = []

    def means(v, off=1.0):
        return [[off * un(rng, 1, 40)], [un(rng, -5, 5), off * un(rng, 0.2, 3)], [off * un(rng, -5, 5), un(rng, -2, 2), un(rng, -0.3, 0.3)], [-off * un(rng, 1, 40)]][v % 4]

    for j, k0 in enumerate(structures(rng, scn, 3 if not big else 20, 0 if not big else 10, maxdim=6, leaves=5 if not big else None)):
        n = [3, 1, 4, 2, 5][j % 5]
        ss = []
        for v in range(4 if not big else 12):
            k = redraw(rng, k0) if v else k0
            t = times(rng, n, ["random", "negative", "ties", "even"][v % 4])
            q = lambda: [[x] for x in queries(rng, t, 4)]
            mu = means(v + j)
            y = lambda: [round(a + sum(c * x**i for i, c in enumerate(mu)), 3) for a, x in zip(data(rng, n), t)]
            sv = {"solver": "par"} if j % 4 == 3 else {}
            calls = [gp(k, t, noises(rng, n), mean=mu, meanform="callable" if j % 2 else "object", **sv), dict(op="prior"), dict(op="logp", y=y()), dict(op="cond", y=y()), dict(op="prior")]
            if v == 0:
                calls += [dict(op="pred", X=q()), dict(op="pred", X=None, tag="predict.atdata"), dict(op="logp", y=y(), how="cond"),
                          dict(op="condx", X=q(), y=y())]
                if "sum" in json.dumps(k):
                    calls += [dict(op="comps")]
            elif v == 1:
                calls += [dict(op="pred", X=q()), dict(op="pred", X=q(), y=y(), tag="predict.y"), dict(op="states")]
            else:
                calls += [dict(op="pred", X=q()), dict(op="condx", X=q(), y=y(), withmean=False), dict(op="cond", y=y(), withmean=False)]
            ss.append(ses(f"mean {mu} {show(k)} N={n}", *calls))
        gs.append(group(6 * seg(k0), ss))
    iks = istructures(rng, big)
    for j, k0 in enumerate(iks if big else rng.sample(iks, 3)):
        ss = []
        n, ni = 3, 2
        for v, X in enumerate(exposures(rng, scn, EK, n, ni, 12)[:4 if not big else 10]):
            k = redraw(rng, k0)
            mu = means(v)
            X = [[x[0] % 64, x[1], x[2]] if x[0] > 500 else x for x in X]
            y = lambda: [round(a + sum(c * x[0]**i for i, c in enumerate(mu)), 3) for a, x in zip(data(rng, n), X)]
            q = lambda: [[x] for x in iqueries(rng, X, 4)]
            calls = [igp(k, X, ni, noises(rng, n), mean=mu, **({"solver": "par"} if j == 2 else {})), dict(op="prior"), dict(op="logp", y=y()), dict(op="cond", y=y()), dict(op="pred", X=q()),
                     dict(op="pred", X=None, tag="predict.atdata")]
            if v == 1:
                calls.append(dict(op="condx", X=[[x[0], 0.0, 0] for x in q()], y=y(), form="tuple"))
            ss.append(ses(f"mean {mu} {show(k)} {tname(X)}", *calls))
        gs.append(group(10 * seg(k0), ss))
    k = leaf(rng, "Matern32")
    t = [0.3, 1.1, 2.75]
    gs.append(group(5, [ses("mean gradient", gp(k, t, noises(rng, 3, scalar=False), tol=-6, mean=[4.0, -0.5]),
                            dict(op="grad", y=[3.3, 4.0, 2.0], wrt=wrts(rng, k, 3)))]))
    return gs


# ------------------------------------------------------------------ what users write themselves
ULEAVES = ["Exp", "Matern32", "Matern52", "SHOcrit", "SHOunder", "SHOover", "Cosine"]      # the leaves of MCUser


def unimodular(rng, n, swaps=True):
    """An invertible integer matrix and its (integer) inverse: another basis of the state"""
    M = [[float(i == j) for j in range(n)] for i in range(n)]
    W = [r[:] for r in M]
    for _ in range(2 * n if n > 1 else 0):
        i, j = rng.sample(range(n), 2)
        c = rng.choice([-2.0, -1.0, 1.0, 2.0])
        if max(map(abs, (x + c * y for x, y in zip(M[i], M[j])))) > 4:
            continue
        M[i] = [x + c * y for x, y in zip(M[i], M[j])]           # M <- E M, W <- W E^-1
        for r in W:
            r[j] -= c * r[i]
    if n == 1 and rng.random() < 0.5:
        M, W = [[-2.0]], [[-0.5]]
    return M, W


def rows_for(rng, k, n, flags, ts=1.0, drift=True):
    """observed functionals: the process, a derivative, mixtures, mixtures that change with time"""
    H = ref_h(k)
    sd = 1.0 / ts
    rnd = lambda: [round(rng.gauss(0, 1), 3) for _ in range(n)]
    out = [dict(a=H, b=[0.0] * n), dict(a=[float(i == (1 if n > 1 else 0)) for i in range(n)], b=[0.0] * n)]
    while len(out) < flags:
        out.append(dict(a=rnd(), b=[round(0.1 * x, 3) for x in rnd()] if drift and rng.random() < 0.5 else [0.0] * n))
    if rng.random() < 0.3:
        rng.shuffle(out)
    return out[:flags]


def ref_h(k):
    """observation row of a tree"""
    if k["op"] == "leaf":
        h = [0.0] * dim(k)
        h[0] = 1.0
        if k["fam"] == "ExpSineSquared":
            h[0::2] = [1.0] * (len(h) // 2)
        return h
    if k["op"] == "sum":
        return ref_h(k["l"]) + ref_h(k["r"])
    if k["op"] == "prod":
        return [a * b for a in ref_h(k["l"]) for b in ref_h(k["r"])]
    if k["op"] == "basis":
        h = ref_h(k["k"])
        return [sum(a * k["W"][i][j] for i, a in enumerate(h)) for j in range(len(h))]
    if k["op"] == "obs":
        return k["rows"][0]["a"]
    return ref_h(k["k"])


def from_user(rng, t, flags=3, drift=True):
    """An expression printed by MCUser, with random parameters"""
    if t["op"] == "leaf":
        return leaf(rng, ULEAVES[t["j"] - 1])
    if t["op"] in ("sum", "prod"):
        return {"op": t["op"], "l": from_user(rng, t["l"], flags, drift), "r": from_user(rng, t["r"], flags, drift)}
    k = from_user(rng, t["k"], flags, drift)
    if t["op"] == "scale":
        return {"op": "scale", "c": lu(rng, 0.2, 5), "k": k, "side": rng.choice("lr")}
    if t["op"] == "basis":
        M, W = unimodular(rng, dim(k))
        return {"op": "basis", "M": M, "W": W, "k": k, "name": "User"}
    return {"op": "obs", "rows": rows_for(rng, k, dim(k), flags, drift=drift), "k": k, "name": "Seen"}


def seen_all(k, asrows):
    """every leaf under a wrapper that understands structured coordinates"""
    if k["op"] == "obs":
        return dict(k, asrows=asrows)
    if k["op"] == "scale":
        return dict(k, k=seen_all(k["k"], asrows))
    if k["op"] in ("sum", "prod"):
        return dict(k, l=seen_all(k["l"], asrows), r=seen_all(k["r"], asrows))
    h = [float(a) for a in ref_h(k)]
    return {"op": "obs", "rows": [{"a": h, "b": [0.0] * len(h)}] * 3, "k": k, "name": "Seen", "asrows": asrows}


def ushape(t):
    if t["op"] == "leaf":
        return "."
    if t["op"] in ("scale", "basis", "obs"):
        return t["op"][0] + ushape(t["k"])
    return f"({ushape(t['l'])}{'+' if t['op'] == 'sum' else '*'}{ushape(t['r'])})"


def turned(t):
    """a change of basis around an observing wrapper (the harness has no class for it)"""
    if t["op"] == "leaf":
        return False
    if "k" in t:
        return turned(t["k"]) or t["op"] == "basis" and '"obs"' in json.dumps(t["k"])
    return turned(t["l"]) or turned(t["r"])


def user_pool(rng, scn, n, want):
    """n (expression, flags of the data) pairs with want in them, rare shapes first"""
    shapes = {}
    for s in scn["MCUser"]:
        if want in json.dumps(s["x"]) and not turned(s["x"]):
            shapes.setdefault(ushape(s["x"]), []).append(s)
    keys = sorted(shapes)
    rng.shuffle(keys)
    keys.sort(key=len)
    out = []
    for i in range(n):
        s = rng.choice(shapes[keys[i % len(keys)]])
        out.append((s["x"], [h["f"] for h in s["h"]]))
    return out


def user_models(tier):
    chk = model("MCUser", "MCUserCheck", Fams="{2, 5}", Seconds="{1}", GapSet="{2}", Emit="FALSE") if tier == "quick" else model("MCUser", "MCUserCheck", Emit="FALSE")
    return [chk, model("MCUser", Fams="{1, 2, 3, 4, 5, 6, 7}", Seconds="{1, 2, 5, 7}", GapSet="{2}", MaxN=3, Check="FALSE"), model("SpecTest")]


# ---------------------------------------------------------------- C23
def gen_c23(rng, tier, scn):
    """the quasi-periodic kernel's error bound"""
    big = tier == "thorough"
    gs = []
    range_of = {1: (0.05, 1), 2: (0.3, 6), 3: (3, 40), 4: (20, 300)}       # about the gammas of MCBound
    asked = {}
    for s in scn["MCBound"]:                            # (gamma, terms there)
        asked.setdefault(s["n"], []).append(range_of[s["g"]])
    for o in [0, 12, 16, 20, 31] + ([13, 24, 40] if big else []):       # 0: the automatic order
        asked[o] = [range_of[g] for g in (1, 2, 3, 4)] if o else [(0.02, 1.99), (2.01, 7.9), (8.1, 31.9), (32.1, 200)]
    for o in sorted(asked):
        ss = []
        for v, gr in enumerate(sorted(asked[o]) * (2 if not big else 12)):
            ts = rng.choice([1.0, 1.0, 1e-3, 3e3])
            k = leaf(rng, "ESS", order=o, ts=ts, ss=rng.choice([1.0, 1e-3, 50.0]))
            k["p"][1] = lu(rng, *gr)
            P = k["p"][0]
            lags = [0.0, P / 2, P] + [un(rng, 0.01, 0.99) * P for _ in range(4)] + [P / (2 * max(1, o)), 3.25 * P]
            ss.append(ses(f"error bound {show(k)} {k['p']}", dict(op="bound", k=k, lags=lags, conv="array" if v % 3 else "float")))
        gs.append(group(2, ss))
    return gs


# ---------------------------------------------------------------- C24
def gen_c24(rng, tier, scn):
    """data and predictions of different linear functionals of the state"""
    big = tier == "thorough"
    gs = []
    F = dict(form="flags")
    for j, (x, fl) in enumerate(user_pool(rng, scn, 18 if not big else 90, '"obs"')):
        n = [3, 4, 2, 5][j % 4]
        ss = []
        drift = j % 3 != 2
        k0 = from_user(rng, x, drift=drift)
        if dim(k0) > 6:
            continue
        F = dict(form=["flags", "flags", "dict", "flags", "rows"][j % 5])      # how coordinates are structured
        if F["form"] != "flags":
            k0 = seen_all(k0, F["form"] == "rows")
        sv = {"solver": "par"} if j % 4 == 3 else {}
        for v in range(3 if not big else 6):
            k = redraw(rng, k0) if v else k0
            t = times(rng, n, ["random", "even", "negative", "clusters", "ties", "wide"][(j + v) % 6])
            if max(map(abs, t)) > 30:
                t = [a % 30 for a in t]
                t.sort()
            flags = [fl[i % len(fl)] if v == 0 else rng.randrange(3) for i in range(n)]
            X = [[a, 0.0, f] for a, f in zip(t, flags)]
            q = lambda: [[a, 0.0, rng.randrange(3)] for a in queries(rng, t, 4)]
            calls = [dict(op="gp", k=k, X=X, noise=noises(rng, n), **F, **sv), dict(op="logp", y=data(rng, n)), dict(op="cond", y=data(rng, n)),
                     dict(op="pred", X=q(), **F)]
            if v == 0:
                calls += [dict(op="pred", X=None, tag="predict.atdata"), dict(op="pred", X=q(), y=data(rng, n), tag="predict.y", **F)]
                if j % 2 == 0:
                    calls.append(dict(op="condx", X=q(), y=data(rng, n), **F))
                if k["op"] == "sum":
                    calls += [dict(op="comps"), dict(op="pred", X=q(), comp=[rng.choice(partnames(k))], tag="predict.component", **F)]
            if v == 1:
                A, B = q(), q()
                how = {"how": "pair"} if j % 2 else {}
                calls += [dict(op="eval", k=k, X1=A, X2=A, **F, **how, tag="evaluate.observables"), dict(op="eval", k=k, X1=A, X2=B, **F, **how, tag="evaluate.observables"),
                          dict(op="diag", k=k, X1=B, **F, **how)]
                if F["form"] == "flags":
                    calls.append(dict(op="pred", X=[[a[0], 0.0, 0] for a in q()], form="array", tag="predict.plain"))
            if v == 2 and j % 3 == 2 and not any(f in json.dumps(k) for f in UNDAMPED):
                calls.append(dict(op="psd", k=k, w=[0.0, un(rng, 0.1, 2), -un(rng, 0.5, 3)]))
            ss.append(ses(f"observables {show(k)} N={n} flags {flags}", *calls))
        gs.append(group(8 * seg(k0), ss))
    # gradients
    F = dict(form="flags")
    for j, sym in enumerate(["Matern32", "SHOunder", "Matern52"]):
        k = leaf(rng, sym)
        k = {"op": "obs", "rows": rows_for(rng, k, dim(k), 3), "k": k, "name": "Seen"}
        if j == 2:
            k = sums([k, leaf(rng, "Exp")])
        X = [[0.3, 0.0, 0], [1.1, 0.0, 1], [2.75, 0.0, 2]]
        gs.append(group(6, [ses(f"gradient {show(k)}", dict(op="gp", k=k, X=X, noise=noises(rng, 3, scalar=False), tol=-6, **F),
                                dict(op="grad", y=[v_ or 0.1 for v_ in data(rng, 3)], wrt=wrts(rng, k, 3, ("noise", "y"))))]))
    return gs


# ---------------------------------------------------------------- C25
def rmat(rng, n, m, s=1.0):
    return [[round(s * rng.gauss(0, 1), 3) for _ in range(m)] for _ in range(n)]


def gen_c25(rng, tier, scn):
    """models given by their matrices only"""
    big = tier == "thorough"
    gs = []
    for j, (x, _) in enumerate(user_pool(rng, dict(MCUser=[s for s in scn["MCUser"] if '"obs"' not in json.dumps(s["x"])]), 16 if not big else 80, '"basis"')):
        k0 = from_user(rng, x)
        if dim(k0) > 6:
            continue
        n = [3, 1, 4, 5, 2][j % 5]
        ss = []
        sv = {"solver": "par"} if j % 4 == 3 else {}
        for v in range(4 if not big else 8):
            k = redraw(rng, k0) if v else k0
            t = times(rng, n, MODES[(v + j) % len(MODES)])
            q = lambda: [[a] for a in queries(rng, t, 4)]
            x1 = un(rng, -3, 3)
            calls = [gp(k, t, noises(rng, n), **sv), dict(op="cond", y=data(rng, n)), dict(op="pred", X=q())]
            if v == 0:
                calls += [dict(op="logp", y=data(rng, n)), dict(op="pred", X=None, tag="predict.atdata"), dict(op="states"), dict(op="pstate", X=q())]
                if k["op"] == "sum":
                    calls.append(dict(op="comps"))
            if v == 1:
                A, B = lags(rng)
                calls += [dict(op="eval", k=k, X1=A, X2=B), dict(op="diag", k=k, X1=A)]
                if not any(f in json.dumps(k) for f in UNDAMPED):
                    calls.append(dict(op="psd", k=k, w=[0.0, un(rng, 0.1, 2), -un(rng, 0.5, 3)]))
            vl = {"vl": True} if k["op"] == "basis" else {}
            calls += [dict(op="mats", k=k, x1=x1, x2=x1 + d, **vl) for d in (un(rng, 0.05, 3), rng.choice([0.0, un(rng, 3, 9)]))]
            ss.append(ses(f"user model {show(k)} N={n}", *calls))
        gs.append(group(6 * seg(k0), ss))
    # in other units of time, and over gaps of any length
    eye = lambda n: [[float(i == j) for j in range(n)] for i in range(n)]
    pool = ["Exp", "Matern32", "Matern52", "SHOunder", "SHOover", "sum", "prod"]
    rng.shuffle(pool)
    for j, sym in enumerate(pool if big else pool[:5]):
        ss = []
        for v in range(3 if not big else 12):
            ts = rng.choice([1e-5, 1e-3, 1.0, 40.0, 1e5])
            if sym in ("sum", "prod"):
                b = {"op": sym, "l": leaf(rng, "Matern32", ts=ts), "r": leaf(rng, "SHOunder" if sym == "sum" else "Exp", ts=ts)}
            else:
                b = leaf(rng, sym, ts=ts)
            k = {"op": "basis", "M": eye(dim(b)), "W": eye(dim(b)), "k": b, "name": "User"}
            t = times(rng, 4, ts=ts)
            if j % 2:                                   # a gap of very many time scales
                t = t[:2] + [a + 1e6 * ts for a in t[2:]]
            x1 = un(rng, -3, 3) * ts
            calls = [gp(k, t, noises(rng, 4), **({"solver": "par"} if v % 3 == 2 else {})), dict(op="cond", y=data(rng, 4)), dict(op="pred", X=[[a] for a in queries(rng, t, 4, ts)])]
            calls += [dict(op="mats", k=k, x1=x1, x2=x1 + d * ts, vl=True) for d in (un(rng, 0.05, 3), rng.choice([un(rng, 3, 9), 100.0, 1e6]))]
            ss.append(ses(f"user model {show(k)} {json.dumps(b)[:80]}", *calls))
        gs.append(group(8, ss))
    # the helpers, for any matrices
    ss = []
    for v in range(24 if not big else 200):
        n, m = rng.choice([1, 2, 3, 4]), rng.choice([1, 1, 2, 3])
        F = rmat(rng, n, n, rng.choice([0.3, 1.0]))
        if v % 4 == 0:                                  # nilpotent: a chain of integrators
            F = [[float(b == a + 1) for b in range(n)] for a in range(n)]
        B = rmat(rng, m, m)
        Qc = [[round(sum(B[a][i] * B[b][i] for i in range(m)), 3) for b in range(m)] for a in range(m)]
        c = dict(op="helpers", F=F, L=rmat(rng, n, m), Qc=Qc, dt=rng.choice([0.0, 0.01, un(rng, 0.1, 1), un(rng, 1, 3)]), full=v % 3 == 0)
        ss.append(ses(f"helpers n={n} m={m} dt={c['dt']}", c))
    gs += [group(3, ss[i::3]) for i in range(3)]
    return gs


# ---------------------------------------------------------------- C26
def gen_c26(rng, tier, scn):
    """exposures of any process: the generic integrated model over any base model"""
    big = tier == "thorough"
    gs = []
    L = lambda s, **kw: leaf(rng, s, **kw)
    pr = lambda a, b: {"op": "prod", "l": a, "r": b}
    sc = lambda k: {"op": "scale", "c": lu(rng, 0.2, 5), "k": k, "side": rng.choice("lr")}

    def bas(k):
        M, W = unimodular(rng, dim(k))
        return {"op": "basis", "M": M, "W": W, "k": k, "name": "User"}
    bases = [sums([L("Exp"), L("SHOunder")]), pr(L("Exp"), L("Cosine")), sc(L("Matern32")), bas(L("Matern52")), L("ESS", order=2), bas(L("SHOover")),
             L("Exp"), L("Cosine"), sums([sc(L("Exp")), L("Matern32")]), pr(L("Matern32"), L("SHOunder")), bas(sums([L("Exp"), L("Matern32")])), L("Constant")]
    bases += [from_tree(rng, t) for t in rng.sample([t for t in scn["A2"] if t["op"] != "leaf" and tdim(t) <= 5], 2 if not big else 30)]
    wrap = lambda b: {"op": "int", "k": b, "name": "Integral"}
    for j, b0 in enumerate(bases):
        for n, ni, cnt in ([[(2, 2, 3), (3, 2, 3), (3, 1, 3), (4, 3, 2)][j % 4]] if not big else [(2, 2, 10), (3, 2, 12), (4, 3, 5), (6, 2, 3)]):
            ss = []
            for v, X in enumerate(exposures(rng, scn, EK, n, ni, 4 * cnt)[:cnt]):
                k = wrap(redraw(rng, b0) if v else b0)
                if j % 5 == 4:
                    k = sums([k, L("IntegratedExp")])
                elif j % 5 == 3:
                    k = sc(k)
                q = lambda: [[x] for x in iqueries(rng, X, 4)]
                sv = {"solver": "par"} if j % 4 == 2 else {}
                calls = [igp(k, X, ni, noises(rng, n), **sv), dict(op="logp", y=data(rng, n))]
                calls += [dict(op="cond", y=data(rng, n)), dict(op="pred", X=q())]
                if v == 0:
                    calls += [dict(op="pred", X=None, tag="predict.atdata"), dict(op="pstate", X=q())]
                    if k["op"] == "sum":
                        calls.append(dict(op="comps"))
                if k["op"] == "int":
                    x1 = un(rng, -3, 3)
                    calls += [dict(op="imats", k=k, ni=ni, inst=rng.randrange(ni), d=lu(rng, 0.05, 5), x1=x1, x2=x1 + un(rng, 0.05, 4), num=True)]
                ss.append(ses(f"integral {show(k)} {tname(X)}", *calls))
            gs.append(group(10 * seg(b0), ss))
    return gs


# ---------------------------------------------------------------- C27
def gen_c27(rng, tier, scn):
    """sums of integrated and instantaneous kernels"""
    big = tier == "thorough"
    gs = []
    L = lambda s: leaf(rng, s)
    sc = lambda k: {"op": "scale", "c": lu(rng, 0.2, 5), "k": k, "side": rng.choice("lr")}
    mats = [sums([L("IntegratedMatern32"), L("Constant")]), sums([L("Exp"), L("IntegratedSHOunder")]), sc(sums([L("IntegratedExp"), L("SHOover")])),
            sums([L("Matern32"), sc(L("IntegratedExp")), L("Constant")]), sums([L("IntegratedExp"), {"op": "prod", "l": L("Exp"), "r": L("Cosine")}]),
            sums([L("IntegratedSHOcrit"), L("Matern52")]), sums([L("Constant"), L("IntegratedSHOover")]),
            sums([L("IntegratedMatern52"), sc(L("Exp"))])]
    if big:
        mats += [sums([L(a), L(b)]) for a in INTS for b in ("Exp", "SHOunder", "Cosine")] + [sums([L(b), sc(L(a)), L(c)]) for a, b, c in zip(INTS, LEAVES, INTS[::-1])]
    for j, k0 in enumerate(mats):
        for n, ni, cnt in ([[(2, 2, 4), (3, 2, 4), (3, 1, 3), (4, 3, 3)][j % 4]] if not big else [(1, 1, 3), (2, 2, 10), (3, 2, 12), (4, 3, 5), (6, 2, 3)]):
            ss = []
            for v, X in enumerate(exposures(rng, scn, EK, n, ni, 4 * cnt)[:cnt]):
                k = redraw(rng, k0) if v else k0
                q = lambda: [[x] for x in iqueries(rng, X, 4)]
                sv = {"solver": "par"} if j % 4 == 2 or (big and v % 3 == 1) else {}
                calls = [igp(k, X, ni, noises(rng, n), **sv), dict(op="logp", y=data(rng, n)), dict(op="cond", y=data(rng, n)), dict(op="pred", X=q())]
                if v == 0:
                    calls += [dict(op="pred", X=None, tag="predict.atdata"), dict(op="pstate", X=q())]
                    if k["op"] == "sum":
                        calls += [dict(op="comps"), dict(op="pred", X=q(), comp=[rng.choice(partnames(k))], tag="predict.component")]
                if v == 1:
                    calls += [dict(op="states"), dict(op="pred", X=q(), y=data(rng, n), tag="predict.y")]
                    calls += [dict(op="condx", X=[[x[0], 0.0, rng.randrange(ni)] for x in q()], y=data(rng, n), form="tuple")]
                ss.append(ses(f"mixed {show(k)} {tname(X)}", *calls))
            gs.append(group(8 * seg(k0), ss))
    return gs


scan = lambda tier: [model("MCScan", N=5 if tier == "quick" else 7)]
PROPS = {
    "C01": dict(models=lambda t: alg(t) + est(t), gen=gen_c01),
    "C02": dict(models=lambda t: alg(t) + est(t), gen=gen_c02),
    "C03": dict(models=lambda t: alg(t) + est(t), gen=gen_c03),
    "C04": dict(models=lambda t: alg(t) + scan(t), gen=gen_c04),
    "C05": dict(models=exp_models, gen=gen_c05),
    "C06": dict(models=exp_models, gen=gen_c06),
    "C07": dict(models=lambda t: exp_models(t) + scan(t), gen=gen_c07),
    "C08": dict(models=alg, gen=gen_c08),
    "C09": dict(models=alg, gen=gen_c09),
    "C10": dict(models=alg, gen=gen_c10),
    "C11": dict(models=exp_models, gen=gen_c11),
    "C12": dict(models=lambda t: exp_models(t) + [model("MCNaming")], gen=gen_c12),
    "C13": dict(models=lambda t: [model("MCNaming")], gen=gen_c13),
    "C14": dict(models=lambda t: lite(t) if t == "quick" else alg(t) + exp_models(t), gen=gen_c14),
    "C15": dict(models=lambda t: [model("MCSession")] + ([model("MCSession", NGP=1, MaxCalls=4)] if t != "quick" else []), gen=gen_c15),
    "C16": dict(models=exp_models, gen=gen_c16),
    "C17": dict(models=lambda t: lite(t) if t == "quick" else alg(t) + exp_models(t), gen=gen_c17),
    "C18": dict(models=est, gen=gen_c18),
    "C19": dict(models=est, gen=gen_c19),
    "C20": dict(models=lambda t: lite(t) if t == "quick" else alg(t) + exp_models(t), gen=gen_c20),
    "C21": dict(models=exp_models, gen=gen_c21),
    "C22": dict(models=lambda t: lite(t) if t == "quick" else alg(t) + exp_models(t), gen=gen_c22),
    "C23": dict(models=lambda t: [model("MCBound", MaxOrder=9 if t == "quick" else 16)], gen=gen_c23),
    "C24": dict(models=user_models, gen=gen_c24),
    "C25": dict(models=user_models, gen=gen_c25),
    "C26": dict(models=lambda t: alg(t)[:1] + exp_models(t) + [model("MCExposure", "EG", KSet="{5, 6}", Emit="FALSE")], gen=gen_c26),
    "C27": dict(models=lambda t: exp_models(t) + [model("MCExposure", "EM", KSet="{7, 8}", Emit="FALSE")], gen=gen_c27),
}
