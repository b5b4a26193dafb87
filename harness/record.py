"""Run sessions of public API calls on the real code and record every reply.

usage: record.py SESSIONS.json TRACE.ndjson
SESSIONS.json: a list of sessions, each a list of calls (see OPS below).
"""
import json
import os
import sys
import warnings

os.environ.setdefault("JAX_PLATFORMS", "cpu")
os.environ.setdefault("JAX_ENABLE_X64", "1")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
warnings.filterwarnings("ignore")

import numpy as np
import jax
import jax.numpy as jnp

jax.config.update("jax_enable_x64", True)
import enc
import equinox as eqx
import smolgp
import smolgp.kernels as sk
import smolgp.kernels.base as kb
import smolgp.kernels.dense as dk
import smolgp.kernels.integrated as ik
import tinygp.kernels as tk
import tinygp.means
from smolgp import GaussianProcess
from tinygp.noise import Banded, Dense, Diagonal
from smolgp.solvers import ParallelStateSpaceSolver, StateSpaceSolver
from smolgp.solvers.integrated import IntegratedStateSpaceSolver, ParallelIntegratedStateSpaceSolver

FAMS = {
    "Constant": sk.Constant, "Exp": sk.Exp, "Matern32": sk.Matern32, "Matern52": sk.Matern52, "SHO": sk.SHO,
    "Cosine": sk.Cosine, "ExpSineSquared": sk.ExpSineSquared, "IntegratedSHO": ik.IntegratedSHO,
    "IntegratedExp": ik.IntegratedExp, "IntegratedMatern32": ik.IntegratedMatern32,
    "IntegratedMatern52": ik.IntegratedMatern52, "IntegratedCosine": ik.IntegratedCosine,
    "Matern72": lambda **kw: sk.base.Matern(nu=3.5, **kw),
}
GENERIC = {"Exp": 0.5, "Matern32": 1.5, "Matern52": 2.5, "Matern72": 3.5}
PARAMS = {
    "Constant": ("sigma",), "Exp": ("scale", "sigma"), "Matern32": ("scale", "sigma"), "Matern52": ("scale", "sigma"),
    "Matern72": ("scale", "sigma"), "SHO": ("omega", "quality", "sigma"), "Cosine": ("scale", "sigma"), "ExpSineSquared": ("period", "gamma", "sigma"),
}


# ------------------------------------------------------------------ what users write themselves
class Matrices(sk.StateSpaceModel):
    """A model that gives its matrices and leaves everything else to the base class"""
    F: jax.Array
    L: jax.Array
    Qc: jax.Array
    H: jax.Array
    P: jax.Array

    def design_matrix(self):
        return self.F

    def stationary_covariance(self):
        return self.P

    def observation_matrix(self, X):
        return self.H

    def noise(self):
        return self.Qc

    def noise_effect_matrix(self):
        return self.L


class Seen(sk.Wrapper):
    """A wrapper that observes other functionals of the state: row a[flag] + t b[flag]"""
    a: jax.Array
    b: jax.Array
    rows: bool = eqx.field(static=True, default=False)

    def observation_matrix(self, X):
        if isinstance(X, tuple):
            t, flag = X[0], X[-1]
        elif isinstance(X, dict):
            t, flag = X["t"], X["what"]
        elif jnp.ndim(X):
            t, flag = X[0], X[1].astype(int)
        else:
            t, flag = X, 0
        return (self.a[flag] + t * self.b[flag])[None, :]

    # coordinates may be tuples (t, what), {"t":, "what":} or rows [t, what]; bare numbers are times
    def coord_to_sortable(self, X):
        if isinstance(X, tuple):
            return X[0]
        if isinstance(X, dict):
            return X["t"]
        return X[..., 0] if self.rows and jnp.ndim(X) else X

    def transition_matrix(self, X1, X2):
        return self.kernel.transition_matrix(self.coord_to_sortable(X1), self.coord_to_sortable(X2))

    def process_noise(self, X1, X2):
        return self.kernel.process_noise(self.coord_to_sortable(X1), self.coord_to_sortable(X2))


def ref_matrices(k):
    """F, L, Qc, H, P of a tree, from the textbook"""
    if k["op"] == "scale":
        F, L, Q, H, P = ref_matrices(k["k"])
        return F, L, k["c"] * Q, H, k["c"] * P
    if k["op"] == "sum":
        a, b = ref_matrices(k["l"]), ref_matrices(k["r"])
        bd = lambda x, y: np.block([[x, np.zeros((x.shape[0], y.shape[1]))], [np.zeros((y.shape[0], x.shape[1])), y]])
        return bd(a[0], b[0]), bd(a[1], b[1]), bd(a[2], b[2]), np.hstack([a[3], b[3]]), bd(a[4], b[4])
    if k["op"] == "prod":
        a, b = ref_matrices(k["l"]), ref_matrices(k["r"])
        F = np.kron(a[0], np.eye(len(b[0]))) + np.kron(np.eye(len(a[0])), b[0])
        P = np.kron(a[4], b[4])
        return F, np.eye(len(F)), -(F @ P + P @ F.T), np.kron(a[3], b[3]), P
    if k["op"] == "basis":
        F, L, Q, H, P = ref_matrices(k["k"])
        M, W = np.array(k["M"], float), np.array(k["W"], float)
        return M @ F @ W, M @ L, Q, H @ W, M @ P @ M.T
    p, fam = k["p"], k["fam"]
    s2 = p[-1] ** 2
    m = lambda *r: np.array(r, float)
    if fam == "Exp":
        return m([-1 / p[0]]), m([1]), m([2 * s2 / p[0]]), m([1]), m([s2])
    if fam == "Matern32":
        a = np.sqrt(3) / p[0]
        return m([0, 1], [-a * a, -2 * a]), m([0], [1]), m([4 * a**3 * s2]), m([1, 0]), m([s2, 0], [0, s2 * a * a])
    if fam == "Matern52":
        a = np.sqrt(5) / p[0]
        b = s2 * a * a / 3
        return (m([0, 1, 0], [0, 0, 1], [-a**3, -3 * a * a, -3 * a]), m([0], [0], [1]), m([16 * s2 * a**5 / 3]), m([1, 0, 0]),
                m([s2, 0, -b], [0, b, 0], [-b, 0, s2 * a**4]))
    if fam == "SHO":
        w, q = p[0], p[1]
        return m([0, 1], [-w * w, -w / q]), m([0], [1]), m([2 * w**3 * s2 / q]), m([1, 0]), m([s2, 0], [0, s2 * w * w])
    if fam == "Cosine":
        w = 2 * np.pi / p[0]
        return m([0, -w], [w, 0]), np.eye(2), np.zeros((2, 2)), m([1, 0]), s2 * np.eye(2)
    raise KeyError(fam)


FLAGS = ("flags", "dict", "rows")


def has_rows(k):
    if k["op"] == "obs":
        return True
    return has_rows(k["k"]) if "k" in k else "l" in k and (has_rows(k["l"]) or has_rows(k["r"]))


def is_int(k):
    if k["op"] == "leaf":
        return k["fam"].startswith("Integrated")
    if k["op"] == "int":
        return True
    if "k" in k:
        return is_int(k["k"])
    return is_int(k["l"]) or is_int(k["r"])


def build(k, ni=1, conv=float):
    """The kernel object of a tree.  conv: how parameters are passed."""
    if k["op"] == "leaf":
        fam = k["fam"]
        kw = dict(zip(PARAMS[fam.replace("Integrated", "")], [conv(p) for p in k["p"]]))
        if k.get("dflt"):       # sigma = 1 is the default
            assert k["p"][-1] == 1.0
            del kw["sigma"]
        if k.get("name"):
            kw["name"] = k["name"]
        if k.get("ord"):
            kw["order"] = k["ord"]
        if k.get("generic"):        # the generic half-integer Matern class
            return sk.base.Matern(nu=GENERIC[fam], **kw)
        if fam.startswith("Integrated"):
            kw["num_insts"] = ni
        return FAMS[fam](**kw)
    if k["op"] == "basis":
        F, L, Qc, H, P = map(jnp.asarray, ref_matrices(k))
        return Matrices(name=k["name"], F=F, L=L, Qc=Qc, H=H, P=P)
    if k["op"] == "obs":
        a, b = (jnp.asarray([r[q] for r in k["rows"]], float) for q in "ab")
        return Seen(name=k["name"], kernel=build(k["k"], ni, conv), a=a, b=b, rows=bool(k.get("asrows")))
    if k["op"] == "int":
        return ik.IntegratedStateSpaceModel(name=k["name"], base_model=build(k["k"], ni, conv), num_insts=ni)
    if k["op"] == "scale":
        c = conv(k["c"])
        return build(k["k"], ni, conv) * c if k.get("side", "r") == "r" else c * build(k["k"], ni, conv)
    a, b = build(k["l"], ni, conv), build(k["r"], ni, conv)
    if k["op"] == "sum":
        return sum([a, b]) if k.get("py") else a + b
    return a * b


def arr(x):
    a = np.asarray(x)
    if a.dtype.kind not in "fiub":
        raise TypeError(f"reply of dtype {a.dtype}")
    return {"s": list(a.shape), "v": enc.nums(a.astype(np.float64).ravel().tolist())}


def iarr(x):
    a = np.asarray(x)
    return {"s": list(a.shape), "v": [], "i": [int(v) for v in a.ravel()]}


def shown(k):
    return json.dumps(k)


class Session:
    def __init__(self, out):
        self.out = out
        self.gp = self.cond = self.cfg = None
        self.dt = float
        self.slots = {}
        self.cur = 1

    def emit(self, ev, exc, **fields):
        d = {"ev": ev, "exc": exc}
        d.update({k: v for k, v in fields.items() if v is not None})     # no reply: no field
        self.out.append(d)

    def attempt(self, f):
        try:
            return f(), ""
        except Exception as e:  # any error is a reply too
            return None, f"{type(e).__name__}: {str(e)[:200]}"

    # ------------------------------------------------------------ coordinates
    def coords(self, X, form):
        whole = all(float(x[0]).is_integer() for x in X)      # test points may lie between data at whole numbers
        t = jnp.asarray(np.array([x[0] for x in X], dtype=self.dt if whole else float))
        if form == "array":
            return t
        if form == "flags":
            return (t, jnp.asarray(np.array([x[2] for x in X], dtype=int)))
        if form == "dict":
            return {"t": t, "what": jnp.asarray(np.array([x[2] for x in X], dtype=int))}
        if form == "rows":
            return jnp.asarray(np.array([[x[0], x[2]] for x in X], dtype=float).reshape(-1, 2))
        d = jnp.asarray(np.array([x[1] for x in X], dtype=float))
        i = jnp.asarray(np.array([x[2] if len(x) > 2 else 0 for x in X], dtype=int))
        return (t, d, i)

    def make(self, c):
        k = build(c["k"], c.get("ni", 1), CONV[c.get("conv", "array")])
        self.dt = int if c.get("intx") else float
        integ = is_int(c["k"])
        X = self.coords(c["X"], c.get("form", "tuple" if integ else "array"))
        n = c["noise"]
        diag = jnp.asarray(n, dtype=float) if isinstance(n, list) else float(n)
        kw = dict(diag=diag)
        if c.get("noisekind") == "default":
            assert n == 2.0**-26
            kw = {}
        elif c.get("noisekind") == "object":
            kw = dict(noise=Diagonal(diag=jnp.broadcast_to(diag, (len(c["X"]),))))
        sv = {"seq": IntegratedStateSpaceSolver if integ else StateSpaceSolver,
              "par": ParallelIntegratedStateSpaceSolver if integ else ParallelStateSpaceSolver,
              "auto": None}[c.get("solver", "auto")]
        if sv:
            kw["solver"] = sv
        if c.get("unique") is False:
            kw["use_unique_names"] = False
        if c.get("mean"):
            kw["mean"] = meanfun(c["mean"], c.get("meanform", "callable"))
        return GaussianProcess(k, X, **kw)

    # ------------------------------------------------------------ calls
    def op_gp(self, c):
        self.cfg = c
        integ = is_int(c["k"])
        self.dt = float
        self.gp, exc = self.attempt(lambda: self.make(c))
        self.cond = None
        n = c["noise"]
        noise = n if isinstance(n, list) else [n] * len(c["X"])
        if c.get("form") in FLAGS:
            obs = self.enc_X(c["X"])
        else:
            obs = [[enc.num(x[0]), enc.num(x[1] if integ and len(x) > 1 else 0.0)] for x in c["X"]]
        self.emit("gp", exc, k=enc.kern(c["k"]), ni=c.get("ni", 1), int=integ, obs=obs,
                  inst=[int(x[2]) if len(x) > 2 else 0 for x in c["X"]], noise=enc.nums(noise),
                  mu=enc.nums(c.get("mean", [])), tol=c.get("tol", -5 if integ else -7))

    def y(self, c):
        return jnp.asarray(np.array(c["y"], dtype=float))

    def op_logp(self, c):
        f = {"plain": lambda: self.on(c).log_probability(self.y(c)),
             "jit": lambda: jax.jit(lambda g, y: g.log_probability(y))(self.gp, self.y(c)),
             "cond": lambda: self.gp.condition(self.y(c)).log_probability}[c.get("how", "plain")]
        r, exc = self.attempt(lambda: arr(f()))
        self.emit("logp", exc, y=enc.nums(c["y"]), lp=r)

    def op_prior(self, c):
        r, exc = self.attempt(lambda: (arr(self.gp.loc), int(self.gp.num_data)))
        m, n = r if r else (None, 0)
        self.emit("prior", exc, mean=m, n=n)

    def on(self, c):
        """the GP that is asked: the prior one, or the one that is conditioned already"""
        return self.cond if c.get("on") == "cond" else self.gp

    def op_cond(self, c):
        def f():
            lp, g = self.on(c).condition(self.y(c), **({} if c.get("withmean", True) else {"include_mean": False}))
            return g, arr(lp), arr(g.loc), arr(g.variance)
        r, exc = self.attempt(f)
        g, lp, m, v = r if r else (None,) * 4
        self.lasty = self.y(c)
        if g is not None:
            self.cond = g
        self.emit("cond", exc, y=enc.nums(c["y"]), withmean=c.get("withmean", True), lp=lp, mean=m, var=v)

    def enc_X(self, X):
        # what is asked for at a test coordinate: the process itself if no exposure is given
        # (the instrument is not part of it, but the flag of a wrapper that sees several things is)
        return [[enc.num(x[0]), enc.num(x[1] if len(x) > 1 else 0.0), int(x[2]) if len(x) > 2 else 0] for x in X]

    def op_condx(self, c):
        def f():
            kw = {} if c.get("withmean", True) else {"include_mean": False}
            if c.get("comp"):
                kw["kernel"] = self.part(c["comp"][0])
            lp, g = self.on(c).condition(self.y(c), self.coords(c["X"], c.get("form", "array")), **kw)
            if c.get("keep"):
                self.cond = g
            return arr(lp), arr(g.loc), arr(g.variance)
        r, exc = self.attempt(f)
        lp, m, v = r if r else (None,) * 3
        self.emit("condx", exc, y=enc.nums(c["y"]), withmean=c.get("withmean", True), X=self.enc_X(c["X"]), comp=c.get("comp", []), keep=bool(c.get("keep")), lp=lp, mean=m, var=v)

    def part(self, name):
        """the component kernel object with a given (unique) name"""
        def walk(k):
            if hasattr(k, "kernel1") and type(k).__name__ == "Sum":
                return walk(k.kernel1) + walk(k.kernel2)
            return [k]
        for k in walk(self.gp.kernel):
            if k.name == name:
                return k
        raise KeyError(name)

    def op_pred(self, c):
        """c: X (None: at the data), y (None: conditioned already), comp, var"""
        how = c.get("how", "name")
        comp = c.get("comp", [])

        def f():
            g = self.gp if c.get("y") is not None else self.cond
            args = [None if c.get("X") is None else self.coords(c["X"], c.get("form", "array"))]
            if c.get("y") is not None:
                args.append(self.y(c))
            if how == "state":      # via the full predicted state
                s = g.predict(*args, return_full_state=True)
                if not comp:
                    return arr(s.loc), arr(s.variance)
                m, v = s.get_component(comp if len(comp) > 1 else comp[0], return_var=True)
                if c.get("novar"):
                    m = s.get_component(comp if len(comp) > 1 else comp[0])
                return arr(m), arr(v)
            if how == "component":  # at the data
                m, v = g.get_component_mean(comp if len(comp) > 1 else comp[0], return_var=True)
                if c.get("novar"):
                    m = g.get_component_mean(comp if len(comp) > 1 else comp[0])
                return arr(m), arr(v)
            kw = {}
            if comp:
                kw["kernel"] = comp[0] if how == "name" else self.part(comp[0])
            if how == "jit":
                m, v = jax.jit(lambda g, *a: g.predict(*a, return_var=True))(g, *args)
            else:
                m, v = g.predict(*args, return_var=True, **kw)
            if how == "meanonly":
                m = g.predict(*args, **kw)
            return arr(m), arr(v)
        r, exc = self.attempt(f)
        m, v = r if r else (None, None)
        self.emit("pred", exc, tag=c.get("tag", "predict"), X=self.enc_X(c.get("X") or []), atdata=c.get("X") is None,
                  y=enc.nums(c["y"]) if c.get("y") is not None else [], comp=comp, mean=m, var=v)

    def op_predh(self, c):
        h = c["h"]

        def f():
            g = self.gp if c.get("y") is not None else self.cond
            args = [None if c.get("X") is None else self.coords(c["X"], c.get("form", "array"))]
            if c.get("y") is not None:
                args.append(self.y(c))
            H = jnp.array([h])
            m, v = g.predict(*args, return_var=True, observation_model=lambda X: H)
            return arr(m), arr(v)
        r, exc = self.attempt(f)
        m, v = r if r else (None, None)
        self.emit("predh", exc, tag=c.get("tag", "predict.observation_model"), X=self.enc_X(c.get("X") or []),
                  atdata=c.get("X") is None, y=enc.nums(c["y"]) if c.get("y") is not None else [], h=enc.nums(h), mean=m, var=v)

    def op_comps(self, c):
        def f():
            if c.get("X") is None:
                get = self.cond.get_all_component_means
            else:
                get = self.cond.predict(self.coords(c["X"], "array"), return_full_state=True).get_all_components
            d = get(return_var=True)
            m0 = get(return_var=False) if c.get("novar") else {n: m for n, (m, _) in d.items()}
            return [{"name": n, "mean": arr(m0[n]), "var": arr(v)} for n, (m, v) in d.items()]
        r, exc = self.attempt(f)
        self.emit("comps", exc, tag=c.get("tag", "components"), X=self.enc_X(c.get("X") or []),
                  atdata=c.get("X") is None, comps=r or [])

    def op_pstate(self, c):
        def f():
            s = self.cond.predict(self.coords(c["X"], c.get("form", "array")), return_full_state=True)
            return arr(s.mean), arr(s.cov)
        r, exc = self.attempt(f)
        m, P = r if r else (None, None)
        self.emit("pstate", exc, tag=c.get("tag", "fullstate"), X=self.enc_X(c["X"]), m=m, P=P)

    def op_states(self, c):
        def f():
            n = len(self.cfg["X"])
            if c.get("via") == "solver":      # what the solver itself returns
                at, ((mp, Pp), (mf, Pf), (ms, Ps)), _ = self.gp.solver.condition(self.lasty)
                t, inst, obsid, stateid = at if is_int(self.cfg["k"]) else (at, np.zeros(n, int), np.arange(n), np.ones(n, int))
                return dict(t=arr(t), instid=iarr(inst), obsid=iarr(obsid), stateid=iarr(stateid), mp=arr(mp), mf=arr(mf), ms=arr(ms),
                            Pp=arr(Pp), Pf=arr(Pf), Ps=arr(Ps))
            s = self.cond.states
            inst = s.instid if is_int(self.cfg["k"]) else np.zeros(n, int)
            return dict(t=arr(s.t_states), instid=iarr(inst), obsid=iarr(s.obsid), stateid=iarr(s.stateid),
                        mp=arr(s.predicted_mean), mf=arr(s.filtered_mean), ms=arr(s.smoothed_mean),
                        Pp=arr(s.predicted_cov), Pf=arr(s.filtered_cov), Ps=arr(s.smoothed_cov))
        r, exc = self.attempt(f)
        self.emit("states", exc, full=c.get("full", True), **(r or {}))

    def op_datastate(self, c):
        """predict(return_full_state=True) at the data: the smoothed states themselves"""
        def f():
            m, P = self.cond.predict(return_full_state=True, return_var=True)
            s = self.cond.states
            return arr(m), arr(s.smoothed_mean), arr(P), arr(s.smoothed_cov)
        r, exc = self.attempt(f)
        m, ms, P, Ps = r if r else (None,) * 4
        self.emit("same", exc, tag="fullstate.atdata.mean", a=m, b=ms, tol=-14)
        self.emit("same", exc, tag="fullstate.atdata.cov", a=P, b=Ps, tol=-14)

    def op_valid(self, c):
        def f():
            g = self.gp.condition(self.y(c)).gp
            s = g.states
            X = self.coords(c["X"], "array")
            st = g.predict(X, return_full_state=True)
            _, vt = g.predict(X, return_var=True)
            return dict(Pp=arr(s.predicted_cov), Pf=arr(s.filtered_cov), Ps=arr(s.smoothed_cov), Pt=arr(st.cov), var=arr(g.variance), vt=arr(vt))
        r, exc = self.attempt(f)
        self.emit("valid", exc, tol=c.get("tol", -6), **(r or {}))

    # ------------------------------------------------------------ kernels
    def kx(self, X, form):
        self.dt = float
        return self.coords(X, form)

    def op_eval(self, c):
        """k over two lists of times: the Gram matrix, or element by element"""
        def f():
            k = build(c["k"], c.get("ni", 1), CONV[c.get("conv", "array")])
            A, B = self.kx(c["X1"], c.get("form", "array")), self.kx(c["X2"], c.get("form", "array"))
            if c.get("how") == "pair":
                return arr(np.array([[np.asarray(k.evaluate(a, b)) for b in each(B)] for a in each(A)]))
            if c.get("how") == "float":
                return arr(np.array([[float(k.evaluate(a[0], b[0])) for b in c["X2"]] for a in c["X1"]]))
            return arr(KJIT(k, A, B) if c.get("how") == "jit" else k(A, B))
        r, exc = self.attempt(f)
        self.emit("eval", exc, tag=c.get("tag", "evaluate"), k=enc.kern(c["k"]), X1=self.enc_X(c["X1"]),
                  X2=self.enc_X(c["X2"]), g=r, tol=c.get("tol", -11))

    def op_dense(self, c):
        """the dense covariance of exposures (kernels.dense)"""
        from smolgp.kernels import dense
        def f():
            p = c["k"]["p"]
            w, q, s = p
            # documented: sigma^2 = S0 w0 Q
            how = c.get("how", "swq")
            cls = dense.IntegratedSHOKernel if c["k"]["fam"].startswith("Integrated") else dense.SHOKernel
            if how == "swq":
                k = cls(S=s * s / (w * q), w=w, Q=q)
            else:
                # documented: rho = 2 pi / w, tau = 2 Q / w, sig = sqrt(S w Q)
                k = cls(rho=2 * np.pi / w, tau=2 * q / w, sig=s)
            A, B = self.kx(c["X1"], c.get("form", "tuple")), self.kx(c["X2"], c.get("form", "tuple"))
            return arr(k(A, B))
        r, exc = self.attempt(f)
        self.emit("eval", exc, tag="dense", k=enc.kern(c["k"]), X1=self.enc_X(c["X1"]), X2=self.enc_X(c["X2"]),
                  g=r, tol=c.get("tol", -9))

    def op_diag(self, c):
        def f():
            k = build(c["k"], c.get("ni", 1), CONV[c.get("conv", "array")])
            A = self.kx(c["X1"], c.get("form", "array"))
            if c.get("how") == "pair":
                return arr(np.array([np.asarray(k.evaluate_diag(a)) for a in each(A)]))
            return arr(DJIT(k, A) if c.get("how") == "jit" else k(A))
        r, exc = self.attempt(f)
        self.emit("diag", exc, k=enc.kern(c["k"]), X1=self.enc_X(c["X1"]), g=r, tol=c.get("tol", -11))

    def op_psd(self, c):
        def f():
            return arr(build(c["k"]).psd(jnp.asarray(c["w"], dtype=float)))
        r, exc = self.attempt(f)
        self.emit("psd", exc, k=enc.kern(c["k"]), w=enc.nums(c["w"]), g=r, tol=c.get("tol", -8))

    def op_bound(self, c):
        def f():
            k = build(c["k"], 1, CONV[c.get("conv", "array")])
            t0 = jnp.asarray([c.get("t0", 0.0)])
            return arr(k(jnp.asarray(c["lags"], float), jnp.asarray([0.0]))[:, 0]), arr(k.error_bound())
        r, exc = self.attempt(f)
        g, b = r if r else (None, None)
        self.emit("bound", exc, k=enc.kern(c["k"]), lags=enc.nums(c["lags"]), g=g, b=b, tol=-11)

    def op_helpers(self, c):
        """the Van Loan helpers for any matrices"""
        from smolgp import helpers as h

        def f():
            F, L, Qc = (jnp.asarray(c[n], float) for n in ("F", "L", "Qc"))
            dt = jnp.asarray(c["dt"], float)
            m = dict(Q=arr(h.Q_from_VanLoan(F, L, Qc, dt)), Phibar=arr(h.Phibar_from_VanLoan(F, dt)))
            if c.get("full"):
                m.update({n: arr(v) for n, v in h.VanLoan(F, L, Qc, dt).items()})
            return m
        r, exc = self.attempt(f)
        self.emit("helpers", exc, F=[enc.nums(r) for r in c["F"]], L=[enc.nums(r) for r in c["L"]], Qc=[enc.nums(r) for r in c["Qc"]],
                  dt=enc.num(c["dt"]), full=bool(c.get("full")), m=r or {}, tol=c.get("tol", -10))

    def op_mats(self, c):
        def f():
            k = build(c["k"], 1, CONV[c.get("conv", "array")])
            x1, x2 = (jnp.asarray(c["x1"], float), jnp.asarray(c["x2"], float)) if c.get("xarr", True) else (c["x1"], c["x2"])
            L, Qc = k.noise_effect_matrix(), k.noise()
            m = dict(F=arr(k.design_matrix()), P=arr(k.stationary_covariance()), H=arr(k.observation_matrix(x1)),
                     A=arr(k.transition_matrix(x1, x2)), Q=arr(k.process_noise(x1, x2)),
                     dim={"i": int(k.dimension)})
            if c.get("lql", True):
                m["LQL"] = arr(np.asarray(L, float) @ np.asarray(Qc, float) @ np.asarray(L, float).T)
            if c.get("vl"):
                m["Qvl"] = arr(k.process_noise(x1, x2, use_van_loan=True))
            return m
        r, exc = self.attempt(f)
        self.emit("mats", exc, k=enc.kern(c["k"]), x1=enc.num(c["x1"]), x2=enc.num(c["x2"]), m=r or {}, tol=c.get("tol", -10))

    def op_imats(self, c):
        def f():
            k = build(c["k"], c["ni"], CONV[c.get("conv", "array")])
            x1, x2 = jnp.asarray(c["x1"], float), jnp.asarray(c["x2"], float)
            d = k.base_model.dimension
            Lg, Qc = np.asarray(k.noise_effect_matrix(), float), np.asarray(k.noise(), float)
            t = jnp.asarray(c["x2"], float)
            one = jnp.asarray(c["inst"])
            m = dict(F=arr(k.design_matrix()), Px=arr(np.asarray(k.stationary_covariance())[:d, :d]),
                     A=arr(k.transition_matrix(x1, x2)), Q=arr(k.process_noise(x1, x2)), R=arr(k.reset_matrix(c["inst"])),
                     Hi=arr(k.observation_matrix((t, jnp.asarray(c["d"], float), one))),
                     Hl=arr(k.observation_matrix((t, jnp.asarray(0.0), one))), Hp=arr(k.observation_matrix(t)),
                     dim={"i": int(k.dimension)})
            m["LQL"] = arr(Lg @ Qc @ Lg.T)
            if c.get("num"):
                m["Qnum"] = arr(k.process_noise(x1, x2, force_numerical=True))
            return m
        r, exc = self.attempt(f)
        self.emit("imats", exc, k=enc.kern(c["k"]), ni=c["ni"], inst=c["inst"], d=enc.num(c["d"]), x1=enc.num(c["x1"]),
                  x2=enc.num(c["x2"]), m=r or {}, tol=c.get("tol", -9))

    def op_names(self, c):
        def f():
            X = [[0.0, 0.5, 0], [1.0, 0.5, 0]]
            cc = dict(k=c["k"], X=X, noise=0.1, ni=1)
            g = self.make(cc)
            if c.get("deep"):
                g = g.condition(jnp.array([0.3, -0.2]))[1]
                return list(g.get_all_component_means())
            from smolgp.kernels.base import extract_leaf_kernels
            return [k.name for k in extract_leaf_kernels(g.kernel)]
        r, exc = self.attempt(f)
        self.emit("names", exc, k=enc.kern(c["k"]), names=r or [])

    # ------------------------------------------------------------ gradients
    def op_grad(self, c):
        cfg = self.cfg
        wrt = c["wrt"]     # list of {kind, leaf, q}

        def place(k, vals):
            j = [0]

            def go(n):
                if n["op"] == "leaf":
                    j[0] += 1
                    me = j[0]
                    return dict(n, p=[vals.get(("param", me, q + 1), x) for q, x in enumerate(n["p"])])
                if n["op"] == "scale":
                    j[0] += 1
                    c = vals.get(("param", j[0], 1), n["c"])
                    return dict(n, c=c, k=go(n["k"]))
                if n["op"] in ("obs", "int"):
                    return dict(n, k=go(n["k"]))
                if n["op"] == "basis":
                    j[0] += 1
                    return n
                a = go(n["l"])
                return dict(n, l=a, r=go(n["r"]))
            return go(k)

        integ = is_int(cfg["k"])

        def lp(v):
            vals, ts = {}, [x[0] for x in cfg["X"]]
            ds = [x[1] for x in cfg["X"]] if integ else []
            noise = list(cfg["noise"]) if isinstance(cfg["noise"], list) else [cfg["noise"]] * len(ts)
            y = list(c["y"])
            for w, x in zip(wrt, v):
                if w["kind"] == "param":
                    vals[("param", w["leaf"], w["q"])] = x
                elif w["kind"] == "noise":
                    noise[w["q"] - 1] = x
                elif w["kind"] == "y":
                    y[w["q"] - 1] = x
                elif w["kind"] == "texp":
                    ds[w["q"] - 1] = x
                else:
                    ts[w["q"] - 1] = x
            k = build(place(cfg["k"], vals), cfg.get("ni", 1), lambda p: jnp.asarray(p, float))
            t = jnp.stack([jnp.asarray(x, float) for x in ts])
            X = t
            assert cfg.get("form") not in ("dict", "rows")
            if cfg.get("form") == "flags":
                X = (t, jnp.asarray([x[2] for x in cfg["X"]], int))
            if integ:
                X = (t, jnp.stack([jnp.asarray(x, float) for x in ds]), jnp.asarray([x[2] for x in cfg["X"]], int))
            sv = {"seq": IntegratedStateSpaceSolver if integ else StateSpaceSolver,
                  "par": ParallelIntegratedStateSpaceSolver if integ else ParallelStateSpaceSolver}[cfg.get("solver", "seq")]
            mu = {"mean": meanfun(cfg["mean"])} if cfg.get("mean") else {}
            gp = GaussianProcess(k, X, diag=jnp.stack([jnp.asarray(x, float) for x in noise]), solver=sv, **mu)
            return gp.log_probability(jnp.stack([jnp.asarray(x, float) for x in y]))

        x0 = []
        nodes = []

        def walk(n):
            if n["op"] == "leaf":
                nodes.append(n["p"])
            elif n["op"] == "scale":
                nodes.append([n["c"]])
                walk(n["k"])
            elif n["op"] in ("obs", "int"):
                walk(n["k"])
            elif n["op"] == "basis":
                nodes.append([])
            else:
                walk(n["l"])
                walk(n["r"])
        walk(cfg["k"])
        for w in wrt:
            if w["kind"] == "param":
                x0.append(nodes[w["leaf"] - 1][w["q"] - 1])
            elif w["kind"] == "noise":
                x0.append(cfg["noise"][w["q"] - 1] if isinstance(cfg["noise"], list) else cfg["noise"])
            elif w["kind"] == "y":
                x0.append(c["y"][w["q"] - 1])
            elif w["kind"] == "texp":
                x0.append(cfg["X"][w["q"] - 1][1])
            else:
                x0.append(cfg["X"][w["q"] - 1][0])
        g, exc = self.attempt(lambda: arr((jax.jacfwd if c.get("mode") == "fwd" else jax.grad)(lp)(jnp.asarray(x0, float))))
        self.emit("grad", exc, tag=c.get("tag", "gradient"), y=enc.nums(c["y"]), g=g,
                  wrt=[dict(kind=w["kind"], leaf=w.get("leaf", 0), q=w["q"], x=enc.num(x)) for w, x in zip(wrt, x0)])

    # ------------------------------------------------------------ rejection
    def op_reject(self, c):
        def f():
            g = None
            what = c["what"]
            if what == "gp":
                return self.make(c)
            if what == "code":
                return REJECT[c["code"]](self)
        _, exc = self.attempt(f)
        self.emit("reject", exc, tag="reject." + c.get("code", c["what"]))

    def op_vmap(self, c):
        """log-probabilities of a batch of data under vmap, and one by one"""
        def f():
            ys = jnp.asarray(np.array(c["ys"], dtype=float))
            return arr(jax.vmap(self.gp.log_probability)(ys)), arr(jnp.stack([self.gp.log_probability(y) for y in ys]))
        r, exc = self.attempt(f)
        a, b = r if r else (None, None)
        self.emit("same", exc, tag="vmap.logp", a=a, b=b, tol=-11)

    def op_vmapk(self, c):
        """a batch of kernels (each parameter batched) under vmap, and one by one"""
        def f():
            cfg = self.cfg
            X = self.coords(cfg["X"], cfg.get("form", "tuple" if is_int(cfg["k"]) else "array"))
            y = self.y(c)

            def lp(s):
                def sc(n):
                    if n["op"] == "leaf":
                        return dict(n, p=[p * s for p in n["p"]])
                    if n["op"] == "scale":
                        return dict(n, k=sc(n["k"]))
                    return dict(n, l=sc(n["l"]), r=sc(n["r"]))
                k = build(sc(cfg["k"]), cfg.get("ni", 1), lambda p: p)
                return GaussianProcess(k, X, diag=jnp.asarray(cfg["noise"], float)).log_probability(y)
            ss = jnp.asarray(c["ss"], float)
            return arr(jax.vmap(lp)(ss)), arr(jnp.stack([lp(s) for s in ss]))
        r, exc = self.attempt(f)
        a, b = r if r else (None, None)
        self.emit("same", exc, tag="vmap.kernel", a=a, b=b, tol=-10)

    def op_use(self, c):
        self.slots[self.cur] = (self.gp, self.cond, self.cfg, self.dt)
        self.cur = c["slot"]
        self.gp, self.cond, self.cfg, self.dt = self.slots.get(self.cur, (None, None, None, float))
        self.emit("use", "", slot=self.cur)

    def op_share(self, c):
        """the same GP object, unconditioned, also in the current slot"""
        self.gp, _, self.cfg, self.dt = self.slots[c["slot"]]
        self.cond = None
        self.emit("share", "", slot=c["slot"])

    def op_impossible(self, c):
        def f():
            bad = {"nan": float("nan"), "inf": float("inf"), "-inf": float("-inf")}
            y = jnp.asarray(np.array([bad.get(v, v) for v in c["y"]], dtype=float))
            gp = self.gp
            if "noise" in c:
                self.cfg = dict(self.cfg, noise=c["noise"])
                gp = self.make(self.cfg)
            return arr(gp.log_probability(y) if c.get("how") != "cond" else gp.condition(y).log_probability)
        r, exc = self.attempt(f)
        self.emit("impossible", exc, lp=r)




def each(X):
    if isinstance(X, dict):
        return [{a: x[i] for a, x in X.items()} for i in range(len(X["t"]))]
    return [tuple(x[i] for x in X) for i in range(len(X[0]))] if isinstance(X, tuple) else X


def meanfun(c, form="callable"):
    def mean(X):
        t = X[0] if isinstance(X, tuple) else X
        out = 0.0
        for a in reversed(c):
            out = out * t + a
        return out
    if len(c) == 1:                # a constant, as a number or an array
        return c[0] if form == "callable" else jnp.asarray(c[0])
    if form == "object":
        return tinygp.means.Mean(mean)
    return mean


KJIT = jax.jit(lambda k, A, B: k(A, B))
DJIT = jax.jit(lambda k, A: k(A))
CONV = {"array": lambda p: jnp.asarray(p, float), "float": lambda p: p, "np": lambda p: np.float64(p)}


def _unconditioned():
    return GaussianProcess(sk.Exp(scale=1.5), jnp.array([0.0, 1.0, 2.5]), diag=0.1)


def _integrated():
    k = ik.IntegratedExp(scale=1.5, num_insts=1)
    return GaussianProcess(k, (jnp.array([0.0, 1.0]), jnp.array([0.2, 0.3]), jnp.array([0, 0])), diag=0.1)


_Y3 = jnp.array([0.1, -0.3, 0.2])
# documented misuses: each must raise
REJECT = {
    "noise-dense": lambda s: GaussianProcess(sk.Exp(scale=1.5), jnp.array([0.0, 1.0]), noise=Dense(jnp.array([[0.2, 0.1], [0.1, 0.3]]))),
    "noise-banded": lambda s: GaussianProcess(sk.Exp(scale=1.5), jnp.array([0.0, 1.0]), noise=Banded(jnp.array([0.2, 0.3]), jnp.array([[0.1], [0.0]]))),
    "covariance": lambda s: _unconditioned().covariance,
    "sample": lambda s: _unconditioned().sample(jax.random.PRNGKey(0)),
    "predict-unconditioned": lambda s: _unconditioned().predict(jnp.array([0.5])),
    "predict-unconditioned-at-data": lambda s: _unconditioned().predict(),
    "component-unconditioned": lambda s: _unconditioned().get_component_mean("Exp"),
    "components-unconditioned": lambda s: _unconditioned().get_all_component_means(),
    "integrated-plain-coordinates": lambda s: GaussianProcess(ik.IntegratedExp(scale=1.5, num_insts=1), jnp.array([0.0, 1.0]), diag=0.1),
    "integrated-one-tuple": lambda s: GaussianProcess(ik.IntegratedSHO(omega=1.5, quality=2.0, num_insts=1), (jnp.array([0.0, 1.0]),), diag=0.1),
    "integrated-plain-in-sum": lambda s: GaussianProcess(
        ik.IntegratedExp(scale=1.5, num_insts=1) + ik.IntegratedSHO(omega=1.5, quality=2.0, num_insts=1), jnp.array([0.0, 1.0]), diag=0.1),
    "integrated-plain-scaled": lambda s: GaussianProcess(2.0 * ik.IntegratedExp(scale=1.5, num_insts=1), jnp.array([0.0, 1.0]), diag=0.1),
    "sum-with-tinygp": lambda s: sk.Exp(scale=1.5) + tk.Exp(scale=1.5),
    "rsum-with-number": lambda s: 1.5 + sk.Exp(scale=1.5),
    "sum-with-number": lambda s: sk.Exp(scale=1.5) + 1.5,
    "product-with-tinygp": lambda s: sk.Exp(scale=1.5) * tk.Exp(scale=1.5),
    "product-with-vector": lambda s: sk.Exp(scale=1.5) * np.array([1.0, 2.0]),
    "vector-times-kernel": lambda s: sk.Exp(scale=1.5).__rmul__(jnp.array([1.0, 2.0])),
    "condition-test-structure": lambda s: _unconditioned().condition(_Y3, (jnp.array([0.5]), jnp.array([0.0]))),
    "condition-test-trailing": lambda s: _unconditioned().condition(_Y3, jnp.array([[0.5, 0.7]])),
    "condition-integrated-plain-test": lambda s: _integrated().condition(_Y3[:2], jnp.array([0.5])),
    "mean-not-scalar": lambda s: GaussianProcess(sk.Exp(scale=1.5), jnp.array([0.0, 1.0]), diag=0.1, mean=lambda x: jnp.array([x, x])),
    "matern-integer-nu": lambda s: kb.Matern(nu=2.0, scale=1.0),
    "matern-nu": lambda s: kb.Matern(nu=1.3, scale=1.0),
    "matern-nearly-half-integer": lambda s: kb.Matern(nu=2.55, scale=1.0),
    "dense-sho-no-parameters": lambda s: dk.SHOKernel(),
    "dense-sho-partial": lambda s: dk.SHOKernel(S=1.0, w=2.0),
    "dense-isho-no-parameters": lambda s: dk.IntegratedSHOKernel(rho=1.0, tau=2.0),
}


def main(src, dst):
    sessions = json.load(open(src))
    with open(dst, "w") as f:
        for si, ses in enumerate(sessions):
            out = []
            s = Session(out)
            for ci, c in enumerate(ses):
                n0 = len(out)
                getattr(s, "op_" + c["op"])(c)
                for e in out[n0:]:
                    e["at"] = [si, ci]
                    f.write(json.dumps(e) + "\n")


if __name__ == "__main__":
    main(sys.argv[1], sys.argv[2])
