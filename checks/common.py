"""Scenarios shared by the checks: symbolic users of the public interface."""
from skan.values import (V, Const, Sym, App, Ite, Tup, Ref, Ext, Cls, NONE,
                         TRUE, FALSE, UNDEF, is_const, walk, show, rebuild)
from skan.norm import Norm, compare, cases, MATCH, MISMATCH, UNKNOWN
from skan.report import Undecided, RaisedAlways, AnchorMissing
from skan.interp import AbsRaise, Unsupported

ROBUSTIFY = "skwdro.torch.robustify"


class Robust:
    """One robust loss built through the public entry point on a batch
    (x0, y0), to be evaluated on another batch (x, y)."""

    def __init__(self, K, S, labels=True, cost=None, post=True,
                 reduction=None, imp=True, rho="+", eps=True, sigma=True,
                 l2=None, transform=True, same_batch=False, spatial=False,
                 adapt="prodigy", n_iter=None, lr=None, loss=None, rank=2,
                 rho_tensor=True, m0="m0"):
        self.K, self.S = K, S
        self.labels, self.post = labels, post
        sh = ("m", "d") if rank == 2 else ("m",)
        self.x = S.tensor("x", sh)
        self.y = S.tensor("y", ("m", "l")) if labels else NONE
        if same_batch:
            self.x0, self.y0 = self.x, self.y
        else:
            self.x0 = S.tensor("x0", (m0, "d"))
            self.y0 = S.tensor("y0", (m0, "l")) if labels else NONE
        self.loss = loss if loss is not None else S.user_module(
            "loss", reduction=Const("none"))
        self.tr = S.user_module("tr", out="l") if transform else NONE
        self.rho = rho if isinstance(rho, V) else S.scalar("rho", rho)
        kw = {}
        if eps:
            self.eps = S.num("eps") if eps is True else eps
            kw["epsilon"] = self.eps
        if sigma:
            self.sigma = S.num("sigma") if sigma is True else sigma
            kw["sigma"] = self.sigma
        if l2 is not None:
            self.l2 = l2
            kw["l2reg"] = l2
        if reduction is not None:
            kw["reduction"] = Const(reduction)
        if cost is not None:
            kw["cost_spec"] = Const(cost)
        if n_iter is not None:
            kw["n_iter"] = n_iter
        if lr is not None:
            kw["learning_rate"] = lr
        kw["adapt"] = Const(adapt)
        kw["imp_samp"] = imp if isinstance(imp, V) else Const(imp)
        if spatial:
            kw["loss_reduces_spatial_dims"] = TRUE
        kw["post_sample"] = Const(post)
        kw["n_samples"] = S.integer("n")
        kw["seed"] = S.integer("seed")
        self.kw = kw
        self.D = S.icall(K.get(S, ROBUSTIFY), self.loss, self.tr, self.rho,
                         self.x0, self.y0, **kw)

    def at(self, name):
        return self.S.get_attr(self.D, name)

    def call(self, *a, **kw):
        return self.S.icall(self.D, *a, **kw)

    def forward(self, *a):
        """value of the robust loss on the batch (x, y)"""
        S = self.S
        if self.post:
            return self.call(self.x, self.y, *a)
        z = self.zetas()
        return self.call(self.x, self.y, z[0], z[1])

    def elsewhere(self):
        """an evaluation on another batch of the same size, not recorded"""
        S = self.S
        x = S.tensor("xb", ("m", "d"))
        y = S.tensor("yb", ("m", "l")) if self.labels else NONE
        n = S.mute
        S.mute = n + 1
        try:
            self.call(x, y, *(() if self.post else self.zetas()))
        finally:
            S.mute = n

    def zetas(self, *a):
        z = self.S.icall(self.at("generate_zetas"), *a)
        if isinstance(z, Tup):
            return z.items
        its = self.S.items_of(z)
        return tuple(its)

    def unit_loss(self, z, zl):
        """per-sample value of the user's loss at given points"""
        S = self.S
        n = S.mute
        S.mute = n + 1
        try:
            a = S.icall(self.tr, z) if self.tr is not NONE else z
            return S.icall(self.loss, *([a, zl] if self.labels else [a]))
        finally:
            S.mute = n


def choose(v, c, pol):
    """v when the test c has the given outcome"""
    def take(t):
        if isinstance(t, Ite) and t.c is c:
            return t.a if pol else t.b
        return t
    return rebuild(v, take)


def draws(S, v):
    """random draws a value is computed from"""
    return [t for t in walk(v) if isinstance(t, App)
            and t.op in ("rsample", "sample")]


def one(N, S, terms, what):
    """the common normal form of terms expected to be the same value"""
    ps = {N.of(t).key(): t for t in terms}
    if len(ps) != 1:
        raise Undecided("%d different %s" % (len(ps), what))
    return next(iter(ps.values()))


def has_axis(S, v, ax):
    s = S.shape(v)
    return s is not None and any(ax in (d,) or (isinstance(
        d, App) and ax in d.args) for d in s)


def user_points(S, ref, ax, upto=None, since=0):
    """arguments of the calls of a user module whose data depend on axis"""
    out = []
    for e in S.events[since:upto]:
        if e.kind == "usercall" and e.d["fn"] is ref and e.d["args"]:
            a = e.d["args"][0]
            if isinstance(ax, Const):
                if any(isinstance(x, App) and x.op in ("rsample", "sample")
                       for x in walk(S.freeze(a))):
                    out.append(e)
            elif has_axis(S, a, ax) or ax in frozenset(sum(
                    (list(dim_parts(d)) for d in S.shape(a) or ()), [])):
                out.append(e)
    return out


def dim_parts(d):
    from skan.shapes import dim_factors
    return dim_factors(d)


def raised(S, leaves, *names):
    return [l for l in leaves if S.exc_name(l) in names]


LM, OPR = "skwdro.linear_models.", "skwdro.operations_research."
ESTIMATORS = {"LinearRegression": LM, "LogisticRegression": LM,
              "NewsVendor": OPR, "Portfolio": OPR, "Weber": OPR}
LABELLED = ("LinearRegression", "LogisticRegression", "Weber")
DEDICATED = ("LinearRegression", "LogisticRegression", "NewsVendor",
             "Portfolio")
POST, PRE, DED = "entropic_torch_post", "entropic_torch_pre", "dedicated"


def solvers(name):
    return [POST, PRE] + ([DED] if name in DEDICATED else [])


def init_params(S, C):
    """names of the constructor's parameters"""
    f, _ = S.class_lookup(C, "__init__")
    a = S.fns[f.fid].node.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs][1:]


class Est:
    """An estimator built with symbolic hyperparameters and fitted on
    symbolic data."""

    def __init__(self, K, S, name, solver=POST, nclasses=2, **over):
        self.K, self.S, self.name, self.solver = K, S, name, solver
        S.nclasses = nclasses
        self.C = C = K.get(S, ESTIMATORS[name] + name)
        self.params = init_params(S, C)
        self.hyper = {}
        for p in self.params:
            v = over[p] if p in over else self.default(p)
            if v is not None:
                self.hyper[p] = v
        self.e = None
        self.X = S.array("X", ("m", "d"))
        self.y = S.array("y", ("m",)) if name in LABELLED else None

    def default(self, p):
        S = self.S
        if p in ("rho", "l2_reg", "solver_reg", "sampler_reg", "k", "u",
                 "eta", "alpha", "kappa", "learning_rate"):
            return S.num("hyper_" + p)
        if p in ("n_zeta_samples", "random_state"):
            return S.integer("hyper_" + p)
        if p == "n_iter":
            return Tup((S.integer("n_warm"), S.integer("n_train")))
        if p == "solver":
            return Const(self.solver)
        if p == "opt_cond":
            return S.icall(self.K.get(
                S, "skwdro.solvers.optim_cond.OptCondTorch"), Const(2))
        return None

    def build(self):
        self.e = self.S.icall(self.C, **self.hyper)
        return self

    def at(self, name):
        return self.S.get_attr(self.e, name)

    def fields(self):
        return dict(self.S.obj(self.e).f)

    def data(self):
        return [self.X] + ([self.y] if self.y is not None else [])

    def fit(self):
        return self.S.icall(self.at("fit"), *self.data())

    def use(self, meth, X=None, y=None):
        a = [X if X is not None else self.X]
        if y is not None:
            a.append(y)
        return self.S.icall(self.at(meth), *a)

    def site(self, *names):
        return self.K.method_site(self.S, self.C, *names)


METHODS = {"LinearRegression": ("predict",),
           "LogisticRegression": ("predict", "predict_proba"),
           "NewsVendor": ("eval", "score"), "Portfolio": ("eval", "score"),
           "Weber": ("eval", "score")}


def mentions(v, t):
    return any(x is t for x in walk(v))


def fits(K, S, name, solver, **kw):
    """an estimator fitted in the session, with the value returned by fit"""
    e = Est(K, S, name, solver, **kw).build()
    return e, e.fit()


class Phase:
    """The optimiser steps made in one training loop (or outside loops)."""

    def __init__(self, S, loops, group):
        self.loops, self.steps = loops, group
        self.lid = loops[-1][0] if loops else None
        self.src = loops[-1][1] if loops else None
        self.now, self.vals = {}, []
        for x in group:
            self.now.update(x.d["vals"])
            for g in x.d["grads"].values():
                t = S.strip(g)
                if isinstance(t, App) and t.op == "grad" and \
                        t.args[0] not in self.vals:
                    self.vals.append(t.args[0])

    @property
    def val(self):
        if len(self.vals) != 1:
            raise Undecided("%d losses are differentiated" % len(self.vals))
        return self.vals[0]


def phases(S):
    st = [x for x in S.events if x.kind == "step"]
    return [Phase(S, lp, [x for x in st if x.loops == lp])
            for lp in dict.fromkeys(x.loops for x in st)]


def multiplier(S):
    """the multipliers of the robust losses built in the session"""
    out = []
    for ev in S.events:
        if ev.kind == "new" and isinstance(ev.d["ref"], Ref) and \
                ev.d["ref"].oid in S.st.heap:
            o = S.obj(ev.d["ref"])
            if o.cls is not None and S.class_lookup(
                    o.cls, "get_initial_guess_at_dual")[0] is not None:
                r = S.get_attr(ev.d["ref"], "lam")
                if isinstance(r, Ref) and r not in out:
                    out.append(r)
    return out


class Roles:
    """Model parameters of a fitted estimator, told apart by their shapes,
    with the values they have in a phase."""

    def __init__(self, S, e, ph):
        self.S, self.e = S, e
        lam = multiplier(S)
        if len(lam) != 1:
            raise Undecided("%d multipliers" % len(lam))
        self.lam = ph.now.get(lam[0])
        if self.lam is None:
            self.lam = S.freeze(lam[0])
        self.all = [(p, v) for p, v in ph.now.items()
                    if p is not lam[0] and S.obj(p).f.get(
                        "requires_grad") is TRUE]
        self.d = S.dim("d")

    def pick(self, test, what):
        got = [v for p, v in self.all if test(tuple(self.S.shape(v) or ()))]
        if len(got) != 1:
            raise Undecided("%d parameters look like the %s" % (
                len(got), what))
        return got[0]

    def has(self, test):
        return any(test(tuple(self.S.shape(v) or ())) for p, v in self.all)

    def weight(self):
        return self.pick(lambda s: len(s) == 2 and s[1] is self.d, "weight")

    def bias(self):
        return self.pick(lambda s: len(s) == 1, "bias")

    def loss(self, N, z, zl):
        """documented loss of the estimator's problem at points z (a term
        whose last axis is the feature axis) with labels zl, as Polys"""
        S, e, d = self.S, self.e, self.d
        h = lambda k: N.of(e.hyper[k])
        if e.name in ("LinearRegression", "LogisticRegression"):
            s = N.sum(z * N.of(self.weight()), [d])
            if e.hyper.get("fit_intercept", TRUE) is not FALSE:
                s = s + N.of(self.bias())
            if e.name == "LinearRegression":
                return (s - zl) ** 2
            return N.log(1 + N.exp(-(zl * s)))
        if e.name == "NewsVendor":
            th = N.of(self.pick(lambda s: len(s) == 1, "quantity"))
            return h("k") * th - h("u") * N.minof([th, z])
        if e.name == "Portfolio":
            w = N.of(self.weight())
            tau = N.of(self.pick(lambda s: s == (), "threshold"))
            ex = N.exp(w)
            r = N.sum(z * ex / N.sum(ex, [d]), [d])
            cv = tau + N.maxof([N.zero(), -r - tau]) / h("alpha")
            return -r + h("eta") * cv
        if e.name == "Weber":
            pos = N.of(self.pick(lambda s: len(s) == 1, "position"))
            return zl * N.sum((z - pos) * (z - pos), [d]) ** .5
        raise Undecided(e.name)

    def l2(self, N):
        """half the weight times the squared norm of the parameters"""
        if "l2_reg" not in self.e.hyper:
            return N.zero()
        t = N.zero()
        for p, v in self.all:
            q = N.of(v)
            t = t + N.sum(q * q, [a for a in self.S.shape(v)
                                  if a is not Const(1)])
        return N.of(self.e.hyper["l2_reg"]) * t / 2

    def data(self, N):
        """data and labels of the problem, as Polys"""
        S, e = self.S, self.e
        X = N.of(e.X)
        if e.name == "NewsVendor":
            X = N.mean(X, [self.d])
        return X, None if e.y is None else N.of(self.labels())

    def labels(self):
        """labels after the encoding made by the classifier"""
        e = self.e
        if e.name != "LogisticRegression":
            return e.y
        return self.S.freeze(e.at("y_"))
