"""Symbolic users of the samplers and of the distributions they are
documented to have."""
from .common import *

SAM = "skwdro.base.samplers.torch."
COV = ("sigma", "tril", "prec", "cov")


class Sampler:
    """A sampler built on (x, y).  `laws(x, y)` are the documented data and
    label distributions around these centres (None when there is none)."""

    def __init__(self, K, S, kind):
        self.K, self.S, self.kind = K, S, kind
        self.n = S.integer("n")
        self.seed = S.integer("seed")
        self.lab = kind[0] not in ("NewsVendorNormalSampler",
                                   "PortfolioNormalSampler",
                                   "PortfolioLaplaceSampler",
                                   "NoLabelsCostSampler")
        self.at("")

    def at(self, tag):
        """symbols of a batch"""
        S = self.S
        m = "m" + tag
        x = S.tensor("x" + tag, (m, "d"))
        y = S.tensor("y" + tag, (m, "l")) if self.lab else NONE
        return x, y

    def build(self, x, y):
        S, K = self.S, self.K
        name, how = self.kind
        C = self.cls = K.get(S, SAM + name)
        kw = {"seed": self.seed}
        if "Cost" in name:
            p, k, kap = how
            if self.lab:
                self.kappa = Const(float("inf")) if kap == "inf" else \
                    S.num("kappa")
                cost = S.icall(K.get(
                    S, "skwdro.base.costs_torch.NormLabelCost"),
                    p=Const(p), power=Const(k), kappa=self.kappa)
            else:
                cost = S.icall(K.get(
                    S, "skwdro.base.costs_torch.NormCost"),
                    p=Const(p), power=Const(k))
            self.sigma = S.num("sigma")
            a = (cost, x, y, self.sigma) if self.lab else (
                cost, x, self.sigma)
            self.s = S.icall(C, *a, **kw)
            return self.s
        self.spread = {}
        for pre, ax in (("", "d"), ("l_", "l")):
            if pre and name != "ClassificationNormalNormalSampler":
                continue
            h = pre + how
            v = S.num(h) if how == "sigma" else S.tensor(h, (ax, ax))
            self.spread[pre] = kw[h] = v
        a = (x, y) if self.lab else (x,)
        if "Bernouilli" in name:
            self.p = S.num("p")
            a = (self.p,) + a
        self.s = S.icall(C, *a, **kw)
        return self.s

    def laws(self, x, y):
        S = self.S
        name, how = self.kind
        if "Cost" in name:
            p, k, kap = how
            fam = "Laplace" if p == 1 else "Normal"
            dx = S.make_dist(fam, [], {"loc": x, "scale": self.sigma})
            dy = None
            if self.lab and kap != "inf":
                sc = S.binop("div", self.sigma, self.kappa) if k == 1 \
                    else self.sigma
                dy = S.make_dist(fam, [], {"loc": y, "scale": sc})
            return dx, dy
        dx = self.normal(x, "", "d")
        dy = None
        if "NormalNormal" in name:
            dy = self.normal(y, "l_", "l")
        return dx, dy

    def normal(self, x, pre, ax):
        S = self.S
        how = self.kind[1]
        v = self.spread[pre]
        if how == "sigma":
            return S.make_dist("Normal", [], {"loc": x, "scale": v})
        key = {"tril": "scale_tril", "prec": "precision_matrix",
               "cov": "covariance_matrix"}[how]
        return S.make_dist("MultivariateNormal", [], {"loc": x, key: v})

    def label_kind(self):
        """how labels are drawn: none, law, fixed or flipped"""
        name, how = self.kind
        if not self.lab:
            return "none"
        if "Id" in name or "Cost" in name and how[2] == "inf":
            return "fixed"
        return "flipped" if "Bernouilli" in name else "law"

    @property
    def name(self):
        n, how = self.kind
        return "%s(%s)" % (n, how if isinstance(how, str) else ", ".join(
            "%s=%s" % x for x in zip(("p", "power", "kappa"), how)
            if x[1] is not None))


COSTS = ((1., 1.), (2., 1.), (float("inf"), 1.), (2., 2.))
KINDS = [(n, c) for n in (
    "NewsVendorNormalSampler", "PortfolioNormalSampler",
    "PortfolioLaplaceSampler", "ClassificationNormalNormalSampler",
    "ClassificationNormalIdSampler", "ClassificationNormalBernouilliSampler")
    for c in COV]
KINDS += [("NoLabelsCostSampler", (p, k, None)) for p, k in COSTS]
KINDS += [("LabeledCostSampler", (p, k, kap)) for p, k in COSTS
          for kap in ("+", "inf")]


def title(kind):
    o = Sampler.__new__(Sampler)
    o.kind = kind
    return o.name


def draw_of(S, law, got, n):
    """the draw of a law with the same random source as a given value"""
    ds = sorted(draws(S, got), key=lambda t: t.args[1].v)
    if not ds:
        return None
    return S.mk("rsample", (law, ds[-1].args[1]), {"n": App("size", (n,))})


def check_draws(K, S, s, nm, x, y, got, rule, where):
    """the value returned by sample() is a draw of the documented laws"""
    its = S.known_items(got)
    if its is None or len(its) != 2:
        K.require(rule, nm + " pair", None if its is None else False,
                  "sample() returns %s" % show(got), where)
        return
    z, zl = (S.freeze(v) for v in its)
    dx, dy = s.laws(x, y)
    m = S.shape(x)[0]
    one_draw(K, S, nm + " data", z, dx, s.n, x, rule, where,
             (s.n, m, S.dim("d")))
    k = s.label_kind()
    if k == "none":
        K.require(rule, nm + " labels", zl is NONE,
                  "a sampler without labels returns labels", where)
        return
    K.require(rule, nm + " labels present", zl is not NONE,
              "a labelled sampler returns no labels", where)
    if zl is NONE:
        return
    sh = (s.n, m, S.dim("l"))
    if k == "law":
        one_draw(K, S, nm + " labels", zl, dy, s.n, y, rule, where, sh)
    elif k == "fixed":
        K.value(rule, nm + " labels", S, zl, lambda N: N.of(y), where,
                shape=sh)
    else:
        flips(K, S, s, nm + " labels", zl, y, rule, where, sh)


def one_draw(K, S, nm, z, law, n, x, rule, where, sh):
    e = draw_of(S, law, z, n)
    if e is None:
        K.require(rule, nm, False, "the sample is not random: %s" % show(
            z, 5), where)
        return
    K.value(rule, nm, S, z, lambda N: N.of(e), where, shape=sh)
    bad = [t for t in draws(S, z) if t.op != "rsample"]
    K.require("reparametrised", nm, not bad, "the draw is not "
              "differentiable with respect to its centre", where)


def flips(K, S, s, nm, zl, y, rule, where, sh):
    """labels y with probability p and -y otherwise"""
    ds = draws(S, zl)
    if len(ds) != 1:
        raise Undecided("label draw of an unknown form")

    def spec(N):
        b = N.atom(("flip",), frozenset(S.shape(ds[0]) or ()), True)
        return 2 * b * N.of(y) - N.of(y)

    def got(N):
        d = ds[0].args[0]
        if not (isinstance(d, App) and d.op == "dist"):
            raise Undecided("label law")
        k = dict(d.kw)
        if d.args[0].v == "TransformedDistribution":
            base = k["base"]
            v = N.atom(("flip",), frozenset(S.shape(ds[0]) or ()), True)
            ts = k["transforms"]
            for t in ts.items if isinstance(ts, Tup) else (ts,):
                if not (isinstance(t, App) and t.op == "dist" and t.args[
                        0].v == "AffineTransform"):
                    raise Undecided("label transform")
                q = dict(t.kw)
                v = N.of(q["loc"]) + N.of(q["scale"]) * v
        else:
            raise Undecided("label law")
        pr = dict(base.kw).get("probs")
        if pr is None:
            raise Undecided("label law without probabilities")
        K.value(rule, nm + " probability", S, pr, lambda N: N.of(s.p), where)
        return v
    if zl is not ds[0]:
        raise Undecided("label draw of an unknown form")
    K.value(rule, nm, S, got, spec, where)
    K.require(rule, nm + " shape", shape_eq(S, zl, sh), "labels of shape %s"
              % (S.shape(zl),), where)


def shape_eq(S, v, sh):
    s = S.shape(v)
    return None if s is None else tuple(s) == tuple(sh)
