"""Formulas of the built-in losses."""
from fractions import Fraction

from .common import *

EXPLANATION = (
    "Each built-in loss is abstractly built with symbolic constants and "
    "called on symbolic batches of two and three dimensions; the returned "
    "term, as a function of the module's parameters and of the data, must "
    "have the normal form of the documented loss of each sample and keep a "
    "last axis of length one.")

LT = "skwdro.base.losses_torch."
BATCHES = (("m",), ("n", "m"))
# sizes the cases are decided for again
SIZES = (dict(m=1), dict(n=1))


def run(K):
    K.rule("formula", "the loss is its documented formula, sample by sample")
    K.rule("parameters", "the trainable parameters are those of the formula")
    for bt in BATCHES:
        sh = "(%s, d)" % ", ".join(bt)
        for cls in ("logistic.LogisticLoss", "quadratic.QuadraticLoss"):
            for bias in (False, True):
                for l2 in (None, 0., "+"):
                    for call in ("value", "forward"):
                        nm = "%s(fit_intercept=%s, l2reg=%s).%s on %s" % (
                            cls.split(".")[1], bias, l2, call, sh)
                        with K.case(nm):
                            linear(K, nm, cls, bias, l2, call, bt)
        for nm, f in (("BiDiffSoftMarginLoss on " + sh, margin),
                      ("NewsVendorLoss_torch on " + sh, newsvendor),
                      ("CustomNewsvendorLoss on " + sh, custom),
                      ("SimplePortfolio on " + sh, portfolio),
                      ("SimpleWeber on " + sh, weber)):
            with K.case(nm):
                f(K, nm, bt)


def trainable(S, mod):
    """{kind of shape: parameter} of the module's parameters"""
    out = {}
    for p in S.params_of(mod, True):
        sh = S.shape(S.freeze(p))
        k = None if sh is None else tuple(
            x for x in sh if not is_const(x, 1))
        if k in out or k is None:
            return None
        out[k] = p
    return out


def roles(K, S, nm, mod, want, where):
    """{name: value of the parameter} by shape"""
    ps = trainable(S, mod)
    if ps is None:
        raise Undecided("parameters with unexpected shapes")
    keys = {k: tuple(S.dim(x) for x in v) for k, v in want.items()}
    K.require("parameters", nm, set(ps) == set(keys.values()),
              "the trainable parameters have shapes %s" % ", ".join(
                  "(%s)" % ", ".join(map(show, k)) for k in ps), where)
    if set(ps) != set(keys.values()):
        return None
    return {k: ps[v] for k, v in keys.items()}


def evaluate(K, build, call, args):
    S = K.session()
    b = {}

    def go(S):
        m = b["m"] = build(S)
        # any values of the parameters, not the initial ones
        for i, p in enumerate(S.params_of(m, True)):
            S.method_call(p, "copy_", [S.tensor(
                "theta%d" % i, S.shape(S.freeze(p)))], {})
        b["in"] = a = args(S)
        v = S.icall(S.get_attr(m, call), *a) if call else S.icall(m, *a)
        return S.freeze(v)
    v = K.ok(S, go)
    return S, b["m"], b["in"], v


def site(K, S, m, *names):
    return K.method_site(S, S.obj(m).cls, *names)


def batch(S, bt, *last):
    return tuple(bt) + tuple(last)


def out(S, bt):
    return tuple(S.dim(x) for x in bt) + (Const(1),)


def linear(K, nm, cls, bias, l2, call, bt):
    b = {}

    def build(S):
        b["l2"] = S.num("l2") if l2 == "+" else Const(l2)
        return S.icall(K.get(S, LT + cls), NONE, d=S.dim("d"), l2reg=b["l2"],
                       fit_intercept=Const(bias))
    S, m, (x, y), v = evaluate(K, build, call, lambda S: (
        S.tensor("x", batch(S, bt, "d")), S.tensor("y", batch(S, bt, 1))))
    where = site(K, S, m, "value", "forward")
    want = {"w": ("d",)}
    if bias:
        want["b"] = ()
    ps = roles(K, S, nm, m, want, where)
    if ps is None:
        return

    def spec(N):
        w = N.of(S.freeze(ps["w"]))
        p = N.sum(w * N.of(x), [S.dim("d")])
        if bias:
            p = p + N.of(S.freeze(ps["b"]))
        r = N.softplus(-N.of(y) * p) if "Logistic" in cls else \
            (p - N.of(y)) * (p - N.of(y))
        if l2 == "+":
            r = r + N.of(b["l2"]) * N.sum(w * w, [S.dim("d")]) / 2
        return r
    K.value("formula", nm, S, v, spec, where, shape=out(S, bt))


def margin(K, nm, bt):
    S, m, (p, y), v = evaluate(
        K, lambda S: S.icall(K.get(S, LT + "logistic.BiDiffSoftMarginLoss")),
        None, lambda S: (S.tensor("p", batch(S, bt, 1)),
                         S.tensor("y", batch(S, bt, 1))))
    where = site(K, S, m, "forward")
    K.value("formula", nm, S, v, lambda N: N.softplus(-N.of(y) * N.of(p)),
            where, shape=out(S, bt))


def vendor(K, nm, bt, build, call, b):
    S, m, (x,), v = evaluate(K, build, call, lambda S: (
        S.tensor("x", batch(S, bt, "d")),))
    where = site(K, S, m, "value", "forward")
    ps = roles(K, S, nm, m, {"t": ()}, where)
    if ps is None:
        return

    def spec(N):
        t = N.of(S.freeze(ps["t"]))
        return N.of(b["k"]) * t - N.of(b["u"]) * N.mean(
            N.minof([t, N.of(x)]), [S.dim("d")])
    K.value("formula", nm, S, v, spec, where, shape=out(S, bt))


def newsvendor(K, nm, bt):
    for call in ("value", "forward"):
        b = {}

        def build(S):
            b.update(k=S.num("k"), u=S.num("u"))
            return S.icall(K.get(S, LT + "newsvendor.NewsVendorLoss_torch"),
                           NONE, k=b["k"], u=b["u"])
        vendor(K, nm + ", " + call, bt, build, call, b)


def custom(K, nm, bt):
    b = {}

    def build(S):
        b.update(k=S.num("k"), u=S.num("u"))
        return S.icall(K.get(
            S, "skwdro.operations_research._newsvendor.CustomNewsvendorLoss"),
            b["k"], b["u"])
    vendor(K, nm, bt, build, None, b)


def portfolio(K, nm, bt):
    b = {}

    def build(S):
        b.update(eta=S.num("eta", "0+"), alpha=S.num("alpha"))
        return S.icall(K.get(S, LT + "portfolio.SimplePortfolio"),
                       S.dim("d"), b["eta"], b["alpha"])
    S, m, (x,), v = evaluate(K, build, None, lambda S: (
        S.tensor("x", batch(S, bt, "d")),))
    where = site(K, S, m, "forward")
    ps = roles(K, S, nm, m, {"w": ("d",), "tau": ()}, where)
    if ps is None:
        return

    def spec(N):
        d = [S.dim("d")]
        e = N.exp(N.of(S.freeze(ps["w"])))
        r = N.sum(e * N.of(x), d) / N.sum(e, d)
        tau = N.of(S.freeze(ps["tau"]))
        return -r + N.of(b["eta"]) * (tau + N.maxof([
            N.zero(), -r - tau]) / N.of(b["alpha"]))
    K.value("formula", nm, S, v, spec, where, shape=out(S, bt))


def weber(K, nm, bt):
    if len(bt) > 1:
        return
    S, m, (x, y), v = evaluate(
        K, lambda S: S.icall(K.get(S, LT + "weber.SimpleWeber"), S.dim("d")),
        None, lambda S: (S.tensor("x", batch(S, bt, "d")),
                         S.tensor("y", batch(S, bt, 1))))
    where = site(K, S, m, "forward")
    ps = roles(K, S, nm, m, {"p": ("d",)}, where)
    if ps is None:
        return

    def spec(N):
        e = N.of(x) - N.of(S.freeze(ps["p"]))
        return N.of(y) * N.power(N.sum(e * e, [S.dim("d")]), Fraction(1, 2))
    K.value("formula", nm, S, v, spec, where, shape=out(S, bt))
