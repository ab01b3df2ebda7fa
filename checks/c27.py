"""The Dirac distribution."""
from .common import *

EXPLANATION = (
    "The Dirac class is abstractly built on a symbolic differentiable "
    "location of every rank up to three and every number of batch "
    "dimensions.  Its mean, mode, variance, samples and log-density are "
    "compared by normal forms and shapes with those of a point mass; "
    "dependence of the samples on the location through differentiable "
    "operations is read from the term.")

DIRAC = "skwdro.distributions.dirac_distribution.Dirac"
SHAPES = ((), ("d",), ("b", "d"), ("b", "m", "d"))
SAMPLES = ((), ("n",), ("n", "k"))
FORMS = ("size", "tuple", "list")


def run(K):
    K.rule("moments", "mean and mode are the location, the variance is zero")
    K.rule("samples", "samples repeat the location on the sample shape")
    K.rule("differentiable", "rsample is differentiable in the location")
    K.rule("density", "the log-density is 0 at the location, -inf elsewhere")
    K.rule("shapes", "batch and event shapes split the location's shape")
    K.rule("expansion", "expand gives the same point mass on a larger batch")
    K.rule("entropy", "the entropy is -inf and the perplexity 0")
    for sh in SHAPES:
        for nb in range(len(sh) + 1):
            nm = "Dirac(loc of shape (%s), %d batch dims)" % (
                ", ".join(sh), nb)
            with K.case(nm):
                moments(K, nm, sh, nb, False)
            with K.case(nm + " expanded"):
                moments(K, nm + ".expand", sh, nb, True)
            with K.case(nm + " density"):
                density(K, nm, sh, nb)
    for m in ("near", "sum zero", "one coordinate"):
        with K.case("log_prob, " + m):
            apart(K, "log_prob, " + m, m)


def shaped(S, kind, its):
    its = tuple(S.dim(x) if isinstance(x, str) else x for x in its)
    if kind == "size":
        return App("size", its)
    return Tup(its) if kind == "tuple" else S.new_list(its)


def make(K, S, sh, nb):
    C = K.get(S, DIRAC)
    loc = S.make_param(S.tensor("loc", sh), TRUE, leaf=True)
    d = S.icall(C, loc, Const(nb)) if nb else S.icall(C, loc)
    return C, loc, d


def moments(K, nm, sh, nb, expand):
    S = K.session()
    b = {}
    new = ("e",) if expand else ()

    def go(S):
        b["C"], b["loc"], d = make(K, S, sh, nb)
        b["val"] = S.freeze(b["loc"])
        if expand:
            d = S.icall(S.get_attr(d, "expand"), shaped(
                S, "size", new + tuple(sh[:nb])))
        for a in ("mean", "mode", "variance", "batch_shape", "event_shape",
                  "has_rsample"):
            b[a] = S.get_attr(d, a)
        for a in ("mean", "mode", "variance"):
            b[a] = S.freeze(b[a])
        for a in ("entropy", "perplexity"):
            b[a] = S.icall(S.get_attr(d, a))
        b["draws"] = []
        for ss in SAMPLES:
            for form in FORMS:
                for meth in ("rsample", "sample"):
                    raw = S.icall(S.get_attr(d, meth), shaped(S, form, ss))
                    b["draws"].append((ss, form, meth, raw, S.freeze(raw)))
        for meth in ("rsample", "sample"):
            raw = S.icall(S.get_attr(d, meth))
            b["draws"].append(((), "default", meth, raw, S.freeze(raw)))
        return NONE
    K.ok(S, go)

    def at(m):
        return K.method_site(S, b["C"], m)
    val = b["val"]
    full = tuple(S.dim(x) for x in new + tuple(sh))
    R = "expansion" if expand else "moments"
    for a in ("mean", "mode"):
        K.value(R, "%s.%s" % (nm, a), S, b[a], lambda N: N.of(val), at(a),
                shape=full)
    K.value(R, nm + ".variance", S, b["variance"], lambda N: N.zero(),
            at("variance"), shape=full)
    for a, want in (("batch_shape", full[:len(new) + nb]),
                    ("event_shape", full[len(new) + nb:])):
        its = S.known_items(b[a])
        K.require("expansion" if expand else "shapes", "%s.%s" % (nm, a),
                  None if its is None else tuple(map(
                      S.strip, its)) == want,
                  "%s is %s" % (a, show(b[a])), at("__init__"))
    K.require("differentiable", nm + ".has_rsample",
              b["has_rsample"] is TRUE if isinstance(
                  b["has_rsample"], Const) else None,
              "has_rsample is %s" % show(b["has_rsample"]), at("rsample"))
    K.value("entropy", nm + ".entropy", S, b["entropy"],
            lambda N: N.of(Const(float("-inf"))), at("entropy"))
    K.value("entropy", nm + ".perplexity", S, b["perplexity"],
            lambda N: N.zero(), at("perplexity"))
    for ss, form, meth, raw, v in b["draws"]:
        q = "%s.%s((%s) as %s)" % (nm, meth, ", ".join(ss), form)
        K.value("samples", q, S, v, lambda N: N.of(val), at("rsample"),
                shape=tuple(S.dim(x) for x in ss) + full)
        if meth == "rsample":
            g = S.graph_params(v)
            K.require("differentiable", q, b["loc"] in g,
                      "the sample is cut from the location", at(meth))


NINF = Const(float("-inf"))


def density(K, nm, sh, nb):
    S = K.session()
    b = {}

    def go(S):
        b["C"], loc, d = make(K, S, sh, nb)
        f = S.get_attr(d, "log_prob")
        b["at"] = S.icall(f, loc)
        b["drawn"] = S.icall(f, S.icall(S.get_attr(d, "rsample"), shaped(
            S, "size", ("n",))))
        t = b["t"] = S.tensor("t", sh, sign=frozenset("+"))
        b["up"] = S.icall(f, S.binop("add", loc, t))
        b["down"] = S.icall(f, S.binop("sub", loc, t))
        b["one"] = S.icall(f, S.binop("add", loc, Const(1.)))
        return NONE
    K.ok(S, go)
    where = K.method_site(S, b["C"], "log_prob")
    for k, n in (("at", "the location"), ("drawn", "a sample")):
        K.value("density", "%s.log_prob at %s" % (nm, n), S, b[k],
                lambda N: N.zero(), where)
    for k, n in (("up", "above"), ("down", "below"), ("one", "one above")):
        K.value("density", "%s.log_prob %s the location" % (nm, n), S, b[k],
                lambda N: N.of(NINF), where)


def apart(K, nm, m):
    """points that differ from the location by little, in opposite
    directions, or in one coordinate only"""
    S = K.session()
    b = {}

    def go(S):
        C = b["C"] = K.get(S, DIRAC)
        if m == "near":
            loc = S.tensor("loc", (Const(1),))
            x = S.binop("add", loc, Const(1e-12))
        else:
            cat = Ext("torch.cat")
            u, w = S.tensor("u", ("d",)), S.tensor("w", ("d",))
            t = S.tensor("t", ("d",), sign=frozenset("+"))
            loc = S.icall(cat, S.new_list([u, w]))
            x = S.icall(cat, S.new_list([
                S.binop("add", u, t) if m == "sum zero" else u,
                S.binop("sub", w, t)]))
        d = S.icall(C, loc)
        return S.icall(S.get_attr(d, "log_prob"), x)
    v = K.ok(S, go)
    where = K.method_site(S, b["C"], "log_prob")
    K.value("density", nm, S, v, lambda N: N.of(NINF), where)
