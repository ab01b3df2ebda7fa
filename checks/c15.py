"""Decoding of the cost codes."""
from .common import *

EXPLANATION = (
    "Conditional constant propagation of cost codes with pairwise different "
    "parts through every entry point that decodes them (the string decoder, "
    "the parser followed by its builder, robustify and the estimators); the "
    "attributes of the resulting cost are compared with the parts.  "
    "Malformed codes must raise on every path.")

CD = "skwdro.base.cost_decoder."
INF = float("inf")
KAPPA = 1e8                     # documented default label weight
#        code, kind, power, norm, label weight
GOOD = [("t-NC-1-2", "NC", 1, 2, None), ("t-NC-2-1", "NC", 2, 1, None),
        ("t-NC-1.5-inf", "NC", 1.5, INF, None),
        ("t-NC-3-5-7", "NC", 3, 5, None), ("t-NC-1-1", "NC", 1, 1, None),
        ("t-NLC-1-2", "NLC", 1, 2, KAPPA), ("t-NLC-2-1", "NLC", 2, 1, KAPPA),
        ("t-NLC-3-5-7", "NLC", 3, 5, 7), ("t-NLC-1-2-0", "NLC", 1, 2, 0),
        ("t-NLC-2-2-inf", "NLC", 2, 2, INF),
        ("t-NLC-2-inf-0.25", "NLC", 2, INF, .25)]
SHORT = [("NC-1-2", "NC", 1, 2, None), ("NLC-3-5", "NLC", 3, 5, KAPPA)]
BAD = ["n-NC-1-2", "j-NLC-1-2", "n-NLC-1-2-3", "x-NC-2-2", "T-NC-2-2",
       "t-XX-1-2", "t-nc-1-2", "t-NLCC-1-2-3", "t-NC", "t-NC-1-2-3-4",
       "t-NLC-1-2-3-4-5", "NC", "", "t", "-NC-1-2", "NC-NC-1-2"]
BADSTR = BAD + ["NC-1-2", "NLC-1-2", "t-NC-1", "t-NLC-1"]


def run(K):
    K.rule("attributes", "the cost has the kind, power, norm and label "
           "weight of its code")
    K.rule("refused", "malformed codes raise on every path")
    K.rule("default", "an omitted code gives the squared Euclidean cost")
    for g in GOOD:
        for how in ("cost_from_str", "parse", "robustify"):
            if how == "robustify" and not sampled(g):
                continue
            with K.case("%s %s" % (how, g[0])):
                good(K, how, g)
    for g in SHORT:
        for how in ("parse",):
            with K.case("%s %s" % (how, g[0])):
                good(K, how, g)
    for how, codes in (("cost_from_str", BADSTR), ("parse", BAD),
                       ("robustify", BAD)):
        for c in codes:
            with K.case("%s %r" % (how, c)):
                bad(K, how, c)
    for lab in (True, False):
        for how in ("parse", "robustify"):
            with K.case("%s default labels=%s" % (how, lab)):
                good(K, how, (None, "NLC" if lab else "NC", 2, 2,
                              KAPPA if lab else None), lab, "default")
    for name in ESTIMATORS:
        for g in GOOD:
            if (g[1] == "NLC") == (name in LABELLED) and sampled(g):
                with K.case("%s %s" % (name, g[0])):
                    est(K, name, g)


def sampled(g):
    """costs with an implemented sampler"""
    return (g[2], g[3]) in ((1, 1), (1, 2), (2, 2), (1, INF)) and g[4] != 0


def build(K, S, how, code, lab):
    C = Const(code)
    if how == "cost_from_str":
        return S.icall(K.get(S, CD + "cost_from_str"), C)
    if how == "parse":
        p = S.icall(K.get(S, CD + "parse_code_torch"), C, Const(lab))
        return S.icall(K.get(S, CD + "cost_from_parse_torch"), p)
    r = Robust(K, S, labels=lab, cost=code, imp=False)
    return r.at("cost")


SITE = {"cost_from_str": CD + "cost_from_str",
        "parse": CD + "parse_code_torch", "robustify": ROBUSTIFY}


def good(K, how, g, lab=None, rule="attributes"):
    S = K.session()
    c = K.ok(S, lambda S: build(K, S, how, g[0], g[1] == "NLC"
                                if lab is None else lab))
    attrs(K, S, "%s(%r)" % (how, g[0]), c, g, rule, K.site(S, K.get(S, SITE[how])))


def attrs(K, S, nm, c, g, rule, where):
    code, kind, power, p, kap = g
    if not isinstance(c, Ref):
        raise Undecided("the cost is %s" % show(c))
    L = K.get(S, "skwdro.base.costs_torch.NormLabelCost")
    lab = S.isinstance_(c, L)
    K.require(rule, nm + " kind", None if not isinstance(lab, Const) else
              lab.v is (kind == "NLC"), "the cost %s labels" % (
                  "ignores" if kind == "NLC" else "counts"), where)
    for a, v in (("power", power), ("p", p)) + ((("kappa", kap),)
                                                if kind == "NLC" else ()):
        x = S.strip(S.get_attr(c, a))
        K.require(rule, "%s %s" % (nm, a), None if not isinstance(x, Const)
                  else x.v == v and not isinstance(x.v, str),
                  "%s is %s instead of %s" % (a, show(x), v), where)


def bad(K, how, code):
    S = K.session()
    v, leaves = S.run(lambda: build(K, S, how, code, "NLC" in code))
    K.require("refused", "%s(%r)" % (how, code), v is None,
              "the malformed code is accepted", K.site(S, K.get(S, SITE[how])))


def est(K, name, g):
    S = K.session()
    b = {}

    def go(S):
        e = b["e"] = Est(K, S, name, POST, cost=Const(g[0]))
        e.build()
        e.fit()
        return e.e
    K.ok(S, go)
    e = b["e"]
    cs = [x.d["ref"] for x in S.events if x.kind == "new"
          and S.isinstance_(x.d["ref"], K.get(
              S, "skwdro.base.costs_torch.NormCost")) is TRUE]
    if not cs:
        raise Undecided("no cost built")
    for c in dict.fromkeys(cs):
        attrs(K, S, "%s(cost=%r)" % (name, g[0]), c, g, "attributes",
              e.site("fit"))
