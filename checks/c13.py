"""Draws of the samplers."""
from .sampling import *

EXPLANATION = (
    "Every sampler class is abstractly built on symbolic data for every way "
    "of giving its spread (and every cost), and asked for n samples.  The "
    "returned term is put in normal form and compared with a draw of the "
    "documented law around the data; the kind of draw (reparametrised or "
    "not) is read from the term.")
# sizes the cases are decided for again
SIZES = (dict(m=1), dict(n=1), dict(d=1), dict(l=1))


def run(K):
    K.rule("draw", "sample(n) is n draws of the documented law around each "
           "data point")
    K.rule("reparametrised", "the draws are differentiable")
    K.rule("labels", "labels come exactly from the labelled samplers")
    K.rule("cost-law", "the distributions of a cost are those of its "
           "samplers")
    for kind in KINDS:
        nm = title(kind)
        with K.case(nm):
            one_kind(K, nm, kind)
    for p, k in COSTS:
        for lab in (True, False):
            nm = "%s(p=%s, power=%s).sampler" % (
                "NormLabelCost" if lab else "NormCost", p, k)
            with K.case(nm):
                law(K, nm, p, k, lab)


def one_kind(K, nm, kind):
    S = K.session()
    b = {}

    def go(S):
        s = b["s"] = Sampler(K, S, kind)
        b["xy"] = s.at("")
        s.build(*b["xy"])
        b["lab"] = S.get_attr(s.s, "produces_labels")
        v = S.icall(S.get_attr(s.s, "sample"), s.n)
        its = S.known_items(v)
        return Tup(S.freeze(x) for x in its) if its is not None else v
    v = K.ok(S, go)
    s = b["s"]
    where = K.method_site(S, s.cls, "sample")
    x, y = b["xy"]
    check_draws(K, S, s, nm, x, y, v, "draw", where)
    K.require("labels", nm + ".produces_labels", b["lab"] is Const(s.lab) if
              isinstance(b["lab"], Const) else None,
              "produces_labels is %s" % show(b["lab"]), where)


def law(K, nm, p, k, lab):
    """cost.sampler(...) gives the laws of the cost samplers"""
    S = K.session()
    b = {}

    def go(S):
        s = b["s"] = Sampler(K, S, (
            "LabeledCostSampler" if lab else "NoLabelsCostSampler",
            (p, k, "+" if lab else None)))
        x, y = b["xy"] = s.at("")
        s.build(x, y)
        c = S.get_attr(s.s, "generating_cost")
        b["c"] = c
        r = S.icall(S.get_attr(c, "sampler"), x, y, s.sigma)
        its = S.known_items(r)
        out = []
        for dd in its:
            out.append(NONE if dd is NONE else S.freeze(S.icall(S.get_attr(
                dd, "rsample"), App("size", (s.n,)))))
        return Tup(out)
    v = K.ok(S, go)
    s = b["s"]
    x, y = b["xy"]
    where = K.method_site(S, S.obj(b["c"]).cls, "sampler")
    check_draws(K, S, s, nm, x, y, v, "cost-law", where)
