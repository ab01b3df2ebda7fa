"""Recentring of the samplers."""
from .sampling import *
from .c08 import code, split_noise

EXPLANATION = (
    "Every sampler class is abstractly built on one symbolic batch and "
    "recentred once and twice on others of other sizes; draws and seed are "
    "then compared, in normal form, with those documented for a sampler of "
    "the same family and spread around the last batch.  Robust losses "
    "built on one batch are evaluated on another and the points given to "
    "the user's loss compared with draws around the latter.")
# sizes the cases are decided for again
SIZES = (dict(m=1), dict(d=1))


def run(K):
    K.rule("recentred", "after reset_mean the sampler draws around the new "
           "data with its family and spread")
    K.rule("reparametrised", "the draws stay differentiable")
    K.rule("seed", "reset_mean keeps the seed")
    K.rule("input", "recentring does not write to the data it is given")
    K.rule("evaluated-batch", "a resampling robust loss draws around the "
           "batch it is evaluated on")
    for kind in KINDS:
        for times in (1, 2):
            nm = "%s recentred %s" % (title(kind), ("once", "twice")[
                times - 1])
            with K.case(nm):
                recentre(K, nm, kind, times)
    for lab in (True, False):
        for cost in ("1-1", "1-2", "2-2", None):
            for calls in (1, 2):
                nm = "labels=%s cost=%s call %d" % (lab, cost, calls)
                with K.case(nm):
                    evaluated(K, nm, lab, cost, calls)
                nm += " same size"
                with K.case(nm):
                    evaluated(K, nm, lab, cost, calls, "m")


def recentre(K, nm, kind, times):
    S = K.session()
    b = {}

    def go(S):
        s = b["s"] = Sampler(K, S, kind)
        s.build(*s.at(""))
        b["n0"] = len(S.events)
        for i in range(times):
            b["xy"] = s.at(str(i + 2))
            S.icall(S.get_attr(s.s, "reset_mean"), *b["xy"])
        b["n1"] = len(S.events)
        b["seed"] = S.get_attr(s.s, "seed")
        v = S.icall(S.get_attr(s.s, "sample"), s.n)
        its = S.known_items(v)
        return Tup(S.freeze(x) for x in its) if its is not None else v
    v = K.ok(S, go)
    s = b["s"]
    where = K.method_site(S, s.cls, "reset_mean")
    x, y = b["xy"]
    check_draws(K, S, s, nm, x, y, v, "recentred", where)
    K.value("seed", nm, S, b["seed"], lambda N: N.of(s.seed), where)
    bad = [e for e in S.events[b["n0"]:b["n1"]] if e.kind == "mutate"
           and e.d.get("root") in (x, y)]
    K.require("input", nm, not bad, "reset_mean writes to its argument",
              K.loc(bad[0].loc) if bad else where)


def evaluated(K, nm, lab, cost, calls, size=None):
    S = K.session()
    b = {}

    def go(S):
        r = b["r"] = Robust(K, S, labels=lab, post=True, imp=False,
                            cost=code(cost, lab), same_batch=False,
                            m0=size or "m0")
        for _ in range(calls - 1):
            r.call(S.tensor("x1", (size or "m1", "d")), S.tensor(
                "y1", (size or "m1", "l")) if lab else NONE)
        b["n0"] = len(S.events)
        return r.forward()
    K.ok(S, go)
    r = b["r"]
    n = S.dim("n")
    evs = S.events[b["n0"]:]
    pts = [e for e in user_points(S, r.tr, n) if e in evs]
    lpts = [e for e in user_points(S, r.loss, n) if e in evs]
    if not pts or not lpts:
        raise Undecided("the user's loss is never evaluated on the samples")

    def centre(t):
        def f(N):
            c, s = split_noise(N, N.of(t))
            if s is None:
                raise Undecided("sample without additive noise")
            return c
        return f
    for e in pts:
        K.value("evaluated-batch", nm + " data", S, centre(e.d["args"][0]),
                lambda N: N.of(r.x), K.loc(e.loc))
    for e in lpts if lab else ():
        K.value("evaluated-batch", nm + " labels", S, centre(
            e.d["args"][1]), lambda N: N.of(r.y), K.loc(e.loc))
