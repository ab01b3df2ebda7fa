"""When importance sampling is used."""
from .common import *
from .c35 import has_lse
from .c08 import code, numbers, one_config, split_noise

EXPLANATION = (
    "The points at which the user's loss is evaluated are compared, as "
    "normal forms, with the plain draws around the data: outside of "
    "(enabled, squared Euclidean cost) they must be equal in every gate "
    "case, inside they must differ in some case.  The value is compared with "
    "the dual formula without density ratio in the former situation.")

COSTS = (None, "2-2", "1-2", "1-1", "1-inf", "2.0-2.0", "short 2-2",
         "short 1-2", "2-2-3", "2-2-0.25", "1-2-3", "NC 2-2", "NC 1-2")
# sizes the cases are decided for again
SIZES = (dict(d=1),)


def run(K):
    K.rule("plain", "without importance sampling the loss is evaluated at "
           "x + scale*noise")
    K.rule("moved", "with importance sampling the samples are displaced")
    K.rule("no-ratio", "without importance sampling the value carries no "
           "density ratio")
    for lab in (True, False):
        for post in (True, False):
            for cost in COSTS:
                if not lab and cost and (cost[:2] == "NC" or
                                         cost.count("-") > 1):
                    continue
                for imp in (True, False):
                    nm = "labels=%s post=%s cost=%s imp_samp=%s" % (
                        lab, post, cost, imp)
                    with K.case(nm):
                        direct(K, nm, lab, post, cost, imp)
                    if cost in ("1-1", "1-2", "2-2") and not (
                            imp and cost == "2-2"):
                        with K.case("no-ratio " + nm):
                            one_config(K, "no-ratio", nm, lab, post, cost,
                                       imp)
    for name in ESTIMATORS:
        for sv in (POST, PRE):
            for cost in ("1-2", "2-2") + (
                    ("2-2-3",) if name in LABELLED else ()):
                for metric in ("grad", "param") if cost == "2-2" else (
                        "grad",):
                    nm = "%s(%s, cost %s%s)" % (
                        name, sv, cost, ", stopping on parameters"
                        if metric == "param" else "")
                    with K.case(nm):
                        fitted(K, nm, name, sv, cost, metric)


def direct(K, nm, lab, post, cost, imp):
    S = K.session()
    b = {}

    def go(S):
        r = b["r"] = Robust(K, S, labels=lab, post=post, imp=imp,
                            cost=code(cost, lab), same_batch=not post)
        return r.forward()
    must = imp and numbers(cost, lab)[:2] == (2, 2)
    K.total(S, go, "moved" if must else "plain", nm + ": returns")
    r = b["r"]
    pts = user_points(S, r.tr, S.dim("n"))
    if not pts:
        raise Undecided("the user's loss is never evaluated on the samples")
    moved = False
    for e in pts:
        v = verdict(S, e.d["args"][0], r.x)
        if v is None:
            raise Undecided("sample of an unknown form")
        moved |= v
    where = K.loc(pts[0].loc)
    if must:
        K.require("moved", nm, moved, "the samples are not displaced", where)
    else:
        K.require("plain", nm, not moved, "the samples are displaced", where)


def verdict(S, z, x):
    """does z differ from a draw around x"""
    def spec(N):
        p = N.of(z)
        c, s = split_noise(N, p)
        if s is None:
            raise Undecided("sample without additive noise")
        return p - c + N.of(x)
    v = compare(S, z, spec)
    return {MATCH: False, MISMATCH: True}.get(v.kind)


def shifted(v):
    return any(isinstance(t, App) and t.op == "grad" for t in walk(v))


def unmoved(e):
    """the loss of the step has a case without any shift, and the case does
    not depend on the shifts"""
    v = e.d["val"]
    if not shifted(v):
        return not any(shifted(c) for c, _ in e.pc)
    tests = dict.fromkeys(t.c for t in walk(v) if isinstance(t, Ite)
                          and not shifted(t.c))
    for c in tests:
        for pol in (True, False):
            if not shifted(choose(v, c, pol)):
                return True
    return False


def fitted(K, nm, name, sv, cost, metric):
    """samples used by the fits of an estimator"""
    S = K.session()
    lab = name in LABELLED
    b = {}

    def go(S):
        oc = S.icall(K.get(S, "skwdro.solvers.optim_cond.OptCondTorch"),
                     Const(2), metric=Const(metric))
        e = b["e"] = Est(K, S, name, sv, cost=Const(code(cost, lab)),
                         learning_rate=S.num("lr"), opt_cond=oc)
        e.build()
        e.fit()
        return e.e
    K.ok(S, go)
    back = [e for e in S.events if e.kind == "backward" and e.loops]
    if not back:
        raise Undecided("no training loop")
    bad = [e for e in back if any(isinstance(t, App) and t.op == "grad"
                                  for t in walk(e.d["val"]))]
    if numbers(cost, lab)[:2] != (2, 2):
        K.require("plain", nm, not bad, "the samples are displaced",
                  K.loc(bad[0].loc) if bad else "")
    elif not (sv == PRE and name in ("LinearRegression",
                                     "LogisticRegression")):
        K.require("moved", nm, bool(bad), "the samples are not displaced",
                  b["e"].site("fit"))
        # an evaluation without displacement that no test on the shifts
        # explains
        ever = [e for e in back if has_lse(S, e.d["val"]) and unmoved(e)]
        K.require("moved", nm + ": at every step", not ever,
                  "the samples are not displaced at some steps",
                  K.loc(ever[0].loc) if ever else "",
                  ever[0] if ever else None)
    else:
        K.require("plain", nm, not bad, "the samples are displaced",
                  K.loc(bad[0].loc) if bad else "")
