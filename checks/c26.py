"""Hybrid optimisers."""
from .common import *

EXPLANATION = (
    "A step of each hybrid optimiser is interpreted on symbolic parameters in "
    "every mix of rules; the parameter and gradient values its base "
    "optimiser's step receives, and the values left in the parameters as "
    "functions of those produced by the base step, are compared by normal "
    "forms with the documented changes of variables.")

HYB = "skwdro.solvers.hybrid_opt."
BASE = {"HybridSGD": "SGD", "HybridAdam": "Adam"}
BOUND = 100
RULES = ("mwu", "mwu_simplex", "non_neg", "max", "bound", None)


def before(rule, N, p, ax):
    if rule in ("mwu", "mwu_simplex"):
        return N.log(p)
    return -p if rule == "max" else p


def gradient(rule, N, g):
    if rule == "bound":
        return N.maxof([N.num(-BOUND), N.minof([N.num(BOUND), g])])
    return g


def after(rule, N, s, ax):
    if rule == "mwu":
        return N.exp(s)
    if rule == "mwu_simplex":
        return N.exp(s) / N.sum(N.exp(s), ax)
    if rule == "non_neg":
        return N.maxof([N.zero(), s])
    return -s if rule == "max" else s


def run(K):
    K.rule("before", "the base step works on the transformed parameters")
    K.rule("gradient", "the base step gets the gradients, bounded when asked")
    K.rule("after", "the parameters are transformed back after the step")
    K.rule("base", "one step of the announced optimiser is made on every "
           "parameter")
    for cls in BASE:
        for steps in (1, 2):
            for r in RULES:
                nm = "%s, %s, %s" % (cls, r or "no rule",
                                     ("one step", "two steps")[steps - 1])
                with K.case(nm):
                    stepped(K, nm, cls, [[r, r]], steps)
        nm = "%s, matrices" % cls
        with K.case(nm):
            stepped(K, nm, cls, [[r] for r in RULES], 1, sh=("q", "d"))
        nm = "%s, one group per rule" % cls
        with K.case(nm):
            stepped(K, nm, cls, [[r] for r in RULES], 1)
        nm = "%s, two groups per rule" % cls
        with K.case(nm):
            stepped(K, nm, cls, [[r] for r in RULES + RULES[::-1]], 2)
        nm = "%s, closure" % cls
        with K.case(nm):
            stepped(K, nm, cls, [["mwu"], [None], ["max"]], 1, True)


def stepped(K, nm, cls, groups, steps, closure=False, sh=("d",)):
    S = K.session()
    b = {"p": []}

    def go(S):
        arg = []
        for gi, g in enumerate(groups):
            ps = []
            for i, r in enumerate(g):
                n = "p%d_%d" % (gi, i)
                x = S.tensor(n, sh, sign=frozenset("+")) \
                    if r and "mwu" in r else S.tensor(n, sh)
                p = S.make_param(x, TRUE, leaf=True)
                b["p"].append((p, r, x))
                ps.append(p)
            kv = [(Const("params"), S.new_list(ps))]
            if g[0]:
                kv.append((Const(g[0]), TRUE))
            arg.append(S.new_dict(kv))
        C = b["C"] = K.get(S, HYB + cls)
        o = b["o"] = S.icall(C, S.new_list(arg), lr=S.num("lr"))
        b["rec"] = []
        for k in range(steps):
            gs = {}
            for i, (p, r, x) in enumerate(b["p"]):
                g = gs[p] = S.tensor("g%d_%d" % (i, k), sh)
                S.mut(p).f["grad"] = g
            vals = {p: S.freeze(p) for p, _, _ in b["p"]}
            n0 = len(S.events)
            a = [S.function("closure", S.num("value"))] if closure else []
            S.icall(S.get_attr(o, "step"), *a)
            b["rec"].append((gs, vals, S.events[n0:], {
                p: S.freeze(p) for p, _, _ in b["p"]}))
        return o
    K.ok(S, go)
    where = K.method_site(S, b["C"], "step")
    d = [S.dim(x) for x in sh]
    for k, (gs, vals, evs, end) in enumerate(b["rec"]):
        st = [e for e in evs if e.kind == "step"]
        K.require("base", nm + ": one step", len(st) == 1,
                  "%d base steps" % len(st), where)
        if len(st) != 1:
            continue
        st = st[0]
        K.require("base", nm + ": optimiser", base_of(S, b["o"], BASE[cls]),
                  "the base optimiser is not %s" % BASE[cls], where)
        if closure:
            K.require("base", nm + ": closure", st.d["closure"] is not NONE,
                      "the closure is dropped", where)
        for i, (p, r, x) in enumerate(b["p"]):
            if p not in st.d["params"] or st.d["params"].count(p) != 1:
                K.require("base", nm + ": parameters", False,
                          "a parameter is left out of the base step or "
                          "stepped twice", where)
                continue
            q = "%s: %s" % (nm, r or "no rule")
            K.value("before", q, S, st.d["vals"][p],
                    lambda N: before(r, N, N.of(vals[p]), d), where)
            K.value("gradient", q, S, st.d["gvals"][p],
                    lambda N: gradient(r, N, N.of(gs[p])), where)
            new = [t for t in walk(end[p]) if isinstance(t, App)
                   and t.op == "par" and t.args[0] is p and str(
                       t.args[1].v).startswith("step")]
            last = [t for t in new if not mentions(vals[p], t)]
            if len(last) != 1:
                K.require("after", q, False if not last else None,
                          "the value left does not come from the step",
                          where)
                continue
            K.value("after", q, S, end[p],
                    lambda N: after(r, N, N.of(last[0]), d), where)


def base_of(S, o, name):
    c = S.obj(o).cls
    if isinstance(c, Ext):
        return c.name.endswith("." + name)
    ext = list(S.ext_bases(c))
    return any(n.endswith("." + name) for n in ext) if ext else None
