"""Fits do not communicate."""
from .common import *

EXPLANATION = (
    "Each estimator is abstractly fitted; every object that existed before "
    "the estimator was built (default arguments, class attributes, module "
    "level objects) and every object handed by the caller must have equal "
    "fields before and after the fit, and no global or class attribute may "
    "be assigned.  A second analysis starts the fit from an estimator whose "
    "fitted attributes hold poison symbols and requires that none of them "
    "reaches the new fitted attributes, the branch conditions or the "
    "differentiated objectives.")


def run(K):
    K.rule("shared-state", "objects older than the estimator and objects of "
           "the caller have the same fields after the fit as before")
    K.rule("global-state", "no module or class attribute is assigned")
    K.rule("refit", "fitted attributes of a previous fit are not read")
    for name in ESTIMATORS:
        for sv in solvers(name):
            for oc in ("user", "user's parameter", "default"):
                nm = "%s(%s) %s opt_cond" % (name, sv, oc)
                with K.case(nm):
                    shared(K, nm, name, sv, oc)
            nm = "%s(%s)" % (name, sv)
            with K.case("refit " + nm):
                refit(K, nm, name, sv)
            for kw in more(name, sv):
                nm = "%s(%s) %s" % (name, sv, " ".join(kw))
                with K.case(nm):
                    shared(K, nm, name, sv, "user", **kw)
                with K.case("refit " + nm):
                    refit(K, nm, name, sv, **kw)


def more(name, sv):
    """other settings tried"""
    if name in ("LinearRegression", "LogisticRegression"):
        yield {"fit_intercept": Const(False)}
    if name == "LogisticRegression" and sv != DED:
        yield {"nclasses": 3}


def default_cond(K, S, oc):
    if oc == "default":
        return {"opt_cond": None}
    return {} if oc == "user" else {"opt_cond": S.icall(K.get(
        S, "skwdro.solvers.optim_cond.OptCondTorch"), Const(2),
        metric=Const("param"), monitoring=Const("both"))}


def shared(K, nm, name, sv, oc, **kw):
    S = K.session()
    b = {}

    def go(S):
        e = b["e"] = Est(K, S, name, sv, **default_cond(K, S, oc), **kw)
        # import every module used by fit before taking the snapshot
        e.build()
        b["n0"] = len(S.events)
        b["heap"] = {i: dict(o.f) for i, o in S.st.heap.items()}
        b["content"] = dict(S.st.content)
        e.fit()
        return e.e
    K.ok(S, go)
    e = b["e"]
    bad = []
    for i, f0 in b["heap"].items():
        if i == e.e.oid:
            continue
        o = S.st.heap.get(i)
        if o is None:
            continue
        K.count()
        ks = [k for k in set(f0) | set(o.f) if f0.get(k, UNDEF)
              is not o.f.get(k, UNDEF)]
        if o.kind == "param":
            ks = [k for k in ks if k[:1] != "%"]
        if ks:
            bad.append((o, sorted(ks)))
    for r, v in S.st.content.items():
        if isinstance(r, Ref) and r.oid in b["heap"] and \
                b["content"].get(r) is not v:
            bad.append((S.st.heap[r.oid], ["value"]))
    msg = "; ".join("%s.%s" % (show(o.cls) if o.cls is not None else o.kind,
                               ",".join(ks)) for o, ks in bad[:3])
    where = ""
    for ev in S.events[b["n0"]:]:
        if ev.kind == "setattr" and isinstance(ev.d["ref"], Ref) and \
                ev.d["ref"].oid in b["heap"] and ev.d["ref"] is not e.e:
            where = K.loc(ev.loc)
            break
    K.require("shared-state", nm, not bad, "the fit changes %s, which "
              "outlives it" % msg, where or e.site("fit"))
    g = [ev for ev in S.events[b["n0"]:] if ev.kind in (
        "setglobal", "setclassattr")]
    K.require("global-state", nm, not g, "the fit assigns %s" % (
        g and g[0].d["name"]), K.loc(g[0].loc) if g else e.site("fit"))


def refit(K, nm, name, sv, **kw):
    S0 = K.session()
    b = {}

    def first(S):
        e = b["e"] = Est(K, S, name, sv, **kw)
        e.build()
        b["f0"] = e.fields()
        e.fit()
        return e.e
    K.ok(S0, first)
    new = [k for k, v in b["e"].fields().items()
           if k not in b["f0"] and k[:1] != "%"]
    S = K.session()

    def second(S):
        e = b["e2"] = Est(K, S, name, sv, **kw)
        e.build()
        b["poison"] = []
        for k in new:
            p = Sym("previous_" + k)
            b["poison"].append(p)
            S.set_attr(e.e, k, p)
        b["n0"] = len(S.events)
        S.poison = frozenset(b["poison"])
        e.fit()
        return e.e
    K.ok(S, second)
    e = b["e2"]
    poison = set(b["poison"])

    def tainted(v):
        return isinstance(v, V) and any(x in poison for x in walk(v))
    bad = [k for k, v in e.fields().items() if tainted(v)]
    evs = [ev for ev in S.events[b["n0"]:] if ev.kind in ("backward", "step")
           and tainted(ev.d.get("val"))]
    pcs = [ev for ev in S.events[b["n0"]:] if ev.kind == "step"
           and any(tainted(c) for c, _ in ev.pc)]
    K.require("refit", nm, not (bad or evs or pcs),
              "what a previous fit left in the estimator reaches %s" % (
                  ", ".join(bad) or "the optimisation"),
              K.loc((evs + pcs)[0].loc) if evs or pcs else e.site("fit"))
