"""Hyperparameters are stored as given and never overwritten."""
from .common import *

EXPLANATION = (
    "Each estimator is built with one distinct symbol per constructor "
    "parameter (names read from the signature), then fitted and used; the "
    "final abstract heap must hold, on every path, the same symbol under each "
    "parameter name.  Solvers, intercept settings and numbers of classes are "
    "enumerated.")


def run(K):
    K.rule("stored", "after construction attribute p holds argument p")
    K.rule("kept", "after fit and use attribute p still holds argument p, on "
           "returning and on raising paths")
    for name in ESTIMATORS:
        for sv in solvers(name) + ["entropic_torch", "entropic", "other"]:
            with K.case("%s %s" % (name, sv)):
                one_est(K, name, sv)
        for sv in (POST, PRE):
            with K.case("%s %s without opt_cond" % (name, sv)):
                one_est(K, name, sv, none=True)
        for sv in solvers(name):
            with K.case("%s %s, default values" % (name, sv)):
                one_est(K, name, sv, bare=True)
        if name == "LogisticRegression":
            with K.case("%s three classes" % name):
                one_est(K, name, POST, nclasses=3)


def one_est(K, name, sv, none=False, bare=False, **kw):
    S = K.session()
    b = {}

    def go(S):
        e = b["e"] = Est(K, S, name, sv, **kw)
        for p, v in list(e.hyper.items()):
            # an int, so that a conversion to float is a change
            if S.facts.get(v, {}).get("type") == "builtins.float":
                e.hyper[p] = S.integer("int_" + p)
        if none:
            e.hyper["opt_cond"] = NONE
        if bare:
            e.hyper = {"solver": e.hyper["solver"]}
        for p in e.params if not bare else ():
            if p not in e.hyper and p not in ("cost", "C", "d", "reparam",
                                              "fit_intercept"):
                e.hyper[p] = S.opaque_value("hyper_" + p)
        e.build()
        b["after"] = e.fields()
        b["ready"] = True
        e.fit()
        for mt in METHODS[name]:
            e.use(mt)
        return e.e
    v, leaves = S.run(lambda: go(S))
    if not b.get("ready"):
        if leaves and all(l.explicit for l in leaves):
            raise RaisedAlways(S, leaves)
        raise Undecided("construction not followed")
    e = b["e"]
    for p, val in e.hyper.items():
        got = b["after"].get(p, UNDEF)
        K.require("stored", "%s.%s" % (name, p), got is val,
                  "attribute %s holds %s after construction" % (
                      p, show(got)), e.site("__init__"))
    finals = []
    if v is not None:
        finals.append(("return", S.st.heap[e.e.oid].f))
    for l in leaves:
        # an object whose construction was refused is not an estimator
        if e.e is not None and e.e.oid in l.st.heap and all(
                l.st.heap[e.e.oid].f.get(p, UNDEF) is not UNDEF
                for p in e.params):
            finals.append((S.exc_name(l), l.st.heap[e.e.oid].f))
    for p in e.params:
        val = b["after"].get(p, UNDEF)
        bad = [k for k, f in finals if f.get(p, UNDEF) is not val]
        K.require("kept", "%s(%s).%s" % (name, sv, p), not bad,
                  "attribute %s changes during fit or use (%s)" % (
                      p, ", ".join(map(str, bad))), e.site("fit"))
