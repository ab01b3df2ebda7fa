"""Fitted state and validation of the inputs."""
from skan.values import children
from .common import *

EXPLANATION = (
    "Every public method is interpreted on an unfitted estimator: all its "
    "paths must raise NotFittedError.  After a fit, raw data handed to fit, "
    "predict, predict_proba, eval and score must only appear under a "
    "validation call of scikit-learn in the values computed, the attributes "
    "stored and the calls made.  is_fitted_ must be unset in the state of "
    "every path of fit that raises, and set after the training.")

# options of the validators that switch a part of the validation off
OFF = {"force_all_finite": TRUE, "ensure_all_finite": TRUE, "ensure_2d": TRUE}
UNKNOWN_SOLVER = "no_such_solver"


def run(K):
    K.rule("unfitted", "methods of unfitted estimators raise NotFittedError")
    K.rule("validated", "inputs are only used once validated")
    K.rule("strict", "the validation refuses nonfinite and 1-d data")
    K.rule("flag", "is_fitted_ is set by completed fits only")
    for name in ESTIMATORS:
        for sv in solvers(name):
            for m in METHODS[name]:
                nm = "%s(%s).%s" % (name, sv, m)
                with K.case(nm):
                    unfitted(K, nm, name, sv, m)
            nm = "%s(%s)" % (name, sv)
            for nc in (2, 3) if name == "LogisticRegression" \
                    and sv != DED else (2,):
                with K.case(nm):
                    fitted(K, nm + (", 3 classes" if nc == 3 else ""), name,
                           sv, nc)
        for sv in (UNKNOWN_SOLVER, "entropic"):
            nm = "%s(solver=%r)" % (name, sv)
            with K.case(nm):
                failing(K, nm, name, sv)


def new_data(S, e):
    X = S.array("Xt", ("t", "d"))
    y = S.array("yt", ("t",)) if e.name == "Weber" else None
    return X, y


def unfitted(K, nm, name, sv, meth):
    S = K.session()
    b = {}

    def go(S):
        e = b["e"] = Est(K, S, name, sv)
        return e.build().e
    K.ok(S, go)
    X, _ = new_data(S, b["e"])
    val, leaves = S.run(lambda: b["e"].use(meth, X))
    where = b["e"].site(meth)
    bad = [l for l in leaves if S.exc_name(l) != "NotFittedError"]
    if val is not None:
        K.require("unfitted", nm, False, "a path returns without a fit",
                  where)
    elif bad:
        sure = [l for l in bad if l.explicit or S.exc_name(l)
                == "AttributeError"]
        l = (sure or bad)[0]
        K.require("unfitted", nm, False if sure else None,
                  "raises %s instead" % S.exc_name(l), K.loc(l.loc) if l.loc else where)
    else:
        K.require("unfitted", nm, True if leaves else None, "no path", where)


def raw_uses(v, data, seen):
    """input symbols reached without crossing a validation"""
    todo, out = [v], set()
    while todo:
        x = todo.pop()
        if x in seen or x is None:
            continue
        seen.add(x)
        if x in data:
            out.add(x)
            continue
        if isinstance(x, App) and x.op in ("valid", "shape", "sizeof",
                                           "shapeof", "len", "type"):
            continue
        todo.extend(children(x))
    return out


def event_values(ev):
    for v in ev.d.values():
        if isinstance(v, V):
            yield v
        elif isinstance(v, dict):
            yield from (x for x in v.values() if isinstance(x, V))
        elif isinstance(v, (list, tuple)):
            yield from (x for x in v if isinstance(x, V))


def uses(K, S, nm, data, what, values, evs, where):
    names = {S.strip(x): show(x) for x in data if x is not None}
    bad = {}
    # raw data used after a validation whose result was dropped
    seen = {S.strip(a) for ev in evs if ev.kind == "validate"
            and not ev.loops for a in list(ev.d["args"]) + list(
                ev.d["kw"].values()) if isinstance(a, V)}
    for v in values:
        if isinstance(v, V):
            for x in raw_uses(S.freeze(v), names, set()):
                bad.setdefault(names[x], where)
    for ev in evs:
        if ev.kind in ("validate", "enter", "exit", "extcall", "check_fitted",
                       "new", "loop", "readfield"):
            continue
        for v in event_values(ev):
            for x in raw_uses(v, names, set()):
                bad.setdefault(names[x], K.loc(ev.loc))
    for x, n in names.items():
        K.require("validated", "%s: %s of %s" % (nm, n, what),
                  True if n not in bad else None if x in seen else False,
                  "used without validation", bad.get(n, where))
    for ev in evs:
        if ev.kind != "validate":
            continue
        for k, want in OFF.items():
            got = ev.d["kw"].get(k, want)
            K.require("strict", "%s: %s of %s" % (nm, k, what),
                      got is want if isinstance(got, Const) else None,
                      "%s=%s" % (k, show(got)), K.loc(ev.loc))


def fitted(K, nm, name, sv, nc):
    S = K.session()
    b = {}

    def go(S):
        e = b["e"] = Est(K, S, name, sv, nclasses=nc)
        e.build()
        n0 = len(S.events)
        e.fit()
        b["fit"] = S.events[n0:]
        b["fields"] = e.fields()
        X, y = b["new"] = new_data(S, e)
        b["use"] = {}
        for m in METHODS[name]:
            n0 = len(S.events)
            r = e.use(m, X, y)
            b["use"][m] = (r, S.events[n0:])
        return e.e
    K.ok(S, go)
    e = b["e"]
    where = e.site("fit")
    uses(K, S, nm, e.data(), "fit", b["fields"].values(), b["fit"], where)
    for m, (r, evs) in b["use"].items():
        uses(K, S, nm, [b["new"][0]], m, [r], evs, e.site(m))
    f = b["fields"].get("is_fitted_")
    K.require("flag", nm + ": set", f is TRUE if isinstance(f, Const) or
              f is None else None, "is_fitted_ is %s after fit" % (
                  f and show(f)), where)
    evs = b["fit"]
    work = [ev.n for ev in evs if ev.kind in ("step", "cvx_solve")]
    sets = [ev for ev in evs if ev.kind == "setattr" and ev.d["ref"] is e.e
            and ev.d["name"] == "is_fitted_"
            and ev.d["val"] is not FALSE]
    for ev in sets:
        K.require("flag", nm + ": after the training",
                  not work or ev.n > max(work), "is_fitted_ is set before "
                  "the end of the training", K.loc(ev.loc))


def failing(K, nm, name, sv):
    S = K.session()
    b = {}

    def go(S):
        e = b["e"] = Est(K, S, name, sv)
        return e.build().e
    K.ok(S, go)
    e = b["e"]
    val, leaves = S.run(e.fit)
    where = e.site("fit")
    for l in leaves:
        o = l.st.heap.get(e.e.oid)
        f = o.f.get("is_fitted_", UNDEF) if o is not None else UNDEF
        K.require("flag", nm + ": " + S.exc_name(l), f in (
            UNDEF, FALSE, NONE), "is_fitted_ is %s when fit raises" % show(f),
            K.loc(l.loc) if l.loc else where)
