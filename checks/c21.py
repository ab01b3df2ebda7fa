"""Training loops."""
from .common import *

EXPLANATION = (
    "Fits are abstractly interpreted with one symbolic iteration standing "
    "for all iterations of each training loop.  At every optimiser step the "
    "abstract gradient of each parameter must be the gradient, at the value "
    "the parameter has in this iteration, of one loss value computed from "
    "the data in this iteration, with nothing accumulated from earlier "
    "ones.  The recorded value is compared with the loss of the iteration, "
    "and the states that reach the next iteration must exclude a NaN.")


def run(K):
    K.rule("fresh", "the gradients used by a step are those of the current "
           "loss at the current parameters, not accumulated")
    K.rule("data", "the loss differentiated depends on the data")
    K.rule("recorded", "the recorded value is the loss of the iteration")
    K.rule("nan", "no further iteration after a NaN was recorded")
    for name in ESTIMATORS:
        for sv in (POST, PRE):
            for rho in "+0":
                for lr in (True, False):
                    nm = "%s(%s, rho%s, learning_rate=%s)" % (
                        name, sv, ">0" if rho == "+" else "=0",
                        "given" if lr else "None")
                    with K.case(nm):
                        one_fit(K, nm, name, sv, rho, lr)
    for metric in ("grad", "param"):
        for name in ESTIMATORS:
            nm = "%s(%s, stopping on %s)" % (name, PRE, metric)
            with K.case(nm):
                one_fit(K, nm, name, PRE, "+", True, metric)


def one_fit(K, nm, name, sv, rho, lr, metric=None):
    S = K.session()
    b = {}

    def go(S):
        kw = {}
        if metric:
            kw["opt_cond"] = S.icall(K.get(
                S, "skwdro.solvers.optim_cond.OptCondTorch"), Const(2),
                metric=Const(metric))
        e = b["e"] = Est(K, S, name, sv, rho=S.num("hyper_rho", rho),
                         learning_rate=S.num("lr") if lr else NONE, **kw)
        e.build()
        e.fit()
        return e.e
    K.ok(S, go)
    e = b["e"]
    st = [x for x in S.events if x.kind == "step"]
    if not st:
        raise Undecided("no optimiser step")
    for lp in dict.fromkeys(x.loops for x in st):
        step(K, S, nm, [x for x in st if x.loops == lp], e)
    recorded(K, S, nm, e, st)
    lp = [x.loops[-1][0] for x in st if x.loops]
    if not lp:
        raise Undecided("no training loop")
    nan(K, S, nm, lp[-1], st[-1])


def step(K, S, nm, group, e):
    """the base optimiser steps made in one iteration of a loop"""
    where = K.loc(group[-1].loc)
    grads, now = {}, {}
    for x in group:
        for p, g in x.d["grads"].items():
            grads.setdefault(p, []).append((g, x.d["vals"].get(p)))
        now.update(x.d["vals"])
    vals = set()
    for p, gs in grads.items():
        for g, v in gs:
            if g is NONE:
                continue
            t = S.strip(g)
            if not (isinstance(t, App) and t.op == "grad"):
                K.record("fresh", nm, "violated",
                         "the step uses %s" % show(t, 5)[:160], where)
                return
            if v is not None and S.strip(t.args[1]) is not S.strip(v):
                K.record("fresh", nm, "violated", "the gradient was computed "
                         "at %s but the parameter is %s" % (
                             show(t.args[1], 5)[:90], show(v, 5)[:90]),
                         where)
                return
            vals.add(t.args[0])
    if not vals:
        K.record("fresh", nm, "violated",
                 "a step is made without gradients", where)
        return
    K.require("fresh", nm, len(vals) == 1,
              "gradients of %d different losses are used" % len(vals), where)
    v = next(iter(vals))
    # the value differentiated is computed from the parameters as they are
    live = {t for w in now.values() for t in walk(w)}
    old = [t for t in walk(v) if isinstance(t, App) and t.op == "par"
           and len(t.args) == 2 and t.args[0] in now and t not in live]
    K.require("fresh", nm + ": current parameters", not old,
              "the loss is computed at %s" % (show(old[0]) if old else ""),
              where)
    for d in e.data():
        K.require("data", nm, mentions(v, d),
                  "the loss differentiated does not depend on %s" % show(d),
                  where)


def recorded(K, S, nm, e, st):
    v = S.freeze(e.at("robust_loss_"))
    where = K.loc(st[-1].loc)
    t = unlast(S, v)
    if t is None:
        raise Undecided("recorded value %s" % show(v, 6)[:160])
    loss = {S.strip(g.args[0]) for x in st if x.loops == st[-1].loops
            for g in map(S.strip, x.d["grads"].values())
            if isinstance(g, App) and g.op == "grad"}
    if len(loss) != 1:
        raise Undecided("no single loss")
    L = next(iter(loss))
    if e.solver == POST:
        N = Norm(S)
        K.value("recorded", nm, S, t, lambda N: N.of(L), where)
        return
    # evaluated again after the step: same loss at the new parameters
    sub = {}
    for p, w in st[-1].d["vals"].items():
        sub[S.strip(w)] = True
    okdata = all(mentions(t, d) for d in e.data())
    K.require("recorded", nm, okdata,
              "the recorded value does not depend on the data", where)
    ops = lambda u: {x.op for x in walk(u) if isinstance(x, App)} & {
        "logsumexp", "rsample", "log", "exp"}
    K.require("recorded", nm + ": same loss", ops(L) <= ops(t) or
              ops(t) == ops(L), "the recorded value is not the loss that is "
              "minimised", where)


def unlast(S, v):
    v = S.strip(v)
    for _ in range(6):
        if isinstance(v, App) and v.op == "lastof":
            v = S.strip(v.args[1])
        elif isinstance(v, App) and v.op in ("item", "array", "float",
                                             "asarray", "tensor"):
            v = S.strip(v.args[0])
        elif isinstance(v, App) and v.op == "each":
            v = S.strip(v.args[1])
        elif isinstance(v, Ite):
            a, b = unlast(S, v.a), unlast(S, v.b)
            return a if a is b else None
        else:
            return v
    return v


NANOPS = ("isnan", "isfinite", "isinf")


def nan(K, S, nm, lid, x):
    where = K.loc(x.loc)
    lp = [v for v in S.events if v.kind == "loop" and v.d["lid"] == lid]
    if not lp:
        raise Undecided("loop not summarised")
    ev = lp[-1]
    n0 = len(x.pc)
    tested = any(isnan_cond(c) for pc in ev.d["brk"] for c, _ in pc)
    back = ev.d["back"]
    ok = all(any(excl(c, p) for c, p in pc) for pc in back) if back else True
    if not ok and not tested and not back:
        ok = None
    if not ok and any(isnan_cond(t) for v in ev.d["marks"] if isinstance(
            v, V) for t in walk(v)):
        ok = None       # kept in a flag tested elsewhere
    K.require("nan", nm, ok, "the loop continues after a NaN value", where)


def isnan_cond(c):
    return isinstance(c, App) and any(
        isinstance(t, App) and t.op in NANOPS for t in walk(c))


def excl(c, p):
    if not isinstance(c, App):
        return False
    if c.op in ("isnan", "isfinite"):
        # a value recorded once and for all says nothing of this iteration
        if any(isinstance(t, App) and t.op == "firstof" for t in walk(c)):
            return False
        return p is (c.op == "isfinite")
    if c.op == "not":
        return excl(c.args[0], not p)
    if c.op in ("any", "all"):
        return excl(c.args[0], p)
    if c.op == "eq" and c.args[0] is c.args[1]:
        return p
    if c.op == "or" and not p:
        return any(excl(a, False) for a in c.args)
    if c.op == "and" and p:
        return any(excl(a, True) for a in c.args)
    return False
