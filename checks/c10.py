"""Sign of the dual multiplier."""
from .common import *

EXPLANATION = (
    "Sign analysis of the multiplier: the abstract value it holds after "
    "construction, after the initial guess, after one and two steps of the "
    "optimiser attached by the library and after a whole fit must be "
    "nonnegative, where a step of a base optimiser gives a parameter an "
    "arbitrary value.  All optimiser choices and sampling modes are "
    "enumerated.")


def run(K):
    K.rule("initial", "the multiplier is nonnegative at construction and "
           "after its initial guess")
    K.rule("step", "the multiplier is nonnegative after each optimiser step")
    K.rule("fit", "the multiplier is nonnegative at the end of fit")
    for post in (True, False):
        for rho in "+0":
            for cost in (None, "1-1", "1-2"):
                nm = "post=%s rho%s cost=%s" % (
                    post, ">0" if rho == "+" else "=0", cost)
                with K.case("initial " + nm):
                    initial(K, nm, post, rho, cost)
        for adapt in ("prodigy", "mechanic", None):
            if not post and adapt == "mechanic":
                continue
            for lab in (True, False):
                nm = "post=%s adapt=%s labels=%s" % (post, adapt, lab)
                with K.case("step " + nm):
                    step(K, nm, post, adapt, lab)
    for name in ESTIMATORS:
        for sv in (POST, PRE):
            for lr in (True, False):
                nm = "%s(%s, learning_rate=%s)" % (
                    name, sv, "given" if lr else "None")
                with K.case("fit " + nm):
                    fit(K, nm, name, sv, lr)


def nonneg(S, v):
    """True, None (cannot tell) or False (an unprojected parameter)"""
    s = S.sign(v)
    if "-" not in s:
        return True
    if isinstance(v, Ite):
        r = [nonneg(S, v.a), nonneg(S, v.b)]
        return False if False in r else None
    t = S.strip(v)
    if t in S.stepped:
        return False
    if isinstance(t, App) and t.op == "par" and len(t.args) > 1:
        return False
    if isinstance(t, App) and t.op == "maximum":
        r = [False if set(S.sign(a)) == {"-"} else nonneg(S, a)
             for a in t.args]
        if all(x is False for x in r):
            return False
    if isinstance(t, App) and t.op == "minimum":
        if any(nonneg(S, a) is False for a in t.args):
            return False
    return None


def site(K, S, D):
    return K.method_site(S, S.obj(D).cls, "forward")


def initial(K, nm, post, rho, cost):
    S = K.session()
    b = {}

    def go(S):
        r = b["r"] = Robust(K, S, post=post, rho=rho, same_batch=not post,
                            cost=cost and "t-NLC-" + cost)
        b["v0"] = S.freeze(r.at("lam"))
        b["site"] = K.method_site(S, S.obj(r.D).cls,
                                  "get_initial_guess_at_dual")
        S.icall(r.at("get_initial_guess_at_dual"), r.x, r.y)
        return S.freeze(r.at("lam"))
    v = K.ok(S, go)
    for k, t in (("construction", b["v0"]), ("initial guess", v)):
        K.require("initial", "%s: %s" % (nm, k), init_sign(S, b["r"], t),
                  "the multiplier is %s" % show(t)[:200], b["site"])


def init_sign(S, r, v):
    s = S.sign(v)
    if "-" not in s:
        return True
    return False if set(s) == {"-"} else None


def step(K, nm, post, adapt, lab):
    S = K.session()
    b = {}

    def go(S):
        r = b["r"] = Robust(K, S, labels=lab, post=post, same_batch=not post,
                            adapt=adapt, lr=S.num("lr"), imp=False)
        opt = r.at("optimizer")
        out = []
        for _ in range(2):
            S.icall(S.get_attr(opt, "zero_grad"))
            if post:
                v = r.forward()
                S.icall(S.get_attr(v, "backward"))
                S.icall(S.get_attr(opt, "step"))
            else:
                v = r.forward()
                S.icall(S.get_attr(v, "backward"))
                S.icall(S.get_attr(opt, "step"))
            out.append(S.freeze(r.at("lam")))
        b["out"] = out
        b["ref"] = r.at("lam")
        return out[-1]
    K.ok(S, go)
    st = [e for e in S.events if e.kind == "step" and b["ref"] in
          e.d["params"]]
    if not st:
        raise Undecided("the multiplier is not stepped")
    new = [e for e in S.events if e.kind == "optim_new"]
    at = K.loc(new[-1].loc) if new else K.loc(st[0].loc)
    for i, t in enumerate(b["out"]):
        K.require("step", "%s, step %d" % (nm, i + 1), nonneg(S, t),
                  "the multiplier holds %s after a step" % show(t)[:160],
                  at)


def fit(K, nm, name, sv, lr):
    S = K.session()
    b = {}

    def go(S):
        e = b["e"] = Est(K, S, name, sv, **({} if lr else
                                            {"learning_rate": NONE}))
        e.build()
        e.fit()
        return e.e
    K.ok(S, go)
    e = b["e"]
    lam = multiplier(S)
    for ref in lam:
        v = S.freeze(ref)
        st = [x for x in S.events if x.kind == "step"
              and ref in x.d["params"]]
        K.require("fit", nm, nonneg(S, v),
                  "the multiplier holds %s after the fit" % show(v)[:160],
                  K.loc(st[-1].loc) if st else e.site("fit"))
    if not lam:
        raise Undecided("no multiplier found")
