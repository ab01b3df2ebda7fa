"""Zero radius."""
from skan.norm import Poly
from .common import *

EXPLANATION = (
    "The robust loss is abstractly interpreted with a radius known to be "
    "zero; its term must have the normal form of the reduced per-sample user "
    "loss plus the l2 term, for both sampling modes, first and repeated "
    "evaluations, with and without importance sampling, l2 and transform. "
    "Fits with radius zero must store a zero dual variable.")
# sizes the cases are decided for again
SIZES = (dict(m=1),)


def run(K):
    K.rule("empirical-risk", "value(rho=0) = reduce_i(mean over outputs of "
           "loss(transform(x_i), y_i)) + l2/2 |theta|^2")
    K.rule("dual-var", "dual_var_ is zero after a fit with radius zero")
    K.rule("fitted-risk", "with a zero radius the steps of a fit minimise the "
           "empirical risk of the documented loss")
    K.rule("no-sampling", "the user's loss is evaluated at the data only")
    n = 0
    for lab in (True, False):
        for mode in ("post", "pre", "pre-stored"):
            for red in (None, "none", "sum"):
                for l2 in (False, True):
                    for cost in (None, "1-1"):
                        if K.tier == "quick" and cost and (red or l2):
                            continue
                        nm = "labels=%s %s reduction=%s l2=%s cost=%s" % (
                            lab, mode, red, l2, cost)
                        with K.case(nm):
                            value(K, nm, lab, mode, red, l2, cost)
                        n += 1
    for name in ESTIMATORS:
        for sv in (POST, PRE):
            with K.case("%s(%s) rho=0" % (name, sv)):
                dualvar(K, name, sv)


def l2norm(N, S, mods):
    t = N.zero()
    for m in mods:
        for p in S.params_of(m, True):
            q = N.of(S.freeze(p))
            t = t + N.sum(q * q, list(S.shape(S.freeze(p))))
    return t


def value(K, nm, lab, mode, red, l2, cost):
    S = K.session()
    b = {}
    post = mode == "post"

    def go(S):
        r = b["r"] = Robust(
            K, S, labels=lab, post=post, reduction=red, rho="0",
            same_batch=not post, l2=S.num("l2") if l2 else None,
            cost=cost and "t-%s-%s" % ("NLC" if lab else "NC", cost))
        b["site"] = K.method_site(S, S.obj(r.D).cls, "forward")
        v = r.forward()
        if mode == "pre-stored":
            b["n0"] = len(S.events)
            v = r.call(r.x, r.y)
        return S.freeze(v)
    v = K.ok(S, go)
    r = b["r"]

    def spec(N):
        m, l = S.dim("m"), S.dim("l")
        s = N.mean(N.of(r.unit_loss(r.x, r.y if lab else None)), [l])
        if l2:
            s = s + N.of(r.l2) * l2norm(N, S, (r.loss, r.tr)) / 2
        if red == "none":
            return s
        s2 = N.sum(s, [m])
        return s2 if red == "sum" else s2 / N.of(m)
    K.value("empirical-risk", nm, S, v, spec, b["site"],
            shape=(S.dim("m"),) if red == "none" else ())
    pts = user_points(S, r.tr, S.dim("n"))
    K.require("no-sampling", nm, not pts,
              "the user's model is evaluated on sampled points",
              K.loc(pts[0].loc) if pts else "")


def dualvar(K, name, sv):
    S = K.session()
    b = {}

    def go(S):
        e = b["e"] = Est(K, S, name, sv, rho=S.num("hyper_rho", "0")).build()
        e.fit()
        return S.freeze(e.at("dual_var_"))
    v = K.ok(S, go)
    e = b["e"]
    where = e.site("fit")
    nm = "%s(%s)" % (name, sv)
    for i, p in enumerate(phases(S)):
        # the steps of a fit, on the built-in loss of the estimator
        R = Roles(S, e, p)

        def erm(N):
            X, y = R.data(N)
            return N.mean(R.loss(N, X, y), [S.dim("m")]) + R.l2(N)
        K.value("fitted-risk", "%s, phase %d" % (nm, i + 1), S, p.val, erm,
                K.loc(p.steps[0].loc))
    t = v
    while True:
        t = S.strip(t)
        if isinstance(t, App) and t.op in ("flatten", "array", "float",
                                           "squeeze", "tensor"):
            t = t.args[0]
        elif isinstance(t, Tup) and len(t.items) == 1:
            t = t.items[0]
        elif isinstance(t, Ref) and S.known_items(t) and len(
                S.known_items(t)) == 1:
            t = S.known_items(t)[0]
        else:
            break
    if isinstance(t, Const):
        ok = t.v == 0
    else:
        sg = S.sign(t)
        ok = True if sg is not None and set(sg) == {"0"} else None
        if ok is None and isinstance(t, App) and t.op == "par":
            ok = False
    K.require("dual-var", nm, ok,
              "dual_var_ is %s" % show(v)[:120], where)
