"""eval and score of the operations research estimators."""
from .common import *
from .c22 import Final

EXPLANATION = (
    "eval and score are interpreted on new symbolic data after a fit; the "
    "normal form of eval must be the mean over the new data of the problem's "
    "loss at the final parameters of the model (or at the fitted attributes, "
    "for the dedicated solvers), possibly with the regularisation, and score "
    "must be its opposite.")
# sizes the cases are decided for again
SIZES = (dict(d=1), dict(t=1))


def run(K):
    K.rule("eval", "eval is the mean loss of the fitted decision")
    K.rule("score", "score is minus eval")
    for name, svs in (("NewsVendor", (POST, PRE, DED)),
                      ("Portfolio", (POST, PRE, DED)),
                      ("Weber", (POST, PRE))):
        for sv in svs:
            for y in (True, False) if name == "Weber" else (False,):
                nm = "%s(%s)%s" % (name, sv, " with weights" if y else "")
                with K.case(nm):
                    one_eval(K, nm, name, sv, y)


def one_eval(K, nm, name, sv, withy):
    S = K.session()
    b = {}

    def go(S):
        kw = {}
        if name == "Portfolio":
            kw = dict(eta=S.num("eta", "0+"), alpha=S.num("alpha"),
                      cost=Const("t-NC-1-2"))
        e = b["e"] = Est(K, S, name, sv, **kw)
        if name == "NewsVendor":
            e.X = S.array("X", ("m", 1))
        b["X"] = S.array("Xt", ("t", 1 if name == "NewsVendor" else "d"))
        b["y"] = S.array("yt", ("t",)) if withy else None
        e.build()
        e.fit()
        b["ph"] = phases(S)
        b["eval"] = e.use("eval", b["X"], b["y"])
        b["score"] = e.use("score", b["X"], b["y"])
        return e.e
    K.ok(S, go)
    e = b["e"]
    f = e.fields()
    d, t = S.dim("d"), S.dim("t")
    if sv == DED:
        def loss(N):
            h = lambda k: N.of(e.hyper[k])
            x, c = N.of(b["X"]), N.of(f["coef_"])
            if name == "NewsVendor":
                return h("k") * c - h("u") * N.minof([c, x])
            r = N.sum(x * c, [d])
            tau = N.of(f["tau_"])
            return -r + h("eta") * (tau + N.maxof([
                N.zero(), -r - tau]) / h("alpha"))
        reg = lambda N: N.zero()
    else:
        R = Final(S, e, b["ph"][-1])

        def loss(N):
            y = N.of(b["y"]) if b["y"] is not None else N.num(1)
            return R.loss(N, N.of(b["X"]), y)
        reg = R.l2
    for m, sg, rule in (("eval", 1, "eval"), ("score", -1, "score")):
        def spec(N, extra=False):
            v = N.mean(loss(N), [t])
            return (v + reg(N) if extra else v) * N.num(sg)
        r = None
        for extra in (True, False):
            r = compare(S, b[m], lambda N: spec(N, extra))
            K.ncases += r.cases
            if r.kind == MATCH:
                break
        K.require(rule, nm, {MATCH: True, MISMATCH: False}.get(r.kind),
                  r.detail, e.site(m))
        sh = S.shape(b[m])
        K.require(rule, nm + ": scalar", None if sh is None else sh == (),
                  "the result has shape (%s)" % ", ".join(
                      map(show, sh or ())), e.site(m))
