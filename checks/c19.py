"""Regularisation and sampler spread of a robust loss."""
from fractions import Fraction
from .common import *
from .c08 import split_noise

EXPLANATION = (
    "The abstract content of the epsilon of the robust loss and the scale "
    "of the noise in its samples are compared, in normal form, with the "
    "user's value or the documented default, for each sign of the radius, "
    "power of the cost, kind of labels and sampling mode.")


def run(K):
    K.rule("epsilon", "epsilon is the user's, else max(0.01*0.5^k*rho^(k-1),"
           " 1e-7)")
    K.rule("sigma", "the spread is the user's, else rho/2, or 0.5 when rho=0")
    for lab in (True, False):
        for post in (True, False):
            for rho in "+0":
                for cost in (None, "1-2", "2-2", "1-1") + (
                        ("2-2-3", "1-2-3") if lab else ()):
                    for eps, sig in ((False, False), (True, False),
                                     (False, True), (True, True)):
                        nm = "labels=%s post=%s rho%s cost=%s " \
                            "epsilon %s sigma %s" % (
                                lab, post, ">0" if rho == "+" else "=0",
                                cost, "given" if eps else "omitted",
                                "given" if sig else "omitted")
                        with K.case(nm):
                            one_config(K, nm, lab, post, rho, cost, eps, sig)
                nm = "labels=%s post=%s rho%s epsilon and sigma zero" % (
                    lab, post, ">0" if rho == "+" else "=0")
                with K.case(nm):
                    one_config(K, nm, lab, post, rho, None, Const(0.0),
                               Const(0.0))
    for name in ("LinearRegression", "LogisticRegression"):
        for sv in (POST, PRE):
            with K.case("%s %s" % (name, sv)):
                estimator(K, name, sv)


def one_config(K, nm, lab, post, rho, cost, eps, sig):
    S = K.session()
    b = {}

    def go(S):
        r = b["r"] = Robust(
            K, S, labels=lab, post=post, rho=rho, eps=eps, sigma=sig,
            same_batch=True, cost=cost and "t-%s-%s" % (
                "NLC" if lab else "NC", cost))
        b["eps"] = S.freeze(r.at("epsilon"))
        return r.zetas()[0]
    z = K.ok(S, go)
    r = b["r"]
    where = K.site(S, K.get(S, ROBUSTIFY))
    k = float((cost or "2-2").split("-")[0])

    def espec(N):
        if eps:
            return N.of(r.eps)
        if rho == "0":
            return N.num(Fraction(1, 200) if k == 1 else Fraction(1, 10 ** 7))
        return default_eps(N, r.rho, k)
    K.value("epsilon", nm, S, b["eps"], espec, where)

    def sspec(N):
        return N.of(r.sigma) if sig else N.num(.5) if rho == "0" else \
            N.of(r.rho) / 2
    K.value("sigma", nm, S, spread(z, r.x), sspec, where)


def default_eps(N, rho, k):
    c = Fraction(1, 100) * Fraction(1, 2) ** int(k)
    return N.maxof([N.of(rho) ** (k - 1) * N.num(c), N.num(
        Fraction(1, 10 ** 7))])


def spread(z, x=None):
    def f(N):
        c, s = split_noise(N, N.of(z))
        if c is not None and s is None and x is not None and N.equal(
                N.of(z), N.of(x)):
            return N.zero()
        if s is None:
            raise Undecided("sample without additive noise")
        return s
    return f


def estimator(K, name, sv):
    """estimators without sampler_reg and solver_reg get the defaults"""
    S = K.session()
    b = {}

    def go(S):
        e = b["e"] = Est(K, S, name, sv, solver_reg=NONE, sampler_reg=NONE,
                         cost=Const("t-NLC-1-2"))
        e.build()
        e.fit()
        return e.e
    K.ok(S, go)
    e = b["e"]
    rho = e.hyper["rho"]
    back = [ev for ev in S.events if ev.kind == "backward" and ev.loops]
    zs = {t for ev in back for t in draws(S, ev.d["val"])
          if len(S.shape(t) or ()) == 3 and S.shape(t)[-1] is S.dim("d")}
    if not zs:
        raise Undecided("no draw in the objective")
    for z in zs:
        K.value("sigma", "%s(%s)" % (name, sv), S, spread(z),
                lambda N: N.of(rho) / 2, e.site("fit"))
