"""The stopping rule."""
from .common import *

EXPLANATION = (
    "The stopping rule is abstractly called several times on a robust loss "
    "whose parameters, multiplier and gradients are symbols changing between "
    "the calls, for every monitor, metric, mode, order and sign of the "
    "tolerances.  The answer, a boolean term, is compared with the "
    "documented one for every outcome of the comparisons it is made of.")

OC = "skwdro.solvers.optim_cond.OptCondTorch"
BOTH = ("both", "theta_and_lambda", "t&l", "lambda_and_theta", "l&t")
ONE = ("one", "theta_or_lambda", "tUl", "lambda_or_theta", "lUt")
THETA, LAMBDA = ("theta", "t"), ("lambda", "l")
CALLS = 4


def run(K):
    K.rule("answer", "yes exactly when the monitored quantities are below "
           "their tolerances")
    K.rule("first-calls", "the first calls only record")
    K.rule("budget", "yes when the iteration budget is reached")
    K.rule("tolerance", "a nonpositive tolerance never triggers")
    K.rule("refused", "unknown names are refused")
    K.rule("default", "the default rule monitors relative gradients of the "
           "parameters")
    for metric in ("grad", "param"):
        for mode in ("rel", "abs"):
            for mon in BOTH + ONE + THETA + LAMBDA:
                orders = (2,) if mon not in ("both", "theta") else (
                    1, 2, "inf")
                for o in orders:
                    nm = "%s %s %s order %s" % (mon, metric, mode, o)
                    with K.case(nm):
                        answers(K, nm, mon, metric, mode, o)
            nm = "both %s %s verbose" % (metric, mode)
            with K.case(nm):
                answers(K, nm, "both", metric, mode, 2, verbose=TRUE)
            for mon in ("both", "one", "theta", "lambda"):
                for tt, tl in ((0., "+"), ("+", 0.), (-1., "+"), ("+", -1.),
                               (0., 0.)):
                    nm = "%s %s %s tol_theta=%s tol_lambda=%s" % (
                        mon, metric, mode, tt, tl)
                    with K.case(nm):
                        answers(K, nm, mon, metric, mode, 2, tt, tl,
                                "tolerance")
    for bad in ({"monitoring": "gamma"}, {"metric": "loss"},
                {"mode": "relative"}, {"metric": "gradient"},
                {"monitoring": "Theta"}, {"mode": "ABS"},
                {"mode": "x", "metric": "param"}):
        nm = ", ".join("%s=%r" % x for x in bad.items())
        with K.case(nm):
            refused(K, nm, bad)
    for n_iter in ("pair", "int", "zero"):
        with K.case("budget " + n_iter):
            budget(K, n_iter)
    with K.case("budget verbose"):
        budget(K, "pair", ", verbose", verbose=TRUE)
    with K.case("budget param"):
        budget(K, "pair", ", both parameters", metric=Const("param"),
               monitoring=Const("both"))
    with K.case("default"):
        answers(K, "default", None, None, None, 2, rule="default")


class Drive:
    """a robust loss moving between the calls of a stopping rule"""

    def __init__(self, K, S, n_iter, **kw):
        self.K, self.S = K, S
        self.r = Robust(K, S, labels=False, post=True, imp=False,
                        adapt=None, transform=False, n_iter=n_iter,
                        loss=S.user_module("loss", reduction=Const("none"),
                                           nparams=2))
        self.pars = list(S.params_of(self.r.loss, True))
        self.lam = self.r.at("lam")
        self.oc = S.icall(K.get(S, OC), kw.pop("order"), **kw)

    def move(self):
        S = self.S
        opt = self.r.at("optimizer")
        S.icall(S.get_attr(opt, "zero_grad"))
        v = self.r.forward()
        S.icall(S.get_attr(v, "backward"))
        S.icall(S.get_attr(opt, "step"))

    def look(self):
        """(values, gradients) of the parameters, then of the multiplier"""
        S = self.S
        ps = self.pars + [self.lam]
        return [S.freeze(p) for p in ps], [S.freeze(S.get_attr(p, "grad"))
                                           for p in ps]

    def ask(self, it):
        return self.S.freeze(self.S.icall(self.oc, self.r.D, it))


def answers(K, nm, mon, metric, mode, order, tt="+", tl="+", rule="answer",
            **kws):
    S = K.session()
    b = {"a": [], "l": []}
    tol = {}

    def go(S):
        kw = dict(kws)
        for k, t in (("tol_theta", tt), ("tol_lambda", tl)):
            tol[k] = kw[k] = S.num(k) if t == "+" else Const(t)
        for k, t in (("monitoring", mon), ("metric", metric),
                     ("mode", mode)):
            if t is not None:
                kw[k] = Const(t)
        D = b["d"] = Drive(K, S, Tup((Const(30), Const(50))),
                           order=Const(order), **kw)
        for i in range(CALLS):
            D.move()
            b["l"].append(D.look())
            b["a"].append(D.ask(Const(i)))
        return NONE
    K.total(S, go, rule, nm + ": returns")
    D = b["d"]
    where = K.method_site(S, S.obj(D.oc).cls, "__call__")
    mon, metric, mode = mon or "theta", metric or "grad", mode or "rel"

    def norm(N, ts):
        if len(ts) == 1:
            return N.abs(N.of(ts[0]) if isinstance(ts[0], V) else ts[0])
        ps = [N.of(t) if isinstance(t, V) else t for t in ts]
        if order == 2:
            return sum((N.sum(p * p, N.axes(p)) for p in ps),
                       N.zero()) ** .5
        if order == 1:
            return sum((N.sum(N.abs(p), N.axes(p)) for p in ps), N.zero())
        return N.maxof([N.rmax(N.abs(p), frozenset(N.axes(p)))
                        for p in ps])

    def measure(N, which, i):
        """quantity compared at call i"""
        cut = (lambda x: x[:-1]) if which == "theta" else (lambda x: x[-1:])
        if metric == "grad":
            return norm(N, cut(b["l"][i][1]))
        now, old = cut(b["l"][i][0]), cut(b["l"][i - 1][0])
        return norm(N, [N.of(p) - N.of(q) for p, q in zip(now, old)])
    first = 0 if metric == "grad" else 1

    def below(N, which, i):
        t = tol["tol_" + which]
        if isinstance(t, Const) and t.v <= 0:
            return False
        if i <= first:
            return False
        q = measure(N, which, i)
        bound = N.of(t) * (measure(N, which, first) if mode == "rel" else 1)
        P = q - bound
        if P.const() is not None:
            return P.const() < 0
        return N.ask(("neg", N.scale(P).key()))

    def spec(i):
        def f(N):
            if mon in BOTH:
                r = below(N, "lambda", i) and below(N, "theta", i)
            elif mon in ONE:
                r = below(N, "lambda", i) or below(N, "theta", i)
            else:
                r = below(N, "theta" if mon in THETA else "lambda", i)
            return N.num(int(r))
        return f
    for i, a in enumerate(b["a"]):
        K.value("first-calls" if i <= first and rule == "answer" else rule,
                "%s, call %d" % (nm, i + 1), S,
                lambda N, a=a: N.num(int(N.truth(a))), spec(i), where)


def refused(K, nm, bad):
    S = K.session()

    def go(S):
        kw = {k: Const(v) for k, v in bad.items()}
        D = Drive(K, S, Tup((Const(30), Const(50))), order=Const(2),
                  tol_theta=S.num("tol_theta"),
                  tol_lambda=S.num("tol_lambda"), **kw)
        for i in range(CALLS):
            D.move()
            D.ask(Const(i))
        return NONE
    v, leaves = S.run(lambda: go(S))
    K.require("refused", nm, v is None, "the unknown name is accepted",
              K.method_site(S, OC, "__call__"))


def budget(K, how, more="", **kw):
    for it, want in ((0, False), (1, False), (48, False), (49, False),
                     (50, True), (51, True), (1000, True)):
        S = K.session()
        n = {"pair": Tup((Const(30), Const(50))), "int": Const(50),
             "zero": Tup((Const(30), Const(0)))}[how]
        if how == "zero":
            want = False
        b = {}

        def go(S):
            D = b["d"] = Drive(K, S, n, order=Const(2), tol_theta=Const(0.),
                               tol_lambda=Const(0.), **kw)
            D.move()
            return D.ask(Const(it))
        v = K.ok(S, go)
        v = S.strip(v)
        d = S.decide(v) if not isinstance(v, Const) else bool(v.v)
        K.require("budget", "n_iter %s%s, iteration %d" % (how, more, it),
                  None if d is None else d is want,
                  "the rule answers %s" % show(v),
                  K.method_site(S, OC, "__call__"))
