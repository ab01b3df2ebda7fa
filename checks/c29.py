"""Dedicated convex programs."""
from .programs import *

EXPLANATION = (
    "Objective and constraints handed to the convex solver are read from the "
    "problem objects built on symbolic data, put in normal form (loops over "
    "samples become families of constraints, epigraph variables are replaced "
    "by their bounds) and compared with the documented program in which the "
    "values returned by the solver play their documented roles.")

SP = "skwdro.solvers.specific_solvers."


def run(K):
    programs(K, (False, True))


def programs(K, whos):
    K.rule("program", "objective and constraints are the documented ones")
    K.rule("solved", "the program built is solved, then read")
    K.rule("data", "the estimator hands its data and hyperparameters over")
    K.rule("threshold", "the newsvendor test compares with the documented "
           "threshold")
    for est in whos:
        who = "estimator" if est else "solver"
        for fi in (True, False):
            nm = "LinearRegression %s(fit_intercept=%s)" % (who, fi)
            with K.case(nm):
                lin(K, nm, est, fi)
            nm = "LogisticRegression %s(fit_intercept=%s)" % (who, fi)
            with K.case(nm):
                log(K, nm, est, fi)
        nm = "NewsVendor " + who
        with K.case(nm):
            news(K, nm, est)
        for con in (False, True):
            for cost, p in (("t-NC-1-1", 1), ("t-NC-2-2", 2),
                            ("t-NC-1-inf", "inf"), ("t-NC-1-2", 2)):
                nm = "Portfolio %s(cost=%s, constraints=%s)" % (
                    who, cost, con)
                with K.case(nm):
                    port(K, nm, est, cost, p, con)


def fields(K, S, est, name, sol, over, names, **args):
    """values returned by the solver and the data of the scenario"""
    if est:
        e = Est(K, S, name, DED, **over).build()
        e.fit()
        out = {}
        for k, a in names.items():
            f = S.obj(e.e).f.get(a[0])
            if f is None:
                raise Undecided("no attribute %s" % a[0])
            out[k] = f
        return e, out
    r = S.icall(K.get(S, SP + sol), **args)
    out = {}
    for k, a in names.items():
        out[k] = S.get_attr(r, a[1])
    return None, out


def judge(K, nm, S, ev, roles, f, free=False):
    ex0 = []

    def g(N):
        pr, ex = prepare(S, N, ev, roles)
        ex0.append(ex)
        return f(N, pr, ex)
    bad = None
    n = 0
    for N, r in cases(S, g):
        if r is None and free and not ex0[-1]["intercept"].t:
            r = "the intercept is forced to be zero"
        n += 1
        bad = bad or r
    K.ncases += n
    K.require("program", nm, bad is None, bad or "", K.loc(ev.loc))
    used = [x for x in S.events if x.kind == "cvx_solve"
            and x.d["ref"] is ev.d["ref"]]
    K.require("solved", nm, len(used) >= 1, "the program is never solved",
              K.loc(ev.loc))


def single(S):
    ps = problems(S)
    if len(ps) != 1:
        raise Undecided("%d programs" % len(ps))
    return ps[0]


NAMES = {"coef": ("coef_", "coef"), "intercept": ("intercept_", "intercept"),
         "dual": ("dual_var_", "dual_var")}


def lin(K, nm, est, fi):
    S = K.session()
    b = {}
    X, y = S.array("X", ("m", "d")), S.array("y", ("m",))
    rho = S.num("rho")

    def go(S):
        b["e"], b["r"] = fields(
            K, S, est, "LinearRegression", "WDROLinRegSpecificSolver",
            {"rho": rho, "fit_intercept": Const(fi)},
            {k: NAMES[k] for k in ("coef", "intercept")},
            rho=rho, X=X, y=y, fit_intercept=Const(fi))
        return NONE
    K.ok(S, go)
    judge(K, nm, S, single(S), b["r"], lambda N, pr, ex: linear_regression(
        S, N, pr, ex, {"X": X, "y": y, "rho": rho}), fi)


def log(K, nm, est, fi):
    S = K.session()
    b = {}
    X, y = S.array("X", ("m", "d")), S.array("y", ("m",))
    rho = S.num("rho")
    kap = S.num("kappa")

    def go(S):
        b["e"], b["r"] = fields(
            K, S, est, "LogisticRegression", "WDROLogisticSpecificSolver",
            {"rho": rho, "fit_intercept": Const(fi)}, NAMES,
            rho=rho, X=X, y=y, kappa=kap, fit_intercept=Const(fi))
        return NONE
    K.ok(S, go)
    # the cost of flipping a label is a constant of the estimator
    D = {"X": X, "y": S.freeze(b["e"].at("y_")) if est else y, "rho": rho,
         "kappa": kap}
    ev = single(S)
    if est:
        D["kappa"] = flip_cost(S, ev)
    judge(K, nm, S, ev, b["r"], lambda N, pr, ex: logistic(
        S, N, pr, ex, D), fi)


def flip_cost(S, ev):
    """large number multiplying the dual variable"""
    for c in ev.d["cons"]:
        for t in walk(c):
            if isinstance(t, Const) and isinstance(t.v, (int, float)) and \
                    not isinstance(t.v, bool) and t.v >= 100:
                return t
    raise Undecided("no cost of flipping labels")


def news(K, nm, est):
    S = K.session()
    b = {}
    k, u, rho = S.num("k"), S.num("u"), S.num("rho")
    z = S.array("z", ("m", 1))

    def go(S):
        if est:
            e = b["e"] = Est(K, S, "NewsVendor", DED, k=k, u=u, rho=rho)
            e.build()
            e.fit()
            b["coef"] = e.at("coef_")
            b["z"] = App("mean", (e.X,), {"dim": Const(1),
                                          "keepdim": TRUE})
        else:
            r = S.icall(K.get(S, SP + "WDRONewsvendorSpecificSolver"), k=k,
                        u=u, rho=rho, samples=z)
            its = S.tupled(r)
            b["coef"] = its.items[0] if isinstance(its, Tup) else \
                S.get_attr(r, "coef")
            b["z"] = z
        return NONE
    K.ok(S, go)
    D = {"k": k, "u": u, "z": b["z"], "rho": rho}
    evs = problems(S)
    if not evs:
        raise Undecided("no program")
    done = set()
    for t in leaves(S.freeze(b["coef"])):
        t = S.strip(t)
        if isinstance(t, Const):
            K.require("program", nm + ": constant order", t.v == 0,
                      "the order is %s" % show(t))
            continue
        evt = [e for e in evs if any(is_variable_of(S, x, e)
                                     for x in walk(t))]
        if len(evt) != 1:
            raise Undecided("order %s" % show(t, 4))
        if evt[0] in done:
            continue
        done.add(evt[0])
        judge(K, nm + ": sample average", S, evt[0], {"coef": t},
              lambda N, pr, ex: newsvendor(S, N, pr, ex, D))
    threshold(K, nm, S, evs, D)


def is_variable_of(S, x, ev):
    if not isinstance(x, Ref):
        return False
    return any(y is x for c in (ev.d["obj"],) + tuple(ev.d["cons"])
               for y in walk(c))


def threshold(K, nm, S, evs, D):
    """test deciding between ordering nothing and the sample average"""
    got = []
    for ev in evs:
        for c, pol in ev.pc:
            if isinstance(c, App) and c.op in ("le", "lt") and mentions(
                    c, D["k"]):
                got.append((ev, c, pol))
    if len(got) != 1:
        K.require("threshold", nm, None, "%d tests" % len(got))
        return
    ev, c, pol = got[0]

    def f(N):
        T = N.of(c.args[1]) - N.of(c.args[0])
        z = N.of(App("sort", (D["z"],), {"dim": Const(0)}))
        stars = [i for i, (k, *_) in enumerate(N.atoms) if k[0] == "at"
                 and N.atoms[k[1]][0][0] == "fn"
                 and N.atoms[k[1]][0][1] == "sort"]
        out = None
        u, k, r = (N.of(D[x]) for x in ("u", "k", "rho"))
        for i in stars:
            s = Poly(N, {((i, Fraction(1)),): Fraction(1)})
            for zz in (z, N.of(D["z"])):
                sp = u * r / s + k - u * N.mean(N.minof([
                    zz / s, N.num(1)]), [S.dim("m")])
                if N.equal(T, sp):
                    return None
                out = "the test is on %s, expected %s" % (
                    N.show(T)[:300], N.show(sp)[:300])
        if out is None or N.unk(T):
            return "?" + (out or "")
        return out
    rs = [r for _, r in cases(S, f)]
    bad = [r for r in rs if r]
    und = [r for r in bad if r[0] == "?"]
    K.require("threshold", nm, None if und else not bad,
              bad[0] if bad else "", K.loc(ev.loc))
    K.require("threshold", nm + ": side", not pol,
              "the sample average is used when the test holds",
              K.loc(ev.loc))


def port(K, nm, est, cost, p, con):
    S = K.session()
    b = {}
    X = S.array("X", ("m", "d"))
    D = {"X": X, "eta": S.num("eta", "0+"), "alpha": S.num("alpha"),
         "rho": S.num("rho", "0+")}
    if con:
        D["C"], D["d"] = S.array("C", ("q", "d")), S.array("dd", ("q",))
    P = {1: Const(1), 2: Const(2), "inf": Const(float("inf"))}[p]

    def go(S):
        kw = dict(rho=D["rho"], eta=D["eta"], alpha=D["alpha"])
        over = dict(kw, cost=Const(cost))
        if con:
            over.update(C=D["C"], d=D["d"])
        zero = not con and not est
        C = D["C"] if con else S.op("zeros", (Const(1), S.dim("d")),
                                    {"lib": Const("numpy")})
        d = D["d"] if con else S.op("zeros", (Const(1), Const(1)),
                                    {"lib": Const("numpy")})
        b["e"], b["r"] = fields(
            K, S, est, "Portfolio", "WDROPortfolioSpecificSolver", over,
            {"coef": NAMES["coef"], "tau": ("tau_", "intercept"),
             "dual": NAMES["dual"]},
            C=C, d=d, m=S.dim("d"), p=P, samples=X, **kw)
        return NONE
    K.ok(S, go)
    judge(K, nm, S, single(S), b["r"], lambda N, pr, ex: portfolio(
        S, N, pr, ex, D, p))
