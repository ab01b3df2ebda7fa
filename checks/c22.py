"""Fitted attributes and solver results."""
from .common import *
from .programs import (prepare, logistic, linear_regression, portfolio,
                       problems, Unreadable)

EXPLANATION = (
    "The attributes set by a fit on symbolic data are compared, by normal "
    "forms, with the values the parameters of the trained model (told apart "
    "by their shapes) have after the last training loop; with the dedicated "
    "solvers, the program they solve must be the documented one when the "
    "attributes play their roles.  Solver results of every arity are built "
    "from symbolic values and read back by name and by unpacking.")

RES = "skwdro.solvers.result."
# sizes the cases are decided for again
SIZES = (dict(d=1),)


def run(K):
    K.rule("coef", "coef_ is the final value of the model's coefficients")
    K.rule("intercept", "intercept_ is the final bias, None without one")
    K.rule("dual", "dual_var_ is the final value of the multiplier")
    K.rule("loss", "robust_loss_ is the last robust loss of the training")
    K.rule("dedicated", "attributes play their roles in the solved program")
    K.rule("field", "a solver result gives each field under its name")
    K.rule("unpack", "a solver result unpacks in order")
    for name in ESTIMATORS:
        for sv in (POST, PRE):
            for fi in (TRUE, FALSE) if name in (
                    "LinearRegression", "LogisticRegression") else (None,):
                for nc in (2, 3) if name == "LogisticRegression" else (2,):
                    nm = "%s(%s%s%s)" % (
                        name, sv, "" if fi is None else
                        ", fit_intercept=%s" % fi.v,
                        ", 3 classes" if nc == 3 else "")
                    with K.case(nm):
                        torch_fit(K, nm, name, sv, fi, nc)
    for name in ("LinearRegression", "LogisticRegression", "Portfolio"):
        for fi in (TRUE, FALSE) if name != "Portfolio" else (None,):
            nm = "%s(dedicated%s)" % (name, "" if fi is None else
                                      ", fit_intercept=%s" % fi.v)
            with K.case(nm):
                dedicated(K, nm, name, fi)
    results(K)
    for post in (True, False):
        nm = "solve_dual_wdro(post_sample=%s)" % post
        with K.case(nm):
            direct(K, nm, post)


class Final(Roles):
    """model parameters with the values they have after the fit"""

    def __init__(self, S, e, ph):
        super().__init__(S, e, ph)
        self.lam = S.freeze(multiplier(S)[0])
        self.all = [(p, S.freeze(p)) for p, _ in self.all]


def single(S, v):
    """a list of one number stands for the number"""
    def take(v):
        if isinstance(v, Ite):
            return Ite(v.c, take(v.a), take(v.b))
        if isinstance(v, Ref) and S.obj(v).kind == "list":
            xs = S.items_of(v)
            if xs and len(xs) == 1 and isinstance(xs[0], Const):
                return xs[0]
        return v
    return take(S.freeze(v))


def torch_fit(K, nm, name, sv, fi, nc):
    S = K.session()
    b = {}

    def go(S):
        kw = {} if fi is None else {"fit_intercept": fi}
        e = b["e"] = Est(K, S, name, sv, nclasses=nc, rho=S.num("rho"), **kw)
        e.build()
        e.fit()
        return e.e
    K.ok(S, go)
    e = b["e"]
    where = e.site("fit")
    ph = phases(S)
    if not ph:
        raise Undecided("no training loop")
    R = Final(S, e, ph[-1])
    d = S.dim("d")

    def coef(N):
        if name in ("LinearRegression", "LogisticRegression"):
            return N.of(R.weight())
        if name == "Portfolio":
            ex = N.exp(N.of(R.weight()))
            return ex / N.sum(ex, [d])
        return N.of(R.pick(lambda s: len(s) == 1, "decision"))
    f = e.fields()
    if "coef_" not in f:
        K.record("coef", nm, "violated", "coef_ is not set", where)
    else:
        K.value("coef", nm, S, f["coef_"], coef, where)
    if fi is not None and "intercept_" in f:
        v = f["intercept_"]
        if fi is TRUE:
            K.value("intercept", nm, S, v, lambda N: N.of(R.bias()), where)
        else:
            t = S.strip(v)
            K.require("intercept", nm, t is NONE or (
                isinstance(t, Const) and t.v == 0),
                "intercept_ is %s without intercept" % show(v, 4), where)
    elif fi is not None:
        K.record("intercept", nm, "violated", "intercept_ is not set", where)
    if "dual_var_" in f:
        K.value("dual", nm, S, single(S, f["dual_var_"]),
                lambda N: N.of(R.lam), where)
    else:
        K.record("dual", nm, "violated", "dual_var_ is not set", where)
    if "robust_loss_" in f:
        last_loss(K, nm, S, f["robust_loss_"], ph[-1], where)
    else:
        K.record("loss", nm, "violated", "robust_loss_ is not set", where)


def last_loss(K, nm, S, v, ph, where):
    from .c35 import has_lse
    t = S.strip(v)
    while isinstance(t, App) and t.op in ("item", "float", "tensor",
                                          "array", "detach"):
        t = S.strip(t.args[0])
    txt = "robust_loss_ is %s" % show(v, 4)[:200]
    if isinstance(t, App) and t.op == "lastof":
        K.require("loss", nm + ": loop", t.args[0] is ph.src, txt, where)
        K.require("loss", nm, has_lse(S, t.args[1]) or None, txt, where)
        # evaluated with the parameters of its own iteration
        pars = {x for x in walk(t.args[1]) if isinstance(x, App)
                and x.op == "par"}
        late = {x for x in pars if isinstance(x.args[1], Const) and str(
            x.args[1].v).startswith(("step", "loop"))}
        K.require("loss", nm + ": parameters", bool(late),
                  txt + ", not a function of the trained parameters", where)
        return
    if isinstance(t, App) and t.op in ("loopres", "loopvar") or not \
            isinstance(t, (App, Const)):
        K.require("loss", nm, None, txt)
        return
    if isinstance(t, App) and not (t.op in (
            "firstof", "max", "min", "mean", "sum", "minof", "maxof") or
            t.op == "getitem" and isinstance(t.args[1], Const)):
        # another writing: some robust loss of the training parameters
        ok = has_lse(S, t)
        K.require("loss", nm, True if ok else None, txt, where)
        return
    K.require("loss", nm, False, txt, where)


def dedicated(K, nm, name, fi):
    S = K.session()
    b = {}
    rho = S.num("rho")

    def go(S):
        kw = {"rho": rho}
        if fi is not None:
            kw["fit_intercept"] = fi
        if name == "Portfolio":
            kw.update(cost=Const("t-NC-1-2"), alpha=S.num("alpha"),
                      eta=S.num("eta", "0+"))
        e = b["e"] = Est(K, S, name, DED, **kw)
        e.build()
        e.fit()
        return e.e
    K.ok(S, go)
    e = b["e"]
    f = e.fields()
    where = e.site("fit")
    ps = problems(S)
    if len(ps) != 1:
        raise Undecided("%d programs" % len(ps))
    D = {"X": e.X, "rho": rho}
    names = {"coef": "coef_", "intercept": "intercept_",
             "dual": "dual_var_"}
    if name == "LinearRegression":
        D["y"] = e.y
        del names["dual"]
        prog = linear_regression
    elif name == "LogisticRegression":
        from .c29 import flip_cost
        D.update(y=S.freeze(e.at("y_")), kappa=flip_cost(S, ps[0]))
        prog = logistic
    else:
        D.update(eta=e.hyper["eta"], alpha=e.hyper["alpha"])
        names = {"coef": "coef_", "tau": "tau_", "dual": "dual_var_"}
        prog = lambda *a: portfolio(*a, 2)
    for k, a in names.items():
        K.require("dedicated", "%s sets %s" % (nm, a), a in f,
                  "%s is not set" % a, where)
    if any(a not in f for a in names.values()):
        return
    roles = {k: f[a] for k, a in names.items()}

    def g(N):
        pr, ex = prepare(S, N, ps[0], roles)
        return prog(S, N, pr, ex, D)
    bad = [r for _, r in cases(S, g) if r]
    K.require("dedicated", nm, not bad, "with the attributes in their roles "
              "the program is not the documented one: %s" % (
                  bad[0] if bad else ""), where)


FIELDS = {1: ("coef",), 2: ("coef", "dual_var"),
          3: ("coef", "intercept", "dual_var"),
          4: ("coef", "intercept", "dual_var", "robust_loss")}


def results(K):
    for n, names in FIELDS.items():
        for how in ("tuple", "dict", "result"):
            nm = "wrapped solver returning a %s of %d" % (how, n)
            with K.case(nm):
                wrapped(K, nm, n, names, how)
    nm = "SolverResult"
    with K.case(nm):
        S = K.session()
        b = {k: S.opaque_value("v_" + k) for k in FIELDS[4]}
        C = K.get(S, RES + "SolverResult")
        K.ok(S, lambda S: b.setdefault("r", S.icall(C, **{
            k: v for k, v in b.items()})))
        read_back(K, nm, S, b.pop("r"), b, ("coef", "intercept",
                                             "dual_var"), C)


def wrapped(K, nm, n, names, how):
    S = K.session()
    vals = {k: S.opaque_value("v_" + k) for k in names}
    W = K.get(S, RES + "wrap_solver_result")
    C = K.get(S, RES + "SolverResult")
    out = {}

    def go(S):
        if how == "tuple":
            r = Tup(vals.values())
        elif how == "dict":
            r = S.new_dict([(Const(k), v) for k, v in vals.items()])
        else:
            r = S.icall(C, **vals)
        f = S.icall(W, S.function("solver", r))
        out["r"] = S.icall(f)
        return out["r"]
    K.ok(S, go)
    order = names if how != "result" else ("coef", "intercept", "dual_var")
    read_back(K, nm, S, out["r"], vals, order, W)


def read_back(K, nm, S, r, vals, order, C):
    where = K.site(S, C)
    for k, v in vals.items():
        got = K.ok(S, lambda S: S.get_attr(r, k))
        K.require("field", "%s: %s" % (nm, k), S.strip(got) is v,
                  "%s is %s" % (k, show(got, 3)), where)
    its = S.known_items(r)
    if its is None:
        K.require("unpack", nm, None, "unpacking is not readable")
        return
    want = [vals.get(k, NONE) for k in order]
    K.require("unpack", nm, [S.strip(x) for x in its] == want,
              "unpacks as %s" % ", ".join(show(x, 3) for x in its), where)


def direct(K, nm, post):
    S = K.session()
    b = {}

    def go(S):
        r = b["r"] = Robust(K, S, post=post, same_batch=True,
                            n_iter=Tup((S.integer("n0"), S.integer("n1"))))
        emp = S.icall(K.get(
            S, "skwdro.base.problems.EmpiricalDistributionWithLabels"),
            m=S.dim("m"), samples_x=S.array("ax", ("m", "d")),
            samples_y=S.array("ay", ("m", "l")))
        oc = S.icall(K.get(S, "skwdro.solvers.optim_cond.OptCondTorch"),
                     Const(2))
        f = b["f"] = K.get(
            S, "skwdro.solvers.entropic_dual_torch.solve_dual_wdro")
        b["res"] = S.icall(f, r.D, emp, oc)
        return b["res"]
    K.ok(S, go)
    where = K.site(S, b["f"])
    ph = phases(S)
    lam = multiplier(S)
    r = b["r"]
    g = lambda k: S.get_attr(b["res"], k)
    K.value("dual", nm, S, single(S, g("dual_var")),
            lambda N: N.of(S.freeze(lam[0])), where)
    cf = S.freeze(g("coef"))
    for mod, who in ((r.loss, "loss"), (r.tr, "transform")):
        for p in S.params_of(mod, True):
            K.require("coef", "%s: parameters of the %s" % (nm, who),
                      mentions(cf, S.freeze(p)),
                      "coef does not hold the final parameters of the %s"
                      % who, where)
    last_loss(K, nm, S, g("robust_loss"), ph[-1], where)
