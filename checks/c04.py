"""Roles of the hyperparameters."""
from .common import *
from .c29 import programs

EXPLANATION = (
    "Each estimator is abstractly fitted with one independent symbol per "
    "hyperparameter.  The objective differentiated in the robust phase is "
    "put in normal form and compared with the dual formula written with the "
    "documented loss of the problem and these symbols in their documented "
    "roles (weights, radius, entropic regularisation, number of samples, "
    "problem constants, cost).  The noise scale, learning rate, loop "
    "lengths, stopping rule and convex programs are compared likewise; a "
    "hyperparameter is dropped when no value computed by the fit depends on "
    "its symbol.")

ROLE = {"l2_reg": "l2 weight", "solver_reg": "entropic regularisation",
        "sampler_reg": "spread of the samples"}


def run(K):
    K.rule("objective", "the robust objective is the dual formula of the "
           "documented loss with the given hyperparameters")
    K.rule("spread", "sampler_reg is the spread of the samples")
    K.rule("label-weight", "the label weight of the cost code is used")
    K.rule("lr", "learning_rate is the learning rate of the optimiser")
    K.rule("n_iter", "n_iter bounds the training loops")
    K.rule("intercept", "fit_intercept decides whether there is a bias")
    K.rule("opt_cond", "the given stopping rule is consulted")
    K.rule("dedicated", "the convex program depends on the hyperparameter")
    K.rule("used", "the fit depends on the hyperparameter")
    for name in ESTIMATORS:
        for sv in (POST, PRE):
            for cost in ("1-2", "1-1"):
                nm = "%s(%s, cost %s)" % (name, sv, cost)
                with K.case(nm):
                    objective(K, nm, name, sv, cost)
            nm = "%s(%s)" % (name, sv)
            with K.case(nm + " used"):
                used(K, nm, name, sv)
            with K.case(nm + " opt_cond"):
                stopping(K, nm, name, sv)
            if name in ("LinearRegression", "LogisticRegression"):
                for fi in (True, False):
                    with K.case(nm + " fit_intercept=%s" % fi):
                        intercept(K, nm, name, sv, fi)
            if name in LABELLED:
                with K.case(nm + " label weight"):
                    objective(K, nm + " label weight", name, sv, "1-2-7",
                              rule="label-weight")
    for name in DEDICATED:
        with K.case(name + " dedicated"):
            dedicated(K, name)
    programs(K, (True,))


def fitted(K, name, sv, b, cost=None, **kw):
    S = K.session()

    def go(S):
        over = {k: f(S) if callable(f) else f for k, f in kw.items()}
        over.setdefault("learning_rate", S.num("hyper_learning_rate"))
        if cost:
            over["cost"] = Const("t-%s-%s" % (
                "NLC" if name in LABELLED else "NC", cost))
        e = b["e"] = Est(K, S, name, sv, **over)
        e.build()
        e.fit()
        return e.e
    K.ok(S, go)
    return S, b["e"]


def samples(S, v, d):
    """(data draw, label draw) of the objective"""
    dr = {t for t in draws(S, v) if len(S.shape(t) or ()) == 3}
    if not dr:
        raise Undecided("no sample in the objective")
    return dr


def objective(K, nm, name, sv, cost, rule="objective"):
    S, e = fitted(K, name, sv, {}, cost)
    ph = phases(S)
    if not ph:
        raise Undecided("no training phase")
    rob = ph[-1]
    R = Roles(S, e, rob)
    where = e.site("fit")
    d, m = S.dim("d"), S.dim("m")
    dr = sorted(samples(S, rob.val, d), key=lambda t: t.args[1].v)
    lab = name in LABELLED
    if len(dr) != 1 + lab:
        raise Undecided("%d draws in the objective" % len(dr))
    z, zl = dr[0], dr[1] if lab else None
    n = S.shape(z)[0]
    parts = cost.split("-")
    k, p = float(parts[0]), float(parts[1])
    kap = float(parts[2]) if len(parts) > 2 else 1e8

    def spec(N):
        X, y = R.data(N)
        zz, zy = N.of(z), N.of(zl) if lab else None
        h = lambda q: N.of(e.hyper[q])
        ax = [d] if name != "NewsVendor" else []
        nrm = lambda a, ax: (N.sum(a * a, ax) ** .5 if ax else N.abs(
            a)) if p == 2 else N.sum(N.abs(a), ax) if ax else N.abs(a)
        c = nrm(zz - X, ax)
        if lab:
            q = N.num(kap)
            c = (c + q * N.abs(zy - y)) / (1 + q)
        c = c ** k
        L = R.loss(N, zz, zy) + R.l2(N)
        lam, eps = N.of(R.lam), h("solver_reg")
        s = lam * h("rho") ** k + eps * (
            N.lse((L - lam * c) / eps, [n]) - N.log(N.of(n)))
        return N.mean(s, [m])
    K.value(rule, nm, S, rob.val, spec, where)
    if rule != "objective":
        return
    K.require("objective", nm + ": number of samples",
              n is S.strip(e.hyper["n_zeta_samples"]),
              "%s samples are drawn" % show(n), where)
    if "sampler_reg" in e.hyper:
        from .c08 import split_noise

        def sc(N):
            c, s = split_noise(N, N.of(z))
            if s is None:
                raise Undecided("sample without additive noise")
            return s
        K.value("spread", nm, S, sc, lambda N: N.of(e.hyper["sampler_reg"]),
                where)
    for ev in S.events:
        if ev.kind == "optim_new" and isinstance(ev.d["defaults"], dict) \
                and "lr" in ev.d["defaults"]:
            v = ev.d["defaults"]["lr"]
            K.value("lr", nm, S, v, lambda N: N.of(e.hyper[
                "learning_rate"]), K.loc(ev.loc))
    for i, x in enumerate(ph):
        if len(ph) == 2:
            # the length of a loop not known to count is not decided
            K.require("n_iter", nm + " phase %d" % i, None if isinstance(
                x.src, App) and x.src.op == "while" else isinstance(
                x.src, V) and mentions(x.src, e.hyper["n_iter"].items[i]),
                "the training loop runs over %s" % show(x.src, 5),
                K.loc(x.steps[0].loc))


def outcome(S, e):
    """terms the outcome of a fit depends on"""
    out = []
    for ev in S.events:
        if ev.kind == "step":
            out += [x for x in ev.d["grads"].values()]
            out += list(ev.loops)
        elif ev.kind == "optim_new":
            out.append(ev.d["defaults"])
        elif ev.kind in ("cvx_problem", "cvx_solve", "callvalue",
                         "rng_seed", "usercall", "sched"):
            out.append(ev.d)
        out += [c for c, _ in ev.pc]
    for k, v in e.fields().items():
        if k not in e.params and (k.endswith("_") and not k.startswith("_")):
            out.append(v)
    return out


def depends(S, vals, t):
    """some value depends on t"""
    seen = set()

    def go(v):
        if isinstance(v, dict):
            return any(go(x) for x in v.values())
        if isinstance(v, (list, tuple, set, frozenset)):
            return any(go(x) for x in v)
        if not isinstance(v, V) or v in seen:
            return False
        seen.add(v)
        for x in walk(v):
            if x is t:
                return True
            if isinstance(x, Ref) and x not in seen and \
                    x.oid in S.st.heap:
                seen.add(x)
                if go(list(S.obj(x).f.values())):
                    return True
                if go(S.freeze(x)):
                    return True
        return False
    return go(list(vals))


def used(K, nm, name, sv):
    b = {}
    S, e = fitted(K, name, sv, b, "1-2", opt_cond=lambda S: NONE)
    vals = outcome(S, e)
    for p, v in e.hyper.items():
        if p in ("solver", "cost", "opt_cond") or isinstance(v, Const):
            continue
        for t in v.items if isinstance(v, Tup) else (v,):
            K.require("used", "%s.%s (entropic)" % (name, p),
                      depends(S, vals, t),
                      "no value computed by the fit depends on %s" % p,
                      e.site("fit"))
    for p in e.params:
        if p in e.hyper or p in ("C", "d"):
            continue
        # parameters without a numeric role: they must be read
        with K.case("%s.%s" % (nm, p)):
            reads(K, nm, name, sv, p)


def reads(K, nm, name, sv, p):
    """the fit depends on a hyperparameter given as an unknown value"""
    b = {}
    S, e = fitted(K, name, sv, b, "1-2", opt_cond=lambda S: NONE, **{
        p: lambda S: S.flag("hyper_" + p)})
    K.require("used", "%s.%s (entropic)" % (name, p), depends(
        S, outcome(S, e), S.strip(e.hyper.get(p) or S.flag("hyper_" + p))),
        "no value computed by the fit depends on %s" % p, e.site("fit"))


def stopping(K, nm, name, sv):
    """a stopping rule given by the user is called in the robust loop"""
    S = K.session()
    b = {}

    def go(S):
        oc = b["oc"] = S.icall(K.get(
            S, "skwdro.solvers.optim_cond.OptCondTorch"), Const(2),
            tol_theta=S.num("tol_theta"), tol_lambda=S.num("tol_lambda"),
            max_iter=S.integer("max_iter"),
            monitoring=Const("both"))
        e = b["e"] = Est(K, S, name, sv, opt_cond=oc)
        e.build()
        b["n0"] = len(S.events)
        e.fit()
        return e.e
    K.ok(S, go)
    conds = [c for x in S.events if x.kind == "loop"
             for pc in x.d["brk"] + x.d["back"] for c, _ in pc]
    for t in ("tol_theta", "tol_lambda"):
        s = S.num(t)
        K.require("opt_cond", "%s %s" % (nm, t), any(
            mentions(c, s) for c in conds),
            "no training loop is left on a condition involving %s of the "
            "given stopping rule" % t, b["e"].site("fit"))


def intercept(K, nm, name, sv, fi):
    b = {}
    S, e = fitted(K, name, sv, b, "1-2", fit_intercept=Const(fi))
    rob = phases(S)[-1]
    R = Roles(S, e, rob)
    got = R.has(lambda s: len(s) == 1)
    K.require("intercept", "%s fit_intercept=%s" % (nm, fi), got is fi,
              "the model %s an intercept" % ("has" if got else "lacks"),
              e.site("fit"))
    X = S.strip(e.X)


def dedicated(K, name):
    S = K.session()
    b = {}

    def go(S):
        e = b["e"] = Est(K, S, name, DED)
        e.build()
        b["n0"] = len(S.events)
        e.fit()
        return e.e
    K.ok(S, go)
    e = b["e"]
    vals = outcome(S, e)
    irrelevant = {"solver", "cost", "opt_cond", "solver_reg", "sampler_reg",
                  "learning_rate", "n_zeta_samples", "random_state",
                  "n_iter", "C", "d", "fit_intercept"}
    for p, v in e.hyper.items():
        if p in irrelevant or isinstance(v, Const):
            continue
        K.require("dedicated", "%s.%s" % (name, p), depends(S, vals, v),
                  "the dedicated solver does not depend on %s" % p,
                  e.site("fit"))
