"""Inputs are not written to."""
from skan.core import ALIAS
from .sampling import *

EXPLANATION = (
    "Every public entry point is interpreted on symbolic arrays and tensors; "
    "each write of the abstract run (in-place operators and methods, item "
    "assignments, out= arguments) is followed back, through views, "
    "conversions that may share memory and joins of branches, to the arrays "
    "it may reach, none of which may be an input.")

SP = "skwdro.solvers.specific_solvers."
LOSS = "skwdro.base.losses_torch."


def run(K):
    K.rule("input", "no write reaches an array or tensor of the caller")
    for name in ESTIMATORS:
        for sv in solvers(name):
            for nc in (2, 3) if name == "LogisticRegression" \
                    and sv != DED else (2,):
                nm = "%s(%s)%s" % (name, sv, ", 3 classes" if nc == 3
                                   else "")
                with K.case(nm):
                    estimator(K, nm, name, sv, nc)
    for lab in (True, False):
        for post in (True, False):
            for imp in (True, False):
                for same in (True, False):
                    nm = "robust loss labels=%s post=%s imp_samp=%s%s" % (
                        lab, post, imp, " own batch" if same else "")
                    with K.case(nm):
                        robust(K, nm, lab, post, imp, same)
    for kind in KINDS:
        with K.case(title(kind)):
            sampler(K, title(kind), kind)
    for p in (1., 2., float("inf")):
        for power in (1., 2.):
            for lab in (True, False):
                nm = "cost p=%s power=%s labels=%s" % (p, power, lab)
                with K.case(nm):
                    cost(K, nm, p, power, lab)
    for name in ("WDROLinRegSpecificSolver", "WDROLogisticSpecificSolver",
                 "WDRONewsvendorSpecificSolver",
                 "WDROPortfolioSpecificSolver"):
        with K.case(name):
            solver(K, name)


def reach(S, v):
    """inputs whose memory a value may share"""
    todo, out, seen = [v], [], set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if isinstance(x, Ite):
            todo += [x.a, x.b]
        elif isinstance(x, App) and x.op in ALIAS and x.args:
            if not (x.op == "getitem" and S.gathers(x.args[1])):
                todo.append(x.args[0])
        elif isinstance(x, Sym) and x is not UNDEF and S.is_arraylike(x):
            out.append(x)
        elif isinstance(x, Ref):
            o = S.st.heap.get(x.oid)
            w = o.f.get("%init") if o is not None else None
            if isinstance(w, V):
                todo.append(w)
    return out


def scan(K, nm, S, inputs, n0=0):
    bad = {}
    for ev in S.events[n0:]:
        if ev.kind == "mutate" and ev.d.get("target") is not None:
            for x in reach(S, ev.d["target"]):
                bad.setdefault(x, ev)
    for x in list(inputs) + [y for y in bad if y not in inputs]:
        if x is NONE or x is None:
            continue
        ev = bad.get(x)
        K.require("input", "%s: %s" % (nm, show(x)), ev is None,
                  "written to by %s" % (ev.d.get("how") if ev else ""),
                  K.loc(ev.loc) if ev else "", ev)


def estimator(K, nm, name, sv, nc):
    S = K.session()
    b = {}

    def go(S):
        e = b["e"] = Est(K, S, name, sv, nclasses=nc)
        e.build()
        e.fit()
        b["X"] = S.array("Xt", ("t", "d"))
        b["y"] = S.array("yt", ("t",)) if name == "Weber" else None
        for m in METHODS[name]:
            e.use(m, b["X"], b["y"])
        return e.e
    K.ok(S, go)
    scan(K, nm, S, b["e"].data() + [b["X"], b["y"]])


def robust(K, nm, lab, post, imp, same):
    S = K.session()
    b = {}

    def go(S):
        r = b["r"] = Robust(K, S, labels=lab, post=post, imp=imp,
                            same_batch=same or not post)
        if not post and not same:
            b["z"] = [S.tensor("z", ("n", "m", "d"))] + [
                S.tensor("zl", ("n", "m", "l"))] * lab
            r.call(r.x, r.y, *b["z"])
        r.forward()
        if post:
            S.icall(r.at("get_initial_guess_at_dual"), r.x, r.y)
        return r.forward()
    K.ok(S, go)
    r = b["r"]
    scan(K, nm, S, [x for x in dict.fromkeys([
        r.x, r.y, r.x0, r.y0, r.rho] + b.get("z", []))
        if isinstance(x, Sym)])


def sampler(K, nm, kind):
    S = K.session()
    b = {}

    def go(S):
        s = b["s"] = Sampler(K, S, kind)
        b["one"] = s.at("")
        s.build(*b["one"])
        b["two"] = s.at("2")
        S.icall(S.get_attr(s.s, "sample"), s.n)
        S.icall(S.get_attr(s.s, "reset_mean"), *b["two"])
        return S.icall(S.get_attr(s.s, "sample"), s.n)
    K.ok(S, go)
    scan(K, nm, S, list(b["one"] + b["two"]))


def cost(K, nm, p, power, lab):
    S = K.session()
    ins = [S.tensor("x", (1, "m", "d")), S.tensor("z", ("n", "m", "d")),
           S.tensor("y", (1, "m", "l")) if lab else NONE,
           S.tensor("w", ("n", "m", "l")) if lab else NONE]
    g = [S.tensor("g", ("m", "d")), S.tensor("gl", ("m", "l"))
         if lab else NONE]

    def go(S):
        C = K.get(S, "skwdro.base.costs_torch." + (
            "NormLabelCost" if lab else "NormCost"))
        kw = {"kappa": S.num("kappa")} if lab else {}
        c = S.icall(C, p=Const(p), power=Const(power), **kw)
        S.icall(c, *ins)
        return S.icall(S.get_attr(c, "value"), *ins)
    K.ok(S, go)
    scan(K, nm, S, ins)


def solver(K, name):
    S = K.session()
    X, y = S.array("X", ("m", "d")), S.array("y", ("m",))
    rho = S.num("rho")
    if "LinReg" in name:
        kw = dict(rho=rho, X=X, y=y, fit_intercept=TRUE)
    elif "Logistic" in name:
        kw = dict(rho=rho, X=X, y=y, kappa=S.num("kappa"),
                  fit_intercept=TRUE)
    elif "Newsvendor" in name:
        X = S.array("z", ("m", 1))
        kw = dict(k=S.num("k"), u=S.num("u"), rho=rho, samples=X)
    else:
        kw = dict(rho=rho, eta=S.num("eta"), alpha=S.num("alpha"), C=S.array(
            "C", ("q", "d")), d=S.array("dd", ("q",)), m=S.dim("d"),
            p=Const(2), samples=X)
    ins = [v for v in kw.values() if isinstance(v, Sym)
           and S.is_arraylike(v)]
    K.ok(S, lambda S: Tup((S.icall(K.get(S, SP + name), **kw),)))
    scan(K, name, S, ins)
