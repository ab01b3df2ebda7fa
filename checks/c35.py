"""Warm-up and robust phases."""
import math
import operator
from .common import *

EXPLANATION = (
    "The objectives differentiated in the two training loops of a fit are "
    "put in normal form: in the first loop, the empirical risk of the "
    "documented loss (up to terms free of model parameters), in the second "
    "the robust loss.  Loop lengths are compared with the asked numbers of "
    "steps, and the multiplier must be set between the two loops.")


def run(K):
    K.rule("warm-up", "warm-up steps minimise the empirical risk")
    K.rule("warm-length", "there are as many warm-up steps as asked")
    K.rule("robust", "later steps minimise the robust loss")
    K.rule("robust-length", "at most the asked number of robust steps")
    K.rule("multiplier", "the multiplier is set between the two phases")
    for name in ESTIMATORS:
        for sv in (POST, PRE):
            nm = "%s(%s, no warm-up)" % (name, sv)
            with K.case(nm):
                no_warm_up(K, nm, name, sv)
            for it in ("pair", "int"):
                for lr in (True, False):
                    nm = "%s(%s, n_iter %s, learning_rate=%s)" % (
                        name, sv, it, "given" if lr else "None")
                    with K.case(nm):
                        one_fit(K, nm, name, sv, it, lr)


def no_warm_up(K, nm, name, sv):
    """a pair asking for no warm-up step"""
    S = K.session()

    def go(S):
        e = Est(K, S, name, sv, learning_rate=S.num("lr"), n_iter=Tup((
            Const(0), S.integer("n_train"))))
        e.build()
        e.fit()
        return e.e
    K.ok(S, go)
    back = [x for x in S.events if x.kind == "backward" and x.loops]
    if not back:
        raise Undecided("no training loop")
    odd = [x for x in back if not has_lse(S, x.d["val"])
           or gated(S, x.d["val"])]
    K.require("robust", nm, not odd, "a step minimises another loss",
              K.loc(odd[0].loc) if odd else "", odd[0] if odd else None)


def one_fit(K, nm, name, sv, it, lr):
    S = K.session()
    b = {}

    def go(S):
        kw = {} if it == "pair" else {"n_iter": S.integer("n_total")}
        e = b["e"] = Est(K, S, name, sv, learning_rate=S.num("lr") if lr
                         else NONE, cost=Const("t-%s-1-2" % (
                             "NLC" if name in LABELLED else "NC")), **kw)
        e.build()
        e.fit()
        return e.e
    K.ok(S, go)
    e = b["e"]
    ph = phases(S)
    if len(ph) != 2:
        if len(ph) == 1:
            K.record("warm-up", nm, "violated",
                     "there is a single training phase",
                     K.loc(ph[0].steps[0].loc))
            return
        raise Undecided("%d training loops" % len(ph))
    warm, rob = ph
    odd = [x for x in S.events if x.kind == "backward"
           and x.loops == rob.loops and gated(S, x.d["val"])]
    K.require("robust", nm + ": at every step", not odd, "some steps of the "
              "second phase minimise another loss: it depends on %s" %
              (show(gated(S, odd[0].d["val"]), 5)[:150] if odd else ""),
              K.loc(odd[0].loc) if odd else "", odd[0] if odd else None)
    if odd:
        return
    lam = multiplier(S)
    w0, w1 = K.loc(warm.steps[0].loc), K.loc(rob.steps[0].loc)
    R = Roles(S, e, warm)

    def erm(N, extra):
        X, y = R.data(N)
        s = N.mean(R.loss(N, X, y), [S.dim("m")]) + R.l2(N)
        if extra:
            s = s + N.of(e.hyper["rho"]) * N.of(R.lam)
        return s
    v = warm.val
    for extra in (True, False):
        r = compare(S, v, lambda N: erm(N, extra))
        if r.kind == MATCH:
            break
    if r.kind == MISMATCH and not has_lse(S, v):
        # another writing of the empirical risk: what matters here is that
        # it is no robust loss; the formulas are other properties
        smp = draws_of_samples(S, v)
        r.kind = MISMATCH if smp else UNKNOWN
    K.require("warm-up", nm, {MATCH: True, MISMATCH: False}.get(r.kind),
              r.detail, w0)
    K.require("robust", nm, has_lse(S, rob.val) and bool(
        draws_of_samples(S, rob.val)),
        "the loss of the second phase is %s" % show(rob.val, 5)[:200], w1)
    want = e.hyper["n_iter"]
    for p, rule, i in ((warm, "warm-length", 0), (rob, "robust-length", 1)):
        n = length(S, p.src)
        per = max(sum(q in x.d["params"] for x in p.steps)
                  for q in p.now)
        where = w0 if i == 0 else w1
        if n is None:
            K.require(rule, nm, None, "loop over %s" % show(p.src, 5))
            continue

        def spec(N):
            if it == "pair":
                return N.of(want.items[i])
            if i == 1:
                return N.of(want)
            return None
        if it == "int" and i == 0:
            ok = fraction_of(S, n, want)
            K.require(rule, nm, ok, "the warm-up makes %s steps" % show(n),
                      where)
        else:
            K.value(rule, nm, S, n, spec, where)
        K.require(rule, nm + ": one step per iteration", per == 1,
                  "%d steps are made per iteration" % per, where)
    between(K, S, nm, lam, warm, rob, w1)


def gated(S, v):
    """a test under which the loss is no robust loss"""
    if not has_lse(S, v):
        return None
    for c in dict.fromkeys(t.c for t in walk(v) if isinstance(t, Ite)
                           and not draws(S, t.c)):
        for pol in (True, False):
            if not has_lse(S, choose(v, c, pol)):
                return c
    return None


def has_lse(S, v):
    return any(isinstance(t, App) and t.op in ("logsumexp", "softmax", "exp")
               and draws(S, t) for t in walk(v))


def draws_of_samples(S, v):
    """draws of a three-dimensional batch of samples"""
    return [t for t in draws(S, v) if len(S.shape(t) or ()) == 3]


def length(S, src):
    """number of iterations of a loop over a range"""
    t = S.strip(src) if isinstance(src, V) else None
    while isinstance(t, App) and t.op in ("enumerate", "tqdm", "list",
                                          "iter"):
        t = S.strip(t.args[0])
    if isinstance(t, App) and t.op == "range" and len(t.args) == 3 and \
            t.args[2] is Const(1):
        return S.binop("sub", t.args[1], t.args[0])
    return None


FOLD = {"maximum": max, "minimum": min, "int": int, "round": round,
        "trunc": int, "floor": math.floor, "ceil": math.ceil,
        "add": operator.add, "sub": operator.sub, "mul": operator.mul,
        "div": operator.truediv, "floordiv": operator.floordiv,
        "mod": operator.mod}


def at(v, total, k):
    """constant propagation in v when the total number of steps is k"""
    def f(t):
        if t is total:
            return Const(k)
        if isinstance(t, App) and t.op in FOLD and not t.kw and all(
                isinstance(a, Const) and isinstance(a.v, (int, float))
                for a in t.args):
            try:
                return Const(FOLD[t.op](*(a.v for a in t.args)))
            except (TypeError, ValueError, ArithmeticError):
                return t
        return t
    return rebuild(v, f)


def fraction_of(S, n, total):
    """a documented fraction (three tenths) of the number of steps"""
    t = S.strip(n)
    if isinstance(t, App) and t.op == "sub" and S.strip(
            t.args[1]) is Const(0):
        t = S.strip(t.args[0])
    if not mentions(t, total):
        return False
    if isinstance(t, App) and t.op in ("int", "floor", "trunc"):
        N = Norm(S)
        return N.equal(N.of(t.args[0]), N.of(total) * N.num(.3))
    # any other writing: refuted by a number of steps it gets wrong
    for k in (1, 2, 5, 10, 20, 100):
        r = at(t, total, k)
        if isinstance(r, Const) and r.v != 3 * k // 10:
            return False
    return None


def between(K, S, nm, lam, warm, rob, where):
    if len(lam) != 1:
        raise Undecided("%d multipliers" % len(lam))
    a = max(S.events.index(x) for x in warm.steps)
    z = min(S.events.index(x) for x in rob.steps)
    sets = [x for x in S.events[a + 1:z] if not x.loops and (
        x.kind == "mutate" and x.d.get("root") is lam[0] or
        x.kind == "setattr" and x.d.get("ref") is lam[0])]
    K.require("multiplier", nm, bool(sets),
              "the multiplier is not set before the robust phase", where)
