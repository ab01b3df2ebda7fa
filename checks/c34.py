"""Parameters updated by the attached optimiser."""
from .common import *

EXPLANATION = (
    "One step of the optimiser attached to a robust loss is abstractly "
    "interpreted; the multiset of parameters of the base optimisers that "
    "step is compared with the trainable parameters of the user's loss and "
    "transform plus the multiplier.  The learning rate handed to the base "
    "optimiser is compared with the user's symbol.")


def run(K):
    K.rule("stepped", "each trainable parameter is updated exactly once")
    K.rule("lr", "the learning rate of the base optimiser is the user's")
    K.rule("groups", "the parameter groups of the optimiser list each "
           "trainable parameter once")
    K.rule("zero-grad", "zero_grad clears all these parameters")
    for post in (True, False):
        for adapt in ("prodigy", "mechanic", None):
            if not post and adapt == "mechanic":
                continue
            for lr in ("given", "zero", "omitted"):
                for tr in (True, False):
                    nm = "post=%s adapt=%s learning_rate %s transform=%s" % (
                        post, adapt, lr, tr)
                    with K.case(nm):
                        one_step(K, nm, post, adapt, lr, tr)
    for name in ESTIMATORS:
        for sv in (POST, PRE):
            for lr in ("given", "zero", "omitted"):
                nm = "%s(%s) learning_rate %s" % (name, sv, lr)
                with K.case(nm):
                    fitted(K, nm, name, sv, lr)


def rate(S, lr):
    return S.num("lr") if lr == "given" else Const(0.0) if lr == "zero" \
        else None


def one_step(K, nm, post, adapt, lr, tr):
    S = K.session()
    b = {}

    def go(S):
        r = b["r"] = Robust(
            K, S, post=post, same_batch=not post, adapt=adapt,
            lr=rate(S, lr), transform=tr,
            loss=S.user_module("loss", reduction=Const("none"), nparams=2),
            n_iter=Tup((S.integer("n_warm"), S.integer("n_train"))))
        pars = []
        for m in (r.loss, r.tr):
            if m is not NONE:
                pars += list(S.params_of(m, True))
        b["pars"] = pars + [r.at("lam")]
        opt = r.at("optimizer")
        b["n0"] = len(S.events)
        v = r.forward()
        S.icall(S.get_attr(v, "backward"))
        b["n1"] = len(S.events)
        S.icall(S.get_attr(opt, "zero_grad"))
        b["n2"] = len(S.events)
        v = r.forward()
        S.icall(S.get_attr(v, "backward"))
        b["n3"] = len(S.events)
        S.icall(S.get_attr(opt, "step"))
        b["groups"] = grouped(S, opt)
        return opt
    K.ok(S, go)
    new = [e for e in S.events if e.kind == "optim_new"]
    where = K.loc(new[0].loc) if new else ""
    st = [e for e in S.events[b["n3"]:] if e.kind == "step"]
    stepped(K, S, nm, b["pars"], st, where)
    cl = [p for e in S.events[b["n1"]:b["n2"]] if e.kind == "zero_grad"
          for p in e.d["params"]]
    bad = [p for p in b["pars"] if p not in cl]
    K.require("zero-grad", nm, not bad,
              "gradients of %d parameters are kept" % len(bad), where)
    g = b["groups"]
    bad = None if g is None else [p for p in b["pars"] if g.count(p) != 1]
    K.require("groups", nm, None if g is None else not bad,
              "%d of the %d trainable parameters are not in exactly one "
              "parameter group" % (len(bad or ()), len(b["pars"])), where)
    if lr != "omitted" and (adapt is None or not post):
        rates(K, S, nm, new, st, rate(S, lr), where)


def grouped(S, opt):
    """parameters listed by the param_groups of an optimiser"""
    out = []
    gs = S.known_items(S.get_attr(opt, "param_groups"))
    for d in gs or ():
        for k, v in S.dict_pairs(d):
            if k is Const("params"):
                its = S.known_items(v)
                if its is None:
                    return None
                out += its
    return out if gs is not None else None


def rates(K, S, nm, new, st, lr, where):
    for e in new:
        v = e.d["defaults"].get("lr") if isinstance(e.d["defaults"], dict) \
            else None
        if v is None:
            raise Undecided("no learning rate found")
        N = Norm(S)
        K.require("lr", nm, N.equal(N.of(v), N.of(lr)),
                  "the learning rate is %s" % show(v), where)


def stepped(K, S, nm, pars, st, where):
    cnt = {p: 0 for p in pars}
    cond = False
    for e in st:
        if e.d.get("cls") is None:
            pass
        for p in e.d["params"]:
            if p in cnt:
                cnt[p] += 1
        cond |= bool(e.loops)
    miss = [p for p, n in cnt.items() if n == 0]
    dup = [p for p, n in cnt.items() if n > 1]
    K.require("stepped", nm, not miss and not dup,
              "%d of %d parameters are %s by a step" % (
                  len(miss or dup), len(pars),
                  "not updated" if miss else "updated twice"), where)


def fitted(K, nm, name, sv, lr):
    S = K.session()
    b = {}

    def go(S):
        e = b["e"] = Est(K, S, name, sv, learning_rate=rate(S, lr)
                         or NONE)
        e.build()
        e.fit()
        return e.e
    K.ok(S, go)
    where = b["e"].site("fit")
    bk = [e for e in S.events if e.kind == "backward" and e.loops]
    if not bk:
        raise Undecided("no training loop")
    lp = bk[-1].loops[-1]
    pars = {p for e in bk for p in e.d["params"]}
    st = [e for e in S.events if e.kind == "step" and e.loops and
          e.loops[-1] == lp]
    stepped(K, S, nm, [p for p in pars if S.obj(p).f.get(
        "requires_grad") is TRUE], st, where)
    if lr != "omitted":
        rates(K, S, nm, [e for e in S.events if e.kind == "optim_new"], st,
              rate(S, lr), where)
