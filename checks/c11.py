"""Evaluations leave flags, modes and values alone."""
from .common import *

EXPLANATION = (
    "The robust loss is abstractly evaluated on a user model whose gradient "
    "flags and training modes are independent symbols (and in the sixteen "
    "constant combinations); in the final abstract heap each flag and mode "
    "must be the symbol or constant it was, and the contents of all "
    "parameters must be untouched, on returning paths.")


def run(K):
    K.rule("requires_grad", "requires_grad of every parameter is unchanged")
    K.rule("mode", "training of every module is unchanged")
    K.rule("value", "no parameter value is changed")
    combos = [(a, b) for a in (True, False) for b in (True, False)]
    for lab in (True, False):
        for post in (True, False):
            for imp in (True, False):
                for fl in combos:
                    for md in combos if K.tier == "thorough" else (
                            (True, True), (False, False), (True, False)):
                        nm = "labels=%s post=%s imp_samp=%s" % (
                            lab, post, imp)
                        with K.case("%s grads=%s modes=%s" % (nm, fl, md)):
                            one_eval(K, nm, lab, post, imp, fl, md)
        with K.case("initial guess labels=%s" % lab):
            one_eval(K, "initial guess labels=%s" % lab, lab, True, True,
                     (True, False), (False, True), guess=True)


def one_eval(K, nm, lab, post, imp, fl, md, guess=False):
    S = K.session()
    b = {}

    def go(S):
        r = b["r"] = Robust(K, S, labels=lab, post=post, imp=imp,
                            same_batch=not post,
                            loss=S.user_module("loss", reduction=Const(
                                "none"), nparams=2))
        mods = [r.loss, r.tr]
        for m, f, t in zip(mods, fl, md):
            ps = [p for p in S.params_of(m, True)]
            S.set_attr(ps[0], "requires_grad", Const(f))
            S.set_attr(m, "training", Const(t))
        allm = S.items_of(S.icall(r.at("modules")), consume=True)
        pars = S.items_of(S.icall(r.at("parameters")), consume=True)
        b["mods"] = [(m, S.obj(m).f.get("training", TRUE)) for m in allm]
        b["pars"] = [(p, S.obj(p).f.get("requires_grad"), S.freeze(p))
                     for p in pars]
        b["n0"] = len(S.events)
        b["lam"] = r.at("lam")
        b["site"] = K.method_site(S, S.obj(r.D).cls, "forward")
        if guess:
            return S.icall(r.at("get_initial_guess_at_dual"), r.x, r.y)
        return r.forward()
    K.ok(S, go)
    ev = S.events[b["n0"]:]

    def where(ref, *names):
        for e in ev:
            if e.kind == "setattr" and e.d["ref"] is ref and \
                    e.d["name"] in names:
                return K.loc(e.loc)
        return b["site"]
    bad = [p for p, f, _ in b["pars"]
           if S.obj(p).f.get("requires_grad") is not f]
    K.require("requires_grad", nm, not bad,
              "requires_grad of a parameter changes from %s to %s" % (
                  (show(next(f for p, f, _ in b["pars"] if p is bad[0])),
                   show(S.obj(bad[0]).f.get("requires_grad"))) if bad else
                  ("", "")), where(bad[0], "requires_grad") if bad else "")
    bad = [m for m, t in b["mods"]
           if S.obj(m).f.get("training", TRUE) is not t]
    K.require("mode", nm, not bad, "the training mode of %s changes" % (
        show(S.obj(bad[0]).cls) if bad else ""),
        where(bad[0], "training") if bad else "")
    bad = [p for p, _, v in b["pars"] if S.freeze(p) is not v
           and not (guess and p is b["lam"])]
    w = [e for e in ev if e.kind == "mutate" and e.d.get("root") in bad]
    K.require("value", nm, not bad, "a parameter is modified",
              K.loc(w[0].loc) if w else b["site"])
