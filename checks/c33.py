"""train() and eval()."""
from .common import *
from .c08 import one_config

EXPLANATION = (
    "Sequences of train/eval calls are abstractly interpreted on a robust "
    "loss whose submodules have both modes; in the final heap every "
    "submodule must have the asked mode, and the value of the loss after the "
    "calls must still have the normal form of the dual formula (or of the "
    "empirical risk when the radius is zero).")

SEQ = {"eval()": [("eval", ())], "train()": [("train", ())],
       "train(True)": [("train", (TRUE,))],
       "train(False)": [("train", (FALSE,))],
       "eval() train()": [("eval", ()), ("train", ())],
       "train() eval()": [("train", ()), ("eval", ())],
       "eval() eval()": [("eval", ()), ("eval", ())],
       "train(mode=False)": [("train", {"mode": FALSE})],
       "eval() train(True) train(False)": [("eval", ()), ("train", (TRUE,)),
                                           ("train", (FALSE,))]}


def run(K):
    K.rule("mode", "all submodules have the asked mode")
    K.rule("self", "train() and eval() return the module")
    K.rule("value", "the loss computed does not depend on the mode")
    K.rule("parameters", "no parameter or flag is changed")
    for nm, seq in SEQ.items():
        for post in (True, False):
            for init in (True, False):
                name = "%s post=%s starting in %s" % (
                    nm, post, "training" if init else "evaluation")
                with K.case(name):
                    modes(K, name, seq, post, init)
            if nm in ("train()", "eval()", "train(False)", "eval() train()"):
                name = "%s post=%s" % (nm, post)
                for lab in (True, False):
                    with K.case(name + " value"):
                        one_config(K, "value", name + " labels=%s" % lab,
                                   lab, post, "1-2", False,
                                   before=lambda S, r: call(S, r, seq))
                    if post:
                        continue
                    with K.case(name + " value, other samples before"):
                        one_config(K, "value", name + " labels=%s, other "
                                   "samples before" % lab, lab, post, "1-2",
                                   False, before=lambda S, r: (
                                       r.forward(), call(S, r, seq)))


def call(S, r, seq):
    out = NONE
    for m, a in seq:
        f = S.get_attr(r.D, m)
        out = S.icall(f, **a) if isinstance(a, dict) else S.icall(f, *a)
    return out


def modes(K, nm, seq, post, init):
    S = K.session()
    b = {}

    def go(S):
        r = b["r"] = Robust(K, S, post=post, same_batch=not post)
        b["mods"] = S.items_of(S.icall(r.at("modules")), consume=True)
        for m in b["mods"]:
            S.set_attr(m, "training", Const(init))
        pars = S.items_of(S.icall(r.at("parameters")), consume=True)
        b["pars"] = [(p, S.obj(p).f.get("requires_grad"), S.freeze(p))
                     for p in pars]
        b["site"] = K.method_site(S, S.obj(r.D).cls, *(
            m for m, _ in seq))
        b["out"] = call(S, r, seq)
        return b["out"]
    K.total(S, go, "mode", nm + ": returns")
    m, a = seq[-1]
    want = m == "train" and FALSE not in (
        a.values() if isinstance(a, dict) else a)
    where = b["site"] if isinstance(b["site"], str) and ":" in \
        b["site"] else "skwdro/solvers/_dual_interfaces/" \
        "_misc_dual_interfaces.py"
    if len(b["mods"]) < 3:
        raise Undecided("submodules not found")
    got = [(x, S.strip(S.obj(x).f.get("training", TRUE)))
           for x in b["mods"]]
    bad = [x for x, t in got if t is not Const(want)]
    K.require("mode", nm, not bad, "module %s is left in %s mode" % (
        show(S.obj(bad[0]).cls) if bad else "",
        "evaluation" if want else "training"), where)
    K.require("self", nm, b["out"] is b["r"].D,
              "%s does not return the module" % m, where)
    bad = [p for p, f, v in b["pars"] if S.freeze(p) is not v or
           S.obj(p).f.get("requires_grad") is not f]
    K.require("parameters", nm, not bad, "a parameter is changed", where)
