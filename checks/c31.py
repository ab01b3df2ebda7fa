"""Wrapped user losses."""
from .common import *
from .c07 import l2norm

EXPLANATION = (
    "A WrappedPrimalLoss around unknown user losses and transforms (known "
    "only to act sample by sample) is abstractly evaluated on symbolic "
    "batches of every supported rank; the normal form of the value at each "
    "point must be the user's loss at the transformed point and its own "
    "label, averaged over the outputs, plus the l2 term.")

WRAP = "skwdro.base.losses_torch.wrapper.WrappedPrimalLoss"
#: shape of the points, shape of the labels, axes of the result
RANKS = (
    (("n", "m", "d"), ("n", "m", "l"), ("n", "m", 1)),
    ((1, "m", "d"), (1, "m", "l"), (1, "m", 1)),
    (("a", "n", "m", "d"), ("a", "n", "m", "l"), ("a", "n", "m", 1)),
    ((1, "m", "d"), ("m", "l"), (1, "m", 1)),
    (("m", "d"), ("m", "l"), None),
    (("d",), ("l",), None))
# sizes the cases are decided for again
SIZES = (dict(m=1), dict(n=1), dict(l=1))


def run(K):
    K.rule("value", "the value at each point is the user's loss there plus "
           "the l2 term")
    K.rule("shape", "batched values keep a last axis of length one")
    K.rule("refused", "losses that reduce over the batch are refused")
    K.rule("reduction", "functional losses are asked not to reduce")
    for oop in (True, False):
        for tr in (True, False):
            for lab in (True, False):
                for one in (False, True):
                    for spatial in (True, False):
                        for l2 in (None, 0., "+"):
                            if K.tier == "quick" and one and not spatial:
                                continue
                            for r, rank in enumerate(RANKS):
                                if not lab and r == 3:
                                    continue
                                case(K, oop, tr, lab, one, spatial, l2, rank)
    for red in ("mean", "sum", "batchmean"):
        nm = "module with reduction '%s'" % red
        with K.case(nm):
            refused(K, nm, red)


def text(sh):
    return "(%s)" % ", ".join(map(str, sh))


def case(K, oop, tr, lab, one, spatial, l2, rank):
    if l2 == "+" and not oop and not tr:
        return      # no parameter at all: torch cannot concatenate nothing
    xs, ys, out = rank
    if one:
        ys = ys[:-1] + (1,)
    nm = "%s%s%s, l2reg=%s, %s, points %s%s" % (
        "module" if oop else "function", ", transform" if tr else "",
        ", one output" if one else "", l2,
        "averaged outputs" if spatial else "loss without output axis",
        text(xs), ", labels " + text(ys) if lab else "")
    with K.case(nm):
        value(K, nm, oop, tr, lab, one, spatial, l2, xs, ys, out)


def value(K, nm, oop, tr, lab, one, spatial, l2, xs, ys, out):
    S = K.session()
    b = {}

    def go(S):
        kw = {} if spatial else {"out": ""}
        f = b["f"] = S.user_module("loss", reduction=Const("none"), **kw) \
            if oop else S.user_function("loss", **kw)
        t = b["t"] = S.user_module("tr", out=1 if one else "l") if tr \
            else NONE
        C = b["C"] = K.get(S, WRAP)
        b["l2"] = S.num("l2") if l2 == "+" else Const(l2)
        w = S.icall(C, f, t, NONE, Const(lab), Const(spatial),
                    l2reg=b["l2"])
        x = b["x"] = S.tensor("x", xs)
        y = b["y"] = S.tensor("y", ys) if lab else NONE
        n0 = len(S.events)
        v = S.icall(S.get_attr(w, "value"), x, y)
        b["ev"] = S.events[n0:]
        v2 = b["v2"] = S.freeze(S.icall(w, x, y))
        return S.freeze(v)
    v = K.ok(S, go)
    where = K.method_site(S, b["C"], "value")

    def point(S):
        S.mute += 1
        try:
            a = S.icall(b["t"], b["x"]) if tr else b["x"]
            args = [a, b["y"]] if lab else [a]
            kw = {} if oop else {"reduction": Const("none")}
            return S.icall(b["f"], *args, **kw)
        finally:
            S.mute -= 1

    def spec(N):
        u = point(S)
        last = [] if not spatial else [
            x for x in S.shape(u)[-1:] if not is_const(x, 1)]
        s = N.mean(N.of(u), last)
        if l2 == "+":
            s = s + N.of(b["l2"]) * l2norm(
                N, S, ([b["f"]] if oop else []) + ([b["t"]] if tr else [])
            ) / 2
        return s
    sh = None if out is None else tuple(
        S.dim(x) if isinstance(x, str) else Const(x) for x in out)
    K.value("value", nm, S, v, spec, where, shape=sh)
    K.value("value", nm + ", forward", S, b["v2"], spec, where, shape=sh)
    if not oop:
        calls = [e for e in b["ev"] if e.kind in ("callvalue", "usercall")
                 and e.d["fn"] is b["f"]]
        ok = calls and all(is_const(e.d["kw"].get("reduction", NONE), "none")
                           for e in calls)
        K.require("reduction", nm, bool(ok) if calls else None,
                  "the functional loss is called without reduction='none'",
                  where)


def refused(K, nm, red):
    S = K.session()
    b = {}

    def go(S):
        C = b["C"] = K.get(S, WRAP)
        f = S.user_module("loss", reduction=Const(red))
        return S.icall(C, f, S.user_module("tr", out="l"), NONE, TRUE)
    r, leaves = S.run(lambda: go(S))
    K.require("refused", nm, r is None, "the loss is accepted",
              K.method_site(S, b["C"], "__init__"))
