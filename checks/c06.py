"""Refused radii."""
from .common import *

EXPLANATION = (
    "Constructors, fits and robust-loss evaluations are abstractly "
    "interpreted with a radius known only to be negative, not numeric or "
    "NaN; the sets of exceptions ending all paths, or the returned term, are "
    "compared with the documented ones.")


def run(K):
    K.rule("ctor", "a negative radius makes the constructor raise ValueError "
           "on all paths; a zero or positive one does not")
    K.rule("fit", "a non-numeric radius makes fit raise TypeError")
    K.rule("forward", "a negative radius makes every evaluation raise "
           "ValueError")
    K.rule("nan", "a NaN radius gives a NaN value")
    for name in ESTIMATORS:
        for sign in "-0+":
            with K.case("%s rho %s" % (name, sign)):
                ctor(K, name, sign)
        for sv in solvers(name):
            for bad in ("abc", None, "list"):
                with K.case("%s(%s) rho=%r" % (name, sv, bad)):
                    nonnum(K, name, sv, bad)
    for lab in (True, False):
        for post in (True, False):
            for imp in (True, False):
                for again in ((False,) if post else (False, True)):
                    nm = "labels=%s post=%s imp_samp=%s%s" % (
                        lab, post, imp, " stored samples" if again else "")
                    with K.case(nm):
                        forward(K, nm, lab, post, imp, again)
            nm = "labels=%s post=%s" % (lab, post)
            with K.case("nan " + nm):
                nan(K, nm, lab, post)


def ctor(K, name, sign):
    S = K.session()
    b = {}

    def go(S):
        e = b["e"] = Est(K, S, name, rho=S.num("hyper_rho", sign))
        for p in list(e.hyper):
            if p not in ("rho", "solver"):
                del e.hyper[p]
        return e.build().e
    v, leaves = S.run(lambda: go(S))
    names = {S.exc_name(l) for l in leaves}
    nm = "%s(rho%s)" % (name, {"-": "<0", "0": "=0", "+": ">0"}[sign])
    if sign == "-":
        K.require("ctor", nm, v is None and names == {"ValueError"},
                  "the constructor %s" % ("accepts it" if v is not None
                                          else "raises %s" % names),
                  b["e"].site("__init__"))
    else:
        K.require("ctor", nm, v is not None and not any(
            l.explicit for l in leaves),
            "the constructor raises %s" % names, b["e"].site("__init__"))


def nonnum(K, name, sv, bad):
    S = K.session()
    b = {}

    def go(S):
        e = b["e"] = Est(K, S, name, sv).build()
        S.set_attr(e.e, "rho", Const(bad) if bad != "list"
                   else S.new_list([]))
        b["ready"] = True
        return e.fit()
    v, leaves = S.run(lambda: go(S))
    if not b.get("ready"):
        raise Undecided("constructor not followed")
    leaves = [l for l in leaves if not l.loc[2].endswith("__init__")]
    names = {S.exc_name(l) for l in leaves}
    K.require("fit", "%s(%s, rho=%r)" % (name, sv, bad),
              v is None and names == {"TypeError"},
              "fit %s" % ("returns" if v is not None else "raises %s" % names),
              b["e"].site("fit"))


def forward(K, nm, lab, post, imp, again):
    S = K.session()
    b = {}

    def go(S):
        r = b["r"] = Robust(K, S, labels=lab, post=post, imp=imp,
                            same_batch=not post, rho="-" if not again
                            else "+")
        b["site"] = K.method_site(S, S.obj(r.D).cls, "forward")
        if again:
            r.forward()
            S.inplace(r.at("rho"), S.scalar("newrho", "-"), "copy_")
            b["ready"] = True
            return r.call(r.x, r.y)
        b["ready"] = True
        return r.forward()
    v, leaves = S.run(lambda: go(S))
    if not b.get("ready"):
        raise Undecided("construction not followed: %s" % [
            (S.exc_name(l), l.loc) for l in leaves[:2]])
    names = {S.exc_name(l) for l in leaves}
    K.require("forward", nm, v is None and names == {"ValueError"},
              "evaluating with a negative radius %s" % (
                  "returns a value" if v is not None else
                  "raises %s" % names), b["site"])


def nan(K, nm, lab, post):
    S = K.session()
    b = {}

    def go(S):
        r = b["r"] = Robust(K, S, labels=lab, post=post, imp=False,
                            same_batch=not post, rho="n")
        b["site"] = K.method_site(S, S.obj(r.D).cls, "forward")
        return S.freeze(r.forward())
    v = K.ok(S, go)
    t = S.strip(v)
    while isinstance(t, App) and t.op in ("tensor", "detach", "clone",
                                          "par"):
        t = t.args[0]
        if isinstance(t, Ref):
            t = S.obj(t).f.get("%init", NONE)
        t = S.strip(t)
    sg = S.sign(v)
    ok = (isinstance(t, Const) and isinstance(t.v, float) and t.v != t.v) or \
        mentions(v, b["r"].rho) or (sg is not None and set(sg) == {"n"})
    K.require("nan", nm, ok, "the value does not depend on the NaN radius: "
              + show(v)[:200], b["site"])
