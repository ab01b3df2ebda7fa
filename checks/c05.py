"""Solver names."""
from .common import *

EXPLANATION = (
    "fit() is abstractly interpreted for each estimator and solver name with "
    "symbolic data; the event trace tells whether optimiser steps are taken, "
    "whether random draws are made inside the optimisation loops, whether a "
    "convex program is built, and which exceptions all paths end with.")


def run(K):
    K.rule("post", "_post: every robust-loss optimisation loop draws samples")
    K.rule("pre", "_pre: steps are taken and no sample is drawn inside a loop")
    K.rule("dedicated", "dedicated: no optimiser step, no random draw")
    K.rule("entropic", "'entropic' raises DeprecationWarning on all paths")
    K.rule("unknown", "other names raise NotImplementedError on all paths")
    for name in ESTIMATORS:
        for sv in solvers(name) + ["entropic", "simplex", "DEDICATED", "tor"]:
            with K.case("%s %s" % (name, sv)):
                one_solver(K, name, sv)


def one_solver(K, name, sv):
    S = K.session()
    b = {}

    def go(S):
        e = b["e"] = Est(K, S, name, sv).build()
        e.fit()
        return e.e
    v, leaves = S.run(lambda: go(S))
    where = b["e"].site("fit") if "e" in b else ""
    nm = "%s(solver=%r)" % (name, sv)
    if sv not in (POST, PRE, DED):
        want = "DeprecationWarning" if sv == "entropic" else \
            "NotImplementedError"
        rule = "entropic" if sv == "entropic" else "unknown"
        if b.get("e") is None or b["e"].e is None:
            raise Undecided("constructor not followed")
        got = {S.exc_name(l) for l in leaves if l.explicit}
        # paths refused before the solver name is looked at (data checks)
        K.require(rule, nm, v is None and want in got,
                  "fit %s" % ("returns" if v is not None else
                              "raises %s" % ", ".join(map(str, got))), where)
        return
    if v is None:
        K.ok(K.session(), lambda S2: Est(K, S2, name, sv).build().fit())
        return
    steps = [e for e in S.events if e.kind == "step"]
    draws_ = [e for e in S.events if e.kind == "rng_draw"]
    inloop = [e for e in draws_ if e.loops]
    if sv == DED:
        bad = steps or draws_
        K.require("dedicated", nm, not bad, "the dedicated solver %s" % (
            "takes optimiser steps" if steps else "draws random numbers"),
            K.loc(bad[0].loc) if bad else where)
        return
    if not steps:
        K.record(sv[-4:].strip("_"), nm, "violated",
                 "no optimiser step is taken", where)
        return
    bad = [e for e in S.events if e.kind in ("cvx_problem", "cvx_solve")]
    K.require("post" if sv == POST else "pre", nm + " no convex program",
              not bad, "a convex program is solved",
              K.loc(bad[0].loc) if bad else where)
    if sv == PRE:
        K.require("pre", nm, not inloop and bool(draws_),
                  "samples are drawn inside the optimisation loop"
                  if inloop else "no sample is drawn",
                  K.loc(inloop[0].loc) if inloop else where)
    else:
        last = [e.loops[-1] for e in steps if e.loops]
        lp = last[-1] if last else None
        K.require("post", nm, lp is not None and any(
            lp in e.loops for e in inloop),
            "no sample is drawn in the optimisation loop",
            K.loc(steps[-1].loc))
