"""Seeding."""
from .common import *

EXPLANATION = (
    "fit() is abstractly interpreted; each random draw of the event trace "
    "(torch, numpy, python generators, module initialisation included) must "
    "be preceded by a seeding of the same generator that lies on all its "
    "paths, and the last such seeding must use the symbol given as "
    "random_state.")


def run(K):
    K.rule("seeded", "the last dominating seeding of the generator uses "
           "random_state")
    for name in ESTIMATORS:
        for sv in solvers(name):
            for nc in ((2, 3) if name == "LogisticRegression" and sv != DED
                       else (2,)):
                nm = "%s(%s)%s" % (name, sv, " multiclass" if nc > 2 else "")
                with K.case(nm):
                    seeded(K, nm, name, sv, nc)
                nm += " random_state=0"
                with K.case(nm):
                    seeded(K, nm, name, sv, nc, Const(0))


def dominates(a, b):
    """event a happens before b on all paths to b"""
    return len(a.pc) <= len(b.pc) and all(
        x is y or x == y for x, y in zip(a.pc, b.pc)) and \
        len(a.loops) <= len(b.loops) and all(
            x is y or x == y for x, y in zip(a.loops, b.loops))


def seeded(K, nm, name, sv, nc, rs=None):
    S = K.session()
    b = {}

    def go(S):
        e = b["e"] = Est(K, S, name, sv, nclasses=nc, **(
            {} if rs is None else {"random_state": rs}))
        e.build()
        b["n0"] = len(S.events)
        e.fit()
        return e.e
    K.ok(S, go)
    e = b["e"]
    rs = e.hyper.get("random_state")
    if rs is None:
        raise AnchorMissing(name + " random_state")
    evs = S.events[b["n0"]:]
    seen = 0
    for i, ev in enumerate(evs):
        if ev.kind != "rng_draw":
            continue
        seen += 1
        K.count()
        con = "%s: %s in %s" % (nm, ev.d["what"], ev.loc[2])
        g = ev.d.get("gen", NONE)
        if isinstance(g, Ref):
            sd = S.obj(g).f.get("%seed", NONE)
            if isinstance(sd, V) and mentions(sd, rs):
                K.record("seeded", con, "held")
                continue
            last = None
        else:
            last = None
            for s in reversed(evs[:i]):
                if s.kind == "rng_seed" and s.d["src"] == ev.d["src"] and \
                        dominates(s, ev):
                    last = s
                    break
            if last is not None and isinstance(last.d["val"], V) and \
                    mentions(last.d["val"], rs):
                K.record("seeded", con, "held")
                continue
        K.record("seeded", con, "violated", "the draw is made %s" % (
            "before the generator is seeded" if last is None else
            "after seeding with %s, not random_state" % show(
                last.d["val"])), K.loc(ev.loc))
    if not seen:
        K.record("seeded", nm + ": no draw", "held")
