"""Displacement of the samples by importance sampling."""
from .common import *
from .c08 import split_noise

EXPLANATION = (
    "The points at which the user's loss is evaluated with importance "
    "sampling are put in normal form, one case per outcome of the conditions "
    "on the displacement, and compared with x + s*noise + g/(2 lambda), g "
    "the gradient of the loss at the data point with its length capped, "
    "when every displacement is finite, and with the undisplaced sample "
    "otherwise.")

CAP = 1e10
# sizes the cases are decided for again
SIZES = (dict(m=1), dict(d=1), dict(l=1))


def run(K):
    K.rule("shift", "every sample of a data point is moved by half the "
           "capped gradient at the data point over the multiplier, and no "
           "sample is moved when some shift is not finite")
    K.rule("label-shift", "labels are moved along their own gradient, over "
           "the label weight")
    for post in (True, False):
        for cost in (None, "t-NC-2-2", "t-NLC-2-2", "t-NLC-2-2-7"):
            for lab in (True, False):
                if cost and "NLC" in cost and not lab:
                    continue
                for tr in (True, False):
                    nm = "labels=%s post=%s cost=%s transform=%s" % (
                        lab, post, cost, tr)
                    with K.case(nm):
                        shift(K, nm, lab, post, cost, tr)
                    if tr:
                        with K.case(nm + " evaluated before"):
                            shift(K, nm + " evaluated before", lab, post,
                                  cost, tr, True)


def shift(K, nm, lab, post, cost, tr, before=False):
    S = K.session()
    b = {}

    def go(S):
        r = b["r"] = Robust(K, S, labels=lab, post=post, cost=cost,
                            transform=tr, same_batch=not post,
                            m0="m" if before else "m0")
        if before:
            r.elsewhere()
        b["lam"] = S.freeze(r.at("lam"))
        return r.forward()
    K.ok(S, go)
    r = b["r"]
    n, d, l = S.dim("n"), S.dim("d"), S.dim("l")
    pts = user_points(S, r.tr if tr else r.loss, n)
    lpts = user_points(S, r.loss, n)
    if not pts or not lpts:
        raise Undecided("the user's loss is never evaluated on the samples")
    moves = lab and (cost is None or "NLC" in cost)
    kap = float(cost.split("-")[4]) if cost and cost.count("-") > 3 else 1e8

    def disp(N, x, ax):
        """capped gradient of the loss at the data over the multiplier"""
        L = r.unit_loss(r.x, r.y)
        g = N.atom(("grad", N.mean(N.of(L), [a for a in (
            l if tr else d,) if a in N.axes(N.of(L))]).key(),
            N.of(x).key()), N.axes(N.of(x)))
        s = N.sum(g * g, [ax]) ** .5
        return g / s * N.minof([N.num(CAP), s]) / N.of(b["lam"])

    def finite(N):
        ok = True
        for x, ax in ((r.x, d),) + (((r.y, l),) if lab else ()):
            D = N.signless(N.scale(disp(N, x, ax))).key()
            ok = ok and not N.ask(("any", "isnan", D)) and not N.ask(
                ("any", "isinf", D))
        return ok

    def plain(N, t, x):
        """the draw a term comes from, undisplaced"""
        ds = draws(S, t)
        if not ds:
            return N.of(x)
        _, sc = split_noise(N, N.of(t))
        if sc is None:
            raise Undecided("sample without additive noise")
        z = N.of(ds[0]) if len(set(ds)) == 1 else None
        if z is None:
            raise Undecided("several draws in one sample")
        return z

    def spec(t, x, ax, w):
        def f(N):
            z = plain(N, t, x)
            if w is None or not finite(N):
                return z
            return z + N.num(1) / 2 * disp(N, x, ax) / w
        return f
    for e in pts:
        t = e.d["args"][0]
        K.value("shift", nm, S, t, spec(t, r.x, d, 1), K.loc(e.loc))
    for e in lpts if lab else ():
        t = e.d["args"][1]
        K.value("label-shift", nm, S, t, spec(t, r.y, l, kap if moves
                                              else None), K.loc(e.loc))
