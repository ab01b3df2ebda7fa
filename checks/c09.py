"""Reductions of the robust loss."""
from .common import *
from . import c08

EXPLANATION = (
    "The robust loss is abstractly interpreted once per reduction, sampling "
    "mode and label setting; the returned terms must have the normal forms "
    "of the same per-sample vector, of its sum and of its mean over the "
    "batch axis, and the matching shapes.  The zero-radius branch is treated "
    "in the same way and unknown reduction names must raise.")
# sizes the cases are decided for again
SIZES = (dict(m=1), dict(n=1), dict(d=1))


def run(K):
    K.rule("reduction", "value(reduction) is the mean (default), the sum or "
           "the identity applied to one per-sample vector")
    K.rule("unknown-reduction", "an unknown reduction name is refused")
    for red in ("none", "mean", "sum", None):
        for lab in (True, False):
            for post in (True, False):
                nm = "reduction=%s labels=%s post=%s" % (red, lab, post)
                with K.case(nm):
                    c08.one_config(K, "reduction", nm, lab, post, None,
                                   False, red)
                nm = "rho=0 " + nm
                with K.case(nm):
                    zero(K, nm, red, lab, post)
    for lab in (True, False):
        for rho in ("+", "0"):
            nm = "labels=%s rho%s" % (lab, "=0" if rho == "0" else ">0")
            with K.case("unknown reduction " + nm):
                unknown(K, nm, lab, rho)


def erm(N, S, r, red):
    m, l = S.dim("m"), S.dim("l")
    v = N.mean(N.of(r.unit_loss(r.x, r.y if r.labels else None)), [l])
    return v if red == "none" else N.sum(v, [m]) if red == "sum" else N.mean(
        v, [m])


def zero(K, nm, red, lab, post):
    S = K.session()
    b = {}

    def go(S):
        r = b["r"] = Robust(K, S, labels=lab, post=post, reduction=red,
                            rho="0", same_batch=not post)
        b["site"] = K.method_site(S, S.obj(r.D).cls, "forward")
        return S.freeze(r.forward())
    v = K.ok(S, go)
    K.value("reduction", nm, S, v, lambda N: erm(N, S, b["r"], red),
            b["site"], shape=(S.dim("m"),) if red == "none" else ())


def unknown(K, nm, lab, rho):
    S = K.session()
    b = {}

    def go(S):
        r = Robust(K, S, labels=lab, reduction="average", rho=rho)
        b["site"] = K.method_site(S, S.obj(r.D).cls, "forward")
        return r.forward()
    v, leaves = S.run(lambda: go(S))
    K.require("unknown-reduction", nm, v is None,
        "a value is returned for an unknown reduction name",
        b.get("site", ""))
