"""Ground costs."""
from .common import *

EXPLANATION = (
    "The body of every ground cost is abstractly interpreted (value "
    "numbering with gates for branches) for symbolic points, exponents and "
    "label weight; the resulting term is put in algebraic normal form and "
    "compared with the normal form of the documented formula.")
# sizes the cases are decided for again
SIZES = (dict(m=1), dict(n=1))


def run(K):
    K.rule("cost-formula", "the value of a ground cost has the normal form "
           "of ||x-z||_p^k, or ((||x-z||_p + kappa ||y-w||_p)/(1+kappa))^k, "
           "with keepdim, for every norm and power")
    INF = float("inf")
    for p in (1., 2., INF, None):
        for power in (1., 2., None):
            name = "p=%s power=%s" % (p, power)
            for lab in ("none", "pos", "zero", "inf"):
                for direct in (False, True):
                    with K.case("%s kappa=%s%s" % (name, lab, " value()" if direct else "")):
                        cost(K, p, power, lab, direct)


def cost(K, p, power, lab, direct):
    S = K.session()
    C = K.get(S, "skwdro.base.costs_torch." + (
        "NormCost" if lab == "none" else "NormLabelCost"))
    P = Const(p) if p is not None else S.num("p")
    W = Const(power) if power is not None else S.num("power")

    def go(S):
        x, z = S.tensor("x", (1, "m", "d")), S.tensor("z", ("n", "m", "d"))
        y = S.tensor("y", (1, "m", "l")) if lab != "none" else NONE
        w = S.tensor("w", ("n", "m", "l")) if lab != "none" else NONE
        kw = {"p": P, "power": W}
        if lab != "none":
            S.kap = {"pos": S.num("kappa"), "zero": Const(0.),
                     "inf": Const(float("inf"))}[lab]
            kw["kappa"] = S.kap
        c = S.icall(C, **kw)
        f = S.get_attr(c, "value") if direct else c
        return S.icall(f, x, z, y, w)
    v = K.ok(S, go)
    d, l = S.dim("d"), S.dim("l")

    def nrm(N, a, ax):
        if p == 2:
            return N.sum(a * a, [ax]) ** .5
        if p == 1:
            return N.sum(N.abs(a), [ax])
        if p is None:
            k = N.of(P)
            return N.atom(("normp", k.key(), frozenset([ax]),
                           N.signless(a).key()), N.axes(a) - {ax}, True)
        return N.rmax(N.abs(a), frozenset([ax]))

    def spec(N):
        o = lambda n: N.of(Sym(n))
        D = nrm(N, o("x") - o("z"), d)
        if lab == "none" or lab == "zero":
            b = D
        else:
            L = nrm(N, o("y") - o("w"), l)
            if lab == "inf":
                b = L
            else:
                k = o("kappa")
                b = (D + k * L) / (1 + k)
        if power is None:
            return N.atom(("pow", b.key(), o("power").key()), N.axes(b), True)
        return b ** power
    K.value("cost-formula", "%s(p=%s, power=%s, kappa=%s)" % (
        "NormCost" if lab == "none" else "NormLabelCost", p, power, lab),
        S, v, spec, K.method_site(S, C, "value", "forward"),
        shape=(S.dim("n"), S.dim("m"), Const(1)))
