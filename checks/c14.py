"""Log-densities of the samplers."""
from .sampling import *

EXPLANATION = (
    "log_prob and log_prob_recentered of every sampler class are abstractly "
    "interpreted at symbolic points; the returned term is compared, in "
    "normal form, with the log-density of the documented law (summed over "
    "the coordinates, labels added), around the data or around the given "
    "centres.")
# sizes the cases are decided for again
SIZES = (dict(m=1), dict(n=1), dict(d=1), dict(l=1))


def run(K):
    K.rule("density", "log_prob is the log-density of data plus labels")
    K.rule("recentred-density", "log_prob_recentered is the density around "
           "the given centres")
    K.rule("shape", "one value per sampled point")
    for kind in KINDS:
        nm = title(kind)
        with K.case(nm + " log_prob"):
            density(K, nm, kind, False)
        with K.case(nm + " log_prob_recentered"):
            density(K, nm, kind, True)


def density(K, nm, kind, rec):
    S = K.session()
    b = {}

    def go(S):
        s = b["s"] = Sampler(K, S, kind)
        x, y = b["xy"] = s.at("")
        s.build(x, y)
        z = b["z"] = S.tensor("z", ("n", "m", "d"))
        zl = b["zl"] = S.tensor("w", ("n", "m", "l")) if s.lab else NONE
        if rec:
            c = b["c"] = S.tensor("c", ("m", "d"))
            cl = b["cl"] = S.tensor("cl", ("m", "l")) if s.lab else NONE
            return S.freeze(S.icall(S.get_attr(
                s.s, "log_prob_recentered"), c, cl, z, zl))
        return S.freeze(S.icall(S.get_attr(s.s, "log_prob"), z, zl))
    v = K.ok(S, go)
    s = b["s"]
    k = s.label_kind()
    name = "log_prob_recentered" if rec else "log_prob"
    where = K.method_site(S, s.cls, name)
    x, y = b["xy"]
    ax, ay = (b["c"], b["cl"]) if rec else (x, y)
    rule = "recentred-density" if rec else "density"

    def logp(N, law, z, a):
        t = N.of(S.op("log_prob", (law, z)))
        return t if dict(law.kw).get("scale_tril") is not None else N.sum(
            t, [a])

    def spec(N, around):
        dx, dy = s.laws(*around)
        r = logp(N, dx, b["z"], S.dim("d"))
        if dy is not None:
            r = r + logp(N, dy, b["zl"], S.dim("l"))
        return r
    if k in ("fixed", "flipped"):
        # the law of the labels is discrete: only the data part is compared
        f = lambda t, around: compare(S, lambda N: without_labels(
            N, S, t, b["zl"]), lambda N: spec(N, around))
        r, plain = f(v, (ax, ay)), rec and f(v, (x, y))
    else:
        r = compare(S, v, lambda N: spec(N, (ax, ay)))
        plain = rec and compare(S, v, lambda N: spec(N, (x, y)))
    if rec and s.lab and not r and plain:
        K.record(rule, "labelled samplers", "violated",
                 "the density of labelled samplers is not recentred on the "
                 "given points", where)
        return
    K.require(rule, nm, True if r else None if r.kind == UNKNOWN else False,
              r.detail, where)
    if not (k == "fixed"):
        sh = S.shape(v)
        K.require("shape", nm + "." + name, None if sh is None else sh == (
            S.dim("n"), S.dim("m"), Const(1)),
            "log-density of shape %s" % (sh,), where)


def without_labels(N, S, t, zl):
    """the terms of a log-density that do not involve the labels"""
    from skan.norm import Poly
    P = N.of(t)
    if not isinstance(zl, V) or zl is NONE:
        return P
    out = N.zero()
    for m, c in P.t.items():
        if not any("w" in names(N, S, i) or N.atoms[i][0][0] == "inf"
                   for i, _ in m):
            out = out + Poly(N, {m: c})
    return out


def names(N, S, i):
    import re
    return set(re.findall(r"\w+", N.show_atom(i)))
