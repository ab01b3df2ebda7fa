"""The value of the robust loss."""
from skan.norm import Poly
from .common import *

EXPLANATION = (
    "robustify(...) followed by a call of the returned module is abstractly "
    "interpreted for symbolic data, radius, multiplier, epsilon, sigma and "
    "an uninterpreted user loss and transform, for each configuration of "
    "labels, sampling mode, cost and importance sampling.  The returned term "
    "is put in normal form and compared with the entropic dual formula built "
    "from the points at which the user's loss was evaluated and the random "
    "draws these points come from.")
ASSUMPTIONS = ["torch operations follow their documented semantics",
               "the user's loss acts sample by sample"]

CONFIGS = [(lab, post, cost, imp)
           for lab in (True, False) for post in (True, False)
           for cost, imp in ((None, True), ("2-2", True), ("2-2", False),
                             ("1-2", True), ("1-1", True), ("1-1", False),
                             ("short 2-2", True), ("2-2-3", True),
                             ("2-2-0.25", False), ("1-2-3", True),
                             ("NC 2-2", True), ("NC 1-1", False))
           if lab or cost is None or cost[:2] != "NC" and
           cost.count("-") == 1]


def code(cost, lab):
    """code of a cost given as [kind ]power-norm[-label weight]; 'short'
    leaves the engine out"""
    if cost is None:
        return None
    kind, _, nums = cost.rpartition(" ")
    return "%s%s-%s" % ("" if kind == "short" else "t-",
                        "NLC" if lab and kind != "NC" else "NC", nums)


def numbers(cost, lab):
    """power, norm, label weight (None when labels do not count)"""
    q = [float(t) for t in (cost or "2-2").split(" ")[-1].split("-")]
    k = q[2] if len(q) > 2 else 1e8
    return q[0], q[1], k if lab and "NC " not in (cost or "") else None
# sizes the cases are decided for again
SIZES = (dict(m=1), dict(n=1), dict(d=1))


def run(K):
    K.rule("dual-formula", "value = reduce_i( lambda rho^k + eps ( log sum_j "
           "exp((L(zeta_ij) - lambda c(xi_i, zeta_ij))/eps + log p(zeta_ij) -"
           " log q(zeta_ij)) - log n ) )")
    K.rule("centre", "the samples are drawn around the data points the loss "
           "is evaluated on")
    K.rule("stored", "evaluated without samples, a loss sampled beforehand "
           "uses the samples it was given last")
    for cfg in CONFIGS:
        name = "labels=%s post=%s cost=%s imp_samp=%s" % cfg
        with K.case(name):
            one_config(K, "dual-formula", name, *cfg)
    for cfg in CONFIGS:
        if not cfg[1] and cfg[2] in (None, "1-2"):
            name = "labels=%s post=%s cost=%s imp_samp=%s" % cfg
            with K.case(name + ", other number of samples"):
                one_config(K, "dual-formula", name + ", other number of "
                           "samples", *cfg, count="q")
        if cfg[2] in (None, "1-2", "NC 2-2") and cfg[3]:
            name = "labels=%s post=%s cost=%s imp_samp=%s" % cfg
            with K.case(name + ", evaluated before"):
                one_config(K, "dual-formula", name + ", evaluated before",
                           *cfg, before=lambda S, r: r.elsewhere())


def one_config(K, rule, name, lab, post, cost, imp, reduction=None,
               before=None, count=None):
    S = K.session()
    b = {}

    def go(S):
        r = b["r"] = Robust(K, S, labels=lab, post=post, imp=imp,
                            cost=code(cost, lab), same_batch=not post,
                            reduction=reduction, m0="m" if before else "m0")
        if before is not None:
            before(S, r)
        b["begin"] = len(S.events)
        b["lam"] = S.freeze(r.at("lam"))
        v = S.freeze(r.forward() if count is None else r.call(
            r.x, r.y, *r.zetas(S.integer(count))))
        b["end"] = len(S.events)
        if not post and rule in ("dual-formula", "value"):
            b["site"] = K.method_site(S, S.obj(r.D).cls, "forward")
            b["again"] = S.freeze(r.call(r.x, r.y))
        return v
    v = K.ok(S, go)
    r = b["r"]
    n, m, d, l = S.dim(count or "n"), S.dim("m"), S.dim("d"), S.dim("l")
    pts = user_points(S, r.loss, n, b["end"], b["begin"])
    tpts = user_points(S, r.tr, n, b["end"], b["begin"])
    if not pts or not tpts:
        other = [e for e in S.events[:b["end"]] if e.kind == "usercall"
                 and e.d["fn"] is r.tr and len(S.shape(e.d["args"][0]) or ())
                 and draws(S, e.d["args"][0])]
        if other and not pts and not tpts:
            K.record(rule, name, "violated", "the loss is evaluated on "
                     "another number of samples than asked for: %s" %
                     ", ".join(map(show, S.shape(other[0].d["args"][0]))),
                     K.loc(other[0].loc))
            return
        raise Undecided("the user's loss is never evaluated on the samples")
    where = K.loc(pts[0].loc)

    def spec(N, known=False):
        zt = one(N, S, [e.d["args"][0] for e in tpts], "data points")
        z = N.of(zt)
        zl = one(N, S, [e.d["args"][1] for e in pts], "labels") if lab \
            else None
        L = N.mean(N.of(r.unit_loss(zt, zl)), [l])
        x = N.of(r.x)
        lam, rho, eps = N.of(b["lam"]), N.of(r.rho), N.of(r.eps)
        k, p, weight = numbers(cost, lab)
        nrm = lambda a, ax: N.sum(a * a, [ax]) ** .5 if p == 2 else N.sum(
            N.abs(a), [ax])
        c = nrm(z - x, d)
        if weight is not None:
            kap = N.num(weight)
            c = (c + kap * nrm(N.of(zl) - N.of(r.y), l)) / (1 + kap)
        c = c ** k
        e = (L - lam * c) / eps
        if imp and (p, k) == (2, 2) and not known:
            e = e + importance(N, N.of(zt), N.of(r.x), d)
            if weight is not None:
                e = e + importance(N, N.of(zl), N.of(r.y), l)
        s = lam * rho ** k + eps * (N.lse(e, [n]) - N.log(N.of(n)))
        return s if reduction == "none" else N.sum(s, [m]) if \
            reduction == "sum" else N.mean(s, [m])
    if lab and imp and numbers(cost, lab)[:2] == (2, 2) and not compare(
            S, v, spec) and compare(S, v, lambda N: spec(N, True)):
        K.record(rule, "labelled importance weights", "violated",
                 "the importance weights of labelled losses cancel: the "
                 "density is not recentred on the displaced points",
                 K.method_site(S, "skwdro.base.samplers.torch."
                               "base_samplers.LabeledSampler",
                               "log_prob_recentered"))
    else:
        K.value(rule, name, S, v, spec, where,
                shape=(m,) if reduction == "none" else ())
    if post:
        centred(K, S, "centre" if rule == "dual-formula" else rule, name, r,
                [e.d["args"][0] for e in tpts], where)
    if "again" in b:
        K.value("stored" if rule == "dual-formula" else rule,
                name + ", stored samples", S, b["again"],
                lambda N: N.of(v), b["site"], shape=())


def centred(K, S, rule, name, r, terms, where):
    zs = list(dict.fromkeys(z for t in terms for z in draws(S, t)))
    if len(zs) != 1:
        raise Undecided("%d draws" % len(zs))

    def spec(N):
        z = N.of(zs[0])
        mid, s = split_noise(N, z)
        if s is None:
            raise Undecided("sample without additive noise")
        return N.of(r.x) + z - mid
    K.value(rule, name + ": centre of the samples", S, zs[0], spec, where)


def importance(N, z, x, ax):
    """log p(z) - log q(z) for z = x + delta + s * noise, where p is the
    normal law of scale s around x and q the one around x + delta"""
    centre, s = split_noise(N, z)
    if s is None:
        raise Undecided("sample without additive noise")
    u0, u1 = z - x, z - centre
    return N.sum(u1 * u1 - u0 * u0, [ax]) / (2 * s * s)


def split_noise(N, z):
    """z = rest + scale*noise"""
    rest, sc = N.zero(), None
    for m, c in z.t.items():
        hit = [(i, e) for i, e in m if N.atoms[i][0][0] == "noise"]
        if hit:
            if len(hit) != 1 or hit[0][1] != 1:
                return None, None
            t = Poly(N, {tuple(x for x in m if x not in hit): c})
            sc = t if sc is None else sc + t
        else:
            rest = rest + Poly(N, {m: c})
    return rest, sc
