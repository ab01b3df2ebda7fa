"""Predictions and class probabilities."""
from .common import *
from .c22 import Final

EXPLANATION = (
    "predict and predict_proba are interpreted on new symbolic data after a "
    "fit with symbolic data.  Regression predictions and each column of the "
    "probabilities are compared, by normal forms, with the model's formula at "
    "the final parameters (the fitted attributes, for the dedicated solvers); "
    "the predicted label is read as a class index, which must be the index of "
    "the largest probability; the labels used for training must give +1 to "
    "the class of the second column (the unit vector of each class when there "
    "are more).")

KEEP = frozenset("""tensor to detach clone copy valid numpy cpu contiguous
astype as_tensor asarray from_numpy data array double constant torch_Tensor
npfloat deepcopy""".split())
# sizes the cases are decided for again
SIZES = (dict(d=1), dict(t=1))


def run(K):
    K.rule("regression", "regression predictions are affine in the data")
    K.rule("probability", "each column is the probability of its class")
    K.rule("decision", "the predicted class has the largest probability")
    K.rule("encoding", "training labels follow the order of classes_")
    K.rule("shape", "one prediction per row, one column per class")
    for sv in (POST, PRE, DED):
        for fi in (TRUE, FALSE):
            nm = "LinearRegression(%s, fit_intercept=%s)" % (sv, fi.v)
            with K.case(nm):
                regression(K, nm, sv, fi)
            for nc in (2, 3) if sv != DED else (2,):
                nm = "LogisticRegression(%s, fit_intercept=%s, %d classes)" \
                    % (sv, fi.v, nc)
                with K.case(nm):
                    classes(K, nm, sv, fi, nc)


def fitted(K, S, name, sv, fi, nc, meths):
    b = {}

    def go(S):
        e = b["e"] = Est(K, S, name, sv, nclasses=nc, fit_intercept=fi)
        e.build()
        e.fit()
        b["ph"] = phases(S)
        b["X"] = S.array("Xt", ("t", "d"))
        for m in meths:
            b[m] = e.use(m, b["X"])
        b["f"] = e.fields()
        return e.e
    K.ok(S, go)
    f = b["f"]
    d = S.dim("d")
    if sv == DED:
        def score(N):
            s = N.sum(N.of(b["X"]) * N.of(f["coef_"]), [d])
            ic = f.get("intercept_", NONE)
            return s if ic is NONE else s + N.of(ic)
    else:
        if not b["ph"]:
            raise Undecided("no training loop")
        R = Final(S, b["e"], b["ph"][-1])

        def score(N):
            s = N.sum(N.of(b["X"]) * N.of(R.weight()), [d])
            return s + N.of(R.bias()) if fi is TRUE else s
    b["score"] = score
    return b


def shaped(K, S, nm, what, v, want, where):
    sh = S.shape(v)
    K.require("shape", nm + ": " + what, None if sh is None else
              tuple(sh) == want, "shape (%s) instead of (%s)" % (
                  ", ".join(map(show, sh or ())),
                  ", ".join(map(show, want))), where)


def regression(K, nm, sv, fi):
    S = K.session()
    b = fitted(K, S, "LinearRegression", sv, fi, 2, ["predict"])
    where = b["e"].site("predict")
    K.value("regression", nm, S, b["predict"], b["score"], where)
    shaped(K, S, nm, "predict", b["predict"], (S.dim("t"),), where)


def classes(K, nm, sv, fi, nc):
    S = K.session()
    b = fitted(K, S, "LogisticRegression", sv, fi, nc,
               ["predict_proba", "predict"])
    e, score, t = b["e"], b["score"], S.dim("t")
    P, L = S.freeze(b["predict_proba"]), S.freeze(b["predict"])
    wp, wl = e.site("predict_proba"), e.site("predict")
    if nc == 2:
        p1 = lambda N: 1 / (1 + N.exp(-score(N)))
        cols = columns(S, P, 2)
        if cols is None:
            K.require("probability", nm, None, "columns not recognised: "
                      + show(P, 5), wp)
        else:
            for j, c in enumerate(cols):
                K.value("probability", "%s, column %d" % (nm, j), S, c,
                        lambda N, j=j: p1(N) if j else 1 - p1(N), wp)
    else:
        def soft(N):
            ex = N.exp(score(N))
            return ex / N.sum(ex, [Const(nc)])
        K.value("probability", nm, S, P, soft, wp)
    shaped(K, S, nm, "predict_proba", P, (t, Const(nc)), wp)
    shaped(K, S, nm, "predict", L, (t,), wl)
    # predicted class
    idx = index(S, e, L)
    if idx is None:
        K.require("decision", nm, None, "label not recognised: " + show(
            L, 6), wl)
    else:
        r = largest(K, S, idx, score, nc)
        K.require("decision", nm, r, "the class index is %s" % show(idx, 9),
                  wl)
    # labels used for training
    y = S.freeze(e.at("y_"))
    where = e.site("fit")
    if nc == 2:
        got = [encoded(S, e, y, k) for k in (0, 1)]
        ok = None if None in got else got == [-1, 1]
        K.require("encoding", nm, ok, "the first and second class are "
                  "trained with labels %s" % (got,), where)
    else:
        K.require("encoding", nm, onehot(S, e, y), "labels are trained as "
                  + show(y, 6), where)


def bare(v):
    while isinstance(v, App) and v.op in KEEP and v.args and \
            not isinstance(v.args[0], Tup):
        v = v.args[0]
    return v


def columns(S, v, n):
    """the columns of a two dimensional term, or None"""
    v = bare(v)
    if not isinstance(v, App):
        return None
    if v.op in ("T", "transpose", "swapaxes", "permute"):
        return rows(S, v.args[0], n)
    if v.op in ("stack", "cat") and isinstance(v.args[0], Tup):
        its = v.args[0].items
        d = dict(v.kw).get("dim", Const(0))
        if isinstance(d, Const) and d.v in (1, -1) and len(its) == n and (
                v.op == "stack" or all(
                    (S.shape(x) or (0, 0))[-1] is Const(1) for x in its)):
            return list(its)
    if v.op == "setitem":
        out = {}
        while isinstance(v, App) and v.op == "setitem":
            k = v.args[1]
            if not isinstance(k, Tup) or len(k.items) != 2 or not \
                    isinstance(k.items[1], Const) or not full(k.items[0]):
                return None
            j = k.items[1].v
            if not isinstance(j, int):
                return None
            out.setdefault(j % n, v.args[2])
            v = bare(v.args[0])
        if set(out) == set(range(n)):
            return [out[j] for j in range(n)]
    return None


def full(k):
    return isinstance(k, App) and k.op == "slice" and all(
        x is NONE for x in k.args) or (isinstance(k, Const)
                                       and k.v is Ellipsis)


def rows(S, v, n):
    v = bare(v)
    if not isinstance(v, App):
        return None
    if v.op in KEEP and isinstance(v.args[0], Tup):
        its = v.args[0].items
        return list(its) if len(its) == n else None
    if v.op == "stack" and isinstance(v.args[0], Tup):
        d = dict(v.kw).get("dim", Const(0))
        if d is Const(0) and len(v.args[0].items) == n:
            return list(v.args[0].items)
    return None


def is_classes(S, e, v):
    """the sorted classes of the training labels"""
    v = bare(v)
    return isinstance(v, App) and v.op == "unique" and S.strip(
        v.args[0]) is S.strip(e.y)


def encoder(S, e, v, kind):
    return isinstance(v, App) and v.op == "sk_fit_transform" and \
        v.args[0].v == kind and S.strip(strip_new(v.args[1])) is S.strip(e.y)


def strip_new(v):
    """value behind added axes"""
    v = bare(v)
    while isinstance(v, App) and (
            v.op in ("reshape", "unsqueeze", "view", "squeeze", "flatten")
            or (v.op == "getitem" and isinstance(v.args[1], Tup) and all(
                x is NONE or full(x) for x in v.args[1].items))):
        v = bare(v.args[0])
    return v


def index(S, e, v):
    """term of the class index selected by a predicted label"""
    v = strip_new(v)
    if not isinstance(v, App):
        return None
    if v.op == "sk_inverse_transform":
        x = bare(v.args[1])
        if v.args[0].v == "LabelEncoder":
            return x
        return App("hot", (x,))
    if v.op == "getitem" and is_classes(S, e, v.args[0]):
        return bare(v.args[1])
    if v.op == "getitem" and isinstance(v.args[1], Tup):
        return None
    if v.op == "where" and len(v.args) == 3:
        js = [index(S, e, x) for x in v.args[1:]]
        if all(isinstance(j, Const) for j in js):
            if js == [Const(1), Const(0)]:
                return v.args[0]
            if js == [Const(0), Const(1)]:
                return App("not", (v.args[0],))
            return App("where", (v.args[0],) + tuple(js))
    if v.op == "take" and is_classes(S, e, v.args[0]):
        return bare(v.args[1])
    return None


def largest(K, S, v, score, nc):
    """Is this index that of the largest probability?"""
    v = strip_new(v)
    if isinstance(v, App) and v.op == "hot":
        m = bare(v.args[0])
        # a matrix which is one at the largest entry of each row
        if isinstance(m, App) and m.op in ("le", "eq", "lt"):
            a, c = m.args
            best = [x for x in (a, c) if is_max(x)]
            if len(best) == 1 and m.op != "lt":
                other = c if best[0] is a else a
                src = bare(strip_new(best[0]).args[0])
                if m.op == "le" and best[0] is c:
                    return False       # always true
                r = K_same(K, S, src, other)
                return ranks(K, S, other, score, nc) if r else r
            if nc > 2 and any(is_max(x, False) for x in (a, c)):
                return False       # not the largest entry of the row
            if nc > 2 and any(isinstance(bare(x), Const) for x in (a, c)):
                return False       # a fixed level marks none or several
            return None if m.op == "eq" or best == [] else False
        if isinstance(m, App) and m.op == "getitem" and isinstance(
                bare(m.args[0]), App) and bare(m.args[0]).op == "eye":
            return largest(K, S, m.args[1], score, nc)
        if isinstance(m, App) and m.op == "one_hot":
            return largest(K, S, m.args[0], score, nc)
        return ranks(K, S, m, score, nc)    # the encoder takes the argmax
    if isinstance(v, App) and v.op == "argmax":
        d = dict(v.kw).get("dim", NONE)
        if not isinstance(d, Const) or d.v not in (1, -1):
            return False
        return ranks(K, S, v.args[0], score, nc)
    if isinstance(v, App) and v.op == "argmin":
        return False
    pol = True
    while isinstance(v, App):
        if v.op in ("not", "logical_not", "invert"):
            v, pol = bare(v.args[0]), not pol
        elif v.op == "where" and tuple(v.args[1:]) == (Const(1), Const(0)):
            v = bare(v.args[0])
        elif v.op == "where" and tuple(v.args[1:]) == (Const(0), Const(1)):
            v, pol = bare(v.args[0]), not pol
        else:
            break
    if nc == 2 and isinstance(v, App) and v.op in ("le", "lt"):
        a, c = v.args
        if not pol:
            a, c = c, a
        p = lambda N: 1 / (1 + N.exp(-score(N)))
        rs = []
        for lo, hi in ((lambda N: N.num(1) / 2, p),
                       (lambda N: N.zero(), score),
                       (lambda N: 1 - p(N), p),
                       (lambda N: 1 - p(N), lambda N: N.num(1) / 2)):
            r = [same(K, S, a, lo), same(K, S, c, hi)]
            if all(x is True for x in r):
                return True
            rs.append(None if None in r else False)
        return None if None in rs else False
    return None


def is_max(v, rows=True):
    """largest entry of each row (or of something else)"""
    v = strip_new(v)
    return isinstance(v, App) and v.op in ("max", "amax") and len(
        v.args) == 1 and isinstance(dict(v.kw).get("dim", NONE), Const) \
        and (dict(v.kw).get("dim", NONE).v in (1, -1)) == rows


def same(K, S, v, spec):
    r = compare(S, v, spec)
    K.ncases += r.cases
    return {MATCH: True, MISMATCH: False}.get(r.kind)


def K_same(K, S, a, b):
    return bare(a) is bare(b) or same(K, S, a, lambda N: N.of(b))


def ranks(K, S, v, score, nc):
    """Does a row-wise maximum of v select the largest probability?"""
    if nc == 2:
        cols = columns(S, v, 2)
        if cols is None:
            return None
        p = lambda N: 1 / (1 + N.exp(-score(N)))
        r = [same(K, S, cols[0], lambda N: 1 - p(N)),
             same(K, S, cols[1], p)]
        return None if None in r else all(r)

    def soft(N):
        ex = N.exp(score(N))
        return ex / N.sum(ex, [Const(nc)])
    r = [same(K, S, v, soft), same(K, S, v, score)]
    if True in r:
        return True
    return None if None in r else False


def encoded(S, e, v, k):
    """value of a training label for the samples of the class k"""
    v = strip_new(v)
    go = lambda x: encoded(S, e, x, k)
    if isinstance(v, Const):
        return v.v if isinstance(v.v, (int, float)) else None
    if encoder(S, e, v, "LabelEncoder"):
        return k
    if isinstance(v, Ite):
        c = go(v.c)
        return None if c is None else go(v.a if c else v.b)
    if not isinstance(v, App):
        return None
    if v.op == "truth":
        return go(v.args[0])
    if v.op == "setitem":
        c = go(v.args[1])
        return None if c is None else go(v.args[2] if c else v.args[0])
    if v.op == "where" and len(v.args) == 3:
        c = go(v.args[0])
        return None if c is None else go(v.args[1] if c else v.args[2])
    if v.op in KEEP and isinstance(v.args[0], Tup) and len(
            v.args[0].items) == 1:
        x = v.args[0].items[0]
        if isinstance(x, App) and x.op == "each":
            return go(x.args[1])
    if v.op == "elem":
        return go(v.args[0])
    if v.op == "getitem" and isinstance(bare(v.args[0]), App) and isinstance(
            bare(v.args[0]).args[:1], tuple):
        src = bare(v.args[0])
        if src.op in KEEP and isinstance(src.args[0], Tup):
            j = go(v.args[1])
            its = src.args[0].items
            if isinstance(j, int) and 0 <= j < len(its):
                return go(its[j])
    if v.op == "eq":
        for a, c in (v.args, v.args[::-1]):
            a, c = strip_new(a), bare(c)
            if S.strip(a) is S.strip(e.y) and isinstance(c, App) and \
                    c.op == "getitem" and is_classes(S, e, c.args[0]) and \
                    isinstance(c.args[1], Const):
                return k == c.args[1].v % 2
    xs = [go(x) for x in v.args]
    if None in xs or not xs:
        return None
    try:
        return {"add": lambda a, b: a + b, "sub": lambda a, b: a - b,
                "mul": lambda a, b: a * b, "div": lambda a, b: a / b,
                "pow": lambda a, b: a ** b, "neg": lambda a: -a,
                "eq": lambda a, b: a == b, "le": lambda a, b: a <= b,
                "lt": lambda a, b: a < b, "not": lambda a: not a,
                "invert": lambda a: not a,
                "sign": lambda a: (a > 0) - (a < 0)}[v.op](*xs)
    except (KeyError, TypeError, ZeroDivisionError):
        return None


def onehot(S, e, v):
    v = bare(v)
    if encoder(S, e, v, "OneHotEncoder"):
        return True
    if encoder(S, e, v, "LabelBinarizer"):
        return True
    if isinstance(v, App) and v.op == "getitem" and isinstance(
            bare(v.args[0]), App) and bare(v.args[0]).op == "eye" and \
            encoder(S, e, strip_new(v.args[1]), "LabelEncoder"):
        return True
    return None
