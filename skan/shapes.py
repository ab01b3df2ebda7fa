"""Symbolic shape inference (dimensions are values: constants, names,
products)."""
from .values import (Const, Sym, App, Ite, Tup, Ref, NONE, TRUE, FALSE,
                     is_const, is_num)

ONE = Const(1)

SAME = frozenset("""tensor to detach clone copy valid numpy cpu contiguous
astype as_tensor asarray from_numpy data requires_grad_ array double
deepcopy constant torch_Tensor npfloat float item exp log sqrt abs sin cos
tanh sigmoid relu log1p expm1 square sign floor ceil round isnan isinf
isfinite neg softplus logsigmoid reciprocal logical_not erf cumsum softmax
log_softmax zeros_like ones_like full_like empty_like rand_like randn_like
loopvar setitem
param_init sort flip nan_to_num elu leaky_relu dropout truth not updated
loopres inplaced gradval huber rsqrt invert f_cumsum f_flip f_triu f_tril
f_nan_to_num f_argsort huber_loss sgn""".split())

BCAST = frozenset("""add sub mul div pow mod floordiv maximum minimum eq lt le
logaddexp clamp where bitand bitor logical_and logical_or atan2 clamp_min
clamp_max xlogy""".split())

REDUCE = frozenset("""sum mean max min prod any all logsumexp norm var std amax
amin argmax argmin median count_nonzero""".split())


def dimprod(dims):
    out, c = [], 1
    for d in dims:
        if isinstance(d, Const):
            c *= d.v
        elif isinstance(d, App) and d.op == "dimprod":
            for x in d.args:
                if isinstance(x, Const):
                    c *= x.v
                else:
                    out.append(x)
        else:
            out.append(d)
    if c != 1 or not out:
        out.append(Const(c))
    return out[0] if len(out) == 1 else App("dimprod", out)


def dim_factors(d):
    if isinstance(d, App) and d.op == "dimprod":
        return list(d.args)
    if is_const(d, 1):
        return []
    return [d]


def linear(v, c=1, out=None):
    """integer linear form of an extent: {symbol or None: coefficient}"""
    out = {} if out is None else out
    if isinstance(v, Const) and isinstance(v.v, int):
        out[None] = out.get(None, 0) + c * v.v
    elif isinstance(v, App) and v.op in ("add", "sub") and len(v.args) == 2:
        if linear(v.args[0], c, out) is None or linear(
                v.args[1], c if v.op == "add" else -c, out) is None:
            return None
    elif isinstance(v, App) and v.op == "dimsum":
        for x in v.args:
            if linear(x, c, out) is None:
                return None
    elif isinstance(v, Sym) or isinstance(v, App):
        out[v] = out.get(v, 0) + c
    else:
        return None
    return out


def linear_sub(b, a):
    """b - a as an extent, when it is a symbol or a number"""
    l = linear(b)
    if l is None or linear(a, -1, l) is None:
        return None
    l = {k: c for k, c in l.items() if c}
    if not l:
        return Const(0)
    if len(l) == 1:
        (k, c), = l.items()
        if k is None:
            return Const(c) if c >= 0 else None
        if c == 1:
            return k
    return None


class Shapes:
    def broadcast(self, *shs):
        shs = [s for s in shs]
        if any(s is None for s in shs):
            return None
        n = max((len(s) for s in shs), default=0)
        out = []
        for i in range(1, n + 1):
            d = ONE
            for s in shs:
                if len(s) >= i:
                    x = s[-i]
                    if is_const(x, 1):
                        continue
                    if is_const(d, 1):
                        d = x
                    elif d is not x:
                        return ("conflict", d, x)
            out.append(d)
        return tuple(reversed(out))

    def shape(self, v):
        r = self.shapememo.get(v, 0)
        if r != 0:
            return r
        self.shapememo[v] = None
        r = self._shape(v)
        if isinstance(r, tuple) and r and r[0] == "conflict":
            self.shape_errors.append((v, r[1], r[2]))
            r = None
        self.shapememo[v] = r
        return r

    def reduce_shape(self, s, dim, keep):
        if dim is None or dim is NONE:
            return tuple(ONE for _ in s) if keep else ()
        ds = self.dims_of(dim, len(s))
        if ds is None:
            return None
        if keep:
            return tuple(ONE if i in ds else x for i, x in enumerate(s))
        return tuple(x for i, x in enumerate(s) if i not in ds)

    def dims_of(self, dim, n):
        items = dim.items if isinstance(dim, Tup) else (dim,)
        out = []
        for d in items:
            if not (isinstance(d, Const) and isinstance(d.v, int)):
                return None
            k = d.v if d.v >= 0 else d.v + n
            if not 0 <= k < n:
                return None
            out.append(k)
        return out

    def _shape(self, v):
        if isinstance(v, Const):
            return () if is_num(v) or isinstance(v.v, bool) else None
        f = self.facts.get(v)
        if f is not None and f.get("shape") is not None:
            return tuple(f["shape"])
        if isinstance(v, Sym):
            if f and f.get("type") in ("builtins.float", "builtins.int",
                                       "builtins.bool"):
                return ()
            return None
        if isinstance(v, Ref):
            o = self.st.heap.get(v.oid)
            if o is None:
                return None
            if o.kind == "param":
                s = o.f.get("%shape")
                return tuple(s.items) if s is not None else self.shape(
                    o.f["%init"])
            if o.kind == "ext":
                s = o.f.get("%shape")
                return tuple(s.items) if s is not None else None
            return None
        if isinstance(v, Ite):
            a, b = self.shape(v.a), self.shape(v.b)
            return a if a == b else None
        if isinstance(v, Tup):
            ss = [self.shape(x) for x in v.items]
            if ss and all(s is not None and s == ss[0] for s in ss):
                return (Const(len(ss)),) + ss[0]
            return None
        if not isinstance(v, App):
            return None
        o = v.op
        kw = dict(v.kw)
        if o in SAME:
            if not v.args:
                return None
            if o == "loopvar":
                return self.shape(v.args[2])
            if o == "loopres":
                return self.shape(v.args[1])
            if o in ("item", "float"):
                return ()
            return self.shape(v.args[0])
        if o in ("par",):
            return self.shape(v.args[0])
        if o in BCAST:
            return self.broadcast(*[self.shape(a) for a in v.args])
        if o in REDUCE:
            s = self.shape(v.args[0])
            if s is None:
                return () if kw.get("dim", NONE) is NONE and not is_const(
                    kw.get("keepdim", FALSE), True) else None
            return self.reduce_shape(s, kw.get("dim", NONE),
                                     is_const(kw.get("keepdim", FALSE),
                                              True))
        if o in ("sizeof", "len", "int", "dim", "numel", "truth", "is",
                 "isinstance", "hasattr", "in", "dimprod", "countof"):
            return ()
        if o == "shape" or o == "size":
            return None
        h = getattr(self, "sh_" + o, None)
        if h is not None:
            return h(v, kw)
        return None

    def sh_matmul(self, v, kw):
        a, b = self.shape(v.args[0]), self.shape(v.args[1])
        if not a or not b:
            return None
        if len(b) == 1:
            if a[-1] is not b[-1]:
                return ("conflict", a[-1], b[-1])
            return a[:-1]
        if a[-1] is not b[-2]:
            return ("conflict", a[-1], b[-2])
        if len(a) == 1:
            return b[:-2] + b[-1:]
        pre = self.broadcast(a[:-2], b[:-2])
        if pre is None or (pre and pre[0] == "conflict"):
            return pre
        return pre + (a[-2], b[-1])

    def sh_linear(self, v, kw):
        a, w = self.shape(v.args[0]), self.shape(v.args[1])
        if not a or not w:
            return None
        if a[-1] is not w[-1]:
            return ("conflict", a[-1], w[-1])
        return a[:-1] + (w[0],)

    def sh_view(self, v, kw):
        s = self.shape(v.args[0])
        tgt = list(v.args[1:])
        if len(tgt) == 1 and isinstance(tgt[0], (Tup,)):
            tgt = list(tgt[0].items)
        elif len(tgt) == 1 and isinstance(tgt[0], App) \
                and tgt[0].op == "size":
            tgt = list(tgt[0].args)
        tgt = [self.strip(t) if not isinstance(t, Const) else t for t in tgt]
        if any(isinstance(t, Const) and t.v == -1 for t in tgt):
            if s is None:
                return None
            have = [f for d in s for f in dim_factors(d)]
            for t in tgt:
                if is_const(t, -1):
                    continue
                for f in dim_factors(t):
                    if f in have:
                        have.remove(f)
                    else:
                        return None
            m = dimprod(have) if have else ONE
            tgt = [m if is_const(t, -1) else t for t in tgt]
        return tuple(tgt)

    sh_reshape = sh_view

    def sh_flatten(self, v, kw):
        s = self.shape(v.args[0])
        if s is None:
            return None
        a = kw.get("start", Const(0))
        b = kw.get("end", Const(-1))
        if not (isinstance(a, Const) and isinstance(b, Const)):
            return None
        n = len(s)
        i = a.v if a.v >= 0 else a.v + n
        j = b.v if b.v >= 0 else b.v + n
        if n == 0:
            return (ONE,)
        return s[:i] + (dimprod(s[i:j + 1]),) + s[j + 1:]

    def sh_ravel(self, v, kw):
        s = self.shape(v.args[0])
        return None if s is None else (dimprod(s) if s else ONE,)

    def sh_unsqueeze(self, v, kw):
        s = self.shape(v.args[0])
        d = kw.get("dim")
        if s is None or not isinstance(d, Const):
            return None
        k = d.v if d.v >= 0 else d.v + len(s) + 1
        return s[:k] + (ONE,) + s[k:]

    def sh_squeeze(self, v, kw):
        s = self.shape(v.args[0])
        if s is None:
            return None
        d = kw.get("dim", NONE)
        if d is NONE:
            return tuple(x for x in s if not is_const(x, 1))
        ds = self.dims_of(d, len(s))
        if ds is None:
            return None
        return tuple(x for i, x in enumerate(s)
                     if not (i in ds and is_const(x, 1)))

    def sh_expand(self, v, kw):
        s = self.shape(v.args[0])
        tgt = list(v.args[1:])
        if len(tgt) == 1:
            its = self.shape_items(tgt[0])
            if its is not None:
                tgt = its
        if s is None:
            return None
        out = []
        off = len(tgt) - len(s)
        for i, t in enumerate(tgt):
            if is_const(t, -1):
                if i - off < 0:
                    return None
                t = s[i - off]
            out.append(t)
        return tuple(out)

    sh_broadcast = sh_expand

    def shape_items(self, v):
        if isinstance(v, Tup):
            return list(v.items)
        if isinstance(v, App) and v.op == "size":
            return list(v.args)
        return None

    def sh_T(self, v, kw):
        s = self.shape(v.args[0])
        return None if s is None else tuple(reversed(s))

    def sh_transpose(self, v, kw):
        s = self.shape(v.args[0])
        if s is None:
            return None
        ds = self.dims_of(Tup((kw.get("dim0", NONE), kw.get("dim1", NONE))),
                          len(s))
        if ds is None:
            return None
        s = list(s)
        s[ds[0]], s[ds[1]] = s[ds[1]], s[ds[0]]
        return tuple(s)

    def sh_permute(self, v, kw):
        s = self.shape(v.args[0])
        ds = self.dims_of(kw.get("dims", NONE), len(s)) if s else None
        if ds is None:
            return None
        return tuple(s[i] for i in ds)

    def sh_getitem(self, v, kw):
        s = self.shape(v.args[0])
        if s is None:
            return None
        k = v.args[1]
        ks = list(k.items) if isinstance(k, Tup) else [k]
        n_idx = sum(1 for x in ks if x is not NONE and not is_const(
            x, Ellipsis) and not (isinstance(x, Const) and x.v is None))
        out, i = [], 0
        for x in ks:
            if isinstance(x, Const) and x.v is None:
                out.append(ONE)
                continue
            if isinstance(x, Const) and x.v is Ellipsis:
                m = len(s) - n_idx - i + sum(
                    1 for y in out if False)
                m = len(s) - n_idx
                out.extend(s[i:i + m])
                i += m
                continue
            if i >= len(s):
                return None
            if isinstance(x, App) and x.op == "slice":
                lo, hi, st = x.args
                if all(y is NONE or (isinstance(y, Const) and y.v in (None,))
                       for y in (lo, hi, st)):
                    out.append(s[i])
                elif all(isinstance(y, Const) for y in (lo, hi, st)) and \
                        isinstance(s[i], Const):
                    out.append(Const(len(range(s[i].v)[
                        slice(lo.v, hi.v, st.v)])))
                else:
                    d = self.slice_len(s[i], lo, hi, st)
                    out.append(d)
            else:
                xs = self.shape(x)
                if xs is None:
                    if isinstance(x, App) and x.op == "elem":
                        xs = ()
                    else:
                        return None
                if self.is_bool_typed(x) and xs:
                    return None
                out.extend(xs)
            i += 1
        out.extend(s[i:])
        return tuple(out)

    def slice_len(self, d, lo, hi, st):
        if st is NONE:
            if lo is NONE and not isinstance(hi, Const):
                return hi
            if lo is NONE and isinstance(hi, Const) and hi.v is not None \
                    and hi.v >= 0:
                return hi
            a, b = self.slice_ends(d, lo, hi)
            r = linear_sub(b, a)
            if r is not None:
                return r
        return App("slicedim", (d, lo, hi, st))

    def slice_ends(self, d, lo, hi):
        """ends of a slice counted from the start"""
        def end(x, default):
            if x is NONE:
                return default
            if isinstance(x, Const) and isinstance(x.v, int) and x.v < 0:
                return App("add", (d, x))
            return x
        return end(lo, Const(0)), end(hi, d)

    def sh_rsample(self, v, kw):
        b = self.dist_shape(v.args[0])
        n = self.shape_items(kw.get("n", Tup(())))
        if b is None or n is None:
            return None
        return tuple(n) + b

    sh_sample = sh_rsample

    def sh_log_prob(self, v, kw):
        d, x = v.args
        b, xs = self.dist_shape(d), self.shape(x)
        s = self.broadcast(b, xs)
        if s is None or (s and s[0] == "conflict"):
            return s
        ev = self.dist_event(d)
        if ev is None:
            return None
        return s[:len(s) - ev] if ev else s

    def dist_event(self, d):
        if not (isinstance(d, App) and d.op == "dist"):
            return None
        name = d.args[0].v
        if name == "MultivariateNormal":
            return 1
        if name == "Independent":
            k = dict(d.kw).get("n")
            b = self.dist_event(dict(d.kw)["base"])
            return b + k.v if b is not None and isinstance(k, Const) else None
        if name == "TransformedDistribution":
            return self.dist_event(dict(d.kw)["base"])
        return 0

    def dist_shape(self, d):
        """batch + event shape"""
        if not (isinstance(d, App) and d.op == "dist"):
            return None
        kw = dict(d.kw)
        name = d.args[0].v
        if "expanded" in kw:
            its = self.shape_items(kw["expanded"])
            return None if its is None else tuple(its)
        if name in ("Normal", "Laplace", "Cauchy", "Gumbel"):
            return self.broadcast(self.shape(kw["loc"]),
                                  self.shape(kw["scale"]))
        if name == "MultivariateNormal":
            l = self.shape(kw["loc"])
            return l
        if name == "Bernoulli":
            k = kw.get("probs", NONE)
            if k is NONE:
                k = kw.get("logits", NONE)
            return self.shape(k)
        if name == "TransformedDistribution":
            b = self.dist_shape(kw["base"])
            t = kw["transforms"]
            ts = t.items if isinstance(t, Tup) else (t,)
            for x in ts:
                if isinstance(x, App) and x.op == "dist" and \
                        x.args[0].v == "AffineTransform":
                    k2 = dict(x.kw)
                    b = self.broadcast(b, self.shape(k2["loc"]),
                                       self.shape(k2["scale"]))
                else:
                    return None
            return b
        if name == "Independent":
            return self.dist_shape(kw["base"])
        if name == "Uniform":
            return self.broadcast(self.shape(kw["low"]),
                                  self.shape(kw["high"]))
        return None

    def _given(self, v, kw):
        its = v.args
        if len(its) == 1:
            k = self.shape_items(its[0])
            if k is not None:
                return tuple(k)
            if isinstance(its[0], Ref):
                k = self.known_items(its[0])
                if k is not None:
                    return tuple(k)
        return tuple(its)

    sh_zeros = sh_ones = sh_empty = sh_rand = sh_randn = _given

    def sh_full(self, v, kw):
        k = self.shape_items(v.args[0])
        return tuple(k) if k is not None else (v.args[0],)

    def sh_eye(self, v, kw):
        n = v.args[0]
        return (n, v.args[1] if len(v.args) > 1 else n)

    def sh_grad(self, v, kw):
        return self.shape(v.args[1])

    def sh_row(self, v, kw):
        s = self.shape(v.args[0])
        return s[1:] if s else None

    def sh_elem(self, v, kw):
        s = self.shape(v.args[0])
        if s:
            return s[1:]
        if isinstance(v.args[0], App) and v.args[0].op == "range":
            return ()
        return None

    def sh_arange(self, v, kw):
        a = v.args
        if len(a) == 1:
            return (a[0],)
        if len(a) == 2 and is_const(a[0], 0):
            return (a[1],)
        return None

    def sh_linspace(self, v, kw):
        return (v.args[2],) if len(v.args) == 3 else None

    def sh_stackrow(self, v, kw):
        s = self.shape(v.args[0])
        return None if s is None else (v.args[1],) + s

    def sh_stack(self, v, kw):
        t = v.args[0]
        if not isinstance(t, Tup) or not t.items:
            return None
        s = self.shape(t.items[0])
        d = kw.get("dim", Const(0))
        if s is None or not isinstance(d, Const):
            return None
        k = d.v if d.v >= 0 else d.v + len(s) + 1
        return s[:k] + (Const(len(t.items)),) + s[k:]

    def sh_cat(self, v, kw):
        t = v.args[0]
        d = kw.get("dim", Const(0))
        if not isinstance(t, Tup) or not isinstance(d, Const):
            return None
        ss = [self.shape(x) for x in t.items]
        if any(s is None for s in ss) or not ss:
            return None
        k = d.v if d.v >= 0 else d.v + len(ss[0])
        if any(k >= len(s) for s in ss):
            return None
        ds = [s[k] for s in ss]
        if all(isinstance(x, Const) for x in ds):
            n = Const(sum(x.v for x in ds))
        else:
            n = App("dimsum", ds) if len(ds) > 1 else ds[0]
        return ss[0][:k] + (n,) + ss[0][k + 1:]

    def sh_range(self, v, kw):
        a, b, s = v.args
        if is_const(a, 0) and is_const(s, 1):
            return (b,)
        return None

    def sh_umod(self, v, kw):
        s = self.shape(v.args[-1])
        out = kw.get("out")
        if s is None or not s:
            return None
        if out is NONE:
            return s[:-1]
        return s[:-1] + (out,) if out is not None else s

    def sh_indexof(self, v, kw):
        return ()

    def sh_listat(self, v, kw):
        e = v.args[0]
        return self.shape(e.args[1]) if isinstance(e, App) and \
            e.op == "each" else None

    def sh_cvxval(self, v, kw):
        return self.shape(v.args[0])

    def sh_array_list(self, v, kw):
        return self.shape(v.args[0])

    def sh_diag(self, v, kw):
        return None

    def sh_sk_fit_transform(self, v, kw):
        s = self.shape(v.args[1])
        if v.args[0].v == "LabelEncoder":
            return s
        if v.args[0].v == "OneHotEncoder" and s and len(s) == 2 and \
                getattr(self, "nclasses", None):
            return (s[0], Const(self.nclasses))
        return None

    sh_sk_transform = sh_sk_fit_transform

    def sh_sk_inverse_transform(self, v, kw):
        s = self.shape(v.args[1])
        if s and v.args[0].v == "LabelEncoder":
            return s
        if s and v.args[0].v == "OneHotEncoder":
            return (s[0], ONE)
        return None

    def sh_unique(self, v, kw):
        n = getattr(self, "nclasses", None)
        return (Const(n),) if n else None

    def sh_setitem(self, v, kw):
        return self.shape(v.args[0])

    def sh_torch_Tensor(self, v, kw):
        return self.shape(v.args[0])
