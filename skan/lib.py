"""Models of the external libraries the analysed package relies on
(torch, numpy, scikit-learn, cvxpy, standard library)."""
import math
import re

from .values import (V, Const, Sym, App, Ite, Tup, Ref, Fn, Bound, Cls, Mod,
                     Ext, Prop, BMeth, NONE, TRUE, FALSE, UNDEF, is_const,
                     is_num, walk, rebuild)
from .heap import ite
from .interp import Unsupported, AbsRaise
from .core import Core, ZEROC, ONEC, ALIAS, TRANSP
from .shapes import Shapes, dimprod, ONE

# numpy functions writing to their first argument
WRITERS = frozenset("""copyto put place putmask fill_diagonal put_along_axis
shuffle""".split())

FULL = App("slice", (NONE, NONE, NONE))

E1 = {}
for _n in """exp log sqrt abs sin cos tanh sigmoid relu log1p expm1 square sign
floor ceil round isnan isinf isfinite neg logical_not erf reciprocal
softplus logsigmoid""".split():
    E1[_n] = _n
E1.update(absolute="abs", negative="neg", expit="sigmoid", negative_="neg",
          fabs="abs", rsqrt="rsqrt", invert="logical_not", logistic="softplus",
          log_expit="logsigmoid", bitwise_not="logical_not")

E2 = {}
for _n in """add sub mul div pow maximum minimum logaddexp matmul eq lt le
logical_and logical_or atan2 xlogy mod""".split():
    E2[_n] = _n
E2.update(subtract="sub", multiply="mul", divide="div", true_divide="div",
          power="pow", float_power="pow", fmax="maximum", fmin="minimum",
          mm="matmul", mv="matmul", bmm="matmul", dot="matmul",
          inner="matmul", remainder="mod", fmod="mod",
          bitwise_and="bitand", bitwise_or="bitor")
CMP = {"eq": "eq", "equal": "eq", "ne": "ne", "lt": "lt", "le": "le", "gt": "gt", "ge": "ge",
       "greater": "gt", "less": "lt", "greater_equal": "ge",
       "less_equal": "le", "not_equal": "ne"}

# reductions: positional parameter names after the array, per family
RED = {}
for _n in "sum mean prod any all logsumexp var std amax amin median".split():
    RED[_n] = _n
RED.update(max="max", min="min", argmax="argmax", argmin="argmin",
           nansum="nansum", nanmean="nanmean")

KWREN = {"axis": "dim", "keepdims": "keepdim", "other": "other"}

DIST = {
    "Normal": ("loc", "scale"), "Laplace": ("loc", "scale"),
    "Cauchy": ("loc", "scale"), "Gumbel": ("loc", "scale"),
    "MultivariateNormal": ("loc", "covariance_matrix", "precision_matrix",
                           "scale_tril"),
    "Bernoulli": ("probs", "logits"), "Uniform": ("low", "high"),
    "TransformedDistribution": ("base", "transforms"),
    "AffineTransform": ("loc", "scale"),
    "Independent": ("base", "n"),
}

MODLOSS = {"MSELoss": "mse_loss", "L1Loss": "l1_loss",
           "HuberLoss": "huber_loss", "SmoothL1Loss": "smooth_l1_loss",
           "CrossEntropyLoss": "cross_entropy", "NLLLoss": "nll_loss",
           "BCEWithLogitsLoss": "binary_cross_entropy_with_logits",
           "BCELoss": "binary_cross_entropy",
           "SoftMarginLoss": "soft_margin_loss"}
MODACT = {"Tanh": "tanh", "ReLU": "relu", "Sigmoid": "sigmoid",
          "Softplus": "softplus", "LogSigmoid": "logsigmoid"}

RNG_TORCH = {"rand", "randn", "randint", "randperm", "normal", "bernoulli",
             "multinomial", "rand_like", "randn_like", "poisson"}

CREATE = {"zeros", "ones", "empty", "rand", "randn"}

EXC_LIKE = ("Error", "Warning", "Exception", "Iteration", "Exit")


def const_dim(v):
    return v


class Lib(Core, Shapes):

    def __init__(self, root, package="skwdro"):
        self.shapememo = {}
        self.shape_errors = []
        self.ndraw = 0
        self.nstep = 0
        self.kmemo = {}
        self.stepped = {}
        super().__init__(root, package)

    # =============================================================== typing
    def lib_issubclass(self, c, t):
        TENS = ("torch.Tensor", "torch.nn.Parameter",
                "torch.nn.parameter.Parameter")
        if c in TENS and t in TENS:
            return t == "torch.Tensor" or c == t or (
                c in TENS[1:] and t in TENS[1:])
        if c == "torch.nn.Parameter" and t.endswith("Buffer"):
            return False
        num = {"builtins.int": {"numbers.Number", "numbers.Integral",
                                "numbers.Real"},
               "builtins.float": {"numbers.Number", "numbers.Real"},
               "builtins.bool": {"builtins.int", "numbers.Number",
                                 "numbers.Integral"}}
        if c in num:
            return t in num[c]
        if c == "torch.Size" and t == "builtins.tuple":
            return True
        if c in ("builtins.list", "builtins.tuple", "builtins.dict",
                 "builtins.str", "builtins.NoneType", "builtins.set",
                 "builtins.function"):
            last = t.rsplit(".", 1)[-1]
            if t.startswith("builtins."):
                return False
            if last in ("Sequence", "Collection"):
                return c in ("builtins.list", "builtins.tuple",
                             "builtins.str")
            if last == "Iterable":
                return c not in ("builtins.NoneType", "builtins.function")
            if last in ("Mapping", "MutableMapping"):
                return c == "builtins.dict"
            if last == "Callable":
                return c == "builtins.function"
            return False
        if c in TENS + ("numpy.ndarray",):
            return False
        if c.startswith("torch.distributions.") and \
                t.rsplit(".", 1)[-1] == "Distribution":
            return "AffineTransform" not in c
        if c.startswith("torch.nn.") and t in (
                "torch.nn.Module", "torch.nn.modules.module.Module"):
            return True
        if c.startswith("torch.optim.") and t.rsplit(".", 1)[-1] == \
                "Optimizer":
            return ".lr_scheduler." not in c
        if c.startswith("user.") and t == "torch.nn.Module":
            return True
        if c.startswith("userfunc."):
            return t.rsplit(".", 1)[-1] in ("Callable", "FunctionType")
        if c.startswith("torch.nn.") and t.startswith("torch.nn."):
            return c == t
        if c.startswith("torch.distributions.") and \
                t.startswith("torch.distributions."):
            return c == t
        if c.startswith("sklearn.preprocessing.") and \
                t.startswith("sklearn.preprocessing."):
            return c.rsplit(".", 1)[-1] == t.rsplit(".", 1)[-1]
        if t.startswith("builtins."):
            return False
        return None

    NPOPS = frozenset(("numpy", "array", "asarray"))

    def app_type(self, v):
        k = self.kindmemo(v)
        return {"torch": "torch.Tensor", "numpy": "numpy.ndarray"}.get(k)

    def kindmemo(self, v):
        """'torch' / 'numpy' / None for array valued terms."""
        f = self.facts.get(v)
        if f and f.get("type"):
            return {"torch.Tensor": "torch", "numpy.ndarray": "numpy",
                    "torch.nn.Parameter": "torch"}.get(f["type"])
        if isinstance(v, Ref):
            o = self.st.heap.get(v.oid)
            return "torch" if o is not None and o.kind == "param" else None
        if isinstance(v, Ite):
            a = self.kindmemo(v.a)
            return a if a == self.kindmemo(v.b) else None
        if not isinstance(v, App):
            return None
        m = self.kmemo.get(v)
        if m is not None:
            return m or None
        self.kmemo[v] = ""
        r = self._kind(v)
        self.kmemo[v] = r or ""
        return r

    def _kind(self, v):
        o = v.op
        kw = dict(v.kw)
        if "lib" in kw and isinstance(kw["lib"], Const):
            return kw["lib"].v
        if o in ("numpy", "array", "asarray", "npcopy", "valid", "cvxval"):
            return "numpy"
        if o in ("tensor", "as_tensor", "from_numpy", "torch_Tensor", "par",
                 "rsample", "sample", "log_prob", "row", "stackrow", "grad",
                 "linear", "param_init", "umod"):
            return "torch"
        if o in ("item", "float", "int", "sizeof", "len", "dimprod",
                 "tolist", "shape", "size", "dist", "partial", "call",
                 "xcall", "attr", "is", "isinstance"):
            return None
        if o == "loopvar":
            return self.kindmemo(v.args[2])
        if o == "loopres":
            return self.kindmemo(v.args[1])
        for a in v.args:
            k = self.kindmemo(a)
            if k:
                return k
            if isinstance(a, Tup):
                for x in a.items:
                    k = self.kindmemo(x)
                    if k:
                        return k
        return None

    # ========================================================== ext lookups
    def ext(self, name):
        return Ext(self.canon(name))

    def canon(self, name):
        for a, b in (("torch.func.", "torch.func."),
                     ("torch._functorch.apis.", "torch.func."),
                     ("torch._functorch.eager_transforms.", "torch.func."),
                     ("torch._functorch.functional_call.", "torch.func."),
                     ("functorch.", "torch.func."),
                     ("torch.nn.parameter.", "torch.nn."),
                     ("torch.nn.modules.module.Module", "torch.nn.Module"),
                     ("torch.optim.optimizer.", "torch.optim."),
                     ("torch.distributions.transforms.",
                      "torch.distributions."),
                     ("torch.nn.modules.loss.", "torch.nn."),
                     ("torch.nn.modules.", "torch.nn."),
                     ("torch.special.", "torch."),
                     ("torch.types.", "torch."),
                     ("scipy.special.", "numpy.")):
            if name.startswith(a):
                name = b + name[len(a):]
        if name == "torch.nn.utils.stateless.functional_call":
            name = "torch.func.functional_call"
        return name

    def ext_attr(self, v, name):
        full = self.canon(v.name + "." + name)
        c = {"math.inf": math.inf, "torch.inf": math.inf,
             "numpy.inf": math.inf, "torch.nan": math.nan,
             "numpy.nan": math.nan, "math.nan": math.nan,
             "math.pi": math.pi, "numpy.pi": math.pi, "torch.pi": math.pi,
             "numpy.newaxis": None}
        if full in c:
            return Const(c[full])
        if name == "__name__":
            return Const(v.name.rsplit(".", 1)[-1])
        if name in ("__all__",):
            return self.new_list([])
        return Ext(full)

    # ================================================================ calls
    def ext_call(self, name, a, kw):
        name = self.canon(name)
        last = name.rsplit(".", 1)[-1]
        if last in ("__setattr__", "__getattribute__", "__delattr__") and \
                len(a) > 1 and isinstance(a[0], Ref) and isinstance(
                    a[1], Const):
            if last == "__getattribute__":
                return self.get_attr(a[0], a[1].v)
            if last == "__delattr__":
                self.del_attr(a[0], a[1].v)
            else:
                self.set_attr(a[0], a[1].v, a[2])
            return NONE
        if name.startswith("builtins."):
            n = name[9:]
            h = getattr(self, "b_" + n, None)
            if h is not None:
                return h(a, kw)
            if n.endswith(EXC_LIKE) or n in ("Exception", "BaseException"):
                return self.make_exc(name, *a)
            if n == "super":
                return self.make_super(a)
            if n == "property":
                return Prop("property", a[0], *(a[1:2] or ()))
            return self.op_call(Ext(name), a, kw)
        h = self.CALLS.get(name)
        if h is not None:
            return h(self, a, kw)
        parts = name.split(".")
        last = parts[-1]
        top = parts[0]
        if last.endswith(EXC_LIKE):
            return self.make_exc(name, *a)
        if name.startswith("torch.distributions.") and last in DIST:
            return self.make_dist(last, a, kw)
        if name.startswith("torch.optim.lr_scheduler."):
            return self.alloc("ext", Ext(name), {"%opt": a[0] if a else
                                                 kw.get("optimizer", NONE)})
        if name.startswith("torch.optim.") or last in (
                "Prodigy", "Mechanized"):
            return self.make_optim(name, a, kw)
        if name.startswith("torch.nn.functional."):
            r = self.functional(last, a, kw)
            if r is not None:
                return r
        if name.startswith("torch.nn.init."):
            return self.nn_init(last, a, kw)
        if name.startswith("torch.nn.") and last[:1].isupper():
            return self.make_module(name, last, a, kw)
        if name.startswith("torch.autograd.") and last == "grad":
            return self.autograd_grad(a, kw)
        if name.startswith("numpy.random.") or (top == "random"):
            return self.np_random(name, last, a, kw)
        if top == "torch" and last in RNG_TORCH and len(parts) == 2:
            return self.torch_random(last, a, kw)
        if name.startswith("numpy.linalg.") or name.startswith(
                "torch.linalg."):
            if last in ("norm", "vector_norm"):
                return self.do_norm(a, kw, last)
        if top in ("torch", "numpy", "math", "scipy", "cvxpy", "operator"):
            if name.startswith("torch.Tensor.") and a:
                return self.method_call(a[0], last, a[1:], kw)
            r = self.array_fn(top, last, a, kw)
            if r is not None:
                return r
        if name.startswith("sklearn."):
            r = self.sk_call(name, last, a, kw)
            if r is not None:
                return r
        if top == "cvxpy":
            r = self.cvx_call(last, a, kw)
            if r is not None:
                return r
        if top in ("warnings", "logging"):
            if last in ("warn", "warning", "warn_explicit"):
                cat = a[1] if len(a) > 1 else kw.get(
                    "category", Ext("builtins.UserWarning"))
                self.ev("warn", args=tuple(a), cat=cat)
            return NONE
        if top == "typing" or top == "typing_extensions":
            if last == "cast":
                return a[1]
            return App("typing", (Const(name),))
        if top == "re":
            r = self.regex(name, None, a, kw)
            if r is not None:
                return r
        if top == "functools":
            if last == "partial":
                return App("partial", a, kw)
            if last == "reduce":
                its = self.known_items(a[1], consume=True)
                if its is not None:
                    if len(a) > 2:
                        r = a[2]
                    else:
                        r, its = its[0], its[1:]
                    for x in its:
                        r = self.call(a[0], [r, x], {})
                    return r
            if last in ("wraps", "update_wrapper"):
                return App("wrapsdec", ()) if last == "wraps" else a[0]
            if last in ("lru_cache", "cache"):
                return App("extdec", ())
        if top == "itertools":
            r = self.itertools(last, a, kw)
            if r is not None:
                return r
        if top == "copy" or name == "sklearn.base.clone":
            return self.deepcopy(a[0], last)
        if top == "operator":
            if last in ("attrgetter", "itemgetter") and all(
                    isinstance(x, Const) for x in a):
                return App("opgetter", [Const(last)] + list(a))
        if top == "dataclasses" and last == "field":
            if "default_factory" in kw:
                return self.call(kw["default_factory"], [], {})
            return kw.get("default", NONE)
        if top == "dataclasses" and last == "replace":
            new = self.deepcopy(a[0], "copy")
            for k, v in kw.items():
                self.set_attr(new, k, v)
            return new
        if top == "collections":
            if last == "OrderedDict":
                return self.b_dict(a, kw)
            if last == "deque":
                return self.b_list(a[:1], {})
            if last == "defaultdict":
                return self.new_dict([])
        if top == "contextlib":
            return App("xcall", (Const(name),) + tuple(a))
        if name in ("abc.ABC",):
            return NONE
        self.note_opaque(name)
        self.ev("extcall", name=name, args=tuple(a), kw=dict(kw))
        return App("xcall", (Const(name),) + tuple(
            self.freeze(x) for x in a),
            {k: self.freeze(v) for k, v in kw.items()})

    # ------------------------------------------------------- array functions
    def rewritten(self, top, name, a, kw):
        """functions that are short for products, sums and views"""
        op = self.op
        if name == "einsum" and len(a) > 1 and isinstance(a[0], Const):
            return self.einsum(str(a[0].v), a[1:])
        if name == "outer" and len(a) == 2 and \
                self.rank(a[0]) == self.rank(a[1]) == 1:
            return self.einsum("i,j->ij", a)
        if name == "vdot" and len(a) == 2:
            return op("matmul", a)
        if name == "tensordot" and len(a) >= 2 and is_const(
                kw.get("dims", kw.get("axes", a[2] if len(a) > 2 else
                                      NONE)), 1):
            return op("matmul", a[:2])
        if name in ("addcmul", "addcdiv") and len(a) >= 3:
            q = self.binop("mul" if name == "addcmul" else "div", a[1], a[2])
            if "value" in kw:
                q = self.binop("mul", kw["value"], q)
            return self.binop("add", a[0], q)
        if name in ("addmm", "addmv") and len(a) == 3 and not kw:
            return self.binop("add", a[0], op("matmul", a[1:]))
        if name == "lerp" and len(a) + len(kw) == 3:
            w = a[2] if len(a) > 2 else kw["weight"]
            return self.binop("add", a[0], self.binop(
                "mul", w, self.binop("sub", a[1], a[0])))
        if name in ("log2", "log10") and a:
            return self.binop("div", op("log", a[:1]), op("log", (Const(
                2 if name == "log2" else 10),)))
        if name == "hypot" and len(a) == 2:
            return op("sqrt", (self.binop("add", *(op("square", (x,))
                                                   for x in a)),))
        if name == "sgn":
            return op("sign", a[:1])
        if name == "dist" and len(a) >= 2:
            return self.do_norm([self.binop("sub", a[0], a[1])] + list(
                a[2:]), kw, "norm", top)
        if name == "average" and "weights" not in kw and len(a) < 3:
            return self.do_reduce("mean", a, kw, top)
        if name == "ndim" and len(a) == 1:
            n = self.rank(a[0])
            return Const(n) if n is not None else op("dim", a)
        if name in ("repeat", "tile") and top == "torch" or \
                name == "tile" and top == "numpy":
            n = self.rank(a[0])
            k = self.shape_args(a[1:] or [kw.get("dims", kw.get(
                "reps", NONE))])
            if n is not None and len(k) > n and all(
                    is_const(x, 1) for x in k[len(k) - n:]):
                return op("expand", [a[0]] + list(k[:len(k) - n]) + list(
                    self.shape(a[0])))
        if name in ("atleast_1d", "atleast_2d") and len(a) == 1:
            n = self.rank(a[0])
            if n is not None and n >= int(name[-2]):
                return a[0]
            if n == 0:
                return op("reshape", [a[0]] + [ONEC] * int(name[-2]))
            if n == 1:
                return op("unsqueeze", (a[0],), {"dim": ZEROC})
        if name == "normalize" and a:
            b = self.sigbind(("p", "dim", "eps"), a[1:], kw)
            nr = self.do_norm([a[0]], {
                "p": b.get("p", Const(2.)), "dim": b.get("dim", ONEC),
                "keepdim": TRUE}, "norm", top)
            return self.binop("div", a[0], op("maximum", (
                nr, b.get("eps", Const(1e-12)))))
        if name == "index_select" and len(a) == 3 and isinstance(a[1], Const) \
                and self.rank(a[0]) is not None and a[1].v >= 0:
            return self.get_item(a[0], Tup([FULL] * a[1].v + [a[2]]))
        if name == "copysign" and is_const(a[0], 1):
            return op("where", (self.compare("ge", a[1], ZEROC), ONEC,
                                Const(-1)))
        if name == "unbind" and a:
            b = self.sigbind(("dim",), a[1:], kw)
            s = self.shape(a[0])
            d = self.norm_dim(b.get("dim", ZEROC), a[0])
            if s is not None and isinstance(d, Const) and isinstance(
                    s[d.v], Const):
                return Tup(self.get_item(a[0], Tup([FULL] * d.v + [Const(i)]))
                           for i in range(s[d.v].v))
        return None

    def einsum(self, spec, xs):
        """explicit sum of products over named axes"""
        lhs, arrow, out = spec.replace(" ", "").partition("->")
        parts = lhs.split(",")
        xs = list(xs)
        if len(xs) == 1 and self.known_items(xs[0]) is not None:
            xs = self.known_items(xs[0])
        if not arrow:
            out = "".join(sorted(c for c in set(lhs) - {","}
                                 if lhs.count(c) == 1))
        if "." in spec or len(parts) != len(xs) or any(
                len(set(p)) != len(p) or self.rank(x) != len(p)
                for p, x in zip(parts, xs)):
            return None
        summed = [c for c in dict.fromkeys(lhs) if c not in out + ","]
        order = out + "".join(summed)
        r = None
        for p, x in zip(parts, xs):
            perm = sorted(range(len(p)), key=lambda i: order.index(p[i]))
            if perm != list(range(len(p))):
                x = self.op("permute", (x,), {
                    "dims": Tup(Const(i) for i in perm)})
            have = [p[i] for i in perm]
            for i, c in enumerate(order):
                if c not in have:
                    x = self.op("unsqueeze", (x,), {"dim": Const(i)})
            r = x if r is None else self.binop("mul", r, x)
        if summed:
            r = self.op("sum", (r,), {"dim": Tup(
                Const(len(out) + i) for i in range(len(summed)))
                if len(summed) > 1 else Const(len(out)), "keepdim": FALSE})
        return r

    def rank(self, v):
        s = self.shape(v)
        return None if s is None else len(s)

    def norm_dim(self, d, v, extra=0):
        """canonical non-negative dims when the rank is known"""
        if d is None:
            return NONE
        if isinstance(d, Ref):
            its = self.known_items(d)
            d = Tup(its) if its is not None else d
        n = self.rank(v)
        if n is None or d is NONE:
            return d
        if isinstance(d, Tup):
            return Tup(self.norm_dim(x, v) for x in d.items) \
                if len(d.items) != 1 else self.norm_dim(d.items[0], v)
        if isinstance(d, Const) and isinstance(d.v, int) and d.v < 0:
            return Const(d.v + n + extra)
        return d

    def sigbind(self, names, a, kw):
        out = {}
        for n, x in zip(names, a):
            out[n] = x
        for k, x in kw.items():
            out[KWREN.get(k, k)] = x
        return out

    def array_fn(self, top, name, a, kw):
        """numpy/torch/math/cvxpy function on array arguments."""
        kw = {KWREN.get(k, k): v for k, v in kw.items()}
        outbuf = kw.pop("out", None)
        kw.pop("where", None) if top == "numpy" and "where" in kw and \
            is_const(kw["where"], True) else None
        for drop in ("dtype", "device", "validate_args", "non_blocking",
                     "pin_memory", "layout", "subok", "order",
                     "memory_format"):
            if drop == "dtype":
                kw.pop("dtype", None)
            else:
                kw.pop(drop, None)
        if "input" in kw:
            a = [kw.pop("input")] + list(a)
        elif "x" in kw and not a:
            a = [kw.pop("x")]
        elif "self" in kw and not a:
            a = [kw.pop("self")]
        if top == "numpy" and outbuf is None and name not in (
                "round", "log") and len(a) == (
                    3 if name in E2 else 2 if name in E1 else 0):
            outbuf = a[-1]
            a = a[:-1]
        if name in WRITERS and a and top == "numpy":
            self.inplace(a[0], self.op("inplaced", [a[0], Const(name)] + [
                x for x in a[1:]]), name)
            return NONE
        if name == "nan_to_num" and is_const(kw.get("copy", TRUE), False):
            outbuf = a[0]
        if name.endswith("_") and top == "torch" and a and \
                self.is_arraylike(a[0]) and name != "requires_grad_" and \
                not name.startswith("_") and name not in (
                    "zeros_", "ones_", "constant_"):
            return self.array_method(a[0], name, list(a[1:]), kw)
        if is_const(kw.pop("inplace", FALSE), True) and a:
            outbuf = a[0]
        r = self._array_fn(top, name, a, kw)
        if r is not None and outbuf is not None and outbuf is not NONE:
            self.inplace(outbuf, r, "out=")
        return r

    def _array_fn(self, top, name, a, kw):
        if top == "math" and all(is_num(x) for x in a):
            f = getattr(math, name, None)
            if callable(f):
                try:
                    return Const(f(*[x.v for x in a]))
                except Exception as e:
                    self.raise_(type(e).__name__)
        if name in CMP and len(a) == 2 and top != "operator" and not (
                name == "equal" and top == "torch"):
            return self.compare(CMP[name], a[0], a[1])
        if name in E1 and a:
            if name == "round" and len(a) > 1:
                return self.op("round", a)
            if name == "log" and top == "math" and len(a) == 2:
                return self.op("div", (self.op("log", (a[0],)),
                                       self.op("log", (a[1],))))
            if name == "softplus" and (len(a) > 1 or kw):
                b = self.sigbind(("beta", "threshold"), a[1:], kw)
                if not is_const(b.get("beta", ONEC), 1) and not is_const(
                        b.get("beta", ONEC), 1.0):
                    return self.op("softplus_b", a, kw)
            return self.op(E1[name], a[:1])
        if name in E2 and len(a) + len(
                [k for k in kw if k == "other"]) >= 2:
            if "other" in kw:
                a = list(a) + [kw.pop("other")]
            if name in ("add", "sub", "subtract") and "alpha" in kw:
                a = [a[0], self.binop("mul", kw["alpha"], a[1])]
            if E2[name] == "matmul" and name in ("dot", "inner"):
                if self.rank(a[0]) == 0 or self.rank(a[1]) == 0:
                    return self.binop("mul", a[0], a[1])
            if name in ("div",) and kw.get("rounding_mode") not in (
                    None, NONE):
                return self.op("floordiv", a)
            if E2[name] in ("add", "sub", "mul", "div", "pow", "mod"):
                return self.binop(E2[name], a[0], a[1])
            return self.op(E2[name], a[:2])
        if name == "exponent":
            return None
        if name == "pow" and "exponent" in kw:
            return self.binop("pow", a[0], kw["exponent"])
        if name in ("norm", "vector_norm"):
            return self.do_norm(a, kw, name, top)
        if name in RED and a:
            if name in ("max", "min") and (
                    len(a) >= 2 and not (isinstance(a[1], Const)
                                         and isinstance(a[1].v, int)
                                         and top == "torch"
                                         and not isinstance(a[1].v, bool))
                    or "other" in kw):
                if top == "torch":
                    b = a[1] if len(a) > 1 else kw["other"]
                    return self.op("maximum" if name == "max" else
                                   "minimum", (a[0], b))
            return self.do_reduce(RED[name], a, kw, top)
        if name in ("quantile",):
            return self.op("quantile", a, kw)
        if name == "array_equal" or name == "equal" and top == "torch":
            x, y = self.freeze(a[0]), self.freeze(a[1])
            s, t = self.shape(x), self.shape(y)
            if s is not None and t is not None and (
                    len(s) != len(t) or any(
                        isinstance(i, Const) and isinstance(j, Const)
                        and i is not j for i, j in zip(s, t))):
                return FALSE
            if s is not None and s == t:
                return self.op("all", (self.compare("eq", x, y),),
                               {"dim": NONE, "keepdim": FALSE})
            return self.op("f_" + name, (x, y))
        if name == "count_nonzero":
            b = self.sigbind(("dim",), a[1:], kw)
            return self.op("count_nonzero", (a[0],), {
                "dim": b.get("dim", b.get("axis", NONE)),
                "keepdim": b.get("keepdims", FALSE)})
        if name in ("clamp", "clip"):
            b = self.sigbind(("min", "max"), a[1:], kw)
            lo = b.get("min", b.get("a_min", NONE))
            hi = b.get("max", b.get("a_max", NONE))
            r = a[0]
            if lo is not NONE:
                r = self.op("maximum", (r, lo))
            if hi is not NONE:
                r = self.op("minimum", (r, hi))
            return r
        if name in ("clamp_min", "clamp_max"):
            return self.op("maximum" if name == "clamp_min" else "minimum",
                           (a[0], a[1] if len(a) > 1 else
                            kw.get("min", kw.get("max"))))
        if name == "where" and len(a) == 3:
            c = self.freeze(a[0])
            if self.is_scalar(c):
                d = self.decide(self.truth(c))
                if d is not None:
                    return self.freeze(a[1] if d else a[2])
            return self.op("where", a)
        if name in ("tensor", "scalar_tensor"):
            return self.mk_tensor(a[0], kw)
        if name in ("as_tensor", "asarray", "from_numpy", "ascontiguousarray",
                    "asanyarray"):
            if top == "numpy" and name != "from_numpy":
                return self.mk_array(a[0], "asarray")
            if isinstance(a[0], Ref) and self.obj(a[0]).kind == "param":
                return a[0]
            if self.kindmemo(a[0]) == "torch":
                return a[0]
            if isinstance(a[0], (Const,)) or self.is_list(a[0]) or \
                    isinstance(a[0], Tup):
                return self.mk_tensor(a[0], kw)
            return self.op("as_tensor", (a[0],))
        if name in ("Tensor", "FloatTensor", "DoubleTensor") \
                and top == "torch":
            if not a:
                return self.op("zeros", (ZEROC,), {"lib": Const("torch")})
            if len(a) > 1 or (isinstance(a[0], Const)
                              and isinstance(a[0].v, int)):
                return self.op("empty", a, {"lib": Const("torch")})
            if self.kindmemo(a[0]) == "torch":
                return self.op("detach", (a[0],))
            return self.op("torch_Tensor", (self.arr_data(a[0]),))
        if name == "array" and top == "numpy":
            cp = kw.get("copy")
            if cp is not None and is_const(cp, False):
                return self.mk_array(a[0], "asarray")
            return self.mk_array(a[0], "array")
        if name == "copy" and top == "numpy":
            return self.mk_array(a[0], "array")
        if name == "shape" and top == "numpy":
            return self.shape_value(a[0])
        if name in ("zeros", "ones", "empty"):
            if "size" in kw:
                a = [kw.pop("size")]
            if "shape" in kw:
                a = [kw.pop("shape")]
            kw.pop("requires_grad", None)
            return self.op(name, self.shape_args(a),
                           {"lib": Const("torch" if top == "torch"
                                         else "numpy")})
        if name in ("zeros_like", "ones_like", "empty_like"):
            return self.op(name, a[:1])
        if name == "full" or name == "full_like":
            return self.op(name, a[:2] if len(a) > 1 else
                           [a[0], kw.get("fill_value", NONE)])
        if name == "eye":
            return self.op("eye", a, {"lib": Const(
                "torch" if top == "torch" else "numpy")})
        if name in ("arange", "linspace"):
            return self.op(name, a, {"lib": Const(
                "torch" if top == "torch" else "numpy")})
        if name == "Size":
            its = self.known_items(a[0]) if a else []
            if its is not None:
                return App("size", its)
            if self.is_list(a[0]) or isinstance(a[0], App):
                return self.op("mksize", (a[0],))
        if name in ("broadcast_tensors", "broadcast_arrays"):
            t = self.freeze(a[0])
            for x in a[1:]:
                t = App("add", (t, self.freeze(x)))
            sh = self.shape(t)
            if sh is None:
                return Tup(a)
            return Tup([x if self.shape(self.freeze(x)) == sh else
                        self.method_call(x, "expand", list(sh), {})
                        for x in a])
        if name == "stack":
            its = self.items_of(a[0], consume=True)
            d = self.sigbind(("dim",), a[1:], kw)
            if d.get("dim", ZEROC) is ZEROC:
                r = self.lift_list(Tup(self.freeze(x) for x in its))
                if not isinstance(r, Tup):
                    return r
            return self.op("stack", (Tup(its),), d)
        if name in ("cat", "concat", "concatenate", "hstack", "vstack",
                    "row_stack", "column_stack", "append"):
            if name == "append":
                its = [a[0], a[1]]
                d = {"dim": a[2]} if len(a) > 2 else {
                    "dim": kw.get("dim", NONE)}
            else:
                src = a[0] if a else kw.get("tensors", kw.get("arrays"))
                its = self.items_of(src, consume=True)
                d = self.sigbind(("dim",), a[1:], kw)
            if name in ("hstack", "vstack", "row_stack", "column_stack"):
                return self.np_stack(name, its)
            return self.op("cat", (Tup(its),),
                           {"dim": d.get("dim", ZEROC)})
        if name in ("unsqueeze", "expand_dims"):
            b = self.sigbind(("dim",), a[1:], kw)
            return self.op("unsqueeze", (a[0],), {"dim": self.norm_dim(
                b["dim"], a[0], 1)})
        if name == "squeeze":
            b = self.sigbind(("dim",), a[1:], kw)
            return self.op("squeeze", (a[0],), {"dim": self.norm_dim(
                b.get("dim", NONE), a[0])})
        if name in ("reshape", "view"):
            b = list(a[1:]) or [kw.get("shape", kw.get("newshape", NONE))]
            return self.op("reshape", [a[0]] + self.shape_args(b))
        if name in ("flatten", "ravel"):
            b = self.sigbind(("start", "end"), a[1:], kw)
            b = {"start": b.get("start", b.get("start_dim", ZEROC)),
                 "end": b.get("end", b.get("end_dim", Const(-1)))}
            if top == "numpy":
                b = {"start": ZEROC, "end": Const(-1)}
                if name == "flatten":       # a copy, unlike ravel
                    return self.op("clone", (self.op("flatten", (
                        self.freeze(a[0]),), b),))
            return self.op("flatten", (a[0],), b)
        if name in ("transpose", "swapaxes", "swapdims"):
            if top == "numpy" and name == "transpose" and len(a) == 1:
                return self.op("T", (a[0],))
            b = self.sigbind(("dim0", "dim1"), a[1:], kw)
            return self.op("transpose", (a[0],), {
                k: self.norm_dim(v, a[0]) for k, v in b.items()})
        if name == "t":
            return self.op("T", (a[0],))
        if name == "permute":
            d = a[1] if len(a) == 2 else Tup(a[1:]) if len(a) > 2 else \
                kw.get("dims", NONE)
            return self.op("permute", (a[0],), {
                "dims": self.norm_dim(d, a[0])})
        if name == "expand" or name == "broadcast_to":
            return self.op("expand", [a[0]] + self.shape_args(a[1:]))
        if name in ("softmax", "log_softmax"):
            b = self.sigbind(("dim",), a[1:], kw)
            return self.op(name, (a[0],), {"dim": self.norm_dim(
                b.get("dim", b.get("axis", NONE)), a[0])})
        if name in ("sort",):
            if top == "torch":
                return Tup((self.op("sort", a[:1], kw),
                            self.op("argsort", a[:1], kw)))
            return self.op("sort", a[:1], kw)
        if name in ("numel", "size") and top == "numpy" or name == "numel":
            s = self.shape(a[0])
            return dimprod(s) if s else self.op("numel", (a[0],))
        if name == "unique":
            return self.op("unique", (a[0],))
        r = self.rewritten(top, name, a, kw)
        if r is not None:
            return r
        if name in ("cov", "pinv", "inv", "eigvalsh", "cholesky", "diag",
                    "trace", "det", "outer", "cumsum", "quantile", "argsort",
                    "isclose", "allclose", "round", "einsum", "cdist",
                    "searchsorted", "count_nonzero", "nan_to_num", "diff",
                    "atleast_1d", "atleast_2d", "repeat", "tile", "flip",
                    "quad_form", "multiply", "tensordot", "erfinv", "hypot",
                    "tan", "triu", "tril", "kron", "addmm", "lerp",
                    "cross_entropy", "take", "gather", "ptp", "sum_squares",
                    "nonzero", "select", "narrow", "baddbmm", "is_tensor",
                    "logdet", "huber", "pos", "inv_pos"):
            if name == "is_tensor":
                return self.isinstance_(a[0], Ext("torch.Tensor"))
            if name == "pos":
                return self.op("relu", (a[0],))
            if name == "inv_pos":
                return self.op("div", (ONEC, a[0]))
            if name == "sum_squares":
                return self.op("sum", (self.op("square", (a[0],)),),
                               {"dim": NONE, "keepdim": FALSE})
            return self.op("f_" + name, [self.arr_data(x) for x in a], kw)
        if name in ("no_grad", "enable_grad", "inference_mode",
                    "set_grad_enabled"):
            return App("gradmode", (Const(name),) + tuple(a))
        if name == "vmap":
            return App("vmapfn", a[:1], self.sigbind(
                ("in_dims", "out_dims"), a[1:], kw))
        if name in ("float32", "float64"):
            return self.b_float(a, {})
        return None

    def shape_args(self, a):
        a = list(a)
        if len(a) == 1:
            its = self.known_items(a[0]) if isinstance(
                a[0], (Tup, Ref, App)) else None
            if its is not None:
                return its
        return [self.freeze(x) for x in a]

    def arr_data(self, v):
        """array contents from nested python lists"""
        if isinstance(v, Ref) and self.obj(v).kind == "list":
            it = self.obj(v).f["items"]
            if isinstance(it, Tup):
                return Tup(self.arr_data(x) for x in it.items)
        if isinstance(v, Tup):
            return Tup(self.arr_data(x) for x in v.items)
        return self.freeze(v)

    def mk_tensor(self, x, kw):
        d = self.arr_data(x)
        if isinstance(d, Tup):
            d = self.lift_list(d)
        rg = kw.get("requires_grad")
        if rg is not None and is_const(rg, True):
            return self.make_param(self.op("tensor", (d,)), TRUE,
                                   leaf=True)
        return self.op("tensor", (d,))

    def mk_array(self, x, op):
        if op == "asarray" and self.kindmemo(x) == "numpy":
            return x
        d = self.arr_data(x)
        if isinstance(d, Tup):
            d = self.lift_list(d)
        if op == "asarray" and self.is_arraylike(x):
            return self.op("asarray", (x,))
        return self.op("array", (d,))

    def lift_list(self, t):
        """a list with one value per row of an array, as an array"""
        if len(t.items) != 1 or not isinstance(t.items[0], App) or \
                t.items[0].op != "each":
            return t
        r = self.lift_each(t.items[0])
        return t if r is None else r

    def lift_each(self, e):
        src, body = e.args
        if isinstance(src, App) and src.op == "range":
            n = src.args[1] if src.args[0] is ZEROC and \
                src.args[2] is ONEC else None
        else:
            s = self.shape(src)
            n = s[0] if s else None
        if n is None or isinstance(body, Tup):
            return None

        def one(v):
            if isinstance(v, App) and v.op == "elem" and \
                    v.args[1] is ZEROC and v.args[0] is not UNDEF:
                s = self.shape(v.args[0])
                if s and s[0] is n and not (isinstance(
                        v.args[0], App) and v.args[0].op == "range"):
                    return App("row", (v.args[0],))
            if isinstance(v, App) and v.op == "getitem":
                k = v.args[1]
                s = self.shape(v.args[0])
                if isinstance(k, Tup) and k.items and all(
                        isinstance(x, App) and x.op == "slice" and all(
                            y is NONE for y in x.args)
                        for x in k.items[1:]):
                    k = k.items[0]
                if s and s[0] is n and isinstance(k, App) and \
                        k.op == "elem" and k.args[0] is src:
                    return App("row", (v.args[0],))
            return v
        r = rebuild(body, one)
        for x in walk(r):
            if isinstance(x, App) and x.op in ("elem", "each", "loopvar"):
                return None
            if isinstance(x, Ite) or isinstance(x, Ref) and not (
                    self.obj(x).kind == "param" or self.is_cvx(x)):
                return None
        if self.shape(r) is None:
            return None
        return self.op("stackrow", (r, n))

    def do_norm(self, a, kw, name, top=None):
        kw = {KWREN.get(k, k): v for k, v in kw.items()}
        names = ("p", "dim", "keepdim")
        b = self.sigbind(names, a[1:], {("p" if k == "ord" else k): v
                                        for k, v in kw.items()})
        p = b.get("p", NONE)
        if p is NONE or is_const(p, "fro"):
            p = Const(2)
        if isinstance(p, Const) and isinstance(p.v, str) and \
                p.v in ("inf",):
            p = Const(math.inf)
        x = a[0]
        return self.op("norm", (x,), {
            "p": p, "dim": self.norm_dim(b.get("dim", NONE), x),
            "keepdim": b.get("keepdim", FALSE)})

    def do_reduce(self, op, a, kw, top):
        b = self.sigbind(("dim", "keepdim"), a[1:], kw)
        x = a[0]
        if self.is_list(x) or isinstance(x, Tup):
            x = self.arr_data(x)
            if isinstance(x, Tup):
                x = self.lift_list(x)
        extra = {k: v for k, v in b.items() if k not in ("dim", "keepdim")}
        pair = op in ("max", "min", "median") and top == "torch"
        if op in ("amax", "amin"):
            op = op[1:]
        k = {"dim": self.norm_dim(b.get("dim", NONE), x),
             "keepdim": b.get("keepdim", FALSE)}
        k.update(extra)
        r = self.op(op, (x,), k)
        if pair and k["dim"] is not NONE:
            return Tup((r, self.op("arg" + op, (x,), k)))
        return r

    # ---------------------------------------------------- functional losses
    def functional(self, name, a, kw):
        if is_const(kw.get("inplace", FALSE), True) and a:
            kw = {k: v for k, v in kw.items() if k != "inplace"}
            r = self.functional(name, a, kw)
            if r is None:
                r = self._array_fn("torch", name, a, kw)
            if r is not None:
                self.inplace(a[0], r, "inplace=True")
            return r
        if name in ("mse_loss", "l1_loss", "huber_loss", "smooth_l1_loss",
                    "soft_margin_loss", "cross_entropy", "nll_loss",
                    "binary_cross_entropy_with_logits",
                    "binary_cross_entropy"):
            b = self.sigbind(("input", "target"), a, kw)
            if name in ("cross_entropy", "nll_loss"):
                pos = self.sigbind(("input", "target", "weight",
                                    "size_average", "ignore_index", "reduce",
                                    "reduction"), a, kw)
            elif name == "huber_loss":
                pos = self.sigbind(("input", "target", "reduction"), a, kw)
            else:
                pos = self.sigbind(("input", "target", "size_average",
                                    "reduce", "reduction"), a, kw)
            red = pos.get("reduction", Const("mean"))
            return self.loss_value(name, b["input"], b["target"], red, {
                k: v for k, v in pos.items() if k not in (
                    "input", "target", "reduction", "size_average",
                    "reduce")})
        if name == "softplus":
            b = self.sigbind(("input", "beta", "threshold"), a, kw)
            beta = b.get("beta", ONEC)
            if is_num(beta) and beta.v == 1:
                return self.op("softplus", (b["input"],))
            return self.op("softplus_b", (b["input"], beta))
        if name in ("relu", "sigmoid", "tanh", "logsigmoid"):
            return self.op(name, a[:1])
        if name in ("softmax", "log_softmax"):
            return self._array_fn("torch", name, a,
                                  {KWREN.get(k, k): v
                                   for k, v in kw.items()})
        if name == "linear":
            b = self.sigbind(("input", "weight", "bias"), a, kw)
            r = self.op("linear", (b["input"], b["weight"]))
            bb = b.get("bias", NONE)
            return r if bb is NONE else self.binop("add", r, bb)
        if name == "pairwise_distance":
            return self.op("f_pairwise_distance", a, kw)
        if name == "one_hot":
            return self.op("f_one_hot", a, kw)
        if name == "pad":
            return self.op("f_pad", a, kw)
        return None

    def loss_value(self, name, x, y, red, extra):
        if name == "mse_loss":
            r = self.op("square", (self.binop("sub", x, y),))
        elif name == "l1_loss":
            r = self.op("abs", (self.binop("sub", x, y),))
        elif name == "soft_margin_loss":
            r = self.op("softplus", (self.neg(self.binop("mul", y, x)),))
        elif name == "binary_cross_entropy_with_logits" and not extra:
            r = self.binop("sub", self.op("softplus", (x,)),
                           self.binop("mul", x, y))
        else:
            r = self.op(name, (x, y), extra)
            s = self.shape(x)
            if name == "cross_entropy" and s:
                self.facts.setdefault(r, {})["shape"] = \
                    s[:1] + s[2:] if len(s) > 1 else ()
                self.shapememo.pop(r, None)
        if isinstance(red, Const):
            if red.v == "none":
                return r
            if red.v in ("mean", "sum"):
                return self.op(red.v, (r,), {"dim": NONE,
                                             "keepdim": FALSE})
            self.raise_("ValueError")
        return self.op("reduced", (r, red))

    def nn_init(self, name, a, kw):
        t = a[0] if a else kw.get("tensor")
        if name in ("zeros_", "ones_"):
            new = self.op("zeros_like" if name == "zeros_" else "ones_like",
                          (t,))
        elif name == "constant_":
            new = self.op("full_like", (t, a[1] if len(a) > 1
                                        else kw["val"]))
        else:
            self.ndraw += 1
            self.ev("rng_draw", src="torch", what="nn.init." + name)
            new = App("rand", (Const(self.ndraw),), {"lib": Const("torch")})
        self.inplace(t, new, name)
        return t

    # ------------------------------------------------------------ rng
    def torch_random(self, name, a, kw):
        self.ndraw += 1
        self.ev("rng_draw", src="torch", what="torch." + name,
                gen=kw.get("generator", NONE))
        rg = kw.get("requires_grad")
        sh = None
        if name in ("rand", "randn"):
            b = self.shape_args(a or [kw.get("size", Tup(()))])
            sh = tuple(b)
        elif name.endswith("_like"):
            sh = self.shape(a[0])
        r = App("draw_" + name, (Const(self.ndraw),) + tuple(
            self.freeze(x) for x in a if not isinstance(x, Ref)),
            {"lib": Const("torch")})
        if sh is not None:
            self.facts.setdefault(r, {})["shape"] = sh
        return r

    def shuffled(self, x):
        if self.is_arraylike(x):
            self.inplace(x, self.op("inplaced", (x, Const("shuffle"))),
                         "shuffle")
        elif isinstance(x, Ref):
            self.ev("setitem", target=x, key=NONE, val=NONE)
        return NONE

    def np_random(self, name, last, a, kw):
        if last == "seed":
            self.ev("rng_seed", src=name.split(".")[0],
                    val=a[0] if a else kw.get("seed", kw.get("a", NONE)))
            return NONE
        if last in ("default_rng", "RandomState", "Random"):
            s = a[0] if a else kw.get("seed", NONE)
            return self.alloc("ext", Ext(name), {"%seed": s})
        if last in ("getstate", "get_state"):
            return App("rngstate", (Const(name),))
        if last in ("setstate", "set_state"):
            self.ev("rng_seed", src=name.split(".")[0], val=a[0])
            return NONE
        self.ndraw += 1
        self.ev("rng_draw", src=name.split(".")[0], what=name, gen=NONE)
        if last == "shuffle" and a:
            return self.shuffled(a[0])
        return App("draw_np", (Const(self.ndraw), Const(name)) + tuple(
            self.freeze(x) for x in a), {"lib": Const("numpy")})

    def c_manual_seed(self, a, kw):
        self.ev("rng_seed", src="torch", val=a[0] if a else kw.get("seed"))
        return NONE

    def c_generator(self, a, kw):
        return self.alloc("ext", Ext("torch.Generator"), {"%seed": NONE})

    # -------------------------------------------------------- distributions
    def make_dist(self, name, a, kw):
        kw = dict(kw)
        kw.pop("validate_args", None)
        if name == "Independent":
            kw = {("base" if k == "base_distribution" else "n" if k ==
                   "reinterpreted_batch_ndims" else k): v
                  for k, v in kw.items()}
        if name == "TransformedDistribution":
            kw = {("base" if k == "base_distribution" else k): v
                  for k, v in kw.items()}
        b = {}
        for n, x in zip(DIST[name], a):
            b[n] = x
        b.update(kw)
        b = {k: self.freeze(self.arr_data(v) if self.is_list(v) else v)
             for k, v in b.items() if v is not NONE and k in DIST[name]}
        if name == "MultivariateNormal":
            if "scale_tril" not in b:
                if "covariance_matrix" in b:
                    c = b.pop("covariance_matrix")
                    b["scale_tril"] = self.op("cholesky", (c,))
                elif "precision_matrix" in b:
                    c = b.pop("precision_matrix")
                    b["scale_tril"] = self.op("prec_to_tril", (c,))
                else:
                    self.raise_("ValueError")
        return self.mk("dist", (Const(name),), b)

    def dist_attr(self, d, name):
        kw = dict(d.kw)
        n = d.args[0].v
        if name in kw and name not in ("base", "transforms", "n",
                                       "expanded"):
            return kw[name]
        if n in ("Normal", "Laplace", "MultivariateNormal", "Gumbel"):
            if name in ("mean", "mode", "loc"):
                return kw["loc"]
            if name in ("stddev",) and n == "Normal":
                return kw["scale"]
            if name == "variance" and n == "Normal":
                return self.op("square", (kw["scale"],))
            if n == "MultivariateNormal":
                L = kw["scale_tril"]
                if name in ("_unbroadcasted_scale_tril", "scale_tril"):
                    return L
                if name == "covariance_matrix":
                    if isinstance(L, App) and L.op == "cholesky":
                        return L.args[0]
                    return self.op("matmul", (L, self.op("T", (L,))))
                if name == "precision_matrix":
                    return self.op("tril_to_prec", (L,))
        if n == "TransformedDistribution":
            if name in ("base_dist",):
                return kw["base"]
            if name == "transforms":
                return kw["transforms"]
            if name == "mean":
                self.raise_("NotImplementedError")
        if n == "Bernoulli" and name == "mean" and "probs" in kw:
            return kw["probs"]
        if name in ("batch_shape", "event_shape"):
            s = self.dist_shape(d)
            e = self.dist_event(d)
            if s is not None and e is not None:
                k = len(s) - e
                return App("size", s[:k] if name == "batch_shape"
                           else s[k:])
        if name == "has_rsample":
            return Const(n not in ("Bernoulli",))
        if name in ("sample", "rsample", "log_prob", "expand", "entropy",
                    "cdf", "icdf", "sample_n", "perplexity",
                    "enumerate_support", "_extended_shape"):
            return BMeth(d, name)
        return self.op("attr", (d, Const(name)))

    def dist_method(self, d, name, a, kw):
        n = d.args[0].v
        if name in ("sample", "rsample"):
            sh = a[0] if a else kw.get("sample_shape", App("size", ()))
            its = self.known_items(sh)
            if its is None:
                its = [sh]
            self.ndraw += 1
            if name == "rsample" and not self.dist_reparam(d):
                self.raise_("NotImplementedError")
            r = self.mk(name, (d, Const(self.ndraw)),
                        {"n": App("size", its)})
            self.ev("rng_draw", src="torch", what="dist." + name, dist=d,
                    val=r, gen=NONE)
            return r
        if name == "log_prob":
            x = a[0] if a else kw["value"]
            return self.op("log_prob", (d, x))
        if name == "expand":
            kw2 = dict(d.kw)
            its = self.known_items(a[0] if a else kw["batch_shape"])
            kw2["expanded"] = App("size", its) if its is not None else \
                a[0]
            return App("dist", d.args, kw2)
        return self.op("dist_" + name, [d] + list(a), kw)

    def dist_reparam(self, d):
        n = d.args[0].v
        if n == "Bernoulli":
            return False
        if n in ("TransformedDistribution", "Independent"):
            return self.dist_reparam(dict(d.kw)["base"])
        return True

    # --------------------------------------------------------------- params
    def make_param(self, data, rg, leaf=False):
        data_f = self.freeze(data)
        s = self.shape(data_f)
        f = {"requires_grad": rg, "grad": NONE, "%init": data_f,
             "%src": data}
        if s is not None:
            f["%shape"] = Tup(s)
        if is_const(rg, False):
            f["%const"] = data_f
        return self.alloc("param", Ext("torch.nn.Parameter"), f)

    def c_parameter(self, a, kw):
        b = self.sigbind(("data", "requires_grad"), a, kw)
        return self.make_param(b["data"], b.get("requires_grad", TRUE))

    # -------------------------------------------------------------- modules
    def is_torch_module(self, ref):
        if not isinstance(ref, Ref):
            return False
        o = self.obj(ref)
        if o.kind == "inst" and isinstance(o.cls, Cls):
            return any(b in ("torch.nn.Module",) or b.startswith(
                "torch.nn.") for b in self.ext_bases(o.cls))
        return o.kind == "ext" and o.cls is not None and (
            o.cls.name.startswith("torch.nn.")
            or o.cls.name.startswith("user."))

    def make_module(self, name, last, a, kw):
        f = {"training": TRUE}
        for k in ("device", "dtype"):
            kw.pop(k, None)
        if last == "Linear":
            b = self.sigbind(("in_features", "out_features", "bias"), a, kw)
            i, o = self.freeze(b["in_features"]), self.freeze(
                b["out_features"])
            self.ndraw += 1
            self.ev("rng_draw", src="torch", what="nn.Linear init", gen=NONE)
            w = App("draw_init", (Const(self.ndraw),),
                    {"lib": Const("torch")})
            self.facts.setdefault(w, {})["shape"] = (o, i)
            f["weight"] = self.make_param(w, TRUE)
            bias = b.get("bias", TRUE)
            d = self.decide(self.truth(bias))

            def mkb():
                self.ndraw += 1
                w = App("draw_init", (Const(self.ndraw),),
                        {"lib": Const("torch")})
                self.facts.setdefault(w, {})["shape"] = (o,)
                return self.make_param(w, TRUE)
            if d is True:
                f["bias"] = mkb()
            elif d is False:
                f["bias"] = NONE
            else:
                f["bias"] = ite(self.truth(bias), mkb(), NONE)
            f.update(in_features=i, out_features=o)
        elif last in MODLOSS:
            names = {"MSELoss": ("size_average", "reduce", "reduction"),
                     "L1Loss": ("size_average", "reduce", "reduction"),
                     "SoftMarginLoss": ("size_average", "reduce",
                                        "reduction"),
                     "CrossEntropyLoss": ("weight", "size_average",
                                          "ignore_index", "reduce",
                                          "reduction", "label_smoothing"),
                     }.get(last, ("reduction",))
            b = self.sigbind(names, a, kw)
            f["reduction"] = b.pop("reduction", Const("mean"))
            b.pop("size_average", None)
            b.pop("reduce", None)
            f["%extra"] = Tup(tuple(Tup((Const(k), v))
                                    for k, v in sorted(b.items())))
        elif last in ("Sequential",):
            its = a
            if len(a) == 1 and isinstance(a[0], Ref) and self.obj(
                    a[0]).kind == "dict":
                its = [v for _, v in self.dict_pairs(a[0])]
            f["%mods"] = Tup(its)
            for i, m in enumerate(its):
                f[str(i)] = m
        elif last in ("ModuleList", "ParameterList"):
            its = self.items_of(a[0], consume=True) if a else []
            for i, m in enumerate(its):
                f[str(i)] = m
            f["%mods"] = Tup(its)
        elif last in ("ModuleDict", "ParameterDict"):
            for k, m in (self.dict_pairs(a[0]) if a else []):
                if isinstance(k, Const):
                    f[str(k.v)] = m
        elif last in ("Softmax", "LogSoftmax"):
            b = self.sigbind(("dim",), a, kw)
            f["dim"] = b.get("dim", NONE)
        elif last == "Parameter":
            return self.c_parameter(a, kw)
        elif last == "Module":
            pass
        else:
            f["%args"] = Tup(a)
            f["%kw"] = Tup(Tup((Const(k), v)) for k, v in
                           sorted(kw.items()))
        return self.alloc("ext", Ext(name), f)

    def call_ext_obj(self, ref, a, kw):
        o = self.obj(ref)
        cls = o.cls.name if isinstance(o.cls, (Ext, Cls)) else ""
        last = cls.rsplit(".", 1)[-1]
        if o.kind == "ext" and cls.startswith("torch.nn."):
            if last == "Linear":
                W = self.param_get(ref, "weight")
                r = self.op("linear", (a[0], W))
                b = o.f["bias"]
                if b is NONE:
                    return r
                if isinstance(b, Ite):
                    return self.split(b.c, lambda: self.binop(
                        "add", r, b.a) if b.a is not NONE else r,
                        lambda: self.binop("add", r, b.b)
                        if b.b is not NONE else r)
                return self.binop("add", r, self.param_get(ref, "bias"))
            if last in MODLOSS:
                b = self.sigbind(("input", "target"), a, kw)
                return self.loss_value(
                    MODLOSS[last], b["input"], b["target"],
                    o.f["reduction"], {p.items[0].v: p.items[1]
                                       for p in o.f["%extra"].items})
            if last in MODACT:
                return self.op(MODACT[last], (a[0],))
            if last == "Identity":
                return a[0]
            if last == "Flatten":
                return self.op("flatten", (a[0],), {"start": ONEC,
                                                    "end": Const(-1)})
            if last in ("Softmax", "LogSoftmax"):
                return self.op("softmax" if last == "Softmax" else
                               "log_softmax", (a[0],), {
                    "dim": self.norm_dim(o.f["dim"], a[0])})
            if last == "Sequential":
                x = a[0]
                for m in o.f["%mods"].items:
                    x = self.call(m, [x], {})
                return x
        if o.kind == "ext" and cls.startswith(("user.", "userfunc.")):
            return self.user_call(ref, o, a, kw)
        self.ev("callvalue", fn=ref, args=tuple(a), kw=dict(kw))
        self.note_opaque("call of " + cls)
        return App("xcall", (Const("obj:" + cls), ref) + tuple(
            self.freeze(x) for x in a),
            {k: self.freeze(v) for k, v in kw.items()})

    def user_call(self, ref, o, a, kw):
        """A caller-supplied module: an uninterpreted function of its
        parameters and its arguments."""
        self.ev("usercall", fn=ref, args=tuple(self.freeze(x) for x in a),
                kw={k: self.freeze(v) for k, v in kw.items()},
                training=o.f.get("training", TRUE))
        ps = [self.freeze(p) for p in self.params_of(ref)]
        extra = {"arg_" + k: self.freeze(v) for k, v in kw.items()
                 if k != "reduction"}
        if "%out" in o.f:
            extra["out"] = o.f["%out"]
        return self.mk("umod", (Const(o.cls.name),) + tuple(ps) + tuple(
            self.freeze(x) for x in reversed(a)), extra)

    def param_get(self, ref, name):
        p = self.parametrized(ref, name)
        return p if p is not None else self.obj(ref).f[name]

    def parametrized(self, ref, name):
        v = self.obj(ref).f.get("%parametrized_" + name)
        if v is None:
            return None
        mod, par = v.items
        return self.call(mod, [par], {})

    def params_of(self, ref, recurse=True, seen=None):
        seen = set() if seen is None else seen
        out = []
        if not isinstance(ref, Ref) or ref in seen:
            return out
        seen.add(ref)
        o = self.obj(ref)
        if o.kind == "param":
            return [ref]
        subs = []
        for k, v in o.f.items():
            if k[:1] == "%" and not k.startswith("%parametrized_"):
                continue
            if k.startswith("%parametrized_"):
                mod, par = v.items
                subs.append(par)
                subs.append(mod)
                continue
            for x in ([v.a, v.b] if isinstance(v, Ite) else [v]):
                if isinstance(x, Ref) and x.oid in self.st.heap:
                    xo = self.obj(x)
                    if xo.kind == "param":
                        if "%parametrized_" + k in o.f:
                            continue
                        if x not in seen and xo.cls.name == \
                                "torch.nn.Parameter":
                            seen.add(x)
                            out.append((k, x))
                    elif recurse and self.is_torch_module(x):
                        subs.append((k, x))
        res = [p for _, p in out]
        for s in subs:
            if isinstance(s, tuple):
                res.extend(self.params_of(s[1], True, seen))
            elif isinstance(s, Ref):
                if self.obj(s).kind == "param":
                    if s not in seen:
                        seen.add(s)
                        res.append(s)
                else:
                    res.extend(self.params_of(s, True, seen))
        return res

    def named_params(self, ref, prefix=""):
        o = self.obj(ref)
        out, subs = [], []
        for k, v in o.f.items():
            if k.startswith("%parametrized_"):
                n = k[len("%parametrized_"):]
                mod, par = v.items
                out.append((prefix + "parametrizations.%s.original" % n,
                            par))
                continue
            if k[:1] == "%":
                continue
            for x in ([v.a, v.b] if isinstance(v, Ite) else [v]):
                if isinstance(x, Ref) and x.oid in self.st.heap:
                    xo = self.obj(x)
                    if xo.kind == "param":
                        if "%parametrized_" + k not in o.f:
                            out.append((prefix + k, x))
                    elif self.is_torch_module(x):
                        subs.append((prefix + k + ".", x))
        for p, s in subs:
            out.extend(self.named_params(s, p))
        return out

    def children_of(self, ref):
        out = []
        for k, v in self.obj(ref).f.items():
            if k[:1] == "%":
                continue
            for x in ([v.a, v.b] if isinstance(v, Ite) else [v]):
                if isinstance(x, Ref) and x.oid in self.st.heap and \
                        self.is_torch_module(x) and x not in out:
                    out.append(x)
        return out

    def module_method(self, ref, name, a, kw):
        if name in ("parameters",):
            rec = a[0] if a else kw.get("recurse", TRUE)
            return self.new_list(self.params_of(
                ref, not is_const(rec, False)), once=True)
        if name == "named_parameters":
            return self.new_list([Tup((Const(k), p)) for k, p in
                                  self.named_params(ref)], once=True)
        if name in ("buffers", "named_buffers"):
            return self.new_list([], once=True)
        if name == "children":
            return self.new_list(self.children_of(ref), once=True)
        if name == "named_children":
            out = []
            for k, v in self.obj(ref).f.items():
                if k[:1] != "%" and isinstance(v, Ref) and \
                        self.is_torch_module(v):
                    out.append(Tup((Const(k), v)))
            return self.new_list(out, once=True)
        if name == "modules":
            out = []

            def rec_(r):
                if r in out:
                    return
                out.append(r)
                for c in self.children_of(r):
                    rec_(c)
            rec_(ref)
            return self.new_list(out, once=True)
        if name == "train":
            mode = a[0] if a else kw.get("mode", TRUE)
            self.set_attr(ref, "training", self.freeze(mode))
            for c in self.children_of(ref):
                self.call(self.get_attr(c, "train"), [mode], {})
            return ref
        if name == "eval":
            return self.call(self.get_attr(ref, "train"), [FALSE], {})
        if name in ("to", "float", "double", "cpu", "cuda", "half", "type"):
            return ref
        if name == "requires_grad_":
            v = a[0] if a else kw.get("requires_grad", TRUE)
            for p in self.module_params_dispatch(ref):
                self.set_attr(p, "requires_grad", self.freeze(v))
            return ref
        if name == "zero_grad":
            ps = self.module_params_dispatch(ref)
            self.ev("zero_grad", params=tuple(ps))
            for p in ps:
                self.mut(p).f["grad"] = NONE
            return NONE
        if name in ("state_dict",):
            return self.new_dict([(Const(k), App("detach", (p,))) for k, p
                                  in self.named_params(ref)])
        if name == "load_state_dict":
            d = a[0] if a else kw.get("state_dict")
            if isinstance(d, Ref) and self.obj(d).kind == "dict":
                m = {k.v: v for k, v in self.dict_pairs(d)
                     if isinstance(k, Const)}
                for k, p in self.named_params(ref):
                    if k in m:
                        self.inplace(p, self.freeze(m[k]),
                                     "load_state_dict")
            return NONE
        if name == "register_parameter":
            b = self.sigbind(("name", "param"), a, kw)
            if isinstance(b["name"], Const):
                self.set_attr(ref, b["name"].v, b["param"])
            return NONE
        if name in ("register_buffer", "register_module", "add_module"):
            if isinstance(a[0], Const):
                self.set_attr(ref, a[0].v, a[1] if len(a) > 1 else
                              kw.get("tensor", kw.get("module", NONE)))
            return NONE
        if name == "apply":
            for m in [ref] + self.children_of(ref):
                self.call(a[0], [m], {})
            return ref
        if name in ("__init__",):
            self.mut(ref).f.setdefault("training", TRUE)
            return NONE
        if name in ("forward", "__call__"):
            return self.call_ext_obj(ref, a, kw)
        if name in ("__setattr__",):
            self.set_attr(ref, a[0].v, a[1])
            return NONE
        if name in ("__repr__", "extra_repr", "_get_name"):
            return App("str", (ref,))
        if name in ("register_forward_hook", "register_full_backward_hook",
                    "register_forward_pre_hook", "share_memory", "compile"):
            return NONE
        if name == "get_parameter" and isinstance(a[0], Const):
            v = ref
            for p in a[0].v.split("."):
                v = self.get_attr(v, p)
            return v
        return None

    def module_params_dispatch(self, ref):
        it = self.call(self.get_attr(ref, "parameters"), [], {})
        return [p for p in self.items_of(it, consume=True)
                if isinstance(p, Ref)]

    def c_register_parametrization(self, a, kw):
        b = self.sigbind(("module", "tensor_name", "parametrization"), a, kw)
        m, n, p = b["module"], b["tensor_name"], b["parametrization"]
        if isinstance(m, Ref) and isinstance(n, Const):
            par = self.obj(m).f[n.v]
            self.mut(m).f["%parametrized_" + n.v] = Tup((p, par))
            return m
        return NONE

    # ------------------------------------------------------------ optimisers
    def opt_params(self, arg):
        """flat parameter list, param_groups value"""
        its = self.items_of(arg, consume=True)
        ps, groups = [], []
        if its and all(isinstance(x, Ref) and self.obj(x).kind == "dict"
                       for x in its):
            for g in its:
                pairs = self.dict_pairs(g)
                d = []
                for k, v in pairs:
                    if is_const(k, "params"):
                        if isinstance(v, Ref) and self.obj(
                                v).kind == "param":
                            sub = [v]
                        else:
                            sub = self.items_of(v, consume=True)
                        ps.extend(sub)
                        d.append((k, self.new_list(sub)))
                    else:
                        d.append((k, v))
                groups.append(self.new_dict(d))
        else:
            ps = []
            for x in its:
                # (name, parameter) pairs are accepted too
                if isinstance(x, Tup) and len(x.items) == 2:
                    x = x.items[1]
                ps.append(x)
            groups.append(self.new_dict([(Const("params"),
                                          self.new_list(ps))]))
        flat = []
        for p in ps:
            if isinstance(p, Ite):
                flat += [x for x in (p.a, p.b) if isinstance(x, Ref)]
            else:
                flat.append(p)
        return flat, groups

    def optim_init(self, ref, arg, defaults):
        ps, groups = self.opt_params(arg)
        if not ps:
            self.raise_("ValueError")
        for g in groups:
            for k, v in defaults:
                if not any(kk is k for kk, _ in self.dict_pairs(g)):
                    self.set_item_quiet(g, k, v)
        o = self.mut(ref)
        o.f["%params"] = Tup(ps)
        o.f["param_groups"] = self.new_list(groups)
        o.f["state"] = self.new_dict([])
        self.ev("optim_new", ref=ref, params=tuple(ps),
                defaults=dict((k.v, v) for k, v in defaults
                              if isinstance(k, Const)))

    def set_item_quiet(self, d, k, v):
        o = self.mut(d)
        o.f["items"] = Tup(o.f["items"].items + (Tup((k, v)),))

    OPTSIG = {"LBFGS": ("params", "lr", "max_iter"),
              "SGD": ("params", "lr", "momentum"),
              "Prodigy": ("params", "lr", "betas")}

    def make_optim(self, name, a, kw):
        last = name.rsplit(".", 1)[-1]
        sig = self.OPTSIG.get(last, ("params", "lr"))
        b = self.sigbind(sig, a, kw)
        ref = self.alloc("ext", Ext(name), {})
        arg = b.pop("params")
        self.optim_init(ref, arg, [(Const(k), v) for k, v in b.items()])
        return ref

    def c_mechanize(self, a, kw):
        return App("partial", (Ext("mechanic_pytorch.Mechanized"),))

    def is_optim(self, ref):
        o = self.obj(ref)
        return "%params" in o.f

    def optim_method(self, ref, name, a, kw):
        o = self.obj(ref)
        if name in ("register_step_post_hook", "register_step_pre_hook"):
            k = "%hooks_" + name.split("_")[2]
            hs = o.f.get(k, Tup(()))
            self.mut(ref).f[k] = Tup(hs.items + (a[0],))
            return self.opaque_value("handle%d" % len(hs.items))
        if name == "step" and o.kind == "ext":
            self.run_hooks(ref, "pre", a, kw)
        if name == "step":
            cl = a[0] if a else kw.get("closure", NONE)
            r = NONE
            if cl is not NONE:
                r = self.call(cl, [], {})
            ps = self.group_params(ref)
            grads = {p: self.obj(p).f.get("grad", NONE) for p in ps
                     if isinstance(p, Ref)}
            self.ev("step", opt=ref, params=tuple(ps), grads=grads,
                    vals={p: self.freeze(p) for p in ps
                          if isinstance(p, Ref)},
                    gvals={p: self.freeze(g) for p, g in grads.items()},
                    closure=cl, cls=o.cls.name if o.cls else "")
            self.nstep += 1
            for p in ps:
                if not isinstance(p, Ref):
                    continue
                if is_const(self.obj(p).f.get("requires_grad", TRUE),
                            False):
                    continue
                if grads[p] is NONE:
                    continue
                old = self.freeze(p)
                self.st.content[p] = App("par", (
                    p, Const("step%d" % self.nstep)))
                self.stepped[self.st.content[p]] = (old, grads[p], ref)
            if o.kind == "ext":
                self.run_hooks(ref, "post", a, kw)
            return r
        if name == "zero_grad":
            ps = self.group_params(ref)
            self.ev("zero_grad", params=tuple(ps), opt=ref)
            for p in ps:
                if isinstance(p, Ref):
                    self.mut(p).f["grad"] = NONE
            return NONE
        if name == "state_dict":
            return App("opt_state", (ref,))
        if name == "load_state_dict":
            self.ev("optim_load", opt=ref, val=a[0] if a else NONE)
            return NONE
        if name == "add_param_group":
            ps, groups = self.opt_params(self.new_list([a[0]]))
            m = self.mut(ref)
            m.f["%params"] = Tup(m.f["%params"].items + tuple(ps))
            self.list_extend(m.f["param_groups"], groups)
            return NONE
        return None

    def run_hooks(self, ref, when, a, kw):
        hs = self.obj(ref).f.get("%hooks_" + when)
        for h in hs.items if hs is not None else ():
            self.call(h, [ref, Tup(a), self.new_dict(
                [(Const(k), v) for k, v in kw.items()])], {})

    def group_params(self, ref):
        g = self.obj(ref).f.get("param_groups")
        out = []
        if isinstance(g, Ref) and self.obj(g).kind == "list":
            for d in self.items_of(g):
                if isinstance(d, Ref) and self.obj(d).kind == "dict":
                    for k, v in self.dict_pairs(d):
                        if is_const(k, "params"):
                            for x in self.items_of(v):
                                out += [y for y in ((x.a, x.b) if isinstance(
                                    x, Ite) else (x,)) if isinstance(y, Ref)]
            return out
        return [x for x in self.obj(ref).f["%params"].items
                if isinstance(x, Ref)]

    # -------------------------------------------------------------- autograd
    def graph_params(self, v):
        """parameters a value depends on differentiably"""
        seen, out, stack = set(), [], [v]
        cur = {}
        for oid, o in self.st.heap.items():
            if o.kind == "param" and not is_const(
                    o.f.get("requires_grad", TRUE), False):
                r = Ref(oid)
                w = self.freeze(r)
                if isinstance(w, (App, Ite)) and not (
                        isinstance(w, App) and w.op == "par"):
                    cur.setdefault(w, []).append(r)
        while stack:
            x = stack.pop()
            if x in seen:
                continue
            seen.add(x)
            if x in cur:
                out += cur[x]
                continue
            if isinstance(x, App):
                if x.op in ("detach", "item", "float", "numpy", "tolist",
                            "data"):
                    continue
                if x.op == "par":
                    if isinstance(x.args[0], Ref):
                        out.append(x.args[0])
                    continue
                stack.extend(x.args)
                stack.extend(w for _, w in x.kw)
            elif isinstance(x, Ite):
                stack.extend((x.a, x.b))
            elif isinstance(x, Tup):
                stack.extend(x.items)
        return out

    def backward(self, v, a, kw):
        v = self.freeze(v)
        ps = self.graph_params(v)
        self.ev("backward", val=v, params=tuple(ps))
        for p in ps:
            o = self.st.heap.get(p.oid)
            if o is None or is_const(o.f.get("requires_grad", TRUE), False):
                continue
            g = App("grad", (v, self.freeze(p)))
            old = o.f.get("grad", NONE)
            m = self.mut(p)
            m.f["grad"] = g if old is NONE else App("accum", (old, g))
        return NONE

    def autograd_grad(self, a, kw):
        b = self.sigbind(("outputs", "inputs"), a, kw)
        out = b["outputs"]
        o = self.known_items(out) if isinstance(out, (Tup, Ref)) and not (
            isinstance(out, Ref) and self.obj(out).kind == "param") else None
        if o is not None:
            r = o[0]
            for x in o[1:]:
                r = self.binop("add", r, x)
            out = r
        ins = b["inputs"]
        its = self.known_items(ins) if isinstance(ins, (Tup, Ref)) and not (
            isinstance(ins, Ref) and self.obj(ins).kind == "param") else None
        its = [ins] if its is None else its
        return Tup(App("grad", (self.freeze(out), self.freeze(i)))
                   for i in its)

    def c_grad(self, a, kw):
        b = self.sigbind(("func", "argnums"), a, kw)
        return App("gradfn", (b["func"], b.get("argnums", ZEROC)),
                   {k: v for k, v in b.items() if k == "has_aux"})

    def call_gradfn(self, f, a, kw):
        L = self.freeze(self.call(f.args[0], list(a), dict(kw)))
        n = f.args[1]
        idx = n.items if isinstance(n, Tup) else (n,)
        out = []
        for i in idx:
            if not isinstance(i, Const):
                raise Unsupported("grad argnums")
            out.append(App("grad", (L, self.freeze(a[i.v]))))
        return Tup(out) if isinstance(n, Tup) else out[0]

    def call_vmapfn(self, f, a, kw):
        k = dict(f.kw)
        ind = k.get("in_dims", ZEROC)
        its = self.known_items(ind) if isinstance(ind, (Tup, Ref)) else \
            [ind] * len(a)
        dims = None
        args = []
        for x, d in zip(a, its):
            if d is NONE:
                args.append(x)
                continue

            def one(x, d):
                nonlocal dims
                if isinstance(x, Tup):
                    return Tup(one(y, d) for y in x.items)
                if isinstance(x, Ref) and self.obj(x).kind == "dict":
                    if isinstance(d, Ref):
                        d = ZEROC
                    return self.new_dict([(q, one(y, d)) for q, y in
                                          self.dict_pairs(x)])
                s = self.shape(x)
                if s and isinstance(d, Const) and d.v == 0:
                    dims = s[0]
                if isinstance(d, Const) and d.v == 0:
                    return self.op("row", (self.freeze(x),))
                return self.op("rowat", (self.freeze(x), d))
            args.append(one(x, d))
        r = self.call(f.args[0], args, kw)

        def pack(v):
            if isinstance(v, Tup):
                return Tup(pack(x) for x in v.items)
            return self.op("stackrow", (v, dims if dims is not None
                                        else NONE))
        return pack(r)

    def c_functional_call(self, a, kw):
        b = self.sigbind(("module", "params", "args", "kwargs"), a, kw)
        mod, ps = b["module"], b.get("params",
                                     b.get("parameter_and_buffer_dicts"))
        args = b.get("args", NONE)
        ka = b.get("kwargs", NONE)
        its = self.known_items(args) if isinstance(args, (Tup, Ref)) else None
        if args is NONE:
            its = []
        elif its is None or (isinstance(args, Ref) and self.obj(
                args).kind == "param"):
            its = [args]
        dicts = self.known_items(ps) if isinstance(ps, Tup) else [ps]
        names = dict(self.named_params(mod))
        saved = {}
        for d in dicts:
            if isinstance(d, Ref) and self.obj(d).kind == "dict":
                for k, v in self.dict_pairs(d):
                    if isinstance(k, Const) and k.v in names:
                        p = names[k.v]
                        fv = self.freeze(v)
                        if self.strip(fv) is not self.strip(self.freeze(p)):
                            saved[p] = self.st.content.get(p, UNDEF)
                            self.st.content[p] = fv
        kk = {}
        if isinstance(ka, Ref) and self.obj(ka).kind == "dict":
            kk = {k.v: v for k, v in self.dict_pairs(ka)}
        try:
            return self.call(mod, its, kk)
        finally:
            for p, c in saved.items():
                if c is UNDEF:
                    self.st.content.pop(p, None)
                else:
                    self.st.content[p] = c

    # ------------------------------------------------------- sklearn, misc
    def sk_call(self, name, last, a, kw):
        if last == "check_X_y":
            self.ev("validate", what="X_y", args=tuple(a), kw=dict(kw))
            return Tup((self.op("valid", (a[0],)), self.op("valid",
                                                           (a[1],))))
        if last in ("check_array", "as_float_array"):
            self.ev("validate", what="X", args=tuple(a), kw=dict(kw))
            return self.op("valid", (a[0],))
        if last == "validate_data":
            self.ev("validate", what="X", args=tuple(a[1:]), kw=dict(kw))
            x = a[1] if len(a) > 1 else kw.get("X")
            y = a[2] if len(a) > 2 else kw.get("y", NONE)
            if y is NONE or (isinstance(y, Const)
                             and y.v == "no_validation"):
                return self.op("valid", (x,))
            return Tup((self.op("valid", (x,)), self.op("valid", (y,))))
        if last == "check_is_fitted":
            return self.check_fitted(a, kw)
        if last in ("unique_labels",):
            return self.op("unique", (a[0],))
        if last in ("column_or_1d",):
            return self.op("valid", (a[0],))
        if last in ("check_random_state",):
            return self.alloc("ext", Ext("numpy.random.RandomState"),
                              {"%seed": a[0]})
        if last in ("check_classification_targets", "check_consistent_length",
                    "assert_all_finite"):
            self.ev("validate", what=last, args=tuple(a), kw=dict(kw))
            return NONE
        if last == "clone":
            return self.deepcopy(a[0], "deepcopy")
        if last[:1].isupper():
            return self.alloc("ext", Ext(name), {
                "%kw": Tup(Tup((Const(k), v)) for k, v in
                           sorted(kw.items()))})
        return None

    def check_fitted(self, a, kw):
        est = a[0]
        attrs = a[1] if len(a) > 1 else kw.get("attributes", NONE)
        self.ev("check_fitted", est=est)
        if not isinstance(est, Ref):
            return NONE
        o = self.obj(est)
        m = self.find_method(est, "__sklearn_is_fitted__")
        names = None
        if attrs is not NONE:
            its = [attrs] if isinstance(attrs, Const) else \
                self.known_items(attrs)
            if its is not None:
                names = [x.v for x in its if isinstance(x, Const)]
        if names is not None:
            ok = all(o.f.get(n, UNDEF) is not UNDEF for n in names)
        elif m is not None:
            ok = self.decide(self.truth(self.call(m, [], {})))
        else:
            ok = any(k.endswith("_") and not k.startswith(("__", "%"))
                     and v is not UNDEF for k, v in o.f.items())
        if ok is False:
            self.raise_ext("sklearn.exceptions.NotFittedError")
        return NONE

    def raise_ext(self, name):
        self.raise_(self.make_exc(name))

    def sk_obj_method(self, ref, name, a, kw):
        o = self.obj(ref)
        last = o.cls.name.rsplit(".", 1)[-1]
        if name in ("fit_transform", "transform", "inverse_transform",
                    "predict", "fit"):
            x = self.freeze(a[0])
            if name in ("fit", "fit_transform"):
                f = self.mut(ref).f
                f["%fit"] = x
                if last in ("LabelEncoder", "LabelBinarizer"):
                    f["classes_"] = self.op("unique", (x,))
                elif last == "OneHotEncoder":
                    f["categories_"] = self.new_list([self.op(
                        "unique", (x,))])
            if name == "fit":
                return ref
            if name == "transform" and o.f.get("%fit") is x:
                name = "fit_transform"
            return self.op("sk_" + name, (Const(last), x))
        if name in ("set_output", "set_params"):
            return ref
        return None

    def np_stack(self, name, its):
        """stacking functions in terms of stack and cat"""
        name = "vstack" if name == "row_stack" else name
        ss = [self.shape(x) for x in its]
        if its and all(s is not None for s in ss):
            dims = {len(s) for s in ss}
            if dims == {1}:
                if name == "hstack":
                    return self.op("cat", (Tup(its),), {"dim": ZEROC})
                return self.op("stack", (Tup(its),), {"dim": Const(
                    0 if name == "vstack" else 1)})
            if min(dims) >= 2:
                return self.op("cat", (Tup(its),), {"dim": Const(
                    0 if name == "vstack" else 1)})
        return self.op(name, (Tup(its),))

    def itertools(self, last, a, kw):
        if last == "chain":
            out = []
            for x in a:
                out.extend(self.items_of(x, consume=True))
            return self.new_list(out, once=True)
        if last == "from_iterable":
            out = []
            for x in self.items_of(a[0], consume=True):
                out.extend(self.items_of(x, consume=True))
            return self.new_list(out, once=True)
        if last == "product":
            import itertools as it
            ls = [self.known_items(x, consume=True) for x in a]
            if all(l is not None for l in ls):
                return self.new_list([Tup(p) for p in it.product(*ls)],
                                     once=True)
        if last == "repeat" and len(a) == 2:
            return self.new_list([App("each", (App(
                "range", (ZEROC, self.freeze(a[1]), ONEC)), a[0]))],
                once=True)
        if last == "islice":
            return self.new_list(self.items_of(a[0]), once=True)
        if last == "count":
            st = a[0] if a else ZEROC
            r = App("range", (st, Const("inf"), ONEC))
            return self.new_list([App("each", (r, App(
                "elem", (r, ZEROC))))], once=True)
        if last == "starmap":
            out = []
            for x in self.items_of(a[1], consume=True):
                out.append(self.call(a[0], self.items_of(x), {}))
            return self.new_list(out, once=True)
        return None

    def deepcopy(self, v, how):
        memo = {}

        def go(x, top):
            if isinstance(x, Ref):
                if x in memo:
                    return memo[x]
                o = self.obj(x)
                if o.kind in ("list", "set", "dict", "inst", "ext",
                              "param"):
                    if how == "copy" and not top:
                        return x
                    n = self.alloc(o.kind, o.cls, {})
                    memo[x] = n
                    self.mut(n).f.update({k: go(w, False) if how != "copy"
                                          or o.kind in ("list", "dict")
                                          else w
                                          for k, w in o.f.items()})
                    if o.kind == "param":
                        f = self.mut(n).f
                        f["%init"] = self.freeze(x)
                        f["%const"] = self.freeze(x)
                    return n
                return x
            if isinstance(x, Tup):
                return Tup(go(y, False) for y in x.items)
            if isinstance(x, Ite):
                return ite(x.c, go(x.a, False), go(x.b, False))
            if self.is_arraylike(x) and how != "copy":
                return self.op("copy", (x,))
            if self.is_arraylike(x):
                return self.op("copy", (x,)) if top else x
            return x
        if isinstance(v, Ref) and self.obj(v).kind == "inst":
            m = self.find_method(v, "__deepcopy__" if how != "copy"
                                 else "__copy__")
            if m is not None:
                return self.call(m, [self.new_dict([])]
                                 if how != "copy" else [], {})
        return go(v, True)

    # ----------------------------------------------------------------- cvxpy
    def cvx_call(self, last, a, kw):
        if last in ("Variable", "Parameter"):
            b = self.sigbind(("shape",), a, kw)
            sh = b.get("shape", NONE)
            if sh is NONE:
                its = ()
            else:
                its = self.known_items(sh) if isinstance(
                    sh, (Tup, Ref)) else None
                its = tuple(its) if its is not None else (self.freeze(sh),)
            f = {"%shape": Tup(its),
                 "%nonneg": b.get("nonneg", b.get("pos", FALSE)),
                 "%kw": Tup(Tup((Const(k), v)) for k, v in
                            sorted(kw.items()) if k != "shape")}
            r = self.alloc("ext", Ext("cvxpy." + last), f)
            if self.loops:
                self.mut(r).f["%loop"] = Tup(
                    s for _, s in self.loops)
            return r
        if last in ("Minimize", "Maximize"):
            return App(last.lower(), (self.freeze(a[0]),))
        if last == "Problem":
            b = self.sigbind(("objective", "constraints"), a, kw)
            cons = b.get("constraints", NONE)
            items = [] if cons is NONE else self.items_of(cons)
            r = self.alloc("ext", Ext("cvxpy.Problem"), {
                "%obj": b["objective"], "%cons": Tup(items)})
            self.ev("cvx_problem", ref=r, obj=b["objective"],
                    cons=tuple(items))
            return r
        if last in ("abs", "pos"):
            return self.op("abs" if last == "abs" else "relu", a[:1])
        if last == "sum_squares":
            return self.op("sum", (self.op("square", a[:1]),),
                           {"dim": NONE, "keepdim": FALSE})
        if last in ("norm1", "norm2", "norm_inf", "pnorm"):
            p = {"norm1": Const(1), "norm2": Const(2),
                 "norm_inf": Const(math.inf)}.get(last)
            if p is None:
                p = a[1] if len(a) > 1 else kw.get("p", Const(2))
            return self.op("norm", (a[0],), {
                "p": p, "dim": NONE, "keepdim": FALSE})
        return None

    # ----------------------------------------------------- method calls
    INPL = {"add_": "add", "sub_": "sub", "mul_": "mul", "div_": "div",
            "pow_": "pow"}

    def method_call(self, recv, name, a, kw):
        # methods of external base classes
        if isinstance(recv, App) and recv.op == "super":
            return self.super_call(recv, name, a, kw)
        if isinstance(recv, Cls):
            if name == "__new__":
                return self.alloc("inst", recv, {})
            if a and isinstance(a[0], Ref):
                return self.base_method(a[0], name, a[1:], kw,
                                        self.ext_bases(recv))
            return self.op_call(BMeth(recv, name), a, kw)
        if isinstance(recv, Ite):
            return self.split(
                recv.c, lambda: self.method_call(recv.a, name, a, kw),
                lambda: self.method_call(recv.b, name, a, kw))
        if isinstance(recv, Ref):
            o = self.obj(recv)
            if o.kind in ("list", "set"):
                r = self.list_method(recv, name, a, kw)
                if r is not None:
                    return r
            elif o.kind == "dict":
                r = self.dict_method(recv, name, a, kw)
                if r is not None:
                    return r
            elif o.kind == "inst":
                return self.base_method(recv, name, a, kw,
                                        self.ext_bases(o.cls))
            elif o.kind == "ext":
                return self.ext_method(recv, o, name, a, kw)
            elif o.kind == "param":
                return self.array_method(recv, name, a, kw)
            self.note_opaque("method %s of %s" % (name, o.kind))
            return self.op_call(BMeth(recv, name), a, kw)
        if isinstance(recv, Const) and isinstance(recv.v, str) or \
                self.type_name(recv) == "builtins.str":
            r = self.str_method(recv, name, a, kw)
            if r is not None:
                return r
        if isinstance(recv, Const) and recv.v is None:
            self.raise_("AttributeError")
        if isinstance(recv, App) and recv.op == "dist":
            return self.dist_method(recv, name, a, kw)
        if isinstance(recv, Tup) or isinstance(recv, App) and \
                recv.op == "size":
            its = self.items_of(recv)
            if name == "index":
                for i, x in enumerate(its):
                    if x is a[0]:
                        return Const(i)
            if name == "count":
                return Const(sum(1 for x in its if x is a[0]))
            if name == "numel":
                return dimprod(its) if its else ONE
        if isinstance(recv, App) and recv.op in ("dictkeys", "dictitems",
                                                 "dictvalues"):
            its = self.items_of(recv)
            if name == "__iter__":
                return self.new_list(its, once=True)
            return self.list_method(self.new_list(its, "set"), name, a, kw)
        if isinstance(recv, App) and recv.op == "attr" and \
                name in ("item",):
            pass
        return self.array_method(recv, name, a, kw)

    def super_call(self, s, name, a, kw):
        after, slf = s.args
        if not isinstance(slf, Ref):
            if name == "__new__":
                c = a[0] if a else slf
                return self.alloc("inst", c, {})
            return NONE
        cls = self.obj(slf).cls
        return self.base_method(slf, name, a, kw, self.ext_bases(
            cls, after=after))

    def ext_init(self, ref, c, a, kw):
        return self.base_method(ref, "__init__", a, kw, self.ext_bases(c))

    def base_method(self, ref, name, a, kw, bases):
        """method inherited from an external base class"""
        if any(b.startswith("torch.optim.") for b in bases) or \
                self.obj(ref).f.get("%params") is not None:
            if name == "__init__":
                d = a[1] if len(a) > 1 else kw.get("defaults", NONE)
                arg = a[0] if a else kw.get("params")
                pairs = self.dict_pairs(d) if isinstance(d, Ref) and \
                    self.obj(d).kind == "dict" else [
                        (Const(k), v) for k, v in kw.items()
                        if k not in ("params", "defaults")]
                if d is not NONE and not isinstance(d, Ref):
                    pairs = [(Const("lr"), d)]
                self.optim_init(ref, arg, pairs)
                return NONE
            r = self.optim_method(ref, name, a, kw)
            if r is not None:
                return r
        if any(b.startswith("torch.nn.") for b in bases):
            r = self.module_method(ref, name, a, kw)
            if r is not None:
                return r
        if any(b.startswith("torch.distributions.") for b in bases):
            r = self.distbase_method(ref, name, a, kw)
            if r is not None:
                return r
        if name == "__init__":
            bb = [b for b in bases if b.startswith("builtins.") and
                  b.endswith(EXC_LIKE)]
            if bb:
                self.mut(ref).f["args"] = Tup(a)
            return NONE
        if any(b.startswith("sklearn.") for b in bases):
            if name == "get_params":
                return self.sk_get_params(ref)
            if name == "set_params":
                for k, v in kw.items():
                    self.set_attr(ref, k, v)
                return ref
            if name in ("_validate_data",):
                return self.sk_call("sklearn._validate_data",
                                    "validate_data", [ref] + a, kw)
            if name in ("_check_n_features", "_check_feature_names",
                        "__sklearn_tags__"):
                return NONE
            if name == "fit_transform":
                pass
            if name in ("score",):
                return self.op_call(BMeth(ref, name), a, kw)
        if name in ("__setattr__",):
            self.set_attr(ref, a[0].v, a[1])
            return NONE
        if name in ("__init_subclass__", "__post_init__"):
            return NONE
        if name in ("__repr__", "__str__"):
            return App("str", (ref,))
        self.note_opaque("inherited %s" % name)
        return self.op_call(BMeth(ref, name), a, kw)

    def sk_get_params(self, ref):
        c = self.obj(ref).cls
        init, _ = self.class_lookup(c, "__init__")
        r = self.fns[init.fid]
        a = r.node.args
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs][1:]
        return self.new_dict([(Const(n), self.get_attr(ref, n))
                              for n in names])

    def distbase_method(self, ref, name, a, kw):
        if name == "__init__":
            b = self.sigbind(("batch_shape", "event_shape"), a, kw)
            f = self.mut(ref).f
            f["_batch_shape"] = b.get("batch_shape", App("size", ()))
            f["_event_shape"] = b.get("event_shape", App("size", ()))
            return NONE
        if name == "_extended_shape":
            sh = a[0] if a else kw.get("sample_shape", App("size", ()))
            its = self.known_items(sh)
            b = self.known_items(self.get_attr(ref, "_batch_shape"))
            e = self.known_items(self.get_attr(ref, "_event_shape"))
            if its is not None and b is not None and e is not None:
                return App("size", its + b + e)
            return self.op_call(BMeth(ref, name), a, kw)
        if name == "sample":
            return self.op("detach", (self.call(self.get_attr(
                ref, "rsample"), a, kw),))
        if name == "_get_checked_instance":
            return self.alloc("inst", self.obj(ref).cls, {})
        if name == "_validate_sample":
            return NONE
        if name == "perplexity":
            return self.op("exp", (self.call(self.get_attr(
                ref, "entropy"), [], {}),))
        return None

    def ext_method(self, ref, o, name, a, kw):
        cls = o.cls.name if o.cls is not None else ""
        if self.is_torch_module(ref):
            r = self.module_method(ref, name, a, kw)
            if r is not None:
                return r
        if "%params" in o.f:
            r = self.optim_method(ref, name, a, kw)
            if r is not None:
                return r
        if cls in ("re.Pattern", "re.Match"):
            return self.regex("re." + name, ref, a, kw)
        if ".lr_scheduler." in cls:
            self.ev("sched", ref=ref, name=name)
            return NONE
        if cls in ("numpy.random.RandomState", "numpy.random.default_rng",
                   "random.Random", "torch.Generator"):
            if name in ("manual_seed", "seed"):
                self.mut(ref).f["%seed"] = a[0] if a else NONE
                return ref
            self.ndraw += 1
            self.ev("rng_draw", src=cls, what=name, gen=ref)
            if name == "shuffle" and a:
                return self.shuffled(a[0])
            return App("draw_np", (Const(self.ndraw), Const(name)) + tuple(
                self.freeze(x) for x in a), {"lib": Const("numpy")})
        if cls.startswith("cvxpy.Problem"):
            if name == "solve":
                self.ev("cvx_solve", ref=ref, kw=dict(kw))
                return App("cvxsol", (ref,))
        if cls.startswith("sklearn."):
            r = self.sk_obj_method(ref, name, a, kw)
            if r is not None:
                return r
        if cls.startswith("cvxpy."):
            return self.array_method(ref, name, a, kw)
        if cls.startswith("user."):
            h = self.facts.get(ref, {}).get("method_" + name)
            if h is not None:
                return h(self, ref, a, kw)
        self.note_opaque("method %s of %s" % (name, cls))
        self.ev("extcall", name=cls + "." + name, args=(ref,) + tuple(a),
                kw=dict(kw))
        return App("xcall", (Const("meth:" + name), ref) + tuple(
            self.freeze(x) for x in a),
            {k: self.freeze(v) for k, v in kw.items()})

    def array_method(self, x, name, a, kw):
        kw0 = kw
        if name.endswith("_") and not name.startswith("_") and \
                name not in ("requires_grad_",):
            return self.inplace_method(x, name, a, kw)
        if name == "requires_grad_":
            v = a[0] if a else kw.get("requires_grad", TRUE)
            if isinstance(x, Ref):
                self.set_attr(x, "requires_grad", self.freeze(v))
                return x
            return x
        if name in ("detach", "cpu", "numpy", "contiguous", "cuda",
                    "resolve_conj", "type_as"):
            return self.op({"cuda": "cpu", "resolve_conj": "cpu",
                            "type_as": "cpu"}.get(name, name), (x,))
        if name in ("clone", "copy"):
            return self.op("clone", (x,))
        if name == "to":
            return self.op("to", (x,))
        if name in ("float", "double", "half"):
            return self.op("to", (x,))
        if name in ("astype", "type"):
            if is_const(kw.get("copy", TRUE), False):
                return self.op("to", (x,))
            return self.op("astype", (x,))
        if name in ("int", "long", "bool"):
            if name == "bool":
                return self.op("truth_arr", (x,))
            return self.op("astype_int", (x,))
        if name == "item":
            return self.op("item", (x,))
        if name == "tolist":
            return self.op("tolist", (x,))
        if name in ("toarray", "todense") and isinstance(x, App) \
                and x.op.startswith("sk_"):
            return x
        if name in ("dim", "ndimension"):
            n = self.rank(x)
            return Const(n) if n is not None else self.op("dim", (x,))
        if name == "size":
            if a or "dim" in kw:
                d = a[0] if a else kw["dim"]
                return self.get_item(self.shape_value(x), d)
            return self.shape_value(x)
        if name == "numel":
            s = self.shape(x)
            if s is not None:
                return dimprod(s) if s else ONE
            return self.op("numel", (x,))
        if name in ("backward",):
            return self.backward(x, a, kw)
        if name == "register_hook" or name == "retain_grad":
            return NONE
        if name == "split" or name == "join" or name == "format":
            r = self.str_method(x, name, a, kw)
            if r is not None:
                return r
        if name in ("view_as", "reshape_as", "expand_as"):
            sv = self.shape_value(a[0])
            its = self.known_items(sv)
            return self.op("expand" if name == "expand_as" else "reshape",
                           [x] + (its if its is not None else [sv]))
        if name == "unflatten":
            b = self.sigbind(("dim", "sizes"), a, kw)
            s, d = self.shape(self.freeze(x)), b.get("dim")
            its = self.known_items(b["sizes"])
            if s is not None and its is not None and is_num(d):
                k = int(d.v) % len(s)
                return self.op("reshape", [x] + list(s[:k]) + self.shape_args(
                    list(its)) + list(s[k + 1:]))
        if name == "view" or name == "reshape":
            kw.pop("order", None)
            return self.op("reshape", [x] + self.shape_args(
                a or [kw.get("shape", NONE)]))
        if name == "dot":
            return self._array_fn("torch", "matmul", [x] + a, {}) if \
                self.rank(x) != 0 and self.rank(a[0]) != 0 else \
                self.binop("mul", x, a[0])
        if name == "copy":
            return self.op("copy", (x,))
        if name == "sort" and self.kindmemo(x) == "numpy":
            new = self.op("sort", (x,), {KWREN.get(k, k): v
                                         for k, v in kw.items()})
            self.inplace(x, new, "sort")
            return NONE
        if name in ("partition", "put", "itemset", "resize", "byteswap") \
                and self.kindmemo(x) == "numpy" and (
                    name != "byteswap" or a):
            self.inplace(x, self.op("inplaced", [x, Const(name)] + list(a)),
                         name)
            return NONE
        if name == "flatten" and self.kindmemo(x) == "numpy":
            return self._array_fn("numpy", "flatten", [x], {})
        if name == "fill" and self.kindmemo(x) == "numpy":
            self.inplace(x, self.op("full_like", (x, a[0])), "fill")
            return NONE
        if name in ("new_zeros", "new_ones", "new_empty", "new_full",
                    "new_tensor"):
            if name == "new_tensor":
                return self.mk_tensor(a[0], {})
            if name == "new_full":
                return self.op("full", a[:2])
            return self.op(name[4:], self.shape_args(a),
                           {"lib": Const("torch")})
        if name == "masked_fill":
            return self.op("where", (a[0], a[1], x))
        if name == "nelement":
            return self.array_method(x, "numel", a, kw)
        if name == "is_floating_point":
            return TRUE
        if name == "is_leaf":
            return TRUE
        if name == "element_size":
            return ONE
        if name == "equal" and len(a) == 1:
            return self.ext_call("torch.equal", [x, a[0]], {})
        if name in CMP and len(a) == 1:
            return self.compare(CMP[name], x, a[0])
        if name == "logical_not":
            return self.op("logical_not", (x,))
        if name == "requires_grad":
            return FALSE
        if name.startswith("__") and name.endswith("__"):
            m = {"__add__": "add", "__sub__": "sub", "__mul__": "mul",
                 "__truediv__": "div", "__pow__": "pow"}.get(name)
            if m:
                return self.binop(m, x, a[0])
        top = "numpy" if self.kindmemo(x) == "numpy" else "torch"
        r = self.array_fn(top, name, [x] + list(a), dict(kw))
        if r is not None:
            return r
        self.note_opaque("method ." + name)
        self.ev("extcall", name="." + name, args=(x,) + tuple(a),
                kw=dict(kw))
        return App("xcall", (Const("meth:" + name), self.freeze(x)) + tuple(
            self.freeze(y) for y in a),
            {k: self.freeze(v) for k, v in kw0.items()})

    def inplace_method(self, x, name, a, kw):
        base = name[:-1]
        if base in ("zero",):
            new = self.op("zeros_like", (x,))
        elif base == "fill":
            new = self.op("full_like", (x, a[0]))
        elif base == "copy":
            new = self.op("clone", (a[0],))
        elif base in ("normal", "uniform", "bernoulli", "exponential",
                      "random", "cauchy"):
            self.ndraw += 1
            self.ev("rng_draw", src="torch", what="Tensor." + name,
                    gen=kw.get("generator", NONE))
            new = App("draw_" + base, (Const(self.ndraw),),
                      {"lib": Const("torch")})
        elif base in ("squeeze", "unsqueeze", "t", "transpose", "detach",
                      "resize", "share_memory"):
            new = self.array_method(x, base, a, kw)
            self.ev("mutate", target=x, root=self.alias_root(x), how=name,
                    val=new)
            self.rebind_aliases(x, new)
            return new
        elif base == "masked_fill":
            new = self.op("where", (a[0], a[1], x))
        elif base == "addcmul":
            new = self.binop("add", x, self.binop("mul", a[0], a[1]))
        else:
            new = self.array_fn("torch", base, [x] + list(a), dict(kw))
            if new is None:
                self.note_opaque("method ." + name)
                new = self.op("inplaced", [x, Const(name)] + list(a))
        new = self.freeze(new)
        r = self.inplace(x, new, name)
        return r

    # ------------------------------------------------------------ attributes
    def shape_value(self, v):
        s = self.shape(v)
        if s is not None:
            return App("size", s)
        f = self.freeze(v)
        return self.mk("shapeof", (f,))

    def value_attr(self, v, name):
        if isinstance(v, App) and v.op == "dist":
            return self.dist_attr(v, name)
        if isinstance(v, App) and v.op in ("exc",):
            if name == "args":
                return Tup(v.args[1:])
            return self.op("attr", (v, Const(name)))
        if isinstance(v, App) and v.op == "enum":
            return v.args[1] if name == "value" else App(
                "attr", (v, Const(name)))
        if isinstance(v, App) and v.op == "partial":
            if name == "func":
                return v.args[0]
            if name == "args":
                return Tup(v.args[1:])
        if isinstance(v, Const) and isinstance(v.v, str):
            return BMeth(v, name)
        if isinstance(v, Tup) and len(v.items) == 2 and isinstance(
                v.items[1], App) and v.items[1].op[:3] == "arg" and \
                name in ("values", "indices"):
            return v.items[0 if name == "values" else 1]
        if name == "shape":
            return self.shape_value(v)
        if name in ("ndim",):
            n = self.rank(v)
            return Const(n) if n is not None else self.op("dim", (v,))
        if name == "T" or name == "mT":
            return self.op("T", (v,))
        if name == "size" and self.kindmemo(v) == "numpy":
            s = self.shape(v)
            return dimprod(s) if s else self.op("numel", (v,))
        if name == "data":
            return self.op("data", (v,))
        if name in ("device", "dtype"):
            return App("meta", (Const(name),))
        if name == "grad":
            return self.value_grad(v)
        if name == "requires_grad":
            return self.fact(v, "requires_grad", Const(
                bool(self.graph_params(self.freeze(v)))))
        if name == "is_leaf":
            return TRUE
        if name == "value" and self.is_cvx(v):
            return App("cvxval", (self.freeze(v),))
        if isinstance(v, App) and v.op == "pzdict" and \
                "%parametrized_" + name in self.obj(v.args[0]).f:
            return App("pzlist", (v.args[0], Const(name)))
        if isinstance(v, App) and v.op == "pzlist" and name == "original":
            return self.obj(v.args[0]).f[v.args[1].v]
        if name == "__class__":
            return self.b_type([v], {})
        if isinstance(v, (App, Sym, Const, Tup)):
            f = self.facts.get(v)
            if f and "attrs" in f:
                if name in f["attrs"]:
                    return f["attrs"][name]
                return self.op("attr", (v, Const(name)))
            if isinstance(v, Const) and v.v is not None and not isinstance(
                    v.v, str):
                if name in ("real", "imag"):
                    return v
                if isinstance(v.v, float) and name == "is_integer":
                    return BMeth(v, name)
                self.raise_("AttributeError")
            return BMeth(v, name)
        return self.op("attr", (v, Const(name)))

    def value_grad(self, v):
        f = self.fact(v, "grad")
        if f is not None:
            return f
        return App("gradof", (self.freeze(v),))

    def is_cvx(self, v):
        for x in walk(v):
            if isinstance(x, Ref):
                o = self.st.heap.get(x.oid)
                if o is not None and o.kind == "ext" and o.cls.name in (
                        "cvxpy.Variable", "cvxpy.Problem"):
                    return True
        return False

    def ext_obj_attr(self, ref, name):
        o = self.obj(ref)
        if o.kind == "param":
            if name in ("requires_grad", "grad"):
                return o.f[name]
            if name in ("data",):
                return App("data", (ref,))
            return self.value_attr_param(ref, name)
        if o.kind in ("list", "dict", "set"):
            return BMeth(ref, name)
        if name == "parametrizations" and any(
                k.startswith("%parametrized_") for k in o.f):
            return App("pzdict", (ref,))
        if name in o.f and name[:1] != "%":
            x = o.f[name]
            if isinstance(x, Ref) and "%parametrized_" + name in o.f:
                return self.parametrized(ref, name)
            if x is not UNDEF:
                return x if not (isinstance(x, Ite) and UNDEF in (x.a, x.b)
                                 ) else self.cond_field(x, ref, name)
        cls = o.cls.name if o.cls is not None else ""
        if o.kind == "ext":
            if cls.startswith("cvxpy."):
                if name == "value":
                    return App("cvxval", (ref,))
                if name == "status":
                    return Const("optimal")
                if name in ("shape", "T", "size"):
                    return self.value_attr(ref, name)
                return BMeth(ref, name)
            if "[" in name:
                pass
            if self.is_torch_module(ref) or "%params" in o.f:
                if name in ("in_features",):
                    self.raise_("AttributeError")
                if name in self.MODMETH or "%params" in o.f:
                    return BMeth(ref, name)
                if cls.startswith("user."):
                    return BMeth(ref, name)
                self.raise_("AttributeError")
            return BMeth(ref, name)
        if o.kind == "inst":
            bases = self.ext_bases(o.cls)
            if any(b.startswith("torch.distributions.") for b in bases):
                if name == "batch_shape":
                    return self.get_attr(ref, "_batch_shape")
                if name == "event_shape":
                    return self.get_attr(ref, "_event_shape")
                if name == "_validate_args":
                    return FALSE
                if name == "stddev":
                    return self.op("sqrt", (self.get_attr(
                        ref, "variance"),))
                if name in ("sample", "_extended_shape", "perplexity",
                            "_get_checked_instance", "_validate_sample",
                            "__init__", "rsample", "log_prob", "expand"):
                    return BMeth(ref, name)
            if any(b.startswith("torch.nn.") for b in bases):
                if name in self.MODMETH:
                    return BMeth(ref, name)
                self.raise_("AttributeError")
            if any(b.startswith("torch.optim.") for b in bases) or \
                    "%params" in o.f:
                if name in ("step", "zero_grad", "state_dict",
                            "load_state_dict", "add_param_group",
                            "__init__", "profile_hook_step",
                            "__setstate__"):
                    return BMeth(ref, name)
                self.raise_("AttributeError")
            if any(b.startswith("sklearn.") for b in bases):
                if name in ("get_params", "set_params", "_validate_data",
                            "_check_n_features", "_check_feature_names",
                            "score", "fit_predict", "fit_transform",
                            "__sklearn_tags__", "_more_tags", "_get_tags",
                            "_get_param_names", "__init__", "__repr__",
                            "__getstate__", "__setstate__"):
                    return BMeth(ref, name)
                self.raise_("AttributeError")
            if name.startswith("__"):
                return BMeth(ref, name)
            known = all(self.known_base(b) for b in bases)
            if known:
                self.raise_("AttributeError")
            return BMeth(ref, name)
        return BMeth(ref, name)

    MODMETH = frozenset("""parameters named_parameters buffers named_buffers
    children named_children modules named_modules train eval to float double
    cpu cuda half type requires_grad_ zero_grad state_dict load_state_dict
    register_parameter register_buffer register_module add_module apply
    __init__ forward __call__ __setattr__ __getattr__ __repr__ extra_repr
    _get_name register_forward_hook register_full_backward_hook
    register_forward_pre_hook share_memory compile get_parameter training
    __delattr__ parametrizations _parameters _modules _buffers""".split())

    def known_base(self, b):
        return b in ("builtins.object", "abc.ABC", "typing.Generic",
                     "typing.Protocol") or b.startswith(
                         ("typing.", "abc.", "builtins.",
                          "collections.abc."))

    def value_attr_param(self, ref, name):
        if name == "shape":
            return self.shape_value(ref)
        if name in ("T", "ndim", "device", "dtype", "is_leaf"):
            return self.value_attr(ref, name)
        return BMeth(ref, name)

    def ext_hasattr(self, ref, n):
        if not isinstance(ref, Ref):
            return App("hasattr", (ref, Const(n)))
        o = self.obj(ref)
        if n in o.f and n[:1] != "%":
            return TRUE
        if o.kind == "param":
            return Const(n in ("grad", "data", "requires_grad", "shape",
                               "dim", "item", "clone", "detach", "ndim",
                               "dtype", "device"))
        if o.kind == "inst":
            try:
                self.prop_ok = True
                v = self.prop_probe(ref, n)
                return Const(v)
            except Exception:
                return App("hasattr", (ref, Const(n)))
        if self.is_torch_module(ref):
            return Const(n in self.MODMETH)
        if "%params" in o.f:
            return Const(n in ("step", "zero_grad", "state_dict",
                               "load_state_dict", "param_groups", "state",
                               "defaults", "add_param_group"))
        if o.kind in ("list", "dict", "set"):
            return Const(hasattr({"list": list, "dict": dict,
                                  "set": set}[o.kind], n))
        return App("hasattr", (ref, Const(n)))

    def prop_probe(self, ref, n):
        try:
            self.ext_obj_attr(ref, n)
            return True
        except AbsRaise:
            return False

    def value_set_attr(self, v, name, val):
        if name == "data":
            self.inplace(v, self.freeze(val), "data=")
            return
        if name == "requires_grad":
            return
        self.ev("setattr", ref=v, name=name, val=val, old=UNDEF)

    def obj_set(self, ref, name, val):
        o = self.obj(ref)
        if o.kind == "param":
            if name == "data":
                self.inplace(ref, self.freeze(val), "data=")
                return
            if name in ("requires_grad", "grad"):
                self.mut(ref).f[name] = val
                return
        self.mut(ref).f[name] = val

    def value_item(self, v, k):
        if isinstance(k, Ref) and self.obj(k).kind == "list":
            k = self.op("array", (self.arr_data(k),))
        if isinstance(v, App) and v.op in ("cvxval",):
            return self.mk("cvxval", (self.op("getitem", (
                v.args[0], k)),))
        if isinstance(v, App) and v.op in ("array", "asarray", "tensor") \
                and isinstance(v.args[0], Tup) and isinstance(k, Const) and \
                isinstance(k.v, int) and not any(
                    isinstance(x, App) and x.op == "each"
                    for x in v.args[0].items) and \
                -len(v.args[0].items) <= k.v < len(v.args[0].items):
            return v.args[0].items[k.v]
        p = self.pick(v, k)
        if p is not None:
            return p
        if isinstance(v, App) and v.op == "shapeof":
            return self.mk("sizeof", (v.args[0], self.freeze(k)))
        if isinstance(v, App) and v.op == "attr" or isinstance(v, Ext):
            return self.op("getitem", (v, k))
        if self.rank(v) is not None and isinstance(k, Const) and \
                isinstance(k.v, int) and not isinstance(k.v, bool):
            s = self.shape(v)
            if not s:
                self.raise_("IndexError")
            if k.v < 0 and isinstance(s[0], Const):
                k = Const(k.v + s[0].v)
        return self.op("getitem", (v, k))

    def pick(self, v, k):
        """entry of a stacked array at a constant index along one axis"""
        ks = list(k.items) if isinstance(k, Tup) else [k]
        s = self.shape(v)
        if not isinstance(v, App) or s is None:
            return None
        if is_const(ks[0], Ellipsis):
            ks = [FULL] * (len(s) - len(ks) + 1) + ks[1:]
        at = [i for i, x in enumerate(ks) if x is not FULL]
        if len(at) != 1 or len(ks) > len(s):
            return None
        j = ks[at[0]]
        if not isinstance(j, Const) or type(j.v) is not int:
            return None
        n = s[at[0]]
        if not isinstance(n, Const) or not -n.v <= j.v < n.v:
            return None
        return self.pick_at(v, at[0], j.v % n.v, n.v)

    def pick_at(self, v, axis, j, n):
        if not isinstance(v, App):
            return None
        if v.op in ("array", "asarray", "tensor") and isinstance(
                v.args[0], Tup):
            its = v.args[0].items
            return its[j] if axis == 0 and len(its) == n else None
        if v.op in ("numpy", "cpu", "detach", "astype", "array", "asarray",
                    "as_tensor", "to", "valid", "copy", "clone"):
            return self.pick_at(v.args[0], axis, j, n)
        if v.op == "T" and len(self.shape(v) or ()) == 2:
            return self.pick_at(v.args[0], 1 - axis, j, n)
        if v.op == "stack":
            d = dict(v.kw).get("dim", ZEROC)
            if isinstance(d, Const) and isinstance(v.args[0], Tup) and \
                    d.v % len(self.shape(v)) == axis and \
                    len(v.args[0].items) == n:
                return v.args[0].items[j]
        if v.op == "setitem":
            k = v.args[1]
            ks = list(k.items) if isinstance(k, Tup) else [k]
            at = [i for i, x in enumerate(ks) if x is not FULL]
            if at != [axis] or not isinstance(ks[axis], Const) or \
                    type(ks[axis].v) is not int:
                return None
            if ks[axis].v % n == j:
                return v.args[2]
            return self.pick_at(v.args[0], axis, j, n)
        return None

    # ----------------------------------------------------------------- table
    def regex(self, name, ref, a, kw):
        """Regular expressions over constant strings."""
        last = name.rsplit(".", 1)[-1]
        if ref is not None:
            a = list(self.obj(ref).f["%re"].items) + list(a)
        for i, x in enumerate(a):
            if isinstance(x, Ite):
                return self.split(
                    x.c, lambda: self.regex("re." + last, None,
                                            a[:i] + [x.a] + a[i + 1:], kw),
                    lambda: self.regex("re." + last, None,
                                       a[:i] + [x.b] + a[i + 1:], kw))
        p = [self.plain(x) for x in a]
        if kw or any(x is None for x in p) or not p:
            return None
        p = [x[0] for x in p]
        if last == "compile":
            return self.alloc("ext", Ext("re.Pattern"), {"%re": Tup(a)})
        if last in ("match", "search", "fullmatch"):
            if getattr(re, last)(*p) is None:
                return NONE
            return self.alloc("ext", Ext("re.Match"), {
                "%re": Tup([Const("re:" + last)] + list(a))})
        if str(p[0])[:3] == "re:" and p[0][3:] in (
                "match", "search", "fullmatch"):
            m = getattr(re, p[0][3:])(*p[1:3])
            r = getattr(m, last)(*p[3:])
        elif last in ("sub", "split", "findall", "escape"):
            r = getattr(re, last)(*p)
        else:
            return None
        if isinstance(r, list):
            return self.new_list([Const(x) for x in r])
        if isinstance(r, tuple):
            return Tup(Const(x) for x in r)
        return Const(r)

    CALLS = {}


def _torch_func():
    C = Lib.CALLS
    C["torch.nn.Parameter"] = Lib.c_parameter
    C["torch.manual_seed"] = Lib.c_manual_seed
    C["torch.random.manual_seed"] = Lib.c_manual_seed
    C["torch.seed"] = Lib.c_manual_seed
    C["torch.cuda.manual_seed"] = lambda s, a, k: NONE
    C["torch.cuda.manual_seed_all"] = lambda s, a, k: NONE
    C["torch.Generator"] = Lib.c_generator
    C["torch.func.grad"] = Lib.c_grad
    C["torch.func.vmap"] = lambda s, a, k: s._array_fn("torch", "vmap", a, k)
    C["torch.func.functional_call"] = Lib.c_functional_call
    C["torch.vmap"] = C["torch.func.vmap"]
    C["torch.nn.utils.parametrize.register_parametrization"] = \
        Lib.c_register_parametrization
    C["mechanic_pytorch.mechanize"] = Lib.c_mechanize
    C["torch.autograd.grad"] = Lib.autograd_grad


_torch_func()
