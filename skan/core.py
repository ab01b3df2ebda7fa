"""Python-level semantics: truth, comparison, containers, builtins."""
import math

from .values import (V, Const, Sym, App, Ite, Tup, Ref, Fn, Bound, Cls, Mod,
                     Ext, Prop, BMeth, NONE, TRUE, FALSE, UNDEF, is_const,
                     is_num, walk, rebuild, children, keep_exact)
from .heap import ite, merge
from .interp import Interp, Unsupported, AbsRaise, Leaf, _DUNDER

NEG, ZER, POS, NAN = "-", "0", "+", "n"
ANYSIGN = frozenset((NEG, ZER, POS, NAN))
FINITE = frozenset((NEG, ZER, POS))

# wrappers that do not change the (scalar) value
TRANSP = frozenset("""tensor item float to detach clone copy valid numpy cpu
contiguous astype as_tensor asarray from_numpy data requires_grad_ array
double tolist int_exact squeeze unsqueeze reshape view flatten ravel expand
T transpose param_init broadcast row stackrow deepcopy constant torch_Tensor
npfloat swapaxes permute""".split())

# operations returning (possibly) the same storage as their first operand
ALIAS = frozenset("""detach data view reshape squeeze unsqueeze T transpose
flatten ravel to cpu numpy from_numpy as_tensor asarray valid expand getitem
requires_grad_ contiguous swapaxes permute row elem param_init broadcast
""".split())

EXC_PARENTS = {
    "builtins.NotImplementedError": "builtins.RuntimeError",
    "builtins.RecursionError": "builtins.RuntimeError",
    "builtins.UnboundLocalError": "builtins.NameError",
    "builtins.KeyError": "builtins.LookupError",
    "builtins.IndexError": "builtins.LookupError",
    "builtins.ZeroDivisionError": "builtins.ArithmeticError",
    "builtins.OverflowError": "builtins.ArithmeticError",
    "builtins.UnicodeError": "builtins.ValueError",
    "builtins.DeprecationWarning": "builtins.Warning",
    "builtins.UserWarning": "builtins.Warning",
    "builtins.RuntimeWarning": "builtins.Warning",
    "builtins.FutureWarning": "builtins.Warning",
    "sklearn.exceptions.DataConversionWarning": "builtins.UserWarning",
    "sklearn.exceptions.NotFittedError": "builtins.ValueError",
}


# operations whose entries are entries of their first argument
SAMESIGN = frozenset((
    "data", "detach", "clone", "reshape", "view", "squeeze", "unsqueeze",
    "flatten", "expand", "amax", "amin", "max", "min", "median", "getitem",
    "transpose", "permute", "T", "item", "to", "contiguous", "float",
    "double", "array", "as_tensor", "repeat", "expand_as", "view_as"))


class Core(Interp):

    # -------------------------------------------------------- value helpers
    def strip(self, v):
        """Value behind wrappers that keep a scalar's value."""
        while True:
            if isinstance(v, App) and v.op in TRANSP and v.args:
                v = v.args[0]
            elif isinstance(v, Ref) and self.obj(v).kind == "param":
                w = self.freeze(v)
                if w is v or (isinstance(w, App) and w.op == "par"):
                    return w
                v = w
            else:
                return v

    def fact(self, v, key, default=None):
        f = self.facts.get(v)
        if f is not None and key in f:
            return f[key]
        return default

    def sign(self, v, depth=0):
        v = self.strip(v)
        s = self.fact(v, "sign")
        if s is not None:
            s = frozenset(s)
        else:
            s = self._sign(v, depth)
        # branch conditions in force
        for c, pol in self.st.pc:
            if isinstance(c, App) and c.op in ("lt", "le", "eq") \
                    and len(c.args) == 2:
                a, b = self.strip(c.args[0]), self.strip(c.args[1])
                if a is v and is_num(b) and b.v == 0:
                    keep = {"lt": {NEG}, "le": {NEG, ZER},
                            "eq": {ZER}}[c.op]
                elif b is v and is_num(a) and a.v == 0:
                    keep = {"lt": {POS}, "le": {POS, ZER},
                            "eq": {ZER}}[c.op]
                else:
                    continue
                s = s & keep if pol else s - keep
        return s

    def _sign(self, v, depth):
        if depth > 12:
            return ANYSIGN
        d = depth + 1
        if is_num(v):
            x = v.v
            if isinstance(x, float) and math.isnan(x):
                return frozenset((NAN,))
            return frozenset((POS if x > 0 else NEG if x < 0 else ZER,))
        if isinstance(v, Ite):
            return self.sign(v.a, d) | self.sign(v.b, d)
        if isinstance(v, App):
            o = v.op
            if o in ("mul", "div") and len(v.args) == 2:
                a, b = self.sign(v.args[0], d), self.sign(v.args[1], d)
                out = set()
                for x in a:
                    for y in b:
                        if NAN in (x, y):
                            out.add(NAN)
                        elif o == "div" and y == ZER:
                            out |= {NEG, POS, NAN}
                        elif x == ZER or y == ZER:
                            out.add(ZER)
                        else:
                            out.add(POS if x == y else NEG)
                return frozenset(out)
            if o == "neg":
                m = {NEG: POS, POS: NEG, ZER: ZER, NAN: NAN}
                return frozenset(m[x] for x in self.sign(v.args[0], d))
            if o == "add":
                out = set()
                for x in self.sign(v.args[0], d):
                    for y in self.sign(v.args[1], d):
                        if NAN in (x, y):
                            out.add(NAN)
                        elif x == ZER:
                            out.add(y)
                        elif y == ZER or x == y:
                            out.add(x)
                        else:
                            out |= {NEG, ZER, POS}
                return frozenset(out)
            if o == "pow":
                a = self.sign(v.args[0], d)
                e = self.strip(v.args[1])
                if is_num(e):
                    if e.v == 0:
                        return frozenset((POS,))
                    if a <= {POS}:
                        return frozenset((POS,))
                    if a <= {POS, ZER} and e.v > 0:
                        return a
                    if float(e.v).is_integer() and e.v % 2 == 0:
                        return frozenset((POS, ZER, NAN))
                if a <= {POS}:
                    return frozenset((POS,))
                if NEG not in a:
                    return frozenset((POS, ZER, NAN))
            if o in ("exp", "sizeof", "len", "softplus"):
                return frozenset((POS,))
            if o in ("abs", "norm", "relu", "sqrt", "square"):
                return frozenset((ZER, POS, NAN))
            if o in ("maximum", "clamp_min"):
                a, b = self.sign(v.args[0], d), self.sign(v.args[1], d)
                if POS in b and b <= {POS} or a <= {POS}:
                    return frozenset((POS,)) | ((a | b) & {NAN})
                if b <= {POS, ZER} or a <= {POS, ZER}:
                    return frozenset((POS, ZER)) | ((a | b) & {NAN})
            if o in ("dim", "ones_like"):
                return frozenset((POS,))
            if o == "zeros_like":
                return frozenset((ZER,))
            if o == "sigmoid":
                return frozenset((ZER, POS, NAN))
            if o in ("sum", "mean", "nansum", "nanmean"):
                a = self.sign(v.args[0], d)
                if {NEG, POS} <= a:
                    a = a | {ZER}
                return a
            if o in SAMESIGN and v.args:
                return self.sign(v.args[0], d)
            if o == "par" and len(v.args) == 1 and isinstance(
                    v.args[0], Ref) and v.args[0].oid in self.st.heap:
                i = self.obj(v.args[0]).f.get("%init")
                if i is not None and i is not v:
                    return self.sign(i, d)
        return ANYSIGN

    # --------------------------------------------------------------- truth
    def truth(self, v):
        if isinstance(v, Const):
            return Const(bool(v.v))
        if self.is_bool_typed(v):
            return v
        if isinstance(v, Ite):
            return ite(v.c, self.truth(v.a), self.truth(v.b))
        if isinstance(v, Tup):
            return Const(len(v.items) > 0)
        if isinstance(v, (Fn, Bound, Cls, Mod, Ext, BMeth)):
            return TRUE
        if isinstance(v, Ref):
            o = self.obj(v)
            if o.kind in ("list", "set", "dict"):
                it = o.f.get("items")
                if isinstance(it, Tup):
                    if any(not (isinstance(x, App) and x.op == "each")
                           for x in it.items):
                        return TRUE
                    return Const(False) if not it.items else App(
                        "truth", (v,))
            if o.kind == "inst":
                m = self.find_method(v, "__bool__")
                if m is not None:
                    return self.truth(self.call(m, [], {}))
                return TRUE
            if o.kind == "ext":
                return TRUE
            if o.kind == "param":
                return App("truth", (self.freeze(v),))
        s = self.strip(v)
        if s is not v and (self.is_bool_typed(s) or isinstance(s, Const)):
            return self.truth(s)
        if isinstance(s, App) and s.op in ("partial", "vmapfn", "gradfn",
                                           "dist"):
            return TRUE
        if isinstance(s, App) and s.op in ("any", "all", "isnan", "isinf",
                                           "isfinite", "logical_not",
                                           "bitor", "bitand"):
            return s
        return App("truth", (s,))

    def pc_value(self, c):
        for k, pol in reversed(self.st.pc):
            if k is c:
                return pol
        return None

    def implied(self, c):
        """value of an atomic condition forced by the compound conditions
        in force"""
        for k, pol in self.st.pc:
            if isinstance(k, Ite):
                for val in (True, False):
                    r = self.peval(k, c, val)
                    if r is not None and r is not pol:
                        return not val
        return None

    def peval(self, k, c, val):
        if k is c:
            return val
        if isinstance(k, Const):
            return bool(k.v)
        if isinstance(k, App) and k.op == "not":
            r = self.peval(k.args[0], c, val)
            return None if r is None else not r
        if isinstance(k, Ite):
            t = self.peval(k.c, c, val)
            if t is not None:
                return self.peval(k.a if t else k.b, c, val)
            a, b = self.peval(k.a, c, val), self.peval(k.b, c, val)
            return a if a == b else None
        return self.pc_value(k)

    def decide(self, c):
        if isinstance(c, Const):
            return bool(c.v)
        p = self.pc_value(c)
        if p is None and not isinstance(c, Ite):
            p = self.implied(c)
        if p is not None:
            return p
        for orc in self.oracles:
            r = orc(self, c)
            if r is not None:
                return r
        if isinstance(c, Ite):
            d = self.decide(c.c)
            if d is not None:
                return self.decide(c.a if d else c.b)
            a, b = self.decide(c.a), self.decide(c.b)
            return a if a == b else None
        if not isinstance(c, App):
            return None
        if c.op == "not":
            d = self.decide(c.args[0])
            return None if d is None else not d
        if c.op in ("eq", "lt", "le"):
            return self.decide_cmp(c.op, *c.args)
        if c.op == "truth":
            s = self.sign(c.args[0])
            if s <= {NEG, POS, NAN}:
                return True
            if s <= {ZER}:
                return False
            return None
        if c.op == "logical_not":
            d = self.decide(c.args[0])
            return None if d is None else not d
        if c.op in ("any", "all") and c.args:
            return self.decide(self.strip(c.args[0]))
        if c.op in ("isnan", "isinf", "isfinite") and any(
                isinstance(t, App) and t.op in ("cvxval", "cvxsol")
                for t in walk(c.args[0])):
            # the dedicated solvers are assumed to find a solution
            return c.op == "isfinite"
        if c.op == "isnan":
            s = self.sign(c.args[0])
            if NAN not in s:
                return False
            if s <= {NAN}:
                return True
        if c.op == "isfinite":
            s = self.sign(c.args[0])
            if s <= {NAN}:
                return False
        if c.op == "is":
            return self.decide_is(*c.args)
        return None

    oracles = ()

    def decide_is(self, a, b):
        if a is b:
            return True
        if b is NONE:
            a, b = b, a
        if a is NONE:
            if isinstance(b, Sym):
                return self.fact(b, "none", False)
            if isinstance(b, (App, Tup, Ref, Fn, Bound, Cls, Ext, BMeth,
                              Const)):
                if isinstance(b, App) and b.op in (
                        "call", "xcall", "attr", "getitem", "loopvar",
                        "loopres", "elem"):
                    return self.fact(b, "none")
                return False
        if isinstance(a, Ref) and isinstance(b, Ref):
            return False
        if isinstance(a, (Const, Cls, Ext)) and isinstance(
                b, (Const, Cls, Ext)):
            return False
        kinds = (Ref, Const, Cls, Ext, Fn, Bound, Tup)
        if isinstance(a, kinds) and isinstance(b, kinds) and \
                type(a) is not type(b):
            return False
        if isinstance(a, (Cls, Ext, Fn)):
            a, b = b, a
        if isinstance(b, (Cls, Ext, Fn)) and isinstance(a, (Sym, App)):
            t = self.type_name(a)
            if t in ("builtins.float", "builtins.int", "builtins.bool",
                     "builtins.str", "torch.Tensor", "numpy.ndarray"):
                return False
        return None

    def decide_cmp(self, op, a, b):
        a, b = self.strip(a), self.strip(b)
        if isinstance(a, Const) and isinstance(b, Const):
            try:
                if op == "eq":
                    return a.v == b.v
                return a.v < b.v if op == "lt" else a.v <= b.v
            except TypeError:
                return None
        if op == "eq":
            if a is b:
                return None if NAN in self.sign(a) and (
                    self.maybe_nan(a) or isinstance(a, App)
                    and self.numeric(a)) else True
            if isinstance(a, Const) and isinstance(a.v, str) or \
                    isinstance(b, Const) and isinstance(b.v, str):
                o = b if isinstance(a, Const) else a
                if self.is_definitely_not_str(o):
                    return False
                return None
            if a is NONE or b is NONE:
                d = self.decide_is(a, b)
                return d
            for x, y in ((a, b), (b, a)):
                if is_num(x) and isinstance(x.v, float) and math.isinf(
                        x.v) and self.fact(y, "finite"):
                    return False
        zero_b = is_num(b) and b.v == 0
        zero_a = is_num(a) and a.v == 0
        if not (zero_a or zero_b):
            if is_num(a) or is_num(b):
                # compare signs only when conclusive
                sa, sb = self.sign(a), self.sign(b)
            else:
                d = App("sub", (a, b)) if False else None
                sa, sb = self.sign(a), self.sign(b)
            if NAN in sa or NAN in sb:
                if sa <= {NAN} or sb <= {NAN}:
                    return False
                return None
            order = {NEG: -1, ZER: 0, POS: 1}
            mx_a = max(order[x] for x in sa) if sa else 0
            mn_a = min(order[x] for x in sa) if sa else 0
            mx_b = max(order[x] for x in sb) if sb else 0
            mn_b = min(order[x] for x in sb) if sb else 0
            if mx_a < mn_b:
                return False if op == "eq" else True
            if mn_a > mx_b:
                return False
            return None
        v = a if zero_b else b
        s = self.sign(v)
        if not s:
            return None
        if op == "eq":
            hit = {ZER}
        elif op == "lt":
            hit = {NEG} if zero_b else {POS}
        else:
            hit = {NEG, ZER} if zero_b else {POS, ZER}
        if s <= hit:
            return True
        if not (s & hit):
            return False
        return None

    def maybe_nan(self, v):
        return self.fact(v, "sign") is not None and NAN in self.fact(
            v, "sign")

    def is_definitely_not_str(self, v):
        if isinstance(v, (Ref, Tup, Fn, Bound, Cls)):
            return True
        if isinstance(v, Const):
            return not isinstance(v.v, str)
        t = self.type_name(v)
        return t is not None and t != "builtins.str"

    def compare(self, op, a, b):
        if op == "ne":
            return self.not_(self.compare("eq", a, b))
        if op in ("gt", "ge"):
            return self.compare("lt" if op == "gt" else "le", b, a)
        for x, y, name in ((a, b, {"eq": "__eq__", "lt": "__lt__",
                                   "le": "__le__"}[op]),):
            if isinstance(x, Ref) and self.obj(x).kind == "inst":
                m = self.find_method(x, name)
                if m is not None:
                    return self.call(m, [y], {})
        if isinstance(a, Ite) and not self.is_arraylike(a) or \
                isinstance(b, Ite) and not self.is_arraylike(b):
            v = a if isinstance(a, Ite) else b
            if isinstance(a, Ite):
                return ite(a.c, self.compare(op, a.a, b),
                           self.compare(op, a.b, b))
            return ite(b.c, self.compare(op, a, b.a),
                       self.compare(op, a, b.b))
        if op == "eq" and isinstance(a, Ref) and isinstance(b, Ref) and \
                a is not b and self.obj(a).kind == self.obj(b).kind in (
                    "list", "dict"):
            r = self.same_items(a, b)
            if r is not None:
                return r
        if isinstance(a, Tup) and isinstance(b, Tup) and op == "eq":
            if len(a.items) != len(b.items):
                return FALSE
            r = TRUE
            for x, y in zip(a.items, b.items):
                r = self.and_(r, self.compare("eq", x, y))
            return r
        fa, fb = self.freeze(a), self.freeze(b)
        d = self.decide_cmp(op, fa, fb)
        if d is not None and self.is_scalar(fa) and self.is_scalar(fb):
            return Const(d)
        if op == "eq" and self.strip(fa) is self.strip(fb) and \
                isinstance(self.strip(fa), (App, Sym)) and self.is_scalar(fa) \
                and self.numeric(fa):
            return self.not_(self.mk("isnan", (fa,)))
        if op == "eq" and a is b and not self.is_arraylike(a):
            return TRUE
        return self.mk(op, (fa, fb))

    def same_items(self, a, b):
        """equality of two lists or dictionaries whose items are known"""
        if self.obj(a).kind == "list":
            x, y = self.known_items(a), self.known_items(b)
            if x is None or y is None or any(
                    isinstance(e, App) and e.op == "each"
                    for e in list(x) + list(y)):
                return None
            return self.compare("eq", Tup(x), Tup(y))
        x, y = dict(self.dict_pairs(a)), dict(self.dict_pairs(b))
        if not all(isinstance(k, Const) for k in list(x) + list(y)):
            return None
        if set(x) != set(y):
            return FALSE
        r = TRUE
        for k in x:
            r = self.and_(r, self.compare("eq", x[k], y[k]))
        return r

    def numeric(self, v):
        """a number or a tensor, which may be a NaN"""
        return self.type_name(v) in ("builtins.float", "torch.Tensor") or \
            self.is_arraylike(v)

    def is_scalar(self, v):
        if isinstance(v, Const):
            return True
        s = self.shape(v)
        return s is None or s == ()

    def is_(self, a, b):
        if isinstance(a, Ite):
            return ite(a.c, self.is_(a.a, b), self.is_(a.b, b))
        if isinstance(b, Ite):
            return ite(b.c, self.is_(a, b.a), self.is_(a, b.b))
        if a is UNDEF or b is UNDEF:
            return FALSE
        if isinstance(b, Const) and isinstance(b.v, bool) and \
                self.is_bool_typed(a):
            return a if b.v else self._not(a)
        d = self.decide_is(a, b)
        if d is not None:
            return Const(d)
        return App("is", (a, b))

    def in_(self, a, c):
        if isinstance(c, Ite):
            return ite(c.c, self.in_(a, c.a), self.in_(a, c.b))
        if isinstance(a, Const) and isinstance(c, Const) \
                and isinstance(c.v, str) and isinstance(a.v, str):
            return Const(a.v in c.v)
        if isinstance(c, Ref) and self.obj(c).kind == "dict":
            its = [k for k, _ in self.dict_pairs(c)]
        elif isinstance(c, Const) and isinstance(c.v, str):
            its = None
        else:
            its = self.known_items(c)
        if its is not None:
            r = FALSE
            for x in its:
                if isinstance(x, App) and x.op in ("each", "eachkey",
                                                   "dictstar"):
                    r = self.or_(r, App("in", (a, x)))
                else:
                    r = self.or_(r, self.compare("eq", a, x))
            return r
        return App("in", (self.freeze(a), self.freeze(c)))

    # --------------------------------------------------------------- types
    def type_name(self, v):
        t = self.fact(v, "type")
        if t is not None:
            return t
        if isinstance(v, Const):
            return "builtins." + type(v.v).__name__
        if isinstance(v, Tup):
            return "builtins.tuple"
        if isinstance(v, Ref):
            o = self.obj(v)
            if o.kind in ("list", "dict", "set"):
                return "builtins." + o.kind if not o.f.get("once") else \
                    "builtins.generator"
            if o.kind == "param":
                return "torch.nn.Parameter"
            if o.kind in ("ext", "inst") and o.cls is not None:
                return o.cls.name
        if isinstance(v, (Fn, Bound)):
            return "builtins.function"
        if isinstance(v, Ite):
            a, b = self.type_name(v.a), self.type_name(v.b)
            return a if a == b else None
        if isinstance(v, App):
            if v.op in ("str", "fstr"):
                return "builtins.str"
            if v.op == "float" or v.op == "item":
                return "builtins.float"
            if v.op == "size":
                return "torch.Size"
            if self.is_bool_typed(v) and self.is_scalar(v) and all(
                    not self.is_arraylike(x) for x in v.args):
                return "builtins.bool"
            return self.app_type(v)
        return None

    def app_type(self, v):
        return None

    def issubclass(self, c, t):
        """True/False/None"""
        if isinstance(t, Tup):
            rs = [self.issubclass(c, x) for x in t.items]
            return True if True in rs else None if None in rs else False
        if isinstance(t, App) and t.op == "getitem":
            t = t.args[0]
        if isinstance(t, App) and t.op == "bitor":
            return self.issubclass(c, Tup(t.args))
        if t is NONE:
            t = Ext("builtins.NoneType")
        if not isinstance(t, (Cls, Ext)):
            return None
        if isinstance(t, Ext) and t.name == "builtins.object":
            return True
        if c is t:
            return True
        if isinstance(c, Cls):
            m = self.mro(c)
            if t in m:
                return True
            if isinstance(t, Cls):
                return False
            rs = [self.issubclass(k, t) for k in m if isinstance(k, Ext)]
            return True if True in rs else None if None in rs else False
        if isinstance(c, Ext):
            if isinstance(t, Cls):
                return False
            return self.ext_issubclass(c.name, t.name)
        return None

    def ext_issubclass(self, c, t):
        seen = c
        while seen is not None:
            if seen == t:
                return True
            nxt = EXC_PARENTS.get(seen)
            if nxt is None:
                break
            seen = nxt
        if t in ("builtins.Exception", "builtins.BaseException"):
            last = c.rsplit(".", 1)[-1]
            if last.endswith(("Error", "Warning", "Exception", "Iteration")):
                return True
            return None
        return self.lib_issubclass(c, t)

    def lib_issubclass(self, c, t):
        return None

    def isinstance_(self, v, t):
        if isinstance(v, Ite):
            return ite(v.c, self.isinstance_(v.a, t),
                       self.isinstance_(v.b, t))
        if isinstance(t, Tup):
            r = FALSE
            for x in t.items:
                r = self.or_(r, self.isinstance_(v, x))
            return r
        tn = self.type_name(v)
        if tn is not None:
            c = Cls(tn) if tn in self.classes else Ext(tn)
            r = self.issubclass(c, t)
            if r is not None:
                return Const(r)
        return App("isinstance", (v, t))

    # ------------------------------------------------------- arithmetic
    def neg(self, v):
        if is_num(v):
            return Const(-v.v)
        if isinstance(v, Ref) and self.obj(v).kind == "inst":
            m = self.find_method(v, "__neg__")
            if m is not None:
                return self.call(m, [], {})
        return self.op("neg", (v,))

    def binop(self, op, a, b):
        if isinstance(a, Const) and isinstance(b, Const):
            r = self.fold(op, a.v, b.v)
            if r is not None:
                return r
        if isinstance(a, Ite) and not self.is_arraylike(a):
            return self.split(a.c, lambda: self.binop(op, a.a, b),
                              lambda: self.binop(op, a.b, b))
        if isinstance(b, Ite) and not self.is_arraylike(b):
            return self.split(b.c, lambda: self.binop(op, a, b.a),
                              lambda: self.binop(op, a, b.b))
        if op in _DUNDER:
            d, rd = _DUNDER[op]
            if isinstance(a, Ref) and self.obj(a).kind == "inst":
                m = self.find_method(a, d)
                if m is not None:
                    return self.call(m, [b], {})
            if isinstance(b, Ref) and self.obj(b).kind == "inst":
                m = self.find_method(b, rd)
                if m is not None:
                    return self.call(m, [a], {})
        if op == "add":
            if isinstance(a, Tup) and isinstance(b, Tup):
                return Tup(a.items + b.items)
            if self.is_list(a) and self.is_list(b):
                return self.new_list(self.items_of(a) + self.items_of(b))
            ia = self.shape_like(a)
            ib = self.shape_like(b)
            if ia is not None and ib is not None:
                return App("size", ia + ib)
        if op == "mul" and self.is_list(a) and isinstance(b, Const) \
                and isinstance(b.v, int):
            return self.new_list(self.items_of(a) * b.v)
        if op == "mul" and (self.is_list(a) or isinstance(a, Tup)):
            its = self.known_items(a)
            if its is not None and len(its) == 1:
                return self.new_list([App("each", (App(
                    "range", (ZEROC, self.freeze(b), ONEC)), its[0]))])
        if op == "mod" and isinstance(a, Const) and isinstance(a.v, str):
            return App("fstr", (a, self.freeze(b)))
        if op == "bitor" and isinstance(a, Ref) and isinstance(b, Ref) and \
                self.obj(a).kind == self.obj(b).kind == "dict":
            r = self.new_dict([])
            for x in (a, b):
                self.method_call(r, "update", [x], {})
            return r
        if op in ("bitand", "bitor"):
            if self.is_bool_typed(a) and self.is_bool_typed(b) and \
                    self.is_scalar(a) and self.is_scalar(b):
                return self.and_(a, b) if op == "bitand" else \
                    self.or_(a, b)
            ka, kb = self.set_items(a), self.set_items(b)
            if ka is not None and kb is not None:
                if op == "bitand":
                    return self.new_list([x for x in ka if x in kb], "set")
                return self.new_list(ka + [x for x in kb if x not in ka],
                                     "set")
        return self.op(op, (a, b))

    def shape_like(self, v):
        """items of a torch.Size-like value"""
        if isinstance(v, App) and v.op == "size":
            return v.args
        if isinstance(v, Tup):
            return v.items
        return None

    def set_items(self, v):
        if isinstance(v, App) and v.op == "dictkeys":
            v = v.args[0]
            if isinstance(v, Ref) and self.obj(v).kind == "dict":
                return [k for k, _ in self.dict_pairs(v)]
            return None
        if isinstance(v, Ref) and self.obj(v).kind in ("set", "list"):
            it = self.obj(v).f["items"]
            if isinstance(it, Tup):
                return list(it.items)
        return None

    def fold(self, op, a, b):
        try:
            if op == "add":
                r = a + b
            elif op == "sub":
                r = a - b
            elif op == "mul":
                r = a * b
            elif op == "div":
                r = a / b
            elif op == "pow":
                r = a ** b
            elif op == "mod":
                r = a % b
            elif op == "floordiv":
                r = a // b
            elif op == "bitand":
                r = a & b
            elif op == "bitor":
                r = a | b
            else:
                return None
        except ZeroDivisionError:
            self.raise_("ZeroDivisionError")
        except Exception:
            return None
        if isinstance(r, complex):
            return None
        if isinstance(r, float):
            keep_exact(op, a, b, r)
        return Const(r)

    # ---------------------------------------------------------- containers
    def is_list(self, v):
        return isinstance(v, Ref) and self.obj(v).kind == "list"

    def list_extend(self, ref, items):
        o = self.mut(ref)
        cur = o.f["items"]
        if isinstance(cur, Tup):
            o.f["items"] = Tup(cur.items + tuple(items))
        else:
            o.f["items"] = App("concatl", (cur, Tup(items)))

    def known_items(self, v, consume=False):
        """Items if the iterable is fully known (no symbolic repetition)."""
        its = self.items_of(v, consume, soft=True)
        if its is None or any(isinstance(x, App) and x.op == "each"
                              for x in its):
            return None
        return its

    def items_of(self, v, consume=False, soft=False):
        if isinstance(v, Tup):
            return list(v.items)
        if isinstance(v, Const) and isinstance(v.v, str):
            return [Const(c) for c in v.v]
        if isinstance(v, App) and v.op == "size":
            return list(v.args)
        if isinstance(v, App) and v.op == "dictkeys":
            return [k for k, _ in self.dict_pairs(v.args[0])]
        if isinstance(v, App) and v.op == "dictvalues":
            return [x for _, x in self.dict_pairs(v.args[0])]
        if isinstance(v, App) and v.op == "dictitems":
            return [Tup((k, x)) for k, x in self.dict_pairs(v.args[0])]
        if isinstance(v, Ref):
            o = self.obj(v)
            if o.kind in ("list", "set"):
                it = o.f["items"]
                if isinstance(it, Tup):
                    if consume and o.f.get("once") is TRUE:
                        self.mut(v).f["items"] = Tup(())
                    return list(it.items)
                if isinstance(it, Ite) and not soft:
                    pass
            elif o.kind == "dict":
                it = o.f["items"]
                if isinstance(it, Tup):
                    return [k for k, _ in self.dict_pairs(v)]
            elif o.kind == "inst":
                if o.f.get("%tuple") is TRUE:
                    return [o.f[n] for n, _, _ in
                            self.dataclass_fields(o.cls)]
                m = self.find_method(v, "__iter__")
                if m is not None:
                    r = self.call(m, [], {})
                    if r is not v:
                        return self.items_of(r, True, soft)
            else:
                r = self.ext_items(v)
                if r is not None:
                    return r
        if isinstance(v, App) and v.op == "range":
            a, b, s = v.args
            if all(isinstance(x, Const) and isinstance(x.v, int)
                   for x in v.args) and s.v != 0:
                r = range(a.v, b.v, s.v)
                if len(r) <= 8:
                    return [Const(i) for i in r]
        if soft:
            return None
        if isinstance(v, Const):
            self.raise_("TypeError")
        if isinstance(v, Ite):
            a = self.items_of(v.a, soft=True)
            b = self.items_of(v.b, soft=True)
            if a is not None and b is not None and len(a) == len(b):
                return [ite(v.c, x, y) for x, y in zip(a, b)]
            t = self.tupled(v)
            if isinstance(t, Tup):
                return list(t.items)
        k = sum(1 for _, s in self.loops if s is v)
        return [App("each", (v, App("elem", (v, Const(k)))))]

    def ext_items(self, ref):
        return None

    def norm_index(self, k, n):
        if isinstance(k, Const) and isinstance(k.v, int):
            return k.v if k.v >= 0 else k.v + n
        return None

    def get_item(self, v, k):
        if isinstance(v, Ite) and not self.is_arraylike(v):
            return self.split(v.c, lambda: self.get_item(v.a, k),
                              lambda: self.get_item(v.b, k))
        if isinstance(k, Ite) and isinstance(v, (Tup, Ref)) and not \
                self.is_arraylike(v):
            return self.split(k.c, lambda: self.get_item(v, k.a),
                              lambda: self.get_item(v, k.b))
        if isinstance(v, Ref):
            o = self.obj(v)
            if o.kind == "dict":
                it = o.f["items"]
                if isinstance(it, Tup):
                    acc = []
                    for kk, vv in self.dict_pairs(v):
                        if kk is k:
                            return vv
                        if not (isinstance(kk, Const)
                                and isinstance(k, Const)):
                            acc.append((kk, vv))
                    if isinstance(k, Const) and not acc:
                        self.raise_("KeyError")
                    pairs = self.dict_pairs(v)
                    if pairs and all(isinstance(kk, Const)
                                     for kk, _ in pairs):
                        # symbolic key over known keys: chain of tests
                        def go(ps):
                            if not ps:
                                self.raise_("KeyError")
                            c = self.compare("eq", k, ps[0][0])
                            return self.split(
                                c, lambda: ps[0][1], lambda: go(ps[1:]))
                        return go(pairs)
                return App("getitem", (v, self.freeze(k)))
            if o.kind in ("list",):
                it = o.f["items"]
                if isinstance(it, Tup):
                    v2 = it
                    return self.seq_item(v2, k, o)
                return App("getitem", (it, self.freeze(k)))
            if o.kind == "inst":
                m = self.find_method(v, "__getitem__")
                if m is not None:
                    return self.call(m, [k], {})
                if o.f.get("%tuple") is TRUE:
                    return self.seq_item(Tup(self.items_of(v)), k, None)
        if isinstance(v, Tup):
            return self.seq_item(v, k, None)
        if isinstance(v, App) and v.op == "size":
            r = self.seq_item(Tup(v.args), k, None)
            return App("size", r.items) if isinstance(r, Tup) else r
        if isinstance(v, Const) and isinstance(v.v, str) \
                and isinstance(k, Const):
            try:
                return Const(v.v[k.v])
            except Exception:
                self.raise_("IndexError")
        if isinstance(v, Const) and isinstance(v.v, str) and isinstance(
                k, App) and k.op == "slice" and all(
                    isinstance(x, Const) for x in k.args):
            return Const(v.v[slice(*(x.v for x in k.args))])
        if v is NONE:
            self.raise_("TypeError")
        return self.value_item(v, k)

    def seq_item(self, t, k, o):
        n = len(t.items)
        sym = any(isinstance(x, App) and x.op == "each" for x in t.items)
        if isinstance(k, App) and k.op == "slice":
            if all(isinstance(x, Const) for x in k.args) and not sym:
                r = t.items[slice(*(x.v for x in k.args))]
                return Tup(r) if o is None else self.new_list(r)
            return App("getitem", (t, k))
        if isinstance(k, Const) and isinstance(k.v, bool):
            k = Const(int(k.v))
        if isinstance(k, Const) and isinstance(k.v, int):
            if not sym:
                if -n <= k.v < n:
                    return t.items[k.v]
                self.raise_("IndexError")
            # first / last element of a partly symbolic list
            if k.v < 0 and n + k.v >= 0:
                x = t.items[k.v]
                tail = t.items[k.v:]
                if not any(isinstance(y, App) and y.op == "each"
                           for y in tail[1:]):
                    if isinstance(x, App) and x.op == "each":
                        return App("lastof", x.args) if k.v == -1 else \
                            App("getitem", (t, k))
                    return x
            if 0 <= k.v < n:
                pre = t.items[:k.v + 1]
                if not any(isinstance(y, App) and y.op == "each"
                           for y in pre):
                    return t.items[k.v]
                if isinstance(t.items[0], App) and t.items[0].op == "each" \
                        and k.v == 0:
                    return App("firstof", t.items[0].args)
        if not sym and t.items and all(x is t.items[0] for x in t.items):
            return t.items[0]
        if sym and len(t.items) == 1:
            src, e = t.items[0].args
            # list built by a loop over src, indexed by the same index
            return self.reindex(src, e, k)
        if self.is_bool_typed(k) and n == 2:
            return ite(k, t.items[1], t.items[0])
        return App("getitem", (t, self.freeze(k)))

    def reindex(self, src, e, k):
        return App("listat", (App("each", (src, e)), self.freeze(k)))

    def set_item(self, v, k, val):
        if isinstance(v, Ref):
            o = self.obj(v)
            if o.kind == "dict":
                self.ev("setitem", target=v, key=k, val=val)
                ob = self.mut(v)
                it = ob.f["items"]
                if isinstance(it, Tup):
                    ps = [p for p in it.items]
                    for i, p in enumerate(ps):
                        if isinstance(p, Tup) and p.items[0] is k:
                            ps[i] = Tup((k, val))
                            break
                    else:
                        ps.append(Tup((k, val)))
                    ob.f["items"] = Tup(ps)
                of = ob.f.get("%of")
                if of is not None and isinstance(k, Const):
                    self.ev("setattr", ref=of, name=k.v, val=val,
                            old=self.obj(of).f.get(k.v, UNDEF))
                    self.obj_set(of, k.v, val)
                return
            if o.kind == "list":
                self.ev("setitem", target=v, key=k, val=val)
                ob = self.mut(v)
                it = ob.f["items"]
                if isinstance(it, Tup) and isinstance(k, Const) \
                        and isinstance(k.v, int) \
                        and -len(it.items) <= k.v < len(it.items):
                    ps = list(it.items)
                    ps[k.v] = val
                    ob.f["items"] = Tup(ps)
                else:
                    ob.f["items"] = App("setitem", (it, self.freeze(k),
                                                    self.freeze(val)))
                return
            if o.kind == "inst":
                m = self.find_method(v, "__setitem__")
                if m is not None:
                    self.call(m, [k, val], {})
                    return
        if isinstance(v, Ite):
            self.split(v.c, lambda: self.set_item(v.a, k, val) or NONE,
                       lambda: self.set_item(v.b, k, val) or NONE)
            return
        new = self.op("setitem", (v, k, val))
        self.inplace(v, new, "setitem")

    # ------------------------------------------------- in-place bookkeeping
    def alias_root(self, v):
        while isinstance(v, App) and v.op in ALIAS and v.args and not (
                v.op == "getitem" and self.gathers(v.args[1])):
            v = v.args[0]
        return v

    def gathers(self, k):
        """indexing with arrays or lists makes a copy"""
        for x in k.items if isinstance(k, Tup) else (k,):
            if isinstance(x, Tup) or isinstance(x, Ref) and self.obj(
                    x).kind == "list":
                return True
            if isinstance(x, App) and x.op != "slice" or isinstance(x, Sym):
                s = self.shape(x)
                if s or s is None and isinstance(x, App) and (
                        self.is_arraylike(x) or x.op.startswith(
                            ("f_", "draw_")) or x.op in (
                                "lt", "le", "eq", "logical_not", "bitand",
                                "bitor", "argsort", "nonzero")):
                    return True
        return False

    def is_storage(self, v):
        """Identity-carrying storage (parameter, input array or an alias)."""
        r = self.alias_root(v)
        if isinstance(r, Ref):
            return self.obj(r).kind == "param"
        if isinstance(r, Sym):
            return self.is_arraylike(r)
        return False

    def is_arraylike(self, v):
        if isinstance(v, Const):
            return False
        if isinstance(v, Ref):
            return self.obj(v).kind == "param"
        t = self.type_name(v) if not isinstance(v, Ite) else None
        if t is not None:
            return t in ("torch.Tensor", "numpy.ndarray",
                         "torch.nn.Parameter")
        if isinstance(v, Ite):
            return self.is_arraylike(v.a) and self.is_arraylike(v.b)
        return self.fact(v, "shape") is not None

    def inplace(self, v, new, how):
        """The storage behind v now holds `new` (as seen through v)."""
        root = self.alias_root(v)
        self.ev("mutate", target=v, root=root, how=how, val=new)
        if isinstance(root, Ref) and self.obj(root).kind == "param" or \
                isinstance(root, Sym):
            if v is root or self.same_extent(v, root):
                self.st.content[root] = self.unview(v, root, new)
            else:
                self.st.content[root] = App(
                    "updated", (self.freeze(root), v, new))
            return v
        self.rebind_aliases(v, new)
        return new

    def unview(self, v, root, new):
        """what the storage holds once its view v holds `new`"""
        while v is not root:
            if v.op == "unsqueeze" and self.shape(new) is not None \
                    and self.shape(v) is not None \
                    and len(self.shape(new)) == len(self.shape(v)):
                new = self.op("squeeze", (new,), dict(v.kw))
            v = v.args[0]
        return new

    def same_extent(self, v, root):
        while isinstance(v, App) and v.op in ALIAS and v is not root:
            if v.op in ("getitem", "elem", "row"):
                return False
            v = v.args[0]
        return True

    def rebind_aliases(self, old, new):
        if isinstance(old, (Const, Fn, Cls, Ext)):
            return
        if isinstance(old, App) and old.op in ("zeros", "ones", "tensor",
                                               "full", "empty", "eye"):
            frames = [self.ctx.frame]
        else:
            frames = [c.frame for c in self.stack]
            frames += [oid for oid, o in self.st.heap.items()
                       if o.kind in ("inst",)]
        for oid in frames:
            o = self.st.heap.get(oid)
            if o is None:
                continue
            for k, x in list(o.f.items()):
                if x is old:
                    self.st.mut(oid).f[k] = new
        if self.ctx.comp:
            for k, x in list(self.ctx.comp.items()):
                if x is old:
                    self.ctx.comp[k] = new

    def freeze(self, v):
        """Replace live storage by its current content."""
        if isinstance(v, (Const, Fn, Cls, Ext, Mod)):
            return v
        need = False
        for x in walk(v):
            if isinstance(x, Ref):
                o = self.st.heap.get(x.oid)
                if o is not None and o.kind == "param":
                    need = True
                    break
            elif x in self.st.content:
                need = True
                break
        if not need:
            return v
        return self._freeze(v, {})

    def _freeze(self, v, memo):
        r = memo.get(v)
        if r is not None:
            return r
        if isinstance(v, Ref):
            o = self.st.heap.get(v.oid)
            if o is not None and o.kind == "param":
                r = self.param_value(v, o)
            else:
                r = v
        elif isinstance(v, Sym):
            c = self.st.content.get(v, UNDEF)
            r = v if c is UNDEF else self.subst_undef(c, v)
        elif isinstance(v, App):
            if v.op in ("par", "loopvar"):
                r = v
            else:
                r = self.mk(v.op,
                            tuple(self._freeze(a, memo) for a in v.args),
                            tuple((k, self._freeze(x, memo))
                                  for k, x in v.kw))
        elif isinstance(v, Ite):
            r = ite(self._freeze(v.c, memo), self._freeze(v.a, memo),
                    self._freeze(v.b, memo))
        elif isinstance(v, Tup):
            r = Tup(self._freeze(a, memo) for a in v.items)
        else:
            r = v
        memo[v] = r
        return r

    def subst_undef(self, c, base):
        if c is UNDEF:
            return base
        if isinstance(c, Ite):
            return ite(c.c, self.subst_undef(c.a, base),
                       self.subst_undef(c.b, base))
        return c

    def param_value(self, ref, o):
        base = o.f.get("%const")
        if base is None:
            base = App("par", (ref,))
        c = self.st.content.get(ref, UNDEF)
        return self.subst_undef(c, base)

    # ---------------------------------------------------------- op creation
    def op(self, op, args, kw=()):
        if op in ALIAS:
            kw = kw if isinstance(kw, dict) else dict(kw)
            return self.mk(op, tuple(args[:1]) + tuple(
                self.freeze(a) for a in args[1:]),
                {k: self.freeze(x) for k, x in kw.items()})
        kw = kw if isinstance(kw, dict) else dict(kw)
        return self.mk(op, tuple(self.freeze(a) for a in args),
                       {k: self.freeze(x) for k, x in kw.items()})

    def mk(self, op, args, kw=()):
        v = App(op, args, kw)
        for rw in self.rewrites:
            r = rw(self, v)
            if r is not None:
                return r
        return v

    # ------------------------------------------------------------- builtins
    def b_len(self, a, kw):
        v = a[0]
        if isinstance(v, Ite) and not self.is_arraylike(v):
            return self.split(v.c, lambda: self.b_len([v.a], kw),
                              lambda: self.b_len([v.b], kw))
        its = self.known_items(v)
        if its is not None:
            return Const(len(its))
        if isinstance(v, Const) and isinstance(v.v, str):
            return Const(len(v.v))
        if isinstance(v, Ref) and self.obj(v).kind == "inst":
            m = self.find_method(v, "__len__")
            if m is not None:
                return self.call(m, [], {})
        n = self.fact(v, "len")
        if n is not None:
            return n
        s = self.shape(v)
        if s:
            return s[0]
        if isinstance(v, App) and v.op == "shape":
            pass
        return App("len", (self.freeze(v) if not isinstance(v, Ref) else v,))

    def b_range(self, a, kw):
        a = [self.freeze(x) for x in a]
        if len(a) == 1:
            a = [ZEROC, a[0], ONEC]
        elif len(a) == 2:
            a = [a[0], a[1], ONEC]
        return App("range", a)

    def b_isinstance(self, a, kw):
        return self.isinstance_(a[0], a[1])

    def b_issubclass(self, a, kw):
        c = a[0]
        if isinstance(c, Ite):
            return ite(c.c, self.b_issubclass([c.a, a[1]], kw),
                       self.b_issubclass([c.b, a[1]], kw))
        r = self.issubclass(c, a[1])
        return Const(r) if r is not None else App("issubclass", a)

    def b_type(self, a, kw):
        v = a[0]
        if isinstance(v, Ite):
            return ite(v.c, self.b_type([v.a], {}), self.b_type([v.b], {}))
        tn = self.type_name(v)
        if tn is None:
            return App("type", (v,))
        return Cls(tn) if tn in self.classes else Ext(tn)

    def b_float(self, a, kw):
        if not a:
            return Const(0.0)
        v = a[0]
        if isinstance(v, Ite):
            return self.split(v.c, lambda: self.b_float([v.a], {}),
                              lambda: self.b_float([v.b], {}))
        if isinstance(v, Const):
            try:
                return Const(float(v.v))
            except ValueError:
                self.raise_("ValueError")
            except TypeError:
                self.raise_("TypeError")
        t = self.type_name(v)
        if t in ("builtins.list", "builtins.dict", "builtins.tuple",
                 "builtins.set") or isinstance(v, (Fn, Cls, Bound)):
            self.raise_("TypeError")
        if self.fact(v, "nonnumeric"):
            self.raise_("ValueError" if t == "builtins.str"
                        else "TypeError")
        if t == "builtins.float":
            return self.freeze(v)
        return self.op("float", (v,))

    def b_int(self, a, kw):
        if not a:
            return Const(0)
        v = a[0]
        if isinstance(v, Ite):
            return self.split(v.c, lambda: self.b_int([v.a], {}),
                              lambda: self.b_int([v.b], {}))
        if isinstance(v, Const):
            try:
                return Const(int(v.v))
            except (ValueError, OverflowError):
                self.raise_("ValueError")
            except TypeError:
                self.raise_("TypeError")
        if self.type_name(v) == "builtins.int":
            return v
        return self.op("int", (v,))

    def b_bool(self, a, kw):
        if not a:
            return FALSE
        t = self.truth(a[0])
        d = self.decide(t)
        return Const(d) if d is not None else t

    def b_str(self, a, kw):
        if a and isinstance(a[0], Const):
            return Const(str(a[0].v))
        return App("str", tuple(self.freeze(x) for x in a))

    b_repr = b_str

    def b_abs(self, a, kw):
        if is_num(a[0]):
            return Const(abs(a[0].v))
        return self.op("abs", (a[0],))

    def b_round(self, a, kw):
        return self.op("round", tuple(a))

    def b_pow(self, a, kw):
        return self.binop("pow", a[0], a[1])

    def _mm(self, op, a, kw):
        its = self.known_items(a[0]) if len(a) == 1 else list(a)
        if its is None:
            return self.op(op + "of", (a[0],))
        if all(is_num(x) for x in its) and its:
            return Const((max if op == "max" else min)(x.v for x in its))
        r = its[0]
        for x in its[1:]:
            r = self.op("maximum" if op == "max" else "minimum", (r, x))
        return r

    def b_max(self, a, kw):
        return self._mm("max", a, kw)

    def b_min(self, a, kw):
        return self._mm("min", a, kw)

    def sumover(self, src, body):
        m = self.lift_each(App("each", (src, body)))
        return App("sumover", (src, body)) if m is None else self.op(
            "sum", (m,), {"dim": ZEROC, "keepdim": FALSE})

    def b_sum(self, a, kw):
        start = a[1] if len(a) > 1 else kw.get("start", ZEROC)
        its = self.items_of(a[0], consume=True)
        r = start
        for x in its:
            if isinstance(x, App) and x.op == "each":
                if isinstance(x.args[1], App) and x.args[1].op == "elem" \
                        and x.args[1].args[0] is x.args[0]:
                    x = self.op("sum", (x.args[0],), {"dim": Const(0)}) \
                        if self.is_arraylike(x.args[0]) else \
                        App("sumover", x.args)
                else:
                    x = self.sumover(*x.args)
            r = x if is_const(r, 0) else self.binop("add", r, x)
        return r

    def b_any(self, a, kw):
        its = self.known_items(a[0], consume=True)
        if its is None:
            return self.op("any", (a[0],))
        r = FALSE
        for x in its:
            r = self.or_(r, self.truth(x))
        return r

    def b_all(self, a, kw):
        its = self.known_items(a[0], consume=True)
        if its is None:
            return self.op("all", (a[0],))
        r = TRUE
        for x in its:
            r = self.and_(r, self.truth(x))
        return r

    def b_list(self, a, kw):
        if not a:
            return self.new_list([])
        return self.new_list(self.items_of(a[0], consume=True))

    def b_tuple(self, a, kw):
        if not a:
            return Tup(())
        its = self.items_of(a[0], consume=True)
        if any(isinstance(x, App) and x.op == "each" for x in its):
            return self.new_list(its)
        return Tup(its)

    def b_set(self, a, kw):
        its = [] if not a else self.items_of(a[0], consume=True)
        out = []
        for x in its:
            if x not in out:
                out.append(x)
        return self.new_list(out, "set")

    b_frozenset = b_set

    def b_dict(self, a, kw):
        pairs = []
        if a:
            if isinstance(a[0], Ref) and self.obj(a[0]).kind == "dict":
                pairs = self.dict_pairs(a[0])
            else:
                for x in self.items_of(a[0], consume=True):
                    k = self.known_items(x)
                    if k is None or len(k) != 2:
                        return self.op_call(Ext("builtins.dict"), a, kw)
                    pairs.append((k[0], k[1]))
        for k, v in kw.items():
            kk = Const(k)
            pairs = [p for p in pairs if p[0] is not kk] + [(kk, v)]
        return self.new_dict(pairs)

    def b_zip(self, a, kw):
        lists = [self.items_of(x, consume=True) for x in a]
        if any(len(l) == 1 and isinstance(l[0], App) and l[0].op == "each"
               for l in lists):
            if all(len(l) == 1 and isinstance(l[0], App)
                   and l[0].op == "each" for l in lists):
                srcs = [l[0].args[0] for l in lists]
                src = srcs[0] if all(s is srcs[0] for s in srcs) else \
                    App("zipsrc", srcs)
                if len(set(srcs)) > 1:
                    els = [App("elem", (s, Const(0))) if isinstance(
                        l[0].args[1], App) and l[0].args[1].op == "elem"
                        else l[0].args[1] for s, l in zip(srcs, lists)]
                else:
                    els = [l[0].args[1] for l in lists]
                return self.new_list([App("each", (src, Tup(els)))],
                                     once=True)
            return self.op_call(Ext("builtins.zip"), a, kw)
        n = min(len(l) for l in lists) if lists else 0
        return self.new_list([Tup(l[i] for l in lists) for i in range(n)],
                             once=True)

    def b_enumerate(self, a, kw):
        its = self.items_of(a[0], consume=True)
        st = a[1] if len(a) > 1 else kw.get("start", ZEROC)
        out = []
        for i, x in enumerate(its):
            if isinstance(x, App) and x.op == "each":
                src = x.args[0]
                n = self.b_len([src], {})
                rng = App("range", (ZEROC, n, ONEC))
                idx = App("elem", (rng, Const(
                    sum(1 for _, s in self.loops if s is rng))))
                e = x.args[1]
                if isinstance(e, App) and e.op == "elem" and \
                        e.args[0] is src and self.is_arraylike(src):
                    e = self.get_item(src, idx)
                    src = rng
                out.append(App("each", (src, Tup((
                    self.binop("add", st, idx) if not is_const(st, 0)
                    else idx, e)))))
            else:
                out.append(Tup((self.binop("add", st, Const(i)), x)))
        return self.new_list(out, once=True)

    def b_map(self, a, kw):
        f = a[0]
        lists = [self.items_of(x, consume=True) for x in a[1:]]
        out = []
        for xs in zip(*lists):
            if any(isinstance(x, App) and x.op == "each" for x in xs):
                src = [x.args[0] for x in xs if isinstance(x, App)
                       and x.op == "each"][0]
                ys = [x.args[1] if isinstance(x, App) and x.op == "each"
                      else x for x in xs]
                out.append(App("each", (src, self.call(f, ys, {}))))
            else:
                out.append(self.call(f, list(xs), {}))
        return self.new_list(out, once=True)

    def b_filter(self, a, kw):
        out = []
        for x in self.items_of(a[1], consume=True):
            y = x.args[1] if isinstance(x, App) and x.op == "each" else x
            c = self.truth(y if a[0] is NONE else self.call(a[0], [y], {}))
            d = self.decide(c)
            if d is True:
                out.append(x)
            elif d is None:
                out.append(App("each", (App("filter", (c,)), y)))
        return self.new_list(out, once=True)

    def b_reversed(self, a, kw):
        its = self.known_items(a[0])
        if its is None:
            return self.op_call(Ext("builtins.reversed"), a, kw)
        return self.new_list(its[::-1], once=True)

    def b_sorted(self, a, kw):
        its = self.known_items(a[0])
        if its is not None and all(isinstance(x, Const) for x in its) \
                and not kw:
            return self.new_list([Const(x) for x in sorted(
                y.v for y in its)])
        return self.op_call(Ext("builtins.sorted"), a, kw)

    def b_iter(self, a, kw):
        if isinstance(a[0], Ref) and self.obj(a[0]).kind == "list" and \
                self.obj(a[0]).f.get("once") is TRUE:
            return a[0]
        return self.new_list(self.items_of(a[0]), once=True)

    def b_next(self, a, kw):
        v = a[0]
        if isinstance(v, Ref) and self.obj(v).kind == "list":
            it = self.obj(v).f["items"]
            if isinstance(it, Tup):
                if not it.items:
                    if len(a) > 1:
                        return a[1]
                    self.raise_("StopIteration")
                self.mut(v).f["items"] = Tup(it.items[1:])
                x = it.items[0]
                if isinstance(x, App) and x.op == "each":
                    return App("firstof", x.args)
                return x
        if isinstance(v, Ref) and self.obj(v).kind == "inst":
            m = self.find_method(v, "__next__")
            if m is not None:
                return self.call(m, [], {})
        return self.op_call(Ext("builtins.next"), a, kw)

    def b_callable(self, a, kw):
        v = a[0]
        if isinstance(v, (Fn, Bound, Cls, Ext, BMeth)):
            return TRUE
        if isinstance(v, Ref):
            o = self.obj(v)
            if o.kind == "inst":
                return Const(self.find_method(v, "__call__") is not None
                             or self.is_torch_module(v))
            return Const(o.kind == "ext")
        if isinstance(v, App) and v.op in ("partial", "gradfn", "vmapfn"):
            return TRUE
        if isinstance(v, Const):
            return FALSE
        f = self.fact(v, "callable")
        return Const(f) if f is not None else App("callable", (v,))

    def b_hasattr(self, a, kw):
        return self.hasattr_(a[0], a[1])

    def hasattr_(self, v, name):
        if isinstance(v, Ite):
            return ite(v.c, self.hasattr_(v.a, name),
                       self.hasattr_(v.b, name))
        if isinstance(v, Ref) and isinstance(name, Const):
            o = self.obj(v)
            n = name.v
            if o.kind == "inst":
                x = o.f.get(n)
                if x is not None and x is not UNDEF:
                    if isinstance(x, Ite) and UNDEF in (x.a, x.b):
                        return x.c if x.b is UNDEF else self._not(x.c)
                    return TRUE
                m, _ = self.class_lookup(o.cls, n)
                if m is not None:
                    if isinstance(m, Prop) and m.kind == "property":
                        return self.prop_hasattr(m, v)
                    return TRUE
                return self.ext_hasattr(v, n)
            return self.ext_hasattr(v, n)
        if v is NONE:
            return FALSE
        return App("hasattr", (v, name))

    def prop_hasattr(self, m, v):
        st = self.st
        self.mute += 1
        saved = self.ctx.raised
        self.ctx.raised = []
        self.st = st.copy()
        try:
            self.call(m.get, [v], {})
            r = TRUE
        except AbsRaise:
            r = FALSE
        finally:
            self.mute -= 1
            self.ctx.raised = saved
            self.st = st
        return r

    def ext_hasattr(self, ref, n):
        return App("hasattr", (ref, Const(n)))

    def b_getattr(self, a, kw):
        if isinstance(a[1], Ite):
            return self.split(
                a[1].c, lambda: self.b_getattr([a[0], a[1].a] + list(a[2:]),
                                               kw),
                lambda: self.b_getattr([a[0], a[1].b] + list(a[2:]), kw))
        if isinstance(a[1], Const):
            if len(a) > 2:
                h = self.truth(self.hasattr_(a[0], a[1]))
                return self.split(h, lambda: self.get_attr(a[0], a[1].v),
                                  lambda: a[2])
            return self.get_attr(a[0], a[1].v)
        return App("getattr", tuple(a))

    def b_setattr(self, a, kw):
        if isinstance(a[1], Ite):
            return self.split(
                a[1].c, lambda: self.b_setattr([a[0], a[1].a, a[2]], kw),
                lambda: self.b_setattr([a[0], a[1].b, a[2]], kw))
        if isinstance(a[1], Const):
            self.set_attr(a[0], a[1].v, a[2])
        else:
            self.ev("setattr", ref=a[0], name="?", val=a[2], old=UNDEF)
        return NONE

    def b_delattr(self, a, kw):
        if isinstance(a[1], Const):
            self.del_attr(a[0], a[1].v)
        return NONE

    def b_vars(self, a, kw):
        return self.get_attr(a[0], "__dict__")

    def b_print(self, a, kw):
        self.ev("print", args=tuple(a))
        return NONE

    def b_id(self, a, kw):
        return App("id", tuple(a))

    def b_hash(self, a, kw):
        return App("hash", tuple(a))

    def b_slice(self, a, kw):
        a = list(a)
        if len(a) == 1:
            a = [NONE, a[0], NONE]
        elif len(a) == 2:
            a.append(NONE)
        return App("slice", a)

    def b_divmod(self, a, kw):
        return Tup((self.binop("floordiv", a[0], a[1]),
                    self.binop("mod", a[0], a[1])))

    def b_object(self, a, kw):
        return self.alloc("ext", Ext("builtins.object"), {})

    # ----------------------------------------------------- container methods
    def list_method(self, ref, name, a, kw):
        o = self.obj(ref)
        it = o.f["items"]
        if name == "append":
            self.ev("setitem", target=ref, key=NONE, val=a[0])
            self.list_extend(ref, [a[0]])
            return NONE
        if name == "extend":
            self.ev("setitem", target=ref, key=NONE, val=a[0])
            self.list_extend(ref, self.items_of(a[0], consume=True))
            return NONE
        if name == "insert" and isinstance(it, Tup) \
                and isinstance(a[0], Const):
            xs = list(it.items)
            xs.insert(a[0].v, a[1])
            self.mut(ref).f["items"] = Tup(xs)
            return NONE
        if name == "pop" and isinstance(it, Tup):
            i = a[0].v if a and isinstance(a[0], Const) else -1
            if o.kind == "set":
                i = 0
            xs = list(it.items)
            if not xs:
                self.raise_("IndexError" if o.kind == "list"
                            else "KeyError")
            x = xs.pop(i)
            self.mut(ref).f["items"] = Tup(xs)
            if isinstance(x, App) and x.op == "each":
                return App("lastof", x.args)
            return x
        if name == "copy":
            return self.new_list(it.items if isinstance(it, Tup) else [],
                                 o.kind)
        if name == "clear":
            self.ev("setitem", target=ref, key=NONE, val=NONE)
            self.mut(ref).f["items"] = Tup(())
            return NONE
        if name == "index" and isinstance(it, Tup):
            for i, x in enumerate(it.items):
                if x is a[0]:
                    return Const(i)
            return App("indexof", (it, a[0]))
        if name == "count":
            return App("countof", (it, a[0]))
        if name == "reverse" and isinstance(it, Tup):
            self.mut(ref).f["items"] = Tup(it.items[::-1])
            return NONE
        if name == "sort":
            self.mut(ref).f["items"] = App("sorted", (it,))
            return NONE
        if name == "remove" and isinstance(it, Tup):
            self.mut(ref).f["items"] = Tup(
                x for x in it.items if x is not a[0])
            return NONE
        if name == "add" and isinstance(it, Tup):
            if a[0] not in it.items:
                self.list_extend(ref, [a[0]])
            return NONE
        if name == "update":
            for x in self.items_of(a[0], consume=True):
                if x not in self.obj(ref).f["items"].items:
                    self.list_extend(ref, [x])
            return NONE
        if name in ("intersection", "union", "difference"):
            ka, kb = self.set_items(ref), self.items_of(a[0])
            if name == "intersection":
                return self.new_list([x for x in ka if x in kb], "set")
            if name == "difference":
                return self.new_list([x for x in ka if x not in kb], "set")
            return self.new_list(ka + [x for x in kb if x not in ka], "set")
        if name == "issubset":
            kb = self.items_of(a[0])
            return Const(all(x in kb for x in self.set_items(ref)))
        if name in ("discard",):
            self.mut(ref).f["items"] = Tup(
                x for x in it.items if x is not a[0])
            return NONE
        if name == "__iter__":
            return self.b_iter([ref], {})
        if name == "__len__":
            return self.b_len([ref], {})
        if name == "__getitem__":
            return self.get_item(ref, a[0])
        return None

    def dict_method(self, ref, name, a, kw):
        if name == "keys":
            return App("dictkeys", (ref,))
        if name == "values":
            return App("dictvalues", (ref,))
        if name == "items":
            return App("dictitems", (ref,))
        if name == "get":
            dflt = a[1] if len(a) > 1 else NONE
            pairs = self.dict_pairs(ref)

            def go(ps):
                if not ps:
                    return dflt
                k, v = ps[0]
                if k is a[0]:
                    return v
                if isinstance(k, Const) and isinstance(a[0], Const):
                    return go(ps[1:])
                return self.split(self.compare("eq", a[0], k),
                                  lambda: v, lambda: go(ps[1:]))
            return go(pairs)
        if name == "update":
            for x in a:
                for k, v in self.dict_pairs(x) if isinstance(
                        x, Ref) and self.obj(x).kind == "dict" else [
                        tuple(self.known_items(p)) for p in
                        self.items_of(x)]:
                    self.set_item(ref, k, v)
            for k, v in kw.items():
                self.set_item(ref, Const(k), v)
            return NONE
        if name == "copy":
            return self.new_dict(self.dict_pairs(ref))
        if name == "setdefault":
            for k, v in self.dict_pairs(ref):
                if k is a[0]:
                    return v
            d = a[1] if len(a) > 1 else NONE
            self.set_item(ref, a[0], d)
            return d
        if name == "pop":
            for k, v in self.dict_pairs(ref):
                if k is a[0]:
                    o = self.mut(ref)
                    o.f["items"] = Tup(p for p in o.f["items"].items
                                       if p.items[0] is not k)
                    return v
            if len(a) > 1:
                return a[1]
            self.raise_("KeyError")
        if name == "clear":
            self.mut(ref).f["items"] = Tup(())
            return NONE
        if name == "__getitem__":
            return self.get_item(ref, a[0])
        if name == "__contains__":
            return self.in_(a[0], ref)
        return None

    def plain(self, x):
        """(value,) of a constant or a tuple of constants, None otherwise."""
        if isinstance(x, Const):
            return (x.v,)
        if isinstance(x, Tup):
            its = [self.plain(y) for y in x.items]
            if all(y is not None for y in its):
                return (tuple(y[0] for y in its),)
        return None

    def str_method(self, v, name, a, kw):
        pa = [self.plain(x) for x in a]
        pk = {k: self.plain(x) for k, x in kw.items()}
        if isinstance(v, Const) and all(x is not None for x in pa) and all(
                x is not None for x in pk.values()):
            m = getattr(v.v, name, None)
            if m is None:
                self.raise_("AttributeError")
            try:
                r = m(*[x[0] for x in pa], **{k: x[0] for k, x in
                                              pk.items()})
            except Exception as e:
                self.raise_(type(e).__name__)
            if isinstance(r, list):
                return self.new_list([Const(x) for x in r])
            if isinstance(r, tuple):
                return Tup(Const(x) for x in r)
            return Const(r)
        if name == "join":
            its = self.known_items(a[0])
            if its is not None and isinstance(v, Const):
                if all(isinstance(x, Const) for x in its):
                    return Const(v.v.join(str(x.v) for x in its))
                return App("fstr", its)
            return App("fstr", (v, self.freeze(a[0])))
        if name == "format":
            return App("fstr", (v,) + tuple(self.freeze(x) for x in a))
        return None


ZEROC, ONEC = Const(0), Const(1)
