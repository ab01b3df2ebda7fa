"""Abstract values: hash-consed provenance terms.

Every value the analyser propagates is one of these interned, immutable
objects; two values are equal iff they are the same object.
"""
import math
from fractions import Fraction

_TABLE = {}
EXACT = {}      # floats computed from constants: their exact value


def frac(x):
    """exact value meant by a constant"""
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    if math.isinf(x) or math.isnan(x):
        return None
    if x in EXACT:
        return EXACT[x]
    f = Fraction(x).limit_denominator(1000)
    return f if float(f) == x else Fraction("%.12g" % x)


def keep_exact(op, a, b, r):
    """r is the float result of an operation on two constants"""
    if not isinstance(a, (int, float)) or not isinstance(b, (int, float)) \
            or r == 0 or r in EXACT:
        return
    x, y = frac(a), frac(b)
    if x is None or y is None or op == "div" and not y:
        return
    f = x + y if op == "add" else x - y if op == "sub" else \
        x * y if op == "mul" else x / y if op == "div" else None
    if f and abs(float(f) - r) < 1e-6 * abs(r) and \
            f.denominator < 10 ** 60 and f != frac(r):
        EXACT[r] = f


class V:
    __slots__ = ("key",)

    def __repr__(self):
        return show(self)


def _mk(cls, key):
    k = (cls,) + key
    r = _TABLE.get(k)
    if r is None:
        r = object.__new__(cls)
        r.key = key
        _TABLE[k] = r
    return r


class Const(V):
    """A Python constant (number, string, None, bool, Ellipsis, bytes)."""
    __slots__ = ("v",)

    def __new__(cls, v):
        if isinstance(v, float) and math.isnan(v):
            key = ("float", "nan")
        else:
            key = (type(v).__name__, v)
            if isinstance(v, float) and v == 0.0:
                key = ("float", "0" if math.copysign(1, v) > 0 else "-0")
        r = _mk(cls, key)
        r.v = v
        return r


class Sym(V):
    """A named unknown (an input of the analysed entry point)."""
    __slots__ = ("name",)

    def __new__(cls, name):
        r = _mk(cls, (name,))
        r.name = name
        return r


class App(V):
    """Application of an operation to values."""
    __slots__ = ("op", "args", "kw")

    def __new__(cls, op, args=(), kw=()):
        args = tuple(args)
        kw = tuple(sorted(kw.items())) if isinstance(kw, dict) else tuple(kw)
        r = _mk(cls, (op, args, kw))
        r.op, r.args, r.kw = op, args, kw
        return r


class Ite(V):
    """Gated merge: value `a` when `c` holds, else `b`."""
    __slots__ = ("c", "a", "b")

    def __new__(cls, c, a, b):
        if a is b:
            return a
        r = _mk(cls, (c, a, b))
        r.c, r.a, r.b = c, a, b
        return r


class Tup(V):
    __slots__ = ("items",)

    def __new__(cls, items=()):
        items = tuple(items)
        r = _mk(cls, items)
        r.items = items
        return r


class Ref(V):
    """Reference to a heap object."""
    __slots__ = ("oid",)

    def __new__(cls, oid):
        r = _mk(cls, (oid,))
        r.oid = oid
        return r


class Fn(V):
    """A function of the repository (closure)."""
    __slots__ = ("fid",)

    def __new__(cls, fid):
        r = _mk(cls, (fid,))
        r.fid = fid
        return r


class Bound(V):
    __slots__ = ("fn", "self")

    def __new__(cls, fn, slf):
        r = _mk(cls, (fn, slf))
        r.fn, r.self = fn, slf
        return r


class Cls(V):
    """A class defined in the repository."""
    __slots__ = ("name",)

    def __new__(cls, name):
        r = _mk(cls, (name,))
        r.name = name
        return r


class Mod(V):
    __slots__ = ("name",)

    def __new__(cls, name):
        r = _mk(cls, (name,))
        r.name = name
        return r


class Ext(V):
    """Something from outside the repository, by dotted name."""
    __slots__ = ("name",)

    def __new__(cls, name):
        r = _mk(cls, (name,))
        r.name = name
        return r


class Prop(V):
    """property object / static / class method wrapper."""
    __slots__ = ("kind", "get", "set", "dele")

    def __new__(cls, kind, get, set_=None, dele=None):
        r = _mk(cls, (kind, get, set_, dele))
        r.kind, r.get, r.set, r.dele = kind, get, set_, dele
        return r


class BMeth(V):
    """Method of an external object / value: receiver + name."""
    __slots__ = ("recv", "name")

    def __new__(cls, recv, name):
        r = _mk(cls, (recv, name))
        r.recv, r.name = recv, name
        return r


NONE = Const(None)
TRUE = Const(True)
FALSE = Const(False)
UNDEF = Sym("%undef")


def is_const(v, *vals):
    return isinstance(v, Const) and (not vals or any(
        v.v is x or (type(v.v) is type(x) and v.v == x) for x in vals))


def is_num(v):
    return isinstance(v, Const) and isinstance(v.v, (int, float)) \
        and not isinstance(v.v, bool)


def show(v, depth=12):
    if depth <= 0:
        return "…"
    d = depth - 1
    if isinstance(v, Const):
        return repr(v.v)
    if isinstance(v, Sym):
        return v.name
    if isinstance(v, App):
        inf = {"add": "+", "sub": "-", "mul": "*", "div": "/", "pow": "**",
               "matmul": "@", "lt": "<", "le": "<=", "eq": "=="}
        if v.op in inf and len(v.args) == 2:
            return "(%s %s %s)" % (show(v.args[0], d), inf[v.op],
                                   show(v.args[1], d))
        parts = [show(a, d) for a in v.args]
        parts += ["%s=%s" % (k, show(x, d)) for k, x in v.kw]
        return "%s(%s)" % (v.op, ", ".join(parts))
    if isinstance(v, Ite):
        return "[%s ? %s : %s]" % (show(v.c, d), show(v.a, d), show(v.b, d))
    if isinstance(v, Tup):
        return "(%s)" % ", ".join(show(a, d) for a in v.items)
    if isinstance(v, Ref):
        return "#%s" % v.oid
    if isinstance(v, Fn):
        return "fn:%s" % v.fid
    if isinstance(v, Bound):
        return "%s.%s" % (show(v.self, d), show(v.fn, d))
    if isinstance(v, (Cls, Mod, Ext)):
        return v.name
    if isinstance(v, Prop):
        return "prop(%s)" % show(v.get, d)
    if isinstance(v, BMeth):
        return "%s.%s" % (show(v.recv, d), v.name)
    return object.__repr__(v)


def children(v):
    if isinstance(v, App):
        return v.args + tuple(x for _, x in v.kw)
    if isinstance(v, Ite):
        return (v.c, v.a, v.b)
    if isinstance(v, Tup):
        return v.items
    if isinstance(v, BMeth):
        return (v.recv,)
    if isinstance(v, Bound):
        return (v.fn, v.self)
    return ()


def walk(v, seen=None):
    """All sub-values (each once)."""
    seen = set() if seen is None else seen
    stack = [v]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        stack.extend(children(x))


def rebuild(v, f, memo=None):
    """Bottom-up rewriting: f is applied to every rebuilt node."""
    memo = {} if memo is None else memo
    if v in memo:
        return memo[v]
    if isinstance(v, App):
        r = App(v.op, tuple(rebuild(a, f, memo) for a in v.args),
                tuple((k, rebuild(x, f, memo)) for k, x in v.kw))
    elif isinstance(v, Ite):
        r = Ite(rebuild(v.c, f, memo), rebuild(v.a, f, memo),
                rebuild(v.b, f, memo))
    elif isinstance(v, Tup):
        r = Tup(rebuild(a, f, memo) for a in v.items)
    else:
        r = v
    r = f(r)
    memo[v] = r
    return r
