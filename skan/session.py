"""Building blocks for the checks: symbolic inputs and entry points of the
analysed package, addressed through its public names only."""
from .values import (Const, Sym, App, Tup, Ref, Ext, Cls, NONE, TRUE, FALSE)
from .lib import Lib


class Session(Lib):
    """One analysis run with symbolic inputs."""

    nclasses = None
    sizes = {}

    def b_len(self, a, kw):
        v = self.strip(a[0]) if a else None
        if self.nclasses and isinstance(v, App) and v.op == "unique":
            return Const(self.nclasses)
        return super().b_len(a, kw)

    def tensor(self, name, shape, **facts):
        s = Sym(name)
        f = {"type": "torch.Tensor",
             "shape": tuple(x if not isinstance(x, (str, int)) else
                            self.dim(x) for x in shape), "none": False}
        f.update(facts)
        self.facts[s] = f
        return s

    def array(self, name, shape, **facts):
        s = self.tensor(name, shape, **facts)
        self.facts[s]["type"] = "numpy.ndarray"
        return s

    def dim(self, n):
        if isinstance(n, int):
            return Const(n)
        if n in self.sizes:
            return Const(self.sizes[n])
        s = Sym(n)
        self.facts.setdefault(s, {"type": "builtins.int", "sign":
                                  frozenset("+"), "none": False})
        return s

    def num(self, name, sign="+", **facts):
        s = Sym(name)
        f = {"type": "builtins.float", "none": False, "shape": (),
             "sign": frozenset(sign), "finite": "n" not in sign}
        f.update(facts)
        self.facts[s] = f
        return s

    def integer(self, name, sign="+", **facts):
        if name in self.sizes:
            return Const(self.sizes[name])
        return self.num(name, sign, type="builtins.int", **facts)

    def flag(self, name):
        s = Sym(name)
        self.facts[s] = {"type": "builtins.bool", "none": False}
        return s

    def opaque_value(self, name, **facts):
        s = Sym(name)
        self.facts[s] = dict(facts)
        return s

    def function(self, name, result):
        """a caller's function returning a given value"""
        s = Sym(name)
        self.facts[s] = {"type": "builtins.function", "none": False,
                         "result": result}
        return s

    def scalar(self, name, sign="+"):
        """0-d tensor"""
        return self.tensor(name, (), sign=frozenset(sign))

    def user_module(self, name, out=None, params=True, nparams=1, **attrs):
        f = {"training": TRUE}
        f.update(attrs)
        for i in range(nparams if params else 0):
            w = self.tensor("%s.w%d" % (name, i), (self.dim(
                "k_%s%d" % (name, i)),))
            f["w%d" % i] = self.make_param(w, TRUE)
        if out == "":
            f["%out"] = NONE
        elif out is not None:
            f["%out"] = Const(out) if not isinstance(out, str) \
                else self.dim(out)
        return self.alloc("ext", Ext("user." + name), f)

    def user_function(self, name, out=None):
        """a caller's function of tensors"""
        f = {}
        if out == "":
            f["%out"] = NONE
        return self.alloc("ext", Ext("userfunc." + name), f)

    def get(self, path):
        """public object by dotted path, e.g. 'skwdro.torch.robustify'"""
        mod, _, name = path.rpartition(".")
        self.load_module(mod)
        return self.module_attr(mod, name)

    def icall(self, f, *a, **kw):
        return self.call(f, list(a), kw)

    def exc_name(self, leaf):
        t = leaf.st.heap[leaf.val.oid].cls if isinstance(
            leaf.val, Ref) else self.exc_type(leaf.val)
        if t is None:
            return None
        if isinstance(t, Cls):
            return t.name.rsplit(".", 1)[-1]
        return t.name.rsplit(".", 1)[-1]
