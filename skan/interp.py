"""Flow-sensitive, interprocedural abstract interpretation of the repository's
source in a value-provenance domain.

Nothing of the repository is imported or executed: modules are parsed, and
every statement is given an abstract transfer function.  Branches on unknown
conditions are both analysed and merged with gates; loops over unknown
iterables are analysed with the loop-carried state havocked; calls to
repository functions are analysed in their calling context; calls to anything
else are modelled in ext.py or left opaque.
"""
import ast
import builtins
import os

from .values import (V, Const, Sym, App, Ite, Tup, Ref, Fn, Bound, Cls, Mod,
                     Ext, Prop, BMeth, NONE, TRUE, FALSE, UNDEF, is_const,
                     is_num, walk, rebuild, children)
from .heap import Obj, State, ite, merge, merge2

MAXDEPTH = 70


def name_uses(fn):
    """uses of each name in a function: name node, enclosing loops and nested
    functions"""
    out = {}

    def visit(n, where):
        if isinstance(n, ast.Name):
            out.setdefault(n.id, []).append((n, where))
        elif isinstance(n, (ast.For, ast.AsyncFor)):
            visit(n.iter, where)
            for c in [n.target] + n.body:
                visit(c, where + (n,))
            for c in n.orelse:
                visit(c, where)
        elif isinstance(n, (ast.While, ast.FunctionDef, ast.Lambda,
                            ast.AsyncFunctionDef, ast.ClassDef)):
            for c in ast.iter_child_nodes(n):
                visit(c, where + (n,))
        elif isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp,
                            ast.DictComp)):
            visit(n.generators[0].iter, where)
            for c in ast.iter_child_nodes(n):
                if c is n.generators[0]:
                    for x in [c.target] + c.ifs:
                        visit(x, where + (n,))
                else:
                    visit(c, where + (n,))
        else:
            for c in ast.iter_child_nodes(n):
                visit(c, where)
    for b in fn.body if isinstance(fn.body, list) else [fn.body]:
        visit(b, ())
    return out


class Unsupported(Exception):
    pass


class AbsRaise(Exception):
    """Every continuation of the current expression raises."""

    def __init__(self, leaves):
        self.leaves = leaves


class Leaf:
    __slots__ = ("kind", "val", "st", "loc", "explicit")

    def __init__(self, kind, val, st, loc=None, explicit=False):
        self.kind, self.val, self.st, self.loc = kind, val, st, loc
        self.explicit = explicit    # a raise/assert statement


class Event:
    __slots__ = ("kind", "d", "pc", "loops", "stack", "loc", "n")

    def __init__(self, kind, d, pc, loops, stack, loc, n):
        self.kind, self.d, self.pc = kind, d, pc
        self.loops, self.stack, self.loc, self.n = loops, stack, loc, n

    def __getattr__(self, k):
        try:
            return self.d[k]
        except KeyError:
            raise AttributeError(k)

    def where(self):
        return "%s:%s in %s" % self.loc

    def __repr__(self):
        return "<%s %s @%s>" % (self.kind, self.d, self.where())


class FnRec:
    __slots__ = ("fid", "node", "module", "parent", "owner", "defaults",
                 "kwdefaults", "name", "qual", "locals", "isgen", "ctxmgr", "nograd",
                 "glob", "nonloc", "shared")


class Ctx:
    def __init__(self, fn, module, frame, owner, name):
        self.fn, self.module, self.frame = fn, module, frame
        self.owner, self.name = owner, name
        self.raised = []
        self.yields = None
        self.yield_hook = None
        self.line = 0


def _local_names(node):
    names, glob, nonloc = set(), set(), set()
    isgen = [False]

    def targets(t):
        if isinstance(t, ast.Name):
            names.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                targets(e)
        elif isinstance(t, ast.Starred):
            targets(t.value)

    def visit(n, top=False):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef,
                          ast.ClassDef)) and not top:
            names.add(n.name)
            return
        if isinstance(n, ast.Lambda) and not top:
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp,
                          ast.DictComp)):
            # first iterable is evaluated in this scope; walrus leaks
            for c in ast.walk(n):
                if isinstance(c, ast.NamedExpr):
                    names.add(c.target.id)
            return
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            isgen[0] = True
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store,
                                                          ast.Del)):
            names.add(n.id)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                names.add((a.asname or a.name).split(".")[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        elif isinstance(n, ast.Global):
            glob.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nonloc.update(n.names)
        elif isinstance(n, ast.MatchAs) and n.name:
            names.add(n.name)
        elif isinstance(n, ast.MatchStar) and n.name:
            names.add(n.name)
        for c in ast.iter_child_nodes(n):
            visit(c)

    if isinstance(node, ast.Lambda):
        visit(node.body)
    else:
        for s in node.body:
            visit(s)
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        names.add(x.arg)
    if a.vararg:
        names.add(a.vararg.arg)
    if a.kwarg:
        names.add(a.kwarg.arg)
    return names - glob - nonloc, glob, nonloc, isgen[0]


BIN = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "div",
       ast.Pow: "pow", ast.MatMult: "matmul", ast.Mod: "mod",
       ast.FloorDiv: "floordiv", ast.BitAnd: "bitand", ast.BitOr: "bitor",
       ast.BitXor: "bitxor", ast.LShift: "lshift", ast.RShift: "rshift"}

_DUNDER = {"add": ("__add__", "__radd__"), "sub": ("__sub__", "__rsub__"),
           "mul": ("__mul__", "__rmul__"),
           "div": ("__truediv__", "__rtruediv__"),
           "pow": ("__pow__", "__rpow__"),
           "matmul": ("__matmul__", "__rmatmul__")}


class Interp:
    """One analysis run.  Subclassed in ext.py with the library models."""

    def __init__(self, root, package="skwdro"):
        self.root, self.package = root, package
        self.st = State()
        self.fns = {}
        self.fncache = {}
        self.classes = {}       # name -> dict(module, bases, oid, ...)
        self.modules = {}       # name -> oid
        self.mod_star = {}      # name -> [ext names]
        self.trees = {}
        self.nextoid = 0
        self.events = []
        self.ctx = None
        self.stack = []
        self.loops = []
        self.facts = {}
        self.rewrites = []
        self.importing = False
        self.visited_fns = set()
        self.visited_stmts = 0
        self.opaque = {}
        self.vague = None
        self.poison = ()
        self.nloops = 0
        self.evcount = 0
        self.mute = 0
        self.readers, self.lazies = {}, {}
        self.shared_top = 0

    # ---------------------------------------------------------------- util
    def loc(self):
        c = self.ctx
        if c is None:
            return ("?", 0, "?")
        return (c.module, c.line, c.name)

    def ev(self, kind, **d):
        self.evcount += 1
        if self.mute:
            return
        self.events.append(Event(kind, d, self.st.pc, tuple(self.loops),
                                 tuple(c.name for c in self.stack),
                                 self.loc(), self.evcount))

    def note_opaque(self, what):
        self.opaque[what] = self.opaque.get(what, 0) + 1

    def alloc(self, kind, cls=None, f=None):
        self.nextoid += 1
        oid = self.nextoid
        o = Obj(kind, cls, dict(f or {}), self.st.tok, self.loc(),
                self.importing)
        self.st.heap[oid] = o
        return Ref(oid)

    def obj(self, ref):
        return self.st.heap[ref.oid]

    def mut(self, ref):
        return self.st.mut(ref.oid)

    def new_list(self, items, kind="list", once=False):
        f = {"items": Tup(items)}
        if once:
            f["once"] = TRUE
        return self.alloc(kind, None, f)

    def new_dict(self, pairs):
        return self.alloc("dict", None,
                          {"items": Tup(Tup((k, v)) for k, v in pairs)})

    def raise_(self, exc, node=None):
        if isinstance(exc, str):
            exc = self.make_exc(exc)
        raise AbsRaise([Leaf("raise", exc, self.st, self.loc())])

    def make_exc(self, name, *args):
        if "." not in name:
            name = "builtins." + name
        r = self.alloc("ext", Ext(name), {"args": Tup(args)})
        return r

    # ------------------------------------------------------------- modules
    def find_module(self, name):
        base = os.path.join(self.root, *name.split("."))
        if os.path.isfile(base + ".py"):
            return base + ".py", False
        p = os.path.join(base, "__init__.py")
        if os.path.isfile(p):
            return p, True
        if os.path.isdir(base):
            return None, True
        return None, None

    def is_internal(self, name):
        return name == self.package or name.startswith(self.package + ".")

    def load_module(self, name):
        if name in self.modules:
            return Mod(name)
        # parents first
        if "." in name:
            self.load_module(name.rsplit(".", 1)[0])
            if name in self.modules:
                return Mod(name)
        path, ispkg = self.find_module(name)
        if path is None and ispkg is None:
            raise Unsupported("module %s not found" % name)
        r = self.alloc("module", None, {})
        self.modules[name] = r.oid
        self.mod_star[name] = []
        m = self.mut(r)
        m.f["__name__"] = Const(name)
        m.f["%pkg"] = Const(bool(ispkg))
        if "." in name:
            par, leaf = name.rsplit(".", 1)
            self.st.mut(self.modules[par]).f.setdefault(leaf, Mod(name))
        if path is None:
            return Mod(name)
        with open(path, encoding="utf-8") as fh:
            src = fh.read()
        tree = ast.parse(src, path)
        self.trees[name] = (tree, path)
        saved = self.ctx, self.stack, self.importing, self.loops, self.st.pc
        self.importing = True
        self.loops = []
        ctx = Ctx(None, name, r.oid, None, "<module>")
        self.ctx = ctx
        self.stack = self.stack + [ctx]
        try:
            leaves = self.exec_block(tree.body)
            falls = [l for l in leaves if l.kind == "fall"]
            if falls:
                self.st = merge([l.st for l in falls])
        finally:
            self.ctx, self.stack, self.importing, self.loops, pc = saved
            self.st.pc = pc
        if "." in name:
            par, leaf = name.rsplit(".", 1)
            self.st.mut(self.modules[par]).f[leaf] = Mod(name)
        return Mod(name)

    def module_attr(self, name, attr, node=None):
        o = self.st.heap[self.modules[name]]
        if attr in o.f:
            return o.f[attr]
        path, ispkg = self.find_module(name + "." + attr)
        if ispkg is not None:
            return self.load_module(name + "." + attr)
        for e in self.mod_star.get(name, ()):
            return Ext(e + "." + attr)
        return None

    # --------------------------------------------------------------- names
    def load_name(self, name):
        c = self.ctx
        st = self.st
        oid = c.frame
        fn = c.fn
        if c.comp and name in c.comp:
            return c.comp[name]
        if fn is not None and name in fn.locals:
            v = st.heap[oid].f.get(name)
            if v is None or v is UNDEF:
                self.raise_("UnboundLocalError")
            return v
        # class body or module frame
        o = st.heap[oid]
        if fn is None and name in o.f and o.f[name] is not UNDEF:
            return o.f[name]
        # closure chain
        par = o.f.get("%parent")
        while isinstance(par, Ref):
            po = st.heap[par.oid]
            if po.kind == "frame" and name in po.f \
                    and po.f[name] is not UNDEF:
                return po.f[name]
            par = po.f.get("%parent")
        v = self.module_attr_noload(c.module, name)
        if v is not None:
            return v
        if hasattr(builtins, name):
            return self.builtin(name)
        for e in self.mod_star.get(c.module, ()):
            return Ext(e + "." + name)
        if name in ("__name__", "__file__"):
            return Const(c.module)
        self.raise_("NameError")

    def module_attr_noload(self, mod, name):
        o = self.st.heap[self.modules[mod]]
        v = o.f.get(name)
        if v is None or v is UNDEF:
            return None
        return v

    def builtin(self, name):
        if name in ("True", "False", "None"):
            return Const({"True": True, "False": False, "None": None}[name])
        if name == "Ellipsis":
            return Const(Ellipsis)
        return Ext("builtins." + name)

    def store_name(self, name, v):
        c = self.ctx
        if c.fn is not None:
            if name in c.fn.glob:
                self.ev("setglobal", name=name, module=c.module, val=v)
                self.st.mut(self.modules[c.module]).f[name] = v
                return
            if name in c.fn.nonloc:
                par = self.st.heap[c.frame].f.get("%parent")
                while isinstance(par, Ref):
                    po = self.st.heap[par.oid]
                    if name in po.f:
                        self.st.mut(par.oid).f[name] = v
                        return
                    par = po.f.get("%parent")
                return
        self.st.mut(c.frame).f[name] = v

    # ---------------------------------------------------------- statements
    def exec_block(self, stmts):
        leaves = []
        for i, s in enumerate(stmts):
            outs = self.exec_stmt(s)
            falls = [l.st for l in outs if l.kind == "fall"]
            leaves.extend(l for l in outs if l.kind != "fall")
            if not falls:
                return leaves
            self.st = merge(falls)
        leaves.append(Leaf("fall", None, self.st))
        return leaves

    def exec_stmt(self, s):
        self.visited_stmts += 1
        self.ctx.line = getattr(s, "lineno", self.ctx.line)
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("statement %s" % type(s).__name__)
        saved = self.ctx.raised
        self.ctx.raised = []
        try:
            outs = m(s)
            if outs is None:
                outs = [Leaf("fall", None, self.st)]
        except AbsRaise as e:
            outs = list(e.leaves)
        outs = self.ctx.raised + outs
        self.ctx.raised = saved
        return outs

    def s_Expr(self, s):
        x = s.value
        if isinstance(x, ast.Constant):
            return None
        if isinstance(x, ast.GeneratorExp):
            # never consumed
            self.eval(x.generators[0].iter)
            return None
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and \
                x.func.id in ("map", "filter") and not x.keywords:
            f = self.eval(x.func)
            if isinstance(f, Ext) and f.name.startswith("builtins."):
                for a in x.args:
                    self.eval(a)
                return None
        self.eval(x)

    def s_Pass(self, s):
        return None

    def s_Global(self, s):
        return None

    s_Nonlocal = s_Global

    def s_Import(self, s):
        for a in s.names:
            if self.is_internal(a.name):
                m = self.load_module(a.name)
                if a.asname:
                    self.store_name(a.asname, m)
                else:
                    top = a.name.split(".")[0]
                    self.store_name(top, Mod(top))
            else:
                if a.asname:
                    self.store_name(a.asname, self.ext(a.name))
                else:
                    top = a.name.split(".")[0]
                    self.store_name(top, self.ext(top))

    def ext(self, name):
        return Ext(name)

    def s_ImportFrom(self, s):
        mod = s.module or ""
        if s.level:
            cur = self.ctx.module
            ispkg = is_const(self.st.heap[self.modules[cur]].f["%pkg"], True)
            parts = cur.split(".")
            if not ispkg:
                parts = parts[:-1]
            parts = parts[:len(parts) - (s.level - 1)]
            mod = ".".join(parts + ([mod] if mod else []))
        if not self.is_internal(mod):
            for a in s.names:
                if a.name == "*":
                    self.mod_star[self.ctx.module].append(mod)
                elif mod == "__future__":
                    continue
                else:
                    self.store_name(a.asname or a.name,
                                    self.ext_attr(self.ext(mod), a.name))
            return
        self.load_module(mod)
        for a in s.names:
            if a.name == "*":
                o = self.st.heap[self.modules[mod]]
                allv = o.f.get("__all__")
                names = None
                if isinstance(allv, Ref):
                    it = self.known_items(allv)
                    if it is not None and all(
                            isinstance(x, Const) for x in it):
                        names = [x.v for x in it]
                if names is None:
                    names = [k for k in o.f if not k.startswith("_")
                             and not k.startswith("%")]
                for k in names:
                    v = self.module_attr(mod, k)
                    if v is not None:
                        self.store_name(k, v)
                for e in self.mod_star.get(mod, ()):
                    self.mod_star[self.ctx.module].append(e)
                continue
            v = self.module_attr(mod, a.name)
            if v is None:
                # circular import of a name not bound yet
                raise Unsupported("cannot import %s from %s" % (a.name, mod))
            self.store_name(a.asname or a.name, v)

    def s_FunctionDef(self, s):
        decs = [(d, self.eval(d)) for d in s.decorator_list]
        names = []
        for d, v in decs:
            names.append(v.name if isinstance(v, Ext) else None)
        if any(n in ("typing.overload", "typing_extensions.overload")
               for n in names):
            cur = self.st.heap[self.ctx.frame].f.get(s.name)
            if cur is None:
                pass
            return None
        v = self.make_fn(s)
        for d, dv in reversed(decs):
            v = self.apply_decorator(dv, v, d)
        self.store_name(s.name, v)

    s_AsyncFunctionDef = s_FunctionDef

    def apply_decorator(self, dv, v, node):
        if isinstance(dv, Ext):
            n = dv.name
            last = n.rsplit(".", 1)[-1]
            if n == "builtins.property" or last == "cached_property" \
                    or last == "abstractproperty":
                return Prop("property", v)
            if n == "builtins.staticmethod":
                return Prop("static", v)
            if n == "builtins.classmethod":
                return Prop("class", v)
            if last == "contextmanager":
                if isinstance(v, Fn):
                    self.fns[v.fid].ctxmgr = True
                return v
            if self.cuts_graph(dv) and isinstance(v, Fn):
                self.fns[v.fid].nograd = True
            return v    # abstractmethod, lru_cache, ...: transparent
        if isinstance(dv, BMeth) and isinstance(dv.recv, Prop):
            p = dv.recv
            if dv.name == "setter":
                return Prop("property", p.get, v, p.dele)
            if dv.name == "deleter":
                return Prop("property", p.get, p.set, v)
            if dv.name == "getter":
                return Prop("property", v, p.set, p.dele)
        if isinstance(dv, App) and dv.op in ("wrapsdec", "extdec"):
            return v
        if isinstance(v, Fn) and self.cuts_graph(dv):
            self.fns[v.fid].nograd = True
            return v
        if isinstance(dv, (Fn, Bound, Cls)):
            return self.call(dv, [v], {})
        return v

    def make_fn(self, node):
        c = self.ctx
        parent = None
        if c.fn is not None:
            parent = c.frame
        elif c.owner is not None:
            # class body nested in a function: closure is the outer frame
            p = self.st.heap[c.frame].f.get("%parent")
            parent = p.oid if isinstance(p, Ref) else None
        key = (id(node), parent, c.frame if c.comp else None,
               tuple(sorted((k, v) for k, v in c.comp.items()))
               if c.comp else None) if not c.comp else None
        if key is not None and key in self.fncache:
            return Fn(self.fncache[key])
        r = FnRec()
        r.fid = len(self.fns)
        r.node = node
        r.module = c.module
        r.parent = parent
        if c.comp:
            # freeze comprehension variables in a pseudo frame
            fr = self.alloc("frame", None, dict(c.comp))
            if parent is not None:
                self.mut(fr).f["%parent"] = Ref(parent)
            r.parent = fr.oid
        r.owner = c.owner
        r.name = getattr(node, "name", "<lambda>")
        base = c.name if c.name != "<module>" else ""
        r.qual = (base + "." if base else "") + r.name
        r.locals, r.glob, r.nonloc, r.isgen = _local_names(node)
        r.ctxmgr = r.nograd = False
        r.shared = self.importing
        a = node.args
        r.defaults = [self.eval(d) for d in a.defaults]
        r.kwdefaults = [None if d is None else self.eval(d)
                        for d in a.kw_defaults]
        self.fns[r.fid] = r
        if key is not None:
            self.fncache[key] = r.fid
        return Fn(r.fid)

    def s_ClassDef(self, s):
        decs = [self.eval(d) for d in s.decorator_list]
        bases = []
        for b in s.bases:
            if isinstance(b, ast.Starred):
                continue
            bv = self.eval(b)
            if isinstance(bv, App) and bv.op == "getitem":
                bv = bv.args[0]         # Generic[T]
            bases.append(bv)
        c = self.ctx
        name = c.module + "." + ((c.name + ".") if c.name != "<module>"
                                 else "") + s.name
        fr = self.alloc("class", Cls(name), {})
        if c.fn is not None:
            self.mut(fr).f["%parent"] = Ref(c.frame)
        elif c.owner is not None:
            p = self.st.heap[c.frame].f.get("%parent")
            if isinstance(p, Ref):
                self.mut(fr).f["%parent"] = p
        self.classes[name] = {"module": c.module, "bases": bases,
                              "oid": fr.oid, "name": s.name, "node": s,
                              "dataclass": False, "ann": []}
        ctx = Ctx(None, c.module, fr.oid, name, name.split(".", 1)[0] and
                  ((c.name + ".") if c.name != "<module>" else "") + s.name)
        self.ctx = ctx
        self.stack.append(ctx)
        try:
            leaves = self.exec_block(s.body)
        finally:
            self.stack.pop()
            self.ctx = c
        falls = [l.st for l in leaves if l.kind == "fall"]
        if not falls:
            raise Unsupported("class body does not complete")
        self.st = merge(falls)
        for st in s.body:
            if isinstance(st, ast.AnnAssign) and isinstance(
                    st.target, ast.Name):
                self.classes[name]["ann"].append(
                    (st.target.id, st.value is not None))
        v = Cls(name)
        for d in reversed(decs):
            n = d.name if isinstance(d, Ext) else (
                d.args[0].v if isinstance(d, App) and d.op == "extdec"
                and isinstance(d.args[0], Const) else "")
            if n.rsplit(".", 1)[-1] == "dataclass":
                self.classes[name]["dataclass"] = True
            elif isinstance(d, Fn):
                v = self.call(d, [v], {})
        self.store_name(s.name, v)

    def s_Return(self, s):
        v = NONE if s.value is None else self.eval(s.value)
        return [Leaf("return", v, self.st, self.loc())]

    def s_Raise(self, s):
        if s.exc is None:
            cur = getattr(self.ctx, "handling", None)
            exc = cur if cur is not None else self.make_exc("RuntimeError")
        else:
            exc = self.eval(s.exc)
            if isinstance(exc, (Cls, Ext)):
                exc = self.call(exc, [], {})
        return [Leaf("raise", exc, self.st, self.loc(), True)]

    def s_Assert(self, s):
        v = self.eval(s.test)
        outs = []
        good = []
        for pol, st in self.forks(v):
            if pol:
                good.append(st)
            else:
                self.st = st
                outs.append(Leaf("raise", self.make_exc("AssertionError"),
                                 self.st, self.loc(), True))
        if good:
            self.st = merge(good)
            outs.append(Leaf("fall", None, self.st))
        return outs

    def s_Delete(self, s):
        for t in s.targets:
            self.delete(t)

    def delete(self, t):
        if isinstance(t, ast.Name):
            self.st.mut(self.ctx.frame).f[t.id] = UNDEF
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                self.delete(e)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value)
            self.del_attr(o, t.attr)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value)
            k = self.eval(t.slice)
            if isinstance(o, Ref) and self.obj(o).kind == "dict":
                ob = self.mut(o)
                it = ob.f["items"]
                if isinstance(it, Tup):
                    ob.f["items"] = Tup(x for x in it.items
                                        if x.items[0] is not k)
            else:
                self.ev("delitem", target=o, key=k)

    def s_Assign(self, s):
        if isinstance(s.value, ast.GeneratorExp) and self.defer(s):
            return None
        v = self.eval(s.value)
        for t in s.targets:
            self.assign(t, v)

    def defer(self, s):
        """x = (... for ...) is evaluated where x is read, when this is one
        place of the same function, run as often as the assignment"""
        fn = self.ctx.fn
        t = s.targets[0]
        if fn is None or len(s.targets) != 1 or not isinstance(
                t, ast.Name) or t.id not in fn.locals or (
                self.ctx.comp and t.id in self.ctx.comp):
            return False
        if fn.node not in self.readers:
            self.readers[fn.node] = name_uses(fn.node)
        uses = self.readers[fn.node].get(t.id, ())
        w = [u for u in uses if isinstance(u[0].ctx, ast.Store)]
        r = [u for u in uses if isinstance(u[0].ctx, ast.Load)]
        if len(w) != 1 or len(r) != 1 or len(uses) != 2 or \
                w[0][1] != r[0][1]:
            return False
        first = self.eval(s.value.generators[0].iter)
        self.lazies[r[0][0]] = s.value
        self.store_name(t.id, App("lazygen", (first,)))
        return True

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value))

    def s_AugAssign(self, s):
        op = BIN[type(s.op)]
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.load_name(t.id)
            rhs = self.eval(s.value)
            new = self.augment(op, cur, rhs)
            if new is not cur:
                if self.is_storage(cur):
                    self.inplace(cur, new, "aug" + op)
                else:
                    self.ev("mutate", target=cur, how="aug" + op,
                            fresh=True) if self.is_arraylike(cur) else None
                    if self.is_arraylike(cur):
                        self.rebind_aliases(cur, new)
                    self.store_name(t.id, new)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value)
            cur = self.get_attr(o, t.attr)
            rhs = self.eval(s.value)
            new = self.augment(op, cur, rhs)
            if new is not cur:
                if self.is_storage(cur):
                    self.inplace(cur, new, "aug" + op)
                else:
                    if self.is_arraylike(cur):
                        self.ev("mutate", target=cur, how="aug" + op,
                                fresh=False)
                    self.set_attr(o, t.attr, new)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value)
            k = self.eval(t.slice)
            cur = self.get_item(o, k)
            rhs = self.eval(s.value)
            self.set_item(o, k, self.augment(op, cur, rhs))
        else:
            raise Unsupported("augmented target")

    def augment(self, op, cur, rhs):
        if isinstance(cur, Ref) and self.obj(cur).kind in ("list",) \
                and op == "add":
            items = self.items_of(rhs)
            self.list_extend(cur, items)
            return cur
        if isinstance(cur, Ref) and self.obj(cur).kind in ("set", "dict") \
                and op == "bitor":
            self.method_call(cur, "update", [rhs], {})
            return cur
        return self.binop(op, cur, rhs)

    def s_If(self, s):
        v = self.eval(s.test)
        outs = []
        for pol, st in self.forks(v):
            self.st = st
            outs.extend(self.exec_block(s.body if pol else s.orelse))
        return outs

    # ----- branching helper
    def forks(self, v):
        """[(polarity, state)] reached when testing the value v; at most one
        state per polarity (states of equal polarity are merged)."""
        base = self.st.pc
        res = self._forks(v, self.st)
        out = []
        compound = len(res) > 2
        if compound:
            cond = self.truth(v)
            if isinstance(cond, App) and cond.op == "not":
                cond, flip = cond.args[0], True
            else:
                flip = False
        for pol in (True, False):
            g = [st for p, st in res if p is pol]
            if g:
                st = merge(g) if len(g) > 1 else g[0]
                if compound:
                    st.pc = base + ((cond, pol is not flip),) + \
                        st.pc[len(base):]
                out.append((pol, st))
        return out

    def _forks(self, v, st):
        self.st = st
        c = self.truth(v)
        d = self.decide(c)
        if d is not None:
            return [(d, self.st)]
        st = self.st
        if isinstance(c, App) and c.op == "not":
            return [(not p, x) for p, x in self._forks(c.args[0], st)]
        if isinstance(c, Ite):
            out = []
            for p, x in self._forks(c.c, st):
                out.extend(self._forks(c.a if p else c.b, x))
            return out
        self.note_vague(c)
        return [(True, st.fork(c, True)), (False, st.fork(c, False))]

    VAGUE = frozenset(("xcall", "attr", "call", "inplaced",
                       "getitem_unknown"))

    def note_vague(self, c):
        """remember tests on values the analysis does not understand: the
        branches reached through them may be impossible"""
        if self.vague is None:
            if self.poison and any(x in self.poison for x in walk(c)):
                return
            for x in walk(c):
                if isinstance(x, App) and (
                        x.op in self.VAGUE or x.op in ("dim", "shapeof")
                        and self.shape(x.args[0]) is None):
                    self.vague = (self.loc(), x.op, self.evcount)
                    return
                if isinstance(x, App) and x.op in ("eq", "in") and any(
                        isinstance(y, Ref) and self.obj(y).kind in (
                            "list", "dict") for y in x.args):
                    self.vague = (self.loc(), x.op, self.evcount)
                    return
                if isinstance(x, App) and any(
                        isinstance(y, Const) and isinstance(y.v, str)
                        for y in x.args[:1]) and x.op == "getitem":
                    self.vague = (self.loc(), x.op, self.evcount)
                    return

    def split(self, v, ft, ff):
        """Expression level branching on value v."""
        res = []
        for pol, st in self.forks(v):
            self.st = st
            try:
                r = (ft if pol else ff)()
                res.append((r, self.st))
            except AbsRaise as e:
                self.ctx.raised.extend(e.leaves)
        if not res:
            raise AbsRaise([])
        return self.join_vals(res)

    def join_vals(self, res):
        if len(res) == 1:
            self.st = res[0][1]
            return res[0][0]
        fr = self.ctx.frame
        for v, st in res:
            st.mut(fr).f["%tmp"] = v
        self.st = merge([st for _, st in res])
        return self.st.mut(fr).f.pop("%tmp")

    # ----- loops
    def s_For(self, s):
        it = self.eval(s.iter)
        items = self.items_of(it, consume=True)
        return self.run_loop(items, lambda e: self.assign(s.target, e),
                             s.body, s.orelse, self.loop_src(it))

    s_AsyncFor = s_For

    def loop_src(self, it):
        return it

    def run_loop(self, items, bind, body, orelse, src):
        leaves = []
        exits = []
        alive = True
        for e in items:
            if isinstance(e, App) and e.op == "each":
                outs, brk = self.symbolic_iter(
                    lambda e=e: bind(e.args[1]), body, e.args[0])
            else:
                try:
                    bind(e)
                except AbsRaise as ex:
                    leaves.extend(ex.leaves)
                    alive = False
                    break
                outs = self.exec_block(body)
                brk = [l.st for l in outs if l.kind == "break"]
                outs = [l for l in outs if l.kind != "break"]
            exits.extend(brk)
            cont = [l.st for l in outs if l.kind in ("fall", "continue")]
            leaves.extend(l for l in outs
                          if l.kind not in ("fall", "continue"))
            if not cont:
                alive = False
                break
            self.st = merge(cont)
        outs = []
        if alive:
            if orelse:
                outs = self.exec_block(orelse)
            else:
                outs = [Leaf("fall", None, self.st)]
        outs += [Leaf("fall", None, x) for x in exits]
        return leaves + outs

    def symbolic_iter(self, bind, body, src, cond=None):
        """One abstract iteration standing for all of them.  Returns
        (leaves, break states)."""
        self.nloops += 1
        lid = self.nloops
        s0 = self.st
        # pass 1: discover what the body changes
        self.mute += 1
        self.st = s0.copy()
        self.loops.append((lid, src))
        saved_raised = self.ctx.raised
        self.ctx.raised = []
        nf, lim = len(self.fns), self.nextoid
        changed, chcontent, appended = set(), set(), set()
        try:
            try:
                bind()
                outs = self.exec_block(body)
            except AbsRaise as e:
                outs = e.leaves
            ends = [l.st for l in outs if l.kind in ("fall", "continue")]
            for e in ends:
                for oid, o in e.heap.items():
                    b = s0.heap.get(oid)
                    if b is None or b is o:
                        continue
                    for k, v in o.f.items():
                        if k.startswith("%"):
                            continue
                        w = b.f.get(k, UNDEF)
                        if v is not w:
                            if k == "items" and b.kind in ("list", "set",
                                                           "dict"):
                                appended.add((oid, k))
                            else:
                                changed.add((oid, k))
                for k, v in e.content.items():
                    if s0.content.get(k) is not v:
                        chcontent.add(k)
        finally:
            self.loops.pop()
            self.ctx.raised = saved_raised
            self.mute -= 1
        # pass 2: from the havocked state
        self.st = s0.copy()
        marks = {}
        for oid, k in sorted(changed):
            b = s0.heap[oid].f.get(k, UNDEF)
            if b is UNDEF:
                continue
            lv = App("loopvar", (Const(lid), Const("%s.%s" % (oid, k)), b))
            self.copy_facts(b, lv)
            marks[(oid, k)] = lv
            self.st.mut(oid).f[k] = lv
        for k in chcontent:
            self.st.content[k] = self.fresh_content(k, lid)
        base_items = {(oid, k): s0.heap[oid].f[k] for oid, k in appended}
        earlier = {}
        for (oid, k), b in base_items.items():
            # unknown number of earlier appends
            if s0.heap[oid].kind == "list" and isinstance(b, Tup) and all(
                    isinstance(e.heap[oid].f[k], Tup) and
                    e.heap[oid].f[k].items[:len(b.items)] == b.items
                    for e in ends if oid in e.heap):
                x = App("each", (App("earlier", (src,)), App("before", (
                    Const(lid), Const(oid)))))
                earlier[oid, k] = x
                self.st.mut(oid).f[k] = Tup(b.items + (x,))
        self.loops.append((lid, src))
        try:
            try:
                bind()
                outs = self.exec_block(body)
            except AbsRaise as e:
                outs = e.leaves
        finally:
            self.loops.pop()
        brk = [l.st for l in outs if l.kind == "break"]
        outs = [l for l in outs if l.kind != "break"]
        self.ev("loop", lid=lid, src=src, brk=[b.pc for b in brk],
                  back=[l.st.pc for l in outs
                        if l.kind in ("fall", "continue")],
                  marks=[l.st.heap[o].f.get(k) for l in outs
                         if l.kind in ("fall", "continue")
                         for o, k in marks])
        for l in outs + [Leaf("fall", None, b) for b in brk]:
            for (oid, k), x in earlier.items():
                v = l.st.heap[oid].f[k]
                if isinstance(v, Tup) and x in v.items:
                    l.st.mut(oid).f[k] = Tup(
                        y for y in v.items if y is not x)
            if l.kind in ("fall", "continue"):
                self.summarise(l.st, s0, marks, base_items, lid, src)
        return outs, brk

    def copy_facts(self, a, b):
        f = self.facts.get(a)
        if f:
            self.facts[b] = dict(f)

    def fresh_content(self, k, lid):
        return App("par", (k, Const("loop%d" % lid)))

    def summarise(self, st, s0, marks, base_items, lid, src):
        """State after the loop: recognise accumulation and appends."""
        for (oid, k), lv in marks.items():
            v = st.heap[oid].f.get(k, UNDEF)
            init = s0.heap[oid].f.get(k, UNDEF)
            if v is lv:
                st.mut(oid).f[k] = init
                continue
            r = None
            if isinstance(v, App) and v.op == "add" and v.args[0] is lv \
                    and lv not in set(walk(v.args[1])):
                r = self.binop("add", init, self.sumover(src, v.args[1]))
            elif isinstance(v, App) and v.op == "add" and v.args[1] is lv \
                    and lv not in set(walk(v.args[0])):
                r = self.binop("add", init, self.sumover(src, v.args[0]))
            if r is None and lv in set(walk(v)):
                r = App("loopres", (src, init, v))
            if r is not None:
                st.mut(oid).f[k] = r
        for (oid, k), b in base_items.items():
            v = st.heap[oid].f[k]
            if isinstance(v, Tup) and isinstance(b, Tup) \
                    and v.items[:len(b.items)] == b.items:
                new = tuple(x if isinstance(x, App) and x.op == "each"
                            else App("each", (src, x))
                            for x in v.items[len(b.items):])
                st.mut(oid).f[k] = Tup(b.items + new)

    def s_While(self, s):
        v = self.eval(s.test)
        d = self.decide(self.truth(v))
        if d is False:
            return self.exec_block(s.orelse)
        c = self.counted(s)
        if c is not None:
            i, rng, val = c
            return self.run_loop(
                self.items_of(rng, consume=True),
                lambda e: self.store_name(i, val(e)), s.body, s.orelse, rng)
        src = App("while", (Const(id(s)),))

        def bind():
            t = self.eval(s.test)
            g = [st for p, st in self.forks(t) if p]
            if g:
                self.st = g[0]
        outs, brk = self.symbolic_iter(bind, s.body, src)
        cont = [l.st for l in outs if l.kind in ("fall", "continue")]
        if d is True and brk and isinstance(s.test, ast.Constant):
            cont = []
        leaves = [l for l in outs if l.kind not in ("fall", "continue")]
        leaves += [Leaf("fall", None, x) for x in cont + brk]
        return leaves

    def counted(self, s):
        """(counter, range, counter at an element) of a while loop that
        counts up to or down from an invariant bound"""
        t = s.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1):
            return None
        a, op, b = t.left, type(t.ops[0]), t.comparators[0]
        if op in (ast.Gt, ast.GtE):
            a, op, b = b, {ast.Gt: ast.Lt, ast.GtE: ast.LtE}[op], a
        if op not in (ast.Lt, ast.LtE):
            return None
        nodes = [n for x in s.body for n in ast.walk(x)]
        stored = {n.id for n in nodes if isinstance(n, ast.Name)
                  and not isinstance(n.ctx, ast.Load)}
        for cnt, bound, sign in ((a, b, 1), (b, a, -1)):
            if not isinstance(cnt, ast.Name):
                continue
            at = [k for k, x in enumerate(s.body)
                  if self.increment(x, cnt.id) == sign]
            if len(at) != 1 or sum(
                    isinstance(n, ast.Name) and n.id == cnt.id
                    and not isinstance(n.ctx, ast.Load)
                    for n in nodes) != 1:
                continue
            if any(isinstance(n, ast.Continue) for x in s.body[:at[0]]
                   for n in ast.walk(x)):
                continue
            bn = list(ast.walk(bound))
            if any(isinstance(n, ast.Name) and n.id in stored or isinstance(
                    n, (ast.Call, ast.NamedExpr)) for n in bn):
                continue
            attrs = {n.attr for n in bn if isinstance(n, ast.Attribute)}
            if any(isinstance(n, ast.Attribute) and n.attr in attrs
                   and not isinstance(n.ctx, ast.Load) for n in nodes):
                continue
            v0, end = self.eval(cnt), self.eval(bound)
            one = Const(1)
            if sign == 1:
                if op is ast.LtE:
                    end = self.binop("add", end, one)
                rng = self.b_range([v0, end], {})
                return cnt.id, rng, lambda e: e
            n = self.binop("sub", v0, end)
            if op is ast.LtE:
                n = self.binop("add", n, one)
            return cnt.id, self.b_range([n], {}), \
                lambda e: self.binop("sub", v0, e)
        return None

    @staticmethod
    def increment(x, i):
        """1 / -1 for i += 1 / i -= 1"""
        if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) \
                and x.target.id == i:
            op, v = x.op, x.value
        elif isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(
                x.targets[0], ast.Name) and x.targets[0].id == i \
                and isinstance(x.value, ast.BinOp) and isinstance(
                    x.value.left, ast.Name) and x.value.left.id == i:
            op, v = x.value.op, x.value.right
        else:
            return 0
        if not (isinstance(v, ast.Constant) and v.value == 1):
            return 0
        return 1 if isinstance(op, ast.Add) else \
            -1 if isinstance(op, ast.Sub) else 0

    def s_Break(self, s):
        return [Leaf("break", None, self.st)]

    def s_Continue(self, s):
        return [Leaf("continue", None, self.st)]

    # ----- try
    def s_Try(self, s):
        outs = self.exec_block(s.body)
        res = []
        for l in outs:
            if l.kind == "raise":
                res.extend(self.handle(l, s.handlers))
            elif l.kind == "fall" and s.orelse:
                self.st = l.st
                res.extend(self.exec_block(s.orelse))
            else:
                res.append(l)
        if s.finalbody:
            fin = []
            falls = [l for l in res if l.kind == "fall"]
            groups = [l for l in res if l.kind != "fall"]
            if falls:
                groups.append(Leaf("fall", None,
                                   merge([l.st for l in falls])))
            for l in groups:
                self.st = l.st
                for o in self.exec_block(s.finalbody):
                    if o.kind == "fall":
                        fin.append(Leaf(l.kind, l.val, o.st, l.loc,
                                        l.explicit))
                    else:
                        fin.append(o)
            res = fin
        return res

    s_TryStar = s_Try

    def handle(self, leaf, handlers):
        for h in handlers:
            self.st = leaf.st
            if h.type is None:
                m = True
            else:
                t = self.eval(h.type)
                ts = list(t.items) if isinstance(t, Tup) else [t]
                rs = [self.exc_matches(leaf.val, x) for x in ts]
                m = True if True in rs else (None if None in rs else False)
            if m is False:
                continue
            if h.name:
                self.store_name(h.name, leaf.val)
            saved = getattr(self.ctx, "handling", None)
            self.ctx.handling = leaf.val
            outs = self.exec_block(h.body)
            self.ctx.handling = saved
            return outs
        return [leaf]

    def exc_type(self, v):
        if isinstance(v, Ref):
            return self.obj(v).cls
        if isinstance(v, (Cls, Ext)):
            return v
        return None

    def exc_matches(self, v, t):
        ty = self.exc_type(v)
        if ty is None:
            return None
        return self.issubclass(ty, t)

    # ----- with
    def s_With(self, s):
        return self.run_with(s.items, s.body)

    s_AsyncWith = s_With

    def run_with(self, items, body):
        if not items:
            return self.exec_block(body)
        it = items[0]
        cm = self.eval(it.context_expr)
        if isinstance(cm, App) and cm.op == "ctxmgr":
            return self.with_generator(cm, it, items[1:], body)
        if isinstance(cm, Ref) and self.obj(cm).kind == "inst":
            en = self.find_method(cm, "__enter__")
            if en is not None:
                v = self.call(en, [], {})
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, v)
                outs = self.run_with(items[1:], body)
                res = []
                falls = [l for l in outs if l.kind == "fall"]
                rest = [l for l in outs if l.kind != "fall"]
                if falls:
                    rest.append(Leaf("fall", None,
                                     merge([l.st for l in falls])))
                for l in rest:
                    self.st = l.st
                    ex = self.find_method(cm, "__exit__")
                    if ex is not None:
                        try:
                            self.call(ex, [NONE, NONE, NONE], {})
                        except AbsRaise as e:
                            res.extend(e.leaves)
                            continue
                    res.append(Leaf(l.kind, l.val, self.st, l.loc,
                                    l.explicit))
                return res
        self.ev("enter", cm=cm)
        if it.optional_vars is not None:
            self.assign(it.optional_vars, App("entered", (cm,)))
        old = self.st.heap[self.ctx.frame].f if self.cuts_graph(cm) else None
        outs = self.run_with(items[1:], body)
        res = []
        for l in outs:
            self.st = l.st
            self.ev("exit", cm=cm)
            if old is not None:
                f = l.st.heap[self.ctx.frame].f
                new = {k: self.cut(v, old.values()) for k, v in f.items()
                       if v is not old.get(k) and not k.startswith("%")}
                if any(v is not f[k] for k, v in new.items()):
                    l.st.mut(self.ctx.frame).f.update(new)
                if l.kind == "return":
                    l = Leaf(l.kind, self.cut(l.val, old.values()), l.st,
                             l.loc)
            res.append(l)
        return res

    def cuts_graph(self, cm):
        """is this torch.no_grad() or the like"""
        if isinstance(cm, Ext):
            return cm.name in ("torch.no_grad", "torch.inference_mode")
        return isinstance(cm, App) and cm.op == "gradmode" and (
            cm.args[0].v in ("no_grad", "inference_mode") and not (
                len(cm.args) > 1 and is_const(cm.args[1], False))
            or cm.args[0].v == "set_grad_enabled" and len(cm.args) > 1
            and is_const(cm.args[1], False))

    def cut(self, v, known=()):
        """a value computed without recording gradients"""
        if isinstance(v, Tup):
            its = [self.cut(x, known) for x in v.items]
            return v if all(a is b for a, b in zip(its, v.items)) \
                else Tup(its)
        if isinstance(v, App) and v.op not in ("par", "detach", "size") \
                and not any(v is k for k in known) and self.is_arraylike(v):
            return App("detach", (v,))
        return v

    def with_generator(self, cm, item, rest, body):
        fn, args = cm.args[0], list(cm.args[1].items)
        kw = dict(cm.kw)
        outer = self.ctx
        stack = self.stack
        res = []
        state = {}

        def hook(v):
            inner, istack = self.ctx, self.stack
            self.ctx, self.stack = outer, stack
            try:
                if item.optional_vars is not None:
                    self.assign(item.optional_vars, v)
                outs = self.run_with(rest, body)
            finally:
                self.ctx, self.stack = inner, istack
            falls = [l for l in outs if l.kind == "fall"]
            raises = [l for l in outs if l.kind == "raise"]
            others = [l for l in outs if l.kind not in ("fall", "raise")]
            if others and not falls:
                # leave through return/break/continue: unwind the manager
                k = others[0].kind
                for l in others:
                    l.st.mut(outer.frame).f["%wret"] = l.val or NONE
                self.st = merge([l.st for l in others])
                state["exit"] = k
            elif falls:
                if others:
                    res.extend(others)
                self.st = merge([l.st for l in falls])
            if raises:
                if not falls and not others:
                    raise AbsRaise(raises)
                self.ctx.raised.extend(raises)
            return NONE
        try:
            self.call_fn(fn, args, kw, yield_hook=hook)
        except AbsRaise as e:
            return res + e.leaves
        if "exit" in state:
            v = self.st.mut(outer.frame).f.pop("%wret", NONE)
            return res + [Leaf(state["exit"], v, self.st, self.loc())]
        return res + [Leaf("fall", None, self.st)]

    # ----- match
    def s_Match(self, s):
        subj = self.eval(s.subject)
        outs = []
        live = [self.st]
        for case in s.cases:
            if not live:
                break
            self.st = merge(live)
            live = []
            for pol, st in self.match_pattern(case.pattern, subj):
                if not pol:
                    live.append(st)
                    continue
                self.st = st
                if case.guard is not None:
                    g = self.eval(case.guard)
                    for p2, s2 in self.forks(g):
                        if p2:
                            self.st = s2
                            outs.extend(self.exec_block(case.body))
                        else:
                            live.append(s2)
                else:
                    outs.extend(self.exec_block(case.body))
        for st in live:
            outs.append(Leaf("fall", None, st))
        return outs

    def match_pattern(self, p, v):
        if isinstance(p, ast.MatchValue):
            return self.forks(self.compare("eq", v, self.eval(p.value)))
        if isinstance(p, ast.MatchSingleton):
            return self.forks(self.is_(v, Const(p.value)))
        if isinstance(p, ast.MatchAs):
            res = [(True, self.st)]
            if p.pattern is not None:
                res = self.match_pattern(p.pattern, v)
            if p.name:
                for pol, st in res:
                    if pol:
                        self.st = st
                        self.store_name(p.name, v)
            return res
        if isinstance(p, ast.MatchOr):
            acc = FALSE
            for q in p.patterns:
                if isinstance(q, ast.MatchValue):
                    t = self.compare("eq", v, self.eval(q.value))
                elif isinstance(q, ast.MatchSingleton):
                    t = self.is_(v, Const(q.value))
                elif isinstance(q, ast.MatchAs) and q.pattern is None:
                    t = TRUE
                else:
                    raise Unsupported("or-pattern")
                acc = self.or_(acc, t)
            return self.forks(acc)
        if isinstance(p, ast.MatchClass) and not p.patterns \
                and not p.kwd_patterns:
            return self.forks(self.isinstance_(v, self.eval(p.cls)))
        if isinstance(p, ast.MatchSequence):
            items = self.known_items(v)
            if items is None or any(isinstance(q, ast.MatchStar)
                                    for q in p.patterns):
                raise Unsupported("sequence pattern")
            if len(items) != len(p.patterns):
                return [(False, self.st)]
            res = [(True, self.st)]
            fails = []
            for q, x in zip(p.patterns, items):
                good = [s for pol, s in res if pol]
                if not good:
                    break
                self.st = merge(good)
                res = self.match_pattern(q, x)
                fails += [(pol, s) for pol, s in res if not pol]
            return [(pol, s) for pol, s in res if pol] + fails
        raise Unsupported("pattern %s" % type(p).__name__)

    # ----------------------------------------------------------- assignment
    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v)
        elif isinstance(t, ast.Attribute):
            self.set_attr(self.eval(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.set_item(self.eval(t.value), self.eval(t.slice), v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v)
        else:
            raise Unsupported("target %s" % type(t).__name__)

    def unpack(self, elts, v):
        items = self.known_items(v, consume=True)
        if items is None and isinstance(v, Ite):
            v = self.tupled(v)
            items = self.known_items(v, consume=True)
        stars = [i for i, e in enumerate(elts)
                 if isinstance(e, ast.Starred)]
        if items is not None:
            if not stars:
                if len(items) != len(elts):
                    self.raise_("ValueError")
                for e, x in zip(elts, items):
                    self.assign(e, x)
                return
            i = stars[0]
            tail = len(elts) - i - 1
            if len(items) < len(elts) - 1:
                self.raise_("ValueError")
            for e, x in zip(elts[:i], items[:i]):
                self.assign(e, x)
            mid = items[i:len(items) - tail]
            self.assign(elts[i].value, self.new_list(mid))
            for e, x in zip(elts[i + 1:], items[len(items) - tail:]):
                self.assign(e, x)
            return
        if stars:
            i = stars[0]
            for j, e in enumerate(elts):
                if j < i:
                    self.assign(e, self.get_item(v, Const(j)))
                elif j == i:
                    self.assign(e.value, App("star_mid", (v, Const(i),
                                             Const(len(elts) - i - 1))))
                else:
                    self.assign(e, self.get_item(v, Const(j - len(elts))))
            return
        for j, e in enumerate(elts):
            self.assign(e, self.get_item(v, Const(j)))

    def tupled(self, v):
        """alternatives of an iterable unpacked one by one"""
        if isinstance(v, Ite):
            return self.split(v.c, lambda: self.tupled(v.a),
                              lambda: self.tupled(v.b))
        items = self.known_items(v, consume=True)
        return v if items is None else Tup(items)

    # --------------------------------------------------------- expressions
    def eval(self, e):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression %s" % type(e).__name__)
        return m(e)

    def e_Constant(self, e):
        return Const(e.value)

    def e_Name(self, e):
        v = self.load_name(e.id)
        if e in self.lazies and isinstance(v, App) and v.op == "lazygen":
            g = self.lazies[e]
            return self.new_list(self.comp(
                g, lambda: self.eval(g.elt), v.args[0]), once=True)
        return v

    def e_NamedExpr(self, e):
        v = self.eval(e.value)
        self.store_name(e.target.id, v)
        return v

    def e_Tuple(self, e):
        return Tup(self.eval_elts(e.elts))

    def e_List(self, e):
        return self.new_list(self.eval_elts(e.elts))

    def e_Set(self, e):
        return self.new_list(self.eval_elts(e.elts), "set")

    def eval_elts(self, elts):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.items_of(self.eval(x.value), consume=True))
            else:
                out.append(self.eval(x))
        return out

    def e_Dict(self, e):
        pairs = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = self.eval(v)
                for p in self.dict_pairs(d):
                    pairs = [q for q in pairs if q[0] is not p[0]]
                    pairs.append(p)
            else:
                kk = self.eval(k)
                vv = self.eval(v)
                pairs = [q for q in pairs if q[0] is not kk]
                pairs.append((kk, vv))
        return self.new_dict(pairs)

    def dict_pairs(self, d):
        if isinstance(d, Ref) and self.obj(d).kind == "dict":
            it = self.obj(d).f["items"]
            if isinstance(it, Tup):
                return [(p.items[0], p.items[1]) if isinstance(p, Tup)
                        else (App("eachkey", (p,)), p) for p in it.items]
        return [(App("dictstar", (d,)), d)]

    def e_JoinedStr(self, e):
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(Const(x.value))
            else:
                parts.append(self.e_FormattedValue(x))
        return self.joined(parts)

    def joined(self, parts):
        for i, p in enumerate(parts):
            if isinstance(p, Ite):
                return self.split(
                    p.c, lambda: self.joined(parts[:i] + [p.a] +
                                             parts[i + 1:]),
                    lambda: self.joined(parts[:i] + [p.b] + parts[i + 1:]))
        if all(isinstance(p, Const) for p in parts):
            return Const("".join(str(p.v) for p in parts))
        return App("fstr", parts)

    def e_FormattedValue(self, e):
        v = self.eval(e.value)
        if e.format_spec is not None or e.conversion not in (-1, 115):
            return App("str", (v,))

        def text(v):
            if isinstance(v, Const) and isinstance(v.v, (str, int)):
                return Const(str(v.v))
            if isinstance(v, Ite):
                a, b = text(v.a), text(v.b)
                if isinstance(a, (Const, Ite)) and isinstance(
                        b, (Const, Ite)):
                    return ite(v.c, a, b)
            return App("str", (v,))
        return text(v)

    def e_Lambda(self, e):
        return self.make_fn(e)

    def e_IfExp(self, e):
        v = self.eval(e.test)
        return self.split(v, lambda: self.eval(e.body),
                          lambda: self.eval(e.orelse))

    def e_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)

        def go(vals):
            v = self.eval(vals[0])
            if len(vals) == 1:
                return v
            if isand:
                return self.split(v, lambda: go(vals[1:]),
                                  lambda: self.boolish(v, False))
            return self.split(v, lambda: self.boolish(v, True),
                              lambda: go(vals[1:]))
        return go(e.values)

    def boolish(self, v, pol):
        """Value of an operand known to be truthy/falsy."""
        if self.is_bool_typed(v):
            return Const(pol)
        return v

    def is_bool_typed(self, v):
        if isinstance(v, Const):
            return isinstance(v.v, bool)
        if isinstance(v, App):
            return v.op in ("lt", "le", "eq", "not", "is", "in", "truth",
                            "isinstance", "hasattr", "bool", "callable",
                            "and", "or", "any", "all", "raises",
                            "issubclass")
        if isinstance(v, Ite):
            return self.is_bool_typed(v.a) and self.is_bool_typed(v.b)
        return self.facts.get(v, {}).get("type") == "builtins.bool"

    def e_UnaryOp(self, e):
        v = self.eval(e.operand)
        if isinstance(e.op, ast.Not):
            return self.not_(v)
        if isinstance(e.op, ast.USub):
            return self.neg(v)
        if isinstance(e.op, ast.UAdd):
            return v
        return self.op("invert", (v,))

    def not_(self, v):
        c = self.truth(v)
        d = self.decide(c)
        if d is not None:
            return Const(not d)
        return self._not(c)

    def _not(self, c):
        if isinstance(c, Const):
            return Const(not c.v)
        if isinstance(c, App) and c.op == "not":
            return c.args[0]
        if isinstance(c, Ite):
            return ite(c.c, self._not(c.a), self._not(c.b))
        return App("not", (c,))

    def or_(self, a, b):
        if isinstance(a, Const):
            return a if a.v else b
        if isinstance(b, Const) and not b.v:
            return a
        return ite(a, TRUE, b)

    def and_(self, a, b):
        if isinstance(a, Const):
            return b if a.v else a
        if isinstance(b, Const) and b.v is True:
            return a
        return ite(a, b, FALSE)

    def e_BinOp(self, e):
        a = self.eval(e.left)
        b = self.eval(e.right)
        return self.binop(BIN[type(e.op)], a, b)

    def e_Compare(self, e):
        left = self.eval(e.left)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r)
            v = self.compare_op(op, left, right)
            res = v if res is None else self.and_(self.truth(res), v)
            left = right
        return res

    def compare_op(self, op, a, b):
        if isinstance(op, ast.Is):
            return self.is_(a, b)
        if isinstance(op, ast.IsNot):
            return self.not_(self.is_(a, b))
        if isinstance(op, ast.In):
            return self.in_(a, b)
        if isinstance(op, ast.NotIn):
            return self.not_(self.in_(a, b))
        n = {ast.Eq: "eq", ast.NotEq: "ne", ast.Lt: "lt", ast.LtE: "le",
             ast.Gt: "gt", ast.GtE: "ge"}[type(op)]
        return self.compare(n, a, b)

    def e_Subscript(self, e):
        v = self.eval(e.value)
        if isinstance(v, (Ext, Cls)) and not isinstance(v, Ref):
            # typing subscripts: Optional[...], List[...]
            if isinstance(v, Cls) or v.name.startswith(
                    ("typing", "builtins", "collections", "numpy.typing")):
                return App("getitem", (v, NONE))
        k = self.eval(e.slice)
        if isinstance(v, Ext) and v.name in ("numpy.c_", "numpy.r_") \
                and isinstance(k, Tup):
            return self.np_stack("column_stack" if v.name == "numpy.c_"
                                 else "hstack", list(k.items))
        return self.get_item(v, k)

    def e_Slice(self, e):
        f = [NONE if x is None else self.eval(x)
             for x in (e.lower, e.upper, e.step)]
        return App("slice", f)

    def e_Starred(self, e):
        return self.eval(e.value)

    def e_Attribute(self, e):
        return self.get_attr(self.eval(e.value), e.attr)

    def e_Await(self, e):
        return self.eval(e.value)

    def e_Yield(self, e):
        v = NONE if e.value is None else self.eval(e.value)
        if self.ctx.yield_hook is not None:
            return self.ctx.yield_hook(v)
        if self.ctx.yields is not None:
            y = self.ctx.yields
            self.list_extend(y, [v if not self.loops or
                                 self.loops is self.ctx.loops0
                                 else v])
        return NONE

    def e_YieldFrom(self, e):
        v = self.eval(e.value)
        if self.ctx.yields is not None:
            self.list_extend(self.ctx.yields, self.items_of(v))
        return NONE

    # comprehensions
    def comp(self, e, emit, first=None):
        """Run the generators; emit() evaluates the element."""
        saved = self.ctx.comp
        self.ctx.comp = dict(saved or {})
        out = []

        def bind(t, v):
            if isinstance(t, ast.Name):
                self.ctx.comp[t.id] = v
            elif isinstance(t, (ast.Tuple, ast.List)):
                its = self.known_items(v)
                stars = [i for i, x in enumerate(t.elts)
                         if isinstance(x, ast.Starred)]
                if stars:
                    raise Unsupported("star in comprehension")
                for j, x in enumerate(t.elts):
                    bind(x, its[j] if its is not None and j < len(its)
                         else self.get_item(v, Const(j)))
            elif isinstance(t, ast.Starred):
                bind(t.value, v)
            else:
                raise Unsupported("comprehension target")

        def go(gens, wraps):
            if not gens:
                v = emit()
                for w in reversed(wraps):
                    if w[0] == "each":
                        v = App("each", (w[1], v))
                    else:
                        v = App("each", (App("filter", (w[1],)), v))
                out.append(v)
                return
            g = gens[0]
            it = first if first is not None and g is e.generators[0] \
                else self.eval(g.iter)
            for x in self.items_of(it, consume=True):
                w = list(wraps)
                pushed = False
                if isinstance(x, App) and x.op == "each":
                    w.append(("each", x.args[0]))
                    bind(g.target, x.args[1])
                    self.nloops += 1
                    self.loops.append((self.nloops, x.args[0]))
                    pushed = True
                else:
                    bind(g.target, x)
                ok = True
                for cnd in g.ifs:
                    c = self.truth(self.eval(cnd))
                    d = self.decide(c)
                    if d is False:
                        ok = False
                        break
                    if d is None:
                        w.append(("if", c))
                if ok:
                    go(gens[1:], w)
                if pushed:
                    self.loops.pop()
        try:
            go(e.generators, [])
        finally:
            self.ctx.comp = saved
        return out

    def e_ListComp(self, e):
        return self.new_list(self.comp(e, lambda: self.eval(e.elt)))

    def e_SetComp(self, e):
        return self.new_list(self.comp(e, lambda: self.eval(e.elt)), "set")

    def e_GeneratorExp(self, e):
        return self.new_list(self.comp(e, lambda: self.eval(e.elt)),
                             once=True)

    def e_DictComp(self, e):
        its = self.comp(e, lambda: Tup((self.eval(e.key),
                                        self.eval(e.value))))
        return self.alloc("dict", None, {"items": Tup(its)})

    # ------------------------------------------------------------- calling
    def e_Call(self, e):
        f = self.eval(e.func)
        if isinstance(f, Ext) and f.name == "builtins.super":
            return self.make_super([self.eval(a) for a in e.args])
        if isinstance(f, Ext) and f.name == "builtins.locals":
            o = self.st.heap[self.ctx.frame]
            return self.new_dict([(Const(k), v) for k, v in o.f.items()
                                  if not k.startswith("%")
                                  and v is not UNDEF])
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value)
                its = self.known_items(v, consume=True)
                if its is None:
                    its = [App("star", (v,))]
                args.extend(its)
            else:
                args.append(self.eval(a))
        for k in e.keywords:
            if k.arg is None:
                d = self.eval(k.value)
                for kk, vv in self.dict_pairs(d):
                    if isinstance(kk, Const):
                        kw[kk.v] = vv
                    else:
                        kw["**"] = vv
            else:
                kw[k.arg] = self.eval(k.value)
        self.ctx.line = e.lineno
        return self.call(f, args, kw)

    def make_super(self, args):
        if args:
            return App("super", (args[0], args[1]))
        c = self.ctx
        while c.fn is not None and c.fn.owner is None:
            raise Unsupported("super() outside a class")
        first = c.fn.node.args.posonlyargs + c.fn.node.args.args
        slf = self.load_name(first[0].arg)
        return App("super", (Cls(c.fn.owner), slf))

    def call(self, f, args, kw):
        if isinstance(f, Ite):
            if f.a is UNDEF:
                return self.call(f.b, args, kw)
            if f.b is UNDEF:
                return self.call(f.a, args, kw)
            return self.split(f.c, lambda: self.call(f.a, args, kw),
                              lambda: self.call(f.b, args, kw))
        if isinstance(f, Fn):
            return self.call_fn(f, args, kw)
        if isinstance(f, Bound):
            if isinstance(f.self, Ref) and isinstance(f.fn, Fn) and \
                    self.fns[f.fn.fid].name == "step" and \
                    f.self.oid in self.st.heap and \
                    "%params" in self.obj(f.self).f:
                self.run_hooks(f.self, "pre", args, kw)
                r = self.call(f.fn, [f.self] + list(args), kw)
                self.run_hooks(f.self, "post", args, kw)
                return r
            return self.call(f.fn, [f.self] + list(args), kw)
        if isinstance(f, Cls):
            return self.instantiate(f, args, kw)
        if isinstance(f, Prop) and f.kind in ("static",):
            return self.call(f.get, args, kw)
        if isinstance(f, Ext):
            return self.ext_call(f.name, list(args), dict(kw))
        if isinstance(f, BMeth):
            return self.method_call(f.recv, f.name, list(args), dict(kw))
        if isinstance(f, App) and f.op == "partial":
            k2 = dict(f.kw)
            k2.update(kw)
            return self.call(f.args[0], list(f.args[1:]) + list(args), k2)
        if isinstance(f, App) and f.op == "opgetter" and len(args) == 1:
            ks = f.args[1:]
            out = []
            for k in ks:
                x = args[0]
                if f.args[0].v == "itemgetter":
                    x = self.get_item(x, k)
                else:
                    for part in k.v.split("."):
                        x = self.get_attr(x, part)
                out.append(x)
            return out[0] if len(out) == 1 else Tup(out)
        if isinstance(f, App) and f.op == "gradfn":
            return self.call_gradfn(f, args, kw)
        if isinstance(f, App) and f.op == "vmapfn":
            return self.call_vmapfn(f, args, kw)
        if isinstance(f, App) and f.op in ("wrapsdec", "extdec"):
            return args[0]
        if isinstance(f, Ref):
            return self.call_obj(f, args, kw)
        self.ev("callvalue", fn=f, args=tuple(args), kw=dict(kw))
        r = self.fact(f, "result")
        if r is not None:
            return r
        return self.op_call(f, args, kw)

    def op_call(self, f, args, kw):
        return App("call", (f,) + tuple(self.freeze(a) for a in args),
                   {k: self.freeze(v) for k, v in kw.items()})

    def call_obj(self, f, args, kw):
        o = self.obj(f)
        if o.kind == "inst":
            m = self.find_method(f, "__call__")
            if m is not None:
                return self.call(m, args, kw)
            if self.is_torch_module(f):
                m = self.find_method(f, "forward")
                if m is not None:
                    return self.call(m, args, kw)
        return self.call_ext_obj(f, args, kw)

    def bind_args(self, r, args, kw, fnode=None):
        a = r.node.args
        pos = a.posonlyargs + a.args
        env = {}
        kw = dict(kw)
        star = None
        plain = []
        for x in args:
            if isinstance(x, App) and x.op in ("star", "each"):
                star = x
                break
            plain.append(x)
        for p, x in zip(pos, plain):
            env[p.arg] = x
        extra = plain[len(pos):]
        if star is not None:
            src = star.args[0]
            j = 0
            for p in pos[len(plain):]:
                if p.arg in kw:
                    continue
                env[p.arg] = self.get_item(src, Const(j)) \
                    if star.op == "star" else star.args[1]
                j += 1
        if extra and a.vararg is None:
            self.raise_("TypeError")
        for p in pos + a.kwonlyargs:
            if p.arg in kw:
                if p.arg in env and star is None:
                    self.raise_("TypeError")
                env[p.arg] = kw.pop(p.arg)
        nd = len(r.defaults)
        for i, p in enumerate(pos):
            if p.arg not in env:
                j = i - (len(pos) - nd)
                if j >= 0 and "**" in kw:
                    # given or not, nobody knows
                    env[p.arg] = App("xcall", (
                        Const("kwarg:" + p.arg), self.freeze(kw["**"]),
                        self.freeze(r.defaults[j])))
                elif j >= 0:
                    env[p.arg] = r.defaults[j]
                elif "**" in kw:
                    env[p.arg] = self.get_item(kw["**"], Const(p.arg))
                else:
                    self.raise_("TypeError")
        for p, d in zip(a.kwonlyargs, r.kwdefaults):
            if p.arg not in env:
                if d is not None:
                    env[p.arg] = d
                else:
                    self.raise_("TypeError")
        if a.vararg is not None:
            rest = list(extra)
            if star is not None and len(plain) >= len(pos):
                rest.append(star if star.op == "each" else
                            App("each", (star.args[0],
                                         App("elem", (star.args[0],)))))
            env[a.vararg.arg] = Tup(rest)
        if a.kwarg is not None:
            env[a.kwarg.arg] = self.new_dict(
                [(Const(k), v) for k, v in kw.items() if k != "**"])
        elif [k for k in kw if k != "**"]:
            self.raise_("TypeError")
        return env

    def call_fn(self, f, args, kw, yield_hook=None):
        r = self.fns[f.fid]
        if r.ctxmgr and yield_hook is None:
            return App("ctxmgr", (f, Tup(args)), kw)
        if len(self.stack) > MAXDEPTH or \
                sum(1 for c in self.stack if c.fn is r) > 3:
            self.note_opaque("recursion:" + r.qual)
            return App("recursive", (Const(r.qual),) + tuple(
                self.freeze(a) for a in args))
        env = self.bind_args(r, args, kw)
        self.visited_fns.add((r.module, r.qual))
        env["%"] = NONE
        fr = self.alloc("frame", None, env)
        if r.parent is not None:
            self.mut(fr).f["%parent"] = Ref(r.parent)
        outer = self.ctx
        ctx = Ctx(r, r.module, fr.oid, r.owner, r.qual)
        ctx.line = r.node.lineno
        ctx.yield_hook = yield_hook
        nfns = len(self.fns)
        if r.isgen and yield_hook is None:
            ctx.yields = self.new_list([])
        self.ctx = ctx
        self.stack.append(ctx)
        try:
            if isinstance(r.node, ast.Lambda):
                try:
                    v = self.eval(r.node.body)
                    leaves = [Leaf("return", v, self.st)]
                except AbsRaise as e:
                    leaves = list(e.leaves)
                leaves = ctx.raised + leaves
            else:
                leaves = self.exec_block(r.node.body)
        finally:
            self.stack.pop()
            self.ctx = outer
        rets = [l for l in leaves if l.kind in ("return", "fall")]
        raises = [l for l in leaves if l.kind == "raise"]
        if not rets:
            raise AbsRaise(raises)
        if outer is not None:
            outer.raised.extend(raises)
        else:
            self.top_raises = raises
        for l in rets:
            l.st.mut(fr.oid).f["%ret"] = l.val if l.kind == "return" \
                else NONE
        self.st = merge([l.st for l in rets])
        o = self.st.mut(fr.oid)
        v = o.f.pop("%ret")
        if ctx.yields is not None:
            v = ctx.yields
            self.mut(v).f["once"] = TRUE
        if len(self.fns) == nfns and r.parent is None:
            self.st.heap.pop(fr.oid, None)
        return self.cut(v, env.values()) if r.nograd else v

    # --------------------------------------------------------- classes
    def mro(self, c):
        if isinstance(c, Ext):
            return [c]
        info = self.classes[c.name]
        if "mro" in info:
            return info["mro"]
        seqs = [list(self.mro(b)) for b in info["bases"]
                if isinstance(b, (Cls, Ext))]
        seqs.append([b for b in info["bases"] if isinstance(b, (Cls, Ext))])
        res = [c]
        while any(seqs):
            seqs = [s for s in seqs if s]
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            else:
                h = seqs[0][0]
            res.append(h)
            for s in seqs:
                while h in s:
                    s.remove(h)
        info["mro"] = res
        return res

    def class_lookup(self, c, name, after=None):
        m = self.mro(c)
        if after is not None:
            m = m[m.index(after) + 1:] if after in m else m[1:]
        for k in m:
            if isinstance(k, Cls):
                o = self.st.heap[self.classes[k.name]["oid"]]
                v = o.f.get(name)
                if v is not None and v is not UNDEF and name[:1] != "%":
                    return v, k
        return None, None

    def ext_bases(self, c, after=None):
        m = self.mro(c)
        if after is not None and after in m:
            m = m[m.index(after) + 1:]
        return [k.name for k in m if isinstance(k, Ext)]

    def find_method(self, ref, name):
        o = self.obj(ref)
        if o.kind == "inst" and name in o.f and name[:1] != "%":
            return o.f[name]
        if isinstance(o.cls, Cls):
            v, k = self.class_lookup(o.cls, name)
            if v is not None:
                return self.bind(v, ref, o.cls)
        return None

    def bind(self, v, ref, cls):
        if isinstance(v, Fn):
            return Bound(v, ref)
        if isinstance(v, Prop):
            if v.kind == "static":
                return v.get
            if v.kind == "class":
                return Bound(v.get, cls)
            return self.call(v.get, [ref], {})
        if isinstance(v, Ite):
            return ite(v.c, self.bind(v.a, ref, cls),
                       self.bind(v.b, ref, cls))
        return v

    def instantiate(self, c, args, kw):
        ext = self.ext_bases(c)
        info = self.classes[c.name]
        if any(b in ("enum.Enum", "enum.IntEnum", "enum.StrEnum")
               for b in ext):
            return App("enum", (c,) + tuple(args))
        nt = any(b.rsplit(".", 1)[-1] == "NamedTuple" for b in ext)
        ref = self.alloc("inst", c, {})
        self.ev("new", ref=ref, cls=c, args=tuple(args), kw=dict(kw))
        init, k = self.class_lookup(c, "__init__")
        if init is not None and not (info["dataclass"] and
                                     k is not c and False):
            self.call(self.bind(init, ref, c), args, kw)
        elif nt or any(self.classes[b.name]["dataclass"]
                       for b in self.mro(c) if isinstance(b, Cls)):
            self.dataclass_init(ref, c, args, kw)
        else:
            self.ext_init(ref, c, args, kw)
        if nt:
            self.mut(ref).f["%tuple"] = TRUE
        return ref

    def dataclass_fields(self, c):
        fields = []
        for k in reversed(self.mro(c)):
            if isinstance(k, Cls):
                for n, has in self.classes[k.name]["ann"]:
                    if n not in [x for x, _, _ in fields]:
                        fields.append((n, has, k))
        return fields

    def dataclass_init(self, ref, c, args, kw):
        kw = dict(kw)
        args = list(args)
        for n, has, k in self.dataclass_fields(c):
            if args:
                v = args.pop(0)
            elif n in kw:
                v = kw.pop(n)
            elif has:
                v = self.st.heap[self.classes[k.name]["oid"]].f.get(n, NONE)
                if isinstance(v, App) and v.op == "dcfield":
                    d = dict(v.kw)
                    v = d.get("default") or self.call(
                        d["default_factory"], [], {})
            else:
                self.raise_("TypeError")
            self.mut(ref).f[n] = v
        if args or kw:
            self.raise_("TypeError")
        post = self.find_method(ref, "__post_init__")
        if post is not None:
            self.call(post, [], {})

    # ---------------------------------------------------------- attributes
    def get_attr(self, v, name):
        if isinstance(v, Ref):
            return self.get_obj_attr(v, name)
        if isinstance(v, Mod):
            r = self.module_attr(v.name, name)
            if r is None:
                self.raise_("AttributeError")
            return r
        if isinstance(v, Ext):
            return self.ext_attr(v, name)
        if isinstance(v, Cls):
            if name == "__name__":
                return Const(self.classes[v.name]["name"])
            r, k = self.class_lookup(v, name)
            if r is not None:
                if isinstance(r, Prop):
                    if r.kind == "static":
                        return r.get
                    if r.kind == "class":
                        return Bound(r.get, v)
                return r
            for b in self.ext_bases(v):
                return BMeth(v, name)
            if name == "__init__":
                return BMeth(v, name)
            self.raise_("AttributeError")
        if isinstance(v, App) and v.op == "super":
            return self.super_attr(v, name)
        if isinstance(v, Ite):
            if v.a is UNDEF or v.b is UNDEF:
                return self.get_attr(v.b if v.a is UNDEF else v.a, name)
            return self.split(v.c, lambda: self.get_attr(v.a, name),
                              lambda: self.get_attr(v.b, name))
        if isinstance(v, Const) and v.v is None:
            if name in ("__class__",):
                return Ext("builtins.NoneType")
            self.raise_("AttributeError")
        if isinstance(v, Prop):
            return BMeth(v, name)
        if isinstance(v, Fn):
            if name in ("__name__", "__qualname__"):
                return Const(self.fns[v.fid].name)
            return App("attr", (v, Const(name)))
        if isinstance(v, Bound) and name in ("__func__",):
            return v.fn
        if isinstance(v, Bound) and name == "__self__":
            return v.self
        return self.value_attr(v, name)

    def super_attr(self, s, name):
        after, slf = s.args
        cls = self.obj(slf).cls if isinstance(slf, Ref) else slf
        if isinstance(cls, Cls):
            r, k = self.class_lookup(cls, name, after=after)
            if r is not None:
                if isinstance(slf, Ref):
                    return self.bind(r, slf, cls)
                if isinstance(r, Prop):
                    return Bound(r.get, cls) if r.kind == "class" else r.get
                return r
        return BMeth(s, name)

    def get_obj_attr(self, ref, name):
        o = self.obj(ref)
        if o.kind == "inst":
            v, k = self.class_lookup(o.cls, name)
            if isinstance(v, Prop) and v.kind == "property":
                return self.call(v.get, [ref], {})
            if name in o.f and name[:1] != "%":
                x = o.f[name]
                if x is not UNDEF:
                    self.field_read(ref, name)
                    return x if not (isinstance(x, Ite) and UNDEF in
                                     (x.a, x.b)) else self.cond_field(
                                         x, ref, name)
            if v is not None:
                return self.bind(v, ref, o.cls)
            if name == "__class__":
                return o.cls
            if name == "__dict__":
                r = self.new_dict([(Const(k), x) for k, x in o.f.items()
                                   if k[:1] != "%"])
                self.mut(r).f["%of"] = ref
                return r
            ga, _ = self.class_lookup(o.cls, "__getattr__")
            if ga is not None:
                return self.call(self.bind(ga, ref, o.cls), [Const(name)],
                                 {})
            return self.ext_obj_attr(ref, name)
        if o.kind == "class":
            return self.get_attr(o.cls, name)
        return self.ext_obj_attr(ref, name)

    def cond_field(self, x, ref, name):
        return x.b if x.a is UNDEF else x.a

    def field_read(self, ref, name):
        o = self.obj(ref)
        if o.shared:
            self.ev("readfield", ref=ref, name=name, val=o.f[name])

    def set_attr(self, v, name, val):
        if isinstance(v, Ref):
            o = self.obj(v)
            if o.kind == "inst":
                p, k = self.class_lookup(o.cls, name)
                if isinstance(p, Prop) and p.kind == "property":
                    if p.set is None:
                        self.raise_("AttributeError")
                    self.call(p.set, [v, val], {})
                    return
            self.ev("setattr", ref=v, name=name, val=val,
                    old=o.f.get(name, UNDEF))
            self.obj_set(v, name, val)
        elif isinstance(v, Ite):
            self.split(v.c, lambda: self.set_attr(v.a, name, val) or NONE,
                       lambda: self.set_attr(v.b, name, val) or NONE)
        elif isinstance(v, Cls):
            self.ev("setclassattr", cls=v, name=name, val=val)
            self.st.mut(self.classes[v.name]["oid"]).f[name] = val
        elif isinstance(v, Mod):
            self.ev("setglobal", name=name, module=v.name, val=val)
            self.st.mut(self.modules[v.name]).f[name] = val
        else:
            self.value_set_attr(v, name, val)

    def obj_set(self, ref, name, val):
        self.mut(ref).f[name] = val

    def del_attr(self, v, name):
        if isinstance(v, Ref):
            o = self.obj(v)
            if o.kind == "inst":
                p, k = self.class_lookup(o.cls, name)
                if isinstance(p, Prop) and p.kind == "property" and p.dele:
                    self.call(p.dele, [v], {})
                    return
            self.ev("delattr", ref=v, name=name)
            self.mut(v).f[name] = UNDEF
        else:
            self.ev("delattr", ref=v, name=name)

    # hooks implemented by ext.Lib
    def value_set_attr(self, v, name, val):
        self.ev("setattr", ref=v, name=name, val=val, old=UNDEF)

    # ------------------------------------------------------------ run API
    def run(self, fn):
        """Evaluate fn() (a Python thunk driving this interpreter); return
        (value or None, state or None, raise leaves)."""
        ctx = Ctx(None, self.package, self.alloc("frame", None, {}).oid,
                  None, "<entry>")
        saved = self.ctx, self.stack
        self.ctx = ctx
        self.stack = [ctx]
        try:
            try:
                v = fn()
                return v, ctx.raised
            except AbsRaise as e:
                return None, ctx.raised + list(e.leaves)
        finally:
            self.ctx, self.stack = saved


Ctx.comp = None
Ctx.loops0 = None
