"""Development aid: behaviour-preserving rewrites of the whole package.

    python3 tools/refactor.py SRC DST NAME

writes to DST a copy of SRC/skwdro in which every file went through the
transformation NAME.  All checks must stay quiet on the result.
"""
import ast
import copy
import os
import shutil
import sys


def functions(tree):
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            yield n


def nested(fn):
    """names read or written by functions and classes nested in fn"""
    out = set()
    for n in ast.walk(fn):
        if n is not fn and isinstance(n, (ast.FunctionDef, ast.Lambda,
                                          ast.ClassDef)):
            for m in ast.walk(n):
                if isinstance(m, ast.Name):
                    out.add(m.id)
                if isinstance(m, (ast.Nonlocal, ast.Global)):
                    out |= set(m.names)
    return out


class Fresh:
    n = 0

    @classmethod
    def name(cls, stem="tmp"):
        cls.n += 1
        return "_%s_%d" % (stem, cls.n)


def name(s, ctx=None):
    return ast.Name(id=s, ctx=ctx or ast.Load())


def assign(s, v):
    return ast.Assign(targets=[name(s, ast.Store())], value=v)


# ---- transformations
def plain(tree):
    """formatting and comments only"""
    return tree


def nodoc(tree):
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) \
                and n.body and isinstance(n.body[0], ast.Expr) \
                and isinstance(n.body[0].value, ast.Constant) \
                and isinstance(n.body[0].value.value, str):
            n.body = n.body[1:] or [ast.Pass()]
    return tree


class Rename(ast.NodeTransformer):
    def __init__(self, m):
        self.m = m

    def visit_Name(self, n):
        n.id = self.m.get(n.id, n.id)
        return n

    def visit_ExceptHandler(self, n):
        n.name = self.m.get(n.name, n.name)
        return self.generic_visit(n)


def rename(tree):
    """local variables that are not arguments"""
    for fn in list(functions(tree)):
        if any(isinstance(n, (ast.Global, ast.Nonlocal))
               for n in ast.walk(fn)):
            continue
        args = {a.arg for a in ast.walk(fn.args) if isinstance(a, ast.arg)}
        inner = {a.arg for n in ast.walk(fn) if n is not fn and isinstance(
            n, (ast.FunctionDef, ast.Lambda)) for a in ast.walk(n.args)
            if isinstance(a, ast.arg)}
        inner |= {n.name for n in ast.walk(fn) if n is not fn and isinstance(
            n, (ast.FunctionDef, ast.ClassDef))}
        for n in ast.walk(fn):
            if n is not fn and isinstance(n, ast.FunctionDef):
                inner |= {m.id for m in ast.walk(n) if isinstance(
                    m, ast.Name) and isinstance(m.ctx, ast.Store)}
        loc = {n.id for n in ast.walk(fn) if isinstance(n, ast.Name)
               and isinstance(n.ctx, (ast.Store, ast.Del))}
        loc -= args | inner
        loc = {x for x in loc if not x.endswith("_r")}
        Rename({x: x + "_r" for x in loc}).visit(fn)
    return tree


class Swap(ast.NodeTransformer):
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse:
            t = n.test
            t = t.operand if isinstance(t, ast.UnaryOp) and isinstance(
                t.op, ast.Not) else ast.UnaryOp(op=ast.Not(), operand=t)
            return ast.If(test=t, body=n.orelse, orelse=n.body)
        return n

    def visit_IfExp(self, n):
        self.generic_visit(n)
        return ast.IfExp(test=ast.UnaryOp(op=ast.Not(), operand=n.test),
                         body=n.orelse, orelse=n.body)


def swap(tree):
    return Swap().visit(tree)


class Return(ast.NodeTransformer):
    def visit_Return(self, n):
        if n.value is None or isinstance(n.value, (ast.Name, ast.Constant)):
            return n
        t = Fresh.name("out")
        return [assign(t, n.value), ast.Return(value=name(t))]


def returns(tree):
    return Return().visit(tree)


def ends(body):
    return bool(body) and isinstance(body[-1], (ast.Return, ast.Raise,
                                                ast.Continue, ast.Break))


class Flatten(ast.NodeTransformer):
    """no else after return"""
    def block(self, body):
        out = []
        for s in body:
            s = self.visit(s)
            if isinstance(s, ast.If) and s.orelse and ends(s.body):
                out.append(ast.If(test=s.test, body=s.body, orelse=[]))
                out.extend(s.orelse)
            else:
                out.append(s)
        return out

    def generic_visit(self, n):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                setattr(n, f, self.block(b))
        for h in getattr(n, "handlers", []):
            self.generic_visit(h)
        return n


def flatten(tree):
    return Flatten().generic_visit(tree)


class Nest(ast.NodeTransformer):
    """else after return"""
    def block(self, body):
        out = []
        for i, s in enumerate(body):
            if isinstance(s, ast.If) and not s.orelse and ends(s.body) \
                    and body[i + 1:]:
                rest = self.block(body[i + 1:])
                s.body = self.block(s.body)
                s.orelse = rest
                out.append(s)
                return out
            out.append(self.generic_visit(s))
        return out

    def generic_visit(self, n):
        if isinstance(n, (ast.Module, ast.ClassDef)):
            for s in n.body:
                self.generic_visit(s)
            return n
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                setattr(n, f, self.block(b))
        return n


def nest(tree):
    return Nest().generic_visit(tree)


SIMPLE = (ast.Name, ast.Constant, ast.Starred)


class Args(ast.NodeTransformer):
    """arguments of calls in simple statements are computed beforehand"""
    def lift(self, s, e):
        pre = []
        if not isinstance(e, ast.Call) or any(
                isinstance(x, (ast.Starred, ast.Lambda, ast.GeneratorExp,
                               ast.Yield, ast.NamedExpr))
                for x in ast.walk(e)):
            return pre
        if not isinstance(e.func, ast.Name) and not (isinstance(
                e.func, ast.Attribute) and isinstance(
                    e.func.value, ast.Name)):
            return pre
        if isinstance(e.func, ast.Name) and e.func.id in ("super", "warn"):
            return pre
        for i, a in enumerate(e.args):
            if not isinstance(a, SIMPLE):
                t = Fresh.name("arg")
                pre.append(assign(t, a))
                e.args[i] = name(t)
        for k in e.keywords:
            if k.arg and not isinstance(k.value, SIMPLE):
                t = Fresh.name(k.arg)
                pre.append(assign(t, k.value))
                k.value = name(t)
        return pre

    def visit_Assign(self, s):
        return self.lift(s, s.value) + [s]

    def visit_Return(self, s):
        return (self.lift(s, s.value) if s.value is not None else []) + [s]

    def visit_Expr(self, s):
        return self.lift(s, s.value) + [s]

    def visit_ClassDef(self, n):
        for i, s in enumerate(n.body):
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                n.body[i] = self.visit(s)
        return n

    def visit_Module(self, n):
        return self.visit_ClassDef(n)


def args(tree):
    return Args().visit(tree)


class Ternary(ast.NodeTransformer):
    """x = a if c else b  ->  if statement"""
    def visit_Assign(self, s):
        if isinstance(s.value, ast.IfExp):
            v = s.value
            return ast.If(
                test=v.test,
                body=[ast.Assign(targets=copy.deepcopy(s.targets),
                                 value=v.body)],
                orelse=[ast.Assign(targets=copy.deepcopy(s.targets),
                                   value=v.orelse)])
        return s

    def visit_Return(self, s):
        if isinstance(s.value, ast.IfExp):
            v = s.value
            return ast.If(test=v.test, body=[ast.Return(value=v.body)],
                          orelse=[ast.Return(value=v.orelse)])
        return s


def ternary(tree):
    return Ternary().visit(tree)


class Condexpr(ast.NodeTransformer):
    """if/else returning or assigning the same name -> conditional"""
    def visit_If(self, n):
        self.generic_visit(n)
        if len(n.body) == 1 == len(n.orelse):
            a, b = n.body[0], n.orelse[0]
            if isinstance(a, ast.Return) and isinstance(b, ast.Return) \
                    and a.value is not None and b.value is not None:
                return ast.Return(value=ast.IfExp(
                    test=n.test, body=a.value, orelse=b.value))
            if isinstance(a, ast.Assign) and isinstance(b, ast.Assign) \
                    and ast.dump(a.targets[0]) == ast.dump(b.targets[0]) \
                    and len(a.targets) == 1 == len(b.targets):
                return ast.Assign(targets=a.targets, value=ast.IfExp(
                    test=n.test, body=a.value, orelse=b.value))
        return n


def condexpr(tree):
    return Condexpr().visit(tree)


class Enumerate(ast.NodeTransformer):
    def visit_For(self, n):
        self.generic_visit(n)
        i = Fresh.name("i")
        n.target = ast.Tuple(elts=[name(i, ast.Store()), n.target],
                             ctx=ast.Store())
        n.iter = ast.Call(func=name("enumerate"), args=[n.iter], keywords=[])
        return n


def enum(tree):
    return Enumerate().visit(tree)


def outline(tree):
    """every plain method does its work in a private helper"""
    for c in [n for n in ast.walk(tree) if isinstance(n, ast.ClassDef)]:
        new = []
        count = {}
        for f in c.body:
            if isinstance(f, ast.FunctionDef):
                count[f.name] = count.get(f.name, 0) + 1
        for f in c.body:
            ok = isinstance(f, ast.FunctionDef) and not f.decorator_list \
                and not f.name.startswith("__") and count[f.name] == 1 \
                and not any(isinstance(n, (ast.Yield, ast.YieldFrom))
                            or isinstance(n, ast.Name) and n.id in (
                                "super", "__class__")
                            for n in ast.walk(f)) and f.args.args \
                and f.args.args[0].arg == "self"
            if not ok:
                new.append(f)
                continue
            h = copy.deepcopy(f)
            h.name = "_%s_impl" % f.name
            a = f.args
            call = ast.Call(
                func=ast.Attribute(value=name("self"), attr=h.name,
                                   ctx=ast.Load()),
                args=[name(x.arg) for x in a.posonlyargs + a.args][1:] + (
                    [ast.Starred(value=name(a.vararg.arg), ctx=ast.Load())]
                    if a.vararg else []),
                keywords=[ast.keyword(arg=x.arg, value=name(x.arg))
                          for x in a.kwonlyargs] + (
                    [ast.keyword(arg=None, value=name(a.kwarg.arg))]
                    if a.kwarg else []))
            doc = f.body[:1] if isinstance(f.body[0], ast.Expr) and \
                isinstance(f.body[0].value, ast.Constant) else []
            f.body = doc + [ast.Return(value=call)]
            new += [f, h]
        c.body = new
    return tree


def outfun(tree):
    """every module level function does its work in a private helper"""
    new = []
    for f in tree.body:
        if isinstance(f, ast.FunctionDef) and not any(
                isinstance(n, (ast.Yield, ast.YieldFrom))
                for n in ast.walk(f)):
            h = copy.deepcopy(f)
            h.name = "_%s_impl" % f.name
            h.decorator_list = []
            a = f.args
            call = ast.Call(
                func=name(h.name),
                args=[name(x.arg) for x in a.posonlyargs + a.args],
                keywords=[ast.keyword(arg=x.arg, value=name(x.arg))
                          for x in a.kwonlyargs])
            if a.vararg or a.kwarg:
                new.append(f)
                continue
            f.body = [ast.Return(value=call)]
            new += [h, f]
        else:
            new.append(f)
    tree.body = new
    return tree


class Noop(ast.NodeTransformer):
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        out = []
        for i, s in enumerate(n.body):
            if i and not isinstance(s, (ast.Nonlocal, ast.Global)):
                out.append(assign("_unused", ast.Constant(i)))
            out.append(s)
        n.body = out
        return n


def noop(tree):
    return Noop().visit(tree)


class Annot(ast.NodeTransformer):
    """annotated assignments to plain ones, annotations dropped"""
    def visit_AnnAssign(self, n):
        if n.value is None:
            return ast.Pass()
        return ast.Assign(targets=[n.target], value=n.value)

    def visit_ClassDef(self, n):
        deco = any("dataclass" in ast.dump(d) for d in n.decorator_list)
        return n if deco else self.generic_visit(n)

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        n.returns = None
        for a in ast.walk(n.args):
            if isinstance(a, ast.arg):
                a.annotation = None
        return n


def annot(tree):
    return Annot().visit(tree)


class Compare(ast.NodeTransformer):
    def visit_Compare(self, n):
        self.generic_visit(n)
        inv = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE,
               ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
        if len(n.ops) == 1 and type(n.ops[0]) in inv:
            return ast.Compare(left=n.comparators[0],
                               ops=[inv[type(n.ops[0])]()],
                               comparators=[n.left])
        return n


def compare(tree):
    """a < b -> b > a"""
    return Compare().visit(tree)


class Method(ast.NodeTransformer):
    """tensor methods to functions"""
    NAMES = {"mean", "sum", "squeeze", "unsqueeze", "flatten", "abs", "pow"}

    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        if isinstance(f, ast.Attribute) and f.attr in self.NAMES - {
                "flatten", "mean", "sum"} and not isinstance(
                f.value, ast.Name) or isinstance(f, ast.Attribute) \
                and f.attr in ("squeeze", "unsqueeze", "pow") and isinstance(
                    f.value, ast.Name) and f.value.id not in (
                        "pt", "np", "torch", "self"):
            return ast.Call(func=ast.Attribute(
                value=name("pt"), attr=f.attr, ctx=ast.Load()),
                args=[f.value] + n.args, keywords=n.keywords)
        return n


def method(tree):
    if "import torch as pt" not in ast.unparse(tree) or "numpy" in \
            ast.unparse(tree):
        return tree
    return Method().visit(tree)


class Branch(ast.NodeTransformer):
    """conditions are computed beforehand"""
    def visit_If(self, n):
        self.generic_visit(n)
        return n

    def block(self, body):
        out = []
        for s in body:
            self.go(s)
            if isinstance(s, ast.If) and not isinstance(s.test, ast.Name):
                t = Fresh.name("cond")
                out.append(assign(t, s.test))
                s.test = name(t)
            out.append(s)
        return out

    def go(self, n):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                setattr(n, f, self.block(b) if not isinstance(
                    n, (ast.Module, ast.ClassDef)) else [
                        self.go(s) or s for s in b])
        for h in getattr(n, "handlers", []):
            self.go(h)


def branch(tree):
    Branch().go(tree)
    return tree


class Self(ast.NodeTransformer):
    """self.x read into a local first when never assigned in the method"""
    def visit_FunctionDef(self, n):
        if not n.args.args or n.args.args[0].arg != "self" or \
                n.decorator_list or nested(n) or any(
                    isinstance(x, (ast.Yield, ast.Delete))
                    for x in ast.walk(n)):
            return n
        stored = {x.attr for x in ast.walk(n) if isinstance(
            x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del))}
        calls = any(isinstance(x, ast.Call) and "self" in ast.dump(x.func)
                    for x in ast.walk(n))
        if calls:
            return n
        used = []
        doc = n.body[:1] if isinstance(n.body[0], ast.Expr) and isinstance(
            n.body[0].value, ast.Constant) else []
        body = n.body[len(doc):]
        if not body or not isinstance(body[0], (ast.Return, ast.Assign)):
            return n
        first = body[0]
        for x in ast.walk(first):
            if isinstance(x, ast.Attribute) and isinstance(
                    x.value, ast.Name) and x.value.id == "self" \
                    and isinstance(x.ctx, ast.Load) \
                    and x.attr not in stored and x.attr not in used:
                used.append(x.attr)
        if any(isinstance(x, (ast.IfExp, ast.BoolOp, ast.Lambda))
               for x in ast.walk(first)):
            return n

        class R(ast.NodeTransformer):
            def visit_Attribute(s, x):
                s.generic_visit(x)
                if isinstance(x.value, ast.Name) and x.value.id == "self" \
                        and x.attr in used and isinstance(x.ctx, ast.Load):
                    return name("_loc_" + x.attr)
                return x
        n.body = doc + [assign("_loc_" + u, ast.Attribute(
            value=name("self"), attr=u, ctx=ast.Load())) for u in used] + [
                R().visit(first)] + body[1:]
        return n


def selfs(tree):
    return Self().visit(tree)


class Aug(ast.NodeTransformer):
    """tuple assignment split"""
    def visit_Assign(self, s):
        if len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) \
                and isinstance(s.value, ast.Call) and not any(isinstance(
                    x, ast.Starred) for x in s.targets[0].elts):
            t = Fresh.name("pair")
            return [assign(t, ast.Call(func=name("tuple"), args=[s.value],
                                       keywords=[]))] + [
                ast.Assign(targets=[x], value=ast.Subscript(
                    value=name(t), slice=ast.Constant(i), ctx=ast.Load()))
                for i, x in enumerate(s.targets[0].elts)]
        return s


def pairs(tree):
    return Aug().visit(tree)


class Assert(ast.NodeTransformer):
    def visit_Assert(self, s):
        return ast.If(test=ast.UnaryOp(op=ast.Not(), operand=s.test), body=[
            ast.Raise(exc=ast.Call(func=name("AssertionError"), args=[
                s.msg] if s.msg else [], keywords=[]), cause=None)],
            orelse=[])


def asserts(tree):
    return Assert().visit(tree)


class Comp(ast.NodeTransformer):
    """x = [.. for ..] -> loop"""
    def visit_Assign(self, s):
        v = s.value
        if isinstance(v, ast.ListComp) and len(v.generators) == 1 and len(
                s.targets) == 1 and isinstance(s.targets[0], ast.Name):
            g = v.generators[0]
            t = Fresh.name("acc")
            b = [ast.Expr(value=ast.Call(func=ast.Attribute(
                value=name(t), attr="append", ctx=ast.Load()),
                args=[v.elt], keywords=[]))]
            for c in reversed(g.ifs):
                b = [ast.If(test=c, body=b, orelse=[])]
            return [assign(t, ast.List(elts=[], ctx=ast.Load())),
                    ast.For(target=g.target, iter=g.iter, body=b, orelse=[]),
                    ast.Assign(targets=s.targets, value=name(t))]
        return s


def comps(tree):
    return Comp().visit(tree)


def tryfin(tree):
    """method bodies in try/finally"""
    for fn in list(functions(tree)):
        if any("overload" in ast.dump(d) for d in fn.decorator_list):
            continue
        doc = fn.body[:1] if isinstance(fn.body[0], ast.Expr) and isinstance(
            fn.body[0].value, ast.Constant) else []
        rest = fn.body[len(doc):]
        if rest and not any(isinstance(x, (ast.Nonlocal, ast.Global))
                            for x in ast.walk(fn)):
            fn.body = doc + [ast.Try(body=rest, handlers=[], orelse=[],
                                     finalbody=[ast.Pass()])]
    return tree


class Kwargs(ast.NodeTransformer):
    """keyword arguments gathered in a dictionary"""
    def visit_Call(self, n):
        self.generic_visit(n)
        ks = [k for k in n.keywords if k.arg]
        if len(ks) >= 2 and len(ks) == len(n.keywords):
            n.keywords = [ast.keyword(arg=None, value=ast.Dict(
                keys=[ast.Constant(k.arg) for k in ks],
                values=[k.value for k in ks]))]
        return n

    def visit_ClassDef(self, n):
        n.body = [self.visit(x) for x in n.body]
        return n


def kwargs(tree):
    return Kwargs().visit(tree)


class Iso(ast.NodeTransformer):
    """while loops instead of for over range"""
    def visit_For(self, n):
        self.generic_visit(n)
        if n.orelse or any(isinstance(x, ast.Continue)
                           for x in ast.walk(n)):
            return n
        if isinstance(n.iter, ast.Call) and isinstance(
                n.iter.func, ast.Name) and n.iter.func.id == "range" \
                and len(n.iter.args) == 1 and isinstance(
                    n.target, ast.Name):
            i, e = Fresh.name("k"), Fresh.name("end")
            return [assign(i, ast.Constant(0)), assign(e, n.iter.args[0]),
                    ast.While(test=ast.Compare(
                        left=name(i), ops=[ast.Lt()],
                        comparators=[name(e)]),
                        body=[ast.Assign(targets=[n.target],
                                         value=name(i)),
                              ast.AugAssign(target=name(i, ast.Store()),
                                            op=ast.Add(),
                                            value=ast.Constant(1))]
                        + n.body, orelse=[])]
        return n


def whiles(tree):
    return Iso().visit(tree)


def modname(tree):
    """import torch as pt -> import torch"""
    s = ast.unparse(tree)
    if "import torch as pt" not in s or "import torch\n" in s:
        return tree

    class R(ast.NodeTransformer):
        def visit_Name(self, n):
            if n.id == "pt":
                n.id = "torch"
            if n.id == "np":
                n.id = "numpy"
            return n

        def visit_Import(self, n):
            for a in n.names:
                if (a.name, a.asname) in (("torch", "pt"), ("numpy", "np")):
                    a.asname = None
            return n
    return R().visit(tree)


class Lam(ast.NodeTransformer):
    """lambdas to nested functions"""
    def block(self, body):
        out = []
        for s in body:
            pre = []

            class L(ast.NodeTransformer):
                def visit_Lambda(me, n):
                    t = Fresh.name("fn")
                    pre.append(ast.FunctionDef(
                        name=t, args=n.args, body=[ast.Return(value=n.body)],
                        decorator_list=[], type_params=[]))
                    return name(t)

                def visit_ListComp(me, n):
                    return n
                visit_GeneratorExp = visit_DictComp = visit_ListComp
            if isinstance(s, (ast.Assign, ast.Return, ast.Expr)):
                s = L().visit(s)
            else:
                self.go(s)
            out += pre + [s]
        return out

    def go(self, n):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                if isinstance(n, (ast.Module, ast.ClassDef)):
                    for x in b:
                        self.go(x)
                else:
                    setattr(n, f, self.block(b))


def lambdas(tree):
    Lam().go(tree)
    return tree


class Get(ast.NodeTransformer):
    def visit_Attribute(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) \
                and n.value.id == "self" and not n.attr.startswith("__"):
            return ast.Call(func=name("getattr"), args=[
                n.value, ast.Constant(n.attr)], keywords=[])
        return n


def getattrs(tree):
    return Get().visit(tree)


class Demorgan(ast.NodeTransformer):
    def visit_If(self, n):
        self.generic_visit(n)
        n.test = self.neg(n.test)
        return n

    def neg(self, t):
        if isinstance(t, ast.BoolOp):
            return ast.UnaryOp(op=ast.Not(), operand=ast.BoolOp(
                op=ast.Or() if isinstance(t.op, ast.And) else ast.And(),
                values=[ast.UnaryOp(op=ast.Not(), operand=v)
                        for v in t.values]))
        if isinstance(t, ast.Compare) and len(t.ops) == 1:
            inv = {ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn,
                   ast.NotIn: ast.In, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq}
            o = inv.get(type(t.ops[0]))
            if o:
                return ast.UnaryOp(op=ast.Not(), operand=ast.Compare(
                    left=t.left, ops=[o()], comparators=t.comparators))
        return t


def demorgan(tree):
    return Demorgan().visit(tree)


class Super(ast.NodeTransformer):
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == "super" \
                and len(n.args) == 2 and isinstance(n.args[1], ast.Name) \
                and n.args[1].id in ("self", "cls"):
            n.args = []
        return n


def supers(tree):
    return Super().visit(tree)


def baseclass(tree):
    """class X(Y): ... -> class _XBase(Y): ...; class X(_XBase): ctor only"""
    tree = Super().visit(tree)
    new = []
    for c in tree.body:
        if isinstance(c, ast.ClassDef) and not c.decorator_list and not any(
                isinstance(n, ast.Name) and n.id == c.name
                for n in ast.walk(c)):
            keep = [f for f in c.body if isinstance(f, ast.FunctionDef)
                    and f.name == "__init__" or isinstance(f, ast.Assign)]
            if any(isinstance(f, ast.FunctionDef) for f in keep):
                doc = []
                b = copy.deepcopy(c)
                b.name = "_%sBase" % c.name
                b.body = [f for f in b.body if not (isinstance(
                    f, ast.FunctionDef) and f.name == "__init__")] or [
                        ast.Pass()]
                c.bases = [name(b.name)]
                c.keywords = []
                c.body = doc + keep
                new.append(b)
        new.append(c)
    tree.body = new
    return tree


class Over(ast.NodeTransformer):
    def visit_FunctionDef(self, n):
        if any(isinstance(d, ast.Name) and d.id == "overload"
               for d in n.decorator_list):
            return None
        return self.generic_visit(n)


def overloads(tree):
    return Over().visit(tree)


class Dels(ast.NodeTransformer):
    def visit_Delete(self, n):
        if all(isinstance(t, ast.Name) for t in n.targets):
            return ast.Pass()
        return n


def dels(tree):
    return Dels().visit(tree)


def imports(tree):
    """from skwdro.a import b -> import skwdro.a as m; b = m.b"""
    new = []
    for s in tree.body:
        if isinstance(s, ast.ImportFrom) and s.level == 0 and s.module \
                and s.module.startswith("skwdro.") and all(
                    a.name != "*" for a in s.names):
            t = Fresh.name("mod")
            new.append(ast.Import(names=[ast.alias(name=s.module,
                                                   asname=t)]))
            for a in s.names:
                new.append(ast.Assign(
                    targets=[name(a.asname or a.name, ast.Store())],
                    value=ast.Attribute(value=name(t), attr=a.name,
                                        ctx=ast.Load())))
        else:
            new.append(s)
    tree.body = new
    return tree


def consts(tree):
    """numbers of function bodies to module constants"""
    seen = {}

    class C(ast.NodeTransformer):
        def visit_Constant(me, n):
            if isinstance(n.value, float):
                k = seen.setdefault(n.value, "_CONST_%d" % len(seen))
                return name(k)
            return n

        def visit_JoinedStr(me, n):
            return n
    for fn in functions(tree):
        fn.body = [C().visit(x) for x in fn.body]
    i = 0
    while i < len(tree.body) and (isinstance(
            tree.body[i], (ast.Import, ast.ImportFrom)) or isinstance(
                tree.body[i], ast.Expr)):
        i += 1
    tree.body[i:i] = [assign(v, ast.Constant(k)) for k, v in seen.items()]
    return tree


class Single(ast.NodeTransformer):
    """one return statement at the end"""
    def visit_FunctionDef(self, n):
        if any(isinstance(x, (ast.FunctionDef, ast.Lambda))
               for b in n.body for x in ast.walk(b)):
            return n
        last = n.body[-1]
        if not isinstance(last, ast.If):
            return n
        inner = sum(isinstance(x, ast.Return) for b in n.body[:-1]
                    for x in ast.walk(b))
        t = "_result"
        if inner or not self.full(last):
            return n
        self.conv(last, t)
        n.body = n.body + [ast.Return(value=name(t))]
        return n

    def full(self, s):
        def ok(b):
            if not b:
                return False
            rets = sum(isinstance(x, ast.Return) for y in b[:-1]
                       for x in ast.walk(y))
            e = b[-1]
            return not rets and (isinstance(e, ast.Return) and e.value
                                 is not None or isinstance(e, ast.Raise)
                                 or isinstance(e, ast.If) and self.full(e))
        return ok(s.body) and ok(s.orelse)

    def conv(self, s, t):
        for b in (s.body, s.orelse):
            if isinstance(b[-1], ast.Return):
                b[-1] = assign(t, b[-1].value)
            elif isinstance(b[-1], ast.If):
                self.conv(b[-1], t)


def singleexit(tree):
    return Single().visit(tree)


class Chain(ast.NodeTransformer):
    """a.b().c() -> t = a.b(); t.c()"""
    def lift(self, e):
        pre = []
        while True:
            if isinstance(e, ast.Call) and isinstance(
                    e.func, ast.Attribute) and isinstance(
                        e.func.value, ast.Call) and not (isinstance(
                            e.func.value.func, ast.Name)
                            and e.func.value.func.id == "super"):
                t = Fresh.name("step")
                v = e.func.value
                e.func.value = name(t)
                pre.insert(0, assign(t, v))
                e = v
                continue
            return pre

    def visit_Assign(self, s):
        return self.lift(s.value) + [s]

    visit_Return = visit_Expr = visit_Assign

    def visit_ClassDef(self, n):
        n.body = [self.visit(x) if isinstance(x, (
            ast.FunctionDef, ast.ClassDef)) else x for x in n.body]
        return n

    visit_Module = visit_ClassDef


def chain(tree):
    return Chain().visit(tree)


class Split(ast.NodeTransformer):
    def lift(self, e):
        pre = []
        if isinstance(e, ast.BinOp):
            for f in ("left", "right"):
                x = getattr(e, f)
                if not isinstance(x, (ast.Name, ast.Constant)):
                    if isinstance(x, ast.BinOp):
                        pre += self.lift(x)
                    t = Fresh.name("part")
                    pre.append(assign(t, x))
                    setattr(e, f, name(t))
        return pre

    def visit_Assign(self, s):
        return (self.lift(s.value) if s.value is not None else []) + [s]

    visit_Return = visit_Assign

    def visit_ClassDef(self, n):
        n.body = [self.visit(x) if isinstance(x, (
            ast.FunctionDef, ast.ClassDef)) else x for x in n.body]
        return n

    visit_Module = visit_ClassDef


def split(tree):
    return Split().visit(tree)


class Mult(ast.NodeTransformer):
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mult):
            n.left, n.right = n.right, n.left
        elif isinstance(n.op, ast.Sub):
            return ast.BinOp(left=n.left, op=ast.Add(), right=ast.UnaryOp(
                op=ast.USub(), operand=n.right))
        return n


def mult(tree):
    """a * b -> b * a, a - b -> a + (-b)"""
    return Mult().visit(tree)


class Default(ast.NodeTransformer):
    """x = a if c else b  ->  x = b; if c: x = a"""
    def visit_Assign(self, s):
        if isinstance(s.value, ast.IfExp) and isinstance(
                s.targets[0], ast.Name) and isinstance(
                    s.value.orelse, (ast.Constant, ast.Name)) \
                and s.targets[0].id not in {
                    x.id for x in ast.walk(s.value)
                    if isinstance(x, ast.Name)}:
            v = s.value
            return [ast.Assign(targets=copy.deepcopy(s.targets),
                               value=v.orelse),
                    ast.If(test=v.test, body=[ast.Assign(
                        targets=s.targets, value=v.body)], orelse=[])]
        return s

    def visit_Return(self, s):
        if isinstance(s.value, ast.IfExp):
            t = Fresh.name("res")
            v = s.value
            return [ast.If(test=v.test, body=[assign(t, v.body)],
                           orelse=[assign(t, v.orelse)]),
                    ast.Return(value=name(t))]
        return s


def default(tree):
    return Default().visit(tree)


SIGS = {}


def signatures(root):
    for d, _, fs in os.walk(root):
        for x in fs:
            if x.endswith(".py") and "test" not in x:
                for n in ast.walk(ast.parse(open(os.path.join(d, x)).read())):
                    if isinstance(n, ast.FunctionDef):
                        a = n.args
                        sig = None if a.vararg or a.posonlyargs else tuple(
                            y.arg for y in a.args)
                        SIGS.setdefault(n.name, set()).add(sig)
                    if isinstance(n, ast.Lambda):
                        pass


class Keys(ast.NodeTransformer):
    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        nm = f.id if isinstance(f, ast.Name) else f.attr if isinstance(
            f, ast.Attribute) and isinstance(f.value, ast.Name) \
            and f.value.id in ("self", "loss") else None
        s = SIGS.get(nm)
        if nm == "transform" or s is None or len(s) != 1 or None in s or any(
                isinstance(a, ast.Starred) for a in n.args):
            return n
        ps = list(next(iter(s)))
        if ps[:1] in (["self"], ["cls"]):
            if isinstance(f, ast.Name):
                return n
            ps = ps[1:]
        elif isinstance(f, ast.Attribute):
            return n
        if len(n.args) > len(ps):
            return n
        n.keywords = [ast.keyword(arg=p, value=a)
                      for p, a in zip(ps, n.args)] + n.keywords
        n.args = []
        return n


def keywords(tree):
    """positional arguments of the package's functions to keywords"""
    return Keys().visit(tree)


ALL = [plain, nodoc, rename, swap, returns, flatten, nest, args, ternary,
       condexpr, enum, outline, outfun, noop, annot, compare, method, branch,
       selfs, pairs, asserts, comps, tryfin, kwargs, whiles, modname,
       lambdas, getattrs, demorgan, supers, baseclass, overloads, dels,
       imports, consts, singleexit, chain, split, mult, default, keywords]


def main():
    src, dst, what = sys.argv[1:4]
    f = {g.__name__: g for g in ALL}[what]
    shutil.copytree(os.path.join(src, "skwdro"), os.path.join(dst, "skwdro"))
    signatures(os.path.join(src, "skwdro"))
    n = 0
    for d, _, fs in os.walk(os.path.join(dst, "skwdro")):
        for x in fs:
            if x.endswith(".py") and "test" not in x:
                p = os.path.join(d, x)
                s = open(p).read()
                t = ast.parse(s)
                u = ast.unparse(t)
                r = ast.unparse(ast.fix_missing_locations(f(t)))
                compile(r, p, "exec")
                n += r != u
                open(p, "w").write(r + "\n")
    print("%s: %d files changed" % (what, n))


if __name__ == "__main__":
    main()
