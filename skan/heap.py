"""Abstract machine state: heap objects, contents of mutated storage, and the
branch conditions under which the state is reached."""
from .values import V, Ref, Ite, Tup, UNDEF, App, Const


class Obj:
    __slots__ = ("kind", "cls", "f", "own", "site", "shared")

    def __init__(self, kind, cls, f, own, site=None, shared=False):
        self.kind, self.cls, self.f, self.own = kind, cls, f, own
        self.site, self.shared = site, shared

    def clone(self, own):
        return Obj(self.kind, self.cls, dict(self.f), own, self.site,
                   self.shared)


class State:
    __slots__ = ("heap", "pc", "content", "tok")

    def __init__(self):
        self.heap, self.pc, self.content = {}, (), {}
        self.tok = object()

    def copy(self):
        s = State()
        s.heap = dict(self.heap)
        s.pc = self.pc
        s.content = dict(self.content)
        # both sides must now copy on write
        self.tok = object()
        return s

    def fork(self, cond, pol):
        s = self.copy()
        s.pc = self.pc + ((cond, pol),)
        return s

    def get(self, oid):
        return self.heap[oid]

    def mut(self, oid):
        o = self.heap[oid]
        if o.own is not self.tok:
            o = o.clone(self.tok)
            self.heap[oid] = o
        return o


def ite(c, a, b):
    """Gated value with structural pushing into equal-shaped tuples."""
    if a is b:
        return a
    if a is UNDEF:
        return b
    if b is UNDEF:
        return a
    if isinstance(c, Const):
        return a if c.v else b
    if isinstance(c, App) and c.op == "not":
        return ite(c.args[0], b, a)
    if isinstance(a, Tup) and isinstance(b, Tup) \
            and len(a.items) == len(b.items):
        return Tup(ite(c, x, y) for x, y in zip(a.items, b.items))
    # collapse repeated tests of the same condition
    if isinstance(a, Ite) and a.c is c:
        a = a.a
    if isinstance(b, Ite) and b.c is c:
        b = b.b
    return Ite(c, a, b)


def merge2(c, s1, s2, pc):
    out = State()
    out.pc = pc
    for oid, o1 in s1.heap.items():
        o2 = s2.heap.get(oid)
        if o2 is None or o1 is o2:
            out.heap[oid] = o1
            continue
        if o1.f == o2.f:
            out.heap[oid] = o1
            continue
        f = {}
        for k in list(o1.f) + [k for k in o2.f if k not in o1.f]:
            f[k] = ite(c, o1.f.get(k, UNDEF), o2.f.get(k, UNDEF))
            if k not in o1.f or k not in o2.f:
                # conditionally defined: keep the gate visible
                if o1.kind in ("inst", "ext", "class"):
                    f[k] = Ite(c, o1.f.get(k, UNDEF), o2.f.get(k, UNDEF))
        out.heap[oid] = Obj(o1.kind, o1.cls, f, out.tok, o1.site, o1.shared)
    for oid, o2 in s2.heap.items():
        if oid not in out.heap:
            out.heap[oid] = o2
    for k in set(s1.content) | set(s2.content):
        a = s1.content.get(k, UNDEF)
        b = s2.content.get(k, UNDEF)
        if a is b:
            out.content[k] = a
        else:
            out.content[k] = Ite(c, a, b)  # UNDEF = untouched
    return out


_UNK = [0]


def merge(states):
    """Join of states whose conditions form a decision tree."""
    if len(states) == 1:
        return states[0]
    n = 0
    pcs = [s.pc for s in states]
    while all(len(p) > n for p in pcs) and all(
            p[n] == pcs[0][n] for p in pcs):
        n += 1
    pre = pcs[0][:n]
    if all(len(p) > n for p in pcs):
        c = pcs[0][n][0]
        if all(p[n][0] is c for p in pcs):
            t = [s for s in states if s.pc[n][1]]
            f = [s for s in states if not s.pc[n][1]]
            return merge2(c, merge(t), merge(f), pre)
    # no common discriminating test: fold with an unknown gate
    acc = states[0]
    for s in states[1:]:
        _UNK[0] += 1
        acc = merge2(App("unknown_gate", (Const(_UNK[0]),)), acc, s, pre)
    return acc
