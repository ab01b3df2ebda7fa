"""Convex programs built through cvxpy, in a canonical form: loops over
samples are read as families of constraints, epigraph variables are replaced
by the bounds that define them, and what remains is compared term by term
with the documented program."""
from fractions import Fraction

from skan.norm import Poly
from .common import *


def leaves(v):
    if isinstance(v, Ite):
        return leaves(v.a) + leaves(v.b)
    return [v]


class Unreadable(Undecided):
    pass


class Program:
    def __init__(self, S, N, ev):
        self.S, self.N, self.ev = S, N, ev
        o = S.strip(ev.d["obj"])
        if not isinstance(o, App) or o.op not in ("minimize", "maximize"):
            raise Unreadable("objective %s" % show(o, 4))
        P = N.of(o.args[0])
        self.obj = P if o.op == "minimize" else -P
        self.le, self.eq = [], []
        for c in ev.d["cons"]:
            self.read(c, [])
        for r in {x for t in (o,) + tuple(ev.d["cons"]) for x in walk(t)
                  if isinstance(x, Ref)}:
            ob = S.st.heap.get(r.oid)
            if ob is not None and ob.kind == "ext" and \
                    ob.cls.name == "cvxpy.Variable" and \
                    ob.f.get("%nonneg") is TRUE and "%loop" not in ob.f:
                self.le.append(-N.of(r))

    # ------------------------------------------------------------ reading
    def read(self, c, loops):
        S, N = self.S, self.N
        c = S.strip(c)
        if isinstance(c, App) and c.op == "each":
            return self.read(c.args[1], loops + [c.args[0]])
        if isinstance(c, Ref) and S.known_items(c) is not None:
            for x in S.known_items(c):
                self.read(x, loops)
            return
        if isinstance(c, Ite):
            return self.read(c.a if N.truth(c.c) else c.b, loops)
        if c is TRUE or c is NONE:
            return
        if not isinstance(c, App) or c.op not in ("le", "lt", "eq"):
            raise Unreadable("constraint %s" % show(c, 4))
        P = N.of(c.args[0]) - N.of(c.args[1])
        for src in reversed(loops):
            P = self.family(P, src)
        (self.eq if c.op == "eq" else self.le).append(P)

    def family(self, P, src):
        """expression indexed by the iterations of a loop, as a family"""
        N, S = self.N, self.S
        s = S.strip(src)
        while isinstance(s, App) and s.op in ("enumerate", "tqdm", "list"):
            s = S.strip(s.args[0])
        if not isinstance(s, App) and not S.shape(s):
            raise Unreadable("loop over %s" % show(s, 4))
        rows = []
        if isinstance(s, App) and s.op == "range":
            if s.args[0] is not Const(0) or s.args[2] is not Const(1):
                raise Unreadable("loop over %s" % show(s, 4))
            n = s.args[1]
            counts = [s]
        else:
            rows = list(s.args) if s.op == "zipsrc" else [s]
            counts = [r for r in rows if isinstance(r, App)
                      and r.op == "range"]
            rows = [r for r in rows if r not in counts]
            sh = S.shape(rows[0]) if rows else None
            if not sh:
                raise Unreadable("loop over %s" % show(s, 4))
            n = sh[0]
            counts.append(App("range", (Const(0), App("len", (s,)),
                                        Const(1))))
        idx, whole = [], {}
        for i, (k, *_) in enumerate(list(N.atoms)):
            if k[0] == "fn" and k[1] == "elem":
                if any(k[2][0] == N.kkey(c) for c in counts):
                    idx.append(i)
                for r in rows:
                    if k[2][0] == N.kkey(r):
                        whole[i] = N.of(r)
        if len(idx) > 1:
            raise Unreadable("several indices")
        if not idx and not whole:
            return P
        idx = idx or [-1]
        el = self.one(idx[0])
        size = N.of(n)

        def f(i):
            key, axes, nn, un = N.atoms[i]
            if i in whole:
                return whole[i]
            if key[0] == "at":
                hit = [(a, q) for a, q in key[2] if q[0] == "at" and
                       idx[0] in self.inside_key(q)]
                if len(hit) == 1 and idx[0] not in self.inside(
                        self.one(key[1])):
                    a, q = hit[0]
                    off = N.unkey(q[1][1]) - el
                    if idx[0] not in self.inside(off):
                        rest = key[2] - {hit[0]}
                        if a is n and N.is_zero(off):
                            return self.at(key[1], rest, nn, un)
                        sl = (a, ("slice", ("p", off.key()) if off.const()
                                  is None else ("c", off.key()),
                                  ("p", (off + size).key()),
                                  N.kkey(NONE)))
                        return N.atom(
                            ("at", key[1], rest | {sl}),
                            (N.atoms[key[1]][1] - {x for x, _ in rest}
                             - {a}) | {n}, nn, un)
            if ({idx[0]} | set(whole)) & self.inside(self.one(i)):
                if i == idx[0]:
                    return N.atom(("index", i), frozenset([n]))
                return N.atom(("each", key), axes | {n}, nn, un)
            return self.one(i)
        return self.subst(P, f)

    def at(self, base, sub, nn, un):
        N = self.N
        if not sub:
            return self.one(base)
        return N.atom(("at", base, sub), N.atoms[base][1] - {
            a for a, _ in sub}, nn, un)

    def one(self, i):
        return Poly(self.N, {((i, Fraction(1)),): Fraction(1)})

    # ----------------------------------------------------------- traversal
    def inside(self, P):
        """atoms an expression is built from"""
        return self.inside_key(P.key())

    def inside_key(self, k):
        out, todo, seen = set(), [k], set()
        while todo:
            x = todo.pop()
            if isinstance(x, (tuple, frozenset)):
                if isinstance(x, tuple) and len(x) == 2 and isinstance(
                        x[0], int) and isinstance(x[1], Fraction):
                    if x[0] not in out:
                        out.add(x[0])
                        key = self.N.atoms[x[0]][0]
                        if key[0] in ("at", "cvxval"):
                            todo.append((key[1], Fraction(1)))
                        todo.append(key)
                    continue
                todo.extend(x)
        return out

    def subst(self, P, f):
        """rebuild an expression with its innermost atoms replaced"""
        N = self.N
        out = N.zero()
        for m, c in P.t.items():
            t = N.num(c)
            for i, e in m:
                t = t * N.power(self.rebuild(i, f), e)
            out = out + t
        return out

    def rebuild(self, i, f):
        N = self.N
        k, axes, nn, un = N.atoms[i]
        r = lambda x: self.subst(N.unkey(x), f)
        if k[0] == "sum":
            return N.sum(self.subst(Poly(N, {k[2]: Fraction(1)}), f), k[1])
        if k[0] in ("exp", "log", "abs"):
            return getattr(N, k[0])(r(k[1]))
        if k[0] == "poly":
            return r(k[1])
        if k[0] == "max":
            return N.maxof([r(x) for x in k[1]])
        if k[0] == "rmax":
            return N.rmax(r(k[2]), k[1])
        return f(i)

    # ------------------------------------------------------- elimination
    def is_var(self, i):
        k = self.N.atoms[i][0]
        if k[0] in ("at", "each"):
            return k[0] == "at" and self.is_var(k[1])
        if k[0] == "leaf" and isinstance(k[1], Ref):
            o = self.S.st.heap.get(k[1].oid)
            return o is not None and o.kind == "ext" and \
                o.cls.name == "cvxpy.Variable"
        return False

    def fix_zeros(self, keep=()):
        """variables forced to be zero"""
        for P in list(self.eq):
            s = self.N.single(P)
            if s and s[2] == 1 and self.is_var(s[1]):
                z = s[1]
                self.eq.remove(P)
                g = lambda i: self.N.zero() if i == z else self.one(i)
                self.obj = self.subst(self.obj, g)
                self.le = [self.subst(Q, g) for Q in self.le]
                self.eq = [self.subst(Q, g) for Q in self.eq]
                yield self.one(z)

    def positive(self, m, c, but):
        """sign of a coefficient: 1, -1 or None"""
        ok = all(self.N.nonneg_atom(i) for i, e in m if i != but)
        return (1 if c > 0 else -1) if ok else None

    def eliminate(self, keep):
        """replace the epigraph variables by their bounds"""
        N = self.N
        for _ in range(20):
            done = False
            for m, c in list(self.obj.t.items()):
                for i, e in m:
                    k = N.atoms[i][0]
                    A = frozenset()
                    v = i
                    if k[0] == "sum" and len(k[2]) == 1 and \
                            k[2][0][1] == 1:
                        A, v = k[1], k[2][0][0]
                    if e == 1 and self.is_var(v) and v not in keep and \
                            self.bound(m, c, i, v, A):
                        done = True
                        break
                if done:
                    break
            if not done:
                return

    def bound(self, m, c, i, v, A):
        N = self.N
        sg = self.positive(m, c, i)
        if sg is None:
            return False
        rest = Poly(N, {k: x for k, x in self.obj.t.items() if k != m})
        if v in self.inside(rest):
            return False
        fs, others = [], []
        for P in self.le:
            if v not in self.inside(P):
                others.append(P)
                continue
            a = P.t.get(((v, Fraction(1)),))
            if a is None or a * sg >= 0:
                return False
            f = Poly(N, {k: x for k, x in P.t.items()
                         if k != ((v, Fraction(1)),)})
            if v in self.inside(f):
                return False
            fs.append(f * N.num(-1 / a))
        if not fs or any(v in self.inside(P) for P in self.eq):
            return False
        s = N.maxof(fs) if sg > 0 else N.minof(fs)
        t = N.sum(s, A) if A else s
        self.obj = rest + Poly(N, {tuple(x for x in m if x[0] != i): c}) * t
        self.le = others
        return True

    def drop_idle(self):
        """sign constraints of variables used nowhere else"""
        out = []
        for j, P in enumerate(self.le):
            s = self.N.single(P)
            if s and s[2] == 1:
                near = [Q for q, Q in enumerate(self.le) if q != j]
                if not any(s[1] in self.inside(Q)
                           for Q in near + self.eq + [self.obj]):
                    continue
            out.append(P)
        self.le = out

    def unval(self, P):
        """expression whose optimal value is P"""
        N = self.N

        def f(i):
            k = N.atoms[i][0]
            return self.one(k[1]) if k[0] == "cvxval" else self.one(i)
        return self.subst(P, f)


def scaled(N, P):
    return N.scale(P).key() if P.t else P.key()


def match(N, pr, obj, le, eq=(), optional=()):
    """None when the program is the documented one, else a description"""
    unread = any(N.unk(P) for P in [pr.obj] + pr.le + pr.eq)

    def bad(text):
        if unread:
            raise Unreadable(text)
        return text
    if not N.equal(pr.obj, obj):
        from skan.norm import differ
        return bad("objective: got %s, expected %s" % differ(
            N.show(pr.obj), N.show(obj), 350))
    have = {scaled(N, P): P for P in pr.le}
    want = {scaled(N, P): P for P in le}
    opt = {scaled(N, P) for P in optional}
    for k, P in want.items():
        if k not in have:
            more = [N.show(have[x])[:300] for x in have if x not in want
                    and x not in opt]
            return bad("the constraint %s <= 0 is missing%s" % (
                N.show(P)[:300], "; found instead: " + " <= 0, ".join(
                    more) + " <= 0" if more else ""))
    for k, P in have.items():
        if k not in want and k not in opt and not (
                P.const() is not None and P.const() <= 0):
            return bad("unexpected constraint %s <= 0" % N.show(P)[:300])
    he = {N.signless(P).key() if P.t else (): P for P in pr.eq}
    we = {N.signless(P).key() if P.t else (): P for P in eq}
    for k, P in we.items():
        if k not in he:
            return bad("the constraint %s = 0 is missing" % N.show(P)[:300])
    for k, P in he.items():
        if k not in we and P.t:
            return bad("unexpected constraint %s = 0" % N.show(P)[:300])
    return None


def prepare(S, N, ev, roles):
    """program in canonical form and the expressions playing the roles"""
    pr = Program(S, N, ev)
    ex = {k: pr.unval(N.of(v)) for k, v in roles.items() if v is not None}
    zero = list(pr.fix_zeros())
    for k, P in ex.items():
        for z in zero:
            s = N.single(z)[1]
            ex[k] = pr.subst(ex[k], lambda i: N.zero() if i == s
                             else pr.one(i))
    keep = set()
    for P in ex.values():
        keep |= {i for i in pr.inside(P) if pr.is_var(i)}
    # a vector holding several variables: only the parts playing a role
    keep = {i for P in ex.values() for m in P.t for i, e in m}
    pr.eliminate(keep)
    pr.drop_idle()
    return pr, ex


# ------------------------------------------------------ documented programs
def logistic(S, N, pr, ex, D):
    d, m = S.dim("d"), S.dim("m")
    w, b, lam = ex["coef"], ex["intercept"], ex["dual"]
    t = N.of(D["y"]) * (N.sum(N.of(D["X"]) * w, [d]) + b)
    obj = lam * N.of(D["rho"]) + N.mean(N.maxof([
        N.softplus(-t), N.softplus(t) - N.of(D["kappa"]) * lam]), [m])
    return match(N, pr, obj, [N.sum(w * w, [d]) ** .5 - lam],
                 optional=[-lam])


def linear_regression(S, N, pr, ex, D):
    d, m = S.dim("d"), S.dim("m")
    w, b = ex["coef"], ex["intercept"]
    r = N.sum(N.of(D["X"]) * w, [d]) + b - N.of(D["y"])
    obj = N.sum(r * r, [m]) ** .5 / N.of(m) ** .5 + \
        N.of(D["rho"]) * N.sum(w * w, [d]) ** .5
    return match(N, pr, obj, [])


def newsvendor(S, N, pr, ex, D):
    m = S.dim("m")
    th = ex["coef"]
    out = None
    for z in (D["z"], App("sort", (D["z"],), {"dim": Const(0)})):
        obj = N.of(D["k"]) * th - N.of(D["u"]) * N.mean(N.minof(
            [th, N.of(z)]), [m])
        out = match(N, pr, obj, [-th])
        if out is None:
            return None
    return out


def portfolio(S, N, pr, ex, D, p):
    d, m = S.dim("d"), S.dim("m")
    th, tau, lam = ex["coef"], ex["tau"], ex["dual"]
    eta, al = N.of(D["eta"]), N.of(D["alpha"])
    a = [N.num(-1), N.num(-1) - eta / al]
    b = [eta, eta * (N.num(1) - N.num(1) / al)]
    C, dd = D.get("C"), D.get("d")
    gs = []
    if C is not None:
        q = S.dim("q")
        for P in pr.le:
            s = N.single(P)
            if s and s[2] == 1 and s[0] < 0 and not N.equal(-P, th) and \
                    not N.equal(-P, lam):
                gs.append(N.num(-s[0] ** -1) * P if False else pr.one(s[1]))
        if len(gs) != 2:
            raise Unreadable("%d families of multipliers" % len(gs))
    out = None
    for perm in ((0, 1), (1, 0)) if gs else ((0, 1),):
        fs, le = [], [-th]
        for k in (0, 1):
            f = b[k] * tau + a[k] * N.sum(th * N.of(D["X"]), [d])
            r = -a[k] * th
            if gs:
                g = gs[perm[k]]
                f = f + N.sum(g * (N.of(dd) - N.sum(N.of(C) * N.of(
                    D["X"]), [d])), [q])
                r = r + N.sum(N.of(C) * g, [q])
                le.append(-g)
            fs.append(f)
            if p == 1:
                nr = N.rmax(N.abs(r), frozenset([d]))
            elif p == 2:
                nr = N.sum(r * r, [d]) ** .5
            else:
                nr = N.sum(N.abs(r), [d])
            le.append(nr - lam)
        obj = lam * N.of(D["rho"]) + N.mean(N.maxof(fs), [m])
        r = match(N, pr, obj, le, [N.sum(th, [d]) - 1], optional=[-lam])
        if r is None:
            return None
        out = out or r
    return out


def problems(S):
    return [e for e in S.events if e.kind == "cvx_problem"]
