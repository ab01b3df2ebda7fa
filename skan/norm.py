"""Algebraic normal forms of abstract values.

Terms are put in the form  sum of coefficient * product of atom**exponent,
with tensors treated as families indexed by *named* axes (the symbolic extent
names the axis), so that reshapes which only regroup axes, broadcasts, dtype
and device moves, copies etc. are invisible and a reduction is described by
the names of the axes it runs over.  Two terms with the same normal form denote
the same function of their atoms."""
import math
from fractions import Fraction

from .values import (V, Const, Sym, App, Ite, Tup, Ref, Fn, Ext, Cls, BMeth,
                     NONE,
                     is_const, is_num, walk, show, UNDEF, frac)
from .shapes import dim_factors


class NeedSplit(Exception):
    def __init__(self, key):
        self.key = key


class TooBig(Exception):
    pass


TRANSPARENT = frozenset("""tensor item float to detach clone copy valid numpy
cpu contiguous astype as_tensor asarray from_numpy data requires_grad_ array
double tolist int_exact squeeze unsqueeze expand T transpose param_init
broadcast row stackrow deepcopy constant torch_Tensor npfloat swapaxes permute
npcopy""".split())

UNKNOWN_OPS = frozenset("""xcall call attr loopres loopvar unknown_gate
inplaced getitem_unknown opaque havoc accum rowat gradof each elemof
item_of setitem stack vstack hstack column_stack sumover""".split())


def leaves_of(v):
    """values in nested tuples"""
    if isinstance(v, Tup):
        for x in v.items:
            yield from leaves_of(x)
    elif isinstance(v, (App, Sym, Ref, Ite)):
        yield v


def iroot(n, k):
    """exact k-th root of an integer"""
    r = round(n ** (1. / k)) if n < 1 << 900 else 0
    return r if r ** k == n else None


def small_factors(c):
    """prime factors of a rational, None when some are large"""
    out = {}
    for n, s in ((c.numerator, 1), (c.denominator, -1)):
        if n <= 0:
            return None
        for q in (2, 3, 5, 7, 11, 13):
            while n % q == 0:
                n //= q
                out[q] = out.get(q, 0) + s
        if n != 1:
            return None
    return {q: k for q, k in out.items() if k}


class Poly:
    __slots__ = ("N", "t", "_k")

    def __init__(self, N, t):
        self.N, self.t, self._k = N, t, None

    def key(self):
        if self._k is None:
            self._k = tuple(sorted(self.t.items()))
        return self._k

    def const(self):
        if not self.t:
            return Fraction(0)
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None

    def __add__(self, o):
        o = self.N.lift(o)
        t = dict(self.t)
        for m, c in o.t.items():
            c2 = t.get(m, 0) + c
            if c2:
                t[m] = c2
            else:
                t.pop(m, None)
        return Poly(self.N, t)

    __radd__ = __add__

    def __neg__(self):
        return Poly(self.N, {m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-self.N.lift(o))

    def __rsub__(self, o):
        return self.N.lift(o) + (-self)

    def __mul__(self, o):
        o = self.N.lift(o)
        if len(self.t) * len(o.t) > 20000:
            raise TooBig()
        out = Poly(self.N, {})
        t = out.t
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = self.N.mmul(m1, m2)
                c = t.get(m, 0) + c1 * c2
                if c:
                    t[m] = c
                else:
                    t.pop(m, None)
        return self.N.tidy(out)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self * self.N.power(self.N.lift(o), Fraction(-1))

    def __rtruediv__(self, o):
        return self.N.lift(o) / self

    def __pow__(self, e):
        return self.N.power(self, frac(e) if not isinstance(e, Fraction)
                            else e)

    def __repr__(self):
        return self.N.show(self)


class Norm:
    def __init__(self, S, env=None):
        self.S = S
        self.ids = {}
        self.atoms = []
        self.env = env if env is not None else {}
        self.memo = {}
        self.keys = {}
        self.leads = {}
        self.depth = 0

    # ------------------------------------------------------------ structure
    def zero(self):
        return Poly(self, {})

    def num(self, c):
        c = c if isinstance(c, Fraction) else frac(c)
        return Poly(self, {(): c} if c else {})

    def lift(self, o):
        if isinstance(o, Poly):
            return o
        if isinstance(o, V):
            return self.of(o)
        return self.num(o)

    def intern(self, key):
        i = self.ids.get(key)
        if i is None:
            i = len(self.atoms)
            self.ids[key] = i
            self.atoms.append([key, None, None, None])
        return i

    def atom(self, key, axes=frozenset(), nonneg=None, unk=False):
        i = self.intern(key)
        a = self.atoms[i]
        if a[1] is None:
            a[1], a[2], a[3] = frozenset(axes), nonneg, unk
        return Poly(self, {((i, Fraction(1)),): Fraction(1)})

    def single(self, P):
        """(coef, atom id, exp) when P is one atom to a power"""
        if len(P.t) == 1:
            (m, c), = P.t.items()
            if len(m) == 1:
                return c, m[0][0], m[0][1]
        return None

    def mmul(self, a, b):
        if not a:
            return b
        if not b:
            return a
        d = dict(a)
        for i, e in b:
            e2 = d.get(i, 0) + e
            if e2:
                d[i] = e2
            else:
                del d[i]
        return tuple(sorted(d.items()))

    def tidy(self, P):
        """expand poly atoms that reached an exponent >= 1"""
        for m in list(P.t):
            for i, e in m:
                if self.atoms[i][0][0] == "poly" and e >= 1:
                    return self._tidy(P)
                if self.atoms[i][0][0] == "num" and abs(e) >= 1:
                    return self._tidy(P)
                if self.atoms[i][0][0] == "abs" and e >= 2:
                    return self._tidy(P)
                if e <= -1 and self.atoms[i][0][0] == "poly" and \
                        self.reducible(m, i, e):
                    return self._reduce(P)
        return P

    def lead(self, i):
        """(monomial, coefficient) leading a short polynomial atom whose
        exponents are natural numbers, else None"""
        if i not in self.leads:
            k = self.atoms[i][0][1]
            if len(k) > 4 or any(e.denominator != 1 or e < 0
                                 for m, _ in k for _, e in m):
                self.leads[i] = None
            else:
                self.leads[i] = max(k, key=lambda mc: (
                    sum(e for _, e in mc[0]), mc[0]))
        return self.leads[i]

    def reducible(self, m, i, e):
        if e.denominator != 1:
            return False
        l = self.lead(i)
        if l is None:
            return False
        d = dict(m)
        return all(d.get(j, 0) >= x for j, x in l[0])

    def _reduce(self, P):
        """lead / p = 1 - rest / p, for denominators p = lead + rest"""
        out = self.zero()
        for m, c in P.t.items():
            for i, e in m:
                if e <= -1 and self.atoms[i][0][0] == "poly" and \
                        self.reducible(m, i, e):
                    lm, lc = self.lead(i)
                    q = Poly(self, {self.mmul(m, tuple(
                        (j, -x) for j, x in lm)): c / lc})
                    rest = Poly(self, {k: v for k, v in self.atoms[i][0][1]
                                       if k != lm})
                    up = Poly(self, {self.mmul(k, ((i, Fraction(1)),)): v
                                     for k, v in q.t.items()})
                    out = out + self.tidy(up) - q * rest
                    break
            else:
                out = out + Poly(self, {m: c})
        return out

    def _tidy(self, P):
        out = self.zero()
        for m, c in P.t.items():
            rest, fac = [], None
            for i, e in m:
                k = self.atoms[i][0]
                if k[0] == "poly" and e >= 1:
                    n = e.numerator // e.denominator
                    base = self.unkey(k[1])
                    for _ in range(n):
                        fac = base if fac is None else fac * base
                    if e - n:
                        rest.append((i, e - n))
                elif k[0] == "abs" and e >= 2:
                    n = 2 * (e.numerator // (2 * e.denominator))
                    f = self.power(self.unkey(k[1]), Fraction(n))
                    fac = f if fac is None else fac * f
                    if e - n:
                        rest.append((i, e - n))
                elif k[0] == "num" and abs(e) >= 1:
                    n = int(e)
                    c = c * k[1] ** n
                    if e - n:
                        rest.append((i, e - n))
                else:
                    rest.append((i, e))
            t = Poly(self, {tuple(rest): c})
            out = out + (t if fac is None else t * fac)
        return out

    def unkey(self, k):
        return Poly(self, dict(k))

    def axes_m(self, m):
        s = frozenset()
        for i, e in m:
            s |= self.atoms[i][1]
        return s

    def axes(self, P):
        s = frozenset()
        for m in P.t:
            s |= self.axes_m(m)
        return s

    def unk(self, P):
        return any(self.atoms[i][3] for m in P.t for i, e in m)

    def nonneg_atom(self, i):
        return bool(self.atoms[i][2])

    def nonneg_m(self, m, c):
        return c >= 0 and all(self.nonneg_atom(i) or (
            e.denominator == 1 and e.numerator % 2 == 0) for i, e in m)

    def nonneg(self, P):
        return all(self.nonneg_m(m, c) for m, c in P.t.items())

    def positive_atom(self, i):
        k = self.atoms[i][0]
        if k[0] == "leaf":
            try:
                return self.S.sign(k[1]) == frozenset("+")
            except Exception:
                return False
        if k[0] in ("num", "const"):
            return bool(self.atoms[i][2])
        if k[0] == "exp":
            return True
        if k[0] in ("abs", "poly"):
            P = self.unkey(k[1])
            return self.positive(P) or k[0] == "abs" and self.positive(-P)
        if k[0] == "sum":
            return all(self.positive_atom(j) for j, _ in k[2])
        if k[0] == "max":
            return any(self.positive(self.unkey(x)) for x in k[1])
        if k[0] == "rmax":
            return self.positive(self.unkey(k[2]))
        return False

    def positive(self, P):
        """P > 0 for sure"""
        return self.nonneg(P) and any(
            c > 0 and all(self.positive_atom(i) for i, _ in m)
            for m, c in P.t.items())

    # ------------------------------------------------------------ algebra
    def content(self, P):
        """(coef, monomial, primitive part) with P = coef*mono*prim and
        prim's first coefficient 1"""
        common = None
        for m in P.t:
            d = dict(m)
            if common is None:
                common = d
            else:
                n = {}
                for i in set(common) | set(d):
                    a, b = common.get(i, 0), d.get(i, 0)
                    lo = min(a, b)
                    if lo:
                        n[i] = lo
                common = n
        mono = tuple(sorted(common.items()))
        inv = tuple((i, -e) for i, e in mono)
        t = {self.mmul(m, inv): c for m, c in P.t.items()}
        lead = t[min(t)]
        return lead, mono, Poly(self, {m: c / lead for m, c in t.items()})

    def power(self, P, e):
        if e == 0:
            return self.num(1)
        if e == 1:
            return P
        c = P.const()
        if c is not None:
            if c == 0:
                if e > 0:
                    return self.zero()
                return self.atom(("zeropow", e))
            return self.numpow(c, e)
        if e.denominator == 1 and 0 < e <= 8:
            out = P
            for _ in range(int(e) - 1):
                out = out * P
            return out
        if len(P.t) == 1:
            (m, c), = P.t.items()
            if e.denominator == 1:
                return self.tidy(Poly(self, {tuple(
                    (i, x * e) for i, x in m): c ** int(e)}))
            good, bad = [], []
            for i, x in m:
                if self.nonneg_atom(i) or x.denominator != 1:
                    good.append((i, x * e))
                else:
                    bad.append((i, x))
            if c < 0 and bad:
                bad_c, c = Fraction(-1), -c
            else:
                bad_c = Fraction(1)
            if c > 0:
                r = Poly(self, {tuple(good): Fraction(1)}) * self.numpow(
                    c, e)
                if bad:
                    inner = Poly(self, {tuple(bad): bad_c})
                    if e == Fraction(1, 2) and bad_c == 1 and all(
                            x % 2 == 0 for _, x in bad):
                        # sqrt of an even power
                        a = self.abs(Poly(self, {tuple(
                            (i, x / 2) for i, x in bad): Fraction(1)}))
                        return r * a
                    k = self.atom(("poly", inner.key()), self.axes(inner),
                                  True, self.unk(inner))
                    (mm, _), = k.t.items()
                    r = r * Poly(self, {((mm[0][0], e),): Fraction(1)})
                return self.tidy(r)
        c, mono, prim = self.content(P)
        if e.denominator != 1 and c < 0:
            c, prim = -c, -prim
        if e.denominator != 1 and mono and not all(
                self.nonneg_atom(i) for i, _ in mono):
            prim = prim * Poly(self, {mono: Fraction(1)})
            mono = ()
        k = self.atom(("poly", prim.key()), self.axes(prim),
                      self.nonneg(prim) or e.denominator != 1,
                      self.unk(prim))
        (mm, _), = k.t.items()
        r = Poly(self, {((mm[0][0], e),): Fraction(1)})
        if e > 1:
            r = self.tidy(r)
        return r * self.numpow(c, e) * Poly(
            self, {tuple((i, x * e) for i, x in mono): Fraction(1)})

    def numpow(self, c, e):
        if e.denominator == 1:
            return self.num(c ** int(e))
        if c < 0:
            return self.atom(("fn", "pow", (self.num(c).key(),
                                            ("k", e))))
        a, b = (iroot(x, e.denominator) for x in (c.numerator,
                                                  c.denominator))
        if a is not None and b is not None:
            return self.num(Fraction(a, b) ** e.numerator)
        r = float(c) ** float(e)
        f = Fraction("%.12g" % r)
        # exact roots stay numbers
        if f and abs(f ** e.denominator - c ** e.numerator) * 10**11 < abs(
                c ** e.numerator) and (f.denominator < 10**6 or f ** (
                    e.denominator) == c ** e.numerator):
            return self.num(f)
        fs = small_factors(c)
        if fs is not None and (len(fs) > 1 or c not in fs):
            out = self.num(1)
            for q, n in fs.items():
                w, x = divmod(e * n, 1)
                out = out * self.num(Fraction(q) ** int(w))
                if x:
                    out = out * self.numpow(Fraction(q), x)
            return out
        k = self.atom(("num", c), frozenset(), c > 0)
        (mm, _), = k.t.items()
        return Poly(self, {((mm[0][0], e),): Fraction(1)})

    def abs(self, P):
        c = P.const()
        if c is not None:
            return self.num(abs(c))
        if len(P.t) == 1:
            (m, c), = P.t.items()
            if self.nonneg_m(m, abs(c)):
                return Poly(self, {m: abs(c)})
        cat = self.mergecat(P)
        if cat is not None:
            return self.atom(("cat", cat[0], tuple(
                (self.abs(p).key(), ax) for p, ax in cat[1])),
                self.axes(P), True, self.unk(P))
        c, mono, prim = self.content(P)
        keep = [(i, e) for i, e in mono if self.nonneg_atom(i)]
        rest = [(i, e) for i, e in mono if not self.nonneg_atom(i)]
        out = Poly(self, {tuple(keep): abs(c)})
        if prim.const() is None:
            if self.nonneg(prim):
                out = out * prim
            else:
                out = out * self.atom(("abs", prim.key()), self.axes(prim),
                                      True, self.unk(prim))
        for i, e in rest:
            if e.denominator == 1 and e.numerator % 2 == 0:
                out = out * Poly(self, {((i, e),): Fraction(1)})
            else:
                a = self.atom(("abs", (((((i, Fraction(1)),)),
                                        Fraction(1)),)),
                              self.atoms[i][1], True, self.atoms[i][3])
                (mm, _), = a.t.items()
                out = out * Poly(self, {((mm[0][0], e),): Fraction(1)})
        return out

    def mergecat(self, P):
        """(axis, [(part, axes)]) when P is one concatenation along axis"""
        axis = axs = parts = None
        for m, c in P.t.items():
            hit = [(i, e) for i, e in m if self.atoms[i][0][0] == "cat"]
            if len(hit) != 1 or hit[0][1] != 1:
                return None
            k = self.atoms[hit[0][0]][0]
            ax = tuple(p[1] for p in k[2])
            if axis is None:
                axis, axs = k[1], ax
                parts = [self.zero() for _ in ax]
            elif axis is not k[1] or axs != ax:
                return None
            rest = Poly(self, {tuple(x for x in m if x[0] != hit[0][0]): c})
            parts = [q + rest * self.unkey(p[0])
                     for q, p in zip(parts, k[2])]
        return None if axis is None else (axis, list(zip(parts, axs)))

    def exp(self, P):
        out = self.num(1)
        for m, c in P.t.items():
            if not m:
                k = self.atom(("exp", self.num(1).key()), (), True)
                e = c
            else:
                if len(m) == 1 and m[0][1] == 1 and \
                        self.atoms[m[0][0]][0] == ("inf", "-inf") and c > 0:
                    return self.zero()
                # log atoms cancel
                if len(m) == 1 and m[0][1] == 1 and \
                        self.atoms[m[0][0]][0][0] == "log":
                    out = out * self.power(self.unkey(
                        self.atoms[m[0][0]][0][1]), c)
                    continue
                # prefer positive representatives
                k = self.atom(("exp", ((m, Fraction(1)),)),
                              self.axes_m(m), True,
                              any(self.atoms[i][3] for i, _ in m))
                e = c
            (mm, _), = k.t.items()
            out = out * Poly(self, {((mm[0][0], e),): Fraction(1)})
        return out

    def log(self, P):
        c = P.const()
        if c is not None:
            if c == 1:
                return self.zero()
            if c == 0:
                return self.of(Const(float("-inf")))
            return self.atom(("log", self.num(c).key()))
        if len(P.t) == 1:
            (m, c), = P.t.items()
            out = self.zero()
            if c > 0:
                if c != 1:
                    out = out + self.log(self.num(c))
                for i, e in m:
                    k = self.atoms[i][0]
                    if k[0] == "exp":
                        out = out + self.num(e) * self.unkey(k[1])
                    elif k[0] == "poly":
                        out = out + self.num(e) * self.log1(
                            self.unkey(k[1]))
                    elif k[0] == "num":
                        out = out + self.num(e) * self.log(self.num(k[1]))
                    else:
                        out = out + self.num(e) * self.atom(
                            ("log", ((((i, Fraction(1)),), Fraction(1)),)),
                            self.atoms[i][1], None, self.atoms[i][3])
                return out
        return self.log1(P)

    def log1(self, P):
        c, mono, prim = self.content(P)
        if c > 0 and (c != 1 or mono):
            return self.log(Poly(self, {mono: c})) + self.log1(prim)
        return self.atom(("log", P.key()), self.axes(P), None, self.unk(P))

    def dimsize(self, ax):
        return self.of(ax)

    def sum(self, P, A):
        """sum over the named axes A"""
        A = frozenset(A)
        out = self.zero()
        for m, c in P.t.items():
            have = self.axes_m(m) & A
            fac = self.num(1)
            for a in A - have:
                fac = fac * self.dimsize(a)
            if not have:
                out = out + Poly(self, {m: c}) * fac
                continue
            ind = tuple((i, e) for i, e in m
                        if not (self.atoms[i][1] & have))
            dep = tuple((i, e) for i, e in m if self.atoms[i][1] & have)
            if len(dep) == 1 and dep[0][1] == 1:
                k = self.atoms[dep[0][0]][0]
                if k[0] == "sum":
                    t = self._sumatom(k[1] | have, k[2])
                    out = out + Poly(self, {ind: c}) * fac * t
                    continue
            out = out + Poly(self, {ind: c}) * fac * self._sumatom(
                have, dep)
        return out

    def _catsplit(self, A, m):
        """sum over a concatenated axis = sum of the sums over its parts"""
        for a in A:
            if not (isinstance(a, App) and a.op == "dimsum"):
                continue
            dep = [(i, e) for i, e in m if a in self.atoms[i][1]]
            ks = [self.atoms[i][0] for i, _ in dep]
            if not dep or any(k[0] != "cat" or k[1] is not a for k in ks):
                continue
            axs = {tuple(p[1] for p in k[2]) for k in ks}
            if len(axs) != 1:
                continue
            rest = Poly(self, {tuple(x for x in m if x not in dep):
                               Fraction(1)})
            out = self.zero()
            for j, ax in enumerate(axs.pop()):
                t = rest
                for (i, e), k in zip(dep, ks):
                    t = t * self.power(self.unkey(k[2][j][0]), e)
                out = out + self.sum(t, (A - {a}) | ax)
            return out
        return None

    def _sumatom(self, A, m):
        r = self._catsplit(A, m)
        if r is not None:
            return r
        return self.atom(("sum", A, m), self.axes_m(m) - A,
                         self.nonneg_m(m, 1),
                         any(self.atoms[i][3] for i, _ in m))

    def mean(self, P, A):
        r = self.sum(P, A)
        for a in A:
            r = r / self.dimsize(a)
        return r

    def lse(self, P, A):
        return self.log(self.sum(self.exp(P), A))

    def maxof(self, Ps):
        flat = []
        for P in Ps:
            s = self.single(P)
            if s and s[0] == 1 and s[2] == 1 and \
                    self.atoms[s[1]][0][0] == "max":
                flat.extend(self.unkey(k) for k in self.atoms[s[1]][0][1])
            else:
                flat.append(P)
        keys = {}
        cst = None
        for P in flat:
            c = P.const()
            if c is not None:
                cst = c if cst is None else max(cst, c)
            else:
                keys[P.key()] = P
        if cst is not None:
            if not (cst <= 0 and any(self.nonneg(P)
                                     for P in keys.values())):
                P = self.num(cst)
                keys[P.key()] = P
        if len(keys) == 1:
            return next(iter(keys.values()))
        ps = list(keys.values())
        if cst is not None and len(ps) == 2:
            P = self._clamped(cst, [P for P in ps if P.const() is None])
            if P is not None:
                return P
        axes = frozenset()
        for P in ps:
            axes |= self.axes(P)
        return self.atom(("max", frozenset(keys)), axes,
                         any(self.nonneg(P) for P in ps) or None,
                         any(self.unk(P) for P in ps))

    def _clamped(self, c, ps):
        """max(c, min(-k, -x)) is min(-k, max(c, -x)) when c <= -k; keep the
        one where x has a positive leading coefficient"""
        if len(ps) != 1:
            return None
        s = self.single(ps[0])
        if not s or s[0] != -1 or s[2] != 1 or \
                self.atoms[s[1]][0][0] != "max":
            return None
        inner = [self.unkey(k) for k in self.atoms[s[1]][0][1]]
        ks = [P.const() for P in inner if P.const() is not None]
        xs = [P for P in inner if P.const() is None]
        if len(ks) != 1 or len(xs) != 1 or c > -ks[0]:
            return None
        x = xs[0]
        if x.t[min(x.t, key=repr)] > 0:
            return None
        return -self.maxof([self.num(ks[0]),
                            -self.maxof([self.num(c), -x])])

    def minof(self, Ps):
        return -self.maxof([-P for P in Ps])

    # ------------------------------------------------------------- equality
    def is_zero(self, P):
        for _ in range(12):
            if not P.t:
                return True
            mult = None
            for m in P.t:
                for i, e in m:
                    if self.atoms[i][0][0] == "poly" and e < 0:
                        mult = (i, -e)
                        break
                if mult:
                    break
            if mult is None:
                return False
            i, e = mult
            worst = max(-dict(m).get(i, Fraction(0)) for m in P.t)
            f = Poly(self, {((i, worst),): Fraction(1)})
            t = {}
            for m, c in P.t.items():
                mm = self.mmul(m, ((i, worst),))
                t[mm] = t.get(mm, 0) + c
            P = self._tidy(Poly(self, {m: c for m, c in t.items() if c}))
        return not P.t

    def equal(self, A, B):
        D = self.lift(A) - self.lift(B)
        if self.is_zero(D):
            return True
        E = self.kinks(D)
        return E is not D and self.is_zero(E)

    def kinks(self, P):
        """maxima of two values and absolute values rewritten with positive
        parts, whose arguments have one sign of their leading term"""
        out, changed = self.zero(), False
        for m, c in P.t.items():
            t = Poly(self, {(): c})
            for i, e in m:
                k = self.atoms[i][0]
                f = None
                if k[0] == "max" and len(k[1]) == 2 and e == 1:
                    a, b = sorted((self.unkey(x) for x in k[1]),
                                  key=lambda x: x.key())
                    f = a + self.ramp(b - a)
                elif k[0] == "abs" and e == 1:
                    a = self.unkey(k[1])
                    f = 2 * self.ramp(a) - a
                elif k[0] == "sum" and e == 1:
                    a = Poly(self, {k[2]: Fraction(1)})
                    b = self.kinks(a)
                    if b is not a:
                        f = self.sum(b, k[1])
                elif k[0] == "exp" or k[0] == "log" and e == 1 or \
                        k[0] == "poly":
                    a = self.unkey(k[1])
                    b = self.kinks(a)
                    if b is not a:
                        f = self.exp(b * e) if k[0] == "exp" else \
                            self.log(b) if k[0] == "log" else \
                            self.power(b, e)
                if f is None:
                    f = Poly(self, {((i, e),): Fraction(1)})
                else:
                    changed = True
                t = t * f
            out = out + t
        return out if changed else P

    def ramp(self, P):
        """max(P, 0) with the leading coefficient of P made 1"""
        if P.const() is not None:
            return self.num(max(P.const(), 0))
        c, mono, prim = self.content(P)
        if all(self.nonneg_atom(i) for i, _ in mono):
            r = Poly(self, {mono: abs(c)})
        else:
            c, r = P.t[min(P.t)], self.num(1)
            prim = P if c > 0 else -P
        pos = self.atom(("ramp", prim.key()), self.axes(prim), True,
                        self.unk(prim))
        return r * (pos if c > 0 else pos - prim)

    # ------------------------------------------------------------ from terms
    def dims(self, v):
        """axis names per dimension of a term, or None"""
        s = self.S.shape(v)
        if s is None:
            return None
        return [[f for f in dim_factors(d) if not is_const(f, 1)]
                for d in s]

    def axset(self, v):
        d = self.dims(v)
        if d is None:
            return None
        return [x for fs in d for x in fs]

    def leaf(self, v, unk=False):
        d = self.axset(v)
        sg = None
        try:
            s = self.S.sign(v)
            sg = bool(s) and s <= {"0", "+"}
            if s == {"0"}:
                return self.zero()
        except Exception:
            pass
        if d is not None and len(set(d)) != len(d):
            # repeated axis names: rename the later ones
            seen, ax = set(), []
            for x in d:
                k = x
                while k in seen:
                    k = App("axis2", (k,))
                seen.add(k)
                ax.append(k)
            d = ax
        return self.atom(("leaf", v), frozenset(d or ()), sg,
                         unk or False)

    def of(self, v):
        v0 = v
        r = self.memo.get(v)
        if r is not None:
            return r
        self.depth += 1
        if self.depth > 400:
            raise TooBig()
        try:
            r = self._of(v)
        finally:
            self.depth -= 1
        self.memo[v0] = r
        return r

    def _of(self, v):
        S = self.S
        if isinstance(v, Const):
            if isinstance(v.v, (int, float)):
                f = frac(v.v)
                if f is None:
                    return self.atom(("inf", str(v.v)))
                return self.num(f)
            return self.atom(("const", repr(v.v)))
        if isinstance(v, Ite):
            if v.a is UNDEF:
                return self.of(v.b)
            if v.b is UNDEF:
                return self.of(v.a)
            return self.of(v.a if self.truth(v.c) else v.b)
        if isinstance(v, Tup):
            ks = tuple(self.of(x).key() for x in v.items)
            ax = frozenset().union(*[self.axes(self.of(x))
                                     for x in v.items]) if v.items else ()
            return self.atom(("tup", ks), ax, None, True)
        if isinstance(v, Ref):
            o = S.st.heap.get(v.oid)
            if o is not None and o.kind == "param":
                return self.of(S.freeze(v))
            if o is not None and o.kind == "list":
                it = o.f.get("items")
                if isinstance(it, Tup):
                    return self.of(it)
            return self.leaf(v)
        if isinstance(v, BMeth):
            return self.generic(App("attr", (v.recv, Const(v.name))),
                                unk=True)
        if not isinstance(v, App):
            return self.leaf(v)
        o = v.op
        if o in TRANSPARENT:
            return self.of(v.args[0])
        h = getattr(self, "n_" + o, None)
        if h is not None:
            return h(v, dict(v.kw))
        if o in UNKNOWN_OPS:
            return self.generic(v, unk=True)
        if o in ("par", "draw_init", "noise"):
            return self.leaf(v)
        return self.generic(v)

    def kkey(self, v):
        """hashable normal key of any value"""
        if isinstance(v, Const):
            if isinstance(v.v, (int, float)) and not isinstance(v.v, bool):
                return ("c", self.of(v).key())
            return ("c", repr(v.v))
        if isinstance(v, Tup):
            return ("t",) + tuple(self.kkey(x) for x in v.items)
        if isinstance(v, (Ref, Fn, Ext, Cls)):
            return ("r", v) if not isinstance(v, Ref) else (
                "p", self.of(v).key())
        return ("p", self.of(v).key())

    def generic(self, v, unk=False):
        ax = self.axset(v)
        ks = []
        un = unk
        aset = frozenset()
        for a in v.args:
            ks.append(self.kkey(a))
            for x in leaves_of(a):
                P = self.of(x)
                un = un or self.unk(P)
                aset |= self.axes(P)
        kw = tuple((k, self.kkey(x)) for k, x in v.kw if k != "lib")
        axes = frozenset(ax) if ax is not None else aset
        if ax is not None:
            axes |= self.hidden(v)
        return self.atom(("fn", v.op, tuple(ks), kw), axes, None, un)

    def hidden(self, v):
        """axes of the arguments removed from sight by vmapping"""
        out = frozenset()
        for a in v.args:
            if isinstance(a, (App, Ite)):
                vis = self.axset(a)
                if vis is not None:
                    out |= self.axes(self.of(a)) - frozenset(vis)
        return out

    # ---- elementwise
    def dup(self, v):
        """elementwise operation whose operands were aligned on different
        positions: not expressible with named axes"""
        d = self.axset(v)
        if d is not None and len(set(d)) != len(d):
            for a in v.args:
                x = self.axset(a)
                if x is not None and len(set(x)) != len(x):
                    return False
            return True
        if d is None and all(self.axset(a) is not None for a in v.args):
            return True
        return False

    def el(self, v, f):
        if self.dup(v):
            ks = tuple(self.kkey(a) for a in v.args)
            ax = frozenset()
            for a in v.args:
                ax |= self.axes(self.of(a))
            return self.atom(("outer", v.op, ks), ax)
        return f(*[self.of(a) for a in v.args])

    def n_add(self, v, kw):
        return self.el(v, lambda a, b: a + b)

    def n_sub(self, v, kw):
        return self.el(v, lambda a, b: a - b)

    def n_mul(self, v, kw):
        return self.el(v, lambda a, b: a * b)

    def n_div(self, v, kw):
        return self.el(v, lambda a, b: a / b)

    def n_neg(self, v, kw):
        return -self.of(v.args[0])

    def n_square(self, v, kw):
        a = self.of(v.args[0])
        return a * a

    def n_reciprocal(self, v, kw):
        return self.num(1) / self.of(v.args[0])

    def n_sqrt(self, v, kw):
        return self.power(self.of(v.args[0]), Fraction(1, 2))

    def n_rsqrt(self, v, kw):
        return self.power(self.of(v.args[0]), Fraction(-1, 2))

    def n_pow(self, v, kw):
        b, e = v.args
        E_ = self.of(e)
        c = E_.const()
        if c is not None and c.denominator <= 16:
            return self.el(v, lambda a, b: self.power(a, c))
        B = self.of(b)
        if B.const() == 1:
            return B
        return self.atom(("pow", B.key(), E_.key()),
                         self.axes(B) | self.axes(E_),
                         self.nonneg(B) or None,
                         self.unk(B) or self.unk(E_))

    def n_exp(self, v, kw):
        return self.exp(self.of(v.args[0]))

    def n_log(self, v, kw):
        return self.log(self.of(v.args[0]))

    def n_log1p(self, v, kw):
        return self.log(self.of(v.args[0]) + 1)

    def n_expm1(self, v, kw):
        return self.exp(self.of(v.args[0])) - 1

    def n_abs(self, v, kw):
        return self.abs(self.of(v.args[0]))

    def n_relu(self, v, kw):
        return self.maxof([self.of(v.args[0]), self.zero()])

    def n_maximum(self, v, kw):
        return self.el(v, lambda a, b: self.maxof([a, b]))

    def n_minimum(self, v, kw):
        return self.el(v, lambda a, b: self.minof([a, b]))

    def softplus(self, P):
        return self.log(self.num(1) + self.exp(P))

    def n_softplus(self, v, kw):
        return self.softplus(self.of(v.args[0]))

    def n_logsigmoid(self, v, kw):
        return -self.softplus(-self.of(v.args[0]))

    def n_sigmoid(self, v, kw):
        return self.num(1) / (self.num(1) + self.exp(-self.of(v.args[0])))

    def n_logaddexp(self, v, kw):
        return self.el(v, lambda a, b: self.log(self.exp(a) + self.exp(b)))

    def n_zeros_like(self, v, kw):
        return self.zero()

    def n_zeros(self, v, kw):
        return self.zero()

    def n_ones_like(self, v, kw):
        return self.num(1)

    def n_ones(self, v, kw):
        return self.num(1)

    def n_full_like(self, v, kw):
        return self.of(v.args[1])

    def n_full(self, v, kw):
        return self.of(v.args[1])

    def n_sizeof(self, v, kw):
        return self.generic(v)

    def n_dimprod(self, v, kw):
        out = self.num(1)
        for a in v.args:
            out = out * self.of(a)
        return out

    def n_int(self, v, kw):
        return self.generic(v)

    # ---- regrouping
    def n_reshape(self, v, kw):
        s, t = self.dims(v.args[0]), self.dims(v)
        a = self.of(v.args[0])
        if s is None or t is None:
            if s is not None or t is not None:
                return self.generic(v, unk=True)
            return a
        if [x for f in s for x in f] == [x for f in t for x in f]:
            return a
        return self.generic(v)

    n_view = n_flatten = n_ravel = n_reshape

    # ---- reductions
    def red_axes(self, v, kw):
        d = self.dims(v.args[0])
        if d is None:
            return None
        dim = kw.get("dim", NONE)
        if dim is NONE:
            ax = [x for f in d for x in f]
        else:
            ks = self.S.dims_of(dim, len(d))
            if ks is None:
                return None
            ax = [x for k in ks for x in d[k]]
        allax = [x for f in d for x in f]
        if len(set(allax)) != len(allax):
            return None
        return frozenset(ax)

    def red(self, v, kw, f):
        ax = self.red_axes(v, kw)
        if ax is None:
            return self.generic(v, unk=self.dims(v.args[0]) is None)
        return f(self.of(v.args[0]), ax)

    def n_sum(self, v, kw):
        return self.red(v, kw, self.sum)

    def n_mean(self, v, kw):
        return self.red(v, kw, self.mean)

    def n_logsumexp(self, v, kw):
        return self.red(v, kw, self.lse)

    def n_norm(self, v, kw):
        p = kw.get("p", Const(2))
        if isinstance(p, Const) and isinstance(p.v, (int, float)):
            if p.v == 2:
                return self.red(v, kw, lambda P, A: self.power(
                    self.sum(P * P, A), Fraction(1, 2)))
            if p.v == 1:
                return self.red(v, kw, lambda P, A: self.sum(
                    self.abs(P), A))
            if math.isinf(p.v):
                return self.red(v, kw, lambda P, A: self.rmax(
                    self.abs(P), A))
        ax = self.red_axes(v, kw)
        if ax is None:
            return self.generic(v)
        P = self.of(v.args[0])
        c, mono, prim = self.content(P) if P.t else (1, (), P)
        return self.atom(("normp", self.of(p).key(), ax,
                          self.signless(P).key()), self.axes(P) - ax,
                         True, self.unk(P))

    def signless(self, P):
        """representative of {P, -P}"""
        if not P.t:
            return P
        return P if P.t[min(P.t)] > 0 else -P

    def rmax(self, P, A):
        A = A & self.axes(P)
        if not A:
            return P
        cat = self.mergecat(P)
        if cat is not None and cat[0] in A:
            return self.maxof([self.rmax(p, (A - {cat[0]}) | ax)
                               for p, ax in cat[1]])
        return self.atom(("rmax", A, P.key()), self.axes(P) - A,
                         self.nonneg(P), self.unk(P))

    def n_max(self, v, kw):
        return self.red(v, kw, self.rmax)

    def n_min(self, v, kw):
        return self.red(v, kw, lambda P, A: -self.rmax(-P, A))

    def n_softmax(self, v, kw):
        ax = self.red_axes(v, kw)
        if ax is None:
            return self.generic(v)
        P = self.exp(self.of(v.args[0]))
        return P / self.sum(P, ax)

    def n_log_softmax(self, v, kw):
        ax = self.red_axes(v, kw)
        if ax is None:
            return self.generic(v)
        P = self.of(v.args[0])
        return P - self.lse(P, ax)

    # ---- contractions
    def n_linear(self, v, kw):
        x, w = v.args
        dx, dw = self.dims(x), self.dims(w)
        if dx is None or dw is None or len(dw) != 2:
            return self.generic(v)
        if dx[-1] != dw[1]:
            return self.generic(v)
        return self.contract(x, w, frozenset(dw[1]), v)

    def contract(self, x, w, A, v):
        X, W = self.of(x), self.of(w)
        if (self.axes(X) & self.axes(W)) - A - self.hidden(v):
            return self.generic(v)
        return self.sum(X * W, A)

    def n_matmul(self, v, kw):
        x, w = v.args
        dx, dw = self.dims(x), self.dims(w)
        if dx is None or dw is None or not dx or not dw:
            return self.generic(v, unk=True)
        kx, kw_ = dx[-1], dw[0] if len(dw) == 1 else dw[-2]
        if kx != kw_:
            return self.generic(v)
        if not self.of(x).t or not self.of(w).t:
            return self.zero()
        if len(dx) > 2 and len(dw) > 2:
            X, W = self.of(x), self.of(w)
            return self.sum(X * W, frozenset(kx))
        return self.contract(x, w, frozenset(kx), v)

    # ---- indexing
    def n_getitem(self, v, kw):
        base, k = v.args
        d = self.dims(base)
        idx = list(k.items) if isinstance(k, Tup) else [k]
        if d is None:
            return self.generic(v, unk=True)
        pos = 0
        sub = {}
        nspec = sum(1 for i in idx if i is not NONE and not is_const(
            i, Ellipsis))
        for i in idx:
            if i is NONE:
                continue
            if is_const(i, Ellipsis):
                pos += len(d) - nspec
                continue
            if pos >= len(d):
                return self.generic(v, unk=True)
            if isinstance(i, App) and i.op == "slice":
                if all(x is NONE for x in i.args):
                    pos += 1
                    continue
                if len(d[pos]) != 1 or not d[pos]:
                    return self.generic(v)
                lo, hi, st = i.args
                if (lo is NONE or is_const(lo, 0)) and st is NONE and \
                        self.S.shape(base)[pos] is hi:
                    pos += 1
                    continue
                if st is NONE:
                    lo, hi = self.S.slice_ends(self.S.shape(base)[pos], lo,
                                               hi)
                sub[d[pos][0]] = ("slice", self.kkey(lo), self.kkey(hi),
                                  self.kkey(st))
                pos += 1
                continue
            s = self.S.shape(i)
            if s == () or s is None and isinstance(i, Const):
                if not d[pos]:
                    pos += 1
                    continue
                if len(d[pos]) != 1:
                    return self.generic(v)
                sub[d[pos][0]] = ("at", self.kkey(i))
                pos += 1
                continue
            return self.generic(v)
        P = self.of(base)
        if not sub:
            return P
        newax = {}
        ns = self.axset(v)
        r = self.index(P, sub, frozenset(ns or ()) - frozenset(
            self.axset(base)))
        return r if r is not None else self.generic(v)

    def index(self, P, sub, newax):
        """restrict axes of P to given positions"""
        out = self.zero()
        for m, c in P.t.items():
            t = self.num(c)
            for i, e in m:
                a = self.index_atom(i, sub, newax)
                if a is None:
                    return None
                t = t * self.power(a, e)
            out = out + t
        return out

    def index_atom(self, i, sub, newax):
        key, axes, nn, un = self.atoms[i]
        hit = {a: s for a, s in sub.items() if a in axes}
        if not hit:
            return Poly(self, {((i, Fraction(1)),): Fraction(1)})
        if key[0] in ("leaf", "fn", "at", "outer", "tup"):
            ax = axes - frozenset(hit)
            if any(s[0] == "slice" for s in hit.values()):
                ax |= newax
            if key[0] == "at":
                base, old = key[1], key[2]
                return self.atom(("at", base, old | frozenset(
                    hit.items())), ax, nn, un)
            return self.atom(("at", i, frozenset(hit.items())), ax, nn, un)
        if any(s[0] == "slice" for s in hit.values()):
            ax = (axes - frozenset(hit)) | newax
            return self.atom(("at", i, frozenset(hit.items())), ax, nn, un)
        if key[0] == "abs":
            r = self.index(self.unkey(key[1]), sub, newax)
            return r if r is None else self.abs(r)
        if key[0] == "exp":
            r = self.index(self.unkey(key[1]), sub, newax)
            return r if r is None else self.exp(r)
        if key[0] == "log":
            r = self.index(self.unkey(key[1]), sub, newax)
            return r if r is None else self.log(r)
        if key[0] == "poly":
            return self.index(self.unkey(key[1]), sub, newax)
        if key[0] == "sum":
            r = self.index(Poly(self, {key[2]: Fraction(1)}), sub, newax)
            return r if r is None else self.sum(r, key[1])
        if key[0] == "max":
            rs = [self.index(self.unkey(k), sub, newax) for k in key[1]]
            return None if None in rs else self.maxof(rs)
        ax = axes - frozenset(hit)
        return self.atom(("at", i, frozenset(hit.items())), ax, nn, un)

    # ---- probability
    def n_rsample(self, v, kw):
        d, i = v.args
        if isinstance(d, App) and d.op == "dist":
            k = dict(d.kw)
            n = d.args[0].v
            if n in ("Normal", "Laplace") and "expanded" not in k:
                ax = self.axset(v)
                z = self.atom(("noise", n, i.v, self.kkey(kw.get(
                    "n", NONE))), frozenset(ax or ()), None, ax is None)
                return self.of(k["loc"]) + self.of(k["scale"]) * z
            if n == "MultivariateNormal" and "expanded" not in k:
                ax = frozenset(self.axset(v) or ())
                c = self.isotropic(k["scale_tril"])
                if c is not None:
                    z = self.atom(("noise", "Normal", i.v, self.kkey(kw.get(
                        "n", NONE))), ax)
                    return self.of(k["loc"]) + c * z
                L = self.of(k["scale_tril"])
                z = self.atom(("mvnoise", L.key(), i.v, self.kkey(kw.get(
                    "n", NONE))), ax, None, self.unk(L))
                return self.of(k["loc"]) + z
        return self.generic(v)

    def isotropic(self, L):
        """c when a matrix is c times the identity"""
        P = self.of(L)
        if len(P.t) != 1:
            return None
        (m, c), = P.t.items()
        one = [x for x in m if self.atoms[x[0]][0][:2] == ("fn", "eye")]
        if len(one) != 1 or one[0][1] != 1:
            return None
        rest = Poly(self, {tuple(x for x in m if x is not one[0]): c})
        ax = self.atoms[one[0][0]][1]
        return None if self.axes(rest) & ax else rest

    def n_f_diag(self, v, kw):
        s = self.S.shape(v.args[0])
        if s is not None and len(s) == 1 and not kw and len(v.args) == 1:
            P = self.of(v.args[0])
            if s[0] not in self.axes(P):
                return P * self.of(App("eye", (s[0],)))
        return self.generic(v)

    n_f_diag_embed = n_f_diag

    def n_eye(self, v, kw):
        return self.generic(App("eye", v.args[:1]))

    def n_cholesky(self, v, kw):
        c = self.isotropic(v.args[0])
        if c is not None:
            return self.power(c, Fraction(1, 2)) * self.of(App("eye", (
                self.S.shape(v.args[0])[0],)))
        return self.generic(v)

    n_sample = n_rsample

    def n_log_prob(self, v, kw):
        d, x = v.args
        if isinstance(d, App) and d.op == "dist":
            k = dict(d.kw)
            n = d.args[0].v
            if n in ("Normal", "Laplace") and "expanded" not in k:
                u = self.of(x) - self.of(k["loc"])
                s = self.of(k["scale"])
                if n == "Normal":
                    return -(u * u) / (2 * s * s) - self.log(s) - \
                        self.num(Fraction(1, 2)) * self.atom(("log2pi",))
                return -self.abs(u) / s - self.log(2 * s)
            if n == "MultivariateNormal" and "expanded" not in k:
                u = self.of(x) - self.of(k["loc"])
                ax = self.axset(v)
                s = self.isotropic(k["scale_tril"])
                d = self.S.shape(k["loc"])
                if s is not None and d:
                    return self.sum(-(u * u) / (2 * s * s) - self.log(
                        s) - self.num(Fraction(1, 2)) * self.atom(
                            ("log2pi",)), [d[-1]])
                return self.atom(("mvn_logp", self.signless(u).key(),
                                  self.kkey(k["scale_tril"])),
                                 frozenset(ax) if ax is not None
                                 else self.axes(u), None, self.unk(u))
        return self.generic(v)

    def n_umod(self, v, kw):
        args = []
        un = False
        axes = frozenset()
        for a in v.args:
            args.append(self.kkey(a))
            if isinstance(a, (App, Sym, Ref, Ite)):
                un = un or self.unk(self.of(a))
        x = v.args[-1]
        P = self.of(x)
        vis = self.axset(v)
        axes = frozenset(vis) if vis is not None else self.axes(P)
        axes |= self.hidden(v)
        k = tuple((a, self.kkey(b)) for a, b in v.kw)
        if self.misaligned(v):
            k += (("order", tuple(
                tuple(map(tuple, self.dims(a) or ())) for a in v.args[1:])),)
        return self.atom(("umod", tuple(args), k), axes, None, un)

    def misaligned(self, v):
        """whether the samples of the arguments come in different orders"""
        rows = [d[:-1] for a in v.args[1:] if not (
            isinstance(a, App) and a.op == "par")
            for d in [self.dims(a)] if d]
        rows = [[x for f in r for x in f] for r in rows]
        return any(sorted(map(str, r)) == sorted(map(str, rows[0]))
                   and r != rows[0] for r in rows[1:])

    def n_grad(self, v, kw):
        L, x = v.args
        P = self.of(L)
        X = self.of(x)
        # the summands over sample axes are independent of one another
        s = self.single(P)
        vis = self.axset(v)
        return self.atom(("grad", P.key(), X.key()), frozenset(
            vis) | self.hidden(v) if vis is not None else self.axes(X),
            None, self.unk(P) or self.unk(X))

    def n_where(self, v, kw):
        c, a, b = v.args
        A, B = self.of(a), self.of(b)
        if self.equal(A, B):
            return A
        cs = self.picked(c)
        if isinstance(cs, App) and cs.op in ("lt", "le"):
            lo, hi = self.of(cs.args[0]), self.of(cs.args[1])
            if (self.equal(lo, B) and self.equal(hi, A)):
                return self.maxof([A, B])
            if (self.equal(lo, A) and self.equal(hi, B)):
                return self.minof([A, B])
        d = self.known(cs)
        if d is not None:
            return A if d else B
        if self.axset(c) == [] and not self.hidden(v):
            return A if self.truth(cs) else B
        return self.generic(v)

    def picked(self, c):
        """condition with its own cases resolved"""
        c = self.S.strip(c)
        while isinstance(c, Ite):
            c = self.S.strip(c.a if self.truth(c.c) else c.b)
        return c

    def n_setitem(self, v, kw):
        base, i, val = v.args[:3]
        c = self.picked(i)
        if len(v.args) == 3 and isinstance(c, App) and c.op in (
                "lt", "le", "eq", "not", "logical_not", "invert") \
                and self.dims(c) is not None and self.dims(c) == self.dims(
                    base) and self.axset(val) == []:
            return self.of(App("where", (c, val, base)))
        return self.generic(v, unk=True)

    def indicator(self, v, kw):
        """truth values as numbers"""
        d = self.known(v)
        if d is None and self.axset(v) == [] and not self.hidden(v) and (
                v.op != "eq" or all(self.axset(a) == [] for a in v.args)):
            d = self.truth(v)
        return self.generic(v) if d is None else self.num(int(d))

    n_lt = n_le = n_eq = n_all = n_any = indicator

    def n_count_nonzero(self, v, kw):
        z = App("eq", (v.args[0], Const(0)))
        d = self.known(z)
        if d is None:
            return self.generic(v, unk=True)
        if d:
            return self.zero()
        return self.red(v, kw, lambda P, A: self.sum(self.num(1), A))

    def known(self, c):
        """True/False when all elements of a comparison have this value"""
        if isinstance(c, Const):
            return bool(c.v)
        if not isinstance(c, App):
            return None
        if c.op in ("not", "logical_not", "invert", "truth", "all", "any"):
            d = self.known(self.S.strip(c.args[0]))
            return d if d is None or c.op in ("truth", "all", "any") \
                else not d
        if c.op in ("lt", "le", "eq"):
            for a in c.args:
                if not isinstance(a, (Const, App, Sym, Ref, Ite)) or \
                        isinstance(a, Const) and not isinstance(
                            a.v, (int, float)):
                    return None
                if isinstance(a, Ref) and self.S.obj(a).kind != "param":
                    return None
            return self.sure(c.op, self.of(c.args[0]) - self.of(c.args[1]))
        return None

    def sure(self, op, P):
        k = P.const()
        if k is not None:
            return k < 0 if op == "lt" else k <= 0 if op == "le" else k == 0
        if self.positive(P):
            return False
        if self.positive(-P):
            return op != "eq"
        return None

    def n_sort(self, v, kw):
        return self.generic(v)

    def n_cat(self, v, kw):
        t = v.args[0]
        if isinstance(t, Tup) and len(t.items) == 1 and not (
                isinstance(t.items[0], App) and t.items[0].op == "each"):
            return self.of(t.items[0])
        if isinstance(t, Tup) and t.items and not any(isinstance(
                x, App) and x.op == "each" for x in t.items):
            dv = self.dims(v)
            i = kw.get("dim", Const(0))
            ps = [self.dims(x) for x in t.items]
            if dv is not None and None not in ps and isinstance(i, Const) \
                    and -len(dv) <= i.v < len(dv) and len(dv[i.v]) == 1 \
                    and all(len(p) == len(dv) for p in ps):
                un = False
                parts = []
                for x, p in zip(t.items, ps):
                    P = self.of(x)
                    un = un or self.unk(P)
                    parts.append((P.key(), frozenset(p[i.v])))
                return self.atom(("cat", dv[i.v][0], tuple(parts)),
                                 frozenset(y for fs in dv for y in fs),
                                 None, un)
        return self.generic(v)

    def n_listat(self, v, kw):
        e = v.args[0]
        if isinstance(e, App) and e.op == "each" and isinstance(
                e.args[1], Ref) and self.S.is_cvx(e.args[1]):
            # one of the objects created by a loop
            return self.atom(("fn", "listat", (("r", e.args[1]), self.kkey(
                v.args[1])), ()), frozenset(self.axset(v) or ()))
        return self.generic(v)

    def n_cvxval(self, v, kw):
        a = v.args[0]
        if isinstance(a, App) and a.op == "getitem":
            pass
        return self.cvxval(self.of(a))

    def cvxval(self, P):
        """optimal value of an expression: push to the variables"""
        out = self.zero()
        for m, c in P.t.items():
            t = self.num(c)
            for i, e in m:
                t = t * self.power(self.atom(
                    ("cvxval", i), self.atoms[i][1]), e)
            out = out + t
        return out

    # booleans as numbers
    def n_truth(self, v, kw):
        return self.generic(v)

    # ------------------------------------------------------------ conditions
    def truth(self, c):
        if isinstance(c, Const):
            return bool(c.v)
        if isinstance(c, Ite):
            return self.truth(c.a if self.truth(c.c) else c.b)
        if isinstance(c, App):
            if c.op == "not":
                return not self.truth(c.args[0])
            if c.op == "truth":
                inner = c.args[0]
                if isinstance(inner, (Ite,)) or (isinstance(
                        inner, App) and inner.op in (
                            "lt", "le", "eq", "any", "all", "isnan",
                            "bitor", "bitand", "logical_not")):
                    return self.truth(inner)
        try:
            d = self.S.decide(c)
        except Exception:
            d = None
        if d is not None:
            return d
        if isinstance(c, App):
            if c.op in ("lt", "le"):
                a, b = c.args
                P = self.of(a) - self.of(b)
                k = P.const()
                if k is not None:
                    return k < 0 if c.op == "lt" else k <= 0
                if self.positive(P) or self.positive(-P):
                    return not self.positive(P)
                if self.unk(P) or has_unknown(self, P):
                    self.guessed = True
                if c.op == "lt":
                    return self.ask(("neg", self.scale(P).key()))
                return not self.ask(("neg", self.scale(-P).key()))
            if c.op == "eq":
                a, b = c.args
                P = self.of(a) - self.of(b)
                k = P.const()
                if k is not None:
                    return k == 0
                if self.positive(P) or self.positive(-P):
                    return False
                if self.unk(P) or has_unknown(self, P):
                    self.guessed = True
                return self.ask(("zero", self.signless(
                    self.scale(P)).key()))
            if c.op in ("any", "all"):
                return self.quant(c.op, self.S.strip(c.args[0]))
            if c.op in ("isnan", "isinf", "isfinite", "logical_not",
                        "bitor", "bitand", "logical_and", "logical_or"):
                return self.quant("any", c)
        return self.ask(("cond", self.kkey(c)))

    def scale(self, P):
        """divide by a positive number"""
        lead = abs(P.t[min(P.t)])
        return Poly(self, {m: c / lead for m, c in P.t.items()})

    def quant(self, q, x):
        """truth of any(x) / all(x)"""
        if isinstance(x, App):
            if x.op in ("logical_not", "not", "invert"):
                return not self.quant("all" if q == "any" else "any",
                                      self.S.strip(x.args[0]))
            if x.op in ("bitor", "logical_or") and q == "any":
                return self.quant(q, self.S.strip(x.args[0])) or \
                    self.quant(q, self.S.strip(x.args[1]))
            if x.op in ("bitand", "logical_and") and q == "all":
                return self.quant(q, self.S.strip(x.args[0])) and \
                    self.quant(q, self.S.strip(x.args[1]))
            if x.op == "isfinite":
                if q == "all":
                    return not (self.quant("any", App("isnan", x.args))
                                or self.quant("any", App("isinf", x.args)))
            if x.op in ("isnan", "isinf"):
                P = self.of(x.args[0])
                if P.const() is not None:
                    return False
                if P.t and q == "any":
                    return self.ask((q, x.op, self.signless(
                        self.scale(P)).key()))
            if x.op in ("any", "all") and x.op == q:
                return self.quant(q, self.S.strip(x.args[0]))
            d = self.known(x)
            if d is not None:
                return d
            if x.op in ("lt", "le", "eq"):
                cat = self.mergecat(self.of(x.args[0]) - self.of(x.args[1]))
                if cat is not None:
                    ds = [self.sure(x.op, P) for P, _ in cat[1]]
                    if (q == "any") in ds:
                        return q == "any"
                    if None not in ds:
                        return q != "any"
        if isinstance(x, Const):
            return bool(x.v)
        if q == "all":
            # all(x) = not any(not x)
            return not self.ask(("any", "not", self.kkey(x)))
        return self.ask(("any", self.kkey(x)))

    #: a condition with an unmodelled value was split on
    guessed = False

    def ask(self, key):
        key = self.describe(key)
        if key in self.env:
            return self.env[key]
        raise NeedSplit(key)

    def describe(self, k):
        """condition key stable across Norm instances"""
        if isinstance(k, tuple):
            return tuple(self.describe(x) for x in k)
        return k

    # ---------------------------------------------------------------- show
    def show(self, P, depth=0):
        if not P.t:
            return "0"
        if depth > 6:
            return "…"
        out = []
        for m, c in sorted(P.t.items(), key=lambda x: str(x[0]))[:12]:
            fs = []
            if c != 1 or not m:
                fs.append(str(c) if c.denominator < 10**6 else
                          "%.6g" % float(c))
            for i, e in m:
                s = self.show_atom(i, depth)
                fs.append(s if e == 1 else "%s^%s" % (s, e))
            out.append("*".join(fs))
        if len(P.t) > 12:
            out.append("…")
        return "(" + " + ".join(out) + ")" if len(out) > 1 else out[0]

    def show_key(self, k, depth):
        return self.show(self.unkey(k), depth + 1)

    def show_any(self, k, depth):
        if isinstance(k, tuple) and k and k[0] == "p":
            return self.show_key(k[1], depth)
        if isinstance(k, tuple) and k and k[0] == "c":
            return self.show_key(k[1], depth) if isinstance(
                k[1], tuple) else str(k[1])
        if isinstance(k, tuple) and k and k[0] == "t":
            return "[" + ", ".join(self.show_any(x, depth)
                                   for x in k[1:]) + "]"
        if isinstance(k, V):
            return show(k)
        return str(k)[:40]

    def show_atom(self, i, depth=0):
        k = self.atoms[i][0]
        if k[0] == "leaf":
            return self.S.name_of(k[1]) if hasattr(
                self.S, "name_of") else show(k[1])
        if k[0] in ("poly", "exp", "log", "abs"):
            return "%s(%s)" % (k[0], self.show_key(k[1], depth))
        if k[0] == "sum":
            return "sum[%s](%s)" % (
                ",".join(sorted(show(a) for a in k[1])),
                self.show(Poly(self, {k[2]: Fraction(1)}), depth + 1))
        if k[0] == "max":
            return "max(%s)" % ", ".join(
                self.show_key(x, depth) for x in k[1])
        if k[0] == "grad":
            return "grad(%s; %s)" % (self.show_key(k[1], depth),
                                     self.show_key(k[2], depth))
        if k[0] == "rmax":
            return "max[%s](%s)" % (",".join(show(a) for a in k[1]),
                                    self.show_key(k[2], depth))
        if k[0] in ("fn", "umod", "outer"):
            args = k[2] if k[0] in ("fn", "outer") else k[1]
            nm = k[1] if k[0] == "fn" else "outer-" + k[1] \
                if k[0] == "outer" else "module"
            return "%s(%s)" % (nm, ", ".join(self.show_any(
                x, depth + 1) for x in args))
        if k[0] == "noise":
            return "noise#%s" % k[2]
        if k[0] == "at":
            return "%s[%s]" % (self.show_atom(k[1], depth + 1), ", ".join(
                ":".join(self.show_any(z, depth) for z in s[1:])
                for a, s in sorted(k[2], key=str)))
        if k[0] == "cvxval":
            return "value(%s)" % self.show_atom(k[1], depth + 1)
        return "%s%s" % (k[0], "" if len(k) == 1 else "(…)")


MATCH, MISMATCH, UNKNOWN = "match", "mismatch", "unknown"


class Verdict:
    def __init__(self, kind, detail="", cases=0):
        self.kind, self.detail, self.cases = kind, detail, cases

    def __bool__(self):
        return self.kind == MATCH

    def __repr__(self):
        return "%s %s" % (self.kind, self.detail)


def cases(S, fn, limit=512):
    """Run fn(N) under every consistent assignment of the gate conditions it
    asks about."""
    N = Norm(S)
    todo = [{}]
    n = 0
    while todo:
        env = todo.pop()
        N.env = env
        N.memo = {}
        try:
            yield N, fn(N)
            n += 1
        except NeedSplit as e:
            if len(env) > 14 or n + len(todo) > limit:
                raise TooBig()
            for b in (True, False):
                e2 = dict(env)
                e2[e.key] = b
                todo.append(e2)


def compare(S, term, spec, where=None):
    """Compare a term with spec(N) -> Poly under every gate assignment.
    where(N) -> bool restricts the cases considered."""
    n = 0

    def both(N):
        if where is not None and not where(N):
            return None
        b = N.lift(spec(N) if callable(spec) else spec)
        known = len(N.atoms)
        a = N.of(term) if isinstance(term, V) else term(N)
        # library functions without a model could equal anything
        new = any(k[0] == "fn" and isinstance(k[1], str)
                  and k[1].startswith("f_")
                  for k, *_ in N.atoms[known:])
        return a, b, new
    try:
        for N, r in cases(S, both):
            if r is None:
                continue
            a, b, new = r
            n += 1
            if N.equal(a, b):
                continue
            d = "got %s, expected %s" % differ(N.show(a), N.show(b))
            if new or N.guessed or N.unk(a) or has_unknown(N, a):
                return Verdict(UNKNOWN, d, n)
            return Verdict(MISMATCH, d, n)
    except TooBig:
        return Verdict(UNKNOWN, "too many cases", n)
    if n == 0:
        return Verdict(UNKNOWN, "no case", 0)
    return Verdict(MATCH, "", n)


def differ(x, y, n=500):
    """both texts without their common start"""
    i = 0
    while i < min(len(x), len(y)) and x[i] == y[i]:
        i += 1
    i = max(0, i - 60)
    dots = "…" if i else ""
    return dots + x[i:i + n], dots + y[i:i + n]


def has_unknown(N, P):
    return N.unk(P)
