"""Clause bookkeeping, evidence and exit codes shared by all checks."""
import contextlib
import json
import os
import time
import traceback

from .values import V, App, Const, Cls, Fn, Bound, Ref, Ext, show
from .interp import Unsupported, AbsRaise
from .session import Session
from .norm import compare, MATCH, MISMATCH, UNKNOWN, TooBig, NeedSplit

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class AnchorMissing(Exception):
    pass


class Undecided(Exception):
    pass


class Case:
    """One clause instance: engine failures make it undecided, they never
    count as a pass or as a violation."""

    def __init__(self, K, name):
        self.K, self.name = K, name

    def __enter__(self):
        self.K.current = self.name
        self.n0 = self.K.nrec
        self.K.first = len(self.K.sessions)
        return self

    def __exit__(self, et, ev, tb):
        K = self.K
        if et is None:
            return False
        if issubclass(et, AnchorMissing):
            return False
        if issubclass(et, RaisedAlways):
            l = ev.leaves[0]
            K.record("returns", self.name, "violated",
                     "the call was expected to return but " + str(ev),
                     K.loc(l.loc))
            return True
        if issubclass(et, Undecided):
            K.undecided.append((self.name, str(ev)))
            return True
        if issubclass(et, (Unsupported, AbsRaise, RecursionError, TooBig,
                           NeedSplit, KeyError, AttributeError, TypeError,
                           IndexError, ValueError, AssertionError)):
            K.undecided.append((self.name, "%s: %s" % (et.__name__, ev)))
            if os.environ.get("SKAN_DEBUG"):
                traceback.print_exception(et, ev, tb)
            return True
        return False


class Check:
    def __init__(self, pid, repo, known=None):
        self.pid, self.repo = pid, repo
        self.known = known or {}
        self.sessions = []
        self.clauses = []       # (rule, construct, outcome, note)
        self.undecided = []
        self.violations = []
        self.rules = {}
        self.nrec = 0
        self.ncases = 0
        self.current = None
        self.first = 0          # index of the first session of the case
        self.sites = 0
        self.notes = []

    # ------------------------------------------------------------- sessions
    sizes = {}

    @contextlib.contextmanager
    def sized(self, **sizes):
        """sessions in which the named sizes have the given values"""
        old, self.sizes = self.sizes, sizes
        try:
            yield
        finally:
            self.sizes = old

    def session(self):
        S = Session(self.repo)
        S.sizes = self.sizes
        self.sessions.append(S)
        return S

    def case(self, name):
        return Case(self, name)

    def run(self, S, fn):
        """Abstract run of fn(S): returns its value.  When every path ends in
        an explicit raise statement the caller gets Raised."""
        v, leaves = S.run(lambda: fn(S))
        S.raised = leaves
        return v

    def ok(self, S, fn, what=None):
        """value of a run that is expected to return"""
        v, leaves = S.run(lambda: fn(S))
        S.raised = leaves
        if v is None:
            ls = [l for l in leaves]
            if ls and all(l.explicit for l in ls):
                raise RaisedAlways(S, ls)
            raise Undecided("no return path: %s" % ", ".join(
                "%s at %s:%s" % (S.exc_name(l), l.loc[0], l.loc[1])
                for l in ls[:3]))
        return v

    def total(self, S, fn, rule="returns", construct=None):
        """value of a run expected to return on all paths: a raise statement
        reached on some of them is a violation"""
        v = self.ok(S, fn)
        ls = [l for l in S.raised if l.explicit]
        self.require(rule, construct or self.current, not ls,
                     "some paths end in %s" % (
                         S.exc_name(ls[0]) if ls else ""),
                     self.loc(ls[0].loc) if ls else "")
        return v

    def get(self, S, path):
        v, l = S.run(lambda: S.get(path))
        if v is None:
            raise AnchorMissing(path)
        return v

    # -------------------------------------------------------------- verdicts
    def count(self, n=1):
        self.sites += n

    def rule(self, name, text):
        self.rules[name] = text

    def vague(self, ev=None):
        """a test on something not understood, in the sessions of the case
        (before the event)"""
        for S in self.sessions[self.first:] or self.sessions[-1:]:
            if S.vague is not None and not (
                    ev is not None and ev in S.events
                    and ev.n <= S.vague[2]):
                return S.vague[:2]
        return None

    def record(self, rule, construct, outcome, msg="", where="", ev=None):
        self.nrec += 1
        if self.sizes and "%s|%s" % (rule, construct) not in self.known:
            construct += " [%s]" % ", ".join(
                "%s=%d" % kv for kv in sorted(self.sizes.items()))
        if outcome == "violated" and self.vague(ev):
            l, op = self.vague(ev)
            outcome = "undecided"
            msg = "test on a value not understood (%s) at %s; %s" % (
                op, self.loc(l), msg)
        self.clauses.append((rule, construct, outcome, msg))
        if outcome == "violated":
            self.violations.append(dict(rule=rule, construct=construct,
                                        message=msg, where=where))
        elif outcome == "undecided":
            self.undecided.append(("%s %s" % (rule, construct), msg))

    def require(self, rule, construct, ok, msg="", where="", ev=None):
        self.record(rule, construct, "undecided" if ok is None else
                    "held" if ok else "violated", msg, where, ev)
        return ok

    def value(self, rule, construct, S, term, spec, where="", cond=None,
              shape=None):
        """term must have the normal form of spec(N)"""
        v = compare(S, term, spec, where=cond)
        self.ncases += v.cases
        if v.kind == MATCH and shape is not None and isinstance(term, V):
            s = S.shape(term)
            if s is not None and tuple(s) != tuple(shape):
                self.record(rule, construct, "violated",
                            "shape is (%s), expected (%s)" % (
                                ", ".join(map(show, s)),
                                ", ".join(map(show, shape))), where)
                return False
        if v.kind == MATCH:
            self.record(rule, construct, "held")
            return True
        if v.kind == MISMATCH:
            self.record(rule, construct, "violated", v.detail, where)
            return False
        self.record(rule, construct, "undecided", v.detail)
        return None

    def site(self, S, f):
        """file:line of a function, method or class value"""
        if isinstance(f, Bound):
            f = f.fn
        if isinstance(f, Fn):
            r = S.fns[f.fid]
            return "%s:%d (%s)" % (self.modfile(r.module),
                                   getattr(r.node, "lineno", 0),
                                   r.qual or r.name)
        if isinstance(f, Cls):
            return f.name
        return ""

    def method_site(self, S, clspath, *names):
        c = S.get(clspath) if isinstance(clspath, str) else clspath
        for n in names:
            f, _ = S.class_lookup(c, n)
            if f is not None:
                return self.site(S, f)
        return str(clspath)

    def modfile(self, m):
        return m.replace(".", "/") + ".py"

    def loc(self, l):
        return "%s:%s (%s)" % (self.modfile(l[0]), l[1], l[2])

    # -------------------------------------------------------------- evidence
    def finish(self, tier, seed, t0, explanation, assumptions=()):
        fns = set()
        stm = 0
        ops = {}
        for S in self.sessions:
            fns.update("%s:%s" % (m, q) for m, q in S.visited_fns)
            stm += S.visited_stmts
            for k, n in S.opaque.items():
                ops[k] = ops.get(k, 0) + n
        held = sum(1 for c in self.clauses if c[2] == "held")
        new, kf = [], []
        for v in self.violations:
            k = "%s|%s" % (v["rule"], v["construct"])
            v["key"] = k
            (kf if k in self.known else new).append(v)
        decided = held + len(self.violations)
        cov = {
            "explanation": explanation,
            "abstract_runs": len(self.sessions),
            "functions_analysed": len(fns),
            "functions": sorted(fns),
            "statements_interpreted": stm,
            "obligations": len(self.clauses),
            "obligations_held": held,
            "obligations_violated": len(self.violations),
            "obligations_undecided": len(self.undecided),
            "gate_cases_compared": self.ncases,
            "sites_examined": self.sites,
            "rules": self.rules,
            "samples": [list(c[:3]) for c in self.clauses[:40]],
            "undecided": [list(u) for u in self.undecided[:40]],
            "unmodelled_calls": ops,
            "known_findings": sorted({v["key"] for v in kf}),
        }
        d = {"property": self.pid, "tier": tier, "seed": seed,
             "level": "other", "coverage": cov,
             "wall_s": round(time.time() - t0, 3),
             "assumptions": list(assumptions),
             "violations": len(new)}
        ed = os.environ.get("VERIF_EVIDENCE_DIR") or os.path.join(
            HERE, "evidence")
        os.makedirs(ed, exist_ok=True)
        with open(os.path.join(ed, self.pid + ".json"), "w") as f:
            json.dump(d, f, indent=1, default=str)
        for v in {v["key"]: v for v in kf}.values():
            print("KNOWN-FINDING: property=%s %s" % (
                self.pid, self.known[v["key"]]))
        if new:
            rp = os.path.join(ed, "replay_%s.json" % self.pid)
            with open(rp, "w") as f:
                json.dump(new, f, indent=1, default=str)
            for v in new:
                print("  %s: rule %s violated for %s: %s" % (
                    v["where"] or "?", v["rule"], v["construct"],
                    v["message"]))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        if decided == 0:
            print("ERROR property=%s nothing could be decided: %s" % (
                self.pid, self.undecided[:3]))
            return 2
        print("OK property=%s held=%d undecided=%d known=%d functions=%d" % (
            self.pid, held, len(self.undecided), len(kf), len(fns)))
        for u in self.undecided[:6]:
            print("  undecided: %s: %s" % (u[0], str(u[1])[:200]))
        return 0


class RaisedAlways(Exception):
    def __init__(self, S, leaves):
        self.S, self.leaves = S, leaves

    def __str__(self):
        return "always raises %s" % ", ".join(
            "%s at %s:%s" % (self.S.exc_name(l), l.loc[0], l.loc[1])
            for l in self.leaves[:3])


def load_known(path, pid):
    out = {}
    if os.path.exists(path):
        for ln in open(path):
            ln = ln.strip()
            if ln.startswith("known: property=%s " % pid):
                rest = ln.split(" ", 2)[2]
                if rest.startswith("key="):
                    key, _, text = rest[4:].partition(" :: ")
                    out[key.strip()] = text.strip()
    return out
