"""Shared parts of the rules: summaries, roles of fields, obligations."""
import os
import sys

sys.setrecursionlimit(200000)
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from engine.terms import *
from engine import terms as tm
from engine.mir import Program
from engine.flow import *
from engine.inputs import *
from engine.compare import same, differ, holds, entails, under, gates

RULES = {}
EARLY = {}


def rule(*ids):
    def d(f):
        for i in ids:
            RULES.setdefault(i, []).append(f)
        return f
    return d


def early(*ids):
    """a rule decided by the compiler alone, before anything is analysed"""
    def d(f):
        for i in ids:
            EARLY.setdefault(i, []).append(f)
        return f
    return d


class Missing(Exception):
    """an anchor of the rule is not in the program: the check cannot decide"""


def is_variant(v, k, n=2):
    """condition under which an enum value is variant k"""
    def f(x):
        if x.op == "agg" and isinstance(x.args[0], int):
            return B(x.args[0] == k)
        if x is UNDEF:
            return FALSE
        return eq(mk("discr", x, n), I(k))
    return lift(f, v)


def payload(v, k, i=0):
    """field i of variant k (only meaningful where the value is that variant)"""
    def f(x):
        if x.op == "agg" and isinstance(x.args[0], int):
            if x.args[0] == k and len(x.args) > i + 1:
                return x.args[i + 1]
            return UNDEF
        return mk("fld", x, k, i)
    return lift(f, v)


def ok(v):
    return is_variant(v, 0)


def err(v):
    return is_variant(v, 1)


def short_term(t, n=300):
    s = pp(t).replace("\n   ", "; ")
    return s if len(s) <= n else s[:n] + " ..."


def leafmap(P, ty, v, prefix=""):
    """named leaves of a structure value"""
    t = P.ty(ty)
    out = {}
    if t["k"] == "adt" and t["kind"] == "Struct" and not t["name"].split("::")[-1] in ("Vec", "String") and t["name"].startswith(("poppy", "harness")):
        fs = t["variants"][0][2]
        for i, (n, ft) in enumerate(fs):
            out.update(leafmap(P, ft, field(v, "s", i), prefix + ("." if prefix else "") + n))
        return out
    if t["k"] == "tuple" and t["ts"]:
        for i, ft in enumerate(t["ts"]):
            out.update(leafmap(P, ft, field(v, "s", i), prefix + "." + str(i)))
        return out
    out[prefix] = v
    return out


class Analysis:
    """one program and the summaries of its entry points"""

    def __init__(self, dumpdir, which="harness.lib.json"):
        self.P = Program(os.path.join(dumpdir, which))
        self.sums = {}
        self.fns = set()
        self.calls = 0
        self.unmodelled = {}

    def s(self, name, args=None, key=None, **kw):
        k = (name, key)
        r = self.sums.get(k)
        if r is None:
            f = self.P.root(name)
            if f is None:
                raise Missing("entry point %s not in the program" % name)
            r = summarise(self.P, f, args=args, **kw)
            self.sums[k] = r
            self.fns.update(r.analysed)
            self.calls += r.ncalls
            for u, c in r.unmodelled.items():
                self.unmodelled[u] = self.unmodelled.get(u, 0) + c
        return r

    def spec(self, name, **vals):
        """result and post-state of a reference function on the given values"""
        def at(v):
            def f(P, st, ty, nm):
                t = P.ty(ty)
                if t["k"] == "ref":
                    st.mem["A:" + nm] = v
                    return ref("A:" + nm)
                return v
            return f
        return self.s(name, args={k: at(v) for k, v in vals.items()}, key=tuple(sorted((k, v.id) for k, v in vals.items())))

    def spec_ret(self, name, **vals):
        return self.spec(name, **vals).ret

    def spec_post(self, name, arg, **vals):
        return self.spec(name, **vals).post[arg]

    def pointee(self, s, nm):
        """type of the value behind argument nm"""
        body = s.fn.body
        names = {n: l for n, l in body.names}
        ty = body.locals[names[nm]]
        t = self.P.ty(ty)
        return t["t"] if t["k"] == "ref" else ty

    def pre(self, s, nm):
        return leafmap(self.P, self.pointee(s, nm), s.pre[nm])

    def post(self, s, nm):
        return leafmap(self.P, self.pointee(s, nm), s.post[nm])

    def okty(self, s):
        """type inside Ok of a Result-returning entry point"""
        t = self.P.ty(s.retty)
        return t["variants"][0][2][0][1]

    def okfields(self, s):
        return leafmap(self.P, self.okty(s), payload(s.ret, 0))


class Ob:
    def __init__(self, name, okay, where, detail):
        self.name, self.ok, self.where, self.detail = name, okay, where, detail


class Ctx:
    """obligations of one property"""

    def __init__(self, prop, dumpdir):
        self.prop = prop
        self.dir = dumpdir
        self.obs = []
        self._a = {}
        self.samples = []
        self.floors = []

    def an(self, which):
        if which not in self._a:
            self._a[which] = Analysis(self.dir, which)
        return self._a[which]

    @property
    def lib(self):
        return self.an("harness.lib.json")

    @property
    def cli(self):
        return self.an("poppy-filters.bin.json")

    @property
    def py(self):
        return self.an("poppy-py.lib.json")

    # ---- obligations ---------------------------------------------------
    def ob(self, name, okay, where=None, detail=""):
        self.obs.append(Ob(name, bool(okay), where or "?", detail if not okay else ""))
        if okay and len(self.samples) < 6 and detail:
            self.samples.append("%s: %s" % (name, detail))
        return bool(okay)

    def eq(self, name, a, b, s=None, facts=(), where=None):
        """a (from the code) equals b (required)"""
        where = where or self.loc(s)
        d = differ(a, b, facts)
        if d is None:
            return self.ob(name, True, where, short_term(a, 200))
        return self.ob(name, False, where, "code: %s | required: %s" % (short_term(d[0]), short_term(d[1])))

    def always(self, name, c, s=None, facts=(), where=None):
        where = where or self.loc(s)
        c = as_bool(c)
        for a, v in facts:
            c = under(c, a, v)
        if holds(c):
            return self.ob(name, True, where, "")
        return self.ob(name, False, where, "not implied: %s" % short_term(c))

    def implies(self, name, a, b, s=None, facts=(), where=None):
        return self.always(name, ite(as_bool(a), as_bool(b), TRUE), s, facts, where)

    def loc(self, s):
        """source position of the library function behind an entry point"""
        if s is None:
            return "?"
        if isinstance(s, str):
            return s
        best = None
        for fid in s.analysed:
            f = s.P.fns[fid]
            if f.krate in ("poppy_filters", "poppy", "poppy_py") and f.span:
                n = s.fn.path.split("::")[-1]
                tail = n.split("_", 1)[1] if "_" in n else n
                last = f.path.split("::")[-1]
                score = (last == tail, last in tail, 0)
                if best is None or score > best[0]:
                    best = (score, f)
        f = best[1] if best else s.fn
        return "%s (%s)" % (f.where(), f.path)

    def floor(self, what, got, least):
        if got < least:
            raise Missing("%s: %d found, at least %d expected" % (what, got, least))
        self.floors.append("%s=%d" % (what, got))
