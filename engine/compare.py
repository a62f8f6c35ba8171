"""Equality of values: congruence of normal forms with case distinction on gates."""
from .terms import *

LITERAL = ("i", "f", "true", "false", "bytes")


def gates(t, out=None, seen=None):
    """atoms of every gate at or below t that do not mention a bound variable"""
    if out is None:
        out, seen = [], set()
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(x)
            continue
        if not isinstance(x, T) or x in seen or not has_ite(x):
            continue
        seen.add(x)
        if x.op == "ite":
            a = x.args[0]
            if not free_bound(a) and a not in out:
                out.append(a)
        stack.extend(x.args)
    return out


_fb = {}


def free_bound(t):
    """heights of the bound variables of t whose binder is outside t"""
    r = _fb.get(t)
    if r is None:
        if t.op in ("bv", "recvar"):
            r = frozenset([t.args[0]])
        else:
            r = frozenset().union(*[_fba(a) for a in t.args])
            if t.op == "lam":
                r -= {height(t.args[0])}
        _fb[t] = r
    return r


def _fba(a):
    if isinstance(a, T):
        return free_bound(a)
    if isinstance(a, tuple):
        return frozenset().union(*[_fba(x) for x in a])
    return frozenset()


_n = [0]


def fresh(tag="c"):
    _n[0] += 1
    return mk("tvar", "#cmp%s%d" % (tag, _n[0]))


class Cmp:
    def __init__(self, rules=(), budget=4000):
        self.budget = budget
        self.diff = None
        self.rules = rules
        self.memo = {}

    def same(self, a, b, facts=()):
        if a is b:
            return True
        for at, v in facts:
            a, b = under(a, at, v), under(b, at, v)
        if a is b:
            return True
        for d, k in remaining(facts):
            a, b = subst(a, {d: I(k)}), subst(b, {d: I(k)})
        if a is b:
            return True
        self.budget -= 1
        if self.budget < 0:
            self.diff = (a, b)
            return False
        k = (a, b, facts)
        if k in self.memo:
            return self.memo[k]
        r = self._same(a, b, facts)
        self.memo[k] = r
        return r

    def _same(self, a, b, facts):
        # congruence, without descending into gated values
        if a.op == b.op and len(a.args) == len(b.args) and a.op != "ite":
            if a.op == "lam":
                return self.bodies(a, b, facts)
            ok = True
            for j, (x, y) in enumerate(zip(a.args, b.args)):
                if a.op in BINDERS and j and isinstance(x, T) and isinstance(y, T) and x.op == y.op == "lam":
                    good = self.bodies(x, y, facts, a.args[j - 1])
                else:
                    good = self.arg(x, y, facts)
                if not good:
                    ok = False
                    break
            if ok:
                return True
            if a.op in LITERAL or a.op in ("sym",):
                return False
        gs = gates(a)
        gates(b, gs, set())
        gs = [g for g in gs if not any(f is g for f, _ in facts)]
        if gs:
            g = min(gs, key=lambda x: x.id)
            for v in (True, False):
                if any(decide(g, f, fv) == (not v) for f, fv in facts):
                    continue
                if not self.same(under(a, g, v), under(b, g, v), facts + ((g, v),)):
                    return False
            return True
        if self.diff is None:
            self.diff = (a, b)
        return False

    def bodies(self, a, b, facts, n=None):
        """equality of what is done in one step (of n)"""
        ha, hb = height(a.args[0]), height(b.args[0])
        v = fresh()
        ma, mb = {bv(ha): v}, {bv(hb): v}
        for h, m, l in ((ha, ma, a), (hb, mb, b)):
            for x in subterms_ids(l.args[0]):
                if x.op == "recvar" and x.args[0] == h:
                    m[x] = mk("tvar", "#cmprec", v.args[0], x.args[1])
        if isinstance(n, T) and n.op not in ("ite", "i", "lam"):
            at = lt("u64", v, n)
            if at.op == "ite":
                facts = facts + ((at.args[0], at.args[1] is TRUE),)
        saved = self.diff
        if self.same(subst(a.args[0], ma), subst(b.args[0], mb), facts):
            self.diff = saved
            return True
        return False

    def arg(self, x, y, facts):
        if isinstance(x, T) and isinstance(y, T):
            saved = self.diff
            r = self.same(x, y, facts)
            if r:
                self.diff = saved
            return r
        if isinstance(x, tuple) and isinstance(y, tuple):
            return len(x) == len(y) and all(self.arg(p, q, facts) for p, q in zip(x, y))
        return x == y


def remaining(facts):
    """enum values of which all variants but one are excluded"""
    ex = {}
    for at, v in facts:
        if not v and at.op == "eq" and at.args[0].op == "discr" and at.args[1].op == "i":
            ex.setdefault(at.args[0], set()).add(ival(at.args[1]))
    out = []
    for d, ks in ex.items():
        left = [k for k in range(d.args[1]) if k not in ks]
        if len(left) == 1:
            out.append((d, left[0]))
    return out


def under(t, atom, val):
    r = deep_cof(t, atom, val)
    if val and atom.op == "eq":
        a, b = atom.args
        if b.op == "i" and a.op in ("sym", "len", "discr", "fld", "sel", "le"):
            r = subst(r, {a: b})
        elif a.op in ("sym", "len") and b.op == a.op:
            r = subst(r, {b: a})
    return r


def same(a, b, facts=()):
    return Cmp().same(a, b, tuple(facts))


def differ(a, b, facts=()):
    """None when equal, else the first pair of parts that differ"""
    c = Cmp()
    if c.same(a, b, tuple(facts)):
        return None
    return c.diff or (a, b)


def holds(c, facts=()):
    """is the condition true whatever the inputs"""
    return differ(as_bool(c), TRUE, facts) is None


def entails(a, b):
    return holds(ite(as_bool(a), as_bool(b), TRUE))
