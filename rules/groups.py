"""What a parallel program does as a whole: families of actions indexed by iteration ranges, without their order."""
from .base import *


class Unclear(Exception):
    """the value is not built in a recognised way"""


_k = [0]


def var(tag="#g"):
    _k[0] += 1
    return mk("tvar", tag, _k[0])


class Group:
    """content for every value of the binders (v below n) under a condition"""

    def __init__(self, binders, cond, content):
        self.binders, self.cond, self.content = list(binders), cond, content

    def map(self, f):
        return Group([(f(v), f(n)) for v, n in self.binders], as_bool(f(self.cond)), f(self.content))

    def sub(self, m):
        return self.map(lambda t: subst(t, m))

    def without(self, v):
        return Group([b for b in self.binders if b[0] is not v], self.cond, self.content)

    def terms(self):
        return [self.content, self.cond] + [n for _, n in self.binders]

    def uses(self, v):
        return any(v in subterms_ids(t) for t in self.terms())

    def __str__(self):
        return "%s for %s%s" % (short_term(self.content, 160), ", ".join("%s < %s" % (pp(v), short_term(n, 80)) for v, n in self.binders),
                                "" if self.cond is TRUE else " when " + short_term(self.cond, 120))


def once(g):
    """ranges of one value"""
    for v, n in g.binders:
        if n is I(1):
            return once(g.without(v).sub({v: I(0)}))
    return g


def chunked(g):
    """chunk number and position in the chunk: position in the whole"""
    for v, n in g.binders:
        if n.op != "cdiv":
            continue
        for u, m in g.binders:
            if m.op == "chunklen" and m.args[0] is n.args[0] and m.args[1] is n.args[1] and m.args[2] is v:
                j = var()
                rest = g.without(v).without(u).sub({u: lin("u64", 0, [(1, j), (-1, mul("u64", n.args[1], v))])})
                if not rest.uses(v) and not rest.uses(u):
                    rest.binders.insert(0, (j, n.args[0]))
                    return chunked(rest)
    return strided(g)


def strided(g):
    """every k-th element from each of the first k starts: position in the whole"""
    for v, n in g.binders:
        for u, m in g.binders:
            if u is v or v not in subterms_ids(m):
                continue
            whole = m.args[0] if m.op == "cdiv" and m.args[1] is n else None
            if whole is None:
                continue
            whole = lin("u64", 0, [(1, whole), (1, v)]) if whole.op == "lin" else whole.args[0] if whole.op == "ssub" and whole.args[1] is v else None
            if whole is None or v in subterms_ids(whole):
                continue
            j = var()
            rest = g.without(v).without(u).sub({v: lin("u64", 0, [(1, j), (-1, mul("u64", n, u))])})
            if not rest.uses(v) and not rest.uses(u):
                rest.binders.insert(0, (j, whole))
                return rest
    return g


def turned(g):
    """ranges walked backwards"""
    for v, n in g.binders:
        neg = sum(1 for t in g.terms() for x in subterms(t) if x.op == "lin" and dict((y, k) for k, y in x.args[2]).get(v) not in (None, 1))
        if not neg:
            continue
        w = var()
        h = g.without(v).sub({v: lin("u64", -1, [(1, n), (-1, w)])})
        h.binders.insert([b[0] for b in g.binders].index(v), (w, n))
        neg2 = sum(1 for t in h.terms() for x in subterms(t) if x.op == "lin" and dict((y, k) for k, y in x.args[2]).get(w) not in (None, 1))
        if neg2 < neg:
            return turned(h)
    return g


def order(g):
    """canonical names of the indices, in order of their appearance in the content"""
    seen = []

    def walk(t):
        if isinstance(t, tuple):
            for x in t:
                walk(x)
        elif isinstance(t, T):
            if t in vs and t not in seen:
                n = vs[t]
                seen.append(t)
                walk(n)
            for x in t.args:
                walk(x)
    vs = dict(g.binders)
    walk(g.content)
    for v, _ in g.binders:
        if v not in seen:
            seen.append(v)
    m = {v: mk("tvar", "#x", i) for i, v in enumerate(seen)}
    h = g.sub(m)
    h.binders.sort(key=lambda b: b[0].args[1])
    return h


def canon(g):
    return order(chunked(turned(once(g))))


def equal(a, b):
    return len(a.binders) == len(b.binders) and all(x[0] is y[0] and same(x[1], y[1]) for x, y in zip(a.binders, b.binders)) \
        and same(a.content, b.content) and same(a.cond, b.cond)


def joined(gs):
    """neighbouring parts of one family put together"""
    gs = list(gs)
    changed = True
    while changed:
        changed = False
        for a in gs:
            for i, (v, n) in enumerate(a.binders):
                for at, ext in ((n, None), (I(-1), 1), (lin("u64", -1, []), 1)):
                    p = order(once(a.without(v).sub({v: at})))
                    for b in gs:
                        if b is a or len(b.binders) != len(a.binders) - 1:
                            continue
                        if equal(p, order(once(b))):
                            m = lin("u64", 1, [(1, n)])
                            w = var()
                            h = a.without(v).sub({v: lin("u64", -1, [(1, w)]) if ext else w})
                            h.binders.insert(i, (w, m))
                            gs = [x for x in gs if x is not a and x is not b] + [h]
                            changed = True
                            break
                    if changed:
                        break
                if changed:
                    break
            if changed:
                break
    return gs


def restored(n, empty):
    """a number that is not zero, from one more than its predecessor"""
    if n.op == "lin" and n.args[1] == 1 and len(n.args[2]) == 1 and n.args[2][0][0] == 1 and n.args[2][0][1].op == "ssub":
        m, k = n.args[2][0][1].args
        if k is I(1) and empty(m) is FALSE:
            return m
    return n


def settled(gs, empty=lambda n: eq(n, I(0))):
    """canonical families; empty(n): the condition for a range of n to be empty"""
    out = []
    for g in joined(gs):
        g.binders = [(v, restored(n, empty)) for v, n in g.binders]
        for v, n in list(g.binders):
            if not g.without(v).uses(v) and empty(n) is FALSE:
                g = g.without(v)
        g = canon(g)
        if g.cond is FALSE or any(n is I(0) for _, n in g.binders):
            continue
        if not any(equal(g, h) for h in out):
            out.append(g)
    # repetitions add nothing
    return [g for g in out if not any(not g.without(v).uses(v) and any(equal(order(g.without(v)), h) for h in out) for v, _ in g.binders)]


# ---- the entries of a filter --------------------------------------------------------
INSERT = ("poppy_filters::BloomFilter::insert_bytes", "poppy_filters::BloomFilter::insert")
UNION = "poppy_filters::BloomFilter::union_merge"
HAS = ("poppy_filters::BloomFilter::contains_bytes", "poppy_filters::BloomFilter::contains")


def entries(t, env=None):
    """(filter it starts from, families of entries inserted, earlier states of loops it continues)"""
    env = env or {}
    if t in env:
        return env[t], [], {t}
    if t.op == "post" and t.args[0].op == "app" and t.args[1] == 0:
        a = t.args[0].args
        if a[0] in INSERT:
            b, gs, sf = entries(a[1], env)
            return b, gs + [Group([], TRUE, a[2])], sf
        if a[0] == UNION:
            b1, g1, s1 = entries(a[1], env)
            b2, g2, s2 = entries(a[2], env)
            if not same(b1, b2):
                raise Unclear("filters with different origins are merged: %s and %s" % (short_term(b1, 120), short_term(b2, 120)))
            return b1, g1 + g2, s1 | s2
    if t.op == "rec":
        return looped(t, 0, env)
    if t.op == "fld" and t.args[1] == "s" and t.args[0].op == "rec":
        return looped(t.args[0], t.args[2], env)
    if t.op == "ite":
        c = atom_bool(t.args[0])
        b1, g1, s1 = entries(t.args[1], env)
        b2, g2, s2 = entries(t.args[2], env)
        if not same(b1, b2):
            raise Unclear("the filter depends on %s" % short_term(c, 120))
        return b1, [Group(g.binders, AND(c, g.cond), g.content) for g in g1] + [Group(g.binders, AND(NOT(c), g.cond), g.content) for g in g2], s1 & s2
    return t, [], set()


def looped(t, i, env):
    n, init, l = t.args
    h = height(l.args[0])
    v = var()
    m = {bv(h): v}
    me = None
    for x in subterms_ids(l.args[0]):
        if x.op == "recvar" and x.args[0] == h:
            m[x] = mk("tvar", "#self", v.args[1], x.args[1])
            if x.args[1] == i:
                me = m[x]
    body = subst(l.args[0], m)
    if body.op != "agg" or init.op != "agg":
        raise Unclear("loop over %s" % short_term(n, 80))
    step = body.args[i + 1]
    if step.op == "ite" and step.args[0] is eq(v, I(0)).args[0] and init.args[i + 1] is UNDEF:
        # the first step starts the value
        first, rest = (step.args[1], step.args[2]) if eq(v, I(0)).args[1] is TRUE else (step.args[2], step.args[1])
        init = agg(*[subst(first, {v: I(0)}) if k == i + 1 else x for k, x in enumerate(init.args)])
        m2 = {v: lin("u64", 1, [(1, v)])}
        body = agg(*[subst(rest, m2) if k == i + 1 else x for k, x in enumerate(body.args)])
        n = lin("u64", -1, [(1, n)])
    b0, g0, s0 = entries(init.args[i + 1], env)
    b, gs, sf = entries(body.args[i + 1], {**env, me: b0} if me is not None else env)
    if me not in sf:
        raise Unclear("each step of a loop starts anew from %s" % short_term(b, 120))
    if not same(b, b0):
        raise Unclear("filters with different origins: %s and %s" % (short_term(b0, 120), short_term(b, 120)))
    out = []
    for g in gs:
        c = g.cond
        # an entry the filter already contains may be left out
        for a in atoms(c):
            if a.op == "app" and a.args[0] in HAS and same(a.args[2], g.content):
                c = cofactor(c, a, False)
        if any(me in subterms_ids(x) for x in [g.content, c] + [q for _, q in g.binders]):
            raise Unclear("entries depend on the filter itself")
        out.append(Group([(v, n)] + g.binders, c, g.content))
    return b0, g0 + out, s0 | (sf - {me})
