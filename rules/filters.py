"""The two filter formats: fields and their roles, class invariants, shared predicates."""
from .base import *

ROLES = {
    1: dict(version="flags.version", opt="flags.opt", capacity="capacity", fpp="fpp", hashes="n_hash", bits="bit_size",
            count="count", store="bitset", data="data"),
    2: dict(version="flags.version", opt="flags.opt", capacity="capacity", fpp="fpp", hashes="n_hash_buck", count="count",
            cache="index_cache.0", store="buckets", data="data"),
}
# order of the fields in a saved filter, after the flags block
LAYOUT = {
    1: ["capacity", "fpp", "hashes", "bits", "count", "*store", "data"],
    2: ["capacity", "fpp", "hashes", "count", None, "cache", None, "*store", "data"],
}
MUTATORS = {
    1: ["insert", "union_merge", "clear"],
    2: ["insert_bytes", "union_merge", "intersection_merge", "clear"],
}
BUCKET_BITS = 32768
E_WRONGFPP, E_IO, E_VERSION, E_MERGE, E_OPT, E_FULL, E_ITER = range(7)


def disc(v, n=4):
    """discriminant of a field-less enum value"""
    def f(x):
        if x.op == "agg" and isinstance(x.args[0], int):
            return I(x.args[0])
        return mk("discr", x, n)
    return lift(f, v)


def given(t, cond):
    """t where cond is known to hold"""
    cond = as_bool(cond)
    for a, v in literals(cond):
        t = under(t, a, v)
        cond = under(cond, a, v)
    # what is left are alternatives
    return map_agg(t, lambda x: restrict(x, cond)) if cond.op == "ite" and t.op in ("ite", "agg") else t


def rewrite(t, f, memo=None):
    """bottom-up rewriting, also below binders"""
    memo = {} if memo is None else memo

    def go(x):
        r = memo.get(x)
        if r is None:
            y = tm.rebuild(x, go) if any(isinstance(a, (T, tuple)) for a in x.args) else x
            r = f(y)
            memo[x] = r
        return r
    return go(t)


class Fmt:
    """one filter format as found in the program"""

    def __init__(self, c, ver):
        self.c, self.ver, self.L = c, ver, c.lib
        self.p = "v%d" % ver
        s = self.s("capacity")
        self.ty = self.L.pointee(s, "b")
        self.names = list(self.L.pre(s, "b"))
        self.role = dict(ROLES[ver])
        if any(r not in self.names for r in self.role.values()):
            self.by_layout()
        self._inv = None
        self.extra = []

    def s(self, op, **kw):
        return self.L.s("%s_%s" % (self.p, op), **kw)

    def by_layout(self):
        """roles of renamed fields: the position in a saved filter"""
        segs = segments(self.s("write"), "w")
        inv = {}
        for want, sg in zip(LAYOUT[self.ver], segs[1:]):
            if want is None:
                continue
            for x in subterms_ids(sg[1] if sg[0] == "seg" else sg[2]):
                if x.op == "sym" and x.args[0].startswith("b."):
                    inv.setdefault(want.strip("*"), x.args[0][2:])
        for r, n in list(self.role.items()):
            if n not in self.names:
                if r in inv and inv[r] in self.names:
                    self.role[r] = inv[r]
                else:
                    raise Missing("no field of the version %d filter plays the role '%s'" % (self.ver, r))

    # ---- values --------------------------------------------------------
    def sy(self, role, who="b"):
        return self.L.pre(self.s("has_same_params"), who)[self.role[role]]

    def pre(self, s, who="b"):
        return {r: self.n(self.L.pre(s, who)[n]) for r, n in self.role.items()}

    def post(self, s, who="b"):
        return {r: self.n(self.L.post(s, who)[n]) for r, n in self.role.items()}

    def leaves_pre(self, s, who="b"):
        return {k: self.n(v) for k, v in self.L.pre(s, who).items()}

    def leaves_post(self, s, who="b"):
        return {k: self.n(v) for k, v in self.L.post(s, who).items()}

    def built(self, op="try_from"):
        """leaves of what a constructor returns"""
        return self.L.okfields(self.s(op))

    # ---- class invariants ----------------------------------------------
    @property
    def inv(self):
        """leaf or length -> expression over other leaves, holding for every constructed or fully loaded filter"""
        if self._inv is not None:
            return self._inv
        L = self.L
        s = self.s("from_reader")
        okc = ok(s.ret)
        loaded = {k: given(v, okc) for k, v in L.okfields(s).items()}
        pre = L.pre(self.s("has_same_params"), "b")
        prim = [self.role[r] for r in ("capacity", "fpp", "hashes", "bits", "count") if r in self.role]
        scal = {}
        for k in prim + [k for k in loaded if k not in prim]:
            v = loaded[k]
            if pre[k].op == "sym" and pre[k].args[1] in ("u64", "u8", "usize", "f64") and v.op != "i" and v not in scal:
                scal[v] = k
        cand = {}
        for k, v in loaded.items():
            keys = [(pre[k], v)]
            if pre[k].op == "sym" and pre[k].args[1] == "seq":
                keys = [(seq_len(pre[k]), seq_len(v))]
            for key, val in keys:
                if key.op not in ("sym", "len"):
                    continue
                m = {w: pre[q] for w, q in scal.items() if q != k}
                e = subst(val, m)
                if e is not key and not any(x.op in ("rd", "rdrest", "rdshort") for x in subterms(e)):
                    cand[key] = e
        # a scalar that mirrors a length is expressed by the length
        for key, e in list(cand.items()):
            if key.op == "len" and e.op == "sym" and e not in [pre[self.role[r]] for r in self.role if r in ("capacity", "fpp", "hashes", "bits", "count")]:
                del cand[key]
                cand[e] = key
        # constructor and mutators keep them
        built = self.built()
        sub = {pre[k]: v for k, v in built.items() if pre[k].op == "sym"}
        keep = {}
        for key, e in cand.items():
            k1 = subst(key, sub)
            if same(k1, subst(e, sub)):
                keep[key] = e
        self._inv = keep
        for op in MUTATORS[self.ver]:
            q = self.s(op)
            po = {pre[k]: v for k, v in L.post(q, "b").items() if pre[k].op == "sym"}
            for key, e in list(keep.items()):
                if not same(self.n(subst(key, po)), self.n(subst(e, po))):
                    del keep[key]
        self._inv = keep
        self._who = {}
        return keep

    def n(self, t, whos=("b", "o")):
        """t for filters that satisfy the class invariants"""
        m = {}
        for w in whos:
            for k, e in self.inv.items():
                if w != "b":
                    k, e = rename(k, "b.", w + "."), rename(e, "b.", w + ".")
                m[k] = e
        if not m:
            return t
        t = subst(t, m)
        # rewriting the whole of a storage
        full = {x: mk_build_raw(x.args[1], x.args[2]) for x in subterms(t) if x.op == "map" and m.get(seq_len(x.args[0])) is x.args[1]}
        return subst(t, full) if full else t

    # ---- predicates ----------------------------------------------------
    def usable(self, who="b"):
        """facts of a filter that has storage"""
        fs = [(eq(self.sy("capacity", who), I(0)), False)]
        if self.ver == 1:
            fs.append((eq(self.sy("bits", who), I(0)), False))
        else:
            fs.append((eq(seq_len(self.sy("store", who)), I(0)), False))
        return [(top_atom(a), v) for a, v in fs]

    def bucket(self, h, who="b"):
        i = self.L.spec_ret("spec_v2_bucket", h=h, n=seq_len(self.sy("store", who)))
        return i, field(sel(self.sy("store", who), i), "s", 0)

    def all_set(self, v, who="b"):
        """reference: every bit position of the value is set in the storage"""
        if self.ver == 1:
            return self.L.spec_ret("spec_v1_all_set", bits=self.sy("store", who), k=self.sy("hashes", who), m=self.sy("bits", who), v=v)
        h = self.L.spec_ret("spec_v2_hash", v=v)
        i, b = self.bucket(h, who)
        return self.L.spec_ret("spec_v2_all_set", bucket=b, h=h, k=self.sy("hashes", who))

    def params(self, a="b", b="o"):
        """every parameter that has to agree before two filters are combined"""
        g = lambda r, w: self.n(self.sy(r, w))
        cs = [("version", eq(g("version", a), g("version", b))),
              ("optimisation level", eq(disc(self.sy("opt", a)), disc(self.sy("opt", b)))),
              ("capacity", eq(g("capacity", a), g("capacity", b))),
              ("false positive probability", fcmp("feq", g("fpp", a), g("fpp", b))),
              ("hash-function count", eq(g("hashes", a), g("hashes", b)))]
        if self.ver == 1:
            cs.append(("bit size", eq(g("bits", a), g("bits", b))))
        else:
            cs.append(("bucket count", eq(seq_len(self.sy("store", a)), seq_len(self.sy("store", b)))))
            cs.append(("index-cache size", eq(seq_len(self.sy("cache", a)), seq_len(self.sy("cache", b)))))
        return cs

    def agree(self):
        """facts of two filters with the same parameters"""
        out = []
        for _, x in self.params():
            out.append((top_atom(x), True))
        for k in self.names:
            if k not in self.role.values():
                v = self.L.pre(self.s("has_same_params"), "b")[k]
                w = self.L.pre(self.s("has_same_params"), "o")[k]
                if v.op == "sym" and v not in self.inv and k.startswith("flags"):
                    out.append((top_atom(eq(v, w)), True))
        return [(a, v) for a, v in out if a is not None]


def top_atom(x):
    return x.args[0] if x.op == "ite" else None


def rename(t, a, b):
    m = {}
    for x in subterms_ids(t):
        if x.op == "sym" and x.args[0].startswith(a):
            m[x] = mk("sym", b + x.args[0][len(a):], *x.args[1:])
    return subst(t, m)


def fmts(c):
    if not hasattr(c, "_fmts"):
        c._fmts = [Fmt(c, 1), Fmt(c, 2)]
    return c._fmts


# ---- written bytes ---------------------------------------------------------
def pieces(d):
    """a written byte sequence as consecutive parts"""
    n = seq_len(d)
    if d.op == "concat":
        return [p for x in d.args for p in pieces(x)]
    if d.op == "flatbuild":
        return [("loop", d.args[0], d.args[1])]
    if d.op == "fill" and d.args[1].op == "i" and ival(d.args[1]) <= 64:
        return [("seg", mk("arr", *[d.args[0]] * ival(d.args[1])))] if ival(d.args[1]) else []
    if d.op == "bytes":
        return [("seg", mk("arr", *[I(x) for x in bytes.fromhex(d.args[0])]))]
    if d.op == "lebytes" and d.args[1].op == "i":
        return [("seg", mk("arr", *[I(x) for x in ival(d.args[1]).to_bytes(d.args[0], "little")]))]
    if d.op == "push":
        return pieces(d.args[0]) + [("seg", mk("arr", d.args[1]))]
    if d.op == "splice" and n.op == "i" and d.args[1].op == "i":
        m = seq_len(d.args[2])
        if m.op == "i":
            o = ival(d.args[1])
            return cut(pieces(d.args[0]), 0, o) + pieces(d.args[2]) + cut(pieces(d.args[0]), o + ival(m), ival(n))
    if d.op == "upd" and n.op == "i" and d.args[1].op == "i":
        o = ival(d.args[1])
        return cut(pieces(d.args[0]), 0, o) + [("seg", mk("arr", d.args[2]))] + cut(pieces(d.args[0]), o + 1, ival(n))
    if d.op == "build" and d.args[0].op != "ite":
        # one byte per step
        t = mk("tvar", "#piece", d.id)
        return [("loop", d.args[0], lam(t, mk("arr", instantiate(d.args[1], t))))]
    if n is I(0):
        return []
    return [("seg", d)]


def cut(ps, a, b):
    """bytes a..b of parts of constant sizes"""
    out = []
    o = 0
    for p in ps:
        m = ival(seq_len(p[1])) if p[0] == "seg" and seq_len(p[1]).op == "i" else None
        if m is None:
            out.append(p)
            continue
        lo, hi = max(a, o), min(b, o + m)
        if lo < hi:
            out.append(("seg", p[1] if hi - lo == m else subseq(p[1], I(lo - o), I(hi - lo))))
        o += m
    return out


def segments(s, who):
    """what a saving function writes, in order: ("seg", bytes) and ("loop", n, lam(bytes))"""
    out = parts_of(s.events)
    # adjacent literal bytes are one part
    res = []
    for p in out:
        if p[0] == "seg" and p[1].op == "arr" and res and res[-1][0] == "seg" and res[-1][1].op == "arr":
            res[-1] = ("seg", mk("arr", *(res[-1][1].args + p[1].args)))
        else:
            res.append(p)
    return [q for p in res for q in words(p)]


def words(p):
    """literal bytes that are the eight bytes of a word are that word"""
    if p[0] != "seg" or p[1].op != "arr" or len(p[1].args) < 8:
        return [p]
    xs = p[1].args
    out = []
    lo = i = 0
    while i + 8 <= len(xs):
        w = word_of(xs[i:i + 8])
        if w is None:
            i += 1
            continue
        if lo < i:
            out.append(("seg", mk("arr", *xs[lo:i])))
        out.append(("seg", w))
        i += 8
        lo = i
    if lo < len(xs):
        out.append(("seg", mk("arr", *xs[lo:])))
    return out


def parts_of(events):
    out = []
    for e in events:
        if e.kind == "write":
            out += pieces(e.args[1])
        elif e.kind == "loop" and any(k.kind == "write" for k in walk(e.kids)):
            ps = parts_of(e.kids)
            if e.n.op == "i" and ival(e.n) <= 64:
                for i in range(ival(e.n)):
                    for p in ps:
                        m = {e.tvar: I(i)}
                        if p[0] == "seg":
                            out += pieces(subst(p[1], m))
                        else:
                            out.append((p[0],) + tuple(subst(x, m) if isinstance(x, T) else x for x in p[1:]))
            elif all(p[0] == "seg" for p in ps):
                d = EMPTY
                for p in ps:
                    d = concat(d, p[1])
                out.append(("loop", e.n, lam(e.tvar, d)))
            else:
                out.append(("other", e))
    return out


def width(lamb):
    t = mk("tvar", "#w", lamb.id)
    return seq_len(instantiate(lamb, t))


def seglen(p):
    if p[0] == "seg":
        return seq_len(p[1])
    if p[0] == "loop":
        w = width(p[2])
        return mul("u64", p[1], w) if w.op == "i" else None
    return None


def field_of(L, s, nm, fld):
    """leaf of a by-value argument"""
    body = s.fn.body
    names = {n: l for n, l in body.names}
    ty = body.locals[names[nm]]
    return leafmap(L.P, ty, s.vals[names[nm] - 1])[fld]
