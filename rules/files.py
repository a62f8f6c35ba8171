"""Saving and loading."""
from .filters import *


def written(s):
    return segments(s, "w")


def evname(e):
    return e.name


def all_writes(evs, g=TRUE, loops=()):
    for e in evs:
        if e.kind == "loop":
            yield from all_writes(e.kids, AND(g, e.guard) if not loops else g, loops + ((e, TRUE),))
        elif e.kind in ("write", "flush"):
            yield e, g, loops


def save_ok(c, s, tag):
    """Ok only when every write and the final flush succeeded"""
    o = ok(s.ret)
    order = list(all_writes(s.events))
    ws = [x for x in order if x[0].kind == "write"]
    buffered = 0
    for e, g, loops in order:
        bad = AND(e.guard, NOT(as_bool(e.res)))
        for lp, _ in reversed(loops):
            bad = AND(lp.guard, mk_exists_t(lp.n, lp.tvar, bad))
        c.implies("%s: success needs %s" % (tag, "every write" if e.kind == "write" else "the flush"), o, NOT(bad), s,
                  where="%s (%s)" % (s.P.where(e.span), e.fn if isinstance(e.fn, str) else getattr(e.fn, "path", "?")))
        if e.kind == "write":
            c.ob("%s: writes deliver all their bytes" % tag, e.name in ("write_all", "write_all(buffered)") or "write_all" in e.name or "write_fmt" in e.name, s.P.where(e.span), "%s may write less than it was given" % e.name)
            if e.args[-1].op == "i" and ival(e.args[-1]) > 0:
                buffered = max(buffered, order.index((e, g, loops)) + 1)
    if buffered:
        fl = [i for i, (e, g, lp) in enumerate(order) if e.kind == "flush" and i >= buffered and not lp]
        done = OR(*[AND(order[i][0].guard, as_bool(order[i][0].res)) for i in fl]) if fl else FALSE
        c.implies("%s: success needs a flush after the last buffered write" % tag, o, done, s)
    return len(ws)


@rule("C07")
def c07(c):
    n = 0
    for f in fmts(c):
        s = f.s("write")
        n += save_ok(c, s, "v%d" % f.ver)
    from .ops import boxed
    for k in (0, 1):
        s = c.lib.s("bf_write", args={"b": boxed(c, k, "b")}, key=("v", k))
        n += save_ok(c, s, "common type, version %d" % (k + 1))
    c.floor("writes", n, 4)


# ---- C06 ---------------------------------------------------------------------
def pinned(f):
    le = lambda x: ("seg", mk("lebytes", 8, x))
    y = {r: f.n(f.sy(r)) for r in f.role}
    t = mk("tvar", "#pin")
    if f.ver == 1:
        flags = ("seg", mk("arr", *[I(x) for x in (1, 0, 0, 0, 0, 0, 0, 0)]))
        return [flags, le(y["capacity"]), ("seg", mk("lefbytes", 8, y["fpp"])), le(y["hashes"]), le(y["bits"]), le(y["count"]),
                ("loop", f.n(seq_len(y["store"])), lam(t, mk("lebytes", 8, sel(y["store"], t)))), ("seg", y["data"])]
    flags = ("seg", mk("arr", y["version"], disc(y["opt"]), *[I(0)] * 6))
    return [flags, le(y["capacity"]), ("seg", mk("lefbytes", 8, y["fpp"])), le(y["hashes"]), le(y["count"]), le(mul("u64", seq_len(y["cache"]), I(8))),
            ("seg", y["cache"]), le(seq_len(y["store"])), ("loop", seq_len(y["store"]), lam(t, field(sel(y["store"], t), "s", 0))), ("seg", y["data"])]


NAMES = {1: ["flags block", "capacity", "false positive probability", "hash count", "bit size", "element count", "bit array", "attached data"],
         2: ["flags block", "capacity", "false positive probability", "hash count", "element count", "index-cache bit length", "index-cache bytes", "bucket count", "buckets", "attached data"]}


def nseg(f, p):
    if p[0] == "seg":
        return ("seg", f.n(p[1]))
    if p[0] == "loop":
        return ("loop", f.n(p[1]), f.n(p[2]))
    return p


@rule("C06")
def c06(c):
    from .ops import seg_same, seg_show
    n = 0
    for f in fmts(c):
        s = f.s("write")
        got = [nseg(f, p) for p in written(s)]
        want = pinned(f)
        if len(got) != len(want):
            c.ob("v%d: a saved filter has the documented fields" % f.ver, False, c.loc(s), "%d parts written: %s" % (len(got), seg_show(got)))
            continue
        for nm, a, b in zip(NAMES[f.ver], got, want):
            c.ob("v%d: %s" % (f.ver, nm), seg_same(a, b), c.loc(s), "written: %s; documented: %s" % (seg_show([a]), seg_show([b])))
            n += 1
        every_part(c, f, s)
        # the version byte is the format's own number
        for op in ("try_from", "with_capacity"):
            m = c.lib.okfields(f.s(op))
            c.eq("v%d %s: version number" % (f.ver, op), m[f.role["version"]], I(f.ver), f.s(op))
    # readers of both formats find the fields at the documented positions
    for f in fmts(c):
        s = f.s("from_reader")
        m = {k: given(v, ok(s.ret)) for k, v in c.lib.okfields(s).items()}
        r = s.vals[0].args[1]
        for role, off in POS[f.ver]:
            x = mk("lef", 8, mk("rd", r, I(off), I(8))) if role == "fpp" else mk("le", 8, mk("rd", r, I(off), I(8)))
            c.eq("v%d: %s is read from byte %d" % (f.ver, role, off), m[f.role[role]], x, s)
            n += 1
    c.floor("parts", n, 27)


def every_part(c, f, s):
    """whenever saving succeeds, every part that is not empty is written"""
    o = f.n(ok(s.ret))
    for e in s.events:
        if e.kind == "write":
            c.implies("v%d: every part is written when saving succeeds" % f.ver, o, f.n(OR(e.guard, eq(seq_len(e.args[1]), I(0)))), s)
        elif e.kind == "loop" and any(k.kind == "write" for k in walk(e.kids)):
            c.implies("v%d: every part is written when saving succeeds" % f.ver, o, f.n(OR(e.guard, eq(e.n, I(0)))), s)
            for k in walk(e.kids):
                if k.kind == "write":
                    bad = mk_exists_t(e.n, e.tvar, NOT(OR(k.guard, eq(seq_len(k.args[1]), I(0)))))
                    c.implies("v%d: every element is written when saving succeeds" % f.ver, o, NOT(f.n(bad)), s)


POS = {1: [("capacity", 8), ("fpp", 16), ("hashes", 24), ("bits", 32), ("count", 40)],
       2: [("capacity", 8), ("fpp", 16), ("hashes", 24), ("count", 32)]}


# ---- C05 ---------------------------------------------------------------------
class Replay:
    """a reader's view of what a writer wrote"""

    def __init__(self, segs, src):
        self.src = src
        self.tab = []
        off = I(0)
        for p in segs:
            ln = seglen(p)
            if ln is None:
                break
            self.tab.append((off, ln, p))
            off = add("u64", off, ln)
        self.end = off
        self.bounds = [o for o, _, _ in self.tab] + [off]

    def fetch(self, off, n):
        for o, ln, p in self.tab:
            d = lin("u64", 0, [(1, off), (-1, o)])
            if p[0] == "seg":
                if d is I(0) and n is ln:
                    return p[1]
                if d.op == "i" and n.op == "i" and ln.op == "i" and ival(d) + ival(n) <= ival(ln):
                    return subseq(p[1], d, n)
            elif p[0] == "loop":
                w = width(p[2])
                if d.op == "i" and ival(d) == 0 and n is ln:
                    return mk("flatbuild", p[1], p[2])
                k = steps(d, ival(w)) if w.op == "i" else None
                if k is not None and n is w:
                    return instantiate(p[2], k)
        # across parts of known size
        for i, (o, ln, p) in enumerate(self.tab):
            if off is o and n.op == "i":
                acc, got = None, 0
                for o2, l2, p2 in self.tab[i:]:
                    if p2[0] != "seg" or l2.op != "i" or got >= ival(n):
                        break
                    acc = p2[1] if acc is None else concat(acc, p2[1])
                    got += ival(l2)
                if got == ival(n):
                    return acc
        return None

    def avail(self, end):
        """is a position at the end of, or inside, something written"""
        for o, ln, p in self.tab:
            d = lin("u64", 0, [(1, end), (-1, o)])
            if d is I(0) or d is ln:
                return True
            if d.op == "i" and ln.op == "i" and ival(d) <= ival(ln):
                return True
            if p[0] == "loop":
                w = width(p[2])
                if w.op == "i" and steps(d, ival(w)) is not None:
                    return True
        return False

    def __call__(self, x):
        if x.op == "rd" and x.args[0] is self.src:
            r = self.fetch(x.args[1], x.args[2])
            if r is not None:
                return r
        if x.op == "rdrest" and x.args[0] is self.src and self.tab:
            o, ln, p = self.tab[-1]
            if p[0] == "seg" and x.args[1] is o:
                return p[1]
        if x.op == "avail" and x.args[0] is self.src and self.avail(x.args[1]):
            return TRUE
        if x.op in ("readok", "seekok") and x.args[0] is self.src:
            return TRUE
        return x


def steps(d, w):
    """d = w*k for an index k"""
    if d.op == "i":
        return I(ival(d) // w) if ival(d) % w == 0 else None
    if d.op == "lin" and d.args[1] % w == 0 and all(k % w == 0 for k, _ in d.args[2]):
        return lin("u64", d.args[1] // w, [(k // w, t) for k, t in d.args[2]])
    return None


def fixpoint(t, f):
    for _ in range(12):
        u = rewrite(t, f)
        if u is t:
            return t
        t = u
    return t


@rule("C05")
def c05(c):
    L = c.lib
    n = 0
    for k, f in enumerate(fmts(c)):
        w = [nseg(f, p) for p in written(f.s("write"))]
        every_part(c, f, f.s("write"))
        pre = {a: f.n(x) for a, x in L.pre(f.s("has_same_params"), "b").items()}
        # what a filter that exists satisfies: its version, and for the poppy format a valid probability
        ver = [(pre[f.role["version"]], I(f.ver))]
        valid = []
        if f.ver == 2:
            x = pre[f.role["fpp"]]
            valid = [(top_atom(fcmp("fle", F(2.2250738585072014e-308), x)), True), (top_atom(fcmp("fle", x, F(1.0))), True)]
        for root in ("v%d_from_reader" % f.ver, "bf_from_reader"):
            s = L.s(root)
            rp = Replay(w, s.vals[0].args[1])
            ret = fixpoint(s.ret, rp)
            ret = f.n(ret)
            m = {a: b for a, b in ver if a.op == "sym"}
            ret = under_all_(subst(ret, m), valid)
            tag = "v%d %s" % (f.ver, root.split("_", 1)[1] if root[0] == "v" else "common loader")
            c.always("%s: what was saved loads" % tag, ok(ret), s, facts=valid)
            val = payload(ret, 0)
            if root.startswith("bf"):
                c.always("%s: loads as the same format" % tag, ite(ok(ret), is_variant(val, k), TRUE), s)
                val = payload(val, k)
            got = leafmap(L.P, f.ty, val)
            for a in pre:
                want = subst(pre[a], m)
                g = whole(f, got[a])
                if a == f.role["opt"]:
                    g, want = disc(g), disc(want)
                    if f.ver == 1:
                        want = I(0)
                if a.endswith("reserved") or a.split(".")[-1] == "reserved":
                    want = fill(I(0), I(6))
                    g = norm_zero(g)
                    want = norm_zero(want)
                if a in [f.role[r] for r in f.role] or a.startswith("flags"):
                    c.eq("%s: %s comes back as it was saved" % (tag, a), g, want, s, facts=valid)
                else:
                    c.eq("%s: %s agrees with the other fields" % (tag, a), g, f.n(want), s, facts=valid)
                n += 1
        # version and optimisation level of version 1 filters never differ from what is written
        m = L.okfields(f.s("try_from"))
        c.eq("v%d: constructor sets the version that is saved" % f.ver, m[f.role["version"]], I(f.ver), f.s("try_from"))
        if f.ver == 1:
            c.eq("v1: constructor sets the optimisation level that is saved", disc(m[f.role["opt"]]), I(0), f.s("try_from"))
    c.floor("fields", n, 44)


def whole(f, g):
    """a sequence rebuilt from all elements of another one is that one"""
    def h(x):
        if x.op == "build" and x.args[1].op == "lam":
            t = mk("tvar", "#all", x.id)
            e = instantiate(x.args[1], t)
            if e.op == "sel" and e.args[1] is t and t not in subterms_ids(e.args[0]) and f.n(seq_len(e.args[0])) is f.n(x.args[0]):
                return e.args[0]
        return x
    return map_leaves(g, h)


def norm_zero(g):
    if g.op == "arr" and all(x is I(0) for x in g.args):
        return fill(I(0), I(len(g.args)))
    return g


def under_all_(t, facts):
    for a, v in facts:
        t = under(t, a, v)
    return t


# ---- loading ------------------------------------------------------------------
def loaded(c, k, root):
    """summary, leaves and success condition of loading version k+1 through the common type"""
    L = c.lib
    f = fmts(c)[k]
    s = L.s(root)
    src = s.vals[0].args[1]
    vb = top_atom(eq(version_byte(s, src), I(f.ver)))
    ret = under(s.ret, vb, True)
    o = AND(ok(ret), is_variant(payload(ret, 0), k))
    return s, leafmap(L.P, f.ty, payload(payload(ret, 0), k)), o, ret


def version_byte(s, src):
    return header_byte(s, src, 0)


def header_byte(s, src, i):
    b = sel(mk("rd", src, I(i), I(1)), I(0))
    if b not in subterms(s.ret):
        raise Missing("byte %d of the header is not read" % i)
    return b


@rule("C30")
def c30(c):
    L = c.lib
    n = 0
    for k, f in enumerate(fmts(c)):
        fs, full, fo, fr = loaded(c, k, "bf_from_reader")
        ps, part, po, pr = loaded(c, k, "bf_partial_from_reader")
        both = AND(fo, po)
        for role in f.role:
            if role in ("store", "cache"):
                continue
            a, b = given(part[f.role[role]], both), given(full[f.role[role]], both)
            if role == "opt":
                a, b = disc(a), disc(b)
            c.eq("v%d metadata: %s as in a full load" % (f.ver, role), a, b, ps, facts=lits(both))
            n += 1
        for a in full:
            if a not in f.role.values():
                c.eq("v%d metadata: %s as in a full load" % (f.ver, a), given(part[a], both), given(full[a], both), ps, facts=lits(both))
        q = f.s("size_in_bytes")
        pre = L.pre(q, "b")
        m1 = {pre[x]: v for x, v in full.items()}
        m2 = {pre[x]: v for x, v in part.items()}
        c.eq("v%d metadata: storage size as in a full load" % f.ver, given(subst(q.ret, m2), both), given(subst(q.ret, m1), both), ps, facts=lits(both))
        # refused exactly for the same headers
        src = ps.vals[0].args[1]
        for what, cond in header_conditions(c, f, ps, src, part):
            if "version byte" in what:
                continue
            c.implies("v%d metadata: %s" % (f.ver, what), po, cond, ps)
        # a file that loads fully also gives its metadata
        p2 = po
        while True:
            seeks = [x for x in atoms(p2) if x.op == "seekok"]
            if not seeks:
                break
            p2 = under(p2, seeks[0], True)
        c.implies("v%d metadata of a loadable file can be read" % f.ver, AND(fo, sizes_fit(p2)), p2, ps)
    c.floor("fields", n, 14)


def sizes_fit(t):
    """sizes of a file that exists fit signed 64-bit offsets: conditions on products and conversions"""
    cs = []
    for a in atoms(t):
        if a.op in ("ovf", "slt") or a.op == "lt" and a.args[1].op == "i" and ival(a.args[1]) >= (1 << 50):
            cs.append(a)
    out = TRUE
    for a in cs:
        v = {"ovf": False, "slt": False, "lt": True}[a.op]
        out = AND(out, atom_bool(a) if v else NOT(atom_bool(a)))
    return out


def lits(cond):
    return [(a, v) for a, v in literals(as_bool(cond))]


def header_conditions(c, f, s, src, lv):
    cs = [("the whole header is present", as_bool(mk("avail", src, I(48))))]
    vb, ob = header_byte(s, src, 0), header_byte(s, src, 1)
    cs.append(("the version byte is %d" % f.ver, eq(vb, I(f.ver))))
    cs.append(("the optimisation level is one of 0..=3", OR(*[eq(ob, I(k)) for k in range(4)])))
    if f.ver == 2:
        fpp = mk("lef", 8, mk("rd", src, I(16), I(8)))
        cs.append(("the probability is above zero", fcmp("flt", F(0.0), fpp)))
        cs.append(("the probability is at most one", fcmp("fle", fpp, F(1.0))))
    return cs


@rule("C08")
def c08(c):
    L = c.lib
    n = 0
    for k, f in enumerate(fmts(c)):
        s = f.s("from_reader")
        views = [("v%d loader" % f.ver, s, ok(s.ret), s.ret)]
        q, lv, o, r = loaded(c, k, "bf_from_reader")
        views.append(("common loader, version %d" % f.ver, q, o, r))
        for tag, s, o, ret in views:
            src = s.vals[0].args[1]
            o = ok(ret)
            for what, cond in header_conditions(c, f, s, src, None):
                if "version byte" in what and tag.startswith("common"):
                    continue
                c.implies("%s: a filter only when %s" % (tag, what), o, cond, s)
                n += 1
            le = lambda off: mk("le", 8, mk("rd", src, off, I(8)))
            if f.ver == 1:
                need = [("every word of the bit array is present", add("u64", I(48), mul("u64", cdiv(le(I(32)), I(64)), I(8))))]
            else:
                cb = cdiv(le(I(40)), I(8))
                a = add("u64", I(48), cb)
                nb = le(a)
                need = [("every byte of the index cache is present", a), ("the bucket count is present", add("u64", a, I(8))),
                        ("every bucket is present", lin("u64", 56, [(1, cb), (4096, nb)]))]
            for what, end in need:
                c.implies("%s: a filter only when %s" % (tag, what), o, as_bool(mk("avail", src, end)), s, facts=[])
                n += 1
    # the common loaders accept nothing but versions 1 and 2
    for root in ("bf_from_reader", "bf_partial_from_reader"):
        s = L.s(root)
        vb = version_byte(s, s.vals[0].args[1])
        c.implies(root + ": only versions 1 and 2 load", ok(s.ret), OR(eq(vb, I(1)), eq(vb, I(2))), s)
        n += 1
    # no read is ignored
    reads = 0
    for root in ("v1_from_reader", "v2_from_reader", "bf_from_reader", "bf_partial_from_reader"):
        s = L.s(root)
        o = ok(s.ret)
        for e, g in guarded_(s.events):
            if e.kind in ("read", "seek"):
                c.implies("%s: a failing read is an error" % root, AND(o, g), as_bool(e.res) if e.tvar is None else TRUE, s)
                reads += 1
    c.floor("conditions", n, 24)
    c.floor("reads", reads, 4)


def guarded_(evs):
    for e in evs:
        if e.kind != "loop":
            yield e, e.guard


@rule("C09")
def c09(c):
    from .ops import no_panic, guarded
    L = c.lib
    n = 0
    for root in ("v1_from_reader", "v2_from_reader", "bf_from_reader", "bf_partial_from_reader"):
        s = L.s(root)
        no_panic(c, None, s, root)
        for e, g in guarded(s.events):
            if e.kind != "alloc":
                continue
            n += 1
            for a in e.args:
                m = umax(a)
                if a.op == "i" and ival(a) < 1 << 24 or m is not None and m < 1 << 24:
                    continue
                fromhdr = [x for x in subterms(a) if x.op == "rd"]
                if fromhdr and not holds(NOT(g)):
                    c.ob("%s: allocations do not depend on sizes in the header" % root, False, s.P.where(e.span), "%s of %s" % (e.name, short_term(a)))
        c.ob("%s: allocations do not depend on sizes in the header" % root, True, c.loc(s), "%d allocation sites" % n)
        n += 1
    for f in fmts(c):
        for op in (["insert", "contains", "insert_contains"] if f.ver == 1 else ["insert_bytes", "contains_bytes", "insert_u64", "contains_u64", "iter_insert", "iter_contains", "insert_contains_bytes"]):
            s = f.s(op)
            no_panic(c, f, s, "v%d %s on a loaded filter" % (f.ver, op))
            n += 1
    # a filter loaded without its storage
    for k, f in enumerate(fmts(c)):
        ps, part, po, pr = loaded(c, k, "bf_partial_from_reader")
        for op in (["contains"] if f.ver == 1 else ["insert_bytes", "contains_bytes"]):
            q = f.s(op)
            pre = L.pre(q, "b")
            m = {pre[x]: given(v, po) for x, v in part.items() if pre[x].op == "sym"}
            for e, g in guarded(q.events):
                if e.kind == "panic" and ("Zero" in e.name):
                    c.always("v%d %s of a filter loaded without storage does not divide by zero" % (f.ver, op), NOT(subst(g, m)), q)
            n += 1
    c.floor("entry points and allocation sites", n, 17)


# ---- C43 ---------------------------------------------------------------------
def refusals(ret):
    """(condition, error) of every refusal of a result"""
    for g, x in guarded_leaves(ret):
        if x.op == "agg" and x.args[0] == 0 or x is UNDEF:
            continue
        if x.op != "agg":
            yield AND(g, err(x)), payload(x, 1)
            continue
        for h, e in guarded_leaves(payload(x, 1)):
            yield AND(g, h), e


@rule("C43")
def causes(c):
    L = c.lib
    n = 0
    for root in ("v1_from_reader", "v2_from_reader", "bf_from_reader", "bf_partial_from_reader"):
        s = L.s(root)
        src = s.vals[0].args[1]
        vb, ob = header_byte(s, src, 0), header_byte(s, src, 1)
        fpp = mk("lef", 8, mk("rd", src, I(16), I(8)))
        known = {"v1": [1], "v2": [2]}.get(root[:2], [1, 2])
        bad = {E_VERSION: (NOT(OR(*[eq(vb, I(k)) for k in known])), "the version byte is not one that is read", vb),
               E_OPT: (NOT(OR(*[eq(ob, I(k)) for k in range(4)])), "the optimisation level is above 3", ob)}
        if 2 in known:
            good = AND(fcmp("fle", F(2.2250738585072014e-308), fpp), fcmp("fle", fpp, F(1.0)))
            bad[E_WRONGFPP] = (AND(eq(vb, I(2)), NOT(good)), "the file is of version 2 and its probability not in ]0;1]", fpp)
        whole = as_bool(mk("avail", src, I(48)))
        for g, e in refusals(s.ret):
            k = e.args[0] if e.op == "agg" and isinstance(e.args[0], int) else None
            n += 1
            if k in bad:
                cond, what, v = bad[k]
                c.implies("%s: the error of kind %d only when %s" % (root, k, what), g, cond, s)
                x = payload(e, k)
                if k == E_OPT:
                    x = payload(x, 0)
                left = differ(given(x, g), v)
                c.ob("%s: the error of kind %d carries the refused value" % (root, k), left is None, c.loc(s), "" if left is None else "it carries %s" % short_term(x))
            elif k == E_IO:
                for cond, what, _ in bad.values():
                    c.implies("%s: not a read error when the header is complete and %s" % (root, what), AND(g, whole), NOT(cond), s)
            else:
                c.ob("%s: refused for its version, optimisation level, probability or a read error" % root, holds(NOT(as_bool(g))), c.loc(s), short_term(e))
    for root in ("v1_write", "v2_write", "bf_write"):
        s = L.s(root)
        k = 0
        for g, e in refusals(s.ret):
            n += 1
            k += 1
            c.ob("%s: the failure is the writer's error" % root, e.op == "agg" and e.args[0] == E_IO and any(x.op == "ioerr" for x in subterms(e)) or holds(NOT(as_bool(g))), c.loc(s), short_term(e))
        c.floor("failures of " + root, k, 3)
    s = L.s("opt_try_from")
    for g, e in refusals(s.ret):
        n += 1
        c.eq("a number that is no optimisation level is named in the error", given(payload(e, 0), g), s.vals[0], s)
    for root in ("bf_with_version_capacity_opt", "bf_with_version_capacity", "bf_try_from"):
        s = L.s(root)
        ver = field_of(L, s, "p", "version") if root == "bf_try_from" else s.vals[0]
        for g, e in refusals(s.ret):
            if e.op == "agg" and e.args[0] == E_VERSION:
                n += 1
                c.eq("%s: the refused version is named in the error" % root, given(payload(e, E_VERSION), g), ver, s)
    c.floor("refusals", n, 40)
