"""What a filter reports about itself, sizes as shown, values other than byte strings, the macro, and the show command."""
from .filters import *
from .ops import no_panic, boxed
from engine.flow import some_panic
from . import cli


# ---- C39 ---------------------------------------------------------------------
@rule("C39")
def reported(c):
    L = c.lib
    n = 0
    for f in fmts(c):
        v = "v%d" % f.ver
        want = {"capacity": f.sy("capacity"), "fpp": f.sy("fpp"), "count_estimate": f.sy("count")}
        st = f.sy("store")
        if f.ver == 1:
            want["n_hash_fn"] = f.sy("hashes")
            want["n_bits"] = f.sy("bits")
            want["count_ones"] = L.spec_ret("spec_ones64", a=st)
            want["count_zeros"] = L.spec_ret("spec_zeros64", a=st)
            want["bits"] = L.spec_ret("spec_v1_bits", bits=st, m=f.sy("bits"))
            want["estimated_p"] = L.spec_ret("spec_v1_estimated_p", n=f.sy("count"), m=f.sy("bits"))
        else:
            t = mk("tvar", "#bucket", 0)
            ones = mk_sum("u64", seq_len(st), t, L.spec_ret("spec_ones8", a=field(sel(st, t), "s", 0)))
            want["count_ones"] = ones
            want["count_zeros"] = sub("u64", mul("u64", seq_len(st), I(BUCKET_BITS)), ones)
        for op, w in want.items():
            n += 1
            s = f.s(op)
            c.eq("%s: %s reports what the filter holds" % (v, op), f.n(s.ret), f.n(w), s)
            c.eq("%s: %s does not change the filter" % (v, op), s.post["b"], s.pre["b"], s)
            no_panic(c, f, s, "%s: %s" % (v, op))
        s = f.s("clone")
        c.eq("%s: a copy equals the original in every field" % v, s.ret, s.pre["b"], s)
        c.eq("%s: copying does not change the filter" % v, s.post["b"], s.pre["b"], s)
    for k, f in enumerate(fmts(c)):
        for op in ("capacity", "fpp", "count_estimate", "clone", "version"):
            n += 1
            s = L.s("bf_" + op, args={"b": boxed(c, k, "b")}, key=("v", k))
            was = s.pre["b"]
            w = {"clone": was, "version": I(f.ver), "count_estimate": f.sy("count")}.get(op)
            if w is None:
                w = f.sy(op)
            c.eq("common type, version %d: %s is that of the filter it holds" % (f.ver, op), f.n(s.ret), f.n(w), s)
            c.eq("common type, version %d: %s does not change the filter" % (f.ver, op), s.post["b"], was, s)
        n += 1
        s = L.s("bf_data", args={"b": boxed(c, k, "b")}, key=("v", k))
        c.eq("v%d: data is the attached data" % f.ver, s.st.load(s.ret), f.sy("data"), s)
    c.floor("accessors", n, 26)


# ---- C38 ---------------------------------------------------------------------
@rule("C38")
def sizes(c):
    L = c.lib
    n = sym("n", "u64")
    unit = L.spec_ret("spec_unit", n=n)
    s0 = L.s("size_from_bytes")
    fresh = s0.ret
    where = c.loc(s0)

    def size(m):
        return subst(fresh, {s0.vals[0]: m})

    def at(v):
        def g(P, st, ty, nm):
            if P.ty(ty)["k"] == "ref":
                st.mem["A:" + nm] = v
                return ref("A:" + nm)
            return v
        return g

    def of(root, v, o=None):
        a = {"s": at(v)}
        if o is not None:
            a["o"] = at(o)
        return L.s(root, args=a, key=("of", v.id, o.id if o is not None else 0))
    o = sym("o", "u64")
    k = 0
    for root, want in (("size_in_bytes", n), ("size_in_mb", L.spec_ret("spec_in_unit", n=n, unit=I(2))),
                       ("size_in_unit", L.spec_ret("spec_in_unit", n=n, unit=unit)), ("size_hash", L.spec_ret("spec_size_hash", n=n))):
        s = of(root, size(n))
        k += 1
        c.eq("%s of a size made from n bytes" % root, s.ret, want, s)
    s = of("size_as_bytes", size(n))
    q = of("size_in_bytes", s.ret)
    c.eq("a size turned into bytes holds the same number of bytes", q.ret, n, s)
    c.eq("a size turned into bytes is counted in bytes", of("size_in_unit", s.ret).ret, L.spec_ret("spec_in_unit", n=n, unit=I(0)), s)
    for root, want in (("size_eq", eq(n, o)), ("size_lt", lt("u64", n, o)), ("size_gt", lt("u64", o, n))):
        s = of(root, size(n), size(o))
        k += 1
        c.eq("%s compares the numbers of bytes" % root, one_way(as_bool(s.ret), n, o), one_way(want, n, o), s)
    s = L.s("size_from_bits")
    c.eq("a number of bits is a size of its whole bytes", s.ret, size(div("u64", s.vals[0], I(8))), s)
    s = L.s("size_from_mb")
    c.eq("a number of megabytes is a size of that many times 1048576 bytes", s.ret, size(mul("u64", s.vals[0], I(1 << 20))), s)
    # as text: the number in its unit with one decimal, then the unit
    s = of("size_fmt", size(n))
    rows = shown(s, "f")
    for u, name in enumerate((b"B", b"KB", b"MB", b"GB")):
        g = eq(unit, I(u))
        k += 1
        fs = literals(as_bool(g))
        got = [ps for cond, ps in rows if cases_meet(cond, g)]
        okay = len(got) == 1 and len(got[0]) == 2 and isinstance(got[0][0], Piece) and got[0][1] == name
        okay = okay and got[0][0].kind == "display" and got[0][0].prec == 1 and got[0][0].width is None
        okay = okay and differ(given(got[0][0].value, g), given(L.spec_ret("spec_in_unit", n=n, unit=I(u)), g)) is None
        c.ob("a size in %s is shown as its number with one decimal and the unit" % name.decode(), okay, c.loc(s), "; ".join(text_of(p) for p in got) or "not understood")
    s = L.s("opt_fmt")
    rows = shown(s, "f")
    for u, name in enumerate((b"none", b"space", b"speed", b"best")):
        g = eq(disc(s.pre["s"]), I(u))
        got = [ps for cond, ps in rows if cases_meet(cond, g)]
        k += 1
        c.ob("optimisation level %d is shown as %s" % (u, name.decode()), got == [[name]], c.loc(s), "; ".join(text_of(p) for p in got) or "not understood")
    c.floor("operations on sizes", k, 15)


def one_way(t, a, b):
    """b < a said with a < b and a == b"""
    x = top_atom(lt("u64", b, a))
    less, more = cofactor(t, x, False), cofactor(t, x, True)
    return ite(AND(NOT(lt("u64", a, b)), NOT(eq(a, b))), more, less)


def cases_meet(a, b):
    return AND(as_bool(a), as_bool(b)) is not FALSE


# ---- formatted text --------------------------------------------------------------
class Piece:
    """a value inside formatted text"""

    def __init__(self, kind, value, width=None, prec=None, flags=0):
        self.kind, self.value, self.width, self.prec, self.flags = kind, value, width, prec, flags

    def __eq__(self, o):
        return isinstance(o, Piece) and (self.kind, self.value, self.width, self.prec, self.flags) == (o.kind, o.value, o.width, o.prec, o.flags)


def text_of(ps):
    return "".join(p.decode("utf8", "replace") if isinstance(p, bytes) else "{%s%s}" % (short_term(p.value, 120), "" if p.prec is None else ":.%d" % p.prec) for p in ps)


def const_text(v):
    if v.op == "ref" and isinstance(v.args[0], T) and v.args[0].op == "cbase" and not v.args[1]:
        return const_text(v.args[0].args[0])
    if v.op == "bytes":
        return bytes.fromhex(v.args[0]) if isinstance(v.args[0], str) else bytes(v.args[0])
    if v.op == "arr" and all(x.op == "i" for x in v.args):
        return bytes(ival(x) for x in v.args)
    return None


def rendered(v, cond=TRUE):
    """(condition, pieces) of a text; alternatives only where the text itself differs"""
    t = const_text(v)
    if t is not None:
        return [(cond, [t])]
    if all(x.op == "tostring" for x in leaves(v)):
        return [(cond, [Piece("display", map_leaves(v, lambda x: x.args[0]))])]
    if v.op == "ite" and all(text_like(x) for x in leaves(v)):
        return [r for g, x in guarded_leaves(v) for r in rendered(x, AND(cond, g))]
    if v.op == "formatted":
        return rendered(v.args[0], cond)
    if v.op == "agg" and v.args[0] == "fmt":
        if len(v.args) == 2:
            return rendered(v.args[1], cond)
        raw = const_text(v.args[1])
        args = v.args[2]
        if raw is not None and args.op == "arr":
            return template(raw, args.args, cond)
    ps = parts(v)
    if ps is not None:
        out = [(cond, [])]
        for x in ps:
            out = [(AND(g, h), p + q) for g, p in out for h, q in rendered(x)]
        return [(g, merged(p)) for g, p in out if g is not FALSE]
    return [(cond, [Piece("value", v)])]


def parts(v):
    """texts a text is put together from"""
    if v.op == "concat":
        return list(v.args)
    if v.op == "app" and v.args[0].split("::")[-1] in ("join", "concat") and "slice" in v.args[0]:
        xs = v.args[1]
        if xs.op != "arr":
            return None
        if v.args[0].endswith("concat"):
            return list(xs.args)
        out = []
        for i, x in enumerate(xs.args):
            out += [v.args[2], x] if i else [x]
        return out
    return None


def text_like(x):
    return const_text(x) is not None or x.op in ("formatted", "tostring") or x.op == "agg" and x.args[0] == "fmt" or parts(x) is not None


def template(raw, args, cond):
    """compiled format string: pieces of text with their length, placeholders with their options, a zero at the end"""
    out = [(cond, [])]
    i = k = 0
    while i < len(raw) and raw[i]:
        b = raw[i]
        i += 1
        if b < 128:
            out = [(g, p + [raw[i:i + b]]) for g, p in out]
            i += b
            continue
        if b == 128:
            m = int.from_bytes(raw[i:i + 2], "little")
            out = [(g, p + [raw[i + 2:i + 2 + m]]) for g, p in out]
            i += 2 + m
            continue
        if b < 192:
            return [(cond, [Piece("value", agg("unknown", *args))])]
        flags, width, prec = 0, None, None
        if b & 1:
            flags = int.from_bytes(raw[i:i + 4], "little")
            i += 4
        if b & 2:
            width = int.from_bytes(raw[i:i + 2], "little")
            i += 2
        if b & 4:
            prec = int.from_bytes(raw[i:i + 2], "little")
            i += 2
        if b & 8:
            k = int.from_bytes(raw[i:i + 2], "little")
            i += 2
        if k >= len(args):
            return [(cond, [Piece("value", agg("unknown", *args))])]
        a = args[k]
        k += 1
        if a.op != "agg" or a.args[0] != "arg":
            return [(cond, [Piece("value", a)])]
        kind = "display" if "display" in str(a.args[1].args[0]) else str(a.args[1].args[0])
        if kind == "display" and prec is None and text_choice(a.args[2]):
            # texts are padded on the right unless the flags say otherwise
            new = [(h, merged(q)) for h, q in rendered(a.args[2])]
            if width is not None and all(len(q) <= 1 and all(isinstance(x, bytes) for x in q) for _, q in new):
                new = [(h, [b"".join(q).ljust(width)]) for h, q in new]
            elif width is not None:
                new = [(TRUE, [Piece(kind, a.args[2], width, prec, flags)])]
            out = [(AND(g, h), p + q) for g, p in out for h, q in new]
        else:
            out = [(g, p + [Piece(kind, a.args[2], width, prec, flags)]) for g, p in out]
    return [(g, merged(p)) for g, p in out if g is not FALSE]


def text_choice(v):
    return all(text_like(x) for x in leaves(v))


def merged(ps):
    out = []
    for p in ps:
        if isinstance(p, bytes) and out and isinstance(out[-1], bytes):
            out[-1] += p
        elif p != b"":
            out.append(p)
    return out


def shown(s, sink):
    """(condition, pieces) of what is written to a formatter that accepts everything"""
    rows = [(TRUE, [])]
    fine = TRUE
    for e in walk(s.events):
        if e.kind == "loop":
            return []
        if e.kind == "call" and e.name.split("::")[-1] in ("write_fmt", "write_str", "pad") and "Formatter" in e.name:
            on = as_bool(given(e.guard, fine))
            new = []
            for g, ps in rows:
                for h, qs in rendered(e.args[1]):
                    if AND(g, on, h) is not FALSE:
                        new.append((AND(g, on, h), merged(ps + qs)))
                if AND(g, NOT(on)) is not FALSE:
                    new.append((AND(g, NOT(on)), ps))
            rows = new
            fine = AND(fine, ok(e.res))
    return rows


# ---- C40 ---------------------------------------------------------------------
@rule("C40")
def macro(c):
    L = c.lib
    for a in ("bloom_empty", "bloom_three"):
        s, q = L.s(a), L.spec("spec_" + a, c=L.s(a).vals[0], p=L.s(a).vals[1])
        what = "without entries" if a == "bloom_empty" else "with entries"
        bad, want = some_panic(s.events), some_panic(q.events)
        c.eq("the macro %s panics exactly when creation or an insertion fails" % what, bad, want, s)
        c.always("the macro %s makes a version 2 filter" % what, is_variant(s.ret, 1), s)
        f = fmts(c)[1]
        got, ref_ = leafmap(L.P, f.ty, payload(s.ret, 1)), leafmap(L.P, f.ty, payload(q.ret, 1))
        for k in ref_:
            c.eq("the macro %s: %s as creating and inserting sets it" % (what, k), given(got[k], NOT(want)), given(ref_[k], NOT(want)), s)
    c.floor("uses of the macro", 2, 2)


# ---- C41 ---------------------------------------------------------------------
HASHED = ("u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize", "some", "none", "record")


@rule("C41")
def hashed(c):
    L = c.lib
    f = fmts(c)[1]
    base = f.s("build_index_iter")
    h0 = L.spec_ret("spec_v2_hash", v=sym("v", "seq"))
    n = 0
    for ty in HASHED:
        s = L.s("it_" + ty)
        h = L.spec_ret("spec_hash_" + ty, v=s.vals[0])
        lv = list(leafmap(L.P, s.retty, s.ret).values())
        mine = [x for x in lv if differ(x, h) is None]
        n += 1
        c.ob("%s: the value hash is the seeded hash of what the type's Hash writes" % ty, len(mine) == 1, c.loc(s), "; ".join(short_term(x, 120) for x in lv))
        for x, y in zip(lv, leafmap(L.P, base.retty, base.ret).values()):
            if x not in mine:
                c.eq("%s: the iterator otherwise starts as for byte strings" % ty, x, y, s)
    c.floor("hashable types", n, 15)


# ---- C37 ---------------------------------------------------------------------
def unrolled(P, evs, n=16):
    """actions in order, loops of a known small number of steps repeated; None when there are others"""
    out = []
    for e in evs:
        if e.kind != "loop":
            out.append((e, e.guard, lambda t: t))
            continue
        if not any(k.kind in ("print", "eprint") for k in walk(e.kids)):
            continue
        if e.n.op != "i" or ival(e.n) > n:
            return None
        kids = unrolled(P, e.kids, n)
        if kids is None:
            return None
        for i in range(ival(e.n)):
            m = {e.tvar: I(i)}
            for k, g, f in kids:
                out.append((k, AND(e.guard, subst(g, m)), lambda t, f=f, m=m: subst(f(t), m)))
    return out


FIGURES = (("version", b"version", "version", False), ("capacity", b"capacity", "capacity", False), ("element count", b"estimated", "count_estimate", False),
           ("probability", b"probability", "fpp", False), ("length of the attached data", b"data", "data", True), ("size of the filter", b"size", "size_in_bytes", True))


@rule("C37")
def show(c):
    s = cli.command(c, "Show")
    good = cli.success(s)
    where = s.fn.where()
    for x in cli.sites(s.P, s.events):
        if cli.modifies(x.e) or cli.to_sink(x.e):
            c.ob("show changes no file", False, x.where, x.e.name)
    c.ob("show changes no file", True, where)
    n = 0
    for x, ranges, cond, what in cli.failures(s.P, s.events):
        n += 1
        left = cli.excluded(good, cond, ranges)
        c.ob("show fails when %s fails" % what, left is None, x.where, "" if left is None else "show still succeeds when %s" % short_term(left))
    c.floor("operations of show that may fail", n, 2)
    evs = unrolled(s.P, s.events)
    lines = [[]]
    for e, g, f in evs or []:
        if e.kind != "print":
            continue
        on = as_bool(given(g, good))
        if on is FALSE:
            continue
        rows = rendered(f(e.args[0]))
        if on is not TRUE or len(rows) != 1:
            lines[-1].append(Piece("value", agg("sometimes")))
            continue
        for p in rows[0][1]:
            if not isinstance(p, bytes):
                lines[-1].append(p)
                continue
            for i, x in enumerate(p.split(b"\n")):
                if i:
                    lines.append([])
                if x:
                    lines[-1].append(x)
    for l in lines:
        l[:] = merged(l)
    file = cli.option(s, "file")
    loads = [payload(mk("app", "poppy_filters::BloomFilter::" + m, agg("stream", mk("file", file), I(0))), 0) for m in ("partial_from_reader", "from_reader")]
    size = c.lib.s("size_from_bytes")
    for what, label, op, sized in FIGURES:
        mine = [l for l in lines if any(isinstance(p, bytes) and label in p.lower() for p in l) and label_of(l, label)]
        c.ob("show prints one line with the %s" % what, len(mine) == 1, where, "%d lines" % len(mine))
        for l in mine:
            vals = [p for p in l if isinstance(p, Piece)]
            want = []
            for b in loads:
                v = mk("app", "poppy_filters::BloomFilter::" + op, b)
                if op == "data":
                    v = seq_len(mk("deref", v))
                want.append(subst(size.ret, {size.vals[0]: v}) if sized else v)
            okay = len(vals) == 1 and any(differ(given(vals[0].value, good), w) is None for w in want)
            okay = okay and vals[0].prec is None and vals[0].kind in ("display", "Argument.new_debug")
            c.ob("the %s shown is that of the file's filter" % what, okay, where, text_of(l))
    mine = [l for l in lines if any(isinstance(p, Piece) and p.value is file for p in l)]
    c.ob("show names the file", len(mine) >= 1, where, "; ".join(text_of(l) for l in lines))


def label_of(l, label):
    """is the label of a line the wanted one: the first of the known ones it names"""
    head = b" ".join(p for p in l if isinstance(p, bytes)).lower()
    at = {x: head.find(x) for _, x, _, _ in FIGURES if x in head}
    # a line about the size of the data is about the data
    if label == b"size" and b"data" in at:
        return False
    if label == b"data":
        return True
    return min(at, key=at.get) == label
