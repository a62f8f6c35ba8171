"""Insertion, lookup, clearing, merging and counting of both formats."""
from .filters import *

V1_CARRIERS = [("insert", "contains")]
V2_CARRIERS = ["bytes", "slice", "vec", "string", "str", "u8", "u16", "u32", "u64", "u128", "i64", "opt"]


def facts_of(cond):
    return [(a, v) for a, v in literals(as_bool(cond))]


def under_all(t, facts):
    for a, v in facts:
        if a is not None:
            t = under(t, a, v)
    return t


def pair(v):
    return field(v, "s", 0), field(v, "s", 1)


# ---- C01 ---------------------------------------------------------------------
@rule("C01")
def c01(c):
    n = 0
    f1, f2 = fmts(c)
    todo = [(f1, "insert_contains", "byte slice")]
    todo += [(f2, "insert_contains_" + t, t) for t in V2_CARRIERS]
    todo += [(f2, "insert_contains_iter", "prepared iterator"), (f2, "insert_iter_contains", "prepared iterator, looked up by value")]
    for f, root, what in todo:
        s = f.s(root)
        r, found = pair(s.ret)
        if root == "insert_contains_iter":
            found = AND(ok(found), as_bool(payload(found, 0)))
        c.implies("v%d %s: found after an accepted insertion" % (f.ver, what), f.n(ok(r)), f.n(as_bool(found)), s)
        n += 1
    # a lookup fails only because a tested position is unset or there is no capacity
    s = f1.s("contains")
    v = s.pre["v"]
    want = f1.all_set(v)
    c.implies("v1: a lookup denies a value only for an unset bit or capacity zero", AND(f1.n(want), NOT(eq(f1.sy("capacity"), I(0))), NOT(eq(f1.sy("bits"), I(0)))), f1.n(s.ret), s)
    s = f2.s("contains_bytes")
    v = s.pre["v"]
    h = c.lib.spec_ret("spec_v2_hash", v=v)
    cache = f2.sy("cache")
    cb = c.lib.spec_ret("spec_v2_cache_bit", h=h, bits=mul("u64", seq_len(cache), I(8)))
    cached = OR(eq(seq_len(cache), I(0)), c.lib.spec_ret("spec_bit_get", a=cache, i=cb))
    c.implies("v2: a lookup denies a value only for an unset position or capacity zero",
              AND(f2.n(f2.all_set(v)), cached, NOT(eq(f2.sy("capacity"), I(0))), NOT(eq(seq_len(f2.sy("store")), I(0)))), f2.n(s.ret), s)
    c.floor("carriers", n, 14)


# ---- C02 ---------------------------------------------------------------------
def grows(new, old):
    """is every bit of old still set in new, for storages of the same length"""
    if new is old:
        return True
    if new.op == "ite":
        return all(grows(x, old) for x in leaves(new))
    if new.op == "scatter":
        return grows(new.args[0], old)
    if new.op == "upd":
        s, i, v = new.args
        if not grows(s, old):
            return False
        return all(grows_cell(x, sel(old, i)) for x in leaves(v))
    if new.op == "map" and new.args[0] is old:
        t = mk("tvar", "#grow", new.id)
        return all(grows_cell(x, sel(old, t)) for x in leaves(instantiate(new.args[2], t)))
    if new.op == "build" and new.args[0] is seq_len(old):
        t = mk("tvar", "#grow", new.id)
        return all(grows_cell(x, sel(old, t)) for x in leaves(instantiate(new.args[1], t)))
    return False


def grows_cell(v, old):
    if v is old:
        return True
    if v.op == "or" and old in v.args:
        return True
    if v.op == "agg" and len(v.args) == 2:
        # a bucket
        return grows(v.args[1], field(old, "s", 0))
    return False


@rule("C02")
def c02(c):
    n = 0
    mut = {1: ["insert", "insert_vec", "insert_str", "union_merge"],
           2: ["insert_bytes", "insert_bytes_string", "insert_slice", "insert_vec", "insert_str", "insert_string", "insert_u64", "iter_insert", "insert_iter_default", "union_merge"]}
    ro = {1: ["contains", "contains_str", "write", "count_ones", "count_zeros", "count_estimate", "size_in_u64", "size_in_bytes", "fpp", "capacity",
              "is_full", "has_same_params", "count_common_entries", "bits", "estimated_p", "n_hash_fn", "n_bits", "clone"],
          2: ["contains_bytes", "contains_bytes_str", "contains_slice", "contains_u64", "iter_contains", "write", "count_ones", "count_zeros", "count_estimate",
              "size_in_bytes", "fpp", "capacity", "is_full", "has_same_params", "count_common_entries", "clone"]}
    for f in fmts(c):
        stores = [r for r in ("store", "cache") if r in f.role]
        for op in mut[f.ver]:
            s = f.s(op)
            pre, post = f.L.pre(s, "b"), f.L.post(s, "b")
            for r in stores:
                k = f.role[r]
                c.ob("v%d %s keeps every set bit of the %s" % (f.ver, op, r), grows(post[k], pre[k]), c.loc(s), short_term(post[k]))
            for k in pre:
                if k not in [f.role[r] for r in stores + ["count"]]:
                    c.eq("v%d %s keeps %s" % (f.ver, op, k), post[k], pre[k], s)
            n += 1
        for op in ro[f.ver]:
            s = f.s(op)
            for who in s.pre:
                if who in ("b", "o"):
                    c.eq("v%d %s does not modify the filter" % (f.ver, op), s.post[who], s.pre[who], s)
            n += 1
        for op in ("union_merge", "count_common_entries", "has_same_params") + (("intersection_merge",) if f.ver == 2 else ()):
            s = f.s(op)
            c.eq("v%d %s does not modify the other filter" % (f.ver, op), s.post["o"], s.pre["o"], s)
        s = f.s("clone")
        c.eq("v%d clone copies every field" % f.ver, s.ret, s.pre["b"], s)
    c.floor("operations", n, 40)


# ---- C03, C04 ----------------------------------------------------------------
def changed(new, old):
    """condition under which some bit differs, for a storage that only grows; None when the shape is not understood"""
    if new is old:
        return FALSE
    if new.op == "ite":
        a, hi, lo = new.args
        x, y = changed(hi, old), changed(lo, old)
        return None if x is None or y is None else ite_atom(a, x, y)
    if new.op == "scatter" and new.args[0] is old:
        n, l = new.args[1], new.args[2]
        t = mk("tvar", "#chg", new.id)
        x = instantiate(l, t)
        if x.op == "agg" and x.args[2].op == "bitmask":
            return mk_exists_t(n, t, NOT(bit(sel(old, x.args[1]), x.args[2].args[0])))
        return None
    if new.op == "upd" and new.args[0] is old:
        s, i, v = new.args
        cell = sel(old, i)

        def g(x):
            if x is cell:
                return FALSE
            if x.op == "agg" and len(x.args) == 2:
                return changed(x.args[1], field(cell, "s", 0))
            if x.op == "or" and cell in x.args and len(x.args) == 2:
                m = [y for y in x.args if y is not cell][0]
                if m.op == "bitmask":
                    return NOT(bit(cell, m.args[0]))
            return None
        if v.op == "ite":
            a, hi, lo = v.args
            x, y = changed(upd(s, i, hi), old), changed(upd(s, i, lo), old)
            return None if x is None or y is None else ite_atom(a, x, y)
        return g(v)
    return None


INSERTS = {1: ["insert", "insert_vec", "insert_str"],
           2: ["insert_bytes", "insert_bytes_string", "insert_slice", "insert_vec", "insert_str", "insert_string", "insert_u64", "iter_insert"]}


def insert_facts(c, f, op):
    s = f.s(op)
    pre, post = f.pre(s), f.post(s)
    below = lt("u64", pre["count"], pre["capacity"])
    ret = f.n(s.ret)
    chg = changed(post["store"], pre["store"])
    # would a bit of the buckets be turned on if there were room?
    room = under_all(post["store"], facts_of(below) + f.usable())
    need = changed(room, pre["store"])
    return s, pre, post, ret, below, chg, need


def no_storage(f):
    z = eq(f.sy("capacity"), I(0))
    if f.ver == 2:
        z = OR(z, eq(seq_len(f.sy("store")), I(0)))
    return z


@rule("C03")
def c03(c):
    n = 0
    for f in fmts(c):
        for op in INSERTS[f.ver]:
            s, pre, post, ret, below, chg, need = insert_facts(c, f, op)
            tag = "v%d %s" % (f.ver, op)
            n += 1
            if need is None:
                c.ob(tag + ": the bits turned on by an insertion are understood", False, c.loc(s), short_term(post["store"]))
                continue
            z = no_storage(f)
            e = err(ret)
            us = [x for x in f.usable()]
            c.implies(tag + ": refused at capacity when a new bit is needed", AND(NOT(below), need, *[NOT(atom_bool(a)) for a, _ in us]), e, s)
            c.implies(tag + ": refused at capacity zero", eq(pre["capacity"], I(0)), e, s)
            c.implies(tag + ": a value whose bits are all set is accepted", AND(NOT(need), NOT(z), *[NOT(atom_bool(a)) for a, _ in us]), ok(ret), s)
            c.implies(tag + ": never refused below capacity", AND(below, NOT(z)), ok(ret), s)
            c.implies(tag + ": the refusal is the too-many-entries error", e, is_variant(payload(ret, 1), E_FULL, 7), s)
            fs = f.leaves_pre(s), f.leaves_post(s)
            for k in fs[0]:
                d = ite(e, fs[1][k], fs[0][k])
                c.eq(tag + ": a refused insertion leaves %s alone" % k, d, fs[0][k], s)
    c.floor("insertion entry points", n, 11)


@rule("C04")
def c04(c):
    n = 0
    for f in fmts(c):
        for op in INSERTS[f.ver]:
            s, pre, post, ret, below, chg, need = insert_facts(c, f, op)
            tag = "v%d %s" % (f.ver, op)
            n += 1
            if chg is None:
                c.ob(tag + ": the bits turned on by an insertion are understood", False, c.loc(s), short_term(post["store"]))
                continue
            new = AND(ok(ret), as_bool(payload(ret, 0)))
            c.eq(tag + ": returns true exactly when a bit was turned on", new, chg, s)
            c.eq(tag + ": the count grows by one exactly then", post["count"], ite(new, add("u64", pre["count"], I(1)), pre["count"]), s)
    c.floor("insertion entry points", n, 11)


# ---- C14 ---------------------------------------------------------------------
@rule("C14")
def c14(c):
    for f in fmts(c):
        s = f.s("clear")
        pre, post = f.L.pre(s, "b"), f.L.post(s, "b")
        for r in ("store", "cache"):
            if r not in f.role:
                continue
            k = f.role[r]
            zero = I(0) if not (f.ver == 2 and r == "store") else agg("s", fill(I(0), I(4096)))
            c.eq("v%d clear zeroes the whole %s" % (f.ver, r), post[k], fill(zero, seq_len(pre[k])), s)
        c.eq("v%d clear resets the element count" % f.ver, post[f.role["count"]], I(0), s)
        for k in pre:
            if k not in [f.role[r] for r in f.role if r in ("store", "cache", "count")]:
                c.eq("v%d clear keeps %s" % (f.ver, k), post[k], pre[k], s)
        no_panic(c, f, s, "v%d clear" % f.ver)
    c.floor("formats", 2, 2)


def no_panic(c, f, s, tag, facts=(), kinds=None):
    """no panic of the summary is feasible"""
    k = 0
    for e, g in guarded(s.events):
        if e.kind != "panic" or kinds and not any(x in e.name for x in kinds):
            continue
        k += 1
        g = f.n(g) if f else g
        g = under_all(g, facts)
        if not holds(NOT(g)):
            c.ob("%s: no panic (%s)" % (tag, e.name), False, c.loc(s), "%s at %s feasible when %s" % (e.name, s.P.where(e.span), short_term(g)))
            return
    c.ob("%s: no panic" % tag, True, c.loc(s), "%d potential panic sites infeasible" % k)


def guarded(evs, g=TRUE):
    """events with the condition under which they happen at all (loops: in some iteration)"""
    for e in evs:
        if e.kind == "loop":
            outer = AND(g, e.guard)
            nz = NOT(eq(e.n, I(0)))
            for k, kg in guarded(e.kids):
                inner = kg
                if e.tvar is not None and e.tvar in subterms_ids(kg):
                    inner = mk_exists_t(e.n, e.tvar, assume(kg, lt("u64", e.tvar, e.n)))
                yield k, AND(outer, nz, inner)
        else:
            yield e, AND(g, e.guard)


# ---- merging -----------------------------------------------------------------
def merged(c, f, s, post, op):
    """storage and count of a successful combination equal the reference"""
    L = c.lib
    ag = f.agree()
    tag = "v%d %s" % (f.ver, op)
    word = "union" if "union" in op else "intersection"
    t = mk("tvar", "#idx")
    st, other = f.sy("store"), f.sy("store", "o")
    inr = [(top_atom(lt("u64", t, seq_len(st))), True)]

    def comb8(a, b):
        return L.spec_post("spec_or8" if word == "union" else "spec_and8", "a", a=a, b=b)
    new = f.n(under_all(post["store"], ag))
    c.eq(tag + ": storage keeps its size", under_all(f.n(seq_len(new)), ag), under_all(f.n(seq_len(st)), ag), s, facts=ag)
    if f.ver == 1:
        want = under_all(f.n(L.spec_post("spec_or64", "a", a=st, b=other)), ag)
        c.eq(tag + ": every word is the bitwise combination", new, want, s, facts=ag)
        est = L.spec_ret("spec_estimate", m=f.sy("bits"), k=f.sy("hashes"), x=L.spec_ret("spec_ones64", a=L.spec_post("spec_or64", "a", a=st, b=other)))
    else:
        b1, b2 = field(sel(st, t), "s", 0), field(sel(other, t), "s", 0)
        for x in (b1, b2):
            tm.MULEN[x] = I(4096)
        w = comb8(b1, b2)
        got = under_all(sel(new, t), inr)
        c.eq(tag + ": every bucket is the bitwise combination", got, agg("s", w), s, facts=ag)
        want = under_all(f.n(comb8(f.sy("cache"), f.sy("cache", "o"))), ag)
        c.eq(tag + ": the whole index cache is combined", under_all(post["cache"], ag), want, s, facts=ag)
        est = mk_sum("u64", seq_len(st), t, L.spec_ret("spec_estimate", m=I(BUCKET_BITS), k=f.sy("hashes"), x=L.spec_ret("spec_ones8", a=w)))
    c.eq(tag + ": the element count is re-estimated from the merged bits", under_all(post["count"], ag), under_all(f.n(est), ag), s, facts=ag)


def inside_ok(f, s):
    """fields of a returned filter"""
    m = f.L.okfields(s)
    return {r: f.n(m[n]) for r, n in f.role.items()}


def owned(f, s):
    m = leafmap(f.L.P, f.ty, s.pre["b"]) if "b" in s.pre else None
    return m


@rule("C12")
def c12(c):
    for f in fmts(c):
        combine(c, f, ["union_merge"] + (["union"] if f.ver == 2 else []))
    c.floor("operations", 3, 3)


@rule("C13")
def c13(c):
    f = fmts(c)[1]
    combine(c, f, ["intersection_merge", "intersection"])
    c.floor("operations", 2, 2)


def combine(c, f, ops):
    for op in ops:
        s = f.s(op)
        ag = f.agree()
        tag = "v%d %s" % (f.ver, op)
        keep = [r for r in f.role if r not in ("store", "cache", "count")]
        if op.endswith("_merge"):
            merged(c, f, s, f.post(s), op)
            pre, post = f.leaves_pre(s), f.leaves_post(s)
            c.eq(tag + ": the other filter is untouched", s.post["o"], s.pre["o"], s)
        else:
            merged(c, f, s, inside_ok(f, s), op)
            post = {k: f.n(v) for k, v in f.L.okfields(s).items()}
            pre = {k: f.n(v) for k, v in f.L.pre(f.s("has_same_params"), "b").items()}
        kn = [f.role[r] for r in f.role if r not in keep]
        for k in pre:
            if k not in kn:
                c.eq(tag + ": keeps %s" % k, under_all(post[k], ag), pre[k] if pre[k].op != "sym" else under_all(pre[k], ag), s, facts=ag)


@rule("C11")
def c11(c):
    n = 0
    for f in fmts(c):
        ops = ["union_merge", "count_common_entries"] + (["intersection_merge", "union", "intersection"] if f.ver == 2 else [])
        for op in ops:
            s = f.s(op)
            tag = "v%d %s" % (f.ver, op)
            ret = f.n(s.ret)
            for what, cond in f.params():
                c.implies("%s: accepted only with the same %s" % (tag, what), ok(ret), cond, s)
            c.always(tag + ": accepted when everything agrees", under_all(ok(ret), f.agree()), s, facts=f.agree())
            c.implies(tag + ": the refusal is the merge error", err(ret), is_variant(payload(ret, 1), E_MERGE, 7), s)
            if "b" in s.pre:
                pre, post = f.leaves_pre(s), f.leaves_post(s)
                for k in pre:
                    c.eq("%s: a refusal leaves %s alone" % (tag, k), ite(err(ret), post[k], pre[k]), pre[k], s)
            no_panic(c, f, s, tag)
            n += 1
        s = f.s("has_same_params")
        for what, cond in f.params():
            c.implies("v%d has_same_params compares the %s" % (f.ver, what), f.n(as_bool(s.ret)), cond, s)
        c.always("v%d has_same_params accepts equal parameters" % f.ver, under_all(f.n(as_bool(s.ret)), f.agree()), s, facts=f.agree())
    # filters of different versions
    L = c.lib
    for op in ("union_merge", "count_common_entries", "has_same_params"):
        for a, b in ((0, 1), (1, 0)):
            s = L.s("bf_" + op, args={"b": boxed(c, a, "b"), "o": boxed(c, b, "o")}, key=("mixed", a, b))
            if op == "has_same_params":
                c.eq("different versions never have the same parameters", s.ret, FALSE, s)
            else:
                c.always("%s of different versions is the merge error" % op, AND(err(s.ret), is_variant(payload(s.ret, 1), E_MERGE, 7)), s)
                c.eq("%s of different versions changes nothing" % op, s.post["b"], s.pre["b"], s)
                for e, g in guarded(s.events):
                    if e.kind == "panic":
                        c.always("%s of different versions does not panic" % op, NOT(g), s)
            n += 1
    c.floor("operations", n, 13)


def boxed(c, k, nm):
    """a value of the common filter type holding version k+1"""
    f = fmts(c)[k]

    def g(P, st, ty, name):
        v = agg(k, symval(P, f.ty, nm))
        t = P.ty(ty)
        if t["k"] == "ref":
            st.mem["A:" + name] = v
            return ref("A:" + name)
        return v
    return g


# ---- C34 ---------------------------------------------------------------------
@rule("C34")
def c34(c):
    L = c.lib
    for f in fmts(c):
        s = f.s("count_common_entries")
        ag = f.agree()
        st, other = f.sy("store"), f.sy("store", "o")
        if f.ver == 1:
            x = L.spec_ret("spec_common64", a=st, b=other)
            est = L.spec_ret("spec_estimate", m=f.sy("bits"), k=f.sy("hashes"), x=x)
        else:
            t = mk("tvar", "#idx")
            b1, b2 = field(sel(st, t), "s", 0), field(sel(other, t), "s", 0)
            for x in (b1, b2):
                tm.MULEN[x] = I(4096)
            x = L.spec_ret("spec_common8", a=b1, b=b2)
            est = mk_sum("u64", seq_len(st), t, L.spec_ret("spec_estimate", m=I(BUCKET_BITS), k=f.sy("hashes"), x=x))
        got = under_all(f.n(payload(s.ret, 0)), ag)
        want = under_all(f.n(est), ag)
        c.eq("v%d: the estimate uses the bits set in both filters over the whole storage" % f.ver, got, want, s, facts=ag)
        swap = swapped(got)
        c.eq("v%d: the estimate does not depend on the order of the filters" % f.ver, under_all(swap, ag), got, s, facts=ag)
        for who in ("b", "o"):
            c.eq("v%d: estimating leaves filter %s unchanged" % (f.ver, who), s.post[who], s.pre[who], s)
        s = f.s("union_merge")
        post = f.post(s)
        merged(c, f, s, post, "union_merge")
    f = fmts(c)[1]
    s = f.s("intersection_merge")
    merged(c, f, s, f.post(s), "intersection_merge")
    c.floor("formats", 2, 2)


def swapped(t):
    m = {}
    for x in subterms_ids(t):
        if x.op == "sym" and x.args[0][:2] in ("b.", "o."):
            m[x] = mk("sym", ("o." if x.args[0][0] == "b" else "b.") + x.args[0][2:], *x.args[1:])
    return subst(t, m)


# ---- C32, C31 ----------------------------------------------------------------
@rule("C32")
def c32(c):
    for f in fmts(c):
        s = f.s("is_full")
        pre = f.pre(s)
        full = NOT(lt("u64", pre["count"], pre["capacity"]))
        c.eq("v%d: full means count is at least the capacity" % f.ver, as_bool(f.n(s.ret)), full, s)
        op = INSERTS[f.ver][0]
        q, pre, post, ret, below, chg, need = insert_facts(c, f, op)
        if need is None:
            c.ob("v%d: insertion is understood" % f.ver, False, c.loc(q), short_term(post["store"]))
            continue
        us = f.usable()
        c.implies("v%d: a full filter refuses what needs a new bit" % f.ver, AND(as_bool(f.n(s.ret)), need, *[NOT(atom_bool(a)) for a, _ in us]), err(ret), q)
        c.implies("v%d: a filter that is not full refuses nothing" % f.ver, AND(NOT(as_bool(f.n(s.ret))), NOT(no_storage(f))), ok(ret), q)
        c.eq("v%d: asking does not change the filter" % f.ver, s.post["b"], s.pre["b"], s)
    c.floor("formats", 2, 2)


@rule("C31")
def c31(c):
    for f in fmts(c):
        s = f.s("size_in_bytes")
        if f.ver == 1:
            want = mul("u64", seq_len(f.sy("store")), I(8))
        else:
            want = add("u64", mul("u64", seq_len(f.sy("store")), I(4096)), seq_len(f.sy("cache")))
        c.eq("v%d: size_in_bytes is the storage size" % f.ver, f.n(s.ret), f.n(want), s)
    f = fmts(c)[0]
    s = f.s("size_in_u64")
    c.eq("v1: size_in_u64 is the number of words", f.n(s.ret), f.n(seq_len(f.sy("store"))), s)
    # also after reading metadata only
    from .files import loaded
    for k, f in enumerate(fmts(c)):
        q = f.s("size_in_bytes")
        pre = f.L.pre(q, "b")
        full, part = loaded(c, k, "bf_from_reader"), loaded(c, k, "bf_partial_from_reader")
        m1 = {pre[x]: v for x, v in full[1].items()}
        m2 = {pre[x]: v for x, v in part[1].items()}
        c.eq("v%d: metadata-only loading reports the size of the full filter" % f.ver, given(subst(q.ret, m2), part[2]), given(subst(q.ret, m1), full[2]), q)
    c.floor("formats", 2, 2)


# ---- addressing ----------------------------------------------------------------
@rule("C19")
def c19(c):
    L = c.lib
    f = fmts(c)[0]
    us = f.usable()
    s = f.s("contains")
    v = s.pre["v"]
    c.eq("lookup tests the reference positions", under_all(f.n(as_bool(s.ret)), us), under_all(f.n(as_bool(f.all_set(v))), us), s, facts=us)
    for op in INSERTS[1]:
        s = f.s(op)
        v = s.pre.get("v") or s.vals[1]
        post = f.post(s)
        want = L.spec_post("spec_v1_set_all", "bits", bits=f.sy("store"), k=f.sy("hashes"), m=f.sy("bits"), v=v)
        below = facts_of(lt("u64", f.sy("count"), f.sy("capacity")))
        c.eq("%s sets the reference positions" % op, under_all(post["store"], us + below), under_all(f.n(want), us), s, facts=us + below)
    for op, n, p in (("with_capacity", None, None), ("try_from", None, None)):
        s = f.s(op)
        m = L.okfields(s)
        n, p = m[f.role["capacity"]], m[f.role["fpp"]]
        bits = L.spec_ret("spec_v1_m", n=n, p=p)
        c.eq(op + ": bit count follows the reference formula", m[f.role["bits"]], bits, s)
        c.eq(op + ": hash count follows the reference formula", m[f.role["hashes"]], L.spec_ret("spec_v1_k", m=bits, n=n), s)
        c.eq(op + ": storage holds the bits", seq_len(m[f.role["store"]]), L.spec_ret("spec_words", m=bits), s)
        c.eq(op + ": a new filter is empty", m[f.role["store"]], fill(I(0), seq_len(m[f.role["store"]])), s)
    s = L.s("util_bit_size")
    c.eq("bit_size follows the reference formula", s.ret, L.spec_ret("spec_v1_m", n=s.vals[0], p=s.vals[1]), s)
    s = f.s("n_bits")
    c.eq("n_bits reports the bit size", f.n(s.ret), f.n(f.sy("bits")), s)
    s = f.s("n_hash_fn")
    c.eq("n_hash_fn reports the hash count", f.n(s.ret), f.n(f.sy("hashes")), s)
    c.floor("entry points", len(INSERTS[1]) + 3, 6)


def renamed(t):
    """the value behind a reference to a reference is the value"""
    return subst(t, {sym("v*", "seq"): sym("v", "seq")})


@rule("C18")
def c18(c):
    L = c.lib
    f = fmts(c)[1]
    us = f.usable()
    v = sym("v", "seq")
    h = L.spec_ret("spec_v2_hash", v=v)
    cache = f.sy("cache")
    clen = seq_len(cache)
    cb = L.spec_ret("spec_v2_cache_bit", h=h, bits=mul("u64", clen, I(8)))
    cached = OR(eq(clen, I(0)), L.spec_ret("spec_bit_get", a=cache, i=cb))
    i, b = f.bucket(h)
    s = f.s("contains_bytes")
    c.eq("lookup tests the fixed positions", under_all(f.n(as_bool(s.ret)), us), under_all(f.n(AND(cached, f.all_set(v))), us), s, facts=us)
    below = facts_of(lt("u64", f.sy("count"), f.sy("capacity")))
    for op in ("insert_bytes", "insert_slice"):
        s = f.s(op)
        post = {k: renamed(x) for k, x in f.post(s).items()}
        want = upd(f.sy("store"), i, agg("s", L.spec_post("spec_v2_set_all", "bucket", bucket=b, h=h, k=f.sy("hashes"))))
        c.eq(op + " sets the fixed positions of the bucket", under_all(post["store"], us + below), under_all(f.n(want), us), s, facts=us + below)
        cset = L.spec_post("spec_bit_set", "a", a=cache, i=cb)
        c.eq(op + " sets the fixed index-cache position", under_all(post["cache"], us + below), under_all(ite(eq(clen, I(0)), cache, cset), us), s, facts=us + below)
    c.floor("entry points", 3, 3)


@rule("C17")
def c17(c):
    L = c.lib
    f = fmts(c)[1]
    v = sym("v", "seq")
    h = L.spec_ret("spec_v2_hash", v=v)
    s = f.s("build_index_iter")
    lv = [renamed(x) for x in leafmap(L.P, s.retty, s.ret).values()]
    hs = [x for x in lv if same(x, h)]
    c.ob("the value hash is the zero-padded integer or the seeded hash of all bytes", len(hs) == 1, c.loc(s), "; ".join(short_term(x, 120) for x in lv))
    for x in lv:
        if x not in hs:
            c.ob("nothing else of the value is used", v not in subterms_ids(x), c.loc(s), short_term(x))
    base = f.s("contains_bytes")
    for op in ("contains_bytes_str", "contains_slice", "contains_vec", "contains_str", "contains_string"):
        s = f.s(op)
        c.eq(op + " looks up the same entry as the byte slice", renamed(as_bool(s.ret)), as_bool(base.ret), s)
    base = f.s("insert_bytes")
    for op in ("insert_bytes_string", "insert_slice", "insert_vec", "insert_str", "insert_string", "iter_insert"):
        s = f.s(op)
        c.eq(op + " returns what inserting the byte slice returns", renamed(s.ret), base.ret, s)
        a, b = L.post(s, "b"), L.post(base, "b")
        for k in a:
            c.eq("%s leaves the same %s as inserting the byte slice" % (op, k), renamed(a[k]), b[k], s)
    f1 = fmts(c)[0]
    base = f1.s("insert")
    for op in ("insert_vec", "insert_str"):
        s = f1.s(op)
        c.eq("v1 %s returns what inserting the byte slice returns" % op, s.ret, base.ret, s)
        c.eq("v1 %s leaves the same filter as inserting the byte slice" % op, s.post["b"], base.post["b"], s)
    s = f1.s("contains_str")
    c.eq("v1 contains_str looks up the same entry as the byte slice", s.ret, f1.s("contains").ret, s)
    c.floor("carriers", 14, 14)


@rule("C20")
def c20(c):
    L = c.lib
    f = fmts(c)[1]
    s, b = f.s("iter_insert"), f.s("insert_slice")
    c.eq("inserting a prepared iterator returns what inserting the value returns", s.ret, b.ret, s)
    for k, v in L.post(s, "b").items():
        c.eq("inserting a prepared iterator leaves the same %s" % k, v, L.post(b, "b")[k], s)
    s, b = f.s("iter_contains"), f.s("contains_slice")
    c.always("checking a prepared iterator succeeds", ok(s.ret), s)
    c.eq("checking a prepared iterator answers what checking the value answers", as_bool(payload(s.ret, 0)), as_bool(b.ret), s)
    for op in ("insert_iter_default", "contains_iter_default"):
        s = f.s(op)
        c.always(op + ": an iterator that was never initialised is refused", AND(err(s.ret), is_variant(payload(s.ret, 1), E_ITER, 7)), s)
        c.eq(op + ": the filter is unchanged", s.post["b"], s.pre["b"], s)
        no_panic(c, f, s, op)
    # advanced iterators: one step of an iterator that has steps left
    it = f.s("build_index_iter")
    ty = it.retty
    names = [n for n, _ in L.P.ty(ty)["variants"][0][2]] if L.P.ty(ty)["k"] == "adt" else []
    stepper = [x for x in L.P.fns.values() if x.has_body and "IndexIterator" in x.path and x.path.endswith("Iterator>::next")]
    if "count" in names and len(stepper) == 1:
        fresh_it = agg("s", *[sym("it.count", "u64") if n == "count" else x for n, x in zip(names, it.ret.args[1:])])
        P = L.P

        def at(v):
            def g(P, st, ty, nm):
                if P.ty(ty)["k"] == "ref":
                    st.mem["A:" + nm] = v
                    return ref("A:" + nm)
                return v
            return g
        stp = summarise(P, stepper[0], args={"self": at(fresh_it)})
        after = stp.post["self"]
        L.fns.update(stp.analysed)
        some = NOT(eq(sym("it.count", "u64"), I(0)))
        for op in ("insert_iter", "contains_iter"):
            fn = [x for x in P.fns.values() if x.has_body and x.path.split("::")[-1] == op and x.krate.startswith("poppy")]
            if len(fn) != 1:
                raise Missing("%s: %d functions" % (op, len(fn)))
            q = summarise(P, fn[0], args={"it": at(after)})
            L.fns.update(q.analysed)
            c.implies(op + ": an advanced iterator is refused", some, AND(err(q.ret), is_variant(payload(q.ret, 1), E_ITER, 7)), q)
            c.eq(op + ": an advanced iterator leaves the filter alone", ite(some, q.post["self"], q.pre["self"]), q.pre["self"], q)
    c.floor("entry points", 5, 5)


# ---- C33 ---------------------------------------------------------------------
@rule("C33")
def c33(c):
    L = c.lib
    f = fmts(c)[1]
    for op in ("try_from", "with_capacity"):
        s = f.s(op)
        m = L.okfields(s)
        g = {r: m[n] for r, n in f.role.items()}
        sz = L.spec_ret("spec_v2_sizes", n=g["capacity"], p=g["fpp"], opt=g["opt"])
        bk, hs, cb = (field(sz, "s", i) for i in range(3))
        c.eq(op + ": bucket count", seq_len(g["store"]), bk, s)
        c.eq(op + ": hash count", g["hashes"], hs, s)
        c.eq(op + ": index-cache size", seq_len(g["cache"]), cdiv_(cb), s)
        c.eq(op + ": new buckets are empty", g["store"], fill_like(g["store"], agg("s", fill(I(0), I(4096)))), s)
        c.eq(op + ": the new index cache is empty", g["cache"], fill_like(g["cache"], I(0)), s)
        c.eq(op + ": a new filter counts no element", g["count"], I(0), s)
        c.eq(op + ": a new filter carries no data", g["data"], EMPTY, s)
    s = f.s("try_from")
    m = L.okfields(s)
    c.eq("capacity is the requested one", m[f.role["capacity"]], field_of(L, s, "p", "capacity"), s)
    c.eq("probability is the requested one", m[f.role["fpp"]], field_of(L, s, "p", "fpp"), s)
    c.eq("optimisation level is the requested one", disc(m[f.role["opt"]]), disc(field_of(L, s, "p", "opt")), s)
    s = f.s("with_capacity")
    m = L.okfields(s)
    c.eq("with_capacity: capacity is the requested one", m[f.role["capacity"]], s.vals[0], s)
    c.eq("with_capacity: probability is the requested one", m[f.role["fpp"]], s.vals[1], s)
    c.eq("with_capacity: no optimisation", disc(m[f.role["opt"]]), I(0), s)
    # two filters made from equal parameters can be merged
    for f in fmts(c):
        q = f.s("try_from")
        okc = ok(q.ret)
        val = payload(q.ret, 0)

        def at(v):
            def g(P, st, ty, nm):
                st.mem["A:" + nm] = v
                return ref("A:" + nm)
            return g
        r = L.s(f.p + "_has_same_params", args={"b": at(val), "o": at(val)}, key="twin")
        c.implies("v%d: filters made from equal parameters have the same parameters" % f.ver, okc, as_bool(r.ret), r)
    c.floor("constructors", 2, 2)


def cdiv_(bits):
    return lift(lambda x: cdiv(x, I(8)), num(bits))


def fill_like(seq, v):
    return map_leaves(seq, lambda x: fill(v, seq_len(x)))


# ---- C10 ---------------------------------------------------------------------
@rule("C10")
def c10(c):
    L = c.lib
    n = 0
    tests = [("v1_with_capacity", "p", None), ("v1_try_from", "p.fpp", None), ("v2_with_capacity", "p", None), ("v2_try_from", "p.fpp", None),
             ("bf_with_version_capacity_opt", "p", "v"), ("bf_with_version_capacity", "p", "v"), ("bf_with_capacity", "p", None), ("bf_try_from", "p.fpp", "p.version"),
             ("params_try_into_v1", "p.fpp", None), ("params_try_into_v2", "p.fpp", None)]
    for root, p, v in tests:
        s = L.s(root)
        if p == "p":
            x = [a for a in s.vals if a.op == "sym" and a.args[1] == "f64"][0]
        else:
            x = field_of(L, s, "p", "fpp")
        ver = None
        if v == "v":
            ver = s.vals[0]
        elif v:
            ver = field_of(L, s, "p", "version")
        good = AND(fcmp("flt", F(0.0), x), fcmp("fle", x, F(1.0)))
        o = ok(s.ret)
        c.implies(root + ": no filter for a probability of zero or less, or not a number", o, fcmp("flt", F(0.0), x), s)
        c.implies(root + ": no filter for a probability above one, or not a number", o, fcmp("fle", x, F(1.0)), s)
        normal = [(top_atom(fcmp("fle", F(2.2250738585072014e-308), x)), True), (top_atom(fcmp("fle", x, F(1.0))), True)]
        sup = TRUE if ver is None else OR(eq(ver, I(1)), eq(ver, I(2)))
        c.implies(root + ": every normal probability in ]0;1] is accepted", sup, under_all(o, normal), s)
        e = payload(s.ret, 1)
        bad = OR(NOT(fcmp("fle", F(2.2250738585072014e-308), x)), NOT(fcmp("fle", x, F(1.0))))
        c.implies(root + ": the refusal is the wrong-fpp error", AND(err(s.ret), sup), AND(is_variant(e, E_WRONGFPP, 7), feq_or_nan(payload(e, E_WRONGFPP), x)), s)
        if ver is not None:
            c.implies(root + ": an unsupported version is refused", NOT(sup), err(s.ret), s)
            c.implies(root + ": an unsupported version is the invalid-version error", NOT(sup), is_variant(e, E_VERSION, 7), s)
        n += 1
    c.floor("constructors", n, 10)


def feq_or_nan(a, b):
    return TRUE if same(a, b) else FALSE


# ---- C21 ---------------------------------------------------------------------
@rule("C21")
def c21(c):
    n = 0
    f1, f2 = fmts(c)
    ops = {1: ["insert", "insert_vec", "insert_str", "contains", "contains_str", "clear", "count_ones", "count_zeros", "bits", "insert_contains"],
           2: ["insert_bytes", "contains_bytes", "insert_slice", "insert_vec", "insert_str", "insert_string", "insert_u64", "contains_slice", "contains_vec", "contains_str",
               "contains_string", "contains_u8", "contains_u16", "contains_u32", "contains_u64", "contains_u128", "contains_i64", "contains_opt_u64", "iter_insert", "iter_contains",
               "clear", "count_ones", "count_zeros", "insert_contains_bytes"]}
    for f in (f1, f2):
        for op in ops[f.ver]:
            s = f.s(op)
            no_panic(c, f, s, "v%d %s" % (f.ver, op))
            n += 1
        c.ob("v%d: the storage length is determined by the stored parameters" % f.ver, any(k.op == "len" or e.op == "len" for k, e in f.inv.items()), c.loc(f.s("try_from")),
             "no relation between the storage length and the other fields holds in constructor, loader and all operations")
    s = f2.s("try_from")
    m = c.lib.okfields(s)
    cl = seq_len(m[f2.role["cache"]])
    t = []
    for x in leaves(cl):
        y = x
        if y.op == "cdiv":
            y = y.args[0]
        for z in leaves(y.args[0] if y.op == "phi" else y):
            t.append(z.op == "i" and ival(z) == 0 or z.op == "npot")
    c.ob("v2: an index cache has a power of two of bits, so masking reaches exactly its positions", all(t) and t, c.loc(s), short_term(cl))
    c.floor("operations", n, 34)


# ---- C16 ---------------------------------------------------------------------
UNARY = ("capacity", "fpp", "size_in_bytes", "count_estimate", "is_full")
BINARY = ("has_same_params", "union_merge", "count_common_entries")


def forwarded(c, *ops, result=True):
    """the named operations of the common type do what the wrapped format does"""
    L = c.lib
    for k, f in enumerate(fmts(c)):
        own = {"insert_bytes": "insert", "contains_bytes": "contains"} if f.ver == 1 else {}
        for op in ops:
            args = {"b": boxed(c, k, "b")}
            if op in BINARY:
                args["o"] = boxed(c, k, "o")
            s = L.s("bf_" + op, args=args, key=("v", k))
            q = f.s(own.get(op, op))
            want = q.ret if op != "clone" else agg(k, q.ret)
            if result:
                c.eq("v%d %s returns what the wrapped filter returns" % (f.ver, op), outcome(s.ret), outcome(want), s)
            for who in ("b", "o"):
                if who in q.post:
                    c.eq("v%d %s has the effect of the wrapped operation on %s" % (f.ver, op, who), s.post[who], agg(k, q.post[who]), s)


def saved_alike(c):
    """saving the common type writes what the wrapped format writes"""
    from .files import written, save_ok
    for k, f in enumerate(fmts(c)):
        s = c.lib.s("bf_write", args={"b": boxed(c, k, "b")}, key=("v", k))
        q = f.s("write")
        a, b = written(s), written(q)
        c.ob("v%d write produces what the wrapped filter writes" % f.ver, len(a) == len(b) and all(seg_same(x, y) for x, y in zip(a, b)), c.loc(s), seg_show(a))
        save_ok(c, s, "v%d write of the common type" % f.ver)


def created_alike(c):
    """creating the common type makes what the named format's constructor makes"""
    L = c.lib
    for k, f in enumerate(fmts(c)):
        for root in ("bf_with_version_capacity_opt", "bf_with_version_capacity", "bf_try_from"):
            q = L.s(root)
            vr = q.vals[0] if root != "bf_try_from" else field_of(L, q, "p", "version")
            cap, p = (q.vals[1], q.vals[2]) if root != "bf_try_from" else (field_of(L, q, "p", "capacity"), field_of(L, q, "p", "fpp"))
            op = (q.vals[3] if len(q.vals) > 3 else agg(0)) if root != "bf_try_from" else field_of(L, q, "p", "opt")
            creates(c, f, k, q, under_all(q.ret, [(top_atom(eq(vr, I(f.ver))), True)]), cap, p, op, root, vr)
    q = L.s("bf_with_capacity")
    creates(c, fmts(c)[1], 1, q, q.ret, q.vals[0], q.vals[1], agg(0), "bf_with_capacity", None)


def loaded_alike(c):
    """loading the common type gives what the named format's loader gives"""
    L = c.lib
    for k, f in enumerate(fmts(c)):
        s = L.s("bf_from_reader")
        vb = [(top_atom(eq(sel(mk("rd", s.vals[0].args[1], I(0), I(1)), I(0)), I(f.ver))), True)]
        q = f.s("from_reader")
        r1 = under_all(s.ret, vb)
        c.always("v%d loading makes a filter of the format named by the version byte" % f.ver, ite(ok(r1), is_variant(payload(r1, 0), k), TRUE), s)
        c.eq("v%d loading succeeds exactly when the format's own loader does" % f.ver, ok(r1), under_all(ok(q.ret), vb), s)
        got = {a: given(x, ok(r1)) for a, x in leafmap(L.P, f.ty, payload(payload(r1, 0), k)).items()}
        want = {a: given(under_all(x, vb), ok(r1)) for a, x in L.okfields(q).items()}
        for a in want:
            c.eq("v%d loading fills %s as the format's own loader does" % (f.ver, a), got[a], want[a], s, facts=facts_of(ok(r1)))


# properties stated for filters hold for the common type as well: what it
# forwards is compared with the operations the other rules decide
rule("C01")(lambda c: forwarded(c, "insert_bytes", "contains_bytes"))
rule("C02")(lambda c: forwarded(c, "insert_bytes", "contains_bytes", "union_merge", "count_common_entries", "has_same_params", "clone", *UNARY, result=False))
rule("C03")(lambda c: forwarded(c, "insert_bytes"))
rule("C04")(lambda c: forwarded(c, "insert_bytes", "count_estimate"))
rule("C05")(lambda c: (saved_alike(c), loaded_alike(c)))
rule("C06")(saved_alike)
rule("C11")(lambda c: forwarded(c, *BINARY))
rule("C12")(lambda c: forwarded(c, "union_merge"))
rule("C14")(lambda c: forwarded(c, "clear"))
rule("C17")(lambda c: forwarded(c, "insert_bytes", "contains_bytes"))
rule("C18")(lambda c: forwarded(c, "insert_bytes", "contains_bytes"))
rule("C19")(lambda c: (forwarded(c, "insert_bytes", "contains_bytes"), created_alike(c)))
rule("C31")(lambda c: forwarded(c, "size_in_bytes"))
rule("C32")(lambda c: forwarded(c, "is_full", "insert_bytes"))
rule("C33")(created_alike)
rule("C34")(lambda c: forwarded(c, "count_common_entries", "union_merge"))


@rule("C16")
def c16(c):
    L = c.lib
    forwarded(c, *UNARY, *BINARY, "clear", "insert_bytes", "contains_bytes", "clone")
    saved_alike(c)
    created_alike(c)
    loaded_alike(c)
    for k, f in enumerate(fmts(c)):
        s = L.s("bf_version", args={"b": boxed(c, k, "b")}, key=("v", k))
        c.eq("v%d is reported as version %d" % (f.ver, f.ver), s.ret, I(f.ver), s)
        s = L.s("bf_data", args={"b": boxed(c, k, "b")}, key=("v", k))
        c.eq("v%d data is the attached data of the wrapped filter" % f.ver, s.st.load(s.ret), f.sy("data"), s)
    # parameter structures
    s = L.s("params_new")
    m = leafmap(L.P, s.retty, s.ret)
    c.eq("default parameters: capacity", m["capacity"], s.vals[0], s)
    c.eq("default parameters: probability", m["fpp"], s.vals[1], s)
    c.eq("default parameters: version 2", m["version"], I(2), s)
    c.eq("default parameters: no optimisation", disc(m["opt"]), I(0), s)
    for root, key, i in (("params_version", "version", 1), ("params_opt", "opt", 1)):
        s = L.s(root)
        m = leafmap(L.P, s.retty, s.ret)
        old = leafmap(L.P, s.retty, s.vals[0])
        for k in m:
            c.eq("%s: %s" % (root, k), m[k], s.vals[1] if k == key else old[k], s)
    for k, f in enumerate(fmts(c)):
        s = L.s("params_try_into_v%d" % f.ver)
        c.eq("params_try_into_v%d is the format's own constructor" % f.ver, s.ret, f.s("try_from").ret, s)
    s = L.s("opt_try_from")
    for k in range(4):
        fs = [(top_atom(eq(s.vals[0], I(k))), True)]
        c.eq("optimisation level %d" % k, under_all(s.ret, fs), agg(0, agg(k)), s)
    c.implies("other optimisation levels are refused", AND(*[NOT(eq(s.vals[0], I(k))) for k in range(4)]), err(s.ret), s)
    c.floor("obligations", len(c.obs), 80)


def outcome(v):
    """a result without the wording of its error message"""
    def f(x):
        if x.op == "agg" and x.args[0] == 1 and len(x.args) == 2:
            return agg(1, map_leaves(x.args[1], lambda e: agg(E_MERGE) if e.op == "agg" and e.args[0] == E_MERGE else e))
        return x
    return map_leaves(v, f)


def creates(c, f, k, s, ret, cap, p, opt, root, ver):
    """the common constructor makes what the format's constructor makes"""
    L = c.lib

    def arg(P, st, ty, nm):
        fs = [n for n, _ in P.ty(ty)["variants"][0][2]]
        vals = dict(capacity=cap, fpp=p, version=I(f.ver) if ver is None else ver, opt=opt)
        if any(n not in vals for n in fs):
            raise Missing("parameter structure has fields %s" % fs)
        return agg("s", *[vals[n] for n in fs])
    q = L.s(f.p + "_try_from", args={"p": arg}, key=("creates", root, f.ver))
    want = q.ret if ver is None else under_all(q.ret, [(top_atom(eq(ver, I(f.ver))), True)])
    c.eq("%s version %d succeeds exactly when the format's constructor does" % (root, f.ver), ok(ret), ok(want), s)
    c.always("%s version %d makes a version %d filter" % (root, f.ver, f.ver), ite(ok(ret), is_variant(payload(ret, 0), k), TRUE), s)
    got = leafmap(L.P, f.ty, payload(payload(ret, 0), k))
    ref_ = leafmap(L.P, f.ty, payload(want, 0))
    for a in ref_:
        c.eq("%s version %d: %s as the format's constructor sets it" % (root, f.ver, a), got[a], ref_[a], s)


def seg_same(a, b):
    if a[0] != b[0]:
        return False
    if a[0] == "seg":
        return same(a[1], b[1])
    if a[0] == "loop":
        return same(a[1], b[1]) and same(a[2], b[2])
    return False


def seg_show(a):
    return " ; ".join(short_term(x[1], 60) if x[0] == "seg" else "%s x %s" % (short_term(x[1], 40), short_term(x[2], 60)) if x[0] == "loop" else "?" for x in a)


# ---- C35 ---------------------------------------------------------------------
@rule("C35")
def c35(c):
    L = c.lib
    P = L.P
    s = L.s("bf_fill", key="opaque", opaque=lambda fn: fn.krate.startswith("poppy") and fn.path.split("::")[-1] in ("insert_bytes", "insert"))
    d = s.vals[1]
    loops = [e for e in s.events if e.kind == "loop"]
    calls = [e for e in walk(s.events) if e.kind == "call" and e.name.split("::")[-1] in ("insert_bytes", "insert")]
    okay = len(loops) == 1 and len(calls) == 1 and calls[0] in loops[0].kids
    c.ob("fill inserts in one pass over the collection", okay, c.loc(s), "%d loops, %d insertions" % (len(loops), len(calls)))
    if not okay:
        return
    lp, ev = loops[0], calls[0]
    c.eq("the pass visits every element", lp.n, seq_len(d), s)
    c.always("the pass is always made", lp.guard, s)
    c.always("every visited element is inserted", assume(ev.guard, lt("u64", lp.tvar, lp.n)), s)
    arg = [a for a in ev.args if any(x is lp.tvar for x in subterms_ids(a))]
    val = [deref(s, a) for a in ev.args[1:]]
    c.ob("the elements are inserted unchanged and in order", any(same(x, sel(d, lp.tvar)) for x in val), c.loc(s), "; ".join(short_term(x) for x in val))
    bad = mk_exists_t(lp.n, lp.tvar, err(ev.res))
    c.eq("fill succeeds exactly when every insertion succeeds", ok(s.ret), NOT(bad), s)
    t1 = mk("first", lp.n, lam(lp.tvar, err(ev.res)))
    c.eq("the first failing insertion's error is returned", given(payload(s.ret, 1), bad), given(subst(payload(ev.res, 1), {lp.tvar: t1}), bad), s)
    c.floor("insertions", len(calls), 1)


def deref(s, a):
    n = 0
    while a.op == "ref" and n < 4:
        a = s.st.load(a)
        n += 1
    return a
