"""Bitset primitives."""
from .base import *

SETS = (("ba", "b.0", 4096), ("bo", "b.0", 13), ("bv", "b.0", None))


def storage(c, s, nm="b"):
    m = c.lib.pre(s, nm)
    seqs = [k for k, v in m.items() if v.op == "sym" and v.args[1] == "seq"]
    if len(seqs) != 1:
        raise Missing("bitset without a single storage field: %s" % sorted(m))
    return seqs[0]


@rule("C15")
def c15(c):
    L = c.lib
    n = 0
    for p, _, size in SETS:
        S = lambda op: L.s("%s_%s" % (p, op))

        def pre(s, nm="b"):
            return L.pre(s, nm)[storage(c, s, nm)]

        def post(s, nm="b"):
            return L.post(s, nm)[storage(c, s, nm)]

        def fixed(v):
            # the array type has a fixed length
            return subst(v, {mk("len", sym("b.0", "seq")): I(size), mk("len", sym("o.0", "seq")): I(size)}) if size else v
        s = S("get")
        c.eq(p + ": reading returns the bit", s.ret, L.spec_ret("spec_bit_get", a=pre(s), i=s.vals[1]), s)
        c.eq(p + ": reading changes nothing", post(s), pre(s), s)
        for op in ("set", "unset"):
            s = S(op)
            c.eq("%s: %s returns the previous bit" % (p, op), s.ret, L.spec_ret("spec_bit_get", a=pre(s), i=s.vals[1]), s)
            c.eq("%s: %s changes exactly that bit" % (p, op), post(s), L.spec_post("spec_bit_" + op, "a", a=pre(s), i=s.vals[1]), s)
        for op in ("get", "set", "unset"):
            s = S(op)
            for e in walk(s.events):
                if e.kind == "panic":
                    inr = lt("u64", div("u64", s.vals[1], I(8)), I(size) if size else mk("len", pre(s)))
                    c.implies("%s: %s does not panic in range" % (p, op), inr, NOT(fixed(e.guard)), s)
        s = S("clear")
        v = post(s)
        c.eq(p + ": clear zeroes every byte", fixed(v), fixed(fill(I(0), mk("len", pre(s)))), s)
        for op, spec in (("count_ones", "spec_ones8"),):
            s = S(op)
            c.eq(p + ": count_ones counts every byte", fixed(s.ret), fixed(L.spec_ret(spec, a=pre(s))), s)
        s = S("count_zeros")
        ones = L.spec_ret("spec_ones8", a=pre(s))
        c.eq(p + ": zeros and ones sum to the bit length", fixed(s.ret), fixed(sub("u64", mul("u64", mk("len", pre(s)), I(8)), ones)), s)
        s = S("bit_len")
        c.eq(p + ": length in bits", fixed(s.ret), fixed(mul("u64", mk("len", pre(s)), I(8))), s)
        s = S("byte_len")
        c.eq(p + ": length in bytes", fixed(s.ret), fixed(mk("len", pre(s))), s)
        s = S("count_ones_in_common")
        c.eq(p + ": common ones cover every byte", fixed(s.ret), fixed(L.spec_ret("spec_common8", a=pre(s), b=pre(s, "o"))), s,
             facts=[] if size else [(mk("eq", *sorted((mk("len", pre(s)), mk("len", pre(s, "o"))))), True)])
        for op, spec in (("union", "spec_or8"), ("intersection", "spec_and8")):
            s = S(op)
            facts = [] if size else [(mk("eq", *sorted((mk("len", pre(s)), mk("len", pre(s, "o"))))), True)]
            c.eq("%s: %s is byte-wise on the whole set" % (p, op), fixed(post(s)), fixed(L.spec_post(spec, "a", a=pre(s), b=pre(s, "o"))), s, facts=facts)
            c.eq("%s: %s leaves the other set alone" % (p, op), post(s, "o"), pre(s, "o"), s)
        s = S("as_slice")
        c.eq(p + ": bytes are the whole storage", fixed(s.st.load(s.ret)), fixed(pre(s)), s)
        s = S("as_mut_slice")
        c.eq(p + ": bytes open to changes are the whole storage", fixed(s.st.load(s.ret)), fixed(pre(s)), s)
        n += 1
        if size:
            s = S("new")
            v = list(leafmap(L.P, s.retty, s.ret).values())
            c.eq(p + ": a new set is all zero", v[0], fill(I(0), I(size)), s)
            c.eq(p + ": size of the type in bytes", S("byte_size").ret, I(size), S("byte_size"))
            c.eq(p + ": size of the type in bits", S("bit_size").ret, I(8 * size), S("bit_size"))
    s = L.s("bv_with_bit_capacity")
    v = list(leafmap(L.P, s.retty, s.ret).values())
    c.eq("bv: a new set is all zero with room for the bits", v[0], fill(I(0), L.spec_ret("spec_ceil8", n=s.vals[0])), s)
    s = L.s("bv_is_empty")
    c.eq("bv: empty means no byte", s.ret, eq(mk("len", L.pre(s, "b")[storage(c, s)]), I(0)), s)
    c.floor("bitset types", n, 3)
