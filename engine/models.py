"""Value-flow summaries of the standard library operations the code uses."""
from .terms import *
from .flow import *
from . import flow as fl

MODELS = {}


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


NONE = agg(0)


def some(v):
    return agg(1, v)


def ok(v):
    return agg(0, v)


def err(v):
    return agg(1, v)


def option(c, v):
    return ite(c, some(v), NONE)


def identity0(c):
    return c.a[0]


for n in """Vec.deref Vec.deref_mut Vec.as_slice Vec.as_mut_slice String.deref String.deref_mut String.as_bytes str.as_bytes
 str.as_ref array.as_slice array.as_mut_slice array.as_ref Vec.as_ref slice.as_ref String.as_ref str.as_bytes_mut String.as_str
 String.as_mut_str PathBuf.deref Path.as_ref Vec.borrow slice.borrow String.borrow array.borrow array.as_mut slice.as_mut Vec.as_mut
 Box.deref Box.as_ref Vec.borrow_mut str.as_str hint::must_use hint::black_box __private::must_use Vec.into_boxed_slice slice.into_vec
 String.into_bytes String.into_boxed_str Vec.leak PathBuf.as_path OsStr.as_ref PathBuf.as_ref str.borrow slice.as_slice""".split():
    MODELS[n] = identity0


@model("&slice.as_ref", "&Vec.as_ref", "&str.as_ref", "&String.as_ref", "&array.as_ref", "&T.as_ref")
def ref_as_ref(c):
    # &T as AsRef: look through one reference when the target is sequence-like
    inner = c.P.ty(c.P.ty(c.tys[0])["t"])
    if inner["k"] == "ref":
        v = c.load(0)
        t2 = c.P.ty(inner["t"])
        if t2["k"] in ("slice", "str", "array") or t2["k"] == "adt" and t2["name"].split("::")[-1] in ("Vec", "String", "PathBuf", "Path"):
            return v
    return NotImplemented


# ---- lengths, element access ----------------------------------------------

@model("Vec.len", "slice.len", "String.len", "str.len", "array.len")
def m_len(c):
    return c.e.slice_len(c.st, c.a[0])


@model("Vec.is_empty", "slice.is_empty", "String.is_empty", "str.is_empty")
def m_is_empty(c):
    return eq(c.e.slice_len(c.st, c.a[0]), I(0))


@model("slice.get", "slice.get_mut", "Vec.get", "Vec.get_mut")
def m_get(c):
    if c.P.tyname(c.tys[1]) in WIDTH:
        n = seqlen(c, 0)
        return option(lift(lambda i: lt("u64", i, n), c.a[1]), extend(c.a[0], ("e", c.a[1])))
    r = range_of(c, c.a[1], c.tys[1], seqlen(c, 0))
    if r is None:
        return NotImplemented
    lo, n, cond = r
    return option(cond, extend(c.a[0], ("sub", lo, n)))


def seqlen(c, i):
    t = c.P.ty(c.tys[i])
    if t["k"] in ("ref", "ptr"):
        t = c.P.ty(t["t"])
    if t["k"] == "array":
        return I(t["len"])
    return c.e.slice_len(c.st, c.a[i])


def range_of(c, v, ty, n):
    t = c.P.ty(ty)
    if t["k"] != "adt":
        return None
    name = t["name"].split("::")[-1]
    if name == "Range":
        lo, hi = field(v, "s", 0), field(v, "s", 1)
    elif name == "RangeFrom":
        lo, hi = field(v, "s", 0), n
    elif name == "RangeTo":
        lo, hi = I(0), field(v, "s", 0)
    elif name == "RangeFull":
        return I(0), n, TRUE
    elif name == "RangeInclusive":
        lo, hi = field(v, "s", 0), add("u64", field(v, "s", 1), I(1))
    elif name == "RangeToInclusive":
        lo, hi = I(0), add("u64", field(v, "s", 0), I(1))
    else:
        return None
    cond = AND(NOT(lt("u64", hi, lo)), NOT(lt("u64", n, hi)))
    return lo, sub("u64", hi, lo), cond


@model("Vec.index", "Vec.index_mut", "slice.index", "slice.index_mut", "array.index", "array.index_mut", "str.index", "String.index")
def m_index(c):
    n = seqlen(c, 0)
    if c.P.tyname(c.tys[1]) in WIDTH:
        def f(i):
            cond = lt("u64", i, n)
            if cond is not TRUE:
                c.e.panic(c.st, "assert:BoundsCheck", NOT(cond), [n, i])
            return extend(c.a[0], ("e", i))
        return lift(f, c.a[1])
    r = range_of(c, c.a[1], c.tys[1], n)
    if r is None:
        return NotImplemented
    lo, m, cond = r
    if cond is not TRUE:
        c.e.panic(c.st, "assert:BoundsCheck", NOT(cond), [n, lo, m])
    return extend(c.a[0], ("sub", lo, m))


@model("slice.first", "slice.first_mut")
def m_first(c):
    n = seqlen(c, 0)
    return option(NOT(eq(n, I(0))), extend(c.a[0], ("e", I(0))))


@model("slice.last", "slice.last_mut")
def m_last(c):
    n = seqlen(c, 0)
    return option(NOT(eq(n, I(0))), extend(c.a[0], ("e", sub("u64", n, I(1)))))


@model("slice.copy_from_slice", "slice.clone_from_slice")
def m_copy_from_slice(c):
    n, m = seqlen(c, 0), seqlen(c, 1)
    if n is not m:
        c.e.panic(c.st, "copy_from_slice:length", NOT(eq(n, m)), [n, m])
    v = c.load(1)
    c.st.put(c.a[0], v)
    return UNIT


@model("slice.fill")
def m_fill(c):
    c.st.put(c.a[0], fill(c.a[1], seqlen(c, 0)))
    return UNIT


@model("slice.swap", "Vec.swap")
def m_swap(c):
    a = c.st.load(extend(c.a[0], ("e", c.a[1])))
    b = c.st.load(extend(c.a[0], ("e", c.a[2])))
    c.st.put(extend(c.a[0], ("e", c.a[1])), b)
    c.st.put(extend(c.a[0], ("e", c.a[2])), a)
    return UNIT


@model("vec::from_elem")
def m_from_elem(c):
    c.e.emit(c.st, "alloc", "vec![v; n]", [c.a[1]])
    return fill(c.a[0], c.a[1])


@model("Vec.new", "String.new", "Vec.default", "String.default")
def m_vec_new(c):
    return EMPTY


@model("Vec.with_capacity", "String.with_capacity")
def m_vec_cap(c):
    c.e.emit(c.st, "alloc", "with_capacity", [c.a[0]])
    return EMPTY


@model("Vec.reserve", "Vec.reserve_exact", "Vec.shrink_to_fit", "String.reserve")
def m_reserve(c):
    if len(c.a) > 1:
        c.e.emit(c.st, "alloc", "reserve", [c.a[1]])
    return UNIT


@model("Vec.push")
def m_push(c):
    c.st.put(c.a[0], push(c.load(0), c.a[1]))
    return UNIT


@model("Vec.clear", "String.clear")
def m_vclear(c):
    c.st.put(c.a[0], EMPTY)
    return UNIT


@model("Vec.truncate")
def m_truncate(c):
    v = c.load(0)
    n = seq_len(v)
    c.st.put(c.a[0], ite(lt("u64", c.a[1], n), subseq(v, I(0), c.a[1]), v))
    return UNIT


@model("Vec.resize")
def m_resize(c):
    v = c.load(0)
    n = seq_len(v)
    c.e.emit(c.st, "alloc", "resize", [c.a[1]])
    if v is EMPTY or n is I(0):
        c.st.put(c.a[0], fill(c.a[2], c.a[1]))
    else:
        c.st.put(c.a[0], mk("resized", v, c.a[1], c.a[2]))
    return UNIT


@model("Vec.extend_from_slice", "String.push_str")
def m_extend_from_slice(c):
    c.st.put(c.a[0], concat(c.load(0), c.load(1)))
    return UNIT


@model("String.add_assign")
def m_string_add_assign(c):
    if c.ty(1)["k"] != "ref" or c.pointee(1)["k"] != "str":
        return NotImplemented
    return m_extend_from_slice(c)


@model("String.add")
def m_string_add(c):
    return concat(c.a[0], c.load(1))


# a boxed array being filled, as the vec! macro does it
@model("Box.new_uninit", "Box::<T>.new_uninit")
def m_box_uninit(c):
    return agg("s", c.e.temp(c.st, UNDEF, "box"), UNIT)


@model("boxed::box_assume_init_into_vec_unsafe")
def m_box_vec(c):
    r = field(c.a[0], "s", 0)
    if any(x.op != "ref" for x in leaves(r)):
        return NotImplemented
    return field(field(c.st.load(r), "s", 1), "s", 0)


@model("Vec.append")
def m_append(c):
    c.st.put(c.a[0], concat(c.load(0), c.load(1)))
    c.st.put(c.a[1], EMPTY)
    return UNIT


@model("Vec.pop")
def m_pop(c):
    v = c.load(0)
    n = seq_len(v)
    e = NOT(eq(n, I(0)))
    last = sel(v, sub("u64", n, I(1)))
    c.st.put(c.a[0], ite(e, subseq(v, I(0), sub("u64", n, I(1))), v))
    return option(e, last)


@model("Vec.remove", "Vec.swap_remove")
def m_remove(c):
    v = c.load(0)
    n = seq_len(v)
    i = c.a[1]
    z = NOT(lt("u64", i, n))
    if AND(c.st.guard, z) is not FALSE:
        c.e.panic(c.st, "assert:BoundsCheck", z, [n, i])
    last = sub("u64", n, I(1))
    if c.fn.short == "Vec.remove":
        after = add("u64", i, I(1))
        c.st.put(c.a[0], concat(subseq(v, I(0), i), subseq(v, after, sub("u64", n, after))))
    else:
        c.st.put(c.a[0], subseq(upd(v, i, sel(v, last)), I(0), last))
    return sel(v, i)


@model("slice.to_vec", "T.to_vec", "slice.to_owned", "str.to_owned", "str.to_string", "String.to_string", "Path.to_path_buf", "slice.into_vec", "Path.to_owned")
def m_to_vec(c):
    return c.load(0)


@model("Vec.clone", "String.clone", "array.clone", "PathBuf.clone")
def m_clone(c):
    return c.load(0)


@model("Vec.eq", "slice.eq", "array.eq", "str.eq", "String.eq", "&slice.eq")
def m_eq(c):
    a, b = c.load(0), c.load(1)
    if a.op == "ref":
        a, b = c.st.load(a), c.st.load(b)
    return eq(a, b)


@model("String.from", "PathBuf.from", "str.into", "Vec.from")
def m_string_from(c):
    t = c.P.ty(c.tys[0])
    if t["k"] == "ref":
        return c.load(0)
    return c.a[0]


@model("T.to_string", "ToString.to_string")
def m_to_string(c):
    t = c.P.ty(c.P.ty(c.tys[0])["t"])
    if t["k"] == "str" or t["k"] == "adt" and t["name"].split("::")[-1] == "String":
        return c.load(0)
    return mk("tostring", c.load(0))


@model("slice.split_at", "slice.split_at_mut")
def m_split_at(c):
    n = seqlen(c, 0)
    k = c.a[1]
    cond = lt("u64", n, k)
    if cond is not FALSE:
        c.e.panic(c.st, "split_at", cond, [n, k])
    return agg("s", extend(c.a[0], ("sub", I(0), k)), extend(c.a[0], ("sub", k, sub("u64", n, k))))


@model("array.try_from", "array.try_into")
def m_arr_try_from(c):
    # [u8; N]::try_from(&[u8])
    t = c.P.ty(c.dty)
    at = c.P.ty(t["args"][0]) if t["k"] == "adt" and isinstance(t["args"][0], int) else None
    st = c.ty(0)
    if at is None or st["k"] != "ref":
        return NotImplemented
    isref = at["k"] == "ref"
    if isref:
        at = c.P.ty(at["t"])
    if at["k"] != "array":
        return NotImplemented
    n = seqlen(c, 0)
    cond = eq(n, I(at["len"]))
    v = c.a[0] if isref else subseq(c.load(0), I(0), I(at["len"]))
    return ite(cond, ok(v), err(UNIT))


# ---- integers and floats ---------------------------------------------------

for _n in ("u8", "u16", "u32", "u64", "usize", "u128", "i8", "i16", "i32", "i64", "isize", "i128"):
    def _mk(ty):
        t = norm_ty(ty)
        w = WIDTH[t]

        @model(ty + ".wrapping_add", ty + ".unchecked_add")
        def _(c):
            return add(t, c.a[0], c.a[1])

        @model(ty + ".wrapping_sub", ty + ".unchecked_sub")
        def _(c):
            return sub(t, c.a[0], c.a[1])

        @model(ty + ".wrapping_mul", ty + ".unchecked_mul")
        def _(c):
            return mul(t, c.a[0], c.a[1])

        @model(ty + ".wrapping_shl", ty + ".unchecked_shl")
        def _(c):
            return shl(t, c.a[0], c.a[1])

        @model(ty + ".wrapping_shr", ty + ".unchecked_shr")
        def _(c):
            return shr(t, c.a[0], c.a[1])

        @model(ty + ".count_ones")
        def _(c):
            return popcnt(t, c.a[0])

        @model(ty + ".count_zeros")
        def _(c):
            return lin("u64", w, []) if False else sub("u64", I(w), popcnt(t, c.a[0])) if c.a[0].op != "not" else popcnt(t, c.a[0].args[0])

        @model(ty + ".is_power_of_two")
        def _(c):
            return eq(popcnt(t, c.a[0]), I(1))

        @model(ty + ".next_power_of_two")
        def _(c):
            return lift(npot, c.a[0])

        @model(ty + ".to_le_bytes", ty + ".to_ne_bytes")
        def _(c):
            return lebytes(unsigned(c.a[0], t), w // 8)

        @model(ty + ".from_le_bytes", ty + ".from_ne_bytes")
        def _(c):
            return signed_le(c.a[0], t)

        @model(ty + ".to_be_bytes")
        def _(c):
            return lift(lambda x: mk("bebytes", w // 8, x), c.a[0])

        @model(ty + ".from_be_bytes")
        def _(c):
            return lift(lambda x: mk("be", w // 8, x), c.a[0])

        @model(ty + ".swap_bytes")
        def _(c):
            return lift(lambda x: mk("bswap", w // 8, x), c.a[0])

        @model(ty + ".min")
        def _(c):
            return lift(lambda x, y: mm("min", x, y), c.a[0], c.a[1])

        @model(ty + ".max")
        def _(c):
            return lift(lambda x, y: mm("max", x, y), c.a[0], c.a[1])

        @model(ty + ".saturating_sub")
        def _(c):
            return lift(fl.ssub, c.a[0], c.a[1])

        @model(ty + ".saturating_add")
        def _(c):
            return lift(lambda x, y: mk("sadd", t, *sorted((x, y))), c.a[0], c.a[1])

        @model(ty + ".saturating_mul")
        def _(c):
            return lift(lambda x, y: mk("smul", t, *sorted((x, y))), c.a[0], c.a[1])

        @model(ty + ".checked_add")
        def _(c):
            return option(NOT(as_bool(mk("ovf", "add", t, *sorted((c.a[0], c.a[1]))))), add(t, c.a[0], c.a[1]))

        @model(ty + ".checked_mul")
        def _(c):
            return option(NOT(as_bool(mk("ovf", "mul", t, *sorted((c.a[0], c.a[1]))))), mul(t, c.a[0], c.a[1]))

        @model(ty + ".checked_sub")
        def _(c):
            return option(NOT(lt(t, c.a[0], c.a[1])), sub(t, c.a[0], c.a[1]))

        @model(ty + ".checked_div")
        def _(c):
            return option(NOT(eq(c.a[1], I(0))), div(t, c.a[0], c.a[1]))

        @model(ty + ".checked_rem")
        def _(c):
            return option(NOT(eq(c.a[1], I(0))), rem(c.a[0], c.a[1]))

        @model(ty + ".div_ceil")
        def _(c):
            return lift(cdiv, c.a[0], c.a[1])

        @model(ty + ".forward_unchecked", ty + ".forward_overflowing")
        def _(c):
            r = add(t, c.a[0], c.a[1])
            return r if c.P.ty(c.dty)["k"] != "tuple" else agg("s", r, FALSE)

        @model(ty + ".lt")
        def _(c):
            return lt(t, c.load(0), c.load(1))

        @model(ty + ".le")
        def _(c):
            return NOT(lt(t, c.load(1), c.load(0)))

        @model(ty + ".gt")
        def _(c):
            return lt(t, c.load(1), c.load(0))

        @model(ty + ".ge")
        def _(c):
            return NOT(lt(t, c.load(0), c.load(1)))

        @model(ty + ".eq")
        def _(c):
            return eq(c.load(0), c.load(1))

        @model(ty + ".ne")
        def _(c):
            return NOT(eq(c.load(0), c.load(1)))

        @model(ty + ".abs")
        def _(c):
            return mk("iabs", c.a[0])

    _mk(_n)


fl.tm.LIFTED["cdiv"] = lambda x, y: lift(cdiv, x, y)


def npot(x):
    if x.op == "i":
        v = ival(x)
        return I(1 if v <= 1 else 1 << (v - 1).bit_length())
    return mk("npot", x)


fl.tm.LIFTED["npot"] = lambda x: lift(npot, x)

for _op, _names in {"ln": "ln", "exp": "exp", "ceil": "ceil", "floor": "floor", "round": "round", "sqrt": "sqrt", "fabs": "abs",
                    "log2": "log2", "log10": "log10", "exp2": "exp2", "exp_m1": "exp_m1", "ln_1p": "ln_1p", "trunc": "trunc"}.items():
    def _mkf(op, name):
        @model("f64." + name)
        def _(c):
            return fop(op, c.a[0])
    _mkf(_op, _names)


@model("f64.powf")
def m_powf(c):
    return fop("powf", c.a[0], c.a[1])


@model("f64.powi")
def m_powi(c):
    return lift(lambda x, y: mk("powi", x, y), c.a[0], c.a[1])


@model("f64.is_nan")
def m_is_nan(c):
    return NOT(fcmp("feq", c.a[0], c.a[0]))


@model("f64.is_finite", "f64.is_infinite")
def m_is_fin(c):
    return as_bool(mk(c.fn.short, c.a[0]))


@model("f64.max", "f64.min")
def m_fmax(c):
    return lift(lambda x, y: mk(c.fn.short, *sorted((x, y))), c.a[0], c.a[1])


@model("f64.to_le_bytes")
def m_f_le(c):
    return lift(lambda x: x.args[1] if x.op == "lef" else mk("lefbytes", 8, x), c.a[0])


@model("f64.from_le_bytes")
def m_f_from(c):
    return le_float(c.a[0])


@model("f64.to_be_bytes", "f64.from_be_bytes")
def m_f_be(c):
    return mk(c.fn.short, c.a[0])


@model("f64.to_bits")
def m_to_bits(c):
    return fbits(c.a[0])


@model("f64.from_bits")
def m_from_bits(c):
    return bitsf(c.a[0])


@model("f64.lt")
def m_flt(c):
    return fcmp("flt", c.load(0), c.load(1))


@model("f64.le")
def m_fle(c):
    return fcmp("fle", c.load(0), c.load(1))


@model("f64.gt")
def m_fgt(c):
    return fcmp("flt", c.load(1), c.load(0))


@model("f64.ge")
def m_fge(c):
    return fcmp("fle", c.load(1), c.load(0))


@model("f64.eq")
def m_feq(c):
    return fcmp("feq", c.load(0), c.load(1))


def _ordering(ks):
    def f(c):
        def g(x):
            if x.op == "agg":
                return B(x.args[0] in ks)
            return OR(*[as_bool(mk("ordering", x, k)) for k in ks])
        return lift(g, c.a[0])
    return f


for _n, _ks in (("is_lt", (0,)), ("is_eq", (1,)), ("is_gt", (2,)), ("is_le", (0, 1)), ("is_ne", (0, 2)), ("is_ge", (1, 2))):
    MODELS["Ordering." + _n] = _ordering(_ks)


@model("cmp::max", "Ord.max", "~Ord.max")
def m_max(c):
    if c.P.tyname(c.tys[0]) in WIDTH:
        return lift(lambda x, y: mm("max", x, y), c.a[0], c.a[1])
    return NotImplemented


@model("cmp::min", "Ord.min", "~Ord.min")
def m_min(c):
    if c.P.tyname(c.tys[0]) in WIDTH:
        return lift(lambda x, y: mm("min", x, y), c.a[0], c.a[1])
    return NotImplemented


@model("intrinsics::ctpop")
def m_ctpop(c):
    return popcnt(norm_ty(c.P.tyname(c.tys[0])), c.a[0])


@model("intrinsics::bswap")
def m_bswap(c):
    return lift(lambda x: mk("bswap", WIDTH[norm_ty(c.P.tyname(c.tys[0]))] // 8, x), c.a[0])


@model("intrinsics::saturating_sub")
def m_ssub(c):
    return lift(fl.ssub, c.a[0], c.a[1])


@model("intrinsics::ctlz")
def m_ctlz(c):
    return lift(lambda x: mk("ctlz", x), c.a[0])


@model("mem::size_of", "intrinsics::size_of", "mem::size_of_val")
def m_size_of(c):
    a = c.fn.args[0] if c.fn.args else None
    n = size_of(c.P, a) if a is not None and c.fn.short != "mem::size_of_val" else None
    if n is None:
        return NotImplemented
    return I(n)


def size_of(P, ty):
    t = P.ty(ty)
    k = t["k"]
    if k in ("int", "float"):
        return (WIDTH.get(norm_ty(t["n"])) or int(t["n"][1:])) // 8
    if k == "bool":
        return 1
    if k == "char":
        return 4
    if k == "array":
        e = size_of(P, t["t"])
        return None if e is None else e * t["len"]
    if k == "adt" and t["kind"] == "Struct" and len(t["variants"][0][2]) == 1:
        return size_of(P, t["variants"][0][2][0][1])
    if k == "tuple" and not t["ts"]:
        return 0
    return None


@model("__private::not")
def m_ensure_not(c):
    # the negation of anyhow::ensure!
    return NOT(as_bool(c.a[0])) if c.ty(0)["k"] == "bool" else NotImplemented


@model("Path.new")
def m_path_new(c):
    v, t = c.a[0], c.ty(0)
    while t["k"] == "ref" and c.P.ty(t["t"])["k"] == "ref":
        v, t = c.st.load(v), c.P.ty(t["t"])
    return v


@model("mem::swap")
def m_mswap(c):
    a, b = c.load(0), c.load(1)
    c.st.put(c.a[0], b)
    c.st.put(c.a[1], a)
    return UNIT


@model("mem::replace")
def m_mreplace(c):
    a = c.load(0)
    c.st.put(c.a[0], c.a[1])
    return a


@model("mem::take")
def m_mtake(c):
    a = c.load(0)
    t = c.pointee(0)
    if t["k"] == "adt" and t["name"].split("::")[-1] in ("Vec", "String"):
        c.st.put(c.a[0], EMPTY)
        return a
    return NotImplemented


# ---- hashing ---------------------------------------------------------------

@model("WyHash.with_seed")
def m_wy_seed(c):
    return mk("wyh", c.a[0], EMPTY)


@model("WyHash.default")
def m_wy_default(c):
    return mk("wyh", I(0), EMPTY)


@model("WyHash.write")
def m_wy_write(c):
    h = c.load(0)
    if any(x.op != "wyh" for x in leaves(h)):
        return NotImplemented
    # one write per chunk is significant for wyhash: keep the pieces apart
    d = c.load(1)
    c.st.put(c.a[0], lift(lambda x: mk("wyh", x.args[0], push(x.args[1], d)), h))
    return UNIT


@model("WyHash.finish")
def m_wy_finish(c):
    h = c.load(0)
    if any(x.op != "wyh" for x in leaves(h)):
        return NotImplemented
    return lift(lambda x: mk("wyfinish", x), h)


@model("wyhash::wyhash")
def m_wyhash(c):
    # the one-shot function is the hasher fed once
    return mk("wyfinish", mk("wyh", c.a[1], arr([c.load(0)])))


# ---- iterators -------------------------------------------------------------
# a slice iterator is agg('iter', reference to the sequence, front, back)

def slice_iter(c, tag):
    return agg(tag, c.a[0], I(0), seqlen(c, 0))


@model("slice.iter", "slice.iter_mut", "Vec.iter", "Vec.iter_mut", "array.iter")
def m_iter(c):
    return slice_iter(c, "iter")


@model("Vec.into_iter", "array.into_iter", "slice.into_iter", "&Vec.into_iter", "&slice.into_iter", "&array.into_iter")
def m_into_iter(c):
    t = c.ty(0)
    if t["k"] == "ref":
        return slice_iter(c, "iter")
    v = c.a[0]
    n = I(t["len"]) if t["k"] == "array" else seq_len(v)
    return agg("own", v, I(0), n)


@model("Vec.drain")
def m_drain(c):
    r = range_of(c, c.a[1], c.tys[1], seqlen(c, 0))
    if r is None or r[0] is not I(0) or r[1] is not seqlen(c, 0):
        return NotImplemented
    v = c.load(0)
    c.st.put(c.a[0], EMPTY)
    return agg("own", v, I(0), seq_len(v))


@model("slice.chunks_exact", "slice.chunks_exact_mut")
def m_chunks_exact(c):
    return agg("chunks_exact", c.a[0], I(0), div("u64", seqlen(c, 0), c.a[1]), c.a[1], seqlen(c, 0))


@model("slice.chunks", "slice.chunks_mut")
def m_chunks(c):
    z = eq(c.a[1], I(0))
    if AND(c.st.guard, z) is not FALSE:
        c.e.panic(c.st, "assert:ChunkSize", z, [c.a[1]])
        c.st.guard = AND(c.st.guard, NOT(z))
        if c.st.guard is FALSE:
            return UNDEF
    return agg("chunks", c.a[0], I(0), lift(cdiv, seqlen(c, 0), c.a[1]), c.a[1], seqlen(c, 0))


@model("ChunksExact.remainder", "ChunksExactMut.into_remainder")
def m_remainder(c):
    it = c.load(0) if c.ty(0)["k"] == "ref" else c.a[0]
    if it.op != "agg" or it.args[0] != "chunks_exact":
        return NotImplemented
    _, r, pos, n, k, ln = it.args
    return extend(r, ("sub", mul("u64", div("u64", ln, k), k), rem(ln, k)))


def elem_next(c, it):
    """(has, item, advanced iterator) for the modelled base iterators"""
    tag = it.args[0]
    if tag == "iter":
        _, r, lo, hi = it.args
        return lt("u64", lo, hi), extend(r, ("e", lo)), agg(tag, r, add("u64", lo, I(1)), hi)
    if tag == "own":
        _, v, lo, hi = it.args
        return lt("u64", lo, hi), sel(v, lo), agg(tag, v, add("u64", lo, I(1)), hi)
    if tag == "chunks_exact":
        _, r, lo, hi, k, ln = it.args
        return lt("u64", lo, hi), extend(r, ("sub", mul("u64", lo, k), k)), agg(tag, r, add("u64", lo, I(1)), hi, k, ln)
    if tag == "chunks":
        _, r, lo, hi, k, ln = it.args
        return lt("u64", lo, hi), extend(r, ("sub", mul("u64", lo, k), mk("chunklen", ln, k, lo))), agg(tag, r, add("u64", lo, I(1)), hi, k, ln)
    if tag == "lines":
        _, src, lo = it.args
        has = lt("u64", lo, mk("nlines", src))
        item = ite(as_bool(mk("lineerr", src, lo)), err(mk("ioerr", "line", src, lo)), ok(mk("line", src, lo)))
        return has, item, agg(tag, src, add("u64", lo, I(1)))
    if tag == "bytesok":
        _, v, lo, hi = it.args
        return lt("u64", lo, hi), ok(sel(v, lo)), agg(tag, v, add("u64", lo, I(1)), hi)
    if tag == "rangei":
        _, lo, hi = it.args
        return lt("u64", lo, hi), lo, agg(tag, add("u64", lo, I(1)), hi)
    return None


BASE_ITERS = ("iter", "own", "chunks_exact", "chunks", "lines", "rangei", "bytesok")


@model("Iter.next", "IterMut.next", "IntoIter.next", "ChunksExact.next", "ChunksExactMut.next", "Chunks.next", "ChunksMut.next", "Lines.next", "Drain.next", "Bytes.next")
def m_base_next(c):
    it = c.load(0)
    if any(x.op != "agg" or x.args[0] not in BASE_ITERS for x in leaves(it)):
        return NotImplemented
    if it.op == "ite":
        raise Unsupported("gated iterator")
    has, item, adv = elem_next(c, it)
    c.st.put(c.a[0], ite(has, adv, it))
    return option(has, item)


def next_of(eng, st, itref, ity, dty=None):
    """<T as Iterator>::next on the iterator behind itref"""
    P = eng.prog
    t = P.ty(ity)
    while t["k"] == "ref":
        itref = st.load(itref)
        ity = t["t"]
        t = P.ty(ity)
    it = st.load(itref)
    if it.op == "agg" and it.args[0] in BASE_ITERS:
        has, item, adv = elem_next(None, it)
        st.put(itref, ite(has, adv, it))
        return option(has, item)
    inst = P.next.get(ity)
    if inst is None:
        # adapters modelled here
        r = adapter_next(eng, st, itref, ity)
        if r is None:
            raise Unsupported("next of " + P.describe(ity))
        return r
    fn = P.fns[inst]
    name = t["name"].split("::")[-1] if t["k"] == "adt" else ""
    if name in ADAPTERS:
        return adapter_next(eng, st, itref, ity)
    if not fn.has_body:
        m = MODELS.get(fn.short)
        if m:
            r = m(Ctx(eng, st, fn, [itref], [None], None))
            if r is not NotImplemented:
                return r
        raise Unsupported("next of " + P.describe(ity))
    return eng.run(fn, [itref], st)


ADAPTERS = {}


def adapter(name):
    def d(f):
        ADAPTERS[name] = f

        def m(c):
            t = c.P.ty(c.tys[0])
            ty = t["t"] if t["k"] == "ref" else None
            if ty is None or not c.P.ty(ty).get("name", "").startswith(("std::iter", "core::iter")):
                return NotImplemented
            return f(c.e, c.st, c.a[0], ty, c.P.ty(ty))
        MODELS[name + ".next"] = m
        return f
    return d


def adapter_next(eng, st, itref, ity):
    t = eng.prog.ty(ity)
    name = t["name"].split("::")[-1] if t["k"] == "adt" else ""
    f = ADAPTERS.get(name)
    return f(eng, st, itref, ity, t) if f else None


def inner_ty(eng, t, i=0):
    return t["args"][i]


def branch(eng, st, cond, yes, no):
    """merge of two continuations, each fn(state) -> value"""
    outs = []
    for c, f in ((cond, yes), (NOT(cond), no)):
        g = AND(st.guard, c)
        if g is FALSE:
            continue
        s = st.copy()
        s.guard = g
        v = f(s)
        if s.guard is FALSE:
            continue
        s.mem["$v"] = v
        outs.append(s)
    if not outs:
        st.guard = FALSE
        return UNDEF
    m = merge(outs)
    v = m.mem.pop("$v")
    st.mem, st.guard = m.mem, m.guard
    return v


def is_some(o):
    return lift(lambda x: (B(x.args[0] == 1) if x.op == "agg" else (FALSE if x is UNDEF else NOT(eq(mk("discr", x, 2), I(0))))), o)


def unsome(o):
    return field(o, 1, 0)


@adapter("Cloned")
@adapter("Copied")
def a_cloned(eng, st, r, ity, t):
    o = next_of(eng, st, extend(r, ("f", "s", 0, 1)), inner_ty(eng, t))
    return option(is_some(o), st.load(unsome(o)))


@adapter("Enumerate")
def a_enumerate(eng, st, r, ity, t):
    o = next_of(eng, st, extend(r, ("f", "s", 0, 2)), inner_ty(eng, t))
    has = is_some(o)
    n = st.load(extend(r, ("f", "s", 1, 2)))
    st.put(extend(r, ("f", "s", 1, 2)), ite(has, add("u64", n, I(1)), n))
    return option(has, agg("s", n, unsome(o)))


@adapter("Zip")
def a_zip(eng, st, r, ity, t):
    a = next_of(eng, st, extend(r, ("f", "s", 0, 2)), inner_ty(eng, t, 0))
    b = next_of(eng, st, extend(r, ("f", "s", 1, 2)), inner_ty(eng, t, 1))
    return option(AND(is_some(a), is_some(b)), agg("s", unsome(a), unsome(b)))


@adapter("Map")
def a_map(eng, st, r, ity, t):
    o = next_of(eng, st, extend(r, ("f", "s", 0, 2)), inner_ty(eng, t, 0))
    fr = extend(r, ("f", "s", 1, 2))

    def yes(s):
        x = unsome(o)
        return some(call_fn(eng, s, fr, t["args"][1], [x]))
    return branch(eng, st, is_some(o), yes, lambda s: NONE)


@adapter("Take")
def a_take(eng, st, r, ity, t):
    n = st.load(extend(r, ("f", "s", 1, 2)))

    def yes(s):
        s.put(extend(r, ("f", "s", 1, 2)), sub("u64", n, I(1)))
        return next_of(eng, s, extend(r, ("f", "s", 0, 2)), inner_ty(eng, t, 0))
    return branch(eng, st, NOT(eq(n, I(0))), yes, lambda s: NONE)


@adapter("Rev")
def a_rev(eng, st, r, ity, t):
    ir = extend(r, ("f", "s", 0, 1))
    it = st.load(ir)
    if it.op == "agg" and it.args[0] in ("iter", "own"):
        _, s, lo, hi = it.args
        has = lt("u64", lo, hi)
        hi2 = sub("u64", hi, I(1))
        item = extend(s, ("e", hi2)) if it.args[0] == "iter" else sel(s, hi2)
        st.put(ir, ite(has, agg(it.args[0], s, lo, hi2), it))
        return option(has, item)
    if it.op == "agg" and it.args[0] in ("s", "rangei") and len(it.args) == 3:
        _, lo, hi = it.args
        has = lt("u64", lo, hi)
        hi2 = sub("u64", hi, I(1))
        st.put(ir, ite(has, agg(it.args[0], lo, hi2), it))
        return option(has, hi2)
    raise Unsupported("rev")


@adapter("StepBy")
def a_stepby(eng, st, r, ity, t):
    # model as agg('s', inner, step, started): element k*step of the inner iterator
    v = st.load(r)
    inner, step, k = field(v, "s", 0), field(v, "s", 1), field(v, "s", 2)
    if inner.op == "agg" and inner.args[0] in ("s", "rangei"):
        lo, hi = inner.args[1], inner.args[2]
        pos = add("u64", lo, mul("u64", k, step))
        has = lt("u64", pos, hi)
        st.put(r, ite(has, agg("s", inner, step, add("u64", k, I(1))), v))
        return option(has, pos)
    if inner.op == "agg" and inner.args[0] in ("iter", "own"):
        _, s, lo, hi = inner.args
        pos = add("u64", lo, mul("u64", k, step))
        has = lt("u64", pos, hi)
        st.put(r, ite(has, agg("s", inner, step, add("u64", k, I(1))), v))
        return option(has, extend(s, ("e", pos)) if inner.args[0] == "iter" else sel(s, pos))
    raise Unsupported("step_by")


@adapter("Filter")
def a_filter(eng, st, r, ity, t):
    ir = extend(r, ("f", "s", 0, 2))
    fr = extend(r, ("f", "s", 1, 2))

    def keep(s, item):
        return (as_bool(call_fn(eng, s, fr, t["args"][1], [eng.temp(s, item, "filt")])), item), None
    return searching(eng, st, ir, inner_ty(eng, t, 0), keep, "filter")


@adapter("Flatten")
def a_flatten(eng, st, r, ity, t):
    """over results or options: the values inside, errors and nothings left out"""
    ir = extend(r, ("f", "s", 0, 1))
    if st.load(ir).op == "agg" and st.load(ir).args[0] == "bytesok":
        return is_ok_some(next_of(eng, st, ir, inner_ty(eng, t)))

    def keep(s, item):
        k = item_variant(eng, item)
        if k is None:
            raise Unsupported("flatten")
        return k, item
    return searching(eng, st, ir, inner_ty(eng, t), keep, "flatten")


def is_ok_some(o):
    return option(is_some(o), field(unsome(o), 0, 0))


def item_variant(eng, item):
    """(kept, value) for an item that is Ok or Some"""
    ls = [x for x in leaves(item) if x is not UNDEF]
    if not ls or any(x.op != "agg" or not isinstance(x.args[0], int) or len(x.args) > 2 for x in ls):
        return None
    some_like = any(x.args[0] == 0 and len(x.args) == 1 for x in ls)
    k = 1 if some_like else 0
    return lift(lambda x: B(x.op == "agg" and x.args[0] == k), item), lift(lambda x: field(x, k, 0), item)


@adapter("FilterMap")
def a_filter_map(eng, st, r, ity, t):
    fr = extend(r, ("f", "s", 1, 2))

    def keep(s, item):
        o = call_fn(eng, s, fr, t["args"][1], [item])
        return (is_some(o), unsome(o)), None
    return searching(eng, st, extend(r, ("f", "s", 0, 2)), inner_ty(eng, t, 0), keep, "filter_map")


@adapter("MapWhile")
def a_map_while(eng, st, r, ity, t):
    o = next_of(eng, st, extend(r, ("f", "s", 0, 2)), inner_ty(eng, t, 0))
    fr = extend(r, ("f", "s", 1, 2))
    return branch(eng, st, is_some(o), lambda s: call_fn(eng, s, fr, t["args"][1], [unsome(o)]), lambda s: NONE)


@adapter("TakeWhile")
def a_take_while(eng, st, r, ity, t):
    o = next_of(eng, st, extend(r, ("f", "s", 0, 2)), inner_ty(eng, t, 0))
    fr = extend(r, ("f", "s", 1, 2))

    def yes(s):
        keep = as_bool(call_fn(eng, s, fr, t["args"][1], [eng.temp(s, unsome(o), "while")]))
        return option(keep, unsome(o))
    return branch(eng, st, is_some(o), yes, lambda s: NONE)


@adapter("Inspect")
def a_inspect(eng, st, r, ity, t):
    o = next_of(eng, st, extend(r, ("f", "s", 0, 2)), inner_ty(eng, t, 0))
    fr = extend(r, ("f", "s", 1, 2))

    def yes(s):
        call_fn(eng, s, fr, t["args"][1], [eng.temp(s, unsome(o), "inspect")])
        return o
    return branch(eng, st, is_some(o), yes, lambda s: NONE)


def searching(eng, st, ir, ity, keep, label):
    """advance the iterator to the next item that is kept"""
    def body(s):
        o = next_of(eng, s, ir, ity)
        has = is_some(o)
        outs = []
        n = s.copy()
        n.guard = AND(s.guard, NOT(has))
        n.mem["$f"] = NONE
        outs.append(("x", n))
        y = s.copy()
        y.guard = AND(s.guard, has)
        if y.guard is not FALSE:
            (kept, value), _ = keep(y, unsome(o))
            k = y.copy()
            k.guard = AND(y.guard, kept)
            k.mem["$f"] = some(value)
            outs.append(("x", k))
            y.guard = AND(y.guard, NOT(kept))
            outs.append(("back", y))
        return outs
    skips, eng.skips = eng.skips, None
    if skips is not None:
        # the surrounding loop goes on with the next item
        outs = body(st.copy())
        skips.extend(s for tgt, s in outs if tgt == "back" and s.guard is not FALSE)
        m = merge([s for tgt, s in outs if tgt == "x" and s.guard is not FALSE])
        v = m.mem.pop("$f")
        st.mem, st.guard = m.mem, m.guard
        return v
    outs = eng.loop("%s$%s%s" % (eng.here(), label, "".join(x.args[0] for x in eng.loopstack[-1:])), st, body)
    m = merge([s for _, s in outs])
    v = m.mem.pop("$f")
    st.mem, st.guard = m.mem, m.guard
    return v


@adapter("Skip")
def a_skip(eng, st, r, ity, t):
    v = st.load(r)
    inner, n = field(v, "s", 0), field(v, "s", 1)
    if inner.op == "agg" and inner.args[0] in BASE_ITERS:
        adv = agg(inner.args[0], inner.args[1], *([add("u64", inner.args[2], n)] + list(inner.args[3:]))) if inner.args[0] != "rangei" else agg("rangei", add("u64", inner.args[1], n), inner.args[2])
        st.put(r, agg("s", adv, I(0)))
        return next_of(eng, st, extend(r, ("f", "s", 0, 2)), inner_ty(eng, t))
    if inner.op == "agg" and inner.args[0] == "s" and len(inner.args) == 3:
        st.put(r, agg("s", agg("s", add("u64", inner.args[1], n), inner.args[2]), I(0)))
        return next_of(eng, st, extend(r, ("f", "s", 0, 2)), inner_ty(eng, t))
    if n is I(0):
        return next_of(eng, st, extend(r, ("f", "s", 0, 2)), inner_ty(eng, t))
    raise Unsupported("skip")


@adapter("FlatMap")
def a_flat_map(eng, st, r, ity, t):
    raise Unsupported("flat_map one item at a time")


@adapter("Peekable")
def a_peek(eng, st, r, ity, t):
    return None


def call_fn(eng, st, f, fty, args, by_ref=True):
    """call a closure given a reference to it (or the closure itself)"""
    t = eng.prog.ty(fty)
    if t["k"] == "fndef":
        fn = eng.prog.fns[t["inst"]]
        tys = [None] * len(args)
        if fn.has_body:
            b = fn.body
            tys = [b.locals[i + 1] for i in range(len(args))] if b.nargs >= len(args) else tys
            return eng.invoke(st, fn, args, tys, b.locals[0])
        return eng.invoke(st, fn, args, tys, None)
    if t["k"] == "closure":
        fn = eng.prog.fns[t["inst"]]
        isref = eng.prog.ty(fn.body.locals[1])["k"] == "ref"
        if isref:
            fv = f if by_ref else eng.temp(st, f, "clo")
        else:
            fv = st.load(f) if by_ref else f
        return eng.run(fn, [fv] + args, st)
    if t["k"] == "ref":
        return call_fn(eng, st, st.load(f) if by_ref else f, t["t"], args, True)
    raise Unsupported("call of " + t["k"])


# constructors of adapters

def wrap2(c):
    t = c.P.ty(c.dty)
    return agg("s", c.a[0], c.a[1])


for _n in "Iterator.take Iterator.map Iterator.filter Iterator.skip Iterator.skip_while Iterator.take_while Iterator.filter_map Iterator.inspect Iterator.map_while".split():
    MODELS[_n] = wrap2


@model("Iterator.enumerate")
def m_enumerate(c):
    return agg("s", c.a[0], I(0))


@model("Iterator.flat_map")
def m_flat_map(c):
    return agg("flat", c.a[0], c.a[1])


@model("Iterator.flatten")
def m_flatten(c):
    return agg("s", to_iter(c, c.a[0], c.tys[0]))


@model("Iterator.cloned", "Iterator.copied", "Iterator.rev", "Iterator.fuse")
def m_wrap1(c):
    return agg("s", c.a[0])


@model("Iterator.step_by")
def m_step_by(c):
    return agg("s", to_iter(c, c.a[0], c.tys[0]), c.a[1], I(0))


@model("Iterator.by_ref")
def m_by_ref(c):
    return c.a[0]


@model("Iterator.zip")
def m_zip(c):
    b = c.a[1]
    bt = c.P.ty(c.tys[1])
    zt = c.P.ty(c.dty)
    inner = zt["args"][1]
    b2 = to_iter(c, b, c.tys[1])
    return agg("s", c.a[0], b2)


def to_iter(c, v, ty):
    """IntoIterator::into_iter for sequences and iterators"""
    t = c.P.ty(ty)
    if t["k"] == "ref":
        tt = c.P.ty(t["t"])
        if tt["k"] in ("slice", "array") or tt["k"] == "adt" and tt["name"].split("::")[-1] == "Vec":
            n = I(tt["len"]) if tt["k"] == "array" else c.e.slice_len(c.st, v)
            return agg("iter", v, I(0), n)
        return v
    if t["k"] == "array":
        return agg("own", v, I(0), I(t["len"]))
    if t["k"] == "adt" and t["name"].split("::")[-1] == "Vec":
        return agg("own", v, I(0), seq_len(v))
    if t["k"] == "adt" and t["name"].split("::")[-1] == "RangeInclusive" and v.op == "agg" and v.args[0] == "s":
        return agg("rangei", v.args[1], add("u64", v.args[2], I(1)))
    return v


@model("RangeInclusive.new")
def m_ri_new(c):
    return agg("s", c.a[0], c.a[1], FALSE)


@model("I.into_iter")
def m_i_into_iter(c):
    return to_iter(c, c.a[0], c.tys[0])


@model("range.next", "RangeInclusive.next")
def m_ri_next(c):
    it = c.load(0)
    if it.op == "agg" and it.args[0] == "s" and len(it.args) == 4:
        it = agg("rangei", it.args[1], add("u64", it.args[2], I(1)))
    if it.op == "agg" and it.args[0] == "rangei":
        has, item, adv = elem_next(c, it)
        c.st.put(c.a[0], ite(has, adv, it))
        return option(has, item)
    return NotImplemented


# consumers

def consume(c, it, ity, init, step, label):
    """fold: step(state, acc, item) -> acc or ('exit', value)"""
    eng = c.e
    t = c.P.ty(ity)
    if t["k"] == "adt" and t["name"].split("::")[-1] == "FlatMap" and it.op == "agg" and it.args[0] == "flat":
        # one inner sequence after the other
        f = eng.temp(c.st, it.args[2], "fm")

        def each(s, acc, x, outs):
            u = call_fn(eng, s, f, t["args"][2], [x])
            if s.guard is FALSE:
                return UNDEF
            k = item_variant(eng, u)
            if k is not None:
                return branch(eng, s, k[0], lambda y: step(y, acc, k[1], outs), lambda y: acc)
            return consume(Ctx(eng, s, c.fn, c.a, c.tys, c.dty), u, t["args"][1], acc, step, label + "$in")[0]
        return consume(c, it.args[1], t["args"][0], init, each, label)
    it = to_iter(c, it, ity)
    st = c.st
    r = eng.temp(st, it, "it" + label)
    acc = eng.temp(st, init, "acc" + label)

    def body(s):
        o = next_of(eng, s, r, ity)
        if s.guard is FALSE:
            return []
        has = is_some(o)
        outs = []
        n = s.copy()
        n.guard = AND(s.guard, NOT(has))
        if n.guard is not FALSE:
            n.mem["$done"] = TRUE
            outs.append(("end", n))
        y = s.copy()
        y.guard = AND(s.guard, has)
        if y.guard is not FALSE:
            x = step(y, y.load(acc), unsome(o), outs)
            if y.guard is not FALSE:
                y.put(acc, x)
                outs.append(("back", y))
        return outs
    outs = eng.loop("%s$%s" % (eng.here(), label), st, body)
    if not outs:
        st.guard = FALSE
        return UNDEF, []
    m = merge([s for _, s in outs])
    st.mem, st.guard = m.mem, m.guard
    v = st.load(acc)
    x = st.mem.pop("$x", None)
    st.mem.pop("$done", None)
    return v, x


@model("Iterator.for_each", "Iter.for_each", "IterMut.for_each", "IntoIter.for_each", "Map.for_each", "Range.for_each")
def m_for_each(c):
    f = c.e.temp(c.st, c.a[1], "fe")

    def step(s, acc, x, outs):
        call_fn(c.e, s, f, c.tys[1], [x])
        return acc
    consume(c, c.a[0], c.tys[0], UNIT, step, "for_each")
    return UNIT


@model("Iterator.sum", "Map.sum", "Iter.sum")
def m_sum(c):
    d = c.P.ty(c.dty)
    if d["k"] == "adt":
        if d["name"].split("::")[-1] != "Result":
            return NotImplemented
        num_ty = c.P.tyname(d["args"][0])
        return collect_result(c, I(0), lambda acc, x: add(norm_ty(num_ty), acc, x))
    ty = c.P.tyname(c.dty)

    def step(s, acc, x, outs):
        if x.op == "ref":
            x = s.load(x)
        if is_float(ty):
            return fop("fadd", acc, x)
        return add(norm_ty(ty), acc, x)
    v, _ = consume(c, c.a[0], c.tys[0], F(-0.0) if is_float(ty) else I(0), step, "sum")
    return v


@model("Iterator.count", "Filter.count", "Map.count")
def m_count(c):
    v, _ = consume(c, c.a[0], c.tys[0], I(0), lambda s, acc, x, o: add("u64", acc, I(1)), "count")
    return v


@model("Iterator.fold", "Iter.fold", "IterMut.fold", "Map.fold", "IntoIter.fold")
def m_fold(c):
    f = c.e.temp(c.st, c.a[2], "fo")
    v, _ = consume(c, c.a[0], c.tys[0], c.a[1], lambda s, acc, x, o: call_fn(c.e, s, f, c.tys[2], [acc, x]), "fold")
    return v


def _quant(c, which):
    f = c.e.temp(c.st, c.a[1], "q")
    itref = c.a[0]
    ity = c.P.ty(c.tys[0])["t"] if c.ty(0)["k"] == "ref" else c.tys[0]
    eng = c.e
    st = c.st

    def body(s):
        o = next_of(eng, s, itref, ity)
        has = is_some(o)
        outs = []
        n = s.copy()
        n.guard = AND(s.guard, NOT(has))
        if n.guard is not FALSE:
            n.mem["$q"] = B(which == "all")
            outs.append(("end", n))
        y = s.copy()
        y.guard = AND(s.guard, has)
        if y.guard is not FALSE:
            b = as_bool(call_fn(eng, y, f, c.tys[1], [unsome(o)]))
            stop = NOT(b) if which == "all" else b
            k = y.copy()
            k.guard = AND(y.guard, stop)
            if k.guard is not FALSE:
                k.mem["$q"] = B(which == "any")
                outs.append(("hit", k))
            y.guard = AND(y.guard, NOT(stop))
            if y.guard is not FALSE:
                outs.append(("back", y))
        return outs
    outs = eng.loop("%s$%s" % (eng.here(), which), st, body)
    m = merge([s for _, s in outs])
    st.mem, st.guard = m.mem, m.guard
    return st.mem.pop("$q")


@model("Iterator.all", "Iter.all", "Map.all", "IntoIter.all")
def m_all(c):
    return _quant(c, "all")


@model("Iterator.any", "Iter.any", "Map.any", "IntoIter.any")
def m_any(c):
    return _quant(c, "any")


@model("Iterator.collect", "Map.collect", "Vec.from_iter", "Iterator.try_collect")
def m_collect(c):
    t = c.P.ty(c.dty)
    name = t["name"].split("::")[-1] if t["k"] == "adt" else ""
    q = c.P.ty(c.tys[0])
    if name == "Vec" and q["k"] == "adt" and q["name"].startswith("clap") and q["name"].split("::")[-1] == "Values":
        # the values given for an option
        return mk("values", c.a[0])
    if name in ("Vec", "String", "VecDeque"):
        v, _ = consume(c, c.a[0], c.tys[0], EMPTY, lambda s, acc, x, o: push(acc, x), "collect")
        return v
    if name == "Result":
        inner = c.P.ty(t["args"][0])
        if inner["k"] == "adt" and inner["name"].split("::")[-1] == "Vec":
            return collect_result(c)
    return NotImplemented


def collect_result(c, init=EMPTY, join=push):
    eng = c.e

    def step(s, acc, x, outs):
        isok = lift(lambda y: B(y.args[0] == 0) if y.op == "agg" else eq(mk("discr", y, 2), I(0)), x)
        bad = s.copy()
        bad.guard = AND(s.guard, NOT(isok))
        if bad.guard is not FALSE:
            bad.mem["$x"] = err(field(x, 1, 0))
            outs.append(("bad", bad))
        s.guard = AND(s.guard, isok)
        return join(acc, field(x, 0, 0))
    st = c.st
    it = to_iter(c, c.a[0], c.tys[0])
    r = eng.temp(st, it, "itcr")
    acc = eng.temp(st, init, "acccr")

    def body(s):
        o = next_of(eng, s, r, c.tys[0])
        has = is_some(o)
        outs = []
        n = s.copy()
        n.guard = AND(s.guard, NOT(has))
        if n.guard is not FALSE:
            n.mem["$x"] = ok(n.load(acc))
            outs.append(("end", n))
        y = s.copy()
        y.guard = AND(s.guard, has)
        if y.guard is not FALSE:
            x = step(y, y.load(acc), unsome(o), outs)
            if y.guard is not FALSE:
                y.put(acc, x)
                outs.append(("back", y))
        return outs
    outs = eng.loop("%s$collect_result" % eng.here(), st, body)
    m = merge([s for _, s in outs])
    st.mem, st.guard = m.mem, m.guard
    return st.mem.pop("$x")


def early(c, itref, ity, init, step, final):
    """loop over *itref with early exits: step(state, acc, item, hit) -> acc, final(state, acc) -> value"""
    eng, st = c.e, c.st
    acc = eng.temp(st, init, "accx")

    def body(s):
        o = next_of(eng, s, itref, ity)
        if s.guard is FALSE:
            return []
        has = is_some(o)
        outs = []
        n = s.copy()
        n.guard = AND(s.guard, NOT(has))
        if n.guard is not FALSE:
            n.mem["$x"] = final(n, n.load(acc))
            outs.append(("end", n))
        y = s.copy()
        y.guard = AND(s.guard, has)

        def hit(cond, value):
            k = y.copy()
            k.guard = AND(y.guard, cond)
            if k.guard is not FALSE:
                k.mem["$x"] = value
                outs.append(("hit", k))
            y.guard = AND(y.guard, NOT(cond))
        if y.guard is not FALSE:
            x = step(y, y.load(acc), unsome(o), hit)
            if y.guard is not FALSE:
                y.put(acc, x)
                outs.append(("back", y))
        return outs
    outs = eng.loop("%s$early" % eng.here(), st, body)
    if not outs:
        st.guard = FALSE
        return UNDEF
    m = merge([s for _, s in outs])
    st.mem, st.guard = m.mem, m.guard
    return st.mem.pop("$x")


def self_iter(c):
    if c.ty(0)["k"] == "ref":
        return c.a[0], c.P.ty(c.tys[0])["t"]
    return c.e.temp(c.st, to_iter(c, c.a[0], c.tys[0]), "its"), c.tys[0]


def try_parts(c, rty):
    """(variant that goes on, its number of variants) of a Try type"""
    t = c.P.ty(rty)
    name = t["name"].split("::")[-1] if t["k"] == "adt" else ""
    return {"Result": 0, "Option": 1, "ControlFlow": 0}.get(name)


def goes_on(r, v):
    return lift(lambda y: B(y.args[0] == v) if y.op == "agg" else eq(mk("discr", y, 2), I(v)), r)


@model("IntoIter.try_fold", "Iter.try_fold", "IterMut.try_fold")
def m_try_fold(c):
    v = try_parts(c, c.dty)
    if v is None:
        return NotImplemented
    f = c.e.temp(c.st, c.a[2], "tf")
    itref, ity = self_iter(c)

    def step(s, acc, x, hit):
        r = call_fn(c.e, s, f, c.tys[2], [acc, x])
        if s.guard is FALSE:
            return UNDEF
        g = goes_on(r, v)
        hit(NOT(g), assume(r, NOT(g)))
        return field(assume(r, g), v, 0)
    return early(c, itref, ity, c.a[1], step, lambda s, acc: agg(v, acc))


@model("Iter.try_for_each", "IntoIter.try_for_each", "IterMut.try_for_each")
def m_try_for_each(c):
    v = try_parts(c, c.dty)
    if v is None:
        return NotImplemented
    f = c.e.temp(c.st, c.a[1], "tf")
    itref, ity = self_iter(c)

    def step(s, acc, x, hit):
        r = call_fn(c.e, s, f, c.tys[1], [x])
        if s.guard is FALSE:
            return UNDEF
        g = goes_on(r, v)
        hit(NOT(g), assume(r, NOT(g)))
        return UNIT
    return early(c, itref, ity, UNIT, step, lambda s, acc: agg(v, UNIT))


@model("Iter.find", "IntoIter.find", "IterMut.find")
def m_find(c):
    f = c.e.temp(c.st, c.a[1], "fd")
    itref, ity = self_iter(c)

    def step(s, acc, x, hit):
        b = as_bool(call_fn(c.e, s, f, c.tys[1], [c.e.temp(s, x, "fx")]))
        hit(b, agg(1, x))
        return UNIT
    return early(c, itref, ity, UNIT, step, lambda s, acc: agg(0))


@model("Iter.find_map", "IntoIter.find_map")
def m_find_map(c):
    f = c.e.temp(c.st, c.a[1], "fd")
    itref, ity = self_iter(c)

    def step(s, acc, x, hit):
        r = call_fn(c.e, s, f, c.tys[1], [x])
        g = is_some(r)
        hit(g, assume(r, g))
        return UNIT
    return early(c, itref, ity, UNIT, step, lambda s, acc: agg(0))


@model("Iter.position", "IntoIter.position")
def m_position(c):
    f = c.e.temp(c.st, c.a[1], "fd")
    itref, ity = self_iter(c)

    def step(s, acc, x, hit):
        b = as_bool(call_fn(c.e, s, f, c.tys[1], [x]))
        hit(b, agg(1, acc))
        return add("u64", acc, I(1))
    return early(c, itref, ity, I(0), step, lambda s, acc: agg(0))


@model("array.from_fn", "core::array::from_fn", "std::array::from_fn")
def m_from_fn(c):
    t = c.P.ty(c.dty)
    if t["k"] != "array":
        return NotImplemented
    f = c.e.temp(c.st, c.a[0], "ff")
    eng, st = c.e, c.st
    i = eng.temp(st, I(0), "ffi")
    acc = eng.temp(st, EMPTY, "ffa")
    n = I(int(t["len"]))

    def body(s):
        k = s.load(i)
        more = lt("u64", k, n)
        e, y = s.copy(), s.copy()
        e.guard = AND(s.guard, NOT(more))
        y.guard = AND(s.guard, more)
        outs = [("end", e)]
        x = call_fn(eng, y, f, c.tys[0], [k])
        if y.guard is not FALSE:
            y.put(acc, push(y.load(acc), x))
            y.put(i, add("u64", k, I(1)))
            outs.append(("back", y))
        return outs
    outs = eng.loop("%s$from_fn" % eng.here(), st, body)
    if not outs:
        st.guard = FALSE
        return UNDEF
    m = merge([s for _, s in outs])
    st.mem, st.guard = m.mem, m.guard
    return st.load(acc)


@model("Vec.extend", "Extend.extend")
def m_extend(c):
    def step(s, acc, x, outs):
        return push(acc, s.load(x) if x.op == "ref" else x)
    v, _ = consume(c, c.a[1], c.tys[1], c.load(0), step, "extend")
    c.st.put(c.a[0], v)
    return UNIT


@model("Chunks.size_hint", "ChunksExact.size_hint", "Iter.size_hint", "IntoIter.size_hint")
def m_size_hint(c):
    n = m_it_len(c)
    return n if n is NotImplemented else agg("s", n, some(n))


@model("ExactSizeIterator.len", "Iter.len", "Chunks.len", "ChunksExact.len", "IntoIter.len")
def m_it_len(c):
    it = c.load(0)
    if it.op == "agg" and it.args[0] in ("chunks", "chunks_exact"):
        return lift(fl.ssub, it.args[3], it.args[2])
    if it.op == "agg" and it.args[0] in ("iter", "own"):
        return lift(fl.ssub, it.args[3], it.args[2])
    if it.op == "agg" and it.args[0] == "s" and len(it.args) == 3:
        return lift(fl.ssub, it.args[2], it.args[1])
    return NotImplemented


# ---- readers and writers -----------------------------------------------------
# agg('stream', source, offset); agg('bufreader', inner) where inner may be a reference

@model("BufReader.new", "BufReader.with_capacity")
def m_bufreader(c):
    return agg("bufreader", c.a[-1])


@model("BufWriter.new", "BufWriter.with_capacity", "LineWriter.new")
def m_bufwriter(c):
    return agg("bufwriter", c.a[-1])


@model("Cursor.new")
def m_cursor(c):
    v = c.a[0]
    if v.op == "ref":
        v = c.st.load(v)
    return agg("stream", v, I(0))


@model("Cursor.set_position")
def m_cursor_set(c):
    v = c.load(0)
    c.st.put(c.a[0], agg("stream", contents(v) if v.args[0] == "sink" else field(v, "stream", 0), c.a[1]))
    return UNIT


@model("Read.bytes", "~Read.bytes")
def m_bytes(c):
    r, v, chain = stream_ref(c.st, c.a[0] if c.a[0].op == "ref" else c.e.temp(c.st, c.a[0], "bytes"))
    if v.op != "agg" or v.args[0] != "stream" or v.args[1].op != "mem":
        return NotImplemented
    return agg("bytesok", v.args[1], v.args[2], seq_len(v.args[1]))


@model("Cursor.into_inner", "Cursor.get_ref")
def m_cursor_inner(c):
    v = c.a[0] if c.fn.short.endswith("into_inner") else c.load(0)
    r = contents(v) if v.op == "agg" and v.args[0] == "sink" else field(v, "stream", 0)
    return r if c.fn.short.endswith("into_inner") else cref(r)


def stream_ref(st, r, depth=0):
    """reference to the underlying stream of a (stack of) buffered reader(s)"""
    chain = 0
    while True:
        v = st.load(r)
        if v.op == "agg" and v.args[0] in ("bufreader", "bufwriter"):
            chain += 1
            inner = v.args[1]
            r = inner if inner.op == "ref" else extend(r, ("f", v.args[0], 0, 1))
            continue
        if v.op == "ref":
            r = v
            continue
        return r, v, chain


@model("BufReader.read_exact", "File.read_exact", "Read.read_exact", "&mut.read_exact", "R.read_exact", "~Read.read_exact", "&R.read_exact", "Cursor.read_exact")
def m_read_exact(c):
    r, v, chain = stream_ref(c.st, c.a[0])
    if v.op != "agg" or v.args[0] != "stream":
        return NotImplemented
    src, off = v.args[1], v.args[2]
    n = c.e.slice_len(c.st, c.a[1])
    end = add("u64", off, n)
    okc = TRUE if n is I(0) else as_bool(mk("avail", src, end))
    old = c.load(1)
    c.e.emit(c.st, "read", "read_exact", [src, off, n, I(chain)], okc)
    c.st.put(c.a[1], ite(okc, mk("rd", src, off, n), mk("rdpart", old)))
    c.st.put(r, agg("stream", src, end))
    return ite(okc, ok(UNIT), err(mk("ioerr", "read", src, end)))


@model("BufReader.read_to_end", "~Read.read_to_end", "File.read_to_end", "Read.read_to_end", "Take.read_to_end")
def m_read_to_end(c):
    r, v, chain = stream_ref(c.st, c.a[0])
    if v.op == "agg" and v.args[0] == "take":
        inner, lim = v.args[1], v.args[2]
        rr, vv, ch = stream_ref(c.st, c.e.temp(c.st, inner, "take")) if inner.op != "ref" else stream_ref(c.st, inner)
        if vv.op != "agg" or vv.args[0] != "stream":
            return NotImplemented
        src, off = vv.args[1], vv.args[2]
        full = as_bool(mk("avail", src, add("u64", off, lim))) if lim is not I(0) else TRUE
        got = ite(full, mk("rd", src, off, lim), mk("rdshort", src, off, lim))
        okc = as_bool(mk("readok", src, off))
        c.e.emit(c.st, "read", "read_to_end(take)", [src, off, lim, I(ch)], okc)
        c.st.put(c.a[1], concat(c.load(1), got))
        c.st.put(rr, agg("stream", src, ite(full, add("u64", off, lim), mk("eof", src))))
        return ite(okc, ok(seq_len(got)), err(mk("ioerr", "read", src, off)))
    if v.op != "agg" or v.args[0] != "stream":
        return NotImplemented
    src, off = v.args[1], v.args[2]
    rest = mk("rdrest", src, off) if src.op != "mem" else subseq(src, off, lift(fl.ssub, seq_len(src), off))
    okc = as_bool(mk("readok", src, off)) if src.op != "mem" else TRUE
    c.e.emit(c.st, "read", "read_to_end", [src, off, I(chain)], okc)
    c.st.put(c.a[1], concat(c.load(1), rest))
    c.st.put(r, agg("stream", src, mk("eof", src)))
    return ite(okc, ok(mk("len", rest)), err(mk("ioerr", "read", src, off)))


@model("Read.take", "BufReader.take", "~Read.take")
def m_read_take(c):
    return agg("take", c.a[0], c.a[1])


@model("Read.by_ref", "Write.by_ref", "~Read.by_ref", "~Write.by_ref")
def m_rd_by_ref(c):
    return c.a[0]


def unsign(x):
    if x.op == "reint":
        return x.args[2]
    if x.op == "lin" and x.args[0] == "i64":
        # the same bits, whatever the sign
        return lin("u64", wrap(x.args[1], "u64"), [(k, unsign(y)) for k, y in x.args[2]])
    return x


@model("BufReader.seek_relative", "~Seek.seek_relative")
def m_seek_rel(c):
    r, v, chain = stream_ref(c.st, c.a[0])
    if v.op != "agg" or v.args[0] != "stream":
        return NotImplemented
    src, off = v.args[1], v.args[2]
    d = lift(unsign, c.a[1])
    new = add("u64", off, d)
    okc = as_bool(mk("seekok", src, new))
    c.e.emit(c.st, "seek", "seek_relative", [src, off, d, I(chain)], okc)
    c.st.put(r, agg("stream", src, ite(okc, new, off)))
    return ite(okc, ok(UNIT), err(mk("ioerr", "seek", src, new)))


@model("~Seek.seek", "BufReader.seek", "File.seek")
def m_seek(c):
    r, v, chain = stream_ref(c.st, c.a[0])
    if v.op != "agg" or v.args[0] != "stream":
        return NotImplemented
    src, off = v.args[1], v.args[2]
    w = c.a[1]
    if w.op != "agg":
        return NotImplemented
    d = lift(unsign, w.args[1])
    new = {0: lambda: d, 2: lambda: add("u64", off, d)}.get(w.args[0], lambda: mk("seekend", src, d))()
    okc = as_bool(mk("seekok", src, new))
    c.e.emit(c.st, "seek", "seek", [src, off, new, I(chain)], okc)
    c.st.put(r, agg("stream", src, ite(okc, new, off)))
    return ite(okc, ok(new), err(mk("ioerr", "seek", src, new)))


@model("~Seek.stream_position", "BufReader.stream_position")
def m_stream_pos(c):
    r, v, chain = stream_ref(c.st, c.a[0])
    if v.op != "agg" or v.args[0] != "stream":
        return NotImplemented
    okc = as_bool(mk("seekok", v.args[1], v.args[2]))
    return ite(okc, ok(v.args[2]), err(mk("ioerr", "pos")))


def sink_of(c, r):
    r, v, chain = stream_ref(c.st, r)
    if v is EMPTY or v.op == "agg" and v.args[0] == "stream" and v.args[1] is EMPTY:
        # a buffer in memory, named by where writing to it starts
        v = agg("sink", mk("mem", c.e.fresh("mem")))
        c.st.put(r, v)
    return r, v, chain


def contents(v):
    """the bytes in a memory buffer"""
    return v.args[1] if v.op == "agg" and v.args[0] == "sink" and v.args[1].op == "mem" else v


@model("BufWriter.write_all", "~Write.write_all", "File.write_all", "Vec.write_all", "&mut.write_all")
def m_write_all(c):
    r, v, chain = sink_of(c, c.a[0])
    data = c.load(1)
    if v.op == "agg" and v.args[0] != "sink":
        return NotImplemented
    okc = as_bool(c.e.fresh("wok"))
    c.e.emit(c.st, "write", "write_all", [v, data, I(chain)], okc)
    return ite(okc, ok(UNIT), err(c.e.fresh("ioerr")))


@model("BufWriter.write", "~Write.write", "File.write")
def m_write_some(c):
    r, v, chain = sink_of(c, c.a[0])
    data = c.load(1)
    okc = as_bool(c.e.fresh("wok"))
    c.e.emit(c.st, "write", "write", [v, data, I(chain)], okc)
    return ite(okc, ok(c.e.fresh("written")), err(c.e.fresh("ioerr")))


@model("BufWriter.flush", "~Write.flush", "File.flush", "&mut.flush")
def m_flush(c):
    r, v, chain = sink_of(c, c.a[0])
    okc = as_bool(c.e.fresh("fok"))
    c.e.emit(c.st, "flush", "flush", [v, I(chain)], okc)
    return ite(okc, ok(UNIT), err(c.e.fresh("ioerr")))


@model("BufWriter.into_inner")
def m_into_inner(c):
    v = c.a[0]
    if v.op != "agg" or v.args[0] != "bufwriter":
        return NotImplemented
    inner = v.args[1]
    sink = c.st.load(inner) if inner.op == "ref" else inner
    okc = as_bool(c.e.fresh("fok"))
    c.e.emit(c.st, "flush", "into_inner", [sink, I(1)], okc)
    return ite(okc, ok(inner), err(c.e.fresh("ioerr")))


@model("Repr.new_simple", "Error.from_kind")
def m_io_simple(c):
    return mk("ioerr", "kind", c.a[0])


@model("Repr.new_custom", "Repr.new_const", "Repr.new_simple_message", "Error.new", "Error.other")
def m_io_custom(c):
    return mk("ioerr", "custom", *[a for a in c.a])


# ---- strings and formatting --------------------------------------------------

@model("Arguments.from_str", "Arguments.new_const")
def m_args_str(c):
    return agg("fmt", c.load(0) if c.a[0].op == "ref" else c.a[0])


@model("Argument.new_display", "Argument.new_debug", "Argument.new_lower_hex", "Argument.new_lower_exp")
def m_arg(c):
    v = c.load(0)
    for _ in range(3):
        if v.op == "ref":
            v = c.st.load(v)
        else:
            xs = listed(v)
            if xs is not None and all(x.op == "ref" for x in xs[0]):
                v = sel(arr([c.st.load(x) for x in xs[0]]), xs[1])
    return agg("arg", mk("fmtkind", c.fn.short), v)


def listed(v):
    """the values one of which a part of an element of a known list is, and which one"""
    if v.op == "sel" and v.args[0].op == "arr":
        return v.args[0].args, v.args[1]
    if v.op == "fld":
        xs = listed(v.args[0])
        if xs is not None:
            return [field(x, v.args[1], v.args[2]) for x in xs[0]], xs[1]
    return None


@model("Arguments.new")
def m_args_new(c):
    t = c.load(0)
    a = c.load(1)
    return agg("fmt", t, a)


@model("fmt::format")
def m_format(c):
    return mk("formatted", c.a[0])


@model("String.write_fmt")
def m_string_write_fmt(c):
    c.st.put(c.a[0], concat(c.load(0), mk("formatted", c.a[1])))
    return ok(UNIT)


@model("String.write_str")
def m_string_write_str(c):
    c.st.put(c.a[0], concat(c.load(0), c.load(1)))
    return ok(UNIT)


@model("io::_print", "io::_eprint")
def m_print(c):
    c.e.emit(c.st, "print" if "eprint" not in c.fn.short else "eprint", c.fn.short, [c.a[0]])
    return UNIT


@model("io::stdout", "io::stderr")
def m_stdout(c):
    return agg("terminal", I(1 if c.fn.short == "io::stdout" else 2))


@model("Stdout.lock", "Stderr.lock")
def m_out_lock(c):
    return c.load(0)


def terminal(c):
    v = c.a[0]
    for _ in range(6):
        if v.op == "ref":
            v = c.st.load(v)
        elif v.op == "agg" and v.args[0] == "bufwriter":
            v = v.args[1]
    return v if v.op == "agg" and v.args[0] == "terminal" else None


@model("Write.write_fmt", "~Write.write_fmt")
def m_write_fmt(c):
    t = c.P.ty(c.P.ty(c.tys[0]).get("t", c.tys[0]))
    if t["k"] == "adt" and t["name"].split("::")[-1] == "String":
        c.st.put(c.a[0], concat(c.load(0), mk("formatted", c.a[1])))
        return ok(UNIT)
    v = terminal(c)
    if v is None:
        return NotImplemented
    c.e.emit(c.st, "print" if v.args[1] is I(1) else "eprint", "write_fmt", [c.a[1]])
    return agg(0, UNIT)
