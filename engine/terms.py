"""Hash-consed value terms with normalising constructors.

A value is either a plain term or a gated value: a decision diagram whose inner
nodes ('ite', atom, hi, lo) test a boolean atom and whose leaves are plain terms
(gated SSA's gamma nodes in a canonical order).  Booleans are diagrams over the
leaves TRUE / FALSE.  Unsigned integers are mathematical non-negative values;
arithmetic that can wrap carries its width.
"""
import math
import struct

_table = {}
_next = [0]


class T:
    __slots__ = ("op", "args", "id", "_h", "__weakref__")

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


def mk(op, *args):
    key = (op, args)
    t = _table.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.id = _next[0]
        _next[0] += 1
        _table[key] = t
    return t


TRUE = mk("true")
FALSE = mk("false")
UNIT = mk("agg", 0)
UNDEF = mk("undef")

WIDTH = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "u128": 128, "usize": 64,
         "i8": 8, "i16": 16, "i32": 32, "i64": 64, "i128": 128, "isize": 64, "char": 32, "bool": 1}


def norm_ty(n):
    return {"usize": "u64", "isize": "i64", "char": "u32"}.get(n, n)


def is_signed(ty):
    return ty.startswith("i")


def is_float(ty):
    return ty.startswith("f")


def wrap(v, ty):
    w = WIDTH[ty]
    v &= (1 << w) - 1
    if is_signed(ty) and v >> (w - 1):
        v -= 1 << w
    return v


def I(v, ty="u64"):
    # constants of every unsigned width share one representation
    return mk("i", v)


def F(x):
    if isinstance(x, float):
        bits = struct.unpack("<Q", struct.pack("<d", x))[0]
    else:
        bits = x
    return mk("f", bits)


def fval(t):
    return struct.unpack("<d", struct.pack("<Q", t.args[0]))[0]


def is_int(t):
    return t.op == "i"


def ival(t):
    return t.args[0]


def B(b):
    return TRUE if b else FALSE


def sym(name, ty="?"):
    return mk("sym", name, ty)


def agg(tag, *fields):
    if tag == "s" and len(fields) == 1 and fields[0].op == "fld" and fields[0].args[1] == "s" and fields[0].args[2] == 0:
        # a wrapper around the field of the same wrapper
        return fields[0].args[0]
    return mk("agg", tag, *fields)


# --------------------------------------------------------------------------
# decision diagrams
# --------------------------------------------------------------------------
_ite_memo = {}


def is_ite(t):
    return t.op == "ite"


def as_bool(t):
    if t is TRUE or t is FALSE:
        return t
    if t.op == "ite":
        return t
    return atom_bool(t)


def atom_bool(t):
    """a boolean plain term as a diagram; negative atoms are normalised"""
    return mk("ite", t, TRUE, FALSE)


def nvariants_hint(x):
    if x.op == "discr":
        return x.args[1]
    return None


M64 = (1 << 64) - 1


def decide_under_eq(atom, x, c):
    """truth of atom when x == c (constants), or None"""
    if atom.op == "eq" and len(atom.args) == 2:
        a, b = atom.args
        if a is x and b.op in ("i", "f"):
            return b is c
        if b is x and a.op in ("i", "f"):
            return a is c
        if c.op == "i":
            if a is c and b is x or b is c and a is x:
                return True
    if atom.op == "lt" and c.op == "i":
        a, b = atom.args
        if a is x and b.op == "i":
            return ival(c) < ival(b)
        if a is x and ival(c) == M64:
            return False
        if b is x and a.op == "i":
            return ival(a) < ival(c)
    return None


def decide(atom, lit, val):
    """truth of atom given that atom lit has value val, or None"""
    if atom is lit:
        return val
    if lit.op == "eq" and val:
        a, b = lit.args
        if b.op == "i":
            return decide_under_eq(atom, a, b)
        if a.op == "i":
            return decide_under_eq(atom, b, a)
    if lit.op == "lt":
        a, b = lit.args
        if atom.op == "lt" and atom.args[0] is a and b.op == "i" and atom.args[1].op == "i":
            if val and ival(b) <= ival(atom.args[1]):
                return True
            if not val and ival(atom.args[1]) <= ival(b):
                return False
        if val and atom.op == "lt" and atom.args[0] is b and atom.args[1] is a:
            return False
        if val and atom.op == "eq" and (atom.args == (a, b) or atom.args == (b, a)):
            return False
        if val and atom.op == "eq" and a.op == "sym" and atom.args[0] is a and atom.args[1].op == "i" and ival(atom.args[1]) == M64:
            return False
        if val and atom.op == "eq" and atom.args[0] is a and atom.args[1].op == "i" and b.op == "i":
            if ival(atom.args[1]) >= ival(b):
                return False
        if not val and atom.op == "eq" and atom.args[0] is a and atom.args[1].op == "i" and b.op == "i":
            if ival(atom.args[1]) < ival(b):
                return False
    if lit.op == "eq" and val and atom.op == "lt":
        a, b = lit.args
        if atom.args == (a, b) or atom.args == (b, a):
            return False
    if lit.op == "avail" and atom.op == "avail" and lit.args[0] is atom.args[0]:
        # data is available up to some point
        d = lin("u64", 0, [(1, lit.args[1]), (-1, atom.args[1])])
        d = ival(d) if d.op == "i" else None
        if d is not None and val and d < 1 << 63:
            return True
        if d is not None and not val and (d == 0 or d >> 63):
            return False
    if lit.op in ("flt", "fle", "feq") and atom.op in ("flt", "fle", "feq"):
        return decide_float(atom, lit, val)
    return None


def decide_float(atom, lit, val):
    a, b = lit.args
    c, d = atom.args
    if lit.op == "feq":
        if a is b and not val and a in atom.args:
            # not a number
            return False
        if val and a is not b and atom.op == "feq" and c is d and c in lit.args:
            return True
        return None
    if val and atom.op == "feq" and c is d and c in lit.args:
        return True
    if lit.op != "fle" or atom.op != "fle":
        return None
    if a.op == "f" and c.op == "f" and b is d:
        # constant lower bounds
        if val and fval(c) <= fval(a):
            return True
        if not val and fval(c) >= fval(a):
            return False
    if b.op == "f" and d.op == "f" and a is c:
        # constant upper bounds
        if val and fval(b) <= fval(d):
            return True
        if not val and fval(d) <= fval(b):
            return False
    if val and a.op == "f" and d.op == "f" and b is c and fval(a) > fval(d):
        return False
    if val and b.op == "f" and c.op == "f" and a is d and fval(c) > fval(b):
        return False
    return None


_cof = {}


def cofactor(t, lit, val):
    """t with every atom decided by lit=val removed"""
    if t.op != "ite":
        if t.op == "agg":
            return agg(t.args[0], *[cofactor(a, lit, val) if isinstance(a, T) else a for a in t.args[1:]])
        if t.op == "arr":
            return mk("arr", *[cofactor(a, lit, val) for a in t.args])
        return simp_under(t, lit, val)
    k = (t, lit, val)
    r = _cof.get(k)
    if r is not None:
        return r
    a, hi, lo = t.args
    d = decide(a, lit, val)
    if d is True:
        r = cofactor(hi, lit, val)
    elif d is False:
        r = cofactor(lo, lit, val)
    else:
        r = mk_ite(a, cofactor(hi, lit, val), cofactor(lo, lit, val))
    _cof[k] = r
    return r


def simp_under(t, lit, val):
    """leaf simplifications available when lit has value val"""
    if t.op == "phi":
        return num(cofactor(t.args[0], lit, val))
    if lit.op == "bit" and val:
        w, k = lit.args
        if t.op == "or":
            bm = bitmask(k)
            if w in t.args and bm in t.args:
                rest = [x for x in t.args if x is not bm]
                return rest[0] if len(rest) == 1 else mk("or", *rest)
        if t.op == "upd":
            s, i, v = t.args
            v2 = simp_under(v, lit, val) if v.op != "ite" else cofactor(v, lit, val)
            if v2 is not v:
                return upd(s, i, v2)
    if lit.op == "bit" and not val:
        w, k = lit.args
        if t.op == "and":
            nm = bnot(bitmask(k))
            if w in t.args and nm in t.args:
                rest = [x for x in t.args if x is not nm]
                return rest[0] if len(rest) == 1 else mk("and", *rest)
        if t.op == "upd":
            s, i, v = t.args
            v2 = simp_under(v, lit, val) if v.op != "ite" else cofactor(v, lit, val)
            if v2 is not v:
                return upd(s, i, v2)
    if lit.op == "eq" and val and t.op == "upd":
        s, i, v = t.args
        if v.op == "ite":
            v2 = cofactor(v, lit, val)
            if v2 is not v:
                return upd(s, i, v2)
    if lit.op == "eq" and val and lit.args[1].op == "i":
        # pow2(n): popcnt(n) == 1
        x, c = lit.args
        if ival(c) == 1 and x.op == "popcnt":
            n = x.args[0]
            return pow2_rewrite(t, n)
    return t


def pow2_rewrite(t, n):
    m = lin("u64", -1, [(1, n)])
    if t.op == "and" and m in t.args:
        rest = [a for a in t.args if a is not m]
        x = rest[0] if len(rest) == 1 else mk("and", *rest)
        return rem(x, n)
    return t


def mk_ite(atom, hi, lo):
    """node constructor (atom is smaller than the atoms in hi and lo)"""
    if hi is lo:
        return hi
    k = (atom, hi, lo)
    r = _ite_memo.get(k)
    if r is None:
        r = _mk_ite(atom, hi, lo)
        _ite_memo[k] = r
    return r


def _mk_ite(atom, hi, lo):
    hi2 = cofactor(hi, atom, True)
    lo2 = cofactor(lo, atom, False)
    if hi2 is not hi or lo2 is not lo:
        return mk_ite(atom, hi2, lo2)
    if hi is UNDEF:
        return lo
    if lo is UNDEF:
        return hi
    if hi.op == "agg" and lo.op == "agg" and hi.args[0] == lo.args[0] and len(hi.args) == len(lo.args) and len(hi.args) > 1:
        return agg(hi.args[0], *[ite_atom(atom, a, b) for a, b in zip(hi.args[1:], lo.args[1:])])
    # a structure known by its fields against one known as a whole
    for x, y in ((hi, lo), (lo, hi)):
        if x.op == "agg" and x.args[0] == "s" and len(x.args) > 1 and y.op in ETA and any(mentions_fld(a, y) for a in x.args[1:]):
            y2 = [mk("fld", y, "s", i) for i in range(len(x.args) - 1)]
            hs, ls = (x.args[1:], y2) if x is hi else (y2, x.args[1:])
            return agg("s", *[ite_atom(atom, a, b) for a, b in zip(hs, ls)])
    # conditional single-element update is an update with a conditional value
    if hi.op == "upd" and lo.op != "ite":
        s, i, v = hi.args
        if lo is s:
            return upd(s, i, ite_atom(atom, v, sel(s, i)))
        if lo.op == "upd" and lo.args[0] is s and lo.args[1] is i:
            return upd(s, i, ite_atom(atom, v, lo.args[2]))
    if lo.op == "upd" and hi.op != "ite":
        s, i, v = lo.args
        if hi is s:
            return upd(s, i, ite_atom(atom, sel(s, i), v))
    if atom.op == "bit":
        w, k = atom.args
        bm = bitmask(k)
        if lo.op == "or" and bm in lo.args and w in lo.args:
            rest = [x for x in lo.args if x is not bm]
            r0 = rest[0] if len(rest) == 1 else mk("or", *rest)
            if hi is r0:
                return lo
        if hi.op == "and":
            nm = bnot(bm)
            if nm in hi.args and w in hi.args:
                rest = [x for x in hi.args if x is not nm]
                if lo is (rest[0] if len(rest) == 1 else mk("and", *rest)):
                    return hi
    if atom.op == "eq":
        a, b = atom.args
        if b.op in ("i",) and hi is b and lo is a:
            return a
        if {hi, lo} == {a, b} and lo in (a, b):
            return lo
        if a.op == "rem" and b is I(0) and a.args[1].op == "i" and hi is mk("div", a.args[0], a.args[1]) and lo is lin("u64", 1, [(1, hi)]):
            return cdiv(*a.args)
        if a.op == "rem" and b is I(0) and a.args[1].op == "i":
            # x mod k == 0: k*(x/k) is x
            x, kk = a.args
            key = mk("lin", "u64", 0, ((ival(kk), mk("div", x, kk)),))
            if key is not x and subst(hi, {key: x}) is lo:
                return lo
        if b is I(0) and hi is b and lo is a:
            return a
        if b is I(0) and hi is I(1) and lo is a:
            # the number itself, at least one
            return mm("max", a, hi)
        if b is I(0) and hi.op not in ("true", "false") and lo.op not in ("true", "false") and contains_term(lo, a) and subst(lo, {a: b}) is hi:
            return lo
    if atom.op == "lt":
        a, b = atom.args
        if hi is a and lo is b:
            return mm("min", a, b)
        if hi is b and lo is a:
            return mm("max", a, b)
        if hi.op == "i" and ival(hi) == 0 and lo is sub("u64", a, b):
            return mk("ssub", a, b)
        if lo.op == "i" and ival(lo) == 0 and hi is sub("u64", b, a):
            return mk("ssub", b, a)
        if b.op == "i" and hi.op == "i" and lo is a and ival(hi) == ival(b) - 0:
            # if x < c then c else x  == max(x, c)
            return mm("max", a, b)
        if b.op == "i" and lo.op == "i" and hi is a and ival(lo) == ival(b) - 1:
            return mm("min", a, lo)
        if b.op == "i" and hi.op == "i" and lo is a and ival(hi) == ival(b) - 1 and False:
            return None
    # a test whose outcome makes no difference once it is known
    if lo.op == "ite" and cofactor(lo, atom, True) is hi:
        return lo
    if hi.op == "ite" and cofactor(hi, atom, False) is lo:
        return hi
    return mk("ite", atom, hi, lo)


ETA = {"mu", "recvar", "sel", "sym", "fld"}


def mentions_fld(t, y):
    while t.op in ("upd", "splice", "scatter"):
        t = t.args[0]
    return t.op == "fld" and t.args[0] is y


def contains_term(t, s):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x is s:
            return True
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        st.extend(x.args)
    return False


def mm(op, *xs):
    out = set()
    for x in xs:
        if x.op == op:
            out.update(x.args)
        else:
            out.add(x)
    cs = [x for x in out if x.op == "i"]
    if len(cs) > 1:
        v = (min if op == "min" else max)(ival(c) for c in cs)
        out -= set(cs)
        out.add(I(v))
    if op == "min":
        for x in list(out):
            if x.op == "lin" and x.args[1] == 0 and len(x.args[2]) == 1:
                k, y = x.args[2][0]
                if y.op == "cdiv" and y.args[1] is I(k) and y.args[0] in out:
                    # k * ceil(y / k) is at least y
                    out.discard(x)
    if len(out) == 1:
        return next(iter(out))
    if op == "max":
        for c in list(out):
            if c.op == "i" and ival(c) == 0:
                out.discard(c)
        if len(out) == 1:
            return next(iter(out))
    return mk(op, *sorted(out))


_ap = {}


def ite_atom(atom, a, b):
    return ite(mk("ite", atom, TRUE, FALSE), a, b)


def top(t):
    return t.args[0] if t.op == "ite" else None


def ite(c, a, b):
    """general gated choice: c boolean diagram"""
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    if c.op != "ite":
        c = as_bool(c)
    k = (c, a, b)
    r = _ap.get(k)
    if r is not None:
        return r
    v = min(x for x in (top(c), top(a), top(b)) if x is not None)
    c1, c0 = split(c, v)
    a1, a0 = split(a, v)
    b1, b0 = split(b, v)
    r = mk_ite(v, ite(c1, a1, b1), ite(c0, a0, b0))
    _ap[k] = r
    return r


def split(t, v):
    if t.op == "ite" and t.args[0] is v:
        return t.args[1], t.args[2]
    return t, t


def NOT(a):
    return ite(as_bool(a), FALSE, TRUE)


def AND(*xs):
    r = TRUE
    for x in xs:
        r = ite(r, as_bool(x), FALSE)
    return r


def OR(*xs):
    r = FALSE
    for x in xs:
        r = ite(r, TRUE, as_bool(x))
    return r


def XOR(a, b):
    return ite(as_bool(a), NOT(b), as_bool(b))


def implies(a, b):
    return ite(as_bool(a), as_bool(b), TRUE) is TRUE


def restrict(f, c):
    """f simplified under the care set c"""
    if c is TRUE or f.op != "ite":
        return f
    if c is FALSE:
        return f
    k = ("restrict", f, c)
    r = _ap.get(k)
    if r is not None:
        return r
    cv = top(c)
    fv = top(f)
    v = min(cv, fv)
    c1, c0 = split(c, v)
    f1, f0 = split(f, v)
    if c1 is FALSE:
        r = restrict(f0, c0)
    elif c0 is FALSE:
        r = restrict(f1, c1)
    elif fv is not v:
        r = restrict(f, OR(c1, c0))
    else:
        r = mk_ite(v, restrict(f1, c1), restrict(f0, c0))
    _ap[k] = r
    return r


def leaves(t, out=None):
    seen = set()
    res = []
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "ite":
            stack.append(x.args[1])
            stack.append(x.args[2])
        else:
            res.append(x)
    return res


def guarded_leaves(t):
    """[(condition, leaf)] with conditions as diagrams, one entry per distinct leaf"""
    if t.op != "ite":
        return [(TRUE, t)]
    res = {}
    for l in leaves(t):
        res[l] = map_leaves(t, lambda x, l=l: TRUE if x is l else FALSE)
    return [(c, l) for l, c in res.items()]


def map_leaves(t, f, memo=None):
    if memo is None:
        memo = {}
    if t.op != "ite":
        return f(t)
    r = memo.get(t)
    if r is None:
        r = ite_atom(t.args[0], map_leaves(t.args[1], f, memo), map_leaves(t.args[2], f, memo))
        memo[t] = r
    return r


def atoms(t):
    seen = set()
    res = []
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen or x.op != "ite":
            continue
        seen.add(x)
        if x.args[0] not in seen:
            res.append(x.args[0])
        stack.append(x.args[1])
        stack.append(x.args[2])
    out = []
    for a in res:
        if a not in out:
            out.append(a)
    return out


def literals(c):
    """atoms forced by condition c: [(atom, value)]"""
    out = []
    for a in atoms(c):
        pa = atom_bool(a)
        if implies(c, pa):
            out.append((a, True))
        elif implies(c, NOT(pa)):
            out.append((a, False))
    return out


def assume(t, c):
    """t simplified under the literals implied by c and the care set c"""
    if c is TRUE:
        return t
    for a, v in literals(c):
        t = deep_cof(t, a, v)
    return map_agg(t, lambda x: restrict(x, c))


def map_agg(t, f):
    if t.op == "agg":
        return agg(t.args[0], *[map_agg(a, f) if isinstance(a, T) else a for a in t.args[1:]])
    return f(t)


_hasite = {}


def has_ite(t):
    """does any gate occur at or below t"""
    r = _hasite.get(t)
    if r is None:
        r = t.op == "ite" or any(_arg_ite(a) for a in t.args)
        _hasite[t] = r
    return r


def _arg_ite(a):
    if isinstance(a, T):
        return has_ite(a)
    return isinstance(a, tuple) and any(_arg_ite(x) for x in a)


_dcof = {}


def deep_cof(t, lit, val):
    """cofactor that also reaches gates inside operands"""
    k = (t, lit, val)
    r = _dcof.get(k)
    if r is not None:
        return r
    if t.op == "ite":
        a, hi, lo = t.args
        d = decide(a, lit, val)
        if d is None and has_ite(a):
            a2 = deep_cof(a, lit, val)
            if a2 is not a:
                r = ite(as_bool(a2), deep_cof(hi, lit, val), deep_cof(lo, lit, val))
        if r is None:
            if d is True:
                r = deep_cof(hi, lit, val)
            elif d is False:
                r = deep_cof(lo, lit, val)
            else:
                r = ite_atom(a, deep_cof(hi, lit, val), deep_cof(lo, lit, val))
    elif has_ite(t):
        r = rebuild(t, lambda x: deep_cof(x, lit, val))
        if r.op != "ite":
            r = simp_under(r, lit, val)
    else:
        r = simp_under(t, lit, val)
    _dcof[k] = r
    return r


def lift(f, *xs, limit=96):
    """apply f leaf-wise over gated operands"""
    tops = [top(x) for x in xs if isinstance(x, T) and x.op == "ite"]
    if not tops:
        return f(*xs)
    v = min(tops)
    h = [split(x, v)[0] if isinstance(x, T) else x for x in xs]
    l = [split(x, v)[1] if isinstance(x, T) else x for x in xs]
    return ite_atom(v, lift(f, *h), lift(f, *l))


def num(x):
    """a gated number used in arithmetic is one value, not a reason to split the arithmetic"""
    if isinstance(x, T) and x.op == "ite" and any(l.op not in ("i", "f", "true", "false", "undef") for l in leaves(x)):
        ls = leaves(x)
        if any(l.op == "i2f" for l in ls) and all(l.op == "i2f" or is_count(l) for l in ls):
            # integers converted in every branch: convert the gated integer
            return mk("i2f", num(map_leaves(x, lambda l: l.args[0] if l.op == "i2f" else I(int(fval(l))))))
        return mk("phi", x)
    return x


def is_count(l):
    return l.op == "f" and fval(l) >= 0 and fval(l) < 2 ** 53 and fval(l) == int(fval(l)) and str(fval(l))[0] != "-"


def cdiv(x, y):
    """x / y rounded up"""
    if y.op == "i":
        c = ival(y)
        if c == 1:
            return x
        if x.op == "i" and c:
            return I(-(-ival(x) // c))
        if c and x.op == "lin" and x.args[1] >= 0 and x.args[1] % c == 0 and all(k > 0 and k % c == 0 for k, _ in x.args[2]):
            # sizes of existing storage do not wrap
            return lin(x.args[0], x.args[1] // c, [(k // c, t) for k, t in x.args[2]])
    return mk("cdiv", x, y)


def nlift(f, *xs):
    return lift(f, *[num(x) for x in xs])


# --------------------------------------------------------------------------
# integers
# --------------------------------------------------------------------------

def umax(t):
    """upper bound of an unsigned value, or None"""
    op = t.op
    if op == "i":
        return ival(t)
    if op == "rem":
        m = umax(t.args[1])
        return None if not m else m - 1
    if op == "and":
        bs = [umax(x) for x in t.args]
        bs = [b for b in bs if b is not None]
        return min(bs) if bs else None
    if op == "div":
        a = umax(t.args[0])
        if t.args[1].op == "i":
            return (a if a is not None else (1 << 64) - 1) // max(1, ival(t.args[1]))
        return a
    if op == "popcnt":
        return 128
    if op == "cdiv" and t.args[1].op == "i":
        a = umax(t.args[0])
        return -(-(a if a is not None else (1 << 64) - 1) // max(1, ival(t.args[1])))
    if op == "le" and t.args[0] < 8:
        return (1 << (8 * t.args[0])) - 1
    if op == "sym":
        ty = t.args[1]
        if ty in WIDTH and not is_signed(ty):
            return (1 << WIDTH[ty]) - 1
        return None
    if op == "phi":
        return umax(t.args[0])
    if op == "ite":
        m = [umax(x) for x in leaves(t)]
        return None if any(x is None for x in m) else max(m)
    if op == "sel" and len(t.args) > 2:
        return None
    if op in ("or", "xor"):
        m = [umax(x) for x in t.args]
        if any(x is None for x in m):
            return None
        return (1 << max(x.bit_length() for x in m)) - 1
    if op == "bitmask":
        k = umax(t.args[0])
        return None if k is None or k > 127 else (1 << k)
    if op == "byte":
        return 255
    return None


def wrap_s(v, w):
    v &= (1 << w) - 1
    return v - (1 << w) if v >> (w - 1) else v


def lin(ty, const, terms):
    acc = {}
    c = const
    for k, t in terms:
        if t.op == "i":
            c += k * ival(t)
        elif t.op == "lin" and t.args[0] == ty:
            c += k * t.args[1]
            for k2, t2 in t.args[2]:
                acc[t2] = acc.get(t2, 0) + k * k2
        else:
            acc[t] = acc.get(t, 0) + k
    w = WIDTH[ty]
    m = (1 << w) - 1
    c = wrap(c, ty)
    out = []
    for t, k in acc.items():
        k &= m
        if k:
            if k >> (w - 1):
                k -= 1 << w
            out.append((k, t))
    # k*q*(x/k) + q*(x mod k) = q*x
    if len(out) > 1:
        d = {t: k for k, t in out}
        for t, k in list(d.items()):
            if t.op == "rem" and t.args[1].op == "i":
                q = mk("div", t.args[0], t.args[1])
                if d.get(q) == wrap_s(k * ival(t.args[1]), w):
                    return lin(ty, c, [(kk, tt) for tt, kk in d.items() if tt is not t and tt is not q] + [(k, t.args[0])])
    if not out:
        return I(c)
    if len(out) == 1 and c == 0 and out[0][0] == 1:
        return out[0][1]
    out.sort(key=lambda p: p[1].id)
    # keep constants small and signed for readability
    if c >> (w - 1):
        c -= 1 << w
    return mk("lin", ty, c, tuple(out))


def add(ty, a, b):
    return nlift(lambda x, y: lin(ty, 0, [(1, x), (1, y)]), a, b)


def sub(ty, a, b):
    return nlift(lambda x, y: lin(ty, 0, [(1, x), (-1, y)]), a, b)


def mul(ty, a, b):
    def f(x, y):
        if x.op == "i":
            x, y = y, x
        if y.op == "i":
            return lin(ty, 0, [(ival(y), x)])
        fs = []
        for z in (x, y):
            if z.op == "mul" and z.args[0] == ty:
                fs.extend(z.args[1:])
            else:
                fs.append(z)
        return mk("mul", ty, *sorted(fs))
    return nlift(f, a, b)


def div(ty, a, b):
    def f(x, y):
        if y.op == "i":
            c = ival(y)
            if c == 1:
                return x
            if x.op == "i" and c:
                return I(ival(x) // c if not is_signed(ty) else int(ival(x) / c))
            m = umax(x)
            if m is not None and c > m:
                return I(0)
            if x.op == "div" and x.args[1].op == "i" and not is_signed(ty):
                return div(ty, x.args[0], I(c * ival(x.args[1])))
            if x.op == "lin" and x.args[1] == c - 1 and not is_signed(ty):
                # the overflow of the addition is an event of its own
                return cdiv(lin(x.args[0], 0, list(x.args[2])), y)
            # (c*k*x)/c with no wrap information is left alone
        return mk("div", x, y)
    return nlift(f, a, b)


def rem(a, b):
    def f(x, y):
        if y.op == "i":
            c = ival(y)
            if c == 1:
                return I(0)
            if x.op == "i" and c:
                return I(ival(x) % c)
            m = umax(x)
            if c == 0:
                return mk("rem", x, y)
            if m is not None and m < c:
                return x
            if x.op == "rem" and x.args[1].op == "i" and ival(x.args[1]) % c == 0 and c & (c - 1) == 0:
                return rem(x.args[0], y)
            if c & (c - 1) == 0 and x.op == "lin" and all((k % c) == 0 for k, _ in x.args[2]):
                return I(x.args[1] % c)
        return mk("rem", x, y)
    return nlift(f, a, b)


def bits_and(a, b):
    return nlift(_and, a, b)


def _flat(op, x, y):
    out = []
    for z in (x, y):
        if z.op == op:
            out.extend(z.args)
        else:
            out.append(z)
    return out


def _and(x, y):
    xs = _flat("and", x, y)
    c = None
    out = set()
    for z in xs:
        if z.op == "i":
            c = ival(z) if c is None else c & ival(z)
        else:
            out.add(z)
    if c == 0:
        return I(0)
    if not out:
        return I(c)
    if c is not None:
        base = next(iter(out)) if len(out) == 1 else mk("and", *sorted(out))
        if c & (c + 1) == 0:
            return rem(base, I(c + 1))
        out.add(I(c))
    for z in list(out):
        if bnot(z) in out:
            return I(0)
    if len(out) == 1:
        return next(iter(out))
    return mk("and", *sorted(out))


def bits_or(a, b):
    return nlift(_or, a, b)


def _or(x, y):
    xs = _flat("or", x, y)
    c = 0
    out = set()
    for z in xs:
        if z.op == "i":
            c |= ival(z)
        else:
            out.add(z)
    if c:
        out.add(I(c))
    if not out:
        return I(0)
    if len(out) == 1:
        return next(iter(out))
    return mk("or", *sorted(out))


def bits_xor(ty, a, b):
    def f(x, y):
        xs = _flat("xor", x, y)
        c = 0
        cnt = {}
        for z in xs:
            if z.op == "i":
                c ^= ival(z)
            elif z.op == "not":
                c ^= (1 << WIDTH[ty]) - 1
                cnt[z.args[0]] = cnt.get(z.args[0], 0) ^ 1
            else:
                cnt[z] = cnt.get(z, 0) ^ 1
        out = [z for z, n in cnt.items() if n]
        if c == (1 << WIDTH[ty]) - 1 and len(out) == 1:
            return bnot(out[0])
        if c:
            out.append(I(c))
        if not out:
            return I(0)
        if len(out) == 1:
            return out[0]
        if len(out) == 2:
            for m, w in (out, out[::-1]):
                if m.op == "bitmask" and w.op not in ("bitmask", "i"):
                    # flipping one bit
                    k = m.args[0]
                    return ite(bit(w, k), bits_and(w, bnot(m)), bits_or(w, m))
        return mk("xor", *sorted(out))
    return nlift(f, a, b)


def bnot(x):
    if x.op == "not":
        return x.args[0]
    return mk("not", x)


def int_not(ty, a):
    def f(x):
        if x.op == "i":
            return I(wrap(~ival(x), ty))
        return bnot(x)
    return nlift(f, a)


def bitmask(k):
    if k.op == "i":
        return I(1 << ival(k))
    return mk("bitmask", k)


def shl(ty, a, n):
    w = WIDTH[ty]

    def f(x, k):
        k = rem(k, I(w))
        if k.op == "ite":
            return nlift(f, x, k)
        if k.op == "i":
            return lin(ty, 0, [(1 << ival(k), x)])
        if x.op == "i" and ival(x) == 1:
            return bitmask(k)
        if x.op == "i" and ival(x) == 0:
            return x
        return mk("shl", ty, x, k)
    return nlift(f, a, n)


def shr(ty, a, n):
    w = WIDTH[ty]

    def f(x, k):
        k = rem(k, I(w))
        if k.op == "ite":
            return nlift(f, x, k)
        if k.op == "i" and not is_signed(ty):
            return div(ty, x, I(1 << ival(k)))
        return mk("shr", ty, x, k)
    return nlift(f, a, n)


def popcnt(ty, a):
    def f(x):
        if x.op == "i":
            return I(bin(ival(x) & ((1 << WIDTH[ty]) - 1)).count("1"))
        if x.op == "not":
            return lin("u64", WIDTH[ty], [(-1, popcnt(ty, x.args[0]))])
        return mk("popcnt", x)
    return nlift(f, a)


def nonzero(x):
    if x.op == "i":
        return ival(x) != 0
    if x.op == "nz":
        return True
    if x.op == "max":
        return any(nonzero(y) for y in x.args)
    if x.op == "min":
        return all(nonzero(y) for y in x.args)
    if x.op in ("phi", "ite"):
        return all(nonzero(y) for y in leaves(x.args[0] if x.op == "phi" else x))
    return False


def eq(a, b):
    def f(x, y):
        if x is y:
            return TRUE
        if x.op == "i" and y.op == "i":
            return B(ival(x) == ival(y))
        if x.op in ("true", "false") or y.op in ("true", "false"):
            return NOT(XOR(x, y))
        if x.op == "i":
            x, y = y, x
        if y.op == "i":
            m = umax(x)
            if m is not None and ival(y) > m:
                return FALSE
            r = _bit_eq(x, ival(y))
            if r is not None:
                return r
            if x.op == "lin" and len(x.args[2]) == 1 and x.args[2][0][0] == 1:
                # x + c == d  <=>  x == d - c  (modulo the width)
                ty = x.args[0]
                return eq(x.args[2][0][1], I(wrap(ival(y) - x.args[1], ty)))
            if x.op == "len" and x.args[0].op == "rdshort" and x.args[0].args[2] is y:
                return FALSE
            if x.op == "cdiv" and ival(y) == 0 and nonzero(x.args[1]):
                return eq(x.args[0], y)
            if ival(y) == 0 and nonzero(x):
                return FALSE
            if ival(y) == 0 and x.op == "lin" and x.args[1] == 0 and len(x.args[2]) == 1 and x.args[2][0][0] > 0 and x.args[2][0][1].op == "len":
                # a multiple of a length
                return eq(x.args[2][0][1], y)
            if x.op == "ssub" and ival(y) == 0:
                return NOT(lt("u64", x.args[1], x.args[0]))
            nv = nvariants_hint(x)
            if nv and ival(y) == nv - 1 and nv > 1:
                return NOT(OR(*[eq(x, I(k)) for k in range(nv - 1)]))
            if nv and ival(y) >= nv:
                return FALSE
            return atom_bool(mk("eq", x, y))
        if x.op == "agg" and y.op == "agg":
            if x.args[0] != y.args[0] or len(x.args) != len(y.args):
                return FALSE
            return AND(*[eq(p, q) for p, q in zip(x.args[1:], y.args[1:])])
        r = _bit_eq2(x, y)
        if r is not None:
            return r
        for p, q in ((x, y), (y, x)):
            if p.op == "len" and p.args[0].op == "rdshort" and p.args[0].args[2] is q:
                return FALSE
        if y < x:
            x, y = y, x
        return atom_bool(mk("eq", x, y))
    return lift(f, a, b)


def _bit_eq(x, c):
    """(w & 1<<k) == 0 / (w >> k) & 1 == 1 and friends"""
    if x.op == "and":
        for z in x.args:
            if z.op == "bitmask":
                rest = [q for q in x.args if q is not z]
                w = rest[0] if len(rest) == 1 else mk("and", *rest)
                if c == 0:
                    return NOT(bit(w, z.args[0]))
        for z in x.args:
            if z.op == "i" and ival(z) and ival(z) & (ival(z) - 1) == 0:
                rest = [q for q in x.args if q is not z]
                w = rest[0] if len(rest) == 1 else mk("and", *rest)
                k = I(ival(z).bit_length() - 1)
                if c == 0:
                    return NOT(bit(w, k))
                if c == ival(z):
                    return bit(w, k)
    if x.op == "rem" and x.args[1].op == "i" and ival(x.args[1]) == 2 and c in (0, 1):
        y = x.args[0]
        if y.op == "shr":
            b = bit(y.args[1], y.args[2])
            return b if c else NOT(b)
        if y.op == "div" and y.args[1].op == "bitmask":
            b = bit(y.args[0], y.args[1].args[0])
            return b if c else NOT(b)
    return None


def _bit_eq2(x, y):
    for p, q in ((x, y), (y, x)):
        if q.op == "bitmask" and p.op == "and" and q in p.args:
            rest = [z for z in p.args if z is not q]
            w = rest[0] if len(rest) == 1 else mk("and", *rest)
            return bit(w, q.args[0])
        # old | mask == old   (the bit was already set)
        if p.op == "or" and q in p.args:
            rest = [z for z in p.args if z is not q]
            if len(rest) == 1 and rest[0].op == "bitmask":
                return bit(q, rest[0].args[0])
    return None


def bit(w, k):
    return lift(lambda a, b: _bit(a, b), w, num(k))


def _bit(w, k):
    if w.op == "i" and k.op == "i":
        return B((ival(w) >> ival(k)) & 1)
    if w.op == "i" and ival(w) == 0:
        return FALSE
    if w.op == "or":
        bm = bitmask(k)
        if bm in w.args:
            return TRUE
    if w.op == "and" and bnot(bitmask(k)) in w.args:
        return FALSE
    return atom_bool(mk("bit", w, k))


def lt(ty, a, b):
    def f(x, y):
        if x is y:
            return FALSE
        if x.op == "i" and y.op == "i":
            return B(ival(x) < ival(y))
        if is_signed(ty):
            return atom_bool(mk("slt", x, y))
        if y.op == "i":
            if ival(y) == 0:
                return FALSE
            if ival(y) == 1:
                return eq(x, I(0))
            m = umax(x)
            if m is not None and m < ival(y):
                return TRUE
            nv = nvariants_hint(x)
            if nv and ival(y) >= nv:
                return TRUE
            if ival(y) <= 4 and x.op in ("sel", "sym", "discr"):
                # one of a few numbers
                return OR(*[eq(x, I(k)) for k in range(ival(y))])
            if ival(y) == (1 << WIDTH[ty]) - 1:
                return NOT(eq(x, y))
            return atom_bool(mk("lt", x, y))
        if x.op == "i":
            if ival(x) == 0:
                return NOT(eq(y, I(0)))
            if ival(x) >= (1 << WIDTH[ty]) - 1:
                return FALSE
            return NOT(lt(ty, y, I(ival(x) + 1)))
        if x.op == "len" and x.args[0].op == "rdshort" and x.args[0].args[2] is y:
            return TRUE
        if y.op == "lin" and y.args[1] == 1 and len(y.args[2]) == 1 and y.args[2][0][0] == 1 \
                and y.args[2][0][1].op == "ssub" and y.args[2][0][1].args[1] is I(1):
            # one more than the predecessor: the number itself, at least one
            n = y.args[2][0][1].args[0]
            return OR(lt(ty, x, n), AND(eq(n, I(0)), eq(x, I(0))))
        if x.op in ("bv", "tvar", "len") and y is lin("u64", 1, [(1, x)]):
            # steps and lengths do not reach the largest number
            return TRUE
        if x.op == "rem" and x.args[1] is y:
            # x mod y < y whenever the modulo itself is defined
            return TRUE
        if x.op == "and" and lin("u64", -1, [(1, y)]) in x.args:
            return TRUE
        if x.op == "div" and x.args[1].op == "i":
            c = ival(x.args[1])
            z = x.args[0]
            if z.op == "rem" and y.op == "cdiv" and y.args[1] is x.args[1] and z.args[1] is y.args[0]:
                # (h mod m) / c < ceil(m / c) whenever the modulo itself is defined
                return TRUE
            if z.op == "rem" and z.args[1] is lin("u64", 0, [(c, y)]):
                return TRUE
            if z.op == "and" and lin("u64", -1, [(c, y)]) in z.args:
                # masked by c*y - 1, which is only smaller than c*y when y is not zero
                return NOT(eq(y, I(0)))
        return atom_bool(mk("lt", x, y))
    return lift(f, a, b)


def fcmp(op, a, b):
    def f(x, y):
        if x.op == "f" and y.op == "f":
            u, v = fval(x), fval(y)
            return B({"flt": u < v, "fle": u <= v, "feq": u == v}[op])
        if op == "feq" and y < x:
            x, y = y, x
        for z in (x, y):
            if z.op == "f" and fval(z) != fval(z):
                return FALSE
        if op == "flt" and (x.op == "f" or y.op == "f"):
            # x < c: a number for which c <= x fails
            n = y if x.op == "f" else x
            return AND(NOT(atom_bool(mk("fle", y, x))), atom_bool(mk("feq", n, n)))
        return atom_bool(mk(op, x, y))
    return lift(f, a, b)


def fop(op, *xs):
    def f(*ys):
        if all(y.op == "f" for y in ys):
            v = [fval(y) for y in ys]
            try:
                r = {
                    "fadd": lambda: v[0] + v[1],
                    "fsub": lambda: v[0] - v[1],
                    "fmul": lambda: v[0] * v[1],
                    "fdiv": lambda: v[0] / v[1],
                    "fneg": lambda: -v[0],
                    "ln": lambda: math.log(v[0]),
                    "powf": lambda: math.pow(v[0], v[1]),
                    "powi": lambda: math.pow(v[0], v[1]),
                    "ceil": lambda: float(math.ceil(v[0])),
                    "floor": lambda: float(math.floor(v[0])),
                    "fabs": lambda: abs(v[0]),
                    "sqrt": lambda: math.sqrt(v[0]),
                    "exp": lambda: math.exp(v[0]),
                }[op]()
                return F(r)
            except (KeyError, ValueError, ZeroDivisionError, OverflowError):
                pass
        if op in ("ceil", "floor", "round", "trunc", "fabs") and ys[0].op == "i2f":
            return ys[0]
        if op == "fdiv" and ys[1].op == "f" and fval(ys[1]) == 1.0:
            return ys[0]
        if op in ("fadd", "fmul"):
            ys = sorted(ys)
        if op == "fneg":
            y = ys[0]
            if y.op == "fneg":
                return y.args[0]
            # -(a*b) and -(a/b) are exact sign flips: keep the sign outermost
        if op in ("fmul", "fdiv"):
            s = 0
            zs = []
            for y in ys:
                if y.op == "fneg":
                    s ^= 1
                    y = y.args[0]
                zs.append(y)
            ys = sorted(zs) if op == "fmul" else zs
            if s:
                return fop("fneg", mk(op, *ys))
            if op == "fmul":
                for i, y in enumerate(ys):
                    if y.op == "f" and fval(y) == 1.0:
                        return ys[1 - i]
                    if y.op == "f" and ys[1 - i].op != "f" and 0 < abs(fval(y)) < 1 and math.frexp(fval(y))[0] in (0.5, -0.5) and abs(fval(y)) > 1e-300:
                        # multiplying by 1/2^k is dividing by 2^k
                        return mk("fdiv", ys[1 - i], F(1 / fval(y)))
        return mk(op, *ys)
    return nlift(f, *xs)


# --------------------------------------------------------------------------
# sequences (Vec, arrays, slices, strings)
# --------------------------------------------------------------------------

MULEN = {}
# lengths of the fixed-size array fields of the elements of unknown sequences
ELEMLEN = {}
# inputs that are sequences of bytes
BYTES = set()


def seq_len(s, arrlen=None):
    def f(x):
        op = x.op
        if op == "fill":
            return x.args[1]
        if op == "upd":
            return seq_len(x.args[0])
        if op == "arr":
            return I(len(x.args))
        if op == "push":
            return add("u64", seq_len(x.args[0]), I(1))
        if op == "concat":
            r = I(0)
            for y in x.args:
                r = add("u64", r, seq_len(y))
            return r
        if op == "map":
            return seq_len(x.args[0])
        if op == "scatter":
            return seq_len(x.args[0])
        if op == "build":
            return x.args[0]
        if op == "subseq":
            return x.args[2]
        if op in ("lebytes", "lefbytes", "bebytes"):
            return I(x.args[0])
        if op == "fld" and x.args[0].op == "sel" and (x.args[0].args[0], x.args[2]) in ELEMLEN:
            return I(ELEMLEN[(x.args[0].args[0], x.args[2])])
        if op == "rd":
            return x.args[2]
        if op == "splice":
            return seq_len(x.args[0])
        if op == "sym" and len(x.args) > 2:
            return I(x.args[2])
        if x in MULEN:
            return MULEN[x]
        if op == "bytes":
            return I(len(x.args[0]) // 2)
        if op == "sorted" or op == "rev":
            return seq_len(x.args[0])
        return mk("len", x)
    return lift(f, s)


def sel(s, i):
    return lift(_sel, s, num(i))


def _sel(s, i):
    if i.op == "lin" and i.args[1] == -1 and len(i.args[2]) == 1 and i.args[2][0][0] == 1 and i.args[2][0][1].op == "ssub":
        # the last of what is left
        a, b = i.args[2][0][1].args
        i = lin("u64", -1, [(1, a), (-1, b)])
    op = s.op
    if op == "fill":
        return s.args[0]
    if op == "arr":
        if i.op == "i" and 0 <= ival(i) < len(s.args):
            return s.args[ival(i)]
        if len(set(s.args)) == 1:
            return s.args[0]
        if len(s.args) <= 8 and all(x.op == "agg" and len(x.args) == 1 for x in s.args):
            # a table of variants
            r = s.args[-1]
            for k in range(len(s.args) - 2, -1, -1):
                r = ite(eq(i, I(k)), s.args[k], r)
            return r
    if op == "bytes" and i.op == "i":
        h = s.args[0]
        k = ival(i)
        if 2 * k < len(h):
            return I(int(h[2 * k:2 * k + 2], 16))
    if op == "upd":
        b, j, v = s.args
        if i is j:
            return v
        if i.op == "i" and j.op == "i":
            return _sel(b, i)
        d = lin("u64", 0, [(1, i), (-1, j)])
        if d.op == "i" and ival(d) != 0:
            return _sel(b, i)
    if op == "subseq":
        return sel(s.args[0], add("u64", s.args[1], i))
    if op == "lebytes" and i.op == "i":
        return rem(div("u64", s.args[1], I(1 << (8 * ival(i)))), I(256))
    if op == "concat":
        off = I(0)
        for y in s.args:
            n = seq_len(y)
            if i.op == "i" and off.op == "i" and n.op == "i":
                if ival(i) < ival(off) + ival(n):
                    return sel(y, I(ival(i) - ival(off)))
            else:
                break
            off = add("u64", off, n)
    if op == "map":
        s0, n, body = s.args
        if n is seq_len(s0):
            return instantiate(body, i)
        if n.op != "ite":
            return ite(lt("u64", i, n), instantiate(body, i), sel(s0, i))
    if op == "build":
        n, body = s.args
        return instantiate(body, i)
    if op == "push" and i is seq_len(s.args[0]):
        return s.args[1]
    if op == "rd" and i.op == "i" and s.args[1].op != "ite" and s.args[2] is not I(1):
        # a byte of a source, whatever else was read with it
        return mk("sel", mk("rd", s.args[0], add("u64", s.args[1], i), I(1)), I(0))
    return mk("sel", s, i)


def upd(s, i, v):
    def f(a, j):
        if v is _sel(a, j):
            return a
        if a.op == "arr" and j.op == "i" and 0 <= ival(j) < len(a.args):
            l = list(a.args)
            l[ival(j)] = v
            return mk("arr", *l)
        if a.op == "fill" and a.args[1].op == "i" and ival(a.args[1]) <= 64 and j.op == "i" and ival(j) < ival(a.args[1]):
            l = [a.args[0]] * ival(a.args[1])
            l[ival(j)] = v
            return mk("arr", *l)
        if a.op == "upd" and a.args[1] is j:
            return upd(a.args[0], j, v)
        if a.op == "push" and j is seq_len(a.args[0]):
            return push(a.args[0], v)
        return mk("upd", a, j, v)
    return lift(f, s, num(i))


def arr(xs):
    xs = list(xs)
    if len(xs) > 1 and all(x is xs[0] for x in xs):
        return mk("fill", xs[0], I(len(xs)))
    if len(xs) == 8:
        w = word_of(xs)
        if w is not None:
            return w
    return mk("arr", *xs)


def byte_of(x):
    """(what, k) when x is the k-th little-endian byte of a word or float"""
    if x.op == "sel" and x.args[0].op in ("lefbytes", "lebytes") and x.args[0].args[0] == 8 and x.args[1].op == "i":
        return x.args[0], ival(x.args[1])
    if x.op == "rem" and x.args[1] is I(256):
        y = x.args[0]
        if y.op == "div" and y.args[1].op == "i":
            c = ival(y.args[1])
            k = c.bit_length() - 1
            if c == 1 << k and k % 8 == 0 and k < 64:
                return y.args[0], k // 8
            return None
        return y, 0
    return None


def word_of(xs):
    bs = [byte_of(x) for x in xs]
    if any(b is None for b in bs[:7]):
        return None
    w = bs[1][0]
    if bs[7] is None and xs[7].op == "div" and xs[7].args[0] is w and xs[7].args[1] is I(1 << 56):
        bs[7] = (w, 7)
    if any(b is None or b[0] is not w or b[1] != k for k, b in enumerate(bs)):
        return None
    return w if w.op in ("lefbytes", "lebytes") else mk("lebytes", 8, w)


def fill(v, n):
    return lift(lambda k: mk("fill", v, k), n)


EMPTY = mk("arr")


def concat(a, b):
    def f(x, y):
        xs = list(x.args) if x.op == "concat" else [x]
        ys = list(y.args) if y.op == "concat" else [y]
        out = [z for z in xs + ys if z is not EMPTY and not (z.op == "fill" and z.args[1] is I(0))]
        # literal pieces merge
        res = []
        for z in out:
            if res and res[-1].op == "arr" and z.op == "arr":
                res[-1] = mk("arr", *(res[-1].args + z.args))
            else:
                res.append(z)
        if not res:
            return EMPTY
        if len(res) == 1:
            return res[0]
        return mk("concat", *res)
    return lift(f, a, b)


def push(s, v):
    def f(a):
        if a.op == "arr":
            return mk("arr", *(a.args + (v,)))
        if a.op == "fill" and a.args[0] is v:
            return fill(v, add("u64", a.args[1], I(1)))
        return mk("push", a, v)
    return lift(f, s)


def subseq(s, off, n):
    def f(a, o, m):
        if a.op == "subseq":
            return subseq(a.args[0], add("u64", a.args[1], o), m)
        if o.op == "i" and ival(o) == 0 and m is seq_len(a):
            return a
        if a.op == "arr" and o.op == "i" and m.op == "i" and ival(o) + ival(m) <= len(a.args):
            return arr(a.args[ival(o):ival(o) + ival(m)]) if ival(m) else EMPTY
        if a.op == "fill":
            return mk("fill", a.args[0], m)
        if m is I(0):
            return EMPTY
        if a.op == "bytes" and o.op == "i" and m.op == "i":
            return mk("bytes", a.args[0][2 * ival(o):2 * (ival(o) + ival(m))])
        if a.op == "splice" and a.args[1] is o and seq_len(a.args[2]) is m:
            return a.args[2]
        if a.op == "rd":
            return mk("rd", a.args[0], add("u64", a.args[1], o), m)
        return mk("subseq", a, o, m)
    return lift(f, s, off, n)


# --------------------------------------------------------------------------
# binders: a body abstracted over the iteration number
# --------------------------------------------------------------------------

def bv(d):
    return mk("bv", d)


def subst(t, m, memo=None):
    """capture-free replacement of whole subterms"""
    if memo is None:
        memo = {}
    return _subst(t, m, memo)


def _subst(t, m, memo):
    r = m.get(t)
    if r is not None:
        return r
    r = memo.get(t)
    if r is not None:
        return r
    if not has_any(t, m):
        memo[t] = t
        return t
    r = rebuild(t, lambda x: _subst(x, m, memo))
    memo[t] = r
    return r


_free = {}


def subterms_ids(t):
    """set of leaf terms (sym, bv, mu, tvar, ...) below t"""
    r = _free.get(t)
    if r is None:
        acc = set()
        if t.op in ("sym", "bv", "mu", "tvar", "recvar"):
            acc.add(t)
        for a in t.args:
            acc |= _args_free(a)
        r = frozenset(acc)
        _free[t] = r
    return r


_all = {}


def subterms(t):
    """every term at or below t"""
    r = _all.get(t)
    if r is None:
        r, stack = set(), [t]
        while stack:
            x = stack.pop()
            if isinstance(x, tuple):
                stack.extend(x)
            elif isinstance(x, T) and x not in r:
                r.add(x)
                stack.extend(x.args)
        r = frozenset(r)
        _all[t] = r
    return r


def _args_free(a):
    if isinstance(a, T):
        return subterms_ids(a)
    if isinstance(a, tuple):
        acc = set()
        for x in a:
            acc |= _args_free(x)
        return acc
    return set()


def has_any(t, m):
    f = subterms_ids(t)
    for k in m:
        if k.op in ("sym", "bv", "mu", "tvar", "recvar"):
            if k in f:
                return True
        else:
            return True
    return False


def _rb(a, f):
    if isinstance(a, T):
        return f(a)
    if isinstance(a, tuple):
        return tuple(_rb(x, f) for x in a)
    return a


def rebuild(t, f):
    """same constructor over transformed arguments, re-normalised"""
    op = t.op
    a = t.args
    if not a:
        return t
    if op == "ite":
        c = f(a[0])
        return ite(as_bool(c), f(a[1]), f(a[2]))
    if op == "lam":
        h = height(a[0])
        v = mk("tvar", "#lam", t.id)
        m = {bv(h): v}
        for x in subterms_ids(a[0]):
            if x.op == "recvar" and x.args[0] == h:
                m[x] = mk("tvar", "#rec", t.id, x.args[1])
        return lam(v, f(subst(a[0], m)), t.id)
    n = tuple(_rb(x, f) for x in a)
    return build(op, n)


def build(op, n):
    if op == "discr":
        # (variants numbered otherwise than by position have no count)
        return lift(lambda x: I(x.args[0]) if n[1] and x.op == "agg" and isinstance(x.args[0], int) else mk("discr", x, n[1]), n[0])
    if op == "lin":
        r = I(n[1])
        ts = []
        for k, x in n[2]:
            ts.append((k, x))
        gated = [x for _, x in ts if x.op == "ite"]
        if gated:
            acc = I(wrap(n[1], n[0]))
            for k, x in ts:
                acc = add(n[0], acc, mul(n[0], x, I(wrap(k, n[0]))) if k != 1 else x)
            return acc
        return lin(n[0], n[1], ts)
    if op == "mul":
        r = n[1]
        for x in n[2:]:
            r = mul(n[0], r, x)
        return r
    if op == "div":
        return div("u64", *n)
    if op == "rem":
        return rem(*n)
    if op == "and":
        r = n[0]
        for x in n[1:]:
            r = bits_and(r, x)
        return r
    if op == "or":
        r = n[0]
        for x in n[1:]:
            r = bits_or(r, x)
        return r
    if op == "xor":
        r = n[0]
        for x in n[1:]:
            r = bits_xor("u64", r, x)
        return r
    if op == "not":
        return lift(bnot, n[0])
    if op == "bitmask":
        return lift(bitmask, n[0])
    if op == "shl":
        return shl(*n)
    if op == "shr":
        return shr(*n)
    if op == "popcnt":
        return lift(lambda x: mk("popcnt", x) if x.op != "i" else popcnt("u64", x), n[0])
    if op == "eq":
        return eq(*n)
    if op == "bit":
        return bit(*n)
    if op == "lt":
        return lt("u64", *n)
    if op in ("flt", "fle", "feq"):
        return fcmp(op, *n)
    if op in ("fadd", "fsub", "fmul", "fdiv", "fneg", "ln", "powf", "powi", "ceil", "floor", "fabs", "sqrt", "exp", "round", "trunc"):
        return fop(op, *n)
    if op == "sel":
        return sel(*n)
    if op == "upd":
        return upd(*n)
    if op == "fill":
        return fill(*n)
    if op == "len":
        return seq_len(n[0])
    if op == "push":
        return push(*n)
    if op == "concat":
        r = n[0]
        for x in n[1:]:
            r = concat(r, x)
        return r
    if op == "subseq":
        return subseq(*n)
    if op in ("min", "max"):
        return lift(lambda *xs: mm(op, *xs), *n)
    if op == "agg":
        return agg(*n)
    if op == "exists":
        return mk_exists(*n)
    if op == "phi":
        return num(n[0])
    if op in LIFTED:
        return LIFTED[op](*n)
    return lift(lambda *xs: mk(op, *xs), *n) if op not in NOLIFT else mk(op, *n)


LIFTED = {}
NOLIFT = {"phi", "lam", "prev", "until", "flatbuild", "ref", "map", "build", "sum", "exists", "scatter", "rec", "first", "sym", "closure", "foldrec"}


def exists_parts(n, body):
    t = mk("tvar", "#ex", body.id)
    x = instantiate(body, t)
    if x.op != "ite":
        return None
    # conditions that do not depend on the step
    for a in atoms(x):
        if t not in subterms_ids(a):
            hi, lo = cofactor(x, a, True), cofactor(x, a, False)
            return ite_atom(a, mk_exists(n, lam(t, hi)) if hi is not FALSE else FALSE, mk_exists(n, lam(t, lo)) if lo is not FALSE else FALSE)
    for a in atoms(x):
        # steps are below their number
        if a.op == "lt" and (a.args == (t, n) or a.args[1].op == "cdiv" and a.args[0].op == "div" and a.args[0].args[0] is t and a.args[1].args == (n, a.args[0].args[1])):
            return mk_exists(n, lam(t, cofactor(x, a, True)))
    a, hi, lo = x.args
    if a.op == "lt" and a.args[0] is t and t not in subterms_ids(a.args[1]) and n.op != "ite":
        k = a.args[1]
        if hi is FALSE and lo is TRUE:
            # some step is not below k
            return lt("u64", k, n)
        if lo is TRUE:
            return OR(lt("u64", k, n), mk_exists(n, lam(t, hi)))
    return None


def unchunk(n, t, m, l):
    """steps t < n, and in each of them steps j < m: one pass over a sequence when the steps are those of its consecutive chunks"""
    if m.op != "chunklen" or n.op != "cdiv" or l.op != "lam":
        return None
    ln, k, i = m.args
    if i is not t or n.args[0] is not ln or n.args[1] is not k or not nonzero(k):
        return None
    x = mk("tvar", "#unchunk", l.id)
    b = instantiate(l, lin("u64", 0, [(1, x), (-1, mul("u64", k, t))]))
    if t in subterms_ids(b):
        return None
    return ln, lam(x, b)


def mk_exists(n, body):
    if body is FALSE or body.op == "lam" and body.args[0] is FALSE:
        return FALSE
    if n.op == "i" and ival(n) == 0:
        return FALSE
    if n.op == "i" and ival(n) == 1 and body.op == "lam":
        return instantiate(body, I(0))
    if n.op == "len" and body.op == "lam" and body.args[0].op == "ite" and body.args[0].args[0].op == "lt" and body.args[0].args[1] is FALSE and body.args[0].args[2] is TRUE:
        x, y = body.args[0].args[0].args
        if y.op == "i" and x.op == "lin" and x.args[1] == 0 and len(x.args[2]) == 1 and x.args[2][0][0] > 0 and x.args[2][0][1] is bv(height(body.args[0])):
            # a multiple of the step reaches a constant
            return NOT(lt("u64", n, I(-(-ival(y) // x.args[2][0][0]) + 1)))
    if body.op == "lam" and body.args[0].op == "ite":
        r = exists_parts(n, body)
        if r is not None:
            return r
        x = body.args[0]
        if x.args[1] is TRUE and x.args[2] is FALSE and x.args[0].op == "exists":
            t = mk("tvar", "#ex", body.id)
            r = unchunk(n, t, *instantiate(body, t).args[0].args)
            if r is not None:
                return mk_exists(*r)
    if body.op == "lam" and mentions(body, "scatter"):
        # a position written by the i-th step of the scatter is set when the i-th step reads it
        t = mk("tvar", "#ex", body.id)
        x = instantiate(body, t)
        y = x
        for a in atoms(x):
            if a.op == "bit" and a.args[0].op == "sel" and a.args[0].args[0].op == "scatter":
                s, m, l = a.args[0].args[0].args
                if m is n and instantiate(l, t) is agg("s", a.args[0].args[1], bitmask(a.args[1])):
                    y = cofactor(y, a, True)
        if y is not x:
            return mk_exists(n, lam(t, y)) if y is not FALSE else FALSE
    if body.op == "lam" and body.args[0].op == "ite" and body.args[0].args[0].op == "avail" and body.args[0].args[1] is FALSE and body.args[0].args[2] is TRUE:
        # data that grows with the step is missing at some step iff it is missing at the last one
        t = mk("tvar", "#ex", body.id)
        a = instantiate(body, t).args[0]
        src, end = a.args
        if end.op == "lin" and src is not t:
            k = dict((x, k) for k, x in end.args[2]).get(t, 0)
            rest = lin(end.args[0], end.args[1], [(q, x) for q, x in end.args[2] if x is not t])
            if k > 0 and t not in subterms_ids(rest) and n.op != "ite":
                return AND(NOT(eq(n, I(0))), NOT(as_bool(mk("avail", src, lin(end.args[0], -k, [(1, rest), (k, n)])))))
    return atom_bool(mk("exists", n, body))


_ment = {}


def mentions(t, op):
    k = (t, op)
    r = _ment.get(k)
    if r is None:
        r = t.op == op or any(_am(a, op) for a in t.args)
        _ment[k] = r
    return r


def _am(a, op):
    if isinstance(a, T):
        return mentions(a, op)
    return isinstance(a, tuple) and any(_am(x, op) for x in a)


def height(t):
    """binder height: 0 when no binder inside"""
    r = _hmemo.get(t)
    if r is None:
        r = 0
        if t.op in BINDERS:
            r = t.args[-1].args[0].id * 0 if False else 0
        for a in t.args:
            r = max(r, _ah(a))
        if t.op == "lam":
            r += 1
        _hmemo[t] = r
    return r


_hmemo = {}
BINDERS = {"map", "build", "sum", "exists", "scatter", "first"}


def _ah(a):
    if isinstance(a, T):
        return height(a)
    if isinstance(a, tuple):
        return max([_ah(x) for x in a] or [0])
    return 0


def lam(tvar, body, recid=None):
    """abstract body over tvar; the bound name is canonical (binder height)"""
    h = height(body)
    m = {tvar: bv(h)}
    if recid is not None:
        for x in subterms_ids(body):
            if x.op == "tvar" and x.args[0] == "#rec" and x.args[1] == recid:
                m[x] = mk("recvar", h, x.args[2])
    return mk("lam", subst(body, m))


def instantiate(l, x):
    body = l.args[0]
    h = height(body)
    return subst(body, {bv(h): x})


# --------------------------------------------------------------------------
# display
# --------------------------------------------------------------------------

def show(t, depth=12):
    if depth <= 0:
        return "…"
    op = t.op
    a = t.args
    d = depth - 1
    if op == "i":
        return str(a[0]) if a[0] < (1 << 20) else hex(a[0])
    if op == "f":
        return repr(fval(t))
    if op == "sym":
        return str(a[0])
    if op == "ite":
        return "(%s ? %s : %s)" % (show(a[0], d), show(a[1], d), show(a[2], d))
    if op == "lin":
        s = " + ".join(("%d*" % k if k != 1 else "") + show(x, d) for k, x in a[2])
        return "(%s%s)" % (s, " %+d" % a[1] if a[1] else "")
    if op in ("eq", "lt", "flt", "fle", "feq", "div", "rem", "and", "or", "xor", "fadd", "fmul", "fsub", "fdiv", "mul"):
        o = {"eq": "==", "lt": "<", "div": "/", "rem": "%", "and": "&", "or": "|", "xor": "^"}.get(op, op)
        return "(" + (" %s " % o).join(show(x, d) if isinstance(x, T) else str(x) for x in a) + ")"
    if op in ("true", "false"):
        return op
    if op == "agg":
        return "{%s: %s}" % (a[0], ", ".join(show(x, d) if isinstance(x, T) else str(x) for x in a[1:]))
    return "%s(%s)" % (op, ", ".join(show(x, d) if isinstance(x, T) else repr(x) for x in a))


def pp(t, minsize=6):
    """text with shared subterms named, for reports"""
    cnt = {}
    order = []

    def visit(x):
        if not isinstance(x, T):
            if isinstance(x, tuple):
                for y in x:
                    visit(y)
            return
        cnt[x] = cnt.get(x, 0) + 1
        if cnt[x] > 1:
            return
        for a in x.args:
            visit(a)
        order.append(x)
    visit(t)
    size = {}

    def sz(x):
        if not isinstance(x, T):
            return sum(sz(y) for y in x) if isinstance(x, tuple) else 0
        if x not in size:
            size[x] = 1 + sum(sz(a) for a in x.args)
        return size[x]
    names = {}
    lines = []

    def s(x, root=False):
        if not isinstance(x, T):
            if isinstance(x, tuple):
                return "(" + ",".join(s(y) for y in x) + ")"
            return str(x)
        if x in names and not root:
            return names[x]
        op, a = x.op, x.args
        if op in ("i", "f", "sym", "true", "false"):
            return show(x)
        if op == "lin":
            r = " + ".join(("%d*" % k if k != 1 else "") + s(y) for k, y in a[2])
            return "(%s%s)" % (r, " %+d" % a[1] if a[1] else "")
        if op == "ite":
            if a[1] is TRUE and a[2] is FALSE:
                return s(a[0])
            if a[1] is FALSE and a[2] is TRUE:
                return "!" + s(a[0])
            return "(%s ? %s : %s)" % (s(a[0]), s(a[1]), s(a[2]))
        if op == "agg":
            return "{%s: %s}" % (a[0], ", ".join(s(y) for y in a[1:]))
        if op in ("eq", "lt", "flt", "fle", "feq", "div", "rem", "and", "or", "xor", "fadd", "fmul", "fsub", "fdiv", "mul"):
            o = {"eq": "==", "lt": "<", "div": "/", "rem": "%", "and": "&", "or": "|", "xor": "^"}.get(op, op)
            return "(" + (" %s " % o).join(s(y) for y in a) + ")"
        return "%s(%s)" % (op, ", ".join(s(y) for y in a))
    for x in order:
        if cnt[x] > 1 and sz(x) >= minsize and x is not t:
            txt = s(x)
            names[x] = "$%d" % (len(names) + 1)
            lines.append("%s = %s" % (names[x], txt))
    lines.append(s(t, True))
    return "\n   ".join(lines)
