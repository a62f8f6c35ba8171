"""Symbolic inputs of an entry point and its summary."""
import traceback

from .terms import *
from .flow import *


class Summary:
    pass


def seq(name, bytes_):
    r = sym(name, "seq")
    (tm.BYTES.add if bytes_ else tm.BYTES.discard)(r)
    return r


def is_byte(P, t):
    return isinstance(t, int) and P.tyname(t) == "u8"


def symval(P, ty, name, depth=0):
    """unknown input of a type, with named leaves"""
    t = P.ty(ty)
    k = t["k"]
    if k == "bool":
        return as_bool(sym(name, "bool"))
    if k in ("int", "float", "char"):
        return sym(name, norm_ty(t.get("n", "u32")))
    if k == "adt":
        short = t["name"].split("::")[-1]
        if short in ("Vec", "String", "PathBuf", "HashSet"):
            r = seq(name, short == "String" or short == "Vec" and is_byte(P, (t.get("args") or [None])[0]))
            if short == "Vec":
                et = P.ty(t["args"][0]) if t.get("args") and isinstance(t["args"][0], int) else None
                if et and et["k"] == "adt" and et["kind"] == "Struct" and et["name"].startswith(("poppy", "harness")):
                    for i, (_, ft) in enumerate(et["variants"][0][2]):
                        if P.ty(ft)["k"] == "array":
                            tm.ELEMLEN[(r, i)] = P.ty(ft)["len"]
            return r
        if short == "File":
            return agg("stream", sym(name, "file"), I(0))
        if t["kind"] == "Struct" and t["name"].startswith(("poppy", "harness")):
            return agg("s", *[symval(P, ft, name + "." + fname, depth + 1) for fname, ft in t["variants"][0][2]])
        return sym(name, "adt")
    if k == "array":
        return mk("sym", name, "seq", t["len"])
    if k == "tuple":
        return agg("s", *[symval(P, x, "%s.%d" % (name, i), depth + 1) for i, x in enumerate(t["ts"])]) if t["ts"] else UNIT
    return sym(name, k)


def bind(P, st, ty, name, w=False):
    t = P.ty(ty)
    if t["k"] == "ref":
        inner = P.ty(t["t"])
        b = "A:" + name
        if inner["k"] == "ref":
            st.mem[b] = bind(P, st, t["t"], name + "*")
        elif inner["k"] in ("slice", "str"):
            st.mem[b] = seq(name, inner["k"] == "str" or is_byte(P, inner.get("t")))
        elif inner["k"] == "adt" and inner["name"].split("::")[-1] == "File":
            st.mem[b] = agg("sink", sym(name, "sink"))
        else:
            st.mem[b] = symval(P, t["t"], name)
        return ref(b)
    return symval(P, ty, name)


def summarise(P, fn, opaque=None, args=None, eng=None, setup=None):
    """flow through fn from unknown inputs"""
    eng = eng or Engine(P, opaque=opaque)
    st = State()
    body = fn.body
    names = {l: n for n, l in body.names}
    vals = []
    bases = []
    for i in range(body.nargs):
        nm = names.get(i + 1, "a%d" % i)
        if args and nm in args:
            v = args[nm](P, st, body.locals[i + 1], nm) if callable(args[nm]) else args[nm]
        else:
            v = bind(P, st, body.locals[i + 1], nm)
        vals.append(v)
        if v.op == "ref":
            bases.append((nm, v))
    pre = dict(st.mem)
    if setup:
        setup(eng, st)
    eng.stack.append((fn, [fn.span], "root"))
    try:
        rv = eng.run(fn, vals, st)
    except (AttributeError, TypeError, IndexError, KeyError, ValueError, AssertionError, RecursionError) as e:
        # a value of a shape no model provides for
        traceback.print_exc()
        u = Unsupported("%s: %s" % (type(e).__name__, e))
        u.where = getattr(e, "where", None)
        raise u
    eng.stack.pop()
    s = Summary()
    s.fn = fn
    s.P = P
    s.ret = rv
    s.retty = body.locals[0]
    s.guard = st.guard
    s.post = {n: st.load(r) for n, r in bases} if st.guard is not FALSE else {}
    s.pre = {n: pre[r.args[0]] for n, r in bases}
    s.st = st
    s.vals = vals
    s.events = eng.ev
    s.unmodelled = eng.unmodelled
    s.analysed = eng.analysed
    s.ncalls = eng.ncalls
    s.eng = eng
    return s
