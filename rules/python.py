"""The Python binding: each method, from the arguments taken out of the Python call to the
result handed back, against the library operation it stands for."""
from .ops import *
from .files import written, save_ok, all_writes
from engine import cli_models, py_models
from engine.flow import some_panic


def python(c, name, k=0, o=None):
    """summary of a Python method called on a filter of version k+1 (and an argument of version o+1)"""
    a = c.py
    key = ("py", name, k, o)
    if key in a.sums:
        return a.sums[key]
    P = a.P
    ends = ["::__pymethod_%s__" % name, "::__pymethod_get_%s__" % name, "::__pyfunction_%s" % name]
    fn = next((f for f in P.fns.values() for e in ends if f.path.endswith(e) and f.has_body), None)
    if fn is None:
        raise Missing("the Python module has no %s" % name)

    def obj(P, ty, nm):
        """a Python filter object: the library filter it holds"""
        i = held(P, ty)
        if i is None:
            return None
        v = k if nm == "b" or o is None else o
        fs = P.ty(ty)["variants"][0][2]
        return agg("s", *[agg(v, symval(c.lib.P, fmts(c)[v].ty, nm)) if j == i else symval(P, ft, nm + ".py." + n) for j, (n, ft) in enumerate(fs)])
    eng = Engine(P)
    eng.pyobj = obj
    s = summarise(P, fn, eng=eng)
    s.place = next((P.fns[i] for i in s.analysed if P.fns[i].krate == "poppy" and P.fns[i].path.split("::")[-1] == name.strip("_")), fn)
    a.sums[key] = s
    a.fns.update(s.analysed)
    a.calls += s.ncalls
    for u, n in s.unmodelled.items():
        a.unmodelled[u] = a.unmodelled.get(u, 0) + n
    return s


def held(P, ty):
    """which field of a Python class is the library's filter"""
    t = P.ty(ty)
    if t["k"] != "adt" or t["kind"] != "Struct" or t["name"].split("::")[0] != "poppy":
        return None
    for j, (n, ft) in enumerate(t["variants"][0][2]):
        q = P.ty(ft)
        if q["k"] == "adt" and q["kind"] == "Enum" and q["name"].split("::")[-1] == "BloomFilter":
            return j
    return None


def inside(c, v):
    """the library filter in a Python object"""
    P = c.py.P
    i = next((held(P, j) for j in range(len(P.types)) if held(P, j) is not None), None)
    if i is None:
        raise Missing("no Python class holds a filter")
    return field(v, "s", i)


def plain(v, f=lambda x: x):
    """a result without the error value"""
    return map_leaves(v, lambda x: agg(0, f(x.args[1])) if x.op == "agg" and x.args[0] == 0 and len(x.args) == 2 else
                      agg(1, UNIT) if x.op == "agg" and x.args[0] == 1 else x)


def at(s):
    return "%s (%s)" % (s.place.where(), s.place.path)


def alike(c, tag, s, q, want=None, f=lambda x: x):
    """the method returns and does what the library operation does"""
    t = plain(s.ret, f)
    want = want if want is not None else q.ret
    c.eq("%s returns what the library does" % tag, t, plain(want), where=at(s))
    c.always("%s does not panic where the library does not" % tag, ite(some_panic(s.events), some_panic(q.events), TRUE), where=at(s))
    if "A:self" in s.st.mem and "b" in q.post:
        c.eq("%s has the effect of the library operation" % tag, inside(c, s.st.mem["A:self"]), q.post["b"], where=at(s))


def value(v):
    def g(P, st, ty, nm):
        if P.ty(ty)["k"] == "ref":
            st.mem["A:" + nm] = v
            return ref("A:" + nm)
        return v
    return g


def constructors(c):
    """the Python constructors"""
    L = c.lib
    a = [sym("arg%d" % i, t) for i, t in enumerate(("u64", "u64", "f64", "u8"))]
    u8, cap, p = sym("arg0", "u8"), sym("arg0", "u64"), sym("arg1", "f64")
    s = python(c, "__new__")
    q = L.s("bf_with_capacity", args={"c": value(cap), "p": value(p)}, key="py")
    alike(c, "BloomFilter(capacity, fpp)", s, q, f=lambda x: inside(c, x))
    s = python(c, "with_version")
    q = L.s("bf_with_version_capacity", args={"v": value(u8), "c": value(a[1]), "p": value(a[2])}, key="py")
    alike(c, "with_version", s, q, f=lambda x: inside(c, x))
    s = python(c, "with_params")
    known = []
    for k in range(4):
        fs = [(top_atom(eq(a[3], I(k))), True)]
        known.append(eq(a[3], I(k)))
        q = L.s("bf_with_version_capacity_opt", args={"v": value(u8), "c": value(a[1]), "p": value(a[2]), "o": value(agg(k))}, key=("py", k))
        c.eq("with_params returns what the library does at optimisation level %d" % k,
             under_all(plain(s.ret, lambda x: inside(c, x)), fs), plain(q.ret), where=at(s))
        c.always("with_params at level %d does not panic where the library does not" % k,
                 under_all(ite(some_panic(s.events), some_panic(q.events), TRUE), fs), where=at(s))
    c.implies("with_params refuses other optimisation levels", AND(*[NOT(x) for x in known]), err(s.ret), where=at(s))


def saving(c):
    """save and dumps write what the library writes and fail when it fails"""
    for k in (0, 1):
        q = c.lib.s("bf_write", args={"b": boxed(c, k, "b")}, key=("v", k))
        for name in ("save", "dumps"):
            s = python(c, name, k)
            tag = "%s of version %d" % (name, k + 1)
            a, b = written(s), written(q)
            c.ob("%s writes what the library writes" % tag, len(a) == len(b) and all(seg_same(x, y) for x, y in zip(a, b)), at(s), seg_show(a))
            save_ok(c, s, tag)
            made = [e for e in s.events if e.kind == "create"]
            sinks = {e.args[0] for e, _, _ in all_writes(s.events)}
            if name == "save":
                p = sym("arg0", "seq")
                c.ob("%s writes the file named" % tag, len(made) == 1 and made[0].args[0] is p and sinks == {agg("sink", mk("newfile", p))}, at(s),
                     "writes to %s" % ", ".join(short_term(x) for x in sinks))
                c.implies("%s fails when the file cannot be created" % tag, ok(s.ret), AND(*[ok(e.res) for e in made]), where=at(s))
            else:
                good = next(iter(sinks)) if len(sinks) == 1 else UNDEF
                got = payload(s.ret, 0)
                c.eq("%s returns the bytes written" % tag, given(got, ok(s.ret)), mk("pybytes", good.args[1] if good is not UNDEF else UNDEF), where=at(s))
            c.eq("%s leaves the filter alone" % tag, inside(c, s.st.mem["A:self"]), q.pre["b"], where=at(s))
            c.always("%s does not panic where the library does not" % tag, ite(some_panic(s.events), some_panic(q.events), TRUE), where=at(s))


def loading(c):
    """load and loads read what the library reads"""
    p = sym("arg0", "seq")
    s = python(c, "loads")
    q = c.lib.s("bf_from_reader", args={"r": value(agg("stream", p, I(0)))}, key="pybytes")
    alike(c, "loads", s, q, f=lambda x: inside(c, x))
    s = python(c, "load")
    q = c.lib.s("bf_from_reader", args={"r": value(agg("stream", mk("file", p), I(0)))}, key="pyfile")
    alike(c, "load", s, q, want=ite(as_bool(mk("openok", p)), q.ret, agg(1, UNIT)), f=lambda x: inside(c, x))


def module(c):
    """what the Python module offers: the class and the two functions, each under its name"""
    P = c.py.P
    fn = next((f for f in P.fns.values() if f.krate == "poppy" and f.has_body and f.body.nargs == 2 and f.path.count("::") == 1 and
               "PyModule" in P.describe(f.body.locals[2])), None)
    if fn is None:
        raise Missing("no Python module")
    s = summarise(P, fn)
    c.py.sums[("py", "module")] = s
    c.py.fns.update(s.analysed)
    w = "%s (%s)" % (fn.where(), fn.path)
    calls = {e.res: e for e in s.events if e.kind == "call"}
    given_names = {}
    for e in s.events:
        if e.kind == "call" and e.name.endswith("::add_function"):
            made = [calls[x] for x in subterms(e.args[1]) if x in calls]
            for m in made:
                d = m.args[0]
                names = [x for x in subterms(d.args[1]) if x.op == "bytes"] if d.op == "agg" else []
                fns = [P.fns[x.args[0]].path for x in subterms(d.args[2]) if x.op == "fnitem"] if d.op == "agg" else []
                if len(names) == 1 and len(fns) == 1:
                    nm = bytes.fromhex(names[0].args[0]).rstrip(b"\0").decode()
                    given_names.setdefault(nm, []).append((fns[0], AND(ok(e.res), e.guard)))
    for nm in ("load", "loads"):
        got = given_names.get(nm, [])
        c.ob("the module offers %s" % nm, len(got) == 1 and "::%s::" % nm in got[0][0], w, "%s is %s" % (nm, ", ".join(x for x, _ in got) or "not there"))
        if len(got) == 1:
            c.implies("the module offers %s whenever it loads" % nm, ok(s.ret), got[0][1], where=w)
    cls = [e for e in s.events if e.kind == "call" and e.name.endswith("::add_class")]
    c.ob("the module offers the class", len(cls) == 1, w, "%d classes" % len(cls))
    for e in cls:
        c.implies("the module offers the class whenever it loads", ok(s.ret), AND(ok(e.res), e.guard), where=w)


@rule("C29")
def c29(c):
    L = c.lib
    v = sym("arg0", "seq")
    for k in (0, 1):
        b = {"b": boxed(c, k, "b")}
        for name in ("version", "capacity", "fpp", "count_estimate", "is_full"):
            q = L.s("bf_" + name, args=b, key=("v", k))
            alike(c, "%s of version %d" % (name, k + 1), python(c, name, k), q, want=agg(0, q.ret))
        q = L.s("bf_data", args=b, key=("v", k))
        alike(c, "data of version %d" % (k + 1), python(c, "data", k), q, want=agg(0, q.st.load(q.ret)))
        for name in ("insert_bytes", "insert_str", "contains_bytes", "contains_str"):
            q = L.s("bf_" + name.replace("_str", "_bytes"), args=dict(b, v=value(v)), key=("py", k))
            alike(c, "%s of version %d" % (name, k + 1), python(c, name, k), q, want=q.ret if name.startswith("insert") else agg(0, q.ret))
        for name in ("union_merge", "count_common_entries"):
            for o in (0, 1):
                q = L.s("bf_" + name, args=dict(b, o=boxed(c, o, "o")), key=("py", k, o))
                s = python(c, name, k, o)
                alike(c, "%s of versions %d and %d" % (name, k + 1, o + 1), s, q)
                c.eq("%s of versions %d and %d leaves its argument alone" % (name, k + 1, o + 1), inside(c, s.st.mem["A:arg0"]), q.pre["o"], where=at(s))
    constructors(c)
    loading(c)
    saving(c)
    module(c)
    c.floor("Python methods", len({key[1] for key in c.py.sums}), 20)


rule("C07")(saving)
rule("C10")(constructors)
