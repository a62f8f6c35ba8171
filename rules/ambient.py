"""Nothing but parameters and operations decides what a filter does: what the library's code
can call, refer to and keep, and what the compiler accepts about its types."""
import os
import re

from .base import *
from .filters import fmts
import build as compiled

# modules whose operations depend on their operands only (streams are given by the caller)
PURE = set("""ops iter slice vec str string option result convert clone cmp default hash num array fmt io borrow boxed marker
intrinsics panicking char bool ascii error collections mem f32 f64 u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize
tuple unit range alloc raw_vec hint panic bstr rt""".split())
# operations in them that do not
IMPURE = ("hash::random", "RandomState", "HashMap", "HashSet", "io::stdin", "io::Stdin", "io::stdio", "panic::Location", "hash_map", "hash_set",
          "io::stdout", "io::stderr", "io::Stdout", "io::Stderr", "alloc::alloc", "alloc::handle", "fmt::Pointer", "fmt::rt::Argument::new_pointer")
CRATES = {"wyhash", "statrs", "anyhow", "thiserror"}
# types that can change behind a shared reference or are an address
HIDDEN = {"Cell", "RefCell", "UnsafeCell", "SyncUnsafeCell", "OnceCell", "LazyCell", "OnceLock", "LazyLock", "Once", "Mutex", "RwLock", "ReentrantLock",
          "Condvar", "Barrier", "Rc", "Weak", "NonNull", "AtomicPtr"}


def pieces(x):
    if isinstance(x, list):
        if x and isinstance(x[0], str):
            yield x
        for y in x:
            yield from pieces(y)


def module_of(path):
    """std module of an item, for methods the one of the type"""
    p = path
    while p.startswith("<"):
        p = p[1:].lstrip("&")
    ps = [x for x in p.split(" as ")[0].split("<")[0].split("::") if x]
    return ps[0], (ps[1] if len(ps) > 1 else "")


def impure(path, krate):
    """why an operation outside the library may depend on more than its operands"""
    if path.startswith("<") or "<impl " in path and " for " in path:
        # a trait of a type: of the caller's, or of one made by another call
        return any(x in path for x in IMPURE)
    root, mod = module_of(path)
    if root in ("std", "core", "alloc"):
        if any(x in path for x in IMPURE):
            return True
        if mod == "sync":
            return "::Arc" not in path
        return mod not in PURE
    if root in ("poppy_filters", "harness"):
        return False
    if root in ("poppy", "poppy_py") or not root or not root[0].isalpha():
        return False
    return (krate or root) not in CRATES and root not in CRATES


def hidden(P, ty, seen):
    """a type inside ty whose value can change behind a shared reference"""
    if ty in seen:
        return None
    seen.add(ty)
    t = P.ty(ty)
    if t["k"] == "ptr":
        return "a raw pointer"
    if t["k"] == "adt":
        nm = t["name"].split("::")[-1]
        if nm in HIDDEN or nm.startswith("Atomic"):
            return t["name"]
        own = t["name"].split("::")[0] not in ("std", "core", "alloc", "wyhash")
        subs = [ft for v in t.get("variants", []) for _, ft in v[2]] if own else []
        subs += [a for a in t.get("args") or [] if isinstance(a, int)]
    elif t["k"] in ("ref", "slice", "array"):
        subs = [t["t"]]
    elif t["k"] == "tuple":
        subs = t["ts"]
    else:
        subs = []
    for x in subs:
        h = hidden(P, x, seen)
        if h:
            return h
    return None


@early("C22")
def compiler(c):
    ws = compiled.witnesses()
    c.floor("witness programs", len(ws), 5)
    for nm, what, code in (("threads", "filters can be sent to and shared between threads", "E0277"), ("lookups", "looking up, counting and saving need only shared access", "E0596")):
        errs = ws[nm]
        if any(x[0] != code for x in errs):
            raise compiled.BuildError("witness %s: %s" % (nm, errs[0]))
        c.ob(what, not errs, "witness/src/bin/%s.rs" % nm, "; ".join("%s (%s)" % (m, l) for _, m, l in errs))
    if ws["unique_insert"]:
        raise compiled.BuildError("witness unique_insert: %s" % ws["unique_insert"][0][1])
    errs = ws["shared_insert"]
    if any(x[0] != "E0596" for x in errs):
        raise compiled.BuildError("witness shared_insert: %s" % errs[0][1])
    for f in ("one", "two", "any"):
        c.ob("inserting needs exclusive access (%s)" % {"one": "version 1", "two": "version 2", "any": "common type"}[f],
             any(x[2].startswith("fn %s(" % f) for x in errs), "witness/src/bin/shared_insert.rs", "inserting through a shared reference compiles")
    if [x[0] for x in ws["not_sync"]] != ["E0277"]:
        raise compiled.BuildError("the witness of hidden state was not refused")


@rule("C22")
def c22(c):
    P = c.lib.P
    whole = Program(os.path.join(c.dir, "poppy-filters.lib.json"))
    reached = [f for f in P.fns.values() if f.krate == "poppy_filters" and f.has_body]
    statics = {x[0].split("::")[-1]: x for x in whole.statics}
    ncalls = 0
    for f in reached:
        w = "%s (%s)" % (f.where(), f.path)
        bad = []
        for b in f.body.blocks:
            for x in pieces(b):
                if x[0] == "fn" and len(x) == 4 and isinstance(x[1], str):
                    ncalls += 1
                    g = P.fns.get(x[3]) if isinstance(x[3], int) else None
                    paths = [x[1]] + ([g.path] if g is not None else [])
                    hit = next((p for p in paths if impure(p, g.krate if g is not None else None)), None)
                    if hit:
                        bad.append("calls %s" % hit)
                elif x[0] == "tls":
                    bad.append("uses the thread-local %s" % x[1])
                elif x[0] == "refstatic":
                    s = statics.get(str(x[1]).split("::")[-1])
                    if s is None or s[2] or hidden(whole, s[1], set()):
                        bad.append("uses the global %s" % x[1])
                elif x[0] == "cast" and ("Expose" in str(x[1]) or "Transmute" in str(x[1])):
                    bad.append("makes a number of an address (%s)" % x[1])
        c.ob("%s depends on its operands only" % f.path, not bad, w, "; ".join(sorted(set(bad))))
    c.lib.fns.update(f.id for f in reached)
    c.lib.calls += ncalls
    lib = [i for i, t in enumerate(P.types) if t["k"] == "adt" and t["name"].split("::")[0] == "poppy_filters"]
    for i in lib:
        h = hidden(P, i, set())
        c.ob("%s keeps no hidden state" % P.describe(i), not h, P.types[i]["name"], "it holds %s" % h)
    for s in whole.statics:
        h = hidden(whole, s[1], set())
        c.ob("global %s never changes" % s[0], not s[2] and not h, whole.where(s[3]), "it is mutable" if s[2] else "it holds %s" % h)
    at = sorted({"%s:%d" % (clean(f), l) for f, l in whole.unsafe})
    c.ob("the library has no unsafe code", not at, "; ".join(at) or "poppy/src/lib.rs", "unsafe blocks or implementations: %d" % len(at))
    c.floor("library functions", len(reached), 150)
    c.floor("calls", ncalls, 500)
    c.floor("library types", len(lib), 12)
    fs = fmts(c)
    c.floor("filter formats", len(fs), 2)


def clean(f):
    m = re.search(r"poppy/src/[\w/]*\.rs", f)
    return m.group(0) if m else f
