"""Value-flow summaries of the operations of the command line program: files, lines, threads, locks.

Threads are analysed where they are spawned: their closures own or only read what they use, so
the result of a job is the result of running it alone.  Which jobs are waited for is kept as
spawn / join events."""
from .terms import *
from .flow import *
from .models import MODELS, model, ok, err, some, NONE, option, call_fn, field
from . import flow as fl


def text(c, i):
    """the contents of a path or string argument"""
    v = c.e.deep(c.st, c.a[i], c.tys[i])
    while v.op == "ref":
        v = c.st.load(v)
    return v


def ioerr(what, *xs):
    return err(mk("ioerr", what, *xs))


@model("Parser.parse", "Parser.parse_from")
def m_parse(c):
    f = getattr(c.e, "parse", None)
    if f is None:
        return NotImplemented
    return f(c)


@model("File.open")
def m_open(c):
    p = text(c, 0)
    r = ite(as_bool(mk("openok", p)), ok(agg("stream", mk("file", p), I(0))), ioerr("open", p))
    c.e.emit(c.st, "open", "File::open", [p], r)
    return r


def created(c, p):
    r = ite(as_bool(mk("createok", p)), ok(agg("sink", mk("newfile", p))), ioerr("create", p))
    c.e.emit(c.st, "create", "File::create", [p], r)
    return r


@model("File.create")
def m_create(c):
    return created(c, text(c, 0))


OO = ("read", "write", "create", "truncate", "append", "create_new")


@model("OpenOptions.new", "File.options")
def m_oo(c):
    return agg("oo", *[FALSE] * len(OO))


def _oo(i):
    def f(c):
        v = c.load(0)
        l = list(v.args)
        l[i + 1] = as_bool(c.a[1])
        c.st.put(c.a[0], agg(*l))
        return c.a[0]
    return f


for _i, _n in enumerate(OO):
    MODELS["OpenOptions." + _n] = _oo(_i)


@model("OpenOptions.open")
def m_oo_open(c):
    v = c.load(0)
    if v.op != "agg" or v.args[0] != "oo":
        return NotImplemented
    f = dict(zip(OO, v.args[1:]))
    p = text(c, 1)
    if f["write"] is FALSE and f["append"] is FALSE:
        r = ite(as_bool(mk("openok", p)), ok(agg("stream", mk("file", p), I(0))), ioerr("open", p))
        c.e.emit(c.st, "open", "File::open", [p], r)
        return r
    if f["write"] is TRUE and f["create"] is TRUE and f["truncate"] is TRUE and f["append"] is FALSE and f["create_new"] is FALSE:
        return created(c, p)
    r = ite(as_bool(mk("createok", p)), ok(agg("sink", mk("partlynew", p))), ioerr("create", p))
    c.e.emit(c.st, "create", "OpenOptions::open", [p], r)
    return r


@model("Path.exists", "Path.is_file")
def m_exists(c):
    return as_bool(mk("pathexists", text(c, 0)))


@model("Path.try_exists", "fs::exists")
def m_try_exists(c):
    p = text(c, 0)
    r = ite(as_bool(mk("statok", p)), ok(as_bool(mk("pathexists", p))), ioerr("stat", p))
    c.e.emit(c.st, "stat", "try_exists", [p], r)
    return r


# ---- lines -------------------------------------------------------------------
@model("io::stdin", "Stdin.lock")
def m_stdin(c):
    return agg("stream", mk("stdin"), I(0))


@model("BufRead.lines", "Stdin.lines", "~BufRead.lines")
def m_lines(c):
    v = c.a[0]
    for _ in range(6):
        if v.op == "ref":
            v = c.st.load(v)
        elif v.op == "agg" and v.args[0] in ("bufreader", "bufwriter"):
            v = v.args[1]
    if v.op != "agg" or v.args[0] != "stream":
        return NotImplemented
    if v.args[2] is not I(0):
        return NotImplemented
    c.e.emit(c.st, "lines", "lines", [v.args[1]])
    return agg("lines", v.args[1], I(0))


# ---- threads and locks -------------------------------------------------------
@model("thread::spawn", "Scope.spawn")
def m_spawn(c):
    i = 1 if c.fn.short == "Scope.spawn" else 0
    f = c.e.temp(c.st, c.a[i], "spawn")
    h = c.e.fresh("job")
    c.e.emit(c.st, "spawn", "scoped" if i else "spawn", [h])
    k = len(c.e.ev)
    g = c.st.guard
    v = call_fn(c.e, c.st, f, c.tys[i], [])
    c.st.guard = g
    evs = c.e.ev[k:]
    bad = some_panic(evs)
    for e in evs:
        for x in walk([e]):
            if x.job is None:
                x.job = h
    return agg("handle", h, v, bad)


@model("JoinHandle.join", "ScopedJoinHandle.join")
def m_join(c):
    v = c.a[0]
    h = field(v, "handle", 0)
    r = ite(AND(as_bool(mk("joined", h)), NOT(as_bool(field(v, "handle", 2)))), ok(field(v, "handle", 1)), err(mk("panicked", h)))
    c.e.emit(c.st, "join", "join", [h], r)
    return r


@model("thread::scope")
def m_scope(c):
    f = c.e.temp(c.st, c.a[0], "scope")
    return call_fn(c.e, c.st, f, c.tys[0], [c.e.temp(c.st, agg("scope", I(0)), "sc")])


@model("thread::available_parallelism")
def m_cpus(c):
    return ite(as_bool(mk("cpusok")), ok(mk("nz", "cpus")), err(mk("ioerr", "cpus")))


@model("NonZero.get")
def m_nz_get(c):
    return c.a[0]


@model("Arc.new", "Rc.new")
def m_arc(c):
    return agg("s", c.e.temp(c.st, c.a[0], "arc"))


@model("Arc.deref", "Rc.deref", "Arc.as_ref")
def m_arc_deref(c):
    return field(c.load(0), "s", 0)


@model("Arc.clone", "Rc.clone")
def m_arc_clone(c):
    return c.load(0)


@model("RwLock.new", "Mutex.new")
def m_lock_new(c):
    return agg("s", c.a[0])


@model("RwLock.read", "RwLock.write", "Mutex.lock")
def m_lock(c):
    g = ok(agg("s", fl.extend(c.a[0], ("f", "s", 0, 1))))
    return ite(as_bool(mk("lockok", c.e.deep(c.st, c.a[0], c.tys[0]))), g, err(agg("s", agg("s", fl.extend(c.a[0], ("f", "s", 0, 1))))))


@model("RwLockReadGuard.deref", "RwLockWriteGuard.deref", "RwLockWriteGuard.deref_mut", "MutexGuard.deref", "MutexGuard.deref_mut")
def m_guard(c):
    return field(c.load(0), "s", 0)


@model("RwLock.into_inner", "Mutex.into_inner")
def m_lock_inner(c):
    return ok(field(c.a[0], "s", 0))


@model("BloomFilter.clone", "Params.clone")
def m_clone(c):
    # derived: the same value (the library's own clone is compared field by field)
    return c.load(0)


@model("OnceLock.get_or_init")
def m_once(c):
    # a static initialised by a closure that captures nothing
    r, f = c.a
    if r.op != "ref" or not str(r.args[0]).startswith("static:") or f.op != "agg" or len(f.args) != 1:
        return NotImplemented
    return cref(call_fn(c.e, c.st, f, c.tys[1], []))
