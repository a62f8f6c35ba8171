"""The command line program: what each command reads, inserts, prints and writes."""
from .base import *
from engine import cli_models
from . import groups as gr
from engine.flow import some_panic
from engine.compare import remaining

COMMANDS = ["Create", "Insert", "Check", "Bench", "Show"]


def library(fn):
    """operations of the filter library are opaque; its timing and statistics helpers are not"""
    p = fn.path
    return "poppy_filters::" in p and "poppy_filters::utils::" not in p and "Params" not in p and "{closure" not in p \
        and not p.endswith("::clone")


def command(c, which):
    """summary of the program when it is started with one of its commands"""
    a = c.cli
    key = ("main", which)
    if key in a.sums:
        return a.sums[key]
    P = a.P
    fn = next((P.fns[r] for r in P.roots if P.fns[r].path == "main" or P.fns[r].path.endswith("::main")), None)
    if fn is None:
        raise Missing("no main function in the program")

    opts = {}

    def parse(x):
        t = P.ty(x.dty)
        a.argsty = x.dty
        out = []
        for n, ft in t["variants"][0][2]:
            q = P.ty(ft)
            if q["k"] == "adt" and q["kind"] == "Enum":
                ks = [i for i, v in enumerate(q["variants"]) if v[0] == which]
                if not ks:
                    raise Missing("no command %s" % which)
                ot = q["variants"][ks[0]][2][0][1]
                v = symval(P, ot, which.lower())
                for i, (on, oty) in enumerate(P.ty(ot)["variants"][0][2]):
                    opts[on] = (oty, field(v, "s", i))
                out.append(agg(ks[0], v))
            else:
                out.append(symval(P, ft, "args." + n))
        return agg("s", *out)
    eng = Engine(P, opaque=library)
    eng.parse = parse
    s = summarise(P, fn, eng=eng)
    s.opts, s.c, s.which = opts, c, which
    if not opts:
        raise Missing("the program does not parse its options")
    a.sums[key] = s
    a.fns.update(s.analysed)
    a.calls += s.ncalls
    for u, k in s.unmodelled.items():
        a.unmodelled[u] = a.unmodelled.get(u, 0) + k
    return s


def option(s, name):
    """value of a command's option; a field of another name is recognised by the option it stands for, or by its type"""
    if name in s.opts:
        return s.opts[name][1]
    from .options import field_of
    n = field_of(s.c, s.which, name)
    if n in s.opts:
        return s.opts[n][1]
    kinds = {"file": ("PathBuf", "String"), "inputs": ("Vec",), "dataset": ("Vec",)}.get(name)
    c = [v for t, v in s.opts.values() if kinds and s.P.ty(t)["k"] == "adt" and s.P.ty(t)["name"].split("::")[-1] in kinds]
    if len(c) != 1:
        raise Missing("no option %s" % name)
    return c[0]


# ---- actions and their conditions ----------------------------------------------
class Site:
    """an action with the loops around it; the iteration numbers stand for arbitrary ones"""

    def __init__(self, P, e, nest, before):
        self.P, self.e, self.nest, self.before = P, e, nest, before
        self.cond = AND(e.guard, *[l.guard for l in nest])
        self.ranges = [(l.tvar, l.n) for l in nest]

    @property
    def where(self):
        e = self.e
        return "%s (%s)" % (self.P.where(e.span), e.fn.path if e.fn is not None else "?")


def sites(P, evs, nest=(), before=()):
    """every action, in order, with the actions done before it at each level"""
    before = list(before)
    for e in evs:
        yield Site(P, e, list(nest), list(before))
        if e.kind == "loop":
            yield from sites(P, e.kids, list(nest) + [e], before)
        before.append(e)


def success(s):
    """the program ends with status 0"""
    return AND(ok(s.ret), NOT(some_panic(s.events)))


def is_result(P, ty):
    t = P.ty(ty) if ty is not None else None
    return t is not None and t["k"] == "adt" and t["name"].split("::")[-1] == "Result"


QUIET = ("stdout", "Stdout", "stderr", "Stderr")
MODIFY = ("std::fs::write", "std::fs::rename", "std::fs::remove_file", "std::fs::copy", "std::fs::hard_link", "std::fs::remove_dir",
          "std::fs::remove_dir_all", "std::fs::File::set_len", "std::fs::File::create_new", "std::fs::set_permissions")


def modifies(e):
    """does the action change a file other than by writing to one opened before"""
    return e.kind == "create" or e.kind == "call" and any(e.name.startswith(m) for m in MODIFY)


def fallible(P, e):
    """condition under which the action fails, or None when it cannot"""
    if e.kind in ("open", "create", "stat", "join"):
        return err(e.res)
    if e.kind == "call" and e.res is not None and e.ty and is_result(P, e.ty[-1]) and not any(q in e.name for q in QUIET):
        return err(e.res)
    return None


def to_sink(e):
    """saving into a file opened for writing"""
    return e.kind in ("call", "write", "flush") and any(a.op == "agg" and a.args[0] in ("sink", "bufwriter") for a in e.args)


def failures(P, evs):
    """(site, iteration ranges, failing condition, what fails)"""
    for x in sites(P, evs):
        e = x.e
        if e.kind == "lines":
            v = mk("tvar", "#line", e.args[0].id)
            yield x, x.ranges + [(v, mk("nlines", e.args[0]))], AND(x.cond, as_bool(mk("lineerr", e.args[0], v))), "reading a line"
            continue
        f = fallible(P, e)
        if f is not None:
            yield x, x.ranges, AND(x.cond, f), e.name.split("::")[-1] + "()"


# ---- what follows from an assumption ----------------------------------------------
def cubes(c, limit=400):
    """the alternatives of a condition, each as a list of literals"""
    out = []

    def go(t, lits):
        if len(out) > limit or t is FALSE:
            return
        if t is TRUE:
            out.append(lits)
            return
        a, hi, lo = t.args
        for v, sub in ((True, hi), (False, lo)):
            if any(decide(a, x, y) == (not v) for x, y in lits):
                continue
            go(cofactor(sub, a, v), lits + [(a, v)])
    go(c, [])
    return out


class Facts:
    def __init__(self, lits, ranges):
        self.ranges = list(ranges)
        self.lits = list(lits)
        for t, n in self.ranges:
            at = lt("u64", t, n)
            for a, v in literals(at):
                self.lits.append((a, v))
        self.busy = 0
        self.impossible = False
        # the facts themselves, in view of each other
        for _ in range(3):
            new = []
            for a, v in self.lits:
                if not has_ite(a) and not any(x.op in ("sel", "div", "cdiv", "exists") for x in subterms(a)):
                    continue
                b = atom_bool(a) if v else NOT(atom_bool(a))
                for x, y in self.lits:
                    if x is not a:
                        b = as_bool(under(b, x, y))
                if b is FALSE:
                    self.impossible = True
                new.extend(l for l in literals(b) if l not in self.lits and l not in new)
            if not new:
                break
            self.lits.extend(new)

    def settle(self, t):
        """t under the facts; searched conditions hold when one of the assumed iterations is a witness"""
        for _ in range(8):
            t0 = t
            for a, v in self.lits:
                t = under(t, a, v)
            for d, k in remaining(self.lits):
                t = subst(t, {d: I(k)})
            t = self.reached(t)
            if t.op != "ite":
                return t
            for a in atoms(t):
                if a.op == "exists" and self.witness(a):
                    t = cofactor(t, a, True)
            if t is t0:
                return t
        return t

    def reached(self, t):
        """an assumed iteration that ends its loop is the first one to do so: it was reached"""
        if self.busy > 2 or not self.ranges:
            return t
        self.busy += 1
        try:
            for f in [x for x in subterms(t) if x.op == "first"]:
                for v, n in self.ranges:
                    if f.args[0] is n and self.settle(as_bool(instantiate(f.args[1], v))) is TRUE:
                        t = subst(t, {f: v})
        finally:
            self.busy -= 1
        return t

    def witness(self, a):
        if self.busy > 4:
            return False
        n, l = a.args
        h = height(l.args[0])
        v = bv(h)
        cand = {}
        for f, _ in self.lits:
            for g in subterms(l.args[0]):
                if g.op == f.op and v in subterms_ids(g):
                    match(g, f, v, cand)
        for t, _ in self.ranges:
            cand.setdefault(t)
        self.busy += 1
        try:
            for x in cand:
                if self.within(x, n) and self.settle(as_bool(instantiate(l, x))) is TRUE:
                    return True
        finally:
            self.busy -= 1
        return False

    def within(self, x, n):
        for t, m in self.ranges:
            if x is t and n is m:
                return True
            if m.op == "chunklen" and m.args[0] is n and x is lin("u64", 0, [(1, t), (1, mul("u64", m.args[1], m.args[2]))]):
                return True
        return self.busy < 4 and self.settle(lt("u64", x, n)) is TRUE


def match(p, g, v, out, d=0):
    """possible values of v for which p is g"""
    if d > 30 or not isinstance(p, T) or not isinstance(g, T):
        return
    if p is v:
        out.setdefault(g)
        return
    if v not in subterms_ids(p):
        return
    if p.op == "lin":
        k = dict((x, k) for k, x in p.args[2]).get(v)
        if k in (1, -1):
            out.setdefault(lin("u64", 0, [(k, g), (-k, lin(p.args[0], p.args[1], [(q, x) for q, x in p.args[2] if x is not v]))]))
    if p.op == g.op and len(p.args) == len(g.args):
        for a, b in zip(p.args, g.args):
            if isinstance(a, T):
                match(a, b, v, out, d + 1)
            elif isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
                for q, r in zip(a, b):
                    if isinstance(q, tuple) and isinstance(r, tuple) and len(q) == len(r):
                        for y, z in zip(q, r):
                            match(y, z, v, out, d + 1)
                    else:
                        match(q, r, v, out, d + 1)


def cases(alternatives, depth=4):
    """alternatives with the tests inside their operands decided"""
    for lits in alternatives:
        inner = []
        for a, _ in lits:
            gates(a, inner, set())
        inner = [g for g in inner if all(decide(g, x, y) is None for x, y in lits) and not any(x.op == "tvar" for x in subterms_ids(g))]
        if not inner or depth == 0:
            yield lits
        else:
            yield from cases([lits + [(inner[0], True)], lits + [(inner[0], False)]], depth - 1)


def excluded(goal, cond, ranges):
    """None when the condition (at some iteration) rules the goal out, else what is left of the goal"""
    for lits in cases(cubes(cond)):
        f = Facts(lits, ranges)
        if f.impossible or f.settle(goal) is FALSE:
            continue
        r2 = split_ends(goal, lits, ranges)
        if r2 is not None:
            return r2
    return None


def split_ends(goal, lits, ranges):
    """the same with the first and the last iteration apart"""
    for t, n in ranges:
        last = lin("u64", -1, [(1, n)])
        left = None
        for x in (I(0), last):
            m = {t: x}
            cond = AND(*[as_bool(subst(atom_bool(a), m)) if v else NOT(as_bool(subst(atom_bool(a), m))) for a, v in lits])
            rs = [(subst(a, m), subst(b, m)) for a, b in ranges if a is not t]
            for ls in cubes(cond):
                f = Facts(ls + [(a, False) for a in atoms(eq(n, I(0)))], rs)
                r = f.settle(subst(goal, m))
                if r is not FALSE:
                    left = r
        prev = lin("u64", -1, [(1, t)])
        f = Facts(lits + [(a, False) for a in atoms(eq(t, I(0))) + atoms(eq(n, I(0)))], ranges + [(t, last), (prev, last), (prev, lin("u64", -2, [(1, n)]))])
        r = f.settle(goal)
        if r is not FALSE:
            left = r
        if left is None:
            return None
    r = Facts(lits, ranges).settle(goal)
    return r


# ---- nothing fails -------------------------------------------------------------------
_fine = {}


def fine(t):
    """t when every operation that may fail succeeds"""
    r = _fine.get(t)
    if r is None:
        if t.op in ("openok", "createok", "statok", "joined", "lockok"):
            r = TRUE
        elif t.op == "lineerr":
            r = FALSE
        elif t.op == "discr" and t.args[1] == 2 and t.args[0].op == "app":
            r = I(0)
        else:
            r = rebuild(t, fine) if t.args else t
        _fine[t] = r
    return r


# ---- the rules ---------------------------------------------------------------------------
def load(c, names):
    out = []
    for n in names:
        s = command(c, n)
        out.append((n.lower(), s, success(s)))
    return out


@rule("C27")
def no_swallowed_error(c):
    n = 0
    for name, s, good in load(c, COMMANDS):
        for x, ranges, cond, what in failures(s.P, s.events):
            n += 1
            left = excluded(good, cond, ranges)
            c.ob("%s fails when %s fails" % (name, what), left is None, x.where,
                 "" if left is None else "the command still succeeds when %s" % short_term(left))
        for x in sites(s.P, s.events):
            endless(c, name, x)
    c.floor("operations that may fail", n, 12)


def endless(c, name, x):
    """reading goes on failing after the first failure: a loop over lines has to end there"""
    e = x.e
    srcs = {q.args[0] for q in subterms(e.n) if q.op == "nlines"} if e.kind == "loop" else ()
    for src in srcs:
        if e.n is not mk("nlines", src):
            continue
        bad = as_bool(mk("lineerr", src, e.tvar))
        stop = OR(as_bool(e.args[0]), some_panic(e.kids))
        c.ob("%s stops reading lines at the first failure" % name, restrict(NOT(stop), AND(bad, e.guard)) is FALSE or holds(ite(bad, stop, TRUE)),
             x.where, "the loop goes on when %s" % short_term(AND(bad, NOT(stop))))


@rule("C07")
def saved_or_failed(c):
    """the commands that save end with failure when saving fails"""
    n = 0
    for name, s, good in load(c, ["Create", "Insert"]):
        for x, ranges, cond, what in failures(s.P, s.events):
            if x.e.kind != "create" and not to_sink(x.e):
                continue
            n += 1
            left = excluded(good, cond, ranges)
            c.ob("%s fails when %s fails" % (name, what), left is None, x.where,
                 "" if left is None else "the command still succeeds when %s" % short_term(left))
    c.floor("saving operations of the program", n, 4)


@rule("C10")
def made_or_failed(c):
    """create ends with failure when the library refuses the parameters, which are the requested ones"""
    s = command(c, "Create")
    good = success(s)
    n = 0
    for x in sites(s.P, s.events):
        if x.e.kind != "call" or x.e.name.split("::")[-1] not in MAKERS or "BloomFilter" not in x.e.name:
            continue
        n += 1
        left = excluded(good, AND(x.cond, err(x.e.res)), x.ranges)
        c.ob("create fails when the filter cannot be made", left is None, x.where, "" if left is None else "the command still succeeds when %s" % short_term(left))
        c.ob("create asks for the requested probability and version", any(same(fine(a), option(s, "probability")) for a in x.e.args) and
             any(same(fine(a), option(s, "version")) for a in x.e.args), x.where, "asks for %s" % ", ".join(short_term(a, 60) for a in x.e.args))
    c.floor("filters made by create", n, 1)


MAKERS = ("with_version_capacity_opt", "with_capacity", "with_version_capacity", "try_from")


@rule("C26")
def any_job_count(c):
    n = 0
    for name, s, good in load(c, ["Create", "Insert", "Check"]):
        c.always("%s succeeds for every job count when nothing fails" % name, fine(good), s)
        for x in sites(s.P, s.events):
            if x.e.kind != "panic":
                continue
            n += 1
            cond = fine(x.cond)
            rs = [(t, fine(m)) for t, m in x.ranges]
            left = excluded(TRUE, cond, rs)
            c.ob("%s: no %s for any job count" % (name, x.e.name), left is None, x.where,
                 "" if left is None else "reached when %s" % short_term(cond))
    c.floor("places that may panic", n, 5)


@rule("C28")
def capacity_of_dataset(c):
    s = command(c, "Create")
    made = [x for x in sites(s.P, s.events) if x.e.kind == "call" and x.e.name.endswith("BloomFilter::with_version_capacity_opt")]
    other = [x for x in sites(s.P, s.events) if x.e.kind == "call" and x.e.name.split("::")[-1] in
             ("with_capacity", "with_version_capacity", "with_params", "new") and "BloomFilter" in x.e.name]
    c.ob("create makes its filter in one place", len(made) == 1 and not other, s.fn.where(), "%d constructions" % (len(made) + len(other)))
    if not made:
        raise Missing("create does not construct a filter")
    data = option(s, "dataset")
    n = seq_len(data)
    lines = mk_sum("u64", n, *over(lambda j: mk("nlines", mk("file", sel(data, j)))))
    for x in made:
        e = x.e
        v, cap, p, opt = [fine(a) for a in e.args]
        c.eq("version is the requested one", v, option(s, "version"), where=x.where)
        c.eq("capacity is the number of lines of the dataset, else the given one", cap,
             ite(eq(n, I(0)), option(s, "capacity"), lines), where=x.where)
        c.eq("probability is the requested one", p, option(s, "probability"), where=x.where)
        tried = [y.e for y in sites(s.P, s.events) if y.e.kind == "call" and y.e.name.endswith("OptLevel as std::convert::TryFrom<u8>>::try_from")]
        c.ob("optimisation level is the requested one", any(same(opt, payload(q.res, 0)) and same(q.args[0], option(s, "optimize")) for q in tried),
             x.where, short_term(opt))
        c.ob("a filter is made whenever nothing fails", fine(x.cond) is TRUE, x.where, short_term(x.cond))


def over(f):
    t = mk("tvar", "#j", 0)
    return t, f(t)


@rule("C23")
def destination_last(c):
    n = 0
    for name, s, good in load(c, ["Create", "Insert"]):
        dest = option(s, "file")
        all_ = list(failures(s.P, s.events))
        for x in sites(s.P, s.events):
            if not modifies(x.e):
                continue
            n += 1
            what = x.e.name.split("::")[-1]
            c.ob("%s changes no other file than its destination" % name, x.e.kind == "create" and same(x.e.args[0], dest), x.where,
                 "%s of %s" % (x.e.name, short_term(x.e.args[0]) if x.e.args else "?"))
            g = AND(x.cond, NOT(some_panic(x.before)))
            for y, ranges, cond, w in all_:
                if y.e is x.e or to_sink(y.e):
                    continue
                left = excluded(g, cond, ranges)
                c.ob("%s leaves its destination alone when %s fails" % (name, w), left is None, y.where,
                     "" if left is None else "%s at %s still happens when %s" % (what, x.where, short_term(left)))
            if name == "create":
                loaded = mk("app", "poppy_filters::BloomFilter::from_reader", agg("stream", mk("file", dest), I(0)))
                valid = AND(as_bool(mk("openok", dest)), ok(loaded))
                c.ob("an existing file is replaced only if it loads as a filter",
                     AND(g, as_bool(mk("pathexists", dest)), NOT(valid)) is FALSE, x.where,
                     short_term(AND(g, as_bool(mk("pathexists", dest)), NOT(valid))))
    c.floor("destination openings", n, 2)


# ---- what is inserted ------------------------------------------------------------------
def lines_of(src):
    t = gr.var()
    return gr.Group([(t, mk("nlines", src))], TRUE, mk("line", src, t))


def lines_of_files(seq):
    j = gr.var()
    g = lines_of(mk("file", sel(seq, j)))
    return gr.Group([(j, seq_len(seq))] + g.binders, TRUE, g.content)


def splits(t, extra, facts=()):
    """cases of the gates of a term"""
    gs = [a for a in extra if not any(decide(a, x, y) is not None for x, y in facts)]
    if not gs:
        gs = [a for a in gates(t) if not any(x.op == "tvar" for x in subterms_ids(a))]
    if not gs or len(facts) > 8:
        yield facts, t
        return
    for v in (True, False):
        if any(decide(gs[0], x, y) == (not v) for x, y in facts):
            continue
        f = facts + ((gs[0], v),)
        yield from splits(under(t, gs[0], v), [a for a in extra if a is not gs[0]], f)


def give(t, facts):
    for a, v in facts:
        t = under(t, a, v)
    return t


@rule("C24")
def inserted(c):
    for name, s, good in load(c, ["Create", "Insert"]):
        dest, files = option(s, "file"), option(s, "dataset" if name == "create" else "inputs")
        saves = [x for x in sites(s.P, s.events) if x.e.kind != "create" and to_sink(x.e)]
        c.ob("%s saves its filter once" % name, len(saves) == 1 and saves[0].e.name.endswith("BloomFilter::write"),
             saves[0].where if saves else s.fn.where(), "%d operations on the destination" % len(saves))
        if not saves:
            raise Missing("%s saves no filter" % name)
        x = saves[0]
        c.always("%s saves whenever nothing fails" % name, fine(x.cond), where=x.where)
        sink = x.e.args[1]
        while sink.op == "agg" and sink.args[0] == "bufwriter":
            sink = sink.args[1]
        c.eq("%s saves into its destination, emptied before" % name, sink, agg("sink", mk("newfile", dest)), where=x.where)
        left = excluded(good, NOT(x.cond), [])
        c.ob("%s succeeds only after saving" % name, left is None, x.where, "" if left is None else short_term(left))
        none = atoms(eq(seq_len(files), I(0)))
        if name == "create":
            stdin = FALSE
            made = [y.e for y in sites(s.P, s.events) if y.e.kind == "call" and y.e.name.endswith("BloomFilter::with_version_capacity_opt")]
            bases = [payload(fine(y.res), 0) for y in made]
        else:
            stdin = OR(option(s, "stdin"), eq(seq_len(files), I(0)))
            bases = [payload(mk("app", "poppy_filters::BloomFilter::from_reader", agg("stream", mk("file", dest), I(0))), 0)]
        n = 0
        for facts, v in splits(fine(x.e.args[0]), none + [a for a in atoms(stdin) if a not in none]):
            n += 1
            case = " and ".join(("" if y else "not ") + short_term(a, 60) for a, y in facts[:3])
            want = []
            if give(stdin, facts) is TRUE:
                want.append(lines_of(mk("stdin")))
            if give(eq(seq_len(files), I(0)), facts) is not TRUE:
                want.append(lines_of_files(files))
            empty = lambda n: give(eq(n, I(0)), facts)
            want = gr.settled([g.map(lambda t: give(t, facts)) for g in want], empty)
            try:
                b, gs, _ = gr.entries(v)
                gs = gr.settled(gs, empty)
            except gr.Unclear as e:
                c.ob("%s: what is saved (%s)" % (name, case), False, x.where, str(e))
                continue
            c.ob("%s starts from the given filter (%s)" % (name, case), any(same(b, give(q, facts)) for q in bases), x.where, short_term(b))
            for w in want:
                c.ob("%s inserts %s (%s)" % (name, "every line of every file" if len(w.binders) > 1 else "every line of stdin", case),
                     any(gr.equal(w, g) for g in gs), x.where, "inserted: " + "; ".join(map(str, gs)))
            extra = [g for g in gs if not any(gr.equal(w, g) for w in want)]
            c.ob("%s inserts nothing else (%s)" % (name, case), not extra, x.where, "; ".join(map(str, extra)))
        c.floor("cases of %s" % name, n, 2)


# ---- what is printed --------------------------------------------------------------------
def texts(v, cond=TRUE):
    """(condition, pieces) of a formatted text; a piece is a byte string or an argument"""
    if v.op == "ite":
        a = atom_bool(v.args[0])
        return texts(v.args[1], AND(cond, a)) + texts(v.args[2], AND(cond, NOT(a)))
    if v.op == "formatted":
        return texts(v.args[0], cond)
    if v.op == "ref" and isinstance(v.args[0], T) and v.args[0].op == "cbase" and not v.args[1]:
        return texts(v.args[0].args[0], cond)
    if v.op == "bytes":
        return [(cond, [bytes.fromhex(v.args[0]) if isinstance(v.args[0], str) else bytes(v.args[0])])]
    if v.op == "arr" and all(x.op == "i" for x in v.args):
        return [(cond, [bytes(ival(x) for x in v.args)])]
    if v.op == "agg" and v.args[0] == "fmt":
        if len(v.args) == 2:
            return texts(v.args[1], cond)
        t = v.args[1]
        raw = texts(t)
        if len(raw) != 1 or len(raw[0][1]) != 1 or not isinstance(raw[0][1][0], bytes):
            return [(cond, [v])]
        raw = raw[0][1][0]
        args = v.args[2]
        out = [(cond, [])]
        i = k = 0
        while i < len(raw) and raw[i]:
            b = raw[i]
            if b < 128:
                out = [(g, p + [raw[i + 1:i + 1 + b]]) for g, p in out]
                i += 1 + b
            elif b == 192 and args.op == "arr" and k < len(args.args):
                a = args.args[k]
                k += 1
                i += 1
                if a.op == "agg" and a.args[0] == "arg" and "display" in str(a.args[1].args[0]):
                    out = [(AND(g, h), p + q) for g, p in out for h, q in texts(a.args[2])]
                else:
                    out = [(g, p + [a]) for g, p in out]
            else:
                return [(cond, [v])]
        return out
    return [(cond, [v])]


def line_text(x, tail):
    return agg("text", x, mk("bytes", tail.hex()))


def flat(ps):
    out = []
    for p in ps:
        if isinstance(p, bytes) and out and isinstance(out[-1], bytes):
            out[-1] += p
        elif p != b"":
            out.append(p)
    return agg("text", *[mk("bytes", p.hex()) if isinstance(p, bytes) else p for p in out])


def covered(c, name, s):
    """every job started outside a scope is waited for"""
    starts, waits = [], []
    for x in sites(s.P, s.events):
        if x.e.kind == "spawn" and x.e.name == "spawn":
            starts.append((x, gr.canon(gr.Group([(t, fine(n)) for t, n in x.ranges], fine(x.cond), x.e.args[0]))))
        elif x.e.kind == "join":
            waits.append(gr.Group([(t, fine(n)) for t, n in x.ranges], fine(x.cond), x.e.args[0]))
    waits = gr.settled(waits)
    for x, g in starts:
        c.ob("%s waits for every job it starts" % name, any(gr.equal(g, w) for w in waits), x.where,
             "started: %s; waited for: %s" % (g, "; ".join(map(str, waits)) or "none"))


@rule("C25")
def printed(c):
    s = command(c, "Check")
    good = success(s)
    files = option(s, "inputs")
    verify, silent = option(s, "verify"), option(s, "silent")
    stdin = OR(option(s, "stdin"), eq(seq_len(files), I(0)))
    bf = payload(mk("app", "poppy_filters::BloomFilter::from_reader", agg("stream", mk("file", option(s, "file")), I(0))), 0)
    got = []
    for x in sites(s.P, s.events):
        if x.e.kind == "loop" and any(y.kind == "print" for y in walk(x.e.kids)):
            early = fine(x.e.args[0]) if x.e.args else FALSE
            c.ob("check reads its input to the end", early is FALSE, x.where, "a loop ends early when %s" % short_term(early))
        if x.e.kind == "print":
            for g, ps in texts(fine(x.e.args[0])):
                g = gr.Group([(t, fine(n)) for t, n in x.ranges], AND(fine(x.cond), g), flat(ps))
                if g.cond is not FALSE:
                    got.append((x, g))
    c.floor("print statements", len(got), 2)
    want = []
    for g, src in ((lines_of(mk("stdin")), "stdin"), (lines_of_files(files), "files")):
        has = as_bool(mk("app", "poppy_filters::BloomFilter::contains_bytes", bf, g.content))
        on = AND(stdin if src == "stdin" else TRUE, NOT(silent))
        want.append((src, "contained lines", gr.canon(gr.Group(g.binders, AND(on, NOT(verify), has), line_text(g.content, b"\n")))))
        want.append((src, "lines not contained", gr.canon(gr.Group(g.binders, AND(on, verify, NOT(has)), line_text(g.content, b": NOK\n")))))
    rest = [(x, gr.canon(g)) for x, g in got]
    nonempty = atoms(eq(seq_len(files), I(0)))
    for src, what, w in want:
        mine = [(x, g) for x, g in rest if g.content is w.content and len(g.binders) == len(w.binders)]
        rest = [y for y in rest if y not in mine]
        facts = [(a, False) for a in nonempty] if src == "files" else []
        conds = [as_bool(give(g.cond, facts)) for _, g in mine]
        okay = all(all(p[0] is q[0] and same(give(p[1], facts), give(q[1], facts)) for p, q in zip(g.binders, w.binders)) for _, g in mine)
        twice = any(AND(a, b) is not FALSE for i, a in enumerate(conds) for b in conds[:i])
        d = differ(OR(*conds) if conds else FALSE, as_bool(give(w.cond, facts)))
        c.ob("check prints the %s of %s" % (what, src), okay and d is None and not twice, mine[0][0].where if mine else s.fn.where(),
             "printed twice" if twice else "printed: %s | required: %s" % ("; ".join(str(g) for _, g in mine), w))
    for x, g in rest:
        c.ob("check prints nothing else", g.cond is FALSE, x.where, "printed: %s" % g)
    covered(c, "check", s)
    n = 0
    for x, ranges, cond, what in failures(s.P, s.events):
        n += 1
        left = excluded(good, cond, ranges)
        c.ob("check fails when %s fails" % what, left is None, x.where, "" if left is None else "check still succeeds when %s" % short_term(left))
    c.floor("operations of check that may fail", n, 4)


# ---- the benchmark ------------------------------------------------------------------------
def counter(t):
    """(steps, iteration, condition for one more) of a floating point counter from zero"""
    if t.op != "rec" or t.args[1] is not agg("s", F(0.0)):
        return None
    n, _, l = t.args
    h = height(l.args[0])
    v = gr.var()
    me = gr.var("#count")
    step = subst(l.args[0], {bv(h): v, mk("recvar", h, 0): me})
    if step.op != "agg":
        return None
    more = fop("fadd", F(1.0), me)
    cond = FALSE
    for g, x in guarded_leaves(step.args[1]):
        if x is more:
            cond = OR(cond, g)
        elif x is not me:
            return None
    return n, v, cond


def rate(t):
    """None when t is the share of false positives among the mutated entries asked for, else what is wrong"""
    if t.op != "fdiv" or t.args[1].op != "fadd" or t.args[0] not in t.args[1].args:
        return "not a share: %s" % short_term(t, 200)
    fp = t.args[0]
    tn = [x for x in t.args[1].args if x is not fp]
    if len(tn) != 1:
        return "not a share: %s" % short_term(t, 200)
    a, b = counter(fp), counter(tn[0])
    if a is None or b is None or not same(a[0], b[0]):
        return "not counters over the same entries"
    cf = a[2]
    ct = as_bool(subst(b[2], {b[1]: a[1]}))
    hs = [x for x in atoms(cf) if x.op == "app" and x.args[0] in gr.HAS]
    if len(hs) != 1:
        return "false positives are not counted by one lookup"
    h = hs[0]
    if cofactor(cf, h, False) is not FALSE or cofactor(ct, h, True) is not FALSE:
        return "false positives or true negatives are counted for the wrong answer"
    m = cofactor(cf, h, True)
    if not same(cofactor(ct, h, False), m):
        return "false positives and true negatives are counted over different entries"
    # mutated entries: bytes combined with random ones
    if not mentions(h.args[2], "xor"):
        return "entries asked for are not the mutated ones"
    # every entry drawn for mutation counts, whatever it looks like
    for x in atoms(m):
        if not any(y.op == "app" and "rand::" in y.args[0] for y in (x,) + x.args if isinstance(y, type(m))):
            return "which mutated entries are counted depends on %s" % short_term(x, 200)
    return None


@rule("C36")
def bench(c):
    s = command(c, "Bench")
    good = success(s)
    where = s.fn.where()
    n = 0
    for x in sites(s.P, s.events):
        n += 1
        if modifies(x.e) or to_sink(x.e):
            c.ob("bench changes no file", False, x.where, "%s" % x.e.name)
    c.ob("bench changes no file", True, where, "%d actions" % n)
    none = option(s, "file")
    given = is_variant(none, 1)
    path = payload(none, 1)
    bf = payload(mk("app", "poppy_filters::BloomFilter::from_reader", agg("stream", mk("file", path), I(0))), 0)
    # entries: lists of lines of the standard input
    f = fine(good)
    lists = {}
    asked = [x for x in sites(s.P, s.events) if x.e.kind == "call" and x.e.name in gr.HAS and same(x.e.args[0], bf)]
    for x in sites(s.P, s.events):
        if x.e.kind == "call" and "shuffle" in x.e.name:
            for g, v in guarded_leaves(fine(x.e.args[0])):
                lists[v] = (x, OR(g, lists[v][1]) if v in lists else g)
    if not lists:
        for x in asked:
            for v in subterms(fine(x.e.args[1])):
                if v.op == "sel" and v.args[0].op == "rec" and mentions(v.args[0], "line"):
                    lists[v.args[0]] = (x, TRUE)
    c.floor("lists of benchmark entries", len(lists), 1)
    for e, (x, used) in lists.items():
        t = gr.var()
        has = as_bool(mk("app", "poppy_filters::BloomFilter::contains_bytes", bf, sel(e, t)))
        # a filter to be measured is given, and this list is the one used
        left = excluded(f, AND(given, used, NOT(has)), [(t, seq_len(e))])
        c.ob("bench fails when the given filter lacks an entry", left is None, x.where, "" if left is None else "succeeds when %s" % short_term(left))
        r = e
        okay = r.op == "rec" and r.args[1] is agg("s", mk("arr"))
        if okay:
            l = r.args[2]
            h = height(l.args[0])
            me, v = mk("recvar", h, 0), bv(h)
            new = push(me, mk("line", mk("stdin"), v))
            ls = guarded_leaves(l.args[0].args[1])
            okay = all(y in (me, new) for _, y in ls) and any(y is new for _, y in ls)
            okay = okay and all(a.op == "app" and "HashSet" in a.args[0] for g, y in ls for a in atoms(g))
        c.ob("entries are the lines of the input", okay, x.where, short_term(e))
    # a size limit of zero is no limit
    size = option(s, "size_mb")
    whole = 0
    for e, (x, used) in lists.items():
        if fine(subst(used, {size: I(0)})) is FALSE:
            continue
        whole += 1
        n = fine(subst(e.args[0], {size: I(0)})) if e.op == "rec" else None
        c.ob("a size limit of 0 uses the whole input", n is mk("nlines", mk("stdin")), x.where, "lines used: %s" % short_term(n if n else e))
    c.floor("lists of entries without size limit", whole, 1)
    for x in sites(s.P, s.events):
        if x.e.kind == "panic" and size in subterms(x.cond):
            left = excluded(TRUE, subst(x.cond, {size: I(0)}), x.ranges)
            c.ob("a size limit of 0 does not panic (%s)" % x.e.name, left is None, x.where, "" if left is None else "reached when %s" % short_term(left))
    # the measured rate
    cmp = [a for a in atoms(f) if a.op in ("flt", "fle") and any("mean" in y.args[0] for z in a.args for y in [z] if y.op == "app")]
    c.ob("bench compares the average rate", bool(cmp), where, "no comparison of an average")
    k = 0
    for a in cmp:
        for facts, p in splits(agg("s", *a.args), []):
            k += 1
            m = next(y for y in p.args[1:] if y.op == "app" and "mean" in y.args[0])
            b = next(y for y in p.args[1:] if y is not m)
            rates = m.args[1]
            if rates.op != "build":
                c.ob("the average is taken over the measured rates", False, where, short_term(rates))
                continue
            r = instantiate(rates.args[1], gr.var())
            why = None
            for _, q in splits(r, []):
                why = why or rate(q)
            c.ob("each rate is the share of false positives", why is None, where, why or "")
            hs = [y for y in subterms(r) if y.op == "app" and y.args[0] in gr.HAS]
            tol = option(s, "fp_tol")
            lim = []
            for q in {y.args[1] for y in hs}:
                p0 = mk("app", "poppy_filters::BloomFilter::fpp", q)
                lim += [fop("fadd", p0, fop("fmul", p0, tol)), fop("fmul", p0, fop("fadd", F(1.0), tol))]
            c.ob("the limit is the filter's probability with the tolerance", any(same(b, z) for z in lim), where, short_term(b))
            c.floor("measured rates", ival(rates.args[0]) if rates.args[0].op == "i" else 1, 1)
    if cmp:
        g = f
        for a in atoms(f):
            if a.op not in ("flt", "fle", "feq"):
                continue
            x, y = a.args
            mx, my = [z.op == "app" and "mean" in z.args[0] for z in (x, y)]
            if mx and my:
                g = cofactor(g, a, a.op != "flt")
            elif mx:
                g = cofactor(g, a, False)
            elif my:
                g = cofactor(g, a, a.op != "feq")
        c.ob("bench fails when the average rate exceeds the limit", g is FALSE, where, "succeeds when %s" % short_term(g))
    c.floor("cases of the comparison", k, 1)
