"""Gated value flow over compiler IR.

Each function is evaluated once per call site over abstract states.  States are
merged at every control-flow join (values become gated values), loops are solved
as recurrence equations over the locations they change, and calls into analysed
crates are summarised by flowing through the callee.  No input is chosen and no
path is enumerated: a result describes every execution of the function.
"""
from .terms import *
from . import terms as tm


class Ev:
    """an observable action: I/O, print, opaque call, panic, or a loop of actions"""
    __slots__ = ("kind", "name", "args", "guard", "span", "fn", "res", "kids", "n", "tvar", "key", "ty", "job")

    def __init__(self, kind, name, args, guard, span, fn, res=None, kids=None, n=None, tvar=None, key=None, ty=None, job=None):
        self.kind, self.name, self.args, self.guard, self.span, self.fn = kind, name, args, guard, span, fn
        self.res, self.kids, self.n, self.tvar, self.key, self.ty = res, kids, n, tvar, key, ty
        # the spawned thread the action belongs to
        self.job = job

    def map(self, f):
        return Ev(self.kind, self.name, [f(a) for a in self.args], f(self.guard), self.span, self.fn,
                  None if self.res is None else f(self.res),
                  None if self.kids is None else [k.map(f) for k in self.kids],
                  None if self.n is None else f(self.n), self.tvar, self.key, self.ty, None if self.job is None else f(self.job))

    def __repr__(self):
        if self.kind == "loop":
            return "loop[%s](%s) when %s" % (self.n, "; ".join(map(repr, self.kids)), self.guard)
        return "%s %s(%s) when %s" % (self.kind, self.name, ", ".join(map(repr, self.args)), self.guard)


def walk(evs):
    for e in evs:
        yield e
        if e.kids:
            yield from walk(e.kids)


def some_panic(evs):
    """condition under which one of the actions is a panic (those of other threads do not count)"""
    c = FALSE
    for e in evs:
        if e.job is not None:
            continue
        if e.kind == "panic" or e.kind == "exit":
            c = OR(c, e.guard)
        elif e.kind == "loop":
            k = some_panic(e.kids)
            if k is not FALSE:
                c = OR(c, AND(e.guard, mk_exists_t(e.n, e.tvar, k)))
    return c


class State:
    __slots__ = ("mem", "guard")

    def __init__(self, mem=None, guard=TRUE):
        self.mem = {} if mem is None else mem
        self.guard = guard

    def copy(self):
        return State(dict(self.mem), self.guard)

    # ---- memory ---------------------------------------------------------
    def base(self, b):
        v = self.mem.get(b)
        if v is None:
            v = default_content(b)
        return v

    def read(self, b, proj):
        v = self.base(b)
        for p in proj:
            v = project(v, p)
        return v

    def write(self, b, proj, val):
        if not proj:
            self.mem[b] = val
        else:
            self.mem[b] = store(self.base(b), proj, 0, val)

    def load(self, r):
        """value behind a (possibly gated) reference"""
        return lift(lambda x: self.read(*deref(x)), r)

    def put(self, r, val):
        """store through a (possibly gated) reference"""
        for c, x in guarded_leaves(r):
            if x is UNDEF:
                continue
            b, pr = deref(x)
            if c is TRUE:
                self.write(b, pr, val)
            else:
                self.write(b, pr, ite(c, val, self.read(b, pr)))


def default_content(b):
    if isinstance(b, T):
        if b.op == "cbase":
            return b.args[0]
        if b.op == "dbase":
            return mk("deref", b.args[0])
    return UNDEF


def ref(b, proj=()):
    return mk("ref", b, tuple(proj))


def cref(v):
    """reference to an immutable constant"""
    return mk("ref", mk("cbase", v), ())


def deref(x):
    if x.op == "ref":
        return x.args[0], x.args[1]
    return mk("dbase", x), ()


def extend(r, p):
    """reference to a part"""
    def f(x):
        b, pr = deref(x)
        if p[0] == "sub" and pr and pr[-1][0] == "sub":
            return ref(b, pr[:-1] + (("sub", add("u64", pr[-1][1], p[1]), p[2]),))
        if p[0] in ("e", "sub") and any(isinstance(q, T) and q.op == "ite" for q in p[1:]):
            if p[0] == "e":
                return lift(lambda i: ref(b, pr + (("e", i),)), num(p[1]))
            return lift(lambda o, n: ref(b, pr + (("sub", o, n),)), num(p[1]), num(p[2]))
        return ref(b, pr + (p,))
    return lift(f, r)


def field(v, tag, i):
    def f(x):
        if x.op == "agg":
            if x.args[0] == tag and i + 1 < len(x.args):
                return x.args[i + 1]
            if x.args[0] == tag or isinstance(x.args[0], int) and isinstance(tag, int):
                return UNDEF
            if i + 1 < len(x.args):
                return x.args[i + 1]
            return UNDEF
        if x is UNDEF:
            return UNDEF
        return mk("fld", x, tag, i)
    return lift(f, v)


def setfield(v, tag, i, n, new):
    def f(x):
        if x.op == "agg" and x.args[0] == tag and len(x.args) == n + 1:
            l = list(x.args)
            l[i + 1] = new
            return agg(*l)
        if x.op == "agg" and x.args[0] != tag or x is UNDEF:
            l = [UNDEF] * n
            l[i] = new
            return agg(tag, *l)
        l = [field(x, tag, k) for k in range(n)]
        l[i] = new
        return agg(tag, *l)
    if v.op == "ite":
        out = map_leaves(v, f)
        return out
    return f(v)


def project(v, p):
    k = p[0]
    if k == "f":
        return field(v, p[1], p[2])
    if k == "e":
        return sel(v, p[1])
    return subseq(v, p[1], p[2])


def store(v, proj, k, val):
    if k == len(proj):
        return val
    p = proj[k]
    if p[0] == "f":
        return setfield(v, p[1], p[2], p[3], store(field(v, p[1], p[2]), proj, k + 1, val))
    if p[0] == "e":
        return upd(v, p[1], store(sel(v, p[1]), proj, k + 1, val))
    if k + 1 < len(proj) and proj[k + 1][0] == "e":
        i = proj[k + 1][1]
        old = sel(subseq(v, p[1], p[2]), i)
        return upd(v, add("u64", p[1], i), store(old, proj, k + 2, val))
    new = store(subseq(v, p[1], p[2]), proj, k + 1, val)
    return splice(v, p[1], p[2], new)


SEQ_OPS = {"arr", "fill", "upd", "map", "scatter", "build", "subseq", "splice", "concat", "push", "lebytes", "rd", "bytes", "copied"}


def is_seq(x):
    return x.op in SEQ_OPS or x.op == "sym" and x.args[1] == "seq" or x.op == "mu" and x in tm.MULEN


def splice(s, off, n, new):
    def f(a, o, m):
        if a.op == "splice" and a.args[1] is o and seq_len(a.args[2]) is m:
            a = a.args[0]
        if o is I(0) and m is seq_len(a):
            return new
        if o.op == "i" and m.op == "i" and (a.op == "arr" or a.op == "fill" and a.args[1].op == "i" and ival(a.args[1]) <= 64):
            l = list(a.args) if a.op == "arr" else [a.args[0]] * ival(a.args[1])
            for q in range(ival(m)):
                l[ival(o) + q] = sel(new, I(q))
            return arr(l)
        return mk("splice", a, o, new)
    return lift(f, s, off, n)


def merge(states):
    if len(states) == 1:
        return states[0]
    g = OR(*[s.guard for s in states])
    out = State({}, g)
    first = states[0].mem
    keys = {}
    for s in states:
        for b in s.mem:
            keys[b] = None
    gs = [restrict(s.guard, g) for s in states]
    for b in keys:
        vals = [s.mem.get(b) for s in states]
        v0 = vals[0]
        if all(v is v0 for v in vals):
            out.mem[b] = v0
            continue
        acc = None
        for s, gg, v in zip(reversed(states), reversed(gs), reversed(vals)):
            if v is None or v is UNDEF:
                continue
            acc = v if acc is None else ite(gg, v, acc)
        out.mem[b] = UNDEF if acc is None else acc
    return out


class Unsupported(Exception):
    """a construct the analysis cannot follow; where it stands in the analysed sources"""
    where = None


class Loop:
    def __init__(self, tag, st):
        self.tag, self.st = tag, st


def above(ty, t, n):
    """whether a stored field, or a multiple or quotient of one, exceeds n; None for anything else"""
    if t.op in ("sym", "le"):
        m = umax(t)
        return FALSE if n >= ((1 << WIDTH[ty]) - 1 if m is None else m) else lt(ty, I(n), t)
    if t.op == "cdiv" and t.args[1].op == "i":
        return above(ty, t.args[0], n * ival(t.args[1]))
    if t.op == "div" and t.args[1].op == "i":
        return above(ty, t.args[0], (n + 1) * ival(t.args[1]) - 1)
    if t.op == "lin" and len(t.args[2]) == 1 and t.args[2][0][0] > 0 and t.args[1] >= 0:
        if n < t.args[1]:
            return TRUE if n + 1 <= t.args[1] else None
        return above(ty, t.args[2][0][1], (n - t.args[1]) // t.args[2][0][0])
    return None


def overflow(op, ty, a, b):
    """whether the sum, difference or product of stored fields, lengths and constants leaves the
    range of its type; arithmetic on anything else (indices, loop counters) is taken not to"""
    if is_signed(ty) or ty not in WIDTH:
        return FALSE
    top = (1 << WIDTH[ty]) - 1

    def f(x, y):
        if op.startswith("Sub"):
            known = all(z.op in ("sym", "le", "len", "i") for z in (x, y))
            return lt(ty, x, y) if known else FALSE
        if x.op == "i":
            x, y = y, x
        plus = op.startswith("Add")
        if not plus and not op.startswith("Mul"):
            return FALSE
        if x.op == "i":
            return B((ival(x) + ival(y) if plus else ival(x) * ival(y)) > top)
        if y.op == "i":
            if not ival(y):
                return FALSE
            r = above(ty, x, top - ival(y) if plus else top // ival(y))
            return FALSE if r is None else r
        # two sizes found in a header
        if all(mentions(z, "le") and above(ty, z, 0) is not None for z in (x, y)):
            m, n = umax(x), umax(y)
            if m is not None and n is not None and (m + n if plus else m * n) <= top:
                return FALSE
            return lt(ty, sub(ty, I(top), x), y) if plus else atom_bool(mk("overflows", ty, *sorted((x, y))))
        return FALSE
    return lift(f, a, b)


class Engine:
    def __init__(self, prog, opaque=None, models=None):
        from . import models as M
        self.prog = prog
        self.models = M.MODELS if models is None else models
        self.opaque = opaque or (lambda fn: False)
        self.frames = {}
        self.outer = []
        self.loopstack = []
        self.skips = None
        self.ev = []
        self.panics = []
        self.stack = []
        self.tmp = 0
        self.cur_span = None
        self.unmodelled = {}
        self.analysed = {}
        self.ncalls = 0

    # ---- naming --------------------------------------------------------
    def frame(self, key):
        f = self.frames.get(key)
        if f is None:
            f = len(self.frames)
            self.frames[key] = f
        return f

    def here(self):
        return self.stack[-1][2] if self.stack else "root"

    def full_guard(self, st):
        return AND(*self.outer, st.guard)

    def emit(self, st, kind, name, args, res=None, key=None, ty=None):
        fn = self.where_fn()
        e = Ev(kind, name, list(args), self.full_guard_rel(st), self.user_span(), fn, res, key=key, ty=ty)
        self.ev.append(e)
        return e

    def full_guard_rel(self, st):
        base = self.loop_outer[-1] if self.loop_outer else 0
        return AND(*self.outer[base:], st.guard)

    @property
    def loop_outer(self):
        return self._lo

    _lo = ()

    def where_fn(self):
        for f, sp, _ in reversed(self.stack):
            if f.krate in OURS:
                return f
        return self.stack[0][0] if self.stack else None

    def user_span(self):
        for f, sp, _ in reversed(self.stack):
            if f.krate in OURS:
                return sp[0]
        return None

    def fresh(self, op, *extra):
        """a symbol for the outcome of the action at this program point"""
        return mk(op, self.here(), *extra, *self.loopstack)

    # ---- functions -----------------------------------------------------
    def run(self, fn, args, st):
        """flow through fn; mutates st, returns its result"""
        body = fn.body
        parent = self.here()
        key = "%s>%s" % (parent, fn.id)
        fr = "L%d" % self.frame(key)
        n = len(body.locals)
        for i, a in enumerate(args):
            st.mem["%s.%d" % (fr, i + 1)] = a
        self.outer.append(st.guard)
        st.guard = TRUE
        self.stack.append((fn, [None], fr))
        self.analysed[fn.id] = self.analysed.get(fn.id, 0) + 1
        try:
            outs = self.region(fn, body, fr, None, st)
        finally:
            self.stack.pop()
            g0 = self.outer.pop()
        rets = [s for t, s in outs if t == "ret"]
        if not rets:
            st.mem = {}
            st.guard = FALSE
            return UNDEF
        m = merge(rets)
        rv = m.mem.get(fr + ".0", UNIT)
        pre = fr + "."
        for k in [k for k in m.mem if isinstance(k, str) and k.startswith(pre)]:
            del m.mem[k]
        st.mem = m.mem
        st.guard = AND(g0, m.guard)
        if rv is UNDEF:
            rv = UNIT
        return rv

    def region(self, fn, body, fr, header, st):
        """blocks of a loop (header given) or of the whole function"""
        inside = body.loops[header] if header is not None else None
        entry = header if header is not None else 0
        pending = {entry: [st]}
        outs = []
        first = True
        for b in body.rpo:
            if inside is not None and b not in inside:
                continue
            if b not in pending:
                continue
            ss = [s for s in pending.pop(b) if s.guard is not FALSE]
            if not ss:
                continue
            cur = merge(ss)
            if b in body.loops and not (b == header and first):
                lk = "%s@%d" % (fr, b)
                edges = self.loop(lk, cur, lambda s, b=b: self.region(fn, body, fr, b, s))
            else:
                first = False if b == header else first
                edges = self.block(fn, body, fr, b, cur, b == header)
            for tgt, s in edges:
                if s.guard is FALSE:
                    continue
                if tgt == "ret":
                    outs.append(("ret", s))
                elif header is not None and tgt == header:
                    outs.append(("back", s))
                elif inside is not None and tgt not in inside:
                    outs.append((tgt, s))
                else:
                    pending.setdefault(tgt, []).append(s)
        return outs

    # ---- one block -----------------------------------------------------
    def block(self, fn, body, fr, b, st, header=False):
        stmts, term, sp = body.blocks[b]
        cs = self.stack[-1][1]
        for s in stmts:
            k = s[0]
            if k == "=":
                cs[0] = s[3]
                ty = self.place_ty(body, s[1])
                v = self.rvalue(body, fr, st, s[2], ty)
                self.assign(body, fr, st, s[1], v)
            elif k == "sd":
                cs[0] = s[3]
                ty = self.place_ty(body, s[1])
                self.assign(body, fr, st, s[1], agg(s[2], *[UNDEF] * self.nfields(ty, s[2])))
        cs[0] = sp
        k = term[0]
        if k == "goto":
            return [(term[1], st)]
        if k == "ret":
            return [("ret", st)]
        if k in ("unreach", "unwind", "asm"):
            return []
        if k == "drop":
            return [(term[2], st)]
        if k == "switch":
            return self.switch(body, fr, st, term)
        if k == "assert":
            c = as_bool(self.operand(body, fr, st, term[1]))
            if not term[2]:
                c = NOT(c)
            if c is not TRUE:
                self.panic(st, "assert:" + str(term[3]), NOT(c), [self.operand(body, fr, st, o) for o in (term[5] or [])])
            return [(term[4], st)]
        if k == "call":
            self.stack[-1] = (fn, cs, "%s#%d" % (fr, b))
            # a loop over some of the items steps over the others
            skips = self.skips = [] if header and self.partial(term[1]) and all(s[0] != "=" or s[2][0] == "ref" for s in stmts) else None
            try:
                v = self.call(body, fr, st, term)
            except Exception as e:
                if getattr(e, "where", None) is None:
                    f = self.where_fn()
                    e.where = "%s (%s)" % (self.prog.where(self.user_span()), getattr(f, "path", f))
                raise
            finally:
                self.skips = None
                self.stack[-1] = (fn, cs, fr)
            if skips:
                if term[4] is None or st.guard is FALSE:
                    return [(b, s) for s in skips]
                self.assign(body, fr, st, term[3], v)
                return [(term[4], st)] + [(b, s) for s in skips]
            if term[4] is None or st.guard is FALSE:
                return []
            self.assign(body, fr, st, term[3], v)
            return [(term[4], st)]
        raise Unsupported("terminator " + k)

    def partial(self, callee):
        """is this the step of an iterator that leaves items out"""
        inst = callee[3] if callee[0] != "ind" and len(callee) > 3 else None
        return inst is not None and self.prog.fns[inst].short in ("Filter.next", "FilterMap.next")

    def panic(self, st, what, cond, args=()):
        e = Ev("panic", what, list(args), AND(self.full_guard_rel(st), cond), self.user_span(), self.where_fn())
        self.ev.append(e)

    def switch(self, body, fr, st, term):
        v = self.operand(body, fr, st, term[1])
        ty = self.prog.tyname(term[4]) if len(term) > 4 and term[4] is not None else "u64"
        conds = []
        rest = TRUE
        for val, tgt in term[2]:
            if ty == "bool":
                c = as_bool(v)
                c = c if val else NOT(c)
            else:
                c = eq(v, I(val))
            conds.append((c, tgt))
            rest = AND(rest, NOT(c))
        conds.append((rest, term[3]))
        by = {}
        for c, tgt in conds:
            by[tgt] = OR(by.get(tgt, FALSE), c)
        alive = {t: c for t, c in by.items() if self.blocks_kind(body, t) != "unreach"}
        dead = OR(*[c for t, c in by.items() if t not in alive])
        if dead is not FALSE:
            care = NOT(dead)
            alive = {t: (restrict(c, care) if care is not FALSE else c) for t, c in alive.items()}
        doomed = {t: c for t, c in alive.items() if t in body.doomed}
        ok = {t: c for t, c in alive.items() if t not in body.doomed}
        out = []
        for t, c in doomed.items():
            g = AND(st.guard, c)
            if g is not FALSE:
                s = st.copy()
                s.guard = g
                out.append((t, s))
        if doomed and ok:
            care = NOT(OR(*doomed.values()))
            if care is not FALSE:
                ok = {t: restrict(c, care) for t, c in ok.items()}
        for t, c in ok.items():
            g = AND(st.guard, c)
            if g is not FALSE:
                s = st.copy() if len(ok) + len(out) > 1 else st
                s.guard = g
                out.append((t, s))
        return out

    def blocks_kind(self, body, b):
        bl = body.blocks[b]
        return bl[1][0]

    # ---- places, operands, rvalues -------------------------------------
    def place_ty(self, body, place):
        ty = body.locals[place[0]]
        P = self.prog
        for p in place[1]:
            if p == "*":
                t = P.ty(ty)
                ty = t.get("t", ty)
            elif p[0] == "f":
                ty = p[2]
            elif p[0] in ("i", "ci"):
                ty = P.ty(ty).get("t", ty)
        return ty

    def nfields(self, ty, variant=0):
        t = self.prog.ty(ty)
        k = t["k"]
        if k == "adt":
            return len(t["variants"][variant][2])
        if k == "tuple":
            return len(t["ts"])
        if k == "closure":
            return len(self.upvars(t))
        return 1

    def upvars(self, t):
        u = t["upvars"]
        return self.prog.ty(u)["ts"] if isinstance(u, int) else u

    def ref_of(self, body, fr, st, place):
        """gated reference to a place"""
        P = self.prog
        r = ref("%s.%d" % (fr, place[0]))
        ty = body.locals[place[0]]
        variant = None
        for p in place[1]:
            if p == "*":
                r = st.load(r)
                if r is UNDEF:
                    r = mk("undefref", self.here())
                ty = P.ty(ty).get("t", ty)
                variant = None
            elif p[0] == "f":
                t = P.ty(ty)
                if variant is not None:
                    r = extend(r, ("f", variant, p[1], self.nfields(ty, variant)))
                elif t["k"] == "adt" and t.get("kind") == "Enum":
                    r = extend(r, ("f", 0, p[1], self.nfields(ty, 0)))
                else:
                    r = extend(r, ("f", "s", p[1], self.nfields(ty)))
                ty = p[2]
                variant = None
            elif p[0] == "d":
                variant = p[1]
            elif p[0] == "i":
                i = st.mem.get("%s.%d" % (fr, p[1]), UNDEF)
                r = extend(r, ("e", i))
                ty = P.ty(ty).get("t", ty)
            elif p[0] == "ci":
                if p[3]:
                    n = self.len_of(st, r, ty)
                    i = sub("u64", n, I(p[1]))
                else:
                    i = I(p[1])
                r = extend(r, ("e", i))
                ty = P.ty(ty).get("t", ty)
            elif p[0] == "ss":
                n = self.len_of(st, r, ty)
                end = sub("u64", n, I(p[2])) if p[3] else I(p[2])
                r = extend(r, ("sub", I(p[1]), sub("u64", end, I(p[1]))))
            else:
                raise Unsupported("projection %r" % (p,))
        return r, ty

    def len_of(self, st, r, ty):
        t = self.prog.ty(ty)
        if t["k"] == "array":
            return I(t["len"])
        return self.slice_len(st, r)

    def slice_len(self, st, r):
        def f(x):
            if x.op == "ref" and x.args[1] and x.args[1][-1][0] == "sub":
                return x.args[1][-1][2]
            return seq_len(st.read(*deref(x)))
        return lift(f, r)

    def read_place(self, body, fr, st, place):
        if not place[1]:
            v = st.mem.get("%s.%d" % (fr, place[0]), UNDEF)
            ty = body.locals[place[0]]
        else:
            r, ty = self.ref_of(body, fr, st, place)
            v = st.load(r)
        return self.typed(v, ty)

    def typed(self, v, ty):
        t = self.prog.ty(ty)
        if t["k"] == "bool" and v is not UNDEF:
            return as_bool(v)
        if t["k"] in ("tuple",) and not t["ts"]:
            return UNIT
        return v

    def assign(self, body, fr, st, place, v):
        if not place[1]:
            st.mem["%s.%d" % (fr, place[0])] = v
        else:
            r, ty = self.ref_of(body, fr, st, place)
            st.put(r, v)

    def operand(self, body, fr, st, op):
        k = op[0]
        if k in ("c", "m"):
            return self.read_place(body, fr, st, op[1])
        if k == "k":
            return self.const(op[1], op[2])
        if k == "rtc":
            return FALSE
        raise Unsupported("operand %r" % (op,))

    def op_ty(self, body, op):
        if op[0] in ("c", "m"):
            return self.place_ty(body, op[1])
        if op[0] == "k":
            return op[1]
        return None

    def const(self, ty, v):
        t = self.prog.ty(ty)
        if isinstance(v, bool):
            return B(v)
        k = v[0]
        if k == "i":
            if t["k"] == "bool":
                return B(v[1])
            return I(v[1])
        if k == "f":
            return mk("f", v[1]) if v[2] == 8 else mk("f32", v[1])
        if k == "refstr":
            return cref(mk("bytes", v[1]))
        if k == "refslice":
            inner = self.prog.ty(t["t"]) if "t" in t else None
            et = inner.get("t") if inner else None
            return cref(arr([self.const(et, x) for x in v[1]]) if v[1] else EMPTY)
        if k == "ref":
            return cref(self.const(t["t"], v[1])) if "t" in t else mk("opaque", repr(v))
        if k == "arr":
            et = t.get("t")
            return arr([self.const(et, x) for x in v[1]]) if v[1] else EMPTY
        if k == "agg":
            return self.const_agg(t, v)
        if k == "fn":
            return mk("fnitem", v[1])
        if k == "zst":
            if t["k"] == "fndef":
                return mk("fnitem", t.get("inst"))
            if t["k"] == "array":
                return EMPTY
            return UNIT if t["k"] != "adt" or t.get("kind") != "Enum" else agg(0)
        if k == "refstatic":
            return ref("static:" + str(v[1]))
        return mk("opaque", str(v))

    def const_agg(self, t, v):
        variant, vals = v[1], v[2]
        if t["k"] == "adt":
            name = t["name"]
            fts = [f[1] for f in t["variants"][variant][2]]
            fs = [self.const(ft, x) for ft, x in zip(fts, vals)]
            return agg(variant if t["kind"] == "Enum" else "s", *fs)
        if t["k"] == "tuple":
            return agg("s", *[self.const(a, x) for a, x in zip(t["ts"], vals)])
        if t["k"] == "closure":
            return agg("s", *[self.const(a, x) for a, x in zip(self.upvars(t), vals)])
        return mk("opaque", str(v))

    def rvalue(self, body, fr, st, rv, dty):
        k = rv[0]
        P = self.prog
        if k == "use":
            return self.operand(body, fr, st, rv[1])
        if k == "ref":
            return self.ref_of(body, fr, st, rv[2])[0]
        if k == "agg":
            kind = rv[1]
            ops = [self.operand(body, fr, st, o) for o in rv[2]]
            kn = kind if isinstance(kind, str) else kind[0]
            if kn == "array":
                return arr(ops) if ops else EMPTY
            if kn == "adt":
                t = P.ty(kind[1])
                return agg(kind[2] if t["kind"] == "Enum" else "s", *ops)
            if kn in ("tuple", "closure"):
                return agg("s", *ops) if ops else UNIT
            if kn == "rawptr":
                return ops[0]
            return mk("opaque", str(kind))
        if k in ("bin", "cbin"):
            a = self.operand(body, fr, st, rv[2])
            b = self.operand(body, fr, st, rv[3])
            ty = P.tyname(self.op_ty(body, rv[2]))
            r = self.binop(rv[1], a, b, ty)
            if k == "cbin":
                return agg("s", r, overflow(rv[1], norm_ty(ty), a, b))
            return r
        if k == "un":
            a = self.operand(body, fr, st, rv[2])
            ty = P.tyname(self.op_ty(body, rv[2]))
            if rv[1] == "Not":
                return NOT(a) if ty == "bool" else int_not(norm_ty(ty), a)
            if rv[1] == "Neg":
                if is_float(ty):
                    return fop("fneg", a)
                return sub(norm_ty(ty), I(0), a)
            if rv[1] == "PtrMetadata":
                return self.slice_len(st, a)
            return mk("un", rv[1], a)
        if k == "cast":
            return self.cast(body, st, rv[1], self.operand(body, fr, st, rv[2]), self.op_ty(body, rv[2]), rv[3])
        if k == "discr":
            v = self.read_place(body, fr, st, rv[1])
            return self.discr(v, self.place_ty(body, rv[1]))
        if k == "len":
            r, ty = self.ref_of(body, fr, st, rv[1])
            return self.len_of(st, r, ty)
        if k == "repeat":
            return fill(self.operand(body, fr, st, rv[1]), I(rv[2]))
        return mk("opaque", str(rv))

    def discr(self, v, ty):
        t = self.prog.ty(ty)
        vs = t.get("variants") or []
        signed = str(t.get("name", "")).endswith("cmp::Ordering")

        def f(x):
            if x.op == "agg" and isinstance(x.args[0], int) and x.args[0] < len(vs):
                d = vs[x.args[0]][1]
                return I(wrap(d, "i8") if signed else d)
            if x is UNDEF:
                return UNDEF
            ds = [w[1] for w in vs]
            return mk("discr", x, len(vs) if ds == list(range(len(vs))) else 0)
        return lift(f, v)

    def binop(self, op, a, b, ty):
        t = norm_ty(ty)
        if is_float(t):
            m = {"Add": "fadd", "Sub": "fsub", "Mul": "fmul", "Div": "fdiv", "Rem": "frem"}
            if op in m:
                return fop(m[op], a, b)
            if op == "Lt":
                return fcmp("flt", a, b)
            if op == "Gt":
                return fcmp("flt", b, a)
            if op == "Le":
                return fcmp("fle", a, b)
            if op == "Ge":
                return fcmp("fle", b, a)
            if op == "Eq":
                return fcmp("feq", a, b)
            if op == "Ne":
                return NOT(fcmp("feq", a, b))
        if t == "bool":
            a, b = as_bool(a), as_bool(b)
            if op in ("BitAnd",):
                return AND(a, b)
            if op == "BitOr":
                return OR(a, b)
            if op in ("BitXor", "Ne"):
                return XOR(a, b)
            if op == "Eq":
                return NOT(XOR(a, b))
            if op == "Lt":
                return AND(NOT(a), b)
            if op == "Gt":
                return AND(a, NOT(b))
            if op == "Le":
                return OR(NOT(a), b)
            if op == "Ge":
                return OR(a, NOT(b))
        if t not in WIDTH:
            if op == "Eq":
                return eq(a, b)
            if op == "Ne":
                return NOT(eq(a, b))
            return mk("bin", op, a, b)
        op = op.replace("Unchecked", "").replace("WithOverflow", "")
        if op == "Add":
            return add(t, a, b)
        if op == "Sub":
            return sub(t, a, b)
        if op == "Mul":
            return mul(t, a, b)
        if op == "Div":
            return div(t, a, b)
        if op == "Rem":
            if is_signed(t):
                return lift(lambda x, y: mk("srem", x, y), a, b)
            return rem(a, b)
        if op == "BitAnd":
            return bits_and(a, b)
        if op == "BitOr":
            return bits_or(a, b)
        if op == "BitXor":
            return bits_xor(t, a, b)
        if op == "Shl":
            return shl(t, a, b)
        if op == "Shr":
            return shr(t, a, b)
        if op == "Eq":
            return eq(a, b)
        if op == "Ne":
            return NOT(eq(a, b))
        if op == "Lt":
            return lt(t, a, b)
        if op == "Gt":
            return lt(t, b, a)
        if op == "Le":
            return NOT(lt(t, b, a))
        if op == "Ge":
            return NOT(lt(t, a, b))
        if op == "Cmp":
            return ite(lt(t, a, b), agg(0), ite(eq(a, b), agg(1), agg(2)))
        return mk("bin", op, a, b)

    def cast(self, body, st, kind, v, sty, dty):
        P = self.prog
        s, d = P.tyname(sty), P.tyname(dty)
        if isinstance(kind, list):
            kind = kind[0]
        ts, td = P.ty(sty), P.ty(dty)
        if ts["k"] in ("ref", "ptr") and td["k"] in ("ref", "ptr") and P.ty(ts["t"])["k"] == "array" and P.ty(td["t"])["k"] == "slice":
            self.note_len(st, v, sty)
            return v
        if s == d:
            return v
        if s == "bool" and d in WIDTH:
            return ite(as_bool(v), I(1), I(0))
        if s in WIDTH and d in WIDTH:
            return self.int_cast(v, norm_ty(s), norm_ty(d))
        if s in WIDTH and is_float(d):
            if d == "f64":
                return lift(lambda x: F(float(ival(x))) if x.op == "i" and abs(ival(x)) < (1 << 53) else mk("i2f", x), v) if not is_signed(norm_ty(s)) else lift(lambda x: mk("s2f", x), v)
            return lift(lambda x: mk("i2f32", x), v)
        if is_float(s) and d in WIDTH:
            return lift(lambda x: f2i(x, norm_ty(d)), v)
        if is_float(s) and is_float(d):
            return lift(lambda x: mk("f2f", s, d, x), v)
        if s == "adt" and d in WIDTH:
            return self.int_cast(self.discr(v, sty), "u64", norm_ty(d))
        if "ransmute" in str(kind):
            return lift(lambda x: transmute(P, x, sty, dty), v)
        return v

    def note_len(self, st, v, ty):
        """the length of an array is known from its type"""
        t = self.prog.ty(ty)
        if t["k"] not in ("ref", "ptr") or self.prog.ty(t["t"])["k"] != "array":
            return
        n = I(self.prog.ty(t["t"])["len"])
        for r in leaves(v):
            if r.op == "ref":
                for x in leaves(st.load(r)):
                    if x is not UNDEF and seq_len(x) is mk("len", x):
                        MULEN[x] = n

    def int_cast(self, v, s, d):
        ws, wd = WIDTH[s], WIDTH[d]

        def f(x):
            if x.op == "i":
                return I(wrap(ival(x), d))
            if not is_signed(s) and not is_signed(d):
                if wd >= ws:
                    return x
                return rem(x, I(1 << wd))
            if ws == wd:
                return reint(x, s, d)
            if not is_signed(s) and wd > ws:
                return x
            return mk("icast", s, d, x)
        return lift(f, v)

    # ---- calls ---------------------------------------------------------
    def call(self, body, fr, st, term):
        callee = term[1]
        args = [self.operand(body, fr, st, o) for o in term[2]]
        argtys = term[5] if len(term) > 5 else [self.op_ty(body, o) for o in term[2]]
        dty = self.place_ty(body, term[3])
        if callee[0] == "ind":
            f = self.operand(body, fr, st, callee[1])
            if f.op == "fnitem" and f.args[0] is not None:
                return self.invoke(st, self.prog.fns[f.args[0]], args, argtys, dty, term[4] is None)
            return self.opaque_call(st, "indirect", args, argtys, dty)
        inst = callee[3] if len(callee) > 3 else None
        if inst is None:
            return self.opaque_call(st, callee[1], args, argtys, dty)
        return self.invoke(st, self.prog.fns[inst], args, argtys, dty, term[4] is None, callee[1])

    def invoke(self, st, fn, args, argtys, dty, diverges=False, declared=None):
        self.ncalls += 1
        declared = declared or fn.path
        ds = declared.split("::")[-1]
        if declared in ("std::ops::FnOnce::call_once", "std::ops::FnMut::call_mut", "std::ops::Fn::call"):
            return self.call_value(st, args[0], argtys[0], list(tuple_items(args[1], self.nargs(argtys[1]))), self.tuple_tys(argtys[1]), dty)
        if diverges:
            self.emit(st, "panic" if "exit" not in fn.path else "exit", fn.short, args)
            st.guard = FALSE
            return UNDEF
        for a, ty in zip(args, argtys):
            if ty is not None and isinstance(a, T):
                self.note_len(st, a, ty)
        if fn.ctor is not None:
            return agg(fn.ctor, *args)
        m = self.models.get(fn.short)
        if m is None and fn.path.startswith("<") is False:
            m = self.models.get(fn.path)
        if m is None and declared:
            from .mir import short
            m = self.models.get("~" + short(declared))
        if m is not None and fn.has_body and (fn.krate == self.prog.crate or self.prog.crate == "harness" and fn.krate == "poppy_filters"):
            # models are of code that is not under analysis
            m = None
        if m is not None and not self.opaque(fn):
            c = Ctx(self, st, fn, args, argtys, dty)
            r = m(c)
            if r is not NotImplemented:
                return self.typed(r, dty) if r is not UNDEF else r
        if self.opaque(fn):
            return self.opaque_call(st, fn.path, args, argtys, dty, fn)
        if fn.has_body and not any(f is fn for f, _, _ in self.stack) and len(self.stack) < 60:
            body = fn.body
            if body.spread is not None:
                k = body.spread
                args = args[:k - 1] + list(tuple_items(args[k - 1], self.nargs(argtys[k - 1])))
            return self.run(fn, args, st)
        return self.opaque_call(st, fn.path, args, argtys, dty, fn)

    def nargs(self, ty):
        t = self.prog.ty(ty)
        return len(t["ts"]) if t["k"] == "tuple" else 1

    def tuple_tys(self, ty):
        t = self.prog.ty(ty)
        return t["ts"] if t["k"] == "tuple" else [ty]

    def call_value(self, st, f, fty, args, argtys, dty):
        """call a closure, function item or reference to one"""
        t = self.prog.ty(fty)
        derefs = 0
        while t["k"] in ("ref", "ptr"):
            fty = t["t"]
            t = self.prog.ty(fty)
            inner = t["k"] in ("ref", "ptr")
            if inner:
                f = st.load(f)
            derefs += 1
        if t["k"] == "fndef":
            return self.invoke(st, self.prog.fns[t["inst"]], args, argtys, dty) if t.get("inst") is not None else self.opaque_call(st, t["name"], args, argtys, dty)
        if t["k"] == "closure":
            fn = self.prog.fns.get(t["inst"])
            if fn is None or not fn.has_body:
                return self.opaque_call(st, t["name"], [f] + args, [fty] + argtys, dty)
            byref = self.prog.ty(fn.body.locals[1])["k"] == "ref"
            if byref and not derefs:
                b = "C%d" % self.frame("closure:" + self.here() + str(len(self.stack)))
                st.mem[b] = f
                f = ref(b)
            elif not byref and derefs:
                f = st.load(f)
            return self.run(fn, [f] + args, st)
        if t["k"] == "fnptr" and f.op == "fnitem":
            return self.invoke(st, self.prog.fns[f.args[0]], args, argtys, dty)
        return self.opaque_call(st, "call:" + t["k"], [f] + args, [fty] + argtys, dty)

    def opaque_call(self, st, path, args, argtys, dty, fn=None):
        """a call outside the analysed code: result and mutable referents are unknown functions of the arguments"""
        self.unmodelled[path] = self.unmodelled.get(path, 0) + 1
        vals = [self.deep(st, a, t) for a, t in zip(args, argtys)]
        key = None
        if self.pure_opaque(path):
            r = mk("app", path, *vals)
        else:
            r = mk("app", path, *vals, self.fresh("at"))
        e = self.emit(st, "call", path, vals, r, key=args, ty=list(argtys) + [dty])
        for i, (a, t) in enumerate(zip(args, argtys)):
            self.havoc(st, a, t, lambda part, i=i: mk("post", r, i, part), "")
        return self.expand(r, dty)

    def pure_opaque(self, path):
        return "poppy_filters" in path or "wyhash" in path

    def expand(self, r, dty):
        t = self.prog.ty(dty)
        if t["k"] == "bool":
            return as_bool(r)
        if t["k"] == "tuple" and not t["ts"]:
            return UNIT
        return r

    def deep(self, st, v, ty, d=0):
        """argument value with references replaced by what they point to"""
        t = self.prog.ty(ty)
        if d > 6:
            return v
        if t["k"] in ("ref", "ptr"):
            inner = st.load(v)
            if self.prog.ty(t["t"])["k"] in ("dyn", "fnptr"):
                return v
            return self.deep(st, inner, t["t"], d + 1)
        if t["k"] == "tuple" and v.op == "agg":
            return agg("s", *[self.deep(st, a, x, d + 1) for a, x in zip(v.args[1:], t["ts"])])
        if t["k"] == "closure" and v.op == "agg":
            return agg("s", *[self.deep(st, a, x, d + 1) for a, x in zip(v.args[1:], self.upvars(t))])
        if t["k"] == "adt" and v.op == "agg" and t["kind"] == "Enum" and isinstance(v.args[0], int) and v.args[0] < len(t["variants"]):
            fts = [f[1] for f in t["variants"][v.args[0]][2]]
            if len(fts) == len(v.args) - 1:
                return agg(v.args[0], *[self.deep(st, a, x, d + 1) for a, x in zip(v.args[1:], fts)])
        if v.op == "ref":
            return st.load(v)
        return v

    def havoc(self, st, v, ty, mkval, part, d=0):
        t = self.prog.ty(ty)
        if d > 6:
            return
        if t["k"] in ("ref", "ptr"):
            if t.get("mut"):
                if v.op in ("ref", "ite"):
                    st.put(v, mkval(part))
            return
        if t["k"] == "closure" and v.op == "agg":
            for i, (a, x) in enumerate(zip(v.args[1:], self.upvars(t))):
                self.havoc(st, a, x, mkval, part + ".%d" % i, d + 1)
        if t["k"] == "tuple" and v.op == "agg":
            for i, (a, x) in enumerate(zip(v.args[1:], t["ts"])):
                self.havoc(st, a, x, mkval, part + ".%d" % i, d + 1)

    def temp(self, st, v, label="t"):
        b = "X%d" % self.frame("temp:%s:%s:%d" % (label, self.here(), len(self.stack)))
        st.mem[b] = v
        return ref(b)

    # ---- loops ---------------------------------------------------------
    def loop(self, key, st, body, assumed=TRUE, depth=0, nolen=frozenset()):
        entry = st
        g = self.full_guard(st)
        if g.op == "ite":
            for b, v in list(entry.mem.items()):
                if v.op == "ite" or v.op == "agg":
                    entry.mem[b] = map_agg(v, lambda x: restrict(x, g))
        changed = {}
        tag = key if depth == 0 else "%s~%d.%d" % (key, depth, assumed.id)
        tvar = mk("tvar", tag)
        saved_ev = self.ev
        saved_lo = self._lo
        for rnd in range(16):
            s0 = entry.copy()
            s0.guard = assumed
            for (b, pr), mu in changed.items():
                s0.write(b, pr, mu)
            self.ev = []
            self.outer.append(entry.guard)
            self._lo = tuple(self._lo) + (len(self.outer),)
            self.loopstack.append(tvar)
            try:
                outs = body(s0.copy())
            finally:
                self.loopstack.pop()
                self._lo = saved_lo
                self.outer.pop()
                evs = self.ev
                self.ev = saved_ev
            backs = [s for t, s in outs if t == "back" and s.guard is not FALSE]
            exits = [(t, s) for t, s in outs if t != "back" and s.guard is not FALSE]
            if not backs:
                # the body never repeats
                for e in evs:
                    e2 = e.map(lambda x: x)
                    e2.guard = AND(self.full_guard_rel(entry), e.guard)
                    self.ev.append(e2)
                res = []
                for t, s in exits:
                    s.guard = AND(entry.guard, s.guard)
                    res.append((t, s))
                return res
            back = merge(backs)
            new = []
            for b in s0.mem:
                o, n = s0.mem[b], back.mem.get(b)
                if n is not None and n is not o:
                    self.diff((b, ()), o, assume(n, back.guard), changed, tag, new)
            fresh = [p for p in new if p not in changed]
            if not fresh:
                break
            for p in fresh:
                for q in list(changed):
                    if q[0] == p[0] and q[1][:len(p[1])] == p[1]:
                        del changed[q]
                if not any(q[0] == p[0] and p[1][:len(q[1])] == q[1] for q in changed):
                    mu = mk("mu", tag, p[0] if isinstance(p[0], str) else "b%d" % p[0].id, path_key(p[1]))
                    changed[p] = mu
                    init = entry.read(*p)
                    if mu not in nolen and all(is_seq(x) for x in leaves(init)):
                        tm.MULEN[mu] = seq_len(init)
                    else:
                        tm.MULEN.pop(mu, None)
        else:
            raise Unsupported("loop does not stabilise at %s" % key)
        eqs = {}
        for (b, pr), mu in changed.items():
            init = entry.read(b, pr)
            nxt = assume(back.read(b, pr), back.guard)
            eqs[mu] = (init, nxt)
            if mu in tm.MULEN and seq_len(nxt) is not tm.MULEN[mu]:
                nolen = nolen | {mu}
                del tm.MULEN[mu]
                return self.loop(key, entry, body, assumed, depth, nolen)
        sol = Solve(self, tag, tvar, eqs, [(t, s.guard) for t, s in exits], back.guard, assumed)
        # invariant tests that decide early exits are resolved outside the loop
        if depth < 3:
            a = sol.unswitch()
            if a is not None:
                r = []
                for lit in (atom_bool(a), NOT(atom_bool(a))):
                    e = entry.copy()
                    r.extend(self.loop(key, e, body, AND(assumed, lit), depth + 1, nolen))
                return r
        if sol.N is not None and sol.N.op == "i" and ival(sol.N) <= 8 and depth < 100 and not all(sol.kind):
            r = self.unroll(entry, body, assumed, ival(sol.N))
            if r is not None:
                return r
        sol.solve()
        kids = []
        for e in evs:
            e2 = e.map(sol.inside)
            if e2.guard is not FALSE:
                kids.append(e2)
        if kids or sol.N is not None and sol.N.op == "nlines":
            g = AND(self.full_guard_rel(entry), assumed)
            self.ev.append(Ev("loop", "loop", [sol.early], g, self.user_span(), self.where_fn(), kids=kids, n=sol.count(), tvar=tvar, key=sol))
        res = []
        for k, (t, s) in enumerate(exits):
            g, f = sol.exit(k)
            if g is FALSE:
                continue
            out = State({}, AND(entry.guard, assumed, g))
            memo = {}
            for b, v in s.mem.items():
                out.mem[b] = f(v)
            res.append((t, out))
        return res

    def unroll(self, entry, body, assumed, n):
        """a search with a small constant bound, one step after the other"""
        cur = entry.copy()
        cur.guard = AND(entry.guard, assumed)
        res = []
        nev = len(self.ev)
        for k in range(n + 1):
            outs = body(cur.copy())
            res.extend((t, s) for t, s in outs if t != "back" and s.guard is not FALSE)
            backs = [s for t, s in outs if t == "back" and s.guard is not FALSE]
            if not backs:
                return res
            cur = merge(backs)
        del self.ev[nev:]
        return None

    def diff(self, path, old, new, changed, tag, out):
        if old is new or path in changed:
            return
        b, pr = path
        if new.op == "agg" and len(new.args) > 1:
            tg = new.args[0]
            n = len(new.args) - 1
            if old.op == "agg" and (old.args[0] != tg or len(old.args) != n + 1):
                out.append(path)
                return
            if old.op == "agg" or (tg == "s" and old.op in ("sel", "fld", "sym", "deref", "app", "post")):
                for i in range(n):
                    self.diff((b, pr + (("f", tg, i, n),)), field(old, tg, i), new.args[i + 1], changed, tag, out)
                return
        if new.op == "upd":
            s, i, v = new.args
            inv = not any(x.op in ("mu", "tvar") and x.args[0] == tag for x in subterms_ids(i))
            if inv and (s is old or old.op == "upd" and old.args[0] is s and old.args[1] is i):
                self.diff((b, pr + (("e", i),)), sel(old, i), v, changed, tag, out)
                return
        out.append(path)


OURS = {"poppy_filters", "poppy", "poppy_py", "harness"}


def path_key(pr):
    return tuple((p[0],) + tuple(x.id if isinstance(x, T) else x for x in p[1:]) for p in pr)


def tuple_items(v, n):
    if v.op == "agg" and len(v.args) == n + 1:
        return v.args[1:]
    return [field(v, "s", i) for i in range(n)]


def f2i(x, ty):
    if x.op == "f":
        v = fval(x)
        if v != v:
            return I(0)
        w = WIDTH[ty]
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if is_signed(ty) else (0, (1 << w) - 1)
        v = max(lo, min(hi, int(v) if abs(v) != float("inf") else (hi if v > 0 else lo)))
        return I(v)
    if x.op == "i2f" and ty == "u64":
        y = x.args[0]
        m = umax(y)
        if y.op == "f2i" or m is not None and m <= 1 << 53:
            return y
    if ty == "u64" and x.op == "ceil" and x.args[0].op == "fdiv":
        a, b = x.args[0].args
        if a.op == "i2f" and b.op == "f" and fval(b) >= 1 and fval(b) < 2 ** 53 and int(fval(b)) & (int(fval(b)) - 1) == 0 and fval(b) == int(fval(b)):
            # dividing by a power of two is exact; sizes of storage that exists are far below 2^53
            return cdiv(a.args[0], I(int(fval(b))))
    return mk("f2i", ty, x)


def transmute(P, x, sty, dty):
    if x.op == "ref":
        return x
    s, d = P.ty(sty), P.ty(dty)
    if s["k"] == "array" and d["k"] == "int":
        return signed_le(x, norm_ty(d["n"]))
    if s["k"] == "int" and d["k"] == "array":
        return lebytes(unsigned(x, norm_ty(s["n"])), WIDTH[s["n"]] // 8)
    if s["k"] == "array" and d["k"] == "float":
        return le_float(x)
    if s["k"] == "float" and d["k"] == "array":
        return mk("lefbytes", 8, x)
    if s["k"] == "float" and d["k"] == "int":
        return fbits(x)
    if s["k"] == "int" and d["k"] == "float":
        return bitsf(x)
    return x


def reint(x, s, d):
    """the same bits read as a type of the other signedness"""
    def f(y):
        if y.op == "i":
            return I(wrap(ival(y), d))
        if y.op == "reint" and y.args[0] == d and y.args[1] == s:
            return y.args[2]
        return mk("reint", s, d, y)
    return lift(f, x)


def unsigned(x, ty):
    return reint(x, ty, "u" + ty[1:]) if is_signed(ty) else x


def signed_le(x, ty):
    """integer of little-endian bytes"""
    u = "u" + ty[1:]
    return reint(lebytes_int(x, u), u, ty) if is_signed(ty) else lebytes_int(x, ty)


def lebytes(x, n):
    def f(y):
        if y.op == "le" and y.args[0] == n:
            return y.args[1]
        if y.op == "i":
            return arr([I((ival(y) >> (8 * k)) & 255) for k in range(n)])
        if n == 1:
            return mk("arr", y)
        if y.op == "fbits" and n == 8:
            return mk("lefbytes", 8, y.args[0])
        return mk("lebytes", n, y)
    return lift(f, x)


def fbits(x):
    """bit pattern of a float"""
    return lift(lambda y: mk("le", 8, y.args[1]) if y.op == "lef" else y.args[0] if y.op == "bitsf" else mk("fbits", y), x)


def bitsf(x):
    """float of a bit pattern"""
    return lift(lambda y: y.args[0] if y.op == "fbits" else le_float(y.args[1]) if y.op == "le" and y.args[0] == 8 else mk("bitsf", y), x)


def lebytes_int(s, ty):
    n = WIDTH[ty] // 8

    def f(y):
        if y.op == "lebytes" and y.args[0] == n:
            return y.args[1]
        if y.op == "fill" and y.args[0] is I(0):
            return I(0)
        if y.op == "arr" and len(y.args) == n and all(a.op == "i" for a in y.args):
            return I(sum(ival(a) << (8 * k) for k, a in enumerate(y.args)))
        if y.op == "arr" and len(y.args) == n and all(a.op == "sel" and a.args[1] is I(k) and a.args[0] is y.args[0].args[0] for k, a in enumerate(y.args)):
            b = y.args[0].args[0]
            return mk("le", n, subseq(b, I(0), I(n)))
        if y.op == "arr" and len(y.args) == n and n > 1 and all(is_byte(a) and a.args[0].args[0] is y.args[0].args[0].args[0] and a.args[0].args[1] is add("u64", y.args[0].args[0].args[1], I(k)) for k, a in enumerate(y.args)):
            b = y.args[0].args[0]
            return mk("le", n, mk("rd", b.args[0], b.args[1], I(n)))
        if y.op == "arr" and len(y.args) == n and n == 1:
            return y.args[0]
        return mk("le", n, y)
    return lift(f, s)


def is_byte(a):
    return a.op == "sel" and a.args[0].op == "rd" and a.args[0].args[2] is I(1)


def le_float(s):
    return lift(lambda y: y.args[1] if y.op == "lefbytes" else mk("lef", 8, y), s)


tm.LIFTED["le"] = lambda n, y: lebytes_int(y, {1: "u8", 2: "u16", 4: "u32", 8: "u64", 16: "u128"}[n])
tm.LIFTED["lef"] = lambda n, y: le_float(y)
tm.LIFTED["lefbytes"] = lambda n, y: lift(lambda x: x.args[1] if x.op == "lef" else mk("lefbytes", 8, x), y)
tm.LIFTED["fbits"] = fbits
tm.LIFTED["bitsf"] = bitsf
tm.LIFTED["lebytes"] = lambda n, y: lebytes(y, n)
tm.LIFTED["f2i"] = lambda ty, x: lift(lambda y: f2i(y, ty), x)
tm.LIFTED["fld"] = lambda x, tag, i: field(x, tag, i)
tm.LIFTED["splice"] = lambda a, o, new: lift(lambda q, w: mk("splice", q, w, new), a, o)


class Ctx:
    """a call as seen by a library model"""

    def __init__(self, eng, st, fn, args, argtys, dty):
        self.e, self.st, self.fn, self.a, self.tys, self.dty = eng, st, fn, args, argtys, dty
        self.P = eng.prog

    def load(self, i):
        return self.st.load(self.a[i])

    def ty(self, i):
        return self.P.ty(self.tys[i])

    def pointee(self, i):
        t = self.P.ty(self.tys[i])
        while t["k"] in ("ref", "ptr"):
            t = self.P.ty(t["t"])
        return t


# --------------------------------------------------------------------------
# recurrences
# --------------------------------------------------------------------------

class Solve:
    """closed or canonical forms of the locations a loop changes"""

    def __init__(self, eng, tag, t, eqs, exits, backguard, assumed):
        self.eng, self.tag, self.t = eng, tag, t
        self.eqs = dict(eqs)
        self.assumed = assumed
        self.val = {}
        self.lens = {}
        # unchanged locations and induction variables
        for mu, (init, nxt) in list(self.eqs.items()):
            if nxt is mu:
                self.val[mu] = init
                del self.eqs[mu]
            elif nxt.op == "lin" and nxt.args[2] and len(nxt.args[2]) == 1 and nxt.args[2][0] == (1, mu):
                c = nxt.args[1]
                self.val[mu] = add("u64", init, mul("u64", t, I(wrap(c, "u64"))))
                del self.eqs[mu]
            elif is_pop(nxt, mu):
                # one element less at every step
                self.val[mu] = subseq(init, I(0), lift(ssub, seq_len(init), t))
                del self.eqs[mu]
            elif nxt.op == "push" and nxt.args[0] is mu:
                # one more element at every step
                self.lens[mk("len", mu)] = add("u64", seq_len(init), t)
            else:
                self.becomes(mu, init, nxt)
        self.exits = [(tg, restrict(self.s(g), assumed)) for tg, g in exits]
        self.back = self.s(backguard)
        self.eqs = {mu: (i, self.s(n)) for mu, (i, n) in self.eqs.items()}
        self._count()

    def becomes(self, mu, init, nxt):
        """an enum value that is another variant after the first step and keeps it"""
        if init.op != "agg" or not isinstance(init.args[0], int) or mu not in subterms_ids(nxt):
            return
        first = subst(nxt, {mu: init})
        ls = [x for x in leaves(first) if x is not UNDEF]
        if not ls or any(x.op != "agg" or x.args[0] != ls[0].args[0] or len(x.args) != 2 for x in ls):
            return
        k = ls[0].args[0]
        if not isinstance(k, int) or k == init.args[0]:
            return
        inner = mk("mu", self.tag, "inner", mu.id)
        later = subst(nxt, {mu: agg(k, inner)})
        if any(x is not UNDEF and (x.op != "agg" or x.args[0] != k or len(x.args) != 2) for x in leaves(later)):
            return
        part = lambda v: map_leaves(v, lambda x: x.args[1] if x is not UNDEF else UNDEF)
        start = eq(self.t, I(0))
        self.val[mu] = ite(start, init, agg(k, inner))
        self.eqs[inner] = (UNDEF, ite(start, part(first), part(later)))
        del self.eqs[mu]

    def s(self, x):
        if self.lens:
            x = subst(x, self.lens)
        return subst(x, self.val) if self.val else x

    def mine(self, x):
        return any(v.op in ("mu", "tvar") and v.args[0] == self.tag for v in subterms_ids(x))

    # number of iterations
    def _count(self):
        self.kind = []
        bounds = []
        for tg, g in self.exits:
            b = self.bound(g)
            self.kind.append(b is not None)
            if b is not None:
                bounds.extend(b)
        self.N = None
        if bounds:
            n = bounds[0]
            for m in bounds[1:]:
                n = n if m is n else lift(lambda a, b: mm("min", a, b), n, m)
            self.N = n
        self.incond = AND(*[NOT(g) for (tg, g), k in zip(self.exits, self.kind) if k]) if bounds else TRUE

    def bound(self, g):
        """iteration bounds when the exit test only counts"""
        neg = NOT(g)
        out = []
        lits = literals(neg)
        if neg is FALSE or not lits:
            return None
        if AND(*[atom_bool(a) if v else NOT(atom_bool(a)) for a, v in lits]) is not neg:
            # a conjunction with an earlier counting exit: g = c1 & !c2
            lits = literals(g)
            if AND(*[atom_bool(a) if v else NOT(atom_bool(a)) for a, v in lits]) is not g:
                return None
            res = []
            for a, v in lits:
                b = self.atom_bound(a, not v)
                b2 = self.atom_bound(a, v)
                if b is not None:
                    res.append(b)
                elif b2 is None:
                    return None
            return res or None
        for a, v in lits:
            b = self.atom_bound(a, v)
            if b is None:
                return None
            out.append(b)
        return out

    def atom_bound(self, a, v):
        """number of consecutive iterations, from 0, for which atom a has value v"""
        t = self.t
        if a.op == "lt" and v:
            x, n = a.args
            if self.mine(n):
                # lt(c, n - t)?
                return None
            c = lin_in(x, t)
            if c is None:
                return None
            k, rest = c
            if k < 1 or self.mine(rest):
                return None
            m = n if rest is I(0) else lift(lambda p, q: ssub(p, q), n, rest)
            if k == 1:
                return m
            return cdiv(m, I(k))
        if a.op == "eq":
            x, n = a.args
            if self.mine(n) and not self.mine(x):
                x, n = n, x
            if self.mine(n):
                return None
            c = lin_in(x, t)
            if c is None:
                return None
            k, rest = c
            if self.mine(rest):
                return None
            if not v and k == 1:
                return n if rest is I(0) else ssub(n, rest)
            if not v and k == -1:
                return rest if n is I(0) else ssub(rest, n)
            if v and n is I(0) and rest is I(0):
                return I(1)
        return None

    def unswitch(self):
        for (tg, g), k in zip(self.exits, self.kind):
            if k:
                continue
            g = restrict(g, self.incond)
            at = atoms(g)
            inv = [a for a in at if not self.mine(a)]
            if inv and (len(inv) < len(at) or True):
                return inv[0]
        return None

    def count(self):
        return self.N if self.N is not None else mk("until", lam(self.t, OR(*[g for _, g in self.exits])))

    def solve(self):
        t = self.t
        todo = {mu: (i, assume(n, self.incond)) for mu, (i, n) in self.eqs.items()}
        while todo:
            progress = False
            for mu in list(todo):
                i, n = todo[mu]
                deps = {d for d in subterms_ids(n) if d.op == "mu" and d in todo}
                if deps - {mu}:
                    continue
                v = self.pattern(mu, i, n)
                if v is None and not deps:
                    # depends only on the iteration number: value assigned by the previous iteration
                    v = mk("prev", i, lam(t, n), t) if self.mine(n) else mk("prev", i, n, t)
                if v is None:
                    v = self.rec([mu], {mu: (i, n)})
                self.val[mu] = v
                del todo[mu]
                progress = True
                m = {mu: v}
                todo = {k: (a, subst(b, m)) for k, (a, b) in todo.items()}
            if not progress:
                # partial patterns first: locations whose own recurrence is recognised although
                # they feed on others
                mu = self.pick(todo)
                group = self.closure(mu, todo)
                vals = {}
                for g in group:
                    vals[g] = self.rec(self.order(g, todo), todo)
                self.val.update(vals)
                for g in group:
                    del todo[g]
                todo = {k: (a, subst(b, vals)) for k, (a, b) in todo.items()}
        # values may mention other locations solved later
        for _ in range(4):
            ch = False
            for mu, v in list(self.val.items()):
                w = subst(v, {k: x for k, x in self.val.items() if k is not mu})
                if w is not v:
                    self.val[mu] = w
                    ch = True
            if not ch:
                break
        self.exits = [(tg, self.s(g)) for tg, g in self.exits]
        if self.N is not None:
            self.incond = AND(*[NOT(g) for (tg, g), k in zip(self.exits, self.kind) if k])
        self.early = FALSE
        for (tg, g), k in zip(self.exits, self.kind):
            if not k:
                self.early = OR(self.early, restrict(g, self.incond) if self.N is not None else g)
        self.X = None
        if self.N is not None and self.early is not FALSE:
            self.X = mk_exists_t(self.N, t, self.early)

    def pick(self, todo):
        best = None
        for mu in todo:
            c = self.closure(mu, todo)
            if best is None or len(c) < best[0]:
                best = (len(c), mu)
        return best[1]

    def closure(self, mu, todo):
        seen = [mu]
        for m in seen:
            for d in sorted(x for x in subterms_ids(todo[m][1]) if x.op == "mu" and x in todo):
                if d not in seen:
                    seen.append(d)
        return seen

    def order(self, mu, todo):
        c = self.closure(mu, todo)
        rest = sorted(c[1:], key=lambda m: todo[m][0].id)
        return [mu] + rest

    def rec(self, group, todo):
        """canonical solution of mutually dependent recurrences, component 0, after t steps"""
        t = self.t
        if len(group) == 1:
            mu = group[0]
            init, n = todo[mu]
            inner = n.args[0] if n.op == "rec" else None
            ck = inner is not None and inner.op == "chunklen" and inner.args[1].op == "i" and inner.args[2] is t and not self.mine(inner.args[0])
            if inner is not None and (inner.op == "i" or ck) and n.args[1].args[1] is mu and len(n.args[1].args) == 2:
                # k inner steps per outer step: one loop when the inner body only depends on k*t + j
                k = inner.args[1] if ck else inner
                l = n.args[2]
                h = height(l.args[0])
                j = mk("tvar", "#flat", h)
                step = subst(l.args[0], {bv(h): lin("u64", 0, [(1, j), (-ival(k), t)])})
                if t not in subterms_ids(step) and not self.mine(step):
                    step = subst(step, {mk("recvar", h, 0): mk("tvar", "#rec", -1, 0)})
                    m = mul("u64", t, k)
                    if ck:
                        m = mm("min", inner.args[0], m)
                    return rec_rebuild(m, agg("s", init), lam(j, step, -1))
        nexts = agg("s", *[todo[m][1] for m in group])
        h = height(nexts)
        rv = {m: mk("recvar", h, i) for i, m in enumerate(group)}
        body = subst(nexts, {**rv, t: bv(h)})
        inits = agg("s", *[todo[m][0] for m in group])
        return rec_rebuild(t, inits, mk("lam", body))

    def pattern(self, mu, init, n):
        t = self.t
        if n is mu:
            return init
        # boolean flags
        if n.op == "ite" and any(x in (TRUE, FALSE) for x in leaves(n)) and mu in leaves(n):
            n = map_leaves(n, lambda x: atom_bool(mu) if x is mu else x)
        if n.op == "ite" and mu in atoms(n) or n in (TRUE, FALSE):
            if n in (TRUE, FALSE):
                return ite(eq(t, I(0)), as_bool(init), n)
            hi, lo = cofactor(n, mu, True), cofactor(n, mu, False)
            if mu not in subterms_ids(hi) and mu not in subterms_ids(lo):
                if hi is TRUE:
                    return OR(as_bool(init), mk_exists_t(t, t, lo))
                if lo is FALSE:
                    return AND(as_bool(init), NOT(mk_exists_t(t, t, NOT(hi))))
        # a value set to the same at some steps and kept at the others
        if n.op == "ite":
            other = {x for x in leaves(n) if x is not mu}
            if len(other) == 1 and mu in leaves(n):
                v = other.pop()
                if t not in subterms_ids(v) and not self.mine(v):
                    c = map_leaves(n, lambda x: FALSE if x is mu else TRUE)
                    if mu not in subterms_ids(c):
                        return ite(mk_exists_t(t, t, c), v, init)
        # a number put together from its bytes
        if n.op == "or" and len(n.args) == 2 and mu in n.args and init is I(0):
            b = n.args[0] if n.args[1] is mu else n.args[1]
            if b.op == "shl" and b.args[0] == "u64" and b.args[1].op == "sel" and b.args[1].args[1] is t and b.args[1].args[0] in tm.BYTES \
                    and b.args[2] in (lin("u64", 0, [(8, t)]), mk("rem", lin("u64", 0, [(8, t)]), I(64))):
                src = b.args[1].args[0]
                if t not in subterms_ids(src) and not self.mine(src):
                    whole = lebytes_int(copied(mk("fill", I(0), I(8)), t, src), "u64")
                    return ite(lt("u64", t, I(9)), whole, self.rec([mu], {mu: (init, n)}))
        # sums
        if n.op == "lin":
            ts = dict((x, k) for k, x in n.args[2])
            if ts.get(mu) == 1:
                rest = lin(n.args[0], n.args[1], [(k, x) for x, k in ts.items() if x is not mu])
                if mu not in subterms_ids(rest):
                    return add(n.args[0], init, mk_sum(n.args[0], t, t, rest))
        if n.op == "ite" and mu not in atoms(n) and all(x is mu or x.op == "lin" and (1, mu) in x.args[2] for x in leaves(n)):
            rest = map_leaves(n, lambda x: I(0) if x is mu else lin(x.args[0], x.args[1], [(k, y) for k, y in x.args[2] if y is not mu]))
            if mu not in subterms_ids(rest):
                return add("u64", init, mk_sum("u64", t, t, rest))
        # element-wise rewriting
        if n.op == "upd" and n.args[0] is mu:
            _, i, v = n.args
            if i is t:
                cell = sel(init, t)
                v2 = subst(v, {mk("sel", mu, t): mk("__cell")})
                if mu not in subterms_ids(v2):
                    v2 = subst(v2, {mk("__cell"): cell})
                    return mk_map(init, t, t, v2)
            if mu not in subterms_ids(i):
                if v.op == "or":
                    own = mk("sel", mu, i)
                    if own in v.args:
                        rest = [x for x in v.args if x is not own]
                        val = rest[0] if len(rest) == 1 else mk("or", *rest)
                        if mu not in subterms_ids(val):
                            return mk("scatter", init, t, lam(t, agg("s", i, val)))
        if n.op == "scatter" and n.args[0] is mu and mu not in subterms_ids(n.args[1]) and mu not in subterms_ids(n.args[2]):
            return self.flatscatter(init, n.args[1], n.args[2])
        if n.op == "push" and n.args[0] is mu and mu not in subterms_ids(n.args[1]):
            if init is EMPTY:
                return mk_build(t, t, n.args[1])
            return concat(init, mk_build(t, t, n.args[1]))
        if n.op == "concat" and n.args[0] is mu and not any(mu in subterms_ids(x) for x in n.args[1:]):
            r = n.args[1] if len(n.args) == 2 else mk("concat", *n.args[1:])
            return concat(init, mk("flatbuild", t, lam(t, r)))
        return None

    def flatscatter(self, init, m, l):
        """one scatter per step: one scatter over all when the steps are those of consecutive chunks"""
        t = self.t
        ck = m.op == "chunklen" and m.args[2] is t and not self.mine(m.args[0])
        k = m.args[1] if ck else m
        if k.op != "i" or not ival(k):
            return None
        j = mk("tvar", "#flat", l.id)
        b = instantiate(l, lin("u64", 0, [(1, j), (-ival(k), t)]))
        if t in subterms_ids(b) or self.mine(b):
            return None
        n = mul("u64", t, k)
        if ck:
            n = mm("min", m.args[0], n)
        return scatter_rebuild(init, n, lam(j, b))

    def inside(self, x):
        """a term of the loop body, as a function of the iteration number"""
        y = self.s(x)
        if self.incond is not TRUE:
            y = assume(y, self.incond)
        if self.assumed is not TRUE:
            y = assume(y, self.assumed)
        return y

    def exit(self, k):
        tg, g = self.exits[k]
        t = self.t
        if self.N is None:
            n = self.count()
            m = {**self.val}
            E = OR(*[q for _, q in self.exits])
            gk = subst(restrict(g, E), {t: n})
            return gk, lambda v: subst(subst(v, m), {t: n})
        if self.kind[k]:
            others = [q for i, (_, q) in enumerate(self.exits) if self.kind[i] and i != k]
            gk = TRUE
            if others:
                tot = OR(g, *others)
                gk = subst(restrict(g, tot), {t: self.N})
            if self.X is not None:
                gk = AND(gk, NOT(self.X))
            n = self.N

            def f(v):
                y = subst(assume(subst(v, self.val), self.exits[k][1]), {t: n})
                if self.X is not None:
                    y = under_not_exists(y, self.X)
                return y
            return gk, f
        w = mk("first", self.N, lam(t, self.early))
        early = [i for i, kk in enumerate(self.kind) if not kk]
        g2 = restrict(g, self.incond)
        if len(early) > 1:
            gk = AND(self.X, subst(restrict(g2, self.early), {t: w}))
        else:
            gk = self.X

        def f(v):
            return subst(assume(subst(v, self.val), g), {t: w})
        return gk, f


def is_pop(n, mu):
    ln = mk("len", mu)
    p = mk("subseq", mu, I(0), lin("u64", -1, [(1, ln)]))
    return n is p or n is ite(eq(ln, I(0)), mu, p)


def under_not_exists(y, X):
    lits = literals(NOT(X))
    for a, v in lits:
        y = cofactor(y, a, v)
    return y


def ssub(p, q):
    if q is I(0):
        return p
    if p.op == "i" and q.op == "i":
        return I(max(0, ival(p) - ival(q)))
    if p is q:
        return I(0)
    if p.op == "lin" and q.op != "i":
        d = lin("u64", 0, [(1, p), (-1, q)])
        if d.op != "lin":
            return d
        if all(k > 0 for k, _ in d.args[2]) and d.args[1] >= 0:
            return d
    return mk("ssub", p, q)


tm.LIFTED["ssub"] = lambda p, q: lift(ssub, p, q)


def lin_in(x, t):
    """x = k*t + rest"""
    if x is t:
        return 1, I(0)
    if x.op == "lin":
        for k, y in x.args[2]:
            if y is t:
                return k, lin(x.args[0], x.args[1], [(a, b) for a, b in x.args[2] if b is not t])
    return None


def mk_sum(ty, n, t, body):
    if t not in subterms_ids(body):
        return mul(ty, body, n)
    if body.op == "lin" and body.args[0] == ty:
        # sums distribute over linear bodies
        acc = mul(ty, I(wrap(body.args[1], ty)), n)
        for k, x in body.args[2]:
            acc = add(ty, acc, mul(ty, I(wrap(k, ty)), mk_sum(ty, n, t, x)))
        return acc
    if body.op == "sum" and body.args[0] == ty:
        r = unchunk(n, t, *body.args[1:])
        if r is not None:
            return sum_rebuild(ty, *r)
    return mk("sum", ty, n, lam(t, body))


def sum_rebuild(ty, n, l):
    if n.op == "i" and ival(n) == 0:
        return I(0)
    t = mk("tvar", "#sum", l.id)
    return mk_sum(ty, n, t, instantiate(l, t))


tm.LIFTED["sum"] = sum_rebuild


def mk_exists_t(n, t, body):
    if body is FALSE:
        return FALSE
    body = strip_evolving(body, t)
    l = lam(t, body)
    return mk_exists(n, l)


def strip_evolving(body, t):
    """some visited bit was clear in the growing set iff some visited bit was clear at the start"""
    if body.op == "ite" and body.args[1] is FALSE and body.args[2] is TRUE and body.args[0].op == "bit":
        w, k = body.args[0].args
        if w.op == "sel" and w.args[0].op == "scatter":
            sc = w.args[0]
            s0, n, l = sc.args
            if n is t:
                inst = instantiate(l, t)
                if inst.args[1] is w.args[1] and inst.args[2] is bitmask(k):
                    return NOT(bit(sel(s0, w.args[1]), k))
    return body


def mk_map(init, n, t, body):
    if body is sel(init, t):
        return init
    # plain copy of another sequence
    if body.op == "sel" and body.args[1] is t and t not in subterms_ids(body.args[0]) and init is not body.args[0]:
        return copied(init, n, body.args[0])
    return mk_map_raw(init, n, lam(t, body))


def mk_map_raw(init, n, l):
    if n.op == "i" and ival(n) == 0:
        return init
    body = l.args[0]
    h = height(body)
    v = bv(h)
    full = n is seq_len(init)
    if full and v not in subterms_ids(body):
        return fill(body, n)
    if full:
        return mk_build_raw(n, l)
    return mk("map", init, n, l)


tm.LIFTED["map"] = mk_map_raw


def copied(init, n, src):
    if n.op == "i" and ival(n) == 0:
        return init
    if n is seq_len(src):
        if n is seq_len(init):
            return src
        return splice(init, I(0), n, src)
    if n is seq_len(init):
        return subseq(src, I(0), n)
    if n is mm("min", seq_len(init), seq_len(src)):
        # the part that fits
        return mk("splice", init, I(0), src)
    return mk("copied", init, n, src)


tm.LIFTED["copied"] = copied


def any_sub(t, s):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x is s:
            return True
        if x in seen:
            continue
        seen.add(x)
        for a in x.args:
            _push(a, st)
    return False


def _push(a, st):
    if isinstance(a, T):
        st.append(a)
    elif isinstance(a, tuple):
        for x in a:
            _push(x, st)


def mk_build(n, t, body):
    return mk("build", n, lam(t, body))


def mk_build_raw(n, l):
    if n.op == "i" and ival(n) == 0:
        return EMPTY
    body = l.args[0]
    h = height(body)
    v = bv(h)
    if v not in subterms_ids(body):
        return fill(body, n)
    if body.op == "sel" and body.args[1] is v and v not in subterms_ids(body.args[0]) and n is seq_len(body.args[0]):
        return body.args[0]
    return mk("build", n, l)


tm.LIFTED["build"] = mk_build_raw


def rec_rebuild(t, inits, l):
    if t.op == "i" and ival(t) == 0:
        return inits.args[1]
    if len(inits.args) == 2:
        a = inits.args[1]
        if a.op == "rec" and len(a.args[1].args) == 2 and height(a.args[2]) == height(l):
            # consecutive loops with the same step over adjacent index ranges
            m = a.args[0]
            h = height(l.args[0])
            j = mk("tvar", "#flat", h)
            b1 = subst(a.args[2].args[0], {bv(h): j})
            b2 = subst(l.args[0], {bv(h): lin("u64", 0, [(1, j), (-1, m)])})
            if b1 is b2:
                return mk("rec", add("u64", m, t), a.args[1], l if bv(h) not in subterms_ids(l.args[0]) else a.args[2])
    return mk("rec", t, inits, l)


tm.LIFTED["rec"] = rec_rebuild


def prev_rebuild(i, n, t):
    if t.op == "i" and ival(t) == 0:
        return i
    return mk("prev", i, n, t)


tm.LIFTED["prev"] = prev_rebuild


def scatter_rebuild(s, n, l):
    if n.op == "i" and ival(n) == 0:
        return s
    x = mk("tvar", "#scatter", l.id)
    i, v = instantiate(l, x).args[1:] if l.args[0].op == "agg" else (None, None)
    if i is x:
        # every element once
        return mk_map(s, n, x, bits_or(sel(s, x), v))
    return mk("scatter", s, n, l)


tm.LIFTED["scatter"] = scatter_rebuild
