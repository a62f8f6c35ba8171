"""Loader of the compiler dump and control-flow structure of function bodies."""
import json
import os
import re


class Body:
    def __init__(self, fn, b):
        self.fn = fn
        self.nargs = b["nargs"]
        self.spread = b.get("spread")
        self.locals = b["locals"]
        self.names = b.get("names", [])
        self.blocks = b["blocks"]
        self._cfg()

    def _cfg(self):
        n = len(self.blocks)
        self.succ = [term_succ(bl[1]) for bl in self.blocks]
        order = []
        seen = set()
        stack = [(0, iter(self.succ[0]))]
        seen.add(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.succ[s])))
                    break
            else:
                order.append(b)
                stack.pop()
        order.reverse()
        self.rpo = order
        num = {b: i for i, b in enumerate(order)}
        self.num = num
        preds = {b: [] for b in order}
        for b in order:
            for s in self.succ[b]:
                preds[s].append(b)
        self.preds = preds
        # dominators (Cooper, Harvey, Kennedy)
        idom = {0: 0}
        changed = True
        while changed:
            changed = False
            for b in order[1:]:
                new = None
                for p in preds[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while num[x] > num[y]:
                                    x = idom[x]
                                while num[y] > num[x]:
                                    y = idom[y]
                            new = x
                if new is not None and idom.get(b) != new:
                    idom[b] = new
                    changed = True
        self.idom = idom

        def dominates(a, b):
            while True:
                if a == b:
                    return True
                if b == 0:
                    return False
                b = idom[b]
        self.loops = {}
        for b in order:
            for s in self.succ[b]:
                if dominates(s, b):
                    body = self.loops.setdefault(s, {s})
                    work = [b]
                    while work:
                        x = work.pop()
                        if x not in body:
                            body.add(x)
                            work.extend(preds[x])
        # blocks from which the function cannot return
        live = set()
        work = [b for b in order if self.blocks[b][1][0] == "ret" or is_exit(self.fn.prog, self.blocks[b][1])]
        while work:
            x = work.pop()
            if x in live:
                continue
            live.add(x)
            work.extend(preds[x])
        self.doomed = set(order) - live


def is_exit(prog, t):
    if t[0] == "call" and t[4] is None:
        c = t[1]
        name = c[1] if c[0] == "fn" else ""
        return "process::exit" in str(name)
    return False


def term_succ(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        out = []
        for _, b in t[2]:
            if b not in out:
                out.append(b)
        if t[3] not in out:
            out.append(t[3])
        return out
    if k == "drop":
        return [t[2]]
    if k == "call":
        return [] if t[4] is None else [t[4]]
    if k == "assert":
        return [t[4]]
    return []


class Fn:
    def __init__(self, prog, d):
        self.prog = prog
        self.id = d["id"]
        self.name = d["name"]
        self.path = d["path"]
        self.krate = d["krate"]
        self.kind = d["kind"]
        self.intrinsic = d.get("intrinsic")
        self.args = d.get("args", [])
        self.span = d.get("span")
        self._b = d.get("body")
        self.ctor = ("s" if d["ctor"] is None else d["ctor"]) if "ctor" in d else None
        self._body = None
        self.short = short(self.path)

    @property
    def body(self):
        if self._body is None and self._b is not None:
            self._body = Body(self, self._b)
        return self._body

    @property
    def has_body(self):
        return self._b is not None

    def where(self):
        return self.prog.where(self.span)


class Program:
    def __init__(self, path):
        with open(path) as f:
            d = json.load(f)
        self.path = path
        self.crate = d["crate"]
        self.types = d["types"]
        self.files = d["files"]
        self.fns = {x["id"]: Fn(self, x) for x in d["fns"]}
        self.next = {t: i for t, i in d["next"]}
        self.roots = d["roots"]
        self.statics = d["statics"]
        self.unsafe = d["unsafe"]
        self.by_path = {}
        for f in self.fns.values():
            self.by_path.setdefault(f.path, []).append(f)

    def where(self, span):
        if not span:
            return "?"
        f = self.files[span[0]]
        f = os.path.normpath(f)
        if f.startswith("/repo/"):
            f = f[len("/repo/"):]
        return "%s:%d" % (f, span[1])

    def root(self, name):
        for r in self.roots:
            f = self.fns[r]
            if f.path == name or f.path.split("::")[-1] == name:
                return f
        return None

    def find(self, suffix):
        return [f for f in self.fns.values() if f.path.endswith(suffix)]

    # ---- types ---------------------------------------------------------
    def ty(self, i):
        return self.types[i]

    def tyname(self, i):
        t = self.types[i]
        k = t["k"]
        if k in ("int", "float"):
            return t["n"]
        if k in ("bool", "char", "str"):
            return k
        return k

    def describe(self, i):
        t = self.types[i]
        k = t["k"]
        if k in ("int", "float"):
            return t["n"]
        if k == "adt":
            return t["name"].split("::")[-1] + ("<%s>" % ", ".join(self.describe(a) if isinstance(a, int) else str(a[1]) for a in t["args"]) if t.get("args") else "")
        if k in ("ref", "ptr"):
            return ("&mut " if t.get("mut") else "&") + self.describe(t["t"])
        if k == "slice":
            return "[%s]" % self.describe(t["t"])
        if k == "array":
            return "[%s; %s]" % (self.describe(t["t"]), t["len"])
        if k == "tuple":
            return "(%s)" % ", ".join(self.describe(x) for x in t["ts"])
        return k


_seg = re.compile(r"[A-Za-z_][A-Za-z_0-9]*")


def strip_generics(s):
    out = []
    d = 0
    i = 0
    while i < len(s):
        c = s[i]
        if c == "<":
            d += 1
        elif c == ">" and (i == 0 or s[i - 1] != "-"):
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    r = "".join(out)
    while "::::" in r:
        r = r.replace("::::", "::")
    return r.strip(":")


def type_head(s):
    s = s.strip()
    while s.startswith("&"):
        s = s[1:].strip()
        if s.startswith("'"):
            s = s.split(" ", 1)[1]
        if s.startswith("mut "):
            s = s[4:]
    if s.startswith("["):
        return "array" if ";" in s else "slice"
    if s.startswith("dyn "):
        return s
    s = strip_generics(s)
    return s.split("::")[-1]


def split_as(inner):
    d = 0
    i = 0
    while i < len(inner):
        c = inner[i]
        if c == "<":
            d += 1
        elif c == ">" and inner[i - 1] != "-":
            d -= 1
        elif d == 0 and inner.startswith(" as ", i):
            return inner[:i], inner[i + 4:]
        i += 1
    return inner, None


def short(path):
    """'Vec.len', 'slice.iter', 'f64.abs', 'vec::from_elem', 'ref.as_ref@AsRef' ..."""
    if path.startswith("<"):
        d = 0
        for i, c in enumerate(path):
            if c == "<":
                d += 1
            elif c == ">" and path[i - 1] != "-":
                d -= 1
                if d == 0:
                    break
        inner, rest = path[1:i], path[i + 1:].lstrip(":")
        t, tr = split_as(inner)
        h = type_head(t)
        if t.strip().startswith("&"):
            h = "&" + h
        return "%s.%s" % (h, rest.split("::")[-1])
    m = re.search(r"<impl (.*)>::([A-Za-z_0-9]+)$", path)
    if m:
        inner = m.group(1)
        if " for " in inner:
            inner = inner.split(" for ", 1)[1]
        return "%s.%s" % (type_head(inner), m.group(2))
    p = strip_generics(path)
    segs = p.split("::")
    if len(segs) >= 2 and segs[-2][:1].isupper():
        return "%s.%s" % (segs[-2], segs[-1])
    return "::".join(segs[-2:])
