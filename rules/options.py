"""The options of the command line program: how they are declared and where their values go."""
from .base import *
from . import cli
from .inspect import const_text

# options of the program and of each command: (field, long name, short name, default, kind)
VALUE, FLAG, ONE, MAYBE, MANY = "value", "flag", "positional", "optional positional", "positionals"
DOCUMENTED = {
    None: [("verbose", "verbose", "v", None, FLAG), ("jobs", "jobs", "j", 2, VALUE)],
    "Create": [("version", "version", None, 2, VALUE), ("capacity", "capacity", "c", 10000, VALUE), ("probability", "probability", "p", 0.01, VALUE),
               ("optimize", "opt-lvl", "O", 0, VALUE), ("file", None, None, None, ONE), ("dataset", None, None, None, MANY)],
    "Insert": [("stdin", "stdin", None, None, FLAG), ("file", None, None, None, ONE), ("inputs", None, None, None, MANY)],
    "Check": [("stdin", "stdin", None, None, FLAG), ("silent", "silent", None, None, FLAG), ("verify", "verify", None, None, FLAG),
              ("file", None, None, None, ONE), ("inputs", None, None, None, MANY)],
    "Bench": [("size_mb", "size-mb", "s", 100, VALUE), ("test_size", "test-size", None, None, VALUE), ("runs", "runs", "r", 50, VALUE),
              ("fp_tol", "fp-tol", "f", 0.2, VALUE), ("version", "version", "v", 2, VALUE), ("fpp", "fpp", None, 0.001, VALUE),
              ("opt", "opt", "O", 0, VALUE), ("file", None, None, None, MAYBE)],
    "Show": [("file", None, None, None, ONE)],
}
# settings that do not decide which value an option gets
PLAIN = {"new", "value_name", "value_names", "help", "long_help", "required", "value_parser", "action", "long", "short", "default_value", "num_args", "display_order",
         "next_line_help", "hide", "hide_default_value", "hide_possible_values", "alias", "aliases", "visible_alias", "visible_aliases", "value_hint", "help_heading", "id",
         "hide_short_help", "hide_long_help", "short_alias", "visible_short_alias"}
LAYOUT = {"new", "group", "about", "long_about", "author", "version", "long_version", "name", "bin_name", "display_name", "subcommand_required", "arg_required_else_help",
          "before_help", "after_help", "before_long_help", "after_long_help", "help_template", "next_help_heading", "next_line_help", "term_width", "max_term_width",
          "color", "styles", "propagate_version", "disable_colored_help", "subcommand_value_name", "subcommand_help_heading", "flatten_help", "display_order", "hide",
          "alias", "aliases", "visible_alias", "visible_aliases", "override_usage", "override_help"}
SET, APPEND, TRUEFLAG = 0, 1, 2


def steps(t, owner):
    """(method, arguments) of a chain of builder calls, innermost first"""
    out = []
    while t.op == "app" and isinstance(t.args[0], str) and t.args[0].split("::")[-2:-1] == [owner]:
        m = t.args[0].split("::")[-1]
        args = [x for x in t.args[1:] if not (isinstance(x, T) and x.op == "at")]
        out.append((m, args if m == "new" else args[1:]))
        if m == "new":
            return out[::-1]
        t = args[0]
    return None


class Cmd:
    def __init__(self, name):
        self.name, self.args, self.subs, self.odd = name, [], {}, []


def declared(t):
    """the command a builder expression declares"""
    ch = steps(t, "Command")
    if ch is None:
        raise Missing("the declaration of the options is not understood: %s" % short_term(t))
    c = Cmd(const_text(ch[0][1][0]))
    for m, a in ch[1:]:
        if m == "arg":
            c.args.append(Opt(a[0]))
        elif m == "args":
            c.odd.append(m)
        elif m == "subcommand":
            s = declared(a[0])
            c.subs[s.name.decode()] = s
        elif m == "group":
            g = steps(a[0], "ArgGroup")
            if g is None or dict((k, v) for k, v in g).get("multiple") != [TRUE] or any(k not in ("new", "multiple", "args", "id", "arg") for k, _ in g):
                c.odd.append("a group of options that exclude each other")
        elif m not in LAYOUT:
            c.odd.append(m)
    return c


class Opt:
    """one declared option"""

    def __init__(self, t):
        ch = steps(t, "Arg")
        if ch is None:
            raise Missing("the declaration of an option is not understood: %s" % short_term(t))
        self.id = const_text(ch[0][1][0])
        self.long = self.short = self.default = self.action = self.parser = self.required = None
        self.odd = []
        for m, a in ch:
            v = a[0] if a else None
            if m == "long":
                self.long = (const_text(v) or b"?").decode()
            elif m == "short":
                self.short = chr(ival(v)) if v.op == "i" else "?"
            elif m == "default_value":
                self.default = v
            elif m == "action":
                self.action = v
            elif m == "required":
                self.required = v
            elif m == "value_parser":
                self.parser = v
            elif m not in PLAIN:
                self.odd.append(m)


def number(v):
    """a default value as a number, None when it is not known"""
    t = const_text(v)
    if t is not None:
        try:
            return float(t)
        except ValueError:
            return None
    if v.op in ("tostring", "ref"):
        x = v.args[0]
        if isinstance(x, T) and x.op == "cbase":
            return number(x.args[0])
        if isinstance(x, T) and x.op == "i":
            return float(ival(x))
        if isinstance(x, T) and x.op == "f":
            return fval(x)
    return None


def summary(c, path):
    a = c.cli
    f = [x for x in a.P.fns.values() if x.path == path and x.has_body]
    if len(f) != 1:
        raise Missing("%s: %d functions" % (path, len(f)))
    k = ("fn", path)
    if k not in a.sums:
        s = summarise(a.P, f[0])
        a.sums[k] = s
        a.fns.update(s.analysed)
        a.calls += s.ncalls
    return a.sums[k]


def owner(c):
    """the type holding the parsed command line"""
    cli.command(c, "Show")
    return c.cli.argsty


def tree(c):
    a = c.cli
    if "tree" not in a.__dict__:
        ty = a.P.ty(owner(c))
        a.tree = declared(summary(c, "<%s as clap::CommandFactory>::command" % ty["name"]).ret)
    return a.tree


def taken(c, v):
    """identifier of the option a field is filled from, with how"""
    def name(x):
        return const_text(x.args[2]) if x.op == "app" and len(x.args) > 2 else None
    if v.op == "ite" and v.args[1:] == (TRUE, FALSE):
        v = v.args[0]
    if v.op == "fld" and v.args[1:] == (1, 0) and v.args[0].op == "app" and v.args[0].args[0].endswith("ArgMatches::remove_one"):
        return name(v.args[0]), "one"
    if v.op == "app" and v.args[0].endswith("ArgMatches::remove_one"):
        return name(v), "option"
    if v.op == "ite" and v.args[1] is EMPTY and v.args[2].op == "values":
        x = v.args[2].args[0]
        if x.op == "fld" and x.args[1:] == (1, 0) and x.args[0].op == "app" and x.args[0].args[0].endswith("ArgMatches::remove_many") \
                and atom_bool(v.args[0]) is eq(mk("discr", x.args[0], 2), I(0)):
            return name(x.args[0]), "many"
    return None, None


def filled(c, which):
    """field -> (option identifier, how) of the program's options (None) or a command's"""
    a = c.cli
    P = a.P
    ty = owner(c)
    t = P.ty(ty)
    if which is not None:
        for _, ft in t["variants"][0][2]:
            q = P.ty(ft)
            if q["k"] == "adt" and q["kind"] == "Enum":
                ks = [v for v in q["variants"] if v[0] == which]
                if ks:
                    t = P.ty(ks[0][2][0][1])
    s = summary(c, "<%s as clap::FromArgMatches>::from_arg_matches_mut" % t["name"])
    vals = [x.args[1] for x in leaves(s.ret) if x.op == "agg" and x.args[0] == 0]
    out = {}
    for i, (n, _) in enumerate(t["variants"][0][2]):
        got = {taken(c, field(v, "s", i)) for v in vals}
        out[n] = got.pop() if len(got) == 1 else (None, None)
    return out


def field_of(c, which, name):
    """field of the option another field name used to stand for"""
    try:
        top = tree(c)
        sub = top.subs.get(which.lower())
        want = next(x for x in DOCUMENTED[which] if x[0] == name)
        args = [o for o in sub.args if o.long == want[1]]
        if want[1] is None or len(args) != 1:
            return None
        return next((f for f, (i, _) in filled(c, which).items() if i == args[0].id), None)
    except (Missing, StopIteration, AttributeError):
        return None


@rule("C42")
def options(c):
    a = c.cli
    P = a.P
    top = tree(c)
    n = 0
    for which, opts in DOCUMENTED.items():
        tag = which.lower() if which else "poppy"
        cmd = top if which is None else top.subs.get(tag)
        c.ob("%s is a command" % tag, cmd is not None, "?", "commands: %s" % ", ".join(top.subs))
        if cmd is None:
            continue
        fields = filled(c, which)
        st = P.ty(owner(c))["name"] if which is None else which
        where = "options of %s (%s)" % (tag, st)
        c.ob("%s: nothing changes how its options are read" % tag, not cmd.odd, where, ", ".join(cmd.odd))
        places = [o for o in cmd.args if o.long is None and o.short is None]
        pos = [o[0] for o in opts if o[1] is None]
        for name, long, short, default, kind in opts:
            n += 1
            what = "%s %s" % (tag, "--" + long if long else name)
            o = [x for x in cmd.args if x.long == long] if long else places[pos.index(name):][:1]
            if not c.ob("%s exists" % what, len(o) == 1, where, "%d declared" % len(o)):
                continue
            o = o[0]
            at = "option %s of %s" % (o.id.decode(), tag)
            c.ob("%s has the documented short name" % what, o.short == short, at, "declared: %s, documented: %s" % (o.short, short))
            f = name if name in fields else next((k for k, v in fields.items() if v[0] == o.id), None)
            how = {VALUE: "option" if default is None else "one", FLAG: "one", ONE: "one", MAYBE: "option", MANY: "many"}[kind]
            src = fields.get(f, (None, None))
            c.ob("%s is the value the command uses" % what, src == (o.id, how), at, "field %s is filled from %s" % (f, src))
            if default is None:
                c.ob("%s has no default" % what, o.default is None, at, "" if o.default is None else short_term(o.default))
            else:
                c.ob("%s defaults to %s" % (what, default), o.default is not None and number(o.default) == float(default), at,
                     "no default" if o.default is None else "default: %s" % (number(o.default) if number(o.default) is not None else short_term(o.default)))
            act = {FLAG: TRUEFLAG, MANY: APPEND}.get(kind, SET)
            c.ob("%s takes %s" % (what, {FLAG: "no value", MANY: "any number of values"}.get(kind, "one value")),
                 o.action is not None and o.action.op == "agg" and o.action.args[0] == act, at, "" if o.action is None else short_term(o.action))
            c.ob("%s is read as its type says" % what, o.parser is not None and mentions_name(o.parser, "_infer_ValueParser_for"), at, "" if o.parser is None else short_term(o.parser))
            c.ob("nothing else decides the value of %s" % what, not o.odd, at, ", ".join(o.odd))
            if kind == ONE:
                must = o.required is not None and (o.required is TRUE or o.required.op == "app" and o.required.args[0].endswith("takes_values")
                                                   or o.required.op == "ite" and o.required.args[0].op == "app" and o.required.args[0].args[0].endswith("takes_values"))
                c.ob("%s must be given" % what, must, at, "" if o.required is None else short_term(o.required))
    dispatch(c, top)
    c.floor("options", n, 25)


def mentions_name(t, s):
    return any(x.op == "app" and isinstance(x.args[0], str) and s in x.args[0] for x in subterms(t))


def dispatch(c, top):
    """the name of a command starts that command"""
    P = c.cli.P
    t = P.ty(owner(c))
    for i, (_, ft) in enumerate(t["variants"][0][2]):
        q = P.ty(ft)
        if q["k"] == "adt" and q["kind"] == "Enum":
            break
    else:
        raise Missing("no commands")
    s = summary(c, "<%s as clap::FromArgMatches>::from_arg_matches_mut" % q["name"])
    names = {}
    for a in atoms(s.ret):
        if a.op == "eq":
            k = [const_text(x) for x in a.args if isinstance(x, T)]
            k = [x for x in k if x]
            if len(k) == 1:
                names[a] = k[0].decode()
    for k, v in enumerate(q["variants"]):
        me = v[0].lower()
        t = s.ret
        for a, nm in names.items():
            t = cofactor(t, a, nm == me)
        got = {x.args[1].args[0] if x.args[1].op == "agg" else "?" for x in leaves(t) if x.op == "agg" and x.args[0] == 0}
        c.ob("%s runs the command of that name" % me, got == {k} and me in top.subs, "%s (%s)" % (s.fn.where(), s.fn.path), "runs %s" % sorted(map(str, got)))
