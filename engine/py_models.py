"""Value-flow summaries of what the Python binding layer (pyo3) does around a method: it takes
the arguments out of the call by position and turns the result into a Python object.
Arguments of a wrong type or number never reach the method and are not considered."""
from .terms import *
from .flow import *
from .models import model, ok, err, some, NONE, option, contents
from .inputs import symval


def filled(c, i):
    """the parser of the arguments stores the i-th one"""
    d = c.load(0)
    n = c.e.slice_len(c.st, c.a[i])
    if n.op != "i":
        return NotImplemented
    need = field(d, "s", 4)
    need = ival(need) if need.op == "i" else 0
    v = [some(mk("pyarg", k)) if k < need else ite(as_bool(mk("pygiven", k)), some(mk("pyarg", k)), NONE) for k in range(ival(n))]
    c.st.put(c.a[i], mk("arr", *v) if v else EMPTY)
    return ok(agg("s", UNIT, UNIT))


@model("FunctionDescription.extract_arguments_fastcall")
def m_fastcall(c):
    return filled(c, 5)


@model("FunctionDescription.extract_arguments_tuple_dict")
def m_tuple_dict(c):
    return filled(c, 4)


@model("extract_argument::unwrap_required_argument")
def m_required(c):
    return field(c.a[0], 1, 0)


def the(c, v):
    while v.op == "ref":
        v = c.st.load(v)
    return v


def argument(c, ty, v):
    """the value of a Python argument as the method's parameter"""
    if v.op != "pyarg":
        return None
    k = v.args[0]
    nm = "arg%d" % k
    t = c.P.ty(ty)
    if t["k"] == "ref":
        inner = c.P.ty(t["t"])
        given = getattr(c.e, "pyobj", lambda *a: None)(c.P, t["t"], "o")
        c.st.mem["A:" + nm] = given if given is not None else sym(nm, "seq") if inner["k"] in ("slice", "str") else symval(c.P, t["t"], nm)
        return ref("A:" + nm)
    return symval(c.P, ty, nm)


@model("extract_argument::extract_argument", "extract_argument::extract_pyclass_ref", "extract_argument::extract_pyclass_ref_mut")
def m_extract(c):
    v = the(c, c.a[0])
    t = c.P.ty(c.P.ty(c.dty)["variants"][0][2][0][1])
    ty = c.P.ty(c.dty)["variants"][0][2][0][1]
    if v.op == "pyself":
        given = getattr(c.e, "pyobj", lambda *a: None)(c.P, t["t"], "b")
        if given is None:
            return NotImplemented
        if "A:self" not in c.st.mem:
            c.st.mem["A:self"] = given
        return ok(ref("A:self"))
    a = argument(c, ty, v)
    return NotImplemented if a is None else ok(a)


@model("extract_argument::extract_argument_with_default", "extract_argument::extract_optional_argument")
def m_extract_default(c):
    return NotImplemented


@model("Python.from_borrowed_ptr", "Python.from_borrowed_ptr_or_panic")
def m_borrowed(c):
    b = "A:pyself"
    c.st.mem[b] = mk("pyself")
    return ref(b)


@model("Result.wrap", "T.wrap", "~OkWrap.wrap", "callback::convert", "Result.convert", "~IntoPyCallbackOutput.convert", "PyClassInitializer.create_cell_from_subtype")
def m_wrapped(c):
    """conversion of a result into a Python object: errors stay errors"""
    v = c.a[-1] if c.fn.short == "callback::convert" else c.a[0]
    if c.fn.short == "callback::convert":
        ty = c.tys[-1]
    else:
        ty = c.tys[0]
    t = c.P.ty(ty)
    if t["k"] == "adt" and t["name"].split("::")[-1] == "Result":
        return v
    return ok(v)


@model("Py.into_ptr", "~IntoPy.into_py", "Py.new", "PyClassInitializer.from")
def m_same(c):
    return c.a[0]


@model("PyBytes.new")
def m_pybytes(c):
    return mk("pybytes", contents(the(c, c.a[1])))
