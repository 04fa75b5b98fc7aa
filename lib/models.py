"""Models of the standard-library (and a few third-party) functions the analysed code calls.
A model is `m(interp, args, state, body, terminator, dest_type) -> [(value, state)]` or None for "not modelled"."""
import re
import absint as A
from absint import (ANY, UNIT, TRUE, FALSE, num, add, sub, scale, mul, neg, c_and, c_or, c_le, c_lt, c_eq0, State,
                    length, elem_simple, mk_slice, sem, seq_len, seq_elem_simple, base_ty)

MODELS = {}
OPT, RES, CF = "std::option::Option", "std::result::Result", "std::ops::ControlFlow"
UNROLL = 8


def model(*names):
    def f(g):
        for n in names:
            MODELS[n] = g
        return g
    return f


def some(x):
    return ("E", OPT, "Some", (x,))


NONE = ("E", OPT, "None", ())


def ok(x):
    return ("E", RES, "Ok", (x,))


def err(x=ANY):
    return ("E", RES, "Err", (x,))


def split(I, st, v, variants):
    """[(variant, payload-getter, state)] for an enum value"""
    v = I.deref(st, v)
    if v[0] == "E":
        return [(v[2], v, st)]
    if v[0] == "any":
        return [(n, v, st.copy()) for n in variants]
    cur = I.variant_of(st.facts, v)
    if cur:
        return [(cur, v, st)]
    out = []
    for n in variants:
        if n in st.facts.get(("nv", v), ()):
            continue
        for f in I.assume(st.facts, ("isv", v, n)):
            out.append((n, v, State(dict(st.store), f)))
    return out


def payload(I, st, v, variant):
    return I.field(st, v, variant, 0)


def bools(I, st, c):
    """split a condition into [(bool, state)]"""
    c = I.deref(st, c)
    r = I.cond_value(st.facts, c)
    if r is not None:
        return [(r, st)]
    return [(True, State(dict(st.store), f)) for f in I.assume(st.facts, c, True)] + \
           [(False, State(dict(st.store), f)) for f in I.assume(st.facts, c, False)]


# ------------------------------------------------------------------ ? and conversions
@model("Try::branch")
def _(I, a, st, body, t, dty):
    v = I.deref(st, a[0])
    isopt = "Option" in body.locals[t["args"][0].get("mv", t["args"][0].get("cp", {"l": 0}))["l"]].split("<")[0]
    names = ["None", "Some"] if isopt else ["Ok", "Err"]
    out = []
    for n, x, s in split(I, st, v, names):
        if n in ("Some", "Ok"):
            out.append((("E", CF, "Continue", (payload(I, s, x, n),)), s))
        elif n == "Err":
            out.append((("E", CF, "Break", (err(payload(I, s, x, n)),)), s))
        else:
            out.append((("E", CF, "Break", (NONE,)), s))
    return out


@model("FromResidual::from_residual")
def _(I, a, st, body, t, dty):
    v = I.deref(st, a[0])
    if base_ty(dty) == OPT:
        return [(NONE, st)]
    if v[0] == "E" and v[2] == "Err":
        return [(v, st)]
    return [(err(), st)]


@model("Option::ok_or", "Option::ok_or_else")
def _(I, a, st, body, t, dty):
    out = []
    for n, x, s in split(I, st, a[0], ["None", "Some"]):
        if n == "Some":
            out.append((ok(payload(I, s, x, n)), s))
        else:
            if len(a) > 1 and I.deref(s, a[1])[0] == "C":
                I.closure_call(a[1], [], s.copy(), body, t, "error")   # only for its own panic sites
            out.append((err(), s))
    return out


@model("Result::map_err")
def _(I, a, st, body, t, dty):
    out = []
    for n, x, s in split(I, st, a[0], ["Ok", "Err"]):
        out.append((ok(payload(I, s, x, n)) if n == "Ok" else err(), s))
    return out


@model("Result::ok")
def _(I, a, st, body, t, dty):
    return [((some(payload(I, s, x, n)) if n == "Ok" else NONE), s) for n, x, s in split(I, st, a[0], ["Ok", "Err"])]


@model("Result::is_ok", "Result::is_err", "Option::is_some", "Option::is_none")
def _(I, a, st, body, t, dty):
    v = I.deref(st, a[0])
    nm = A.norm(_callee(t))
    want = {"Result::is_ok": "Ok", "Result::is_err": "Err", "Option::is_some": "Some", "Option::is_none": "None"}[nm]
    if v[0] == "E":
        return [(("bool", v[2] == want), st)]
    if v[0] == "any":
        return [(I.fresh("any"), st)]
    c = ("isv", v, want)
    # canonical polarity, so that complementary tests are related
    if want == "None":
        c = neg(("isv", v, "Some"))
    if want == "Err":
        c = neg(("isv", v, "Ok"))
    r = I.cond_value(st.facts, ("isv", v, want))
    if r is not None:
        return [(("bool", r), st)]
    out = []
    for b, s in bools(I, st, ("isv", v, want)):
        if not b:
            other = {"Ok": "Err", "Err": "Ok", "Some": "None", "None": "Some"}[want]
            f = dict(s.facts)
            f[("v", v)] = other
            s = State(s.store, f)
        out.append((("bool", b), s))
    return out


def _callee(t):
    r = t["f"]["fnref"]
    return r["res"] or r["fn"]


@model("Option::is_some_and", "Result::is_ok_and", "Option::is_none_or")
def _(I, a, st, body, t, dty):
    nm = A.norm(_callee(t))
    names = ["Ok", "Err"] if nm.startswith("Result") else ["None", "Some"]
    out = []
    for n, x, s in split(I, st, a[0], names):
        if n in ("Some", "Ok"):
            out.extend(I.closure_call(a[1], [payload(I, s, x, n)], s, body, t, "bool"))
        else:
            out.append((("bool", nm == "Option::is_none_or"), s))
    return out


def _map_like(I, a, st, body, t, good, wrap, bad):
    out = []
    names = ["None", "Some"] if good == "Some" else ["Ok", "Err"]
    for n, x, s in split(I, st, a[0], names):
        if n == good:
            for v, s2 in I.closure_call(a[1], [payload(I, s, x, n)], s, body, t, "?"):
                out.append((wrap(v), s2))
        else:
            out.append((bad(s, x), s))
    return out


@model("bool::then", "bool::then_some")
def _(I, a, st, body, t, dty):
    out = []
    for b, x in bools(I, st, I.deref(st, a[0])):
        if not b:
            out.append((NONE, x))
        elif A.norm(_callee(t)).endswith("then_some"):
            out.append((some(a[1]), x))
        else:
            out.extend((some(v), y) for v, y in I.closure_call(a[1], [], x, body, t, "?"))
    return out


@model("Option::map")
def _(I, a, st, body, t, dty):
    return _map_like(I, a, st, body, t, "Some", some, lambda s, x: NONE)


@model("Option::and_then")
def _(I, a, st, body, t, dty):
    return _map_like(I, a, st, body, t, "Some", lambda v: v, lambda s, x: NONE)


@model("Result::map")
def _(I, a, st, body, t, dty):
    return _map_like(I, a, st, body, t, "Ok", ok, lambda s, x: err(payload(I, s, x, "Err")))


@model("Result::and_then")
def _(I, a, st, body, t, dty):
    return _map_like(I, a, st, body, t, "Ok", lambda v: v, lambda s, x: err(payload(I, s, x, "Err")))


@model("Option::filter")
def _(I, a, st, body, t, dty):
    out = []
    for n, x, s in split(I, st, a[0], ["None", "Some"]):
        if n == "Some":
            p = payload(I, s, x, n)
            for c, s2 in I.closure_call(a[1], [p], s, body, t, "bool"):
                for b, s3 in bools(I, s2, c):
                    out.append((some(p) if b else NONE, s3))
        else:
            out.append((NONE, s))
    return out


@model("Option::or_else", "Option::or")
def _(I, a, st, body, t, dty):
    out = []
    for n, x, s in split(I, st, a[0], ["None", "Some"]):
        if n == "Some":
            out.append((some(payload(I, s, x, n)), s))
        elif A.norm(_callee(t)) == "Option::or":
            out.append((I.deref(s, a[1]), s))
        else:
            out.extend(I.closure_call(a[1], [], s, body, t, "?"))
    return out


@model("Option::unwrap_or", "Result::unwrap_or", "Option::unwrap_or_else", "Result::unwrap_or_else", "Option::unwrap_or_default",
       "Option::map_or", "Option::map_or_else", "Result::map_or")
def _(I, a, st, body, t, dty):
    nm = A.norm(_callee(t))
    names = ["Ok", "Err"] if nm.startswith("Result") else ["None", "Some"]
    out = []
    for n, x, s in split(I, st, a[0], names):
        good = n in ("Some", "Ok")
        if "map_or" in nm:
            if good:
                out.extend(I.closure_call(a[2], [payload(I, s, x, n)], s, body, t, "?"))
            elif nm.endswith("else"):
                out.extend(I.closure_call(a[1], [], s, body, t, "?"))
            else:
                out.append((a[1], s))
        elif good:
            out.append((payload(I, s, x, n), s))
        elif nm.endswith("_else"):
            out.extend(I.closure_call(a[1], [ANY] if names[0] == "Ok" else [], s, body, t, "?"))
        elif nm.endswith("default"):
            out.append((default_of(I, dty), s))
        else:
            out.append((a[1], s))
    return out


def default_of(I, ty):
    b = base_ty(ty)
    if b in ("usize", "u64", "u32", "i32", "i64"):
        return num(0)
    if b == "bool":
        return FALSE
    if b.startswith("std::vec::Vec"):
        return ("list", ())
    if b in ("std::string::String", "String"):
        return ("str", "")
    if b in ("std::option::Option", "Option"):
        return NONE
    return I.fresh("default")


@model("Option::unwrap", "Option::expect", "Result::unwrap", "Result::expect")
def _(I, a, st, body, t, dty):
    nm = A.norm(_callee(t))
    names = ["Ok", "Err"] if nm.startswith("Result") else ["None", "Some"]
    out = []
    for n, x, s in split(I, st, a[0], names):
        if n in ("Some", "Ok"):
            out.append((payload(I, s, x, n), s))
        else:
            I.panic(body, t, s, nm + " on " + n)
    return out


@model("Option::unwrap_unchecked")
def _(I, a, st, body, t, dty):
    return [(payload(I, st, I.deref(st, a[0]), "Some"), st)]


@model("Option::as_ref", "Option::as_deref", "Option::cloned", "Option::copied", "Result::as_ref", "Option::as_mut", "Result::cloned",
       "Deref::deref", "DerefMut::deref_mut", "AsRef::as_ref", "Borrow::borrow", "Clone::clone", "ToOwned::to_owned",
       "Vec::as_slice", "slice::to_vec", "Vec::into_boxed_slice", "Box::new", "Rc::new", "Arc::new", "slice::into_vec", "String::as_str",
       "Iterator::cloned", "Iterator::copied", "Iterator::by_ref", "convert::identity", "Cow::into_owned", "Vec::from", "slice::as_ref",
       "Vec::into_iter_", "BorrowMut::borrow_mut", "AsMut::as_mut", "hint::must_use", "string::to_string", "Rc::to_rc_of_slice")
def _(I, a, st, body, t, dty):
    v = a[0]
    if dty.startswith("&mut") and v[0] == "mref":
        return [(v, st)]
    nm = A.norm(_callee(t))
    if nm in ("Iterator::by_ref", "Option::as_mut") and v[0] == "mref":
        return [(v, st)]
    return [(I.deref(st, v), st)]


@model("ToString::to_string", "String::from", "str::to_owned", "str::to_string")
def _(I, a, st, body, t, dty):
    v = I.deref(st, a[0])
    return [(v if v[0] == "str" else ("call", "to_string", (v,)), st)]


@model("Option::take")
def _(I, a, st, body, t, dty):
    if a[0][0] != "mref":
        return None
    v = I.deref(st, a[0])
    I.write(st, a[0][1], a[0][2], NONE)
    return [(v, st)]


@model("mem::take")
def _(I, a, st, body, t, dty):
    if a[0][0] != "mref":
        return None
    v = I.deref(st, a[0])
    I.write(st, a[0][1], a[0][2], default_of(I, dty))
    return [(v, st)]


@model("mem::replace", "Option::replace")
def _(I, a, st, body, t, dty):
    if a[0][0] != "mref":
        return None
    v = I.deref(st, a[0])
    I.write(st, a[0][1], a[0][2], a[1])
    return [(v, st)]


@model("mem::swap")
def _(I, a, st, body, t, dty):
    if a[0][0] != "mref" or a[1][0] != "mref":
        return None
    v, w = I.deref(st, a[0]), I.deref(st, a[1])
    I.write(st, a[0][1], a[0][2], w)
    I.write(st, a[1][1], a[1][2], v)
    return [(UNIT, st)]


# ------------------------------------------------------------------ Into / From
@model("Into::into", "From::from")
def _(I, a, st, body, t, dty):
    v = I.deref(st, a[0])
    ga = tuple(t["f"].get("fnref", {}).get("ga", []))
    b = base_ty(dty)
    if I.is_error_ty(dty):
        return [(ANY, st)]
    # conversions implemented in the analysed crate
    c = [q for q in I.p.bodies if re.match(r"^<%s(<.*>)? as std::convert::From<.*>>::from$" % re.escape(b), q)]
    exact = [q for q in c if q.startswith("<%s as " % dty)]
    c = exact or c
    if c:
        kind = None
        if v[0] in ("int", "lin", "len", "min", "max", "mul"):
            kind = "usize"
        elif v[0] == "S":
            kind = v[1].split("::")[-1]
        best = []
        for q in c:
            m = re.search(r"From<(.*)>>::from$", q)
            x = m.group(1) if m else ""
            if kind == "usize":
                if x in ("usize", "T", "i32", "u32", "i64", "rug::Integer"):
                    best.append(q)
            elif kind and (base_ty(x).split("::")[-1] == kind):
                best.append(q)
        if ga and not best:
            for q in c:
                if ("From<%s>>" % ga[0]) in q:
                    best.append(q)
        if len(c) == 1 and not best:
            best = c
        if len(best) == 1:
            return I.run_inline(I.p.bodies[best[0]], [v], st, dty)
    if b in ("rug::Integer", "rug::Rational", "usize", "u64", "i64", "u32", "i32", "isize", "u128"):
        if v[0] in ("int", "lin", "len") or A.has_tag(v, ("len",)):
            return [(v, st)]
        return [(v, st)]
    if b in ("std::string::String", "std::boxed::Box", "std::sync::Arc", "std::vec::Vec", "ast::rc::Rc"):
        return [(v, st)]
    if b == base_ty(ga[0] if ga else ""):
        return [(v, st)]
    if dty == "bool" and I.is_cond(v):
        return [(v, st)]
    return None


@model("TryInto::try_into", "TryFrom::try_from")
def _(I, a, st, body, t, dty):
    return None


# ------------------------------------------------------------------ equality / ordering
@model("PartialEq::eq")
def _(I, a, st, body, t, dty):
    return [(I.eqv(st, a[0], a[1]), st)]


@model("PartialEq::ne")
def _(I, a, st, body, t, dty):
    return [(neg(I.eqv(st, a[0], a[1])), st)]


def rational_ty(I, body, t):
    o = t["args"][0]
    pl = o.get("mv") or o.get("cp")
    ty = body.locals[pl["l"]] if pl else o.get("ty", "")
    return "Rational" in ty


@model("PartialOrd::lt", "PartialOrd::le", "PartialOrd::gt", "PartialOrd::ge")
def _(I, a, st, body, t, dty):
    op = A.norm(_callee(t)).split("::")[1]
    x, y = I.deref(st, a[0]), I.deref(st, a[1])
    if op in ("gt", "ge"):
        x, y = y, x
        op = "lt" if op == "gt" else "le"
    if rational_ty(I, body, t):
        return [(A.c_rlt(x, y) if op == "lt" else neg(A.c_rlt(y, x)), st)]
    return [(c_lt(x, y) if op == "lt" else c_le(x, y), st)]


# ------------------------------------------------------------------ closures
@model("Fn::call", "FnMut::call_mut", "FnOnce::call_once")
def _(I, a, st, body, t, dty):
    args = I.deref(st, a[1])
    xs = list(args[1]) if args[0] == "T" else [args]
    return I.closure_call(a[0], xs, st, body, t, dty)


# ------------------------------------------------------------------ slices and vectors
@model("slice::len", "Vec::len", "array::len")
def _(I, a, st, body, t, dty):
    return [(length(I.deref(st, a[0])), st)]


@model("slice::is_empty", "Vec::is_empty")
def _(I, a, st, body, t, dty):
    return [(c_eq0(length(I.deref(st, a[0]))), st)]


@model("Vec::new", "Vec::with_capacity")
def _(I, a, st, body, t, dty):
    return [(("list", ()), st)]


def at(I, st, L, i):
    """elements of a list value, running the code of lazily mapped sequences: [(value, state)]"""
    if L[0] == "seq":
        return seq_elem(I, st, L[1], i)
    return [(elem_simple(L, i), st)]


@model("slice::first", "slice::last", "slice::get")
def _(I, a, st, body, t, dty):
    L = I.deref(st, a[0])
    n = length(L)
    nm = A.norm(_callee(t))
    if nm == "slice::get":
        i = I.deref(st, a[1])
        if i[0] == "S":
            return None
        c = c_lt(i, n)
    else:
        i = num(0) if nm == "slice::first" else sub(n, num(1))
        c = c_le(num(1), n)
    return [(some(elem_simple(L, i)) if b else NONE, s) for b, s in bools(I, st, c)]


@model("slice::last_mut", "slice::first_mut", "slice::get_mut")
def _(I, a, st, body, t, dty):
    if a[0][0] != "mref":
        return None
    L = I.deref(st, a[0])
    if L[0] != "list":
        return None
    r = a[0]
    nm = A.norm(_callee(t))
    n = len(L[1])
    if nm.endswith("get_mut"):
        i = I.deref(st, a[1])
        if i[0] != "int":
            return None
        k = i[1]
    else:
        k = n - 1 if nm.endswith("last_mut") else 0
    if not 0 <= k < n:
        return [(NONE, st)]
    while True:
        # the cell that really holds the list
        v = I.read_cell(st, r[1], r[2])
        if v[0] != "mref":
            break
        r = v
    return [(some(("mref", r[1], r[2] + (("i", num(k)),))), st)]


@model("Index::index", "IndexMut::index_mut")
def _(I, a, st, body, t, dty):
    L = I.deref(st, a[0])
    i = I.deref(st, a[1])
    mut = A.norm(_callee(t)).endswith("mut")
    src = t["args"][0]
    pl = src.get("mv") or src.get("cp")
    sty = body.locals[pl["l"]] if pl else ""
    if not re.search(r"Vec<|\[|\bstr\b|String", sty):
        return None
    n = length(L)
    if i[0] == "S" and i[1].startswith("std::ops::Range"):
        kind = i[1].split("::")[-1]
        f = i[2]
        if kind == "Range":
            lo, hi = f[0], f[1]
        elif kind == "RangeFrom":
            lo, hi = f[0], n
        elif kind == "RangeTo":
            lo, hi = num(0), f[0]
        elif kind == "RangeFull":
            lo, hi = num(0), n
        else:
            return None
        cond = c_and([c_le(lo, hi), c_le(hi, n)])
        out = []
        for b, s in bools(I, st, cond):
            if b:
                if mut and a[0][0] == "mref":
                    out.append((("mref", a[0][1], a[0][2] + (("sub", lo, hi),)), s))
                else:
                    out.append((mk_slice(L, lo, hi), s))
            else:
                I.obls.append(A.Obligation("range", body, t["ln"], cond, s.facts, None))
        return out
    out = []
    for b, s in bools(I, st, c_lt(i, n)):
        if b:
            if mut and a[0][0] == "mref":
                out.append((("mref", a[0][1], a[0][2] + (("i", i),)), s))
            else:
                out.append((elem_simple(L, i), s))
        else:
            I.obls.append(A.Obligation("index", body, t["ln"], c_lt(i, n), st.facts, None))
    return out


@model("Vec::push")
def _(I, a, st, body, t, dty):
    if a[0][0] != "mref":
        return None
    L = I.deref(st, a[0])
    x = I.deref(st, a[1]) if a[1][0] == "mref" else a[1]
    if L[0] == "list":
        I.write(st, a[0][1], a[0][2], ("list", L[1] + (x,)))
        return [(UNIT, st)]
    I.write(st, a[0][1], a[0][2], ("seq", ("chain", ("of", L), ("of", ("list", (x,))))))
    return [(UNIT, st)]


@model("Vec::pop")
def _(I, a, st, body, t, dty):
    if a[0][0] != "mref":
        return None
    L = I.deref(st, a[0])
    n = length(L)
    out = []
    for b, s in bools(I, st, c_le(num(1), n)):
        if b:
            x = elem_simple(L, sub(n, num(1)))
            I.write(s, a[0][1], a[0][2], mk_slice(L, num(0), sub(n, num(1))))
            out.append((some(x), s))
        else:
            out.append((NONE, s))
    return out


@model("Vec::clear")
def _(I, a, st, body, t, dty):
    if a[0][0] != "mref":
        return None
    I.write(st, a[0][1], a[0][2], ("list", ()))
    return [(UNIT, st)]


@model("Vec::insert")
def _(I, a, st, body, t, dty):
    if a[0][0] != "mref":
        return None
    L = I.deref(st, a[0])
    i = I.deref(st, a[1])
    if L[0] == "list" and i[0] == "int" and 0 <= i[1] <= len(L[1]):
        I.write(st, a[0][1], a[0][2], ("list", L[1][:i[1]] + (a[2],) + L[1][i[1]:]))
        return [(UNIT, st)]
    if i == num(0):
        I.write(st, a[0][1], a[0][2], ("seq", ("chain", ("of", ("list", (a[2],))), ("of", L))))
        return [(UNIT, st)]
    return None


@model("slice::swap")
def _(I, a, st, body, t, dty):
    if a[0][0] != "mref":
        return None
    L = I.deref(st, a[0])
    i, j = I.deref(st, a[1]), I.deref(st, a[2])
    if L[0] == "list" and i[0] == "int" and j[0] == "int" and max(i[1], j[1]) < len(L[1]):
        xs = list(L[1])
        xs[i[1]], xs[j[1]] = xs[j[1]], xs[i[1]]
        I.write(st, a[0][1], a[0][2], ("list", tuple(xs)))
        return [(UNIT, st)]
    n = length(L)
    c = c_and([c_lt(i, n), c_lt(j, n)])
    if i[0] == "int" and j[0] == "int":
        k = max(i[1], j[1])
        out = []
        for b, s in bools(I, st, c):
            if b:
                xs = [elem_simple(L, num(q)) for q in range(k + 1)]
                xs[i[1]], xs[j[1]] = xs[j[1]], xs[i[1]]
                I.write(s, a[0][1], a[0][2], ("seq", ("chain", ("of", ("list", tuple(xs))), ("skip", ("of", L), num(k + 1)))))
                out.append((UNIT, s))
            else:
                I.obls.append(A.Obligation("index", body, t["ln"], c, s.facts, None))
        return out
    return None


@model("slice::reverse")
def _(I, a, st, body, t, dty):
    if a[0][0] != "mref":
        return None
    L = I.deref(st, a[0])
    if L[0] == "list":
        v = ("list", tuple(reversed(L[1])))
    else:
        v = ("seq", ("rev", ("of", L)))
    I.write(st, a[0][1], a[0][2], v)
    return [(UNIT, st)]


@model("slice::split_first", "slice::split_last")
def _(I, a, st, body, t, dty):
    L = I.deref(st, a[0])
    n = length(L)
    first = A.norm(_callee(t)).endswith("first")
    out = []
    for b, s in bools(I, st, c_le(num(1), n)):
        if not b:
            out.append((NONE, s))
        elif first:
            out.append((some(("T", (elem_simple(L, num(0)), mk_slice(L, num(1), n)))), s))
        else:
            out.append((some(("T", (elem_simple(L, sub(n, num(1))), mk_slice(L, num(0), sub(n, num(1)))))), s))
    return out


@model("slice::contains", "Vec::contains")
def _(I, a, st, body, t, dty):
    L, x = I.deref(st, a[0]), I.deref(st, a[1])
    n = length(L)
    if n[0] == "int" and n[1] <= UNROLL:
        return [(c_or([A.eqv_raw(elem_simple(L, num(i)), x) for i in range(n[1])]), st)]
    k = fresh_k(I)
    f = dict(st.facts)
    fs = I.assume(f, c_lt(k, n)) or []
    out = []
    for f in fs:
        for g in I.assume(f, A.eqv_raw(elem_simple(L, k), x), True):
            out.append((TRUE, State(dict(st.store), g)))
        ds = [diff(g, f) for g in I.assume(f, A.eqv_raw(elem_simple(L, k), x), False)]
        g = dict(st.facts)
        g[("all", k, num(0), n, frozenset(ds))] = True
        out.append((FALSE, State(dict(st.store), g)))
    return out


@model("slice::from_ref", "iter::once")
def _(I, a, st, body, t, dty):
    v = ("list", (I.deref(st, a[0]),))
    if "once" in _callee(t):
        return [(("it", ("of", v), num(0)), st)]
    return [(v, st)]


@model("iter::empty")
def _(I, a, st, body, t, dty):
    return [(("it", ("of", ("list", ())), num(0)), st)]


@model("Box::new_uninit")
def _(I, a, st, body, t, dty):
    I.uid += 1
    cell = ("h", I.uid)
    st.store[cell] = ("S", "uninit", (UNIT, ("S", "uninit", (("S", "uninit", (I.fresh("u"),)),))))
    return [(("S", "uninit_box", (("mref", cell, ()),)), st)]


def unbox(v):
    while v[0] == "S" and len(v[2]) >= 1 and v[1] in ("uninit_box", "uninit"):
        v = v[2][-1]
    return v


@model("boxed::box_assume_init_into_vec_unsafe")
def _(I, a, st, body, t, dty):
    b = I.deref(st, a[0])
    if b[0] == "S" and b[1] == "uninit_box" and b[2][0][0] == "mref" and b[2][0][1][0] == "h":
        v = unbox(I.deref(st, b[2][0]))
        st.store.pop(b[2][0][1], None)
        return [(v, st)]
    return [(unbox(b), st)]


# ------------------------------------------------------------------ iterators
def fresh_k(I):
    I.uid += 1
    return ("k", "n", I.uid)


def diff(g, f):
    return frozenset((k, v) for k, v in g.items() if f.get(k) != v)


def to_seq(I, st, v):
    """iterator or iterable value -> sequence, or None"""
    v = I.deref(st, v)
    if v[0] == "it":
        return v[1] if v[2] == num(0) else ("skip", v[1], v[2])
    if v[0] == "S" and v[1].endswith("ops::Range"):
        return ("range", v[2][0], v[2][1])
    if v[0] == "S" and v[1].endswith("ops::RangeInclusive"):
        return ("range", v[2][0], add(v[2][1], num(1)))
    if v[0] == "S" and v[1].endswith("ops::RangeFrom"):
        return ("from", v[2][0])
    if v[0] in ("list", "slice", "in", "fld", "elem", "call"):
        return ("of", v)
    if v[0] == "seq":
        return v[1]
    if v[0] == "E" and v[1].endswith("option::Option"):
        return ("of", ("list", tuple(v[3])))
    return None


def seq_elem(I, st, s, i, body=None, t=None):
    """[(element value, state)]"""
    r = seq_elem_simple(s, i)
    if r is not None:
        return [(r, st)]
    k = s[0]
    if k == "map":
        out = []
        for v, x in seq_elem(I, st, s[1], i, body, t):
            out.extend(I.closure_call(s[2], [v], x, body, t, "?"))
        return out
    if k == "from":
        return [(add(s[1], i), st)]
    if k == "zip":
        out = []
        for v, x in seq_elem(I, st, s[1], i, body, t):
            for w, y in seq_elem(I, x, s[2], i, body, t):
                out.append((("T", (v, w)), y))
        return out
    if k == "enum":
        return [(("T", (i, v)), x) for v, x in seq_elem(I, st, s[1], i, body, t)]
    if k in ("skip",):
        return seq_elem(I, st, s[1], add(i, s[2]), body, t)
    if k == "take":
        return seq_elem(I, st, s[1], i, body, t)
    if k == "rev":
        return seq_elem(I, st, s[1], sub(sub(seq_len(s[1]), num(1)), i), body, t)
    if k == "chain":
        l1 = seq_len(s[1])
        out = []
        for b, x in bools(I, st, c_lt(i, l1)):
            out.extend(seq_elem(I, x, s[1] if b else s[2], i if b else sub(i, l1), body, t))
        return out
    if k == "windows":
        return [(("slice", ("seq", s[1]), i, add(i, s[2])), st)]
    return [(("elem", ("seq", s), i), st)]


@model("slice::iter", "Vec::iter", "IntoIterator::into_iter", "Vec::into_iter", "slice::iter_mut", "IndexSet::iter", "IndexMap::iter",
       "IndexMap::values", "IndexMap::keys", "Option::iter", "Option::into_iter")
def _(I, a, st, body, t, dty):
    v = a[0]
    nm = A.norm(_callee(t))
    if nm == "slice::iter_mut" or (v[0] == "mref" and "IterMut" in dty):
        return None
    v = I.deref(st, v)
    if v[0] == "it":
        return [(a[0] if a[0][0] == "mref" and dty.startswith("&mut") else v, st)]
    if v[0] == "E" and v[1] == OPT:
        return [(("it", ("of", ("list", v[3])), num(0)), st)]
    if nm.startswith("Index") or not dty.startswith(("std::slice::Iter<", "std::vec::IntoIter<")) and ("IndexMap" in dty or "IndexSet" in dty or "HashMap" in dty or "HashSet" in dty):
        return None
    s = to_seq(I, st, v)
    if s is None:
        if v[0] == "opq" and ("slice::Iter" in dty or "vec::IntoIter" in dty):
            s = ("of", v)
        else:
            return None
    return [(("it", s, num(0)), st)]


def lazily(I, st, v, mk):
    s = to_seq(I, st, v)
    if s is None:
        return None
    return [(("it", mk(s), num(0)), st)]


@model("Iterator::map")
def _(I, a, st, body, t, dty):
    return lazily(I, st, a[0], lambda s: ("map", s, a[1]))


@model("Iterator::enumerate")
def _(I, a, st, body, t, dty):
    return lazily(I, st, a[0], lambda s: ("enum", s))


@model("Iterator::rev")
def _(I, a, st, body, t, dty):
    return lazily(I, st, a[0], lambda s: ("rev", s))


@model("Iterator::skip")
def _(I, a, st, body, t, dty):
    n = I.deref(st, a[1])
    return lazily(I, st, a[0], lambda s: ("skip", s, n))


@model("Iterator::take")
def _(I, a, st, body, t, dty):
    n = I.deref(st, a[1])
    return lazily(I, st, a[0], lambda s: ("take", s, n))


@model("Iterator::zip", "Iterator::chain")
def _(I, a, st, body, t, dty):
    k = A.norm(_callee(t)).split("::")[1]
    s2 = to_seq(I, st, a[1])
    if s2 is None:
        return None
    return lazily(I, st, a[0], lambda s: (k, s, s2))


@model("slice::windows")
def _(I, a, st, body, t, dty):
    n = I.deref(st, a[1])
    return lazily(I, st, a[0], lambda s: ("windows", s, n))


def infinite(s):
    if s[0] == "from":
        return True
    if s[0] in ("map", "enum", "skip", "rev"):
        return infinite(s[1])
    if s[0] == "zip":
        return infinite(s[1]) and infinite(s[2])
    return False


def flat_len(s):
    """length of a sequence as (list of upper bounds); the length is their minimum"""
    if s[0] == "zip":
        r = []
        for x in s[1:3]:
            if not infinite(x):
                r.extend(flat_len(x))
        return r
    if s[0] in ("map", "enum", "rev"):
        return flat_len(s[1])
    if s[0] == "take":
        return ([] if infinite(s[1]) else flat_len(s[1])) + [s[2]]
    if s[0] == "skip":
        return [sub(x, s[2]) for x in flat_len(s[1])]
    n = seq_len(s)
    if n[0] == "max" and num(0) in n[1:]:
        # truncated subtraction; for comparisons with a nonnegative index the truncation is irrelevant
        n = n[1] if n[2] == num(0) else n[2]
    return [n]


def in_range(s, i):
    """condition i < len(s) for i >= 0"""
    if infinite(s):
        return TRUE
    return c_and([c_lt(i, n) for n in flat_len(s)])


def const_len(I, st, s):
    ns = [] if infinite(s) else flat_len(s)
    if ns and all(n[0] == "int" for n in ns):
        return max(0, min(n[1] for n in ns))
    return None


@model("Iterator::peekable", "Iterator::fuse")
def _(I, a, st, body, t, dty):
    return lazily(I, st, a[0], lambda s: s)


@model("Peekable::peek")
def _(I, a, st, body, t, dty):
    v = I.deref(st, a[0])
    if v[0] != "it":
        return None
    out = []
    for b, x in bools(I, st, in_range(v[1], v[2])):
        if b:
            out.extend((some(e), y) for e, y in seq_elem(I, x, v[1], v[2], body, t))
        else:
            out.append((NONE, x))
    return out


@model("Iterator::next", "DoubleEndedIterator::next_back")
def _(I, a, st, body, t, dty):
    if a[0][0] != "mref":
        return None
    v = I.deref(st, a[0])
    if v[0] == "S" and v[1].endswith("ops::Range"):
        v = ("it", ("range", v[2][0], v[2][1]), num(0))
    if v[0] != "it":
        return None
    cell, proj = a[0][1], a[0][2]
    s, pos = v[1], v[2]
    out = []
    if A.norm(_callee(t)).endswith("next_back"):
        n = seq_len(s)
        for b, x in bools(I, st, in_range(s, pos)):
            if b:
                I.write(x, cell, proj, ("it", ("take", s, sub(n, num(1))), pos))
                out.extend((some(e), y) for e, y in seq_elem(I, x, s, sub(n, num(1)), body, t))
            else:
                out.append((NONE, x))
        return out
    c = in_range(s, pos)
    if s[0] == "chain" and s[1][0] == "of" and s[1][1][0] != "list" and False:
        pass
    for b, x in bools(I, st, c):
        if b:
            I.write(x, cell, proj, ("it", s, add(pos, num(1))))
            out.extend((some(e), y) for e, y in seq_elem(I, x, s, pos, body, t))
        else:
            out.append((NONE, x))
    return out


def quantify(I, st, s, body, t, run):
    """runs `run(elem, state) -> [(bool cond, state)]` at an arbitrary index; returns
    (k, length bounds, [facts where true], [states where false], exact)"""
    k = fresh_k(I)
    T, F = [], []
    base = st.facts
    for f0 in I.assume(base, in_range(s, k)):
        s0 = State(dict(st.store), f0)
        for e, s1 in seq_elem(I, s0, s, k, body, t):
            for c, s2 in run(e, s1):
                for b, s3 in bools(I, s2, c):
                    if b:
                        T.append(diff(s3.facts, f0))
                    else:
                        F.append((diff(s3.facts, f0), s3, e))
    return k, T, F


def all_fact(k, s, ds):
    """universal fact over the whole sequence; upper bound given as the list of bounds"""
    return ("all", k, num(0), bound_of(s), frozenset(A.reduce_disj(ds)))


def bound_of(s):
    ns = flat_len(s)
    r = ns[0]
    for n in ns[1:]:
        r = A.imin(r, n)
    return r


def unroll_bool(I, st, s, n, body, t, run, stop):
    """evaluates run over elements 0..n until it yields `stop`; [(index or None, elem, state)]"""
    cur = [st]
    out = []
    for i in range(n):
        nxt = []
        for x in cur:
            for e, y in seq_elem(I, x, s, num(i), body, t):
                for c, z in run(e, y):
                    for b, w in bools(I, z, c):
                        if b == stop:
                            out.append((i, e, w))
                        else:
                            nxt.append(w)
        cur = nxt
    out.extend((None, None, x) for x in cur)
    return out


@model("Iterator::all", "Iterator::any")
def _(I, a, st, body, t, dty):
    s = to_seq(I, st, a[0])
    if s is None or infinite(s):
        return None
    isall = A.norm(_callee(t)).endswith("all")

    def run(e, x):
        return I.closure_call(a[1], [e], x, body, t, "bool")
    n = const_len(I, st, s)
    if n is not None and n <= UNROLL:
        return [(("bool", (i is None) == isall), x) for i, e, x in unroll_bool(I, st, s, n, body, t, run, not isall)]
    k, T, F = quantify(I, st, s, body, t, run)
    if isall:
        whole, wit = T, [x for _, x, _ in F]
    else:
        whole = [d for d, _, _ in F]
        wit = None
    out = []
    g = dict(st.facts)
    g[all_fact(k, s, whole)] = True
    out.append((("bool", isall), State(dict(st.store), g)))
    if isall:
        out.extend((FALSE, State(dict(st.store), x.facts)) for x in wit)
    else:
        for d in T:
            g = dict(st.facts)
            for f0 in I.assume(g, in_range(s, k)):
                f0 = dict(f0)
                f0.update(d)
                out.append((TRUE, State(dict(st.store), f0)))
    return out


@model("Iterator::find", "Iterator::position", "Iterator::find_map", "Iterator::rposition")
def _(I, a, st, body, t, dty):
    s = to_seq(I, st, a[0])
    if s is None or infinite(s):
        return None
    nm = A.norm(_callee(t)).split("::")[1]
    if nm == "rposition":
        return None
    res = {}

    def run(e, x):
        if nm == "find_map":
            out = []
            for v, y in I.closure_call(a[1], [e], x, body, t, "?"):
                for n, w, z in split(I, y, v, ["None", "Some"]):
                    out.append((("bool", n == "Some"), z, payload(I, z, w, n) if n == "Some" else None))
            return out
        return [(c, y, None) for c, y in I.closure_call(a[1], [e], x, body, t, "bool")]
    n = const_len(I, st, s)
    out = []
    if n is not None and n <= UNROLL:
        cur = [st]
        for i in range(n):
            nxt = []
            for x in cur:
                for e, y in seq_elem(I, x, s, num(i), body, t):
                    for c, z, p in run(e, y):
                        for b, w in bools(I, z, c):
                            if b:
                                out.append((some(p if nm == "find_map" else e if nm == "find" else num(i)), w))
                            else:
                                nxt.append(w)
            cur = nxt
        out.extend((NONE, x) for x in cur)
        return out
    k = fresh_k(I)
    F, T = [], []
    for f0 in I.assume(st.facts, in_range(s, k)):
        for e, s1 in seq_elem(I, State(dict(st.store), f0), s, k, body, t):
            for c, s2, p in run(e, s1):
                for b, s3 in bools(I, s2, c):
                    if b:
                        T.append((e, p, s3))
                    else:
                        F.append(diff(s3.facts, f0))
    for e, p, s3 in T:
        g = dict(s3.facts)
        # every earlier element failed the test
        k2 = fresh_k(I)
        if F and not any(len(d) == 0 for d in F):
            g[("all", k2, num(0), k, frozenset(A.substitute(d, {k: k2}) for d in A.reduce_disj(F)))] = True
        out.append((some(p if nm == "find_map" else e if nm == "find" else k), State(dict(st.store), g)))
    g = dict(st.facts)
    k3 = fresh_k(I)
    g[("all", k3, num(0), bound_of(s), frozenset(A.substitute(d, {k: k3}) for d in A.reduce_disj(F)))] = True
    out.append((NONE, State(dict(st.store), g)))
    return out


@model("Iterator::collect", "FromIterator::from_iter")
def _(I, a, st, body, t, dty):
    s = to_seq(I, st, a[0])
    if s is None or infinite(s):
        return None
    b = base_ty(dty)
    wrap = None
    if b in (RES, OPT):
        wrap = b
        inner = dty[dty.index("<") + 1:]
        b2 = base_ty(inner.split(",")[0] if False else inner)
        if not inner.startswith("std::vec::Vec"):
            return None
    elif b != "std::vec::Vec" and not b.startswith("std::boxed::Box"):
        return None
    good, bad = ("Ok", "Err") if wrap == RES else ("Some", "None")
    n = const_len(I, st, s)
    if n is not None and n <= UNROLL:
        cur = [((), st)]
        out = []
        for i in range(n):
            nxt = []
            for xs, x in cur:
                for e, y in seq_elem(I, x, s, num(i), body, t):
                    if wrap:
                        for vn, w, z in split(I, y, e, [good, bad]):
                            if vn == good:
                                nxt.append((xs + (payload(I, z, w, vn),), z))
                            else:
                                out.append((err() if wrap == RES else NONE, z))
                    else:
                        nxt.append((xs + (e,), y))
            cur = nxt
        for xs, x in cur:
            v = ("list", xs)
            out.append(((ok(v) if wrap == RES else some(v)) if wrap else v, x))
        return out
    k = fresh_k(I)
    cases, bads = [], []
    for f0 in I.assume(st.facts, in_range(s, k)):
        for e, s1 in seq_elem(I, State(dict(st.store), f0), s, k, body, t):
            if wrap:
                for vn, w, z in split(I, s1, e, [good, bad]):
                    if vn == good:
                        cases.append((payload(I, z, w, vn), diff(z.facts, f0), z))
                    else:
                        bads.append(z)
            else:
                cases.append((e, diff(s1.facts, f0), s1))
    ln = bound_of(s)
    facts = dict(st.facts)
    vals = set(c[0] for c in cases)
    if len(vals) == 1:
        v, = vals
        L = simplify_lam(k, ln, v)
        ds = [c[1] for c in cases]
        if not any(len(d) == 0 for d in ds):
            facts[("all", k, num(0), ln, frozenset(A.reduce_disj(ds)))] = True
    else:
        I.uid += 1
        L = ("opq", "collect", I.uid)
        ds = []
        for v, d, z in cases:
            ds.append(frozenset(d | {(("b", A.eqv_raw(("elem", L, k), v)), True)}) if A.eqv_raw(("elem", L, k), v)[0] == "eq"
                      else frozenset(d | {(("same", ("elem", L, k), v), True)}))
        facts[("all", k, num(0), ln, frozenset(ds))] = True
        facts[("same", ("len", L), ln)] = True
    out = []
    if cases or not (wrap and bads):
        out.append(((ok(L) if wrap == RES else some(L)) if wrap else L, State(dict(st.store), facts)))
    if bads:
        out.append((err() if wrap == RES else NONE, State(dict(st.store), dict(st.facts))))
    return out


def simplify_lam(k, ln, v):
    """\\k. L[k] over the whole of L is L itself"""
    if v[0] == "elem" and v[2] == k and not A.has_tag(v[1], ()) and k not in flatten(v[1]) and ln == length(v[1]):
        return v[1]
    if v[0] == "elem" and k not in flatten(v[1]):
        off = sub(v[2], k)
        if off[0] == "int":
            return mk_slice(v[1], off, add(off, ln))
    return ("seq", ("lam", k, ln, v))


def flatten(v):
    out = set()

    def go(x):
        if isinstance(x, tuple):
            out.add(x)
            for y in x:
                go(y)
    go(v)
    return out


@model("Iterator::eq")
def _(I, a, st, body, t, dty):
    s1, s2 = to_seq(I, st, a[0]), to_seq(I, st, a[1])
    if s1 is None or s2 is None:
        return None
    n1, n2 = const_len(I, st, s1), const_len(I, st, s2)
    if n1 is not None and n1 == n2 and n1 <= UNROLL:
        cur = [(TRUE, st)]
        for i in range(n1):
            cur = [(c_and([c, I.eqv(z, e1, e2)]), z) for c, x in cur for e1, y in seq_elem(I, x, s1, num(i), body, t)
                   for e2, z in seq_elem(I, y, s2, num(i), body, t)]
        return cur
    if len(flat_len(s1)) != 1 or len(flat_len(s2)) != 1:
        return None
    l1, l2 = flat_len(s1)[0], flat_len(s2)[0]
    out = []
    for b, x in bools(I, st, c_eq0(sub(l1, l2))):
        if not b:
            out.append((FALSE, x))
            continue
        z = ("zip", s1, s2)
        k, T, F = quantify(I, x, z, body, t, lambda e, y: [(I.eqv(y, e[1][0], e[1][1]), y)])
        g = dict(x.facts)
        g[all_fact(k, s1, T)] = True
        out.append((TRUE, State(dict(x.store), g)))
        out.extend((FALSE, State(dict(x.store), y.facts)) for _, y, _ in F)
    return out


@model("Iterator::count", "ExactSizeIterator::len")
def _(I, a, st, body, t, dty):
    s = to_seq(I, st, a[0])
    if s is None or infinite(s):
        return None
    return [(bound_of(s), st)]


@model("Iterator::last")
def _(I, a, st, body, t, dty):
    s = to_seq(I, st, a[0])
    if s is None or infinite(s):
        return None
    n = bound_of(s)
    out = []
    for b, x in bools(I, st, c_le(num(1), n)):
        if b:
            out.extend((some(e), y) for e, y in seq_elem(I, x, s, sub(n, num(1)), body, t))
        else:
            out.append((NONE, x))
    return out


@model("Iterator::nth")
def _(I, a, st, body, t, dty):
    s = to_seq(I, st, a[0])
    i = I.deref(st, a[1])
    if s is None or a[0][0] != "mref":
        return None
    out = []
    for b, x in bools(I, st, in_range(s, i)):
        I.write(x, a[0][1], a[0][2], ("it", ("skip", s, add(i, num(1))), num(0)))
        if b:
            out.extend((some(e), y) for e, y in seq_elem(I, x, s, i, body, t))
        else:
            out.append((NONE, x))
    return out


@model("Iterator::for_each", "Iterator::try_for_each")
def _(I, a, st, body, t, dty):
    s = to_seq(I, st, a[0])
    if s is None or infinite(s):
        return None
    isall = A.norm(_callee(t)).endswith("try_for_each")
    n = const_len(I, st, s)
    if not isall:
        return None

    def run(e, x):
        out = []
        for v, y in I.closure_call(a[1], [e], x, body, t, "?"):
            for vn, w, z in split(I, y, v, ["Ok", "Err"]):
                out.append((("bool", vn == "Ok"), z))
        return out
    if n is not None and n <= UNROLL:
        return [(ok(UNIT) if i is None else err(), x) for i, e, x in unroll_bool(I, st, s, n, body, t, run, False)]
    k, T, F = quantify(I, st, s, body, t, run)
    g = dict(st.facts)
    g[all_fact(k, s, T)] = True
    return [(ok(UNIT), State(dict(st.store), g))] + [(err(), State(dict(st.store), x.facts)) for _, x, _ in F]


@model("array::map")
def _(I, a, st, body, t, dty):
    L = I.deref(st, a[0])
    n = length(L)
    if n[0] != "int" or n[1] > UNROLL:
        return None
    cur = [((), st)]
    for i in range(n[1]):
        cur = [(xs + (v,), y) for xs, x in cur for v, y in I.closure_call(a[1], [elem_simple(L, num(i))], x, body, t, "?")]
    return [(("list", xs), x) for xs, x in cur]


# ------------------------------------------------------------------ integers / rationals (as linear forms)
@model("Add::add", "Sub::sub", "Mul::mul", "Neg::neg")
def _(I, a, st, body, t, dty):
    op = A.norm(_callee(t)).split("::")[1]
    x = I.deref(st, a[0])
    if "Instant" in dty or "Duration" in dty:
        return [(I.fresh("time"), st)]
    if op == "neg":
        return [(scale(x, -1), st)]
    y = I.deref(st, a[1])
    return [({"add": add, "sub": sub, "mul": mul}[op](x, y), st)]


@model("AddAssign::add_assign", "SubAssign::sub_assign", "MulAssign::mul_assign", "NegAssign::neg_assign")
def _(I, a, st, body, t, dty):
    if a[0][0] != "mref":
        return [(UNIT, st)]
    op = A.norm(_callee(t)).split("::")[1][:3]
    x = I.deref(st, a[0])
    if op == "neg":
        r = scale(x, -1)
    else:
        y = I.deref(st, a[1])
        r = {"add": add, "sub": sub, "mul": mul}[op](x, y)
    I.write(st, a[0][1], a[0][2], r)
    return [(UNIT, st)]


@model("Rational::is_zero", "Integer::is_zero")
def _(I, a, st, body, t, dty):
    return [(c_eq0(I.deref(st, a[0])), st)]


@model("Rational::is_negative", "Integer::is_negative")
def _(I, a, st, body, t, dty):
    return [(("lt0", I.deref(st, a[0])), st)]


@model("Rational::is_positive", "Integer::is_positive")
def _(I, a, st, body, t, dty):
    return [(("lt0", scale(I.deref(st, a[0]), -1)), st)]


@model("Rational::new", "Integer::new")
def _(I, a, st, body, t, dty):
    return [(num(0), st)]


@model("Integer::to_usize", "Integer::to_u32", "Integer::to_u64")
def _(I, a, st, body, t, dty):
    v = I.deref(st, a[0])
    if v[0] == "int":
        return [(some(v) if 0 <= v[1] < (2 ** 32 if "u32" in dty else 2 ** 64) else NONE, st)]
    u = ("usz", v)
    f = dict(st.facts)
    f[("same", u, v)] = True
    return [(NONE, st.copy()), (some(u), State(dict(st.store), f))]


@model("Instant::now", "Instant::elapsed", "Duration::default", "Default::default", "Duration::from_secs")
def _(I, a, st, body, t, dty):
    if "Duration" in dty or "Instant" in dty:
        return [(("time",), st)]
    return [(default_of(I, dty), st)]


@model("log::max_level")
def _(I, a, st, body, t, dty):
    return [(I.fresh("loglevel"), st)]


# ------------------------------------------------------------------ the term pool and term comparison
@model("TermPool::add", "TermPool::add_all_")
def _(I, a, st, body, t, dty):
    return [(I.strip(st, a[1]), st)]


@model("TermPool::sort")
def _(I, a, st, body, t, dty):
    x = I.strip(st, a[1])
    r = ("call", "sort", (x,))
    f = dict(st.facts)
    f[("v", r)] = "Sort"       # the pool's sort of a term is always a `Sort` term
    return [(r, State(st.store, f))]


def bool_const(b):
    return ("E", "ast::term::Term", "Const", (("E", "ast::term::Constant", "Bool", (("bool", b),)),))


BOOLCONST = {True: ("pool_const", True), False: ("pool_const", False)}


@model("TermPool::bool_true", "TermPool::bool_false", "TermPool::bool_constant")
def _(I, a, st, body, t, dty):
    return None


def poly(kind):
    def m(I, a, st, body, t, dty):
        x, y = I.strip(st, a[0]), I.strip(st, a[1])
        return [(sem(x, y), st)]
    return m


MODELS["local:ast::polyeq::polyeq"] = poly("polyeq")
MODELS["local:ast::polyeq::alpha_equiv"] = poly("alpha")


@model("local:ast::term::Term::as_fraction")
def _(I, a, st, body, t, dty):
    """Some(r) means that r is the value of the term (checked separately: prop_rules.constant_values)"""
    x = I.deref(st, a[0])
    out = []
    for b, y in bools(I, st, ("call", "isnum", (x,))):
        out.append((some(("call", "value", (x,))) if b else NONE, y))
    return out


def char_pred(fn):
    def m(I, a, st, body, t, dty):
        c = I.deref(st, a[0])
        if c[0] == "chr" and isinstance(c[1], str) and len(c[1]) == 1:
            return [(TRUE if fn(c[1]) else FALSE, st)]
        return None
    return m


for _n, _f in (("is_ascii_digit", lambda c: c.isascii() and c.isdigit()), ("is_ascii_alphanumeric", lambda c: c.isascii() and c.isalnum()),
               ("is_ascii_alphabetic", lambda c: c.isascii() and c.isalpha()), ("is_whitespace", str.isspace),
               ("is_ascii_whitespace", lambda c: c in " \t\n\r\f"), ("is_ascii_punctuation", lambda c: c.isascii() and c.isprintable() and not c.isalnum() and c != " ")):
    model("char::" + _n)(char_pred(_f))
