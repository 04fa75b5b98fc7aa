"""C10: what is printed is read back as the same proof."""
import re
import absint as A
import models
from absint import State, num, TRUE, FALSE, UNIT, norm, add, sub, length, Interp
from models import NONE, some, ok, err
from typestate import TS, gcell
from prop_driver import gs, finish, fget
from prop_parser import fnref

FILE = "ast/printer.rs"
PRINTER = "ast::printer::AlethePrinter"
OUT, POS = gcell("out"), gcell("pos")
PCELL = ("cell", "printer")
MARK = "\x01"


class Emit(TS):
    """runs a printing function on a term of a known shape; every write is appended to a trace"""

    def __init__(self, prog, extra=None, **kw):
        sm = {}
        for p, b in prog.bodies.items():
            if p.endswith("::print_with_sharing"):
                sm[p] = emit_term
            elif p.split("::")[-1] == "quote_symbol":
                sm[p] = lambda I, a, st, b, t, d: [(("call", "Q", (I.deref(st, a[0]),)), st)]
            elif p.split("::")[-1] == "escape_string":
                sm[p] = lambda I, a, st, b, t, d: [(("call", "ESC", (I.deref(st, a[0]),)), st)]
            elif b.file.endswith(FILE) and b.kind == "fn" and p.split("::")[-1] == "fmt":
                pass
        sm["ast::printer::PrintWithSharing::print_with_sharing"] = emit_term
        for n in ("std::io::Write::write_fmt", "io::Write::write_fmt", "Write::write_fmt", "Formatter::write_fmt", "Formatter::write_str", "Write::write_str",
                  "Write::write_all", "Write::write_char", "Formatter::write_char", "Formatter::pad"):
            sm[n] = emit
        def push(I, a, st, b, t, d):
            if a[0][0] != "mref":
                return None
            I.write(st, a[0][1], a[0][2], ("call", "cat", (I.deref(st, a[0]), I.deref(st, a[1]))))
            return [(UNIT, st)]
        for n in ("String::push_str", "String::push", "AddAssign::add_assign"):
            sm[n] = push
        sm["String::new"] = sm["String::with_capacity"] = lambda I, a, st, b, t, d: [(("str", ""), st)]
        sm["Arguments::as_str"] = lambda I, a, st, b, t, d: [(NONE, st)]
        sm["ast::pool::TermPool::add"] = lambda I, a, st, b, t, d: [(("call", "var", (I.deref(st, a[1]),)), st)]
        sm["ast::pool::TermPool::sort"] = lambda I, a, st, b, t, d: [(("call", "sort", (I.deref(st, a[1]),)), st)]
        sm["Vec::truncate"] = truncate
        sm["Display::fmt"] = disp
        sm["std::fmt::Display::fmt"] = disp
        sm["ToString::to_string"] = sm["alloc::string::ToString::to_string"] = lambda I, a, st, b, t, d: [(I.deref(st, a[0]), st)]
        sm.update(extra or {})
        pv = {p for p in prog.bodies if p.startswith("<ast::pool::") and p.split("::")[-1] in ("add", "sort")}
        for p in pv:
            sm.setdefault(p, sm["ast::pool::TermPool::" + p.split("::")[-1]])
        kw.setdefault("unroll", 8)
        TS.__init__(self, prog, sm, opaque=lambda p: p in prog.bodies and not (prog.bodies[p].file.endswith(FILE) or prog.bodies[p].file.endswith("ast/term.rs")), **kw)

    def field(self, st, v, variant, idx):
        if v[0] == "list" and idx == 0:      # BindingList is a newtype around a list
            return v
        return TS.field(self, st, v, variant, idx)

    def run_loop(self, body, fid, header, st):
        return self.unroll_loop(body, fid, header, st, body.loops()[header])


def truncate(I, a, st, b, t, d):
    L, n = I.deref(st, a[0]), I.deref(st, a[1])
    if a[0][0] == "mref" and L[0] == "list" and n[0] == "int":
        I.write(st, a[0][1], a[0][2], ("list", L[1][:n[1]]))
        return [(UNIT, st)]
    return None


def bound_now(I, st, p):
    v = I.deref(st, p)
    if v[0] == "S" and v[1] == PRINTER:
        x = fget(I.p, PRINTER, v, "bound_vars")
        return x[1] if x[0] == "list" else None
    return ()


def put(st, pieces):
    s = st.copy()
    s.store[OUT] = ("list", s.store[OUT][1] + tuple(pieces))
    return s


def emit_term(I, a, st, b, t, d):
    x = I.deref(st, a[0])
    return [(ok(UNIT), put(st, [("T", (x, ("list", tuple(bound_now(I, st, a[1]) or ())), I.deref(st, a[1])))]))]


def disp(I, a, st, b, t, d):
    return [(ok(UNIT), put(st, pieces(I, st, a[0], b, t)))]


def pieces(I, st, v, b, t):
    v = I.deref(st, v)
    if v[0] == "str":
        return [v]
    if v[0] == "chr":
        return [("str", chr(v[1]) if isinstance(v[1], int) else v[1])]
    if v[0] == "E" and v[1].endswith("Cow"):
        return pieces(I, st, v[3][0], b, t)
    if v[0] == "call":
        n = v[1].split("::")[-1]
        if v[1].startswith("bytes:") and not v[2]:
            return [("str", v[1][6:])]
        if n == "cat":
            return [p for x in v[2] for p in pieces(I, st, x, b, t)]
        if n in ("from_str", "from_str_nonconst") and "Arguments" in v[1]:
            return pieces(I, st, v[2][0], b, t)
        if v[1].endswith("Argument::new_display"):
            return pieces(I, st, v[2][0], b, t)
        if n in ("format", "must_use", "to_string", "to_owned", "into_owned", "as_bytes", "as_str", "into") and len(v[2]) == 1:
            return pieces(I, st, v[2][0], b, t)
        if v[1].endswith("Arguments::new"):
            tpl, args = I.deref(st, v[2][0]), I.deref(st, v[2][1])
            if tpl[0] == "call" and tpl[1].startswith("bytes:") and args[0] == "list":
                out, n = [], 0
                for p in decode(tpl[1][6:]):
                    if p is None:
                        out += pieces(I, st, args[1][n], b, t)
                        n += 1
                    else:
                        out.append(("str", p))
                return out
            raise A.Limit("format template not understood at " + b.where(t["ln"]))
    return [("D", (v,))]


def decode(s):
    """the literals and placeholders of a compiled format template"""
    out, i = [], 0
    while i < len(s):
        c = ord(s[i])
        if c == 0:
            break
        if c == 0xFFFD or c >= 0x80:
            out.append(None)
            i += 1
        else:
            out.append(s[i + 1:i + 1 + c])
            i += 1 + c
    return out


def emit(I, a, st, b, t, d):
    return [(ok(UNIT), put(st, pieces(I, st, a[1], b, t)))]


def render(ps):
    """the trace as one string, with a marker for each placeholder, and the placeholders"""
    s, vals = "", []
    for p in ps:
        if p[0] == "str":
            s += p[1]
        else:
            s += MARK
            vals.append(p)
    return canon(s), vals


def canon(s):
    s = re.sub(r"\s+", " ", s)
    s = re.sub(r"([^ (])\(", r"\1 (", s)
    s = re.sub(r"\)([^ )])", r") \1", s)
    s = re.sub(r"\( ", "(", s)
    return re.sub(r" \)", ")", s).strip()


def runs(prog, body, args, fields=None, extra=None, store=None):
    I = Emit(prog, extra)
    F = prog.adts[PRINTER]["variants"][0]["fields"]
    f = {"bound_vars": ("list", ())}
    f.update(fields or {})
    P = ("S", PRINTER, tuple(f.get(x["n"], ("in", "p." + x["n"])) for x in F))
    st = State({PCELL: P, OUT: ("list", ()), POS: num(0)}, {})
    st.store.update(store or {})
    return I, I.run(body, args, st)


PR = ("mref", PCELL, ())
OUTER = (("in", "outer"),)
TERM, STEP = "ast::term::Term", "ast::proof::ProofStep"


def variant(ty, name, *fs):
    return ("E", ty, name, tuple(fs))


def blist(names):
    return ("list", tuple(("T", (("in", "n" + i), ("in", "s" + i))) for i in names))


def xs(p, n):
    return tuple(("in", p + str(i)) for i in range(n))


def Q(v):
    return ("call", "Q", (v,))


class Case:
    """one run: the printing function, its arguments, and what it must print (parts: strings, or (modes, value[, bound variables]))"""

    def __init__(self, name, body, args, want, **kw):
        self.name, self.body, self.args, self.want, self.kw = name, body, args, want, kw


def compile_want(parts):
    s, vals = "", []
    for p in parts:
        if isinstance(p, str):
            s += p
        else:
            s += MARK
            vals.append(p)
    return canon(s), vals


def matches(got, want):
    gs_, gv = got
    ws, wv = compile_want(want)
    if gs_ != ws or len(gv) != len(wv):
        return "it prints `%s`, the grammar has `%s`" % (show(got), show_want(want))
    for g, w in zip(gv, wv):
        mode, val = g[0], g[1][0]
        if mode not in w[0] or val != w[1]:
            return "it prints `%s`, the grammar has `%s`" % (show(got), show_want(want))
        if mode == "T" and len(w) > 2 and not set(map(var_name, w[2])) <= set(map(var_name, g[1][1][1])):
            return "%s is printed while not all variables bound there are known to be" % short(val)
    return None


def var_name(v):
    """the name of a bound variable, which may be kept as a term"""
    if v[0] == "call" and v[1] == "var" and v[2][0][0] == "E":
        return v[2][0][3][0]
    return v


def short(v):
    if v[0] == "in":
        return str(v[1])
    if v[0] == "call":
        return "%s(%s)" % (v[1].split("::")[-1], ", ".join(short(x) for x in v[2]))
    if v[0] in ("E", "S"):
        return v[2] if v[0] == "E" else v[1].split("::")[-1]
    if v[0] == "str":
        return v[1]
    return v[0]


def show(got):
    s, vals = got
    out, k = "", 0
    for c in s:
        if c == MARK:
            out += "<%s>" % short(vals[k][1][0])
            k += 1
        else:
            out += c
    return out


def show_want(parts):
    c, vals = compile_want(parts)
    return show((c, [(m[0], (m[1],)) for m in vals]))


def bodies_of(prog, last, selfty=None):
    out = []
    for p, b in prog.bodies.items():
        if b.kind == "fn" and b.file.endswith(FILE) and p.split("::")[-1] == last and (selfty is None or ("<" + selfty + " as") in p or "Display for %s>" % selfty in p):
            out.append(b)
    return out


def only(prog, last, selfty=None):
    c = bodies_of(prog, last, selfty)
    if len(c) != 1:
        raise RuntimeError("anchor function %s%s not found (%d candidates)" % (last, " of " + selfty if selfty else "", len(c)))
    return c[0]


def seq(sep, parts):
    out = []
    for i, p in enumerate(parts):
        if i:
            out.append(sep)
        out.append(p)
    return out


TD = ("T", "D")


def term_cases(prog):
    b = only(prog, "write_raw_term")
    out = []
    t = lambda v, bound=OUTER: (("T",), v, bound)

    def case(name, term, want, **kw):
        out.append(Case(name, b, [PR, term], want, **kw))
    ops = variant(TERM, "Const", ("in", "c"))
    case("constant", ops, [(TD, ("in", "c"))], strict=FALSE)
    case("variable", variant(TERM, "Var", ("in", "name"), ("in", "sort")), [(("D",), Q(("in", "name")))])
    for n in (1, 2, 3):
        case("application", variant(TERM, "App", ("in", "f"), ("list", xs("a", n))), ["("] + seq(" ", [t(("in", "f"))] + [t(x) for x in xs("a", n)]) + [")"])
        case("operation", variant(TERM, "Op", ("in", "op"), ("list", xs("a", n))), ["("] + seq(" ", [(TD, ("in", "op"))] + [t(x) for x in xs("a", n)]) + [")"])
    case("operation", variant(TERM, "Op", ("in", "op"), ("list", ())), [(TD, ("in", "op"))])
    case("sort", variant(TERM, "Sort", ("in", "s")), [(("D",), ("in", "s"))])
    for n in (1, 2):
        ns = [str(i) for i in range(n)]
        var = lambda i, s: ("call", "var", (variant(TERM, "Var", ("in", "n" + i), s),))
        inner = OUTER + tuple(var(i, ("in", "s" + i)) for i in ns)
        case("binder", variant(TERM, "Binder", ("in", "b"), blist(ns), ("in", "body")),
             ["(", (("D",), ("in", "b")), " ", t(blist(ns)), " ", t(("in", "body"), inner), ")"])
        inner = OUTER + tuple(var(i, ("call", "sort", (("in", "s" + i),))) for i in ns)
        case("let", variant(TERM, "Let", blist(ns), ("in", "body")), ["(let ", t(blist(ns)), " ", t(("in", "body"), inner), ")"])
    pops = [v["n"] for v in prog.adts["ast::term::ParamOperator"]["variants"]]
    for o in pops:
        op = variant("ast::term::ParamOperator", o)
        for k, n in ((1, 0), (1, 2), (2, 1)):
            if o == "ArrayConst" and k > 1:
                continue
            head = ["(", "as " if o == "ArrayConst" else "_ "] + seq(" ", [(TD, op)] + [t(x) for x in xs("i", k)]) + [")"]
            want = head if not n else ["("] + head + sum([[" ", t(x)] for x in xs("a", n)], []) + [")"]
            case("parameterised operation %s" % o, variant(TERM, "ParamOp", op, ("list", xs("i", k)), ("list", xs("a", n))), want)
    return out


def list_cases(prog):
    out = []
    t = lambda v: (("T",), v, OUTER)
    pw = lambda ty: only(prog, "print_with_sharing", ty)
    sv = [b for b in bodies_of(prog, "print_with_sharing") if b.locals[1].startswith("&(")]
    if len(sv) != 1:
        raise RuntimeError("anchor function print_with_sharing of a sorted variable not found")
    out.append(Case("sorted variable", sv[0], [("T", (("in", "n0"), ("in", "s0"))), PR], ["(", (("D",), Q(("in", "n0"))), " ", t(("in", "s0")), ")"]))
    for n in (0, 1, 2):
        ns = [str(i) for i in range(n)]
        bl = blist(ns)
        out.append(Case("binding list", pw("ast::term::BindingList"), [bl, PR], ["("] + seq(" ", [t(x) for x in bl[1]]) + [")"]))
        w = []
        for i in ns:
            w += ["(", (("D",), Q(("in", "n" + i))), " ", (TD, ("in", "s" + i)), ")"] + ([" "] if i != ns[-1] else [])
        out.append(Case("binding list (Display)", only(prog, "fmt", "ast::term::BindingList"), [bl, ("in", "f")], ["("] + w + [")"]))
    for ty in ("Constant", "Operator", "ParamOperator"):
        out.append(Case(ty.lower(), pw("ast::term::" + ty), [("in", "self"), PR], [(("D",), ("in", "self"))]))
    so = only(prog, "fmt", "ast::term::Sort")
    S = "ast::term::Sort"
    F = ("in", "f")
    d = lambda v: (TD, v)
    for n in ("Bool", "Int", "Real", "String", "RegLan"):
        out.append(Case("sort " + n, so, [variant(S, n), F], [n]))
    out.append(Case("sort Array", so, [variant(S, "Array", ("in", "x"), ("in", "y")), F], ["(Array ", d(("in", "x")), " ", d(("in", "y")), ")"]))
    out.append(Case("sort BitVec", so, [variant(S, "BitVec", ("in", "w")), F], ["(_ BitVec ", d(("in", "w")), ")"]))
    for n in (0, 1, 2):
        head = (("D",), Q(("in", "name")))
        args = [d(x) for x in xs("a", n)]
        out.append(Case("declared sort", so, [variant(S, "Atom", ("S", "Box", (("in", "name"),)), ("S", "Box", (("list", xs("a", n)),))), F], ["("] + seq(" ", [head] + args) + [")"] if n else [head]))
    return out


def struct(prog, ty, **fs):
    return ("S", ty, tuple(fs.get(f["n"], ("in", f["n"])) for f in prog.adts[ty]["variants"][0]["fields"]))


def premise_id(i):
    return Q(("call", "id", (("call", "premise", (i,)),)))


def step_cases(prog):
    b = only(prog, "write_step")
    out = []
    t = lambda v: (("T",), v, OUTER)
    for nc, np, na, nd in ((0, 0, 0, 0), (1, 1, 1, 1), (2, 2, 2, 2), (1, 0, 2, 0), (2, 2, 0, 1), (1, 0, 0, 2), (3, 3, 3, 3)):
        P = tuple(("T", (("in", "pd%d" % i), ("in", "pi%d" % i))) for i in range(np))
        D = tuple(("T", (("in", "dd%d" % i), ("in", "di%d" % i))) for i in range(nd))
        s = struct(prog, STEP, clause=("list", xs("c", nc)), premises=("list", P), args=("list", xs("a", na)), discharge=("list", D))
        w = ["(step ", (("D",), Q(("in", "id"))), " (cl"] + sum([[" ", t(x)] for x in xs("c", nc)], []) + [")", " :rule ", (("D",), "rule")]
        if np:
            w += [" :premises ("] + seq(" ", [(("D",), premise_id(x)) for x in P]) + [")"]
        if na:
            w += [" :args ("] + seq(" ", [t(x) for x in xs("a", na)]) + [")"]
        if nd:
            w += [" :discharge ("] + seq(" ", [(("D",), premise_id(x)) for x in D]) + [")"]
        out.append(Case("step", b, [PR, ("in", "iter"), s], w + [")"], rule=("in", "rule")))
    return out


def ids():
    def premise(I, a, st, b, t, d):
        return [(("call", "premise", (I.deref(st, a[1]),)), st)]

    def cid(I, a, st, b, t, d):
        return [(("call", "id", (I.deref(st, a[0]),)), st)]
    return {"ProofIter::get_premise": premise, "ast::iter::ProofIter::<'a>::get_premise": premise, "ast::proof::ProofCommand::id": cid, "ProofCommand::id": cid}


def reserved_ok(facts, rule):
    """the path knows that the rule's name is a reserved word"""
    for k, x in facts.items():
        if k[0] == "v" and k[1][0] == "call" and k[1][1].endswith("from_str") and "Reserved" in k[1][1] and k[1][2] == (rule,) and x == "Ok":
            return True
    return False


def run_case(prog, c, viol):
    strict = c.kw.get("strict")
    fields = {"bound_vars": ("list", OUTER)}
    if strict is not None:
        fields["smt_lib_strict"] = strict
    fields.update(c.kw.get("fields", {}))
    extra = ids()
    extra.update(c.kw.get("extra", {}))
    n = 0
    I, rs = runs(prog, c.body, c.args, fields, extra, c.kw.get("store"))
    for v, s in rs:
        if not (v[0] == "E" and v[2] == "Ok"):
            continue
        n += 1
        want = c.want(s) if callable(c.want) else c.want
        if "rule" in c.kw:
            r = c.kw["rule"]
            ok_ = [r, Q(r)] if reserved_ok(s.facts, r) else [Q(r)]
            got_rule = [p[1][0] for p in render(s.store[OUT][1])[1]]
            r1 = next((x for x in ok_ if x in got_rule), Q(r))
            want = [p if isinstance(p, str) or p[1] != "rule" else (p[0], r1) for p in want]
        e = matches(render(s.store[OUT][1]), want)
        if e is None and c.body.argc and not set(OUTER) <= set(map(var_name, fget(prog, PRINTER, s.store[PCELL], "bound_vars")[1])):
            e = "the variables bound around it are forgotten after it"
        if e:
            I.report("print:%s" % c.name.split(" ")[0], "printing a %s: %s" % (c.name, e), c.body)
    if not n:
        I.report("print:%s" % c.name.split(" ")[0], "printing a %s never succeeds" % c.name, c.body)
    viol.update({k: m for k, m in I.viol.items() if k not in viol})
    return n, len(I.obls)


def const_cases(prog):
    """constants: (case, what each path must print given what it knows)"""
    C, R = ("in", "c"), ("fld", ("in", "c"), "Real", 0)
    fl = lambda n, i: ("fld", C, n, i)
    N = lambda v, *a: ("call", v, a)

    def plain(s):
        v = s.facts.get(("v", C))
        if v == "BitVec":
            return [["(_ bv", (("D",), fl(v, 0)), " ", (("D",), fl(v, 1)), ")"]]
        if v == "String":
            return [['"', (("D",), N("ESC", fl(v, 0))), '"']]
        if v == "Integer":
            return [[(("D",), fl(v, 0))]]
        out = [[(("D",), N("Rational::numer", R)), "/", (("D",), N("Rational::denom", R))]]
        if known(s.facts, "is_integer", R):
            out += [[(("D",), N("Rational::numer", R)), ".0"]]
        return out

    def strict(s):
        v = s.facts.get(("v", C))
        if v == "Integer" or v == "Real":
            x = fl(v, 0)
            neg = s.facts.get(("b", ("lt0", x)))
            if neg is None and s.facts.get(("b", ("le0", x))) is False:
                neg = False
            wrap = (lambda w: ["(- "] + w + [")"]) if neg else (lambda w: w)
            if v == "Integer":
                return [wrap([(("D",), N("Integer::abs", x))])] + ([[(("D",), x)]] if neg is False else [])
            nu, de = N("Rational::numer", x), N("Rational::denom", x)
            out = [wrap(["(/ ", (("D",), N("Integer::abs", nu)), ".0 ", (("D",), de), ".0)"])]
            if neg is False:
                out.append(["(/ ", (("D",), nu), ".0 ", (("D",), de), ".0)"])
            if known(s.facts, "is_integer", x):
                ws = [N("Rational::abs", x), N("Integer::abs", nu)] + ([x, nu] if neg is False else [])
                out += [wrap([(("D",), w), ".0"]) for w in ws]
            return out if neg is not None else []
        if {"Integer", "Real"} <= set(s.facts.get(("nv", C), ())):
            return [[(("T", "D"), C)]]
        return plain(s) if v else []
    return [("constant", only(prog, "fmt", "ast::term::Constant"), [C, ("in", "f")], {}, plain),
            ("constant in a query", only(prog, "write_raw_term"), [PR, variant(TERM, "Const", C)], {"smt_lib_strict": TRUE}, strict)]


def known(facts, fn, x):
    return any(k[0] == "b" and k[1][0] == "call" and k[1][1].endswith(fn) and k[1][2] == (x,) and v is True for k, v in facts.items())


def constants(prog, viol):
    n = 0
    for name, b, args, fields, want in const_cases(prog):
        f = {"bound_vars": ("list", OUTER)}
        f.update(fields)
        I, rs = runs(prog, b, args, f)
        for v, s in rs:
            if v[2] != "Ok":
                continue
            n += 1
            got = render(s.store[OUT][1])
            es = [matches(got, w) for w in want(s)]
            if not es or None not in es:
                I.report("print:constant", "printing a %s: %s" % (name, es[0] if es else "it prints `%s` without knowing the sign" % show(got)), b)
        viol.update(I.viol)
    return n


# ------------------------------------------------------------------ tables
def run_display(prog, ty, name):
    c = [b for p, b in prog.bodies.items() if b.kind == "fn" and p.split("::")[-1] == "fmt" and ("<%s as std::fmt::Display>" % ty in p or "Display for %s>" % ty in p)]
    if len(c) != 1:
        raise RuntimeError("anchor: Display of %s not found" % ty)
    I, rs = runs(prog, c[0], [variant(ty, name), ("in", "f")])
    out = {show(render(s.store[OUT][1])) if not render(s.store[OUT][1])[1] else None for v, s in rs}
    return out.pop() if len(out) == 1 else None, c[0]


def run_parse(prog, ty, s):
    c = [b for p, b in prog.bodies.items() if b.kind == "fn" and p.split("::")[-1] == "from_str" and "%s as std::str::FromStr" % ty in p]
    if len(c) != 1:
        raise RuntimeError("anchor: FromStr of %s not found" % ty)
    rs = Interp(prog, {}).run(c[0], [("str", s)], State({}, {}))
    return [v for v, _ in rs]


SYMCHARS = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789+-/*=%?!.$_~&^<>@'")


def tables(prog, viol):
    """every operator's name is read back as that operator"""
    n = 0
    res = {v["n"]: run_display(prog, "parser::lexer::Reserved", v["n"])[0] for v in prog.adts["parser::lexer::Reserved"]["variants"]}
    for ty, label in (("ast::term::Operator", "operator"), ("ast::term::ParamOperator", "parameterised operator"), ("parser::lexer::Reserved", "reserved word")):
        for v in prog.adts[ty]["variants"]:
            n += 1
            s, b = run_display(prog, ty, v["n"])
            back = run_parse(prog, ty, s) if s is not None else None
            if s is None or back != [ok(variant(ty, v["n"]))]:
                viol.setdefault("name:%s" % v["n"], "the %s %s is printed as `%s`, which is not read back as it at %s" % (label, v["n"], s, b.where(b.line)))
            elif ty != "parser::lexer::Reserved" and (s in res.values() or not set(s) <= SYMCHARS or re.match("-?[0-9]", s)):
                if res.get(v["n"]) == s:
                    continue
                viol.setdefault("name:%s" % v["n"], "the %s %s is printed as `%s`, which is not read as a symbol at %s" % (label, v["n"], s, b.where(b.line)))
    # binders are read through their reserved word
    for v in prog.adts["ast::term::Binder"]["variants"]:
        n += 1
        s, b = run_display(prog, "ast::term::Binder", v["n"])
        if s != res.get(v["n"]):
            viol.setdefault("name:%s" % v["n"], "the binder %s is printed as `%s`, not as its reserved word at %s" % (v["n"], s, b.where(b.line)))
    return n, sorted(res.values())


def strip_calls(v, names):
    return v[0] == "call" and v[1].split("::")[-1] in names


def fact(facts, fn, args, val):
    return any(k[0] == "b" and strip_calls(k[1], (fn,)) and k[1][2][:len(args)] == args and x is val for k, x in facts.items())


def quoting(prog, viol):
    """a symbol is left unquoted only if it is read back as that symbol; strings are escaped"""
    b = only(prog, "quote_symbol")
    I = Emit(prog)
    del I.summaries[b.path]
    n = 0
    s_ = ("in", "s")
    chars = ("call", "str::chars", (s_,))

    def digit_test(f):
        if f[0] == "C" and f[1] in prog.bodies:
            cb = prog.bodies[f[1]]
            for c in "0123456789":
                if [v for v, _ in Interp(prog, {}).run(cb, [f, ("chr", c)], State({}, {}))] != [TRUE]:
                    return False
            return True
        return "is_ascii_digit" in str(f) or "is_numeric" in str(f)

    def not_digit(facts, x):
        return any(k[0] == "b" and strip_calls(k[1], ("starts_with",)) and k[1][2][0] == x and v is False and digit_test(k[1][2][1]) for k, v in facts.items())

    def all_symbol(facts):
        for k, v in facts.items():
            if k[0] == "all" and v is True and k[2] == num(0) and k[3] == length(chars):
                want = ("b", ("call", "utils::is_symbol_character", (("elem", chars, k[1]),)))
                if any(all((want, True) in alt for alt in alts) for alts in (k[4],)):
                    return True
        return False

    def minus(facts):
        """is the symbol known to start (True) or not to start (False) with a minus sign, and what follows it"""
        for k, v in facts.items():
            if k[0] == "v" and strip_calls(k[1], ("strip_prefix",)) and k[1][2] in ((s_, ("chr", "-")), (s_, ("str", "-"))):
                return v == "Some", ("fld", k[1], "Some", 0)
            if k[0] == "b" and strip_calls(k[1], ("starts_with",)) and k[1][2] in ((s_, ("chr", "-")), (s_, ("str", "-"))) and v is False:
                return False, None
        return None, None
    for v, st in I.run(b, [s_], State({OUT: ("list", ()), POS: num(0)}, {})):
        n += 1
        got = render(pieces(I, st, v, b, {"ln": b.line}))
        if got == ("|%s|" % MARK, [("D", (s_,))]):
            continue
        if got != (MARK, [("D", (s_,))]):
            I.report("quote:shape", "a symbol is printed as `%s`" % show(got), b)
            continue
        f = st.facts
        m, rest = minus(f)
        if not (fact(f, "is_empty", (s_,), False) or I.cond_value(f, A.c_eq0(length(s_))) is False):
            I.report("quote:empty", "the empty symbol is printed without quotes", b)
        if not (m is True or not_digit(f, s_)):
            I.report("quote:digit", "a symbol that starts with a digit is printed without quotes", b)
        if not (m is False or m is True and not_digit(f, rest)):
            I.report("quote:negative", "a symbol that starts with a minus sign and a digit is printed without quotes", b)
        if not any(k[0] == "v" and strip_calls(k[1], ("from_str",)) and "Reserved" in k[1][1] and k[1][2] == (s_,) and x == "Err" for k, x in f.items()):
            I.report("quote:reserved", "a symbol that is a reserved word is printed without quotes", b)
        if not all_symbol(f):
            I.report("quote:characters", "a symbol with other characters than symbol characters is printed without quotes", b)
    sc = prog.bodies.get("utils::is_symbol_character")
    if sc is not None:
        for c in map(chr, range(128)):
            n += 1
            r = [v for v, _ in Interp(prog, {}).run(sc, [("chr", c)], State({}, {}))]
            if c not in SYMCHARS and r != [FALSE]:
                I.report("quote:separator", "the character %r is taken for a character of unquoted symbols" % c, sc)
    b = only(prog, "escape_string")
    J = Emit(prog)
    del J.summaries[b.path]
    need = {'"': '""', "\\u": "\\u{5c}u"}
    for v, st in J.run(b, [s_], State({OUT: ("list", ()), POS: num(0)}, {})):
        n += 1
        done = set()
        x = v[3][0] if v[0] == "E" and v[1].endswith("Cow") else v
        while x[0] == "call" and x[1].split("::")[-1] in ("replace", "to_string", "to_owned", "into"):
            if x[1].split("::")[-1] == "replace":
                frm = x[2][1][1] if x[2][1][0] in ("chr", "str") else None
                to = x[2][2][1] if x[2][2][0] in ("chr", "str") else None
                if need.get(frm) != to:
                    J.report("escape:wrong", "%r is replaced by %r in strings" % (frm, to), b)
                done.add(frm)
            x = x[2][0]
        if x != s_:
            J.report("escape:shape", "an escaped string is not made from the string", b)
        for frm in need:
            if frm not in done and not (fact(st.facts, "contains", (s_, ("chr", frm)), False) or fact(st.facts, "contains", (s_, ("str", frm)), False)):
                J.report("escape:%s" % {'"': "quote"}.get(frm, "unicode"), "%r is not escaped in strings" % frm, b)
    viol.update(I.viol)
    viol.update(J.viol)
    return n


# ------------------------------------------------------------------ sharing
def sharing(prog, viol):
    """a name is printed only for the term it was given to, and only where it means that term"""
    b = only(prog, "print_with_sharing", "ast::rc::Rc<ast::term::Term>")
    T_ = ("in", "t")
    outer = OUTER[0]

    def raw(I, a, st, bd, t, d):
        return [(ok(UNIT), put(st, [("RAW", (I.deref(st, a[1]),))]))]

    def closed(I, a, st, bd, t, d):
        g = [I.deref(st, x) for x in a]
        return [(("call", "is_closed", tuple(x for x in g if x in (T_, ("in", "p.global_vars")))), st)]

    def insert(I, a, st, bd, t, d):
        x, y = I.deref(st, a[1]), I.deref(st, a[2])
        s = st.copy()
        s.store[POS] = ("T", (x, y))
        return [(NONE, s)]
    extra = {}
    for p, q in prog.bodies.items():
        n = p.split("::")[-1]
        if n == "write_raw_term":
            extra[p] = raw
        if n == "is_closed":
            extra[p] = closed
    for n in ("IndexMap::insert", "HashMap::insert"):
        extra[n] = insert
    I, rs = runs(prog, b, [T_, PR], {"bound_vars": ("list", OUTER)}, extra)
    n = 0

    def captured(facts):
        """whether the path does not exclude that the outer variable is free in the term"""
        for k, x in facts.items():
            if k[0] == "b" and strip_calls(k[1], ("contains",)) and k[1][2][1] == outer and x is False and mentions(k[1][2][0], T_) and "free_vars" in repr(k[1][2][0]):
                return False
            if k[0] == "all" and x is True and k[2] == num(0) and mentions(k[3], T_) and "free_vars" in repr(k[3]):
                if all(any(c[0] == "b" and c[1][0] == "eq" and outer in c[1] and mentions(c[1], k[1]) and y is False for c, y in alt) for alt in k[4]):
                    return False
        return True

    def shareable(facts):
        if captured(facts):
            return "where a bound variable captures it"
        v = facts.get(("v", T_))
        if not (v is not None and v != "Sort" or "Sort" in facts.get(("nv", T_), ())):
            return "though it may be a sort"
        return None
    PRE = ("in", "p.term_sharing_variable_prefix")
    for v, s in rs:
        if v[2] != "Ok":
            continue
        n += 1
        txt, vals = render(s.store[OUT][1])
        vs = [x[1][0] for x in vals]
        f = s.facts
        if txt == MARK and vals[0][0] == "RAW":
            if vs[0] != T_:
                I.report("share:raw", "a term is printed as another term", b)
        elif txt == MARK and vs[0][0] == "call" and vs[0][1] == "Q":
            k = vs[0][2][0]
            src = k[1] if k[0] == "fld" else k
            if not (src[0] == "call" and src[1].endswith("::get") and src[2] == (("in", "p.defined_constants"), T_)):
                I.report("share:constant", "a term is printed as a defined name that does not stand for it", b)
            elif captured(f):
                I.report("share:constant-captured", "a term is printed as a defined name where a bound variable captures it", b)
        elif txt == MARK * 2:
            k = vs[1]
            src = k[1] if k[0] == "fld" else k
            if vs[0] != PRE or not (src[0] == "call" and src[1].endswith("::get") and mentions(src[2][0], ("in", "p.term_indices")) and src[2][1] == T_):
                I.report("share:index", "a term is printed as a shared name that was not given to it", b)
            elif shareable(f):
                I.report("share:use", "a term is printed as a shared name %s" % shareable(f), b)
        elif txt == "(! %s :named %s)" % (MARK, MARK * 2):
            ins = s.store[POS]
            if vals[0][0] != "RAW" or vs[0] != T_ or vs[1] != PRE:
                I.report("share:definition", "a shared term is not printed with its name", b)
            elif ins[0] != "T" or ins[1][0] != T_ or ins[1][1] != vs[2]:
                I.report("share:recorded", "the name given to a shared term is not recorded for it", b)
            elif not (vs[2][0] in ("len", "call") and "p.term_indices" in repr(vs[2])):
                I.report("share:fresh", "the name given to a shared term may be that of another one", b)
            elif shareable(f):
                I.report("share:define", "a term is given a shared name %s" % shareable(f), b)
        else:
            I.report("share:shape", "a term is printed as `%s`" % show((txt, vals)), b)
    if n < 3:
        I.report("share:anchor", "the printing of terms is not understood (%d paths)" % n, b)
    viol.update(I.viol)
    return n


def mentions(v, x):
    if v == x:
        return True
    return isinstance(v, tuple) and any(mentions(y, x) for y in v if isinstance(y, tuple))


# ------------------------------------------------------------------ whole proofs
CMD = "ast::proof::ProofCommand"
AARG = "ast::proof::AnchorArg"


def proof(prog, viol):
    """every command is printed, in order, within its subproof"""
    b = only(prog, "write_proof")

    def st_(n):
        return variant(CMD, "Step", struct(prog, STEP, id=("in", n + ".id")))

    def sub_(n, args):
        return variant(CMD, "Subproof", struct(prog, "ast::proof::Subproof", args=("list", tuple(args))))
    V = lambda n: variant(AARG, "Variable", ("T", (("in", n), ("in", n + ".sort"))))
    G = lambda n: variant(AARG, "Assign", ("T", (("in", n), ("in", n + ".sort"))), ("in", n + ".value"))
    asm = lambda n: variant(CMD, "Assume", ("in", n + ".id"), ("in", n + ".term"))
    cmds = [(asm("a1"), 0), (st_("s1"), 0), (sub_("S1", [V("x"), G("y")]), 0), (st_("s2"), 0), (asm("a2"), 0), (sub_("S2", [G("z"), V("w")]), 0), (st_("s3"), 1),
            (st_("s4"), 0), (sub_("S3", []), 0), (st_("s5"), 1), (st_("s6"), 1), (asm("a3"), 0)]

    def nxt(I, a, st, bd, t, d):
        k = st.store[POS][1]
        s = st.copy()
        s.store[POS] = num(k + 1)
        return [(some(cmds[k][0]) if k < len(cmds) else NONE, s)]

    def end(I, a, st, bd, t, d):
        k = st.store[POS][1]
        return [(TRUE if 0 < k <= len(cmds) and cmds[k - 1][1] else FALSE, st)]

    def step(I, a, st, bd, t, d):
        return [(ok(UNIT), put(st, [("T", (I.deref(st, a[2]), ("list", tuple(bound_now(I, st, a[0]) or ())), I.deref(st, a[0])))]))]

    def cid(I, a, st, bd, t, d):
        return [(("call", "id", (I.deref(st, a[0]),)), st)]

    def seqmap(I, a, st, bd, t, d):
        return [(("call", "defs", (I.deref(st, a[0]),)), st)]
    extra = {"Proof::iter": lambda I, a, st, bd, t, d: [(("in", "iter"), st)], "ast::proof::Proof::iter": lambda I, a, st, bd, t, d: [(("in", "iter"), st)],
             "ast::proof::ProofCommand::id": cid, "ProofIter::is_end_step": end, "HashMap::clear": lambda I, a, st, bd, t, d: [(UNIT, st)]}

    def put_def(I, a, st, bd, t, d):
        L = I.deref(st, a[0])
        if a[0][0] == "mref" and L[0] == "list":
            I.write(st, a[0][1], a[0][2], ("list", L[1] + (("T", (I.deref(st, a[1]), I.deref(st, a[2]))),)))
            return [(NONE, st)]
        return None
    extra["HashMap::insert"] = put_def
    for p in prog.bodies:
        n = p.split("::")[-1]
        if n == "write_step":
            extra[p] = step
        if p.startswith("<ast::iter::ProofIter") and n == "next":
            extra[p] = nxt
        if "ProofIter" in p and n == "is_end_step":
            extra[p] = end
    D = ("list", tuple(("T", (("in", "d%d" % i), ("in", "v%d" % i))) for i in range(2)))
    P = struct(prog, "ast::proof::Proof", constant_definitions=D)
    I = Emit(prog, extra, unroll=len(cmds) + 2)
    F = prog.adts[PRINTER]["variants"][0]["fields"]
    f = {"bound_vars": ("list", OUTER), "defined_constants": ("list", ())}
    self_ = ("S", PRINTER, tuple(f.get(x["n"], ("in", "p." + x["n"])) for x in F))
    rs = I.run(b, [PR, P], State({PCELL: self_, OUT: ("list", ()), POS: num(0)}, {}))
    # expected text
    t = lambda v, bound=OUTER: (("T",), v, tuple(bound))
    q = lambda v: (("D",), Q(v))
    want = []
    for i in range(2):
        want += ["(define-fun ", q(("in", "d%d" % i)), " () ", t(("call", "sort", (("in", "v%d" % i),))), " ", t(("in", "v%d" % i)), ") "]
    stack, bound = [], list(OUTER)
    for c, e in cmds:
        if c[2] == "Assume":
            want += ["(assume ", q(c[3][0]), " ", t(c[3][1], bound), ") "]
        elif c[2] == "Step":
            want += [t(c[3][0], bound), " "]
            if e:
                bound = stack.pop()
        else:
            stack.append(list(bound))
            want += ["(anchor :step ", q(("call", "id", (c,)))]
            args = fget(prog, "ast::proof::Subproof", c[3][0], "args")[1]
            parts = []
            for a in args:
                if a[2] == "Variable":
                    nm, so = a[3][0][1]
                    parts.append(["(", q(nm), " ", t(so, bound), ")"])
                    bound = bound + [("call", "var", (variant(TERM, "Var", nm, so),))]
                else:
                    nm, so = a[3][0][1]
                    parts.append(["(:= ", t(a[3][0], bound), " ", t(a[3][1], bound), ")"])
                    bound = bound + [("call", "var", (variant(TERM, "Var", nm, so),))]
            if parts:
                want += [" :args ("] + [x for k, p in enumerate(parts) for x in ([" "] if k else []) + p] + [")"]
            want += [") "]
    n = 0
    for v, s in rs:
        if v[2] != "Ok":
            continue
        n += 1
        got = render(s.store[OUT][1])
        e = matches(got, want)
        if e:
            I.report("proof:commands", "printing a proof: " + first_diff(got, want, e), b)
            continue
        for k, (g, w) in enumerate(zip(got[1], compile_want(want)[1])):
            if g[0] != "T":
                continue
            dc = fget(prog, PRINTER, g[1][2], "defined_constants")
            if g[1][0] in (("in", "v0"), ("in", "v1")) and dc != ("list", ()):
                I.report("proof:definition", "the value of a defined name is printed as its own name", b)
            if dc[0] == "list" and dc[1] and sorted(map(repr, dc[1])) != sorted(repr(("T", (x[1][1], x[1][0]))) for x in D[1]):
                I.report("proof:constants", "the defined names do not stand for their terms", b)
            elif dc[0] != "list" and not defs_ok(I, s, dc, D, prog):
                I.report("proof:constants", "the defined names do not stand for their terms", b)
    if not n:
        I.report("proof:commands", "printing a proof never succeeds", b)
    viol.update(I.viol)
    return n


def defs_ok(I, s, dc, D, prog):
    """a map collected from the definitions, with names and terms swapped"""
    if dc[0] == "call" and dc[1].split("::")[-1] in ("collect", "from_iter", "from") and dc[2][0][0] == "it":
        sq = dc[2][0][1]
        if sq[0] == "map" and sq[1] == ("of", D):
            for x in D[1]:
                r = I.closure_call(sq[2], [x], s.copy(), None, None, "?")
                if [v for v, _ in r] != [("T", (x[1][1], x[1][0]))]:
                    return False
            return True
    return False


def first_diff(got, want, e):
    gs_, gv = got
    ws, wv = compile_want(want)
    a, b = show(got), show_want(want)
    if a == b:
        return e if "known" in e else "a component is printed in the place of another one"
    k = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return "it prints `...%s...`, the grammar has `...%s...`" % (a[max(0, k - 30):k + 40], b[max(0, k - 30):k + 40])




# ------------------------------------------------------------------ entry points
def entries(prog, viol):
    """the entry points print what they are given, with the options they are given"""
    n = 0
    seen = []

    def wp(I, a, st, bd, t, d):
        seen.append((I.deref(st, a[0]), I.deref(st, a[1])))
        return [(ok(UNIT), st)]
    extra = {p: wp for p, q in prog.bodies.items() if p.split("::")[-1] == "write_proof" and q.file.endswith(FILE)}
    extra["io::stdout"] = extra["std::io::stdout"] = lambda I, a, st, bd, t, d: [(("in", "stdout"), st)]
    for name, pos, dest in (("print_proof", 2, None), ("write_proof_to_dest", 2, 3)):
        b = only(prog, name)
        us = b.argc
        for val in (TRUE, FALSE):
            del seen[:]
            args = [("in", "x%d" % i) for i in range(b.argc)]
            args[us - 1] = val
            runs(prog, b, args, None, extra)
            n += 1
            where = b.where(b.line)
            if not seen:
                viol.setdefault("entry:" + name, "%s never prints the proof at %s" % (name, where))
            for p, pr in seen:
                g = lambda f: fget(prog, PRINTER, p, f)
                sh = g("term_indices")
                if pr != ("in", "x%d" % pos):
                    viol.setdefault("entry:proof", "%s prints another proof at %s" % (name, where))
                if sh[0] != "E" or (sh[2] == "Some") != (val == TRUE):
                    viol.setdefault("entry:sharing", "%s does not share terms exactly when asked to at %s" % (name, where))
                if dest is not None and g("inner") != ("in", "x%d" % dest):
                    viol.setdefault("entry:dest", "%s does not write to its destination at %s" % (name, where))
                if g("defined_constants") not in (("list", ()),) and "new" not in repr(g("defined_constants")) and "default" not in repr(g("defined_constants")):
                    viol.setdefault("entry:constants", "%s starts with names defined already at %s" % (name, where))
                gv = g("global_vars")
                if val == TRUE and not globals_ok(gv, ("in", "x1")):
                    viol.setdefault("entry:globals", "%s takes other symbols than the declared ones for global at %s" % (name, where))
                if g("smt_lib_strict") not in (TRUE, FALSE):
                    viol.setdefault("entry:strict", "%s: the notation of constants is not fixed at %s" % (name, where))
    # queries for external solvers
    t = lambda v: (("T",), v)

    def dedup(I, a, st, bd, t_, d):
        return [(I.deref(st, a[0]) if a[0][0] == "mref" else a[0], st)]
    ex = {p: dedup for p in prog.bodies if p.split("::")[-1] == "dedup"}
    ex["utils::DedupIterator::dedup"] = dedup
    for p in prog.bodies:
        if p.startswith("<utils::Dedup<") and p.endswith("::next"):
            ex[p] = models.MODELS["Iterator::next"]
    for name, want, k in (("write_lia_smt_instance", lambda x: ["(assert (not ", t(x), ")) "], 3), ("write_asserts", lambda x: ["(assert ", t(x), ") "], 3)):
        b = [q for q in bodies_of(prog, name) if q.argc == 5]
        if len(b) != 1:
            raise RuntimeError("anchor function %s not found" % name)
        b = b[0]
        args = [("in", "x%d" % i) for i in range(5)]
        args[k] = ("list", xs("c", 3))
        I, rs = runs(prog, b, args, None, ex)
        for v, s in rs:
            if v[2] != "Ok":
                continue
            n += 1
            got = render(s.store[OUT][1])
            e = matches(got, [p for x in xs("c", 3) for p in want(x)])
            if e:
                I.report("query:" + name, "the query for a solver: " + e, b)
                continue
            for g in got[1]:
                p = g[1][2]
                if fget(prog, PRINTER, p, "smt_lib_strict") != TRUE:
                    I.report("query:strict", "constants of a query for a solver are not printed in SMT-LIB notation", b)
                pre = fget(prog, PRINTER, p, "term_sharing_variable_prefix")
                if pre[0] != "str" or pre[1][:1] in ("@", "."):
                    I.report("query:prefix", "the names of shared terms in a query for a solver are reserved in SMT-LIB", b)
        if not rs:
            I.report("query:" + name, "the query for a solver is never printed", b)
        viol.update(I.viol)
    # prelude
    b = only(prog, "fmt", "ast::problem::ProblemPrelude")
    S = lambda v: variant(TERM, "Sort", v)
    fs = S(variant("ast::term::Sort", "Function", ("list", (("in", "A"), ("in", "B"), ("in", "C")))))
    f0 = S(variant("ast::term::Sort", "Int"))
    d = lambda v: (("D", "T"), v)
    q = lambda v: (("D",), Q(v))
    for logic in (NONE, some(("in", "L"))):
        self_ = struct(prog, "ast::problem::ProblemPrelude", logic=logic, sort_declarations=("list", (("T", (("in", "s"), ("in", "n"))),)),
                       function_declarations=("list", (("T", (("in", "f"), fs)), ("T", (("in", "g"), f0)))))
        I, rs = runs(prog, b, [self_, ("in", "f")])
        want = ["(set-logic ", "ALL" if logic == NONE else d(("in", "L")), ") (declare-sort ", q(("in", "s")), " ", d(("in", "n")), ") (declare-fun ", q(("in", "f")), " (",
                d(("in", "A")), " ", d(("in", "B")), ") ", d(("in", "C")), ") (declare-fun ", q(("in", "g")), " () ", d(f0[3][0]), ") "]
        for v, s in rs:
            n += 1
            got = render(s.store[OUT][1])
            e = matches(got, want)
            if e:
                want2 = [p if isinstance(p, str) or p[1] != f0[3][0] else d(f0) for p in want]
                e = matches(got, want2)
            if e:
                I.report("prelude", "printing the declarations of a problem: " + first_diff(got, want, e), b)
        viol.update(I.viol)
    return n


def globals_ok(v, prelude):
    r = repr(v)
    return "function_declarations" in r or "prelude" in r or repr(prelude) in r


def c10(prog, tier):
    viol = {}
    cases = term_cases(prog) + list_cases(prog) + step_cases(prog)
    np_ = 0
    for c in cases:
        n, ob = run_case(prog, c, viol)
        np_ += n
    nc = constants(prog, viol)
    nt, _ = tables(prog, viol)
    nq = quoting(prog, viol)
    ns = sharing(prog, viol)
    npf = proof(prog, viol)
    ne = entries(prog, viol)
    n = len(cases) + nc + nt + nq + ns + npf + ne
    cov = {"functions": sorted({c.body.path for c in cases}), "cases": len(cases), "paths": np_ + nc + nq + ns + npf + ne,
           "tables": nt, "constants": nc, "quoting": nq, "sharing": ns, "proof": npf, "entry_points": ne,
           "rule": "what a printing function writes for each kind of term, step and command (its parts symbolic, lists of up to 3) is the text the grammar has for it, "
                   "each part in its place; names of operators are read back as the operator; symbols are unquoted and terms shared only on paths that establish it is safe"}
    return finish([(k, v, None) for k, v in viol.items()], cov, n)


