"""C16, C18: what the executable and the library entry points say is what the checker decided, under the options the user gave."""
import absint as A
import rules
from absint import State, num, TRUE, FALSE, UNIT, ANY
from models import NONE, some, ok, err, split
from typestate import TS, gcell, find_body
from prop_driver import gs, struct_of, fget, nargs, finish

VERD, SAID, END, PARSED, CONF = map(gcell, ("verdict", "said", "end", "parsed", "config"))
WORDS = ("valid", "holey", "invalid")


def base_state():
    return State({VERD: gs("none"), SAID: ("gs", ()), END: gs("no"), PARSED: gs("no"), CONF: gs("none")}, {})


# ------------------------------------------------------------------------------------------------ library entry points
def entry(prog, name, viol):
    """Ok(v) of a library entry point is the verdict the checker returned for the parsed problem and proof"""
    body = find_body(prog, name)
    PB, PF, RU, PO = (("in", x) for x in ("PB", "PF", "RULES", "POOL"))
    argv = []
    for i, ty in enumerate(body.locals[1:1 + nargs(body)]):
        argv.append(("in", body.name_of(i + 1) or "arg%d" % i) if hasattr(body, "name_of") else ("in", "arg%d" % i))
    who = "%s" % name

    def v(key, msg, b=None, t=None):
        I.report("entry:%s:%s" % (name, key), "library function %s: %s" % (who, msg), b or body, t)

    def parse(I, a, st, b, t, d):
        I.event("parse")
        if [I.deref(st, x) for x in a[:3]] != argv[:3]:
            v("inputs", "the files parsed are not the caller's problem, proof and rules in that order", b, t)
        if len(a) > 3 and I.deref(st, a[3]) != argv[3]:
            v("parser-config", "the parser does not get the caller's parser configuration", b, t)
        s = st.copy()
        s.store[PARSED] = gs("yes")
        return [(ok(("T", (PB, PF, RU, PO))), s), (err(), st.copy())]

    def new(I, a, st, b, t, d):
        I.event("new")
        vals = [I.deref(st, x) for x in a]
        if argv[4] not in vals:
            v("checker-config", "the checker does not get the caller's configuration (%s)" % [rules.pv(x)[:40] for x in vals], b, t)
        return None

    def check(I, a, st, b, t, d):
        I.event("check")
        vals = [I.deref(st, x) for x in a]
        if vals[1] != PB or vals[2] != PF:
            v("checked", "what is checked is not the parsed problem and proof (%s, %s)" % (rules.pv(vals[1])[:60], rules.pv(vals[2])[:60]), b, t)
        out = []
        for val, name_ in ((ok(FALSE), "ok-false"), (ok(TRUE), "ok-true"), (err(), "err")):
            s = st.copy()
            if s.store[VERD] != gs("none") and s.store[VERD] != gs(name_):
                name_ = "mixed"
            s.store[VERD] = gs(name_)
            out.append((val, s))
        return out
    summ = {find_body(prog, "parser::parse_instance").path: parse}
    for p in prog.bodies:
        if p.startswith("checker::") and prog.bodies[p].kind == "fn":
            if "ProofChecker" in p and p.split("::")[-1] in ("check", "check_with_stats"):
                summ[p] = check
            if "ProofChecker" in p and p.split("::")[-1] == "new":
                summ[p] = new
    I = TS(prog, summ, opaque=lambda p: prog.bodies[p].file != body.file)
    oks = 0
    for r, st in I.run(body, argv, base_state()):
        for vn, w, z in split(I, st, r, ["Ok", "Err"]):
            ver = z.store[VERD]
            if vn == "Err":
                continue
            oks += 1
            p = I.deref(z, w[3][0] if w[0] == "E" else I.field(z, w, "Ok", 0))
            if p[0] == "T":
                p = I.deref(z, p[1][0])
            want = {"ok-false": FALSE, "ok-true": TRUE}.get(ver[1])
            if want is None:
                v("lost", "success is reported although %s" % ("the checker rejected the proof" if ver[1] == "err" else "the proof was not checked"))
            elif p != want:
                v("verdict", "the verdict returned (%s) is not the checker's (%s)" % (rules.pv(p)[:60], rules.pv(want)))
    if not oks or not I.events.get("check") or not I.events.get("parse"):
        raise RuntimeError("library entry point %s not recognised (%s)" % (name, I.events))
    viol.extend((k, m, None) for k, m in sorted(I.viol.items()))
    return oks, I


# ------------------------------------------------------------------------------------------------ the executable
def cli_main(prog, viol):
    body = prog.bodies.get("cli::main")
    if body is None:
        raise RuntimeError("main function of the executable not found")
    ends = []

    def v(key, msg, b=None, t=None):
        I.report("cli:" + key, "executable: " + msg, b or body, t)

    def verdict(tuple_):
        def f(I, a, st, b, t, d):
            I.event("check")
            out = []
            for val, n in ((FALSE, "ok-false"), (TRUE, "ok-true"), (None, "err")):
                s = st.copy()
                s.store[VERD] = gs(n)
                if val is None:
                    out.append((err(), s))
                else:
                    out.append((ok(("T", (val, ("in", "PB"), ("in", "PF"), ("in", "POOL"))) if tuple_ else val), s))
            return out
        return f

    def either(I, a, st, b, t, d):
        return [(ok(I.fresh("res")), st.copy()), (err(), st.copy())]

    def from_str(I, a, st, b, t, d):
        x = I.deref(st, a[0])
        return [(("S", "fmt::Args", (("list", (x,)),)), st)]

    def fmt_new(I, a, st, b, t, d):
        xs = []
        for x in a:
            y = I.deref(st, x)
            if y[0] == "list":
                xs += [I.deref(st, z) for z in y[1]]
        return [(("S", "fmt::Args", (("list", tuple(xs)),)), st)]

    def disp(I, a, st, b, t, d):
        return [(I.deref(st, a[0]), st)]

    def text_of(v):
        """the words a printed value can contain, or None when unknown"""
        if v[0] == "str":
            return v[1]
        return None

    def out_print(I, a, st, b, t, d):
        I.event("print")
        x = I.deref(st, a[0])
        parts = [text_of(I.deref(st, y)) for y in x[2][0][1]] if x[0] == "S" and x[1] == "fmt::Args" else [None]
        txt = " ".join(p for p in parts if p is not None)
        words = [w for w in txt.replace("\n", " ").split() if w in WORDS]
        s = st.copy()
        if words or None not in parts:
            s.store[SAID] = ("gs", s.store[SAID][1] + tuple(words))
        elif st.store[VERD] != gs("none"):
            s.store[SAID] = ("gs", s.store[SAID][1] + ("?",))
        return [(UNIT, s)]

    def exit_(I, a, st, b, t, d):
        I.event("exit")
        ends.append((I.deref(st, a[0]), st.copy()))
        return []

    def into(I, a, st, b, t, d):
        return None

    summ = {}
    I = TS(prog, {"x": None}, max_depth=12, opaque=lambda p: prog.bodies[p].file != body.file)
    summ = I.summaries
    del summ["x"]
    for n, tup in (("check", False), ("check_parallel", False), ("check_and_elaborate", True)):
        summ[find_body(prog, n).path] = verdict(tup)
    for p in prog.bodies:
        if prog.bodies[p].kind != "fn":
            continue
        if p in ("generate_lia_smt_instances", "parser::parse_instance", "slice::slice") or p.startswith(("ast::printer::", "ast::print", "cli::benchmarking::", "cli::logger::", "cli::path_args::")):
            summ[p] = either if "Result" in prog.bodies[p].locals[0] else (lambda I, a, st, b, t, d: [(I.fresh("lib"), st.copy())])
    for p in prog.bodies:
        if p.startswith("cli::") and p.split("::")[-1] in ("get_instance", "bench_command", "slice_command", "parse_command", "generate_lia_problems_command"):
            summ[p] = either
    for b_ in prog.bodies.values():
        if b_.crate == "cli":
            for _, t in b_.calls():
                n = (t["f"].get("fnref") or {}).get("res") or ""
                if n.startswith("std::fmt::Arguments") or n.startswith("core::fmt::Arguments"):
                    summ[n] = from_str if n.endswith(("from_str", "new_const")) else fmt_new
                elif "fmt::rt::Argument" in n:
                    summ[n] = disp
                elif n in ("std::io::_print",):
                    summ[n] = out_print
                elif n == "std::process::exit":
                    summ[n] = exit_
    st0 = base_state()
    res = I.run(body, [], st0)
    n = 0
    for r, st in res:
        code = num(0)
        ends.append((code, st))
    ver = 0
    for code, st in ends:
        n += 1
        said = st.store[SAID][1]
        d = st.store[VERD][1]
        nz = not (code == num(0))
        unknown = "?" in said
        said = tuple(w for w in said if w != "?")
        if d == "none":
            for w in said:
                if w in ("valid", "holey"):
                    v("unfounded", "'%s' is printed although no proof was checked" % w)
            continue
        ver += 1
        if d == "err":
            for w in said:
                if w != "invalid":
                    v("said-" + w, "'%s' is printed for a proof that was rejected" % w)
            if not nz:
                v("exit", "the exit status is 0 for a proof that was rejected")
        else:
            want = "valid" if d == "ok-false" else "holey"
            for w in said:
                if w != want:
                    v("said-" + w, "'%s' is printed for a proof whose verdict is '%s'" % (w, want))
            if not said and not unknown:
                v("silent", "no verdict is printed for a proof whose verdict is '%s'" % want)
            if nz and not any("print_proof" in k or True for k in ()):
                pass
    if not ver or not I.events.get("print") or not I.events.get("exit"):
        raise RuntimeError("the executable's verdict output was not recognised (%s)" % I.events)
    viol.extend((k, m, None) for k, m in sorted(I.viol.items()))
    return n, ver, I


def c16(prog, tier):
    viol = []
    obl = 0
    funcs = set()
    for n in ("check", "check_parallel", "check_and_elaborate"):
        k, I = entry(prog, n, viol)
        obl += k + I.events.get("check", 0)
        funcs |= I.visited_bodies
    k, ver, I = cli_main(prog, viol)
    funcs |= I.visited_bodies
    cov = {"ends_of_main_explored": k, "ends_with_a_verdict": ver, "functions_analysed": sorted(funcs),
           "rule": "every path: the verdict printed / returned equals the checker's, rejection ends with a non-zero status"}
    return finish(viol, cov, obl + k)
