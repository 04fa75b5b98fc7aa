"""C18: the command line is honoured: files, parser, checker and elaborator options reach the library unchanged."""
import itertools
import rules
from absint import State, num, TRUE, FALSE, UNIT, norm
from models import NONE, some, ok, err, split
from typestate import TS, gcell, find_body
from prop_driver import gs, struct_of, fget, finish
from prop_cli import base_state

FROM = "From"


def adt_name(prog, ty):
    for c in (ty, "cli::" + ty):
        if c in prog.adts:
            return c
    return None


def variant(prog, adt, name):
    names = [v["n"] for v in prog.adts[adt]["variants"]]
    return ("E", adt, name, ()), names


def from_impl(prog, src, dst):
    """the body of <dst as From<src>>::from, for types of the executable"""
    last = lambda s: s.split("::")[-1].strip(" )>")
    cand = []
    for p, b in prog.bodies.items():
        if b.kind == "fn" and p.endswith(">::from") and ("From<%s>" % src.split("::")[-1]) in p.replace("cli::", ""):
            tgt = p.split(" for ", 1)[-1]
            if dst.startswith("(") == tgt.startswith("(") and (dst.startswith("(") or last(tgt.rsplit(">::from", 1)[0]) == last(dst) and
                                                                norm_ty(dst) == norm_ty(tgt.rsplit(">::from", 1)[0])):
                cand.append(b)
    return cand[0] if len(cand) == 1 else None


def norm_ty(s):
    return s.replace("carcara::", "").replace("cli::", "").replace(" ", "")


def interp(prog, viol, body, extra):
    names = set()
    for b in prog.bodies.values():
        if b.crate == "cli":
            for _, t in b.calls():
                r = (t["f"].get("fnref") or {}) if isinstance(t["f"], dict) else {}
                if r.get("res"):
                    names.add(r["res"])

    def ident(I, a, st, b, t, d):
        return [(I.deref(st, a[0]), st)]

    def into(I, a, st, b, t, d):
        x = I.deref(st, a[0])
        ga = ((t or {}).get("f", {}).get("fnref") or {}).get("ga", []) if t else []
        if len(ga) == 2:
            fb = from_impl(prog, ga[0], ga[1])
            if fb is not None:
                return I.run(fb, [x], st)
        return [(x, st)]

    def map_(I, a, st, b, t, d):
        x = I.deref(st, a[0])
        if x[0] == "list":
            cur = [((), st)]
            for e in x[1]:
                cur = [(done + (v,), z) for done, y in cur for v, z in I.closure_call(a[1], [e], y, b, t, "?")]
            return [(("list", d_), z) for d_, z in cur]
        if x[0] in ("opq", "in"):
            res = I.closure_call(a[1], [("in", "elt")], st, b, t, "?")
            if len(res) == 1 and I.deref(res[0][1], res[0][0]) == ("in", "elt"):
                return [(x, res[0][1])]
        return [(("opq", "mapped", x, I.fresh("m")), st)]

    def collect(I, a, st, b, t, d):
        return [(I.deref(st, a[0]), st)]

    def or_default(I, a, st, b, t, d):
        x = I.deref(st, a[0])
        if x == NONE:
            return [(("list", ()), st)]
        if x[0] == "E" and x[2] == "Some":
            return [(x[3][0], st)]
        return None

    def splitws(I, a, st, b, t, d):
        return [(("opq", "words", I.deref(st, a[0])), st)]

    def then(I, a, st, b, t, d):
        c = I.deref(st, a[0])
        if c == TRUE:
            return [(some(v), z) for v, z in I.closure_call(a[1], [], st, b, t, "?")]
        if c == FALSE:
            return [(NONE, st)]
        return None

    def omap(I, a, st, b, t, d):
        x = I.deref(st, a[0])
        if x == NONE:
            return [(NONE, st)]
        if x[0] == "E" and x[2] == "Some":
            return [(some(v), z) for v, z in I.closure_call(a[1], [x[3][0]], st, b, t, "?")]
        return None
    summ = dict(extra)
    for n in names:
        q = norm(n)
        last = n.split("::")[-1]
        if n in summ:
            continue
        if n.endswith(("convert::Into<U>>::into", "convert::From<T>>::from", "Into::into")) and "convert" in n:
            summ[n] = into
        elif last in ("into_iter", "deref", "as_str", "clone", "cloned", "copied", "to_string", "to_owned", "into_boxed_str", "as_ref", "borrow", "iter", "as_deref", "into_string") and ("std::" in n or "core::" in n or "alloc::" in n):
            if last != "as_deref":
                summ[n] = ident
        elif last == "map" and "Iterator" in n:
            summ[n] = map_
        elif last == "map" and "Option" in n:
            summ[n] = omap
        elif last in ("collect", "from_iter"):
            summ[n] = collect
        elif last in ("unwrap_or_default",):
            summ[n] = or_default
        elif last in ("split_whitespace", "split_ascii_whitespace"):
            summ[n] = splitws
        elif n.endswith("bool>::then") or q == "bool::then":
            summ[n] = then
    own = [b for b in prog.bodies.values() if b.crate == "cli" and b.file == body.file]
    files = {b.file for b in own}
    return TS(prog, summ, max_depth=12, opaque=lambda p: prog.bodies[p].file not in files)


def options(prog, **cli):
    """the parsed command line structure, with symbolic or chosen fields"""
    def mk(adt, prefix, over):
        vals = []
        for f in prog.adts[adt]["variants"][0]["fields"]:
            key = prefix + f["n"]
            sub = adt_name(prog, f.get("ty", "").split("<")[0].split("::")[-1])
            if key in over:
                vals.append(over[key])
            elif sub and prog.adts[sub]["kind"] == "struct" and sub.startswith("cli::"):
                vals.append(mk(sub, key + ".", over))
            else:
                vals.append(("in", "cli." + key))
        return ("S", adt, tuple(vals))
    return mk


def walk(prog, v, adt, *path):
    for n in path:
        v = fget(prog, adt, v, n)
        adt = v[1] if v[0] == "S" else None
    return v


def command(prog, viol, fname, lib, opts_adt):
    """one subcommand: every library call it makes gets the values of the options that name them"""
    body = prog.bodies.get("cli::" + fname)
    if body is None:
        raise RuntimeError("subcommand %s not found" % fname)
    mk = options(prog)
    gran = "cli::CheckGranularity"
    n = 0
    calls = 0
    visited = set()
    has_elab = any(f["n"] == "elaboration" for f in prog.adts[opts_adt]["variants"][0]["fields"])
    steps = [("E", "cli::ElaborationStep", v["n"], ()) for v in prog.adts["cli::ElaborationStep"]["variants"]]
    fields = [f["n"] for f in prog.adts[opts_adt]["variants"][0]["fields"]]
    for g, ign, skip, allowed, threads, elab, csv in itertools.product(
            [v["n"] for v in prog.adts[gran]["variants"]], (TRUE, FALSE), (TRUE, FALSE), (NONE, some(("in", "ALLOWED"))),
            (num(1), num(2)) if "num_threads" in fields else (None,), (TRUE, FALSE) if "elaborate" in fields else (None,), (TRUE, FALSE) if "dump_to_csv" in fields else (None,)):
        over = {"checking.check_granularity": ("E", gran, g, ()), "checking.ignore_unknown_rules": ign, "checking.skip_unknown_rules": skip,
                "checking.allowed_rules": allowed}
        if threads is not None:
            over["num_threads"] = threads
        if elab is not None:
            over["elaborate"] = elab
        if csv is not None:
            over["dump_to_csv"] = csv
        variants = [(NONE, NONE)]
        if has_elab:
            over["elaboration.pipeline"] = ("list", tuple(steps))
            variants = [(NONE, some(("in", "HS"))), (some(("in", "LS")), NONE), (some(("in", "LS")), some(("in", "HS")))]
        for lia, hole in variants:
            if has_elab:
                over["elaboration.lia_solver"], over["elaboration.hole_solver"] = lia, hole
            opts = mk(opts_adt, "", over)
            expect = {}
            P = lambda *p: walk(prog, opts, opts_adt, *p)
            pc = ("S", "parser::Config", tuple(P("parsing", {"expand_lets": "expand_let_bindings"}.get(f["n"], f["n"])) for f in prog.adts["parser::Config"]["variants"][0]["fields"]))
            cc = {"elaborated": TRUE if g == "Elaborated" else FALSE, "ignore_unknown_rules": TRUE if TRUE in (ign, skip) else FALSE,
                  "allowed_rules": ("list", ()) if allowed == NONE else ("in", "ALLOWED")}
            expect["parser::Config"] = pc
            expect["checker::Config"] = ("S", "checker::Config", tuple(cc[f["n"]] for f in prog.adts["checker::Config"]["variants"][0]["fields"]))
            if has_elab:
                def solver(adt, s, key):
                    if s == NONE:
                        return NONE
                    m = {"solver": s[3][0], "arguments": ("opq", "words", P("elaboration", key))}
                    return some(("S", adt, tuple(m[f["n"]] for f in prog.adts[adt]["variants"][0]["fields"])))
                ec = {"lia_options": solver("elaborator::LiaGenericOptions", lia, "lia_solver_args"), "uncrowd_rotation": P("elaboration", "uncrowd_rotate"),
                      "hole_options": solver("elaborator::HoleOptions", hole, "hole_solver_args")}
                expect["elaborator::Config"] = ("S", "elaborator::Config", tuple(ec[f["n"]] for f in prog.adts["elaborator::Config"]["variants"][0]["fields"]))
                expect["pipeline"] = ("list", tuple(("E", "elaborator::ElaborationStep", s[2], ()) for s in steps))
            made = []

            def libcall(name):
                def f(I, a, st, b, t, d):
                    made.append(name)
                    vals = [I.deref(st, x) for x in a]

                    def bad(key, msg):
                        I.report("%s:%s:%s" % (fname, name, key), "`%s` of the executable: %s (call of %s)" % (fname, msg, name), b, t)
                    lb = lib[name]
                    for i, ty in enumerate(lb.locals[1:1 + lb.argc]):
                        if i >= len(vals):
                            break
                        q = norm_ty(ty)
                        v = vals[i]
                        opt = q.startswith("std::option::Option<(elaborator::Config")
                        if q in ("parser::Config", "checker::Config", "elaborator::Config"):
                            w = expect.get(q)
                            if v != w:
                                fs = [f["n"] for f in prog.adts[q]["variants"][0]["fields"]]
                                diff = [fs[j] for j in range(len(fs)) if v[0] != "S" or v[2][j] != w[2][j]]
                                bad(q + ":" + ",".join(diff), "the %s does not carry the options of the command line: %s" % (
                                    q, "; ".join("%s is %s, not %s" % (x, rules.pv(v[2][fs.index(x)])[:60] if v[0] == "S" else "?", rules.pv(w[2][fs.index(x)])[:60]) for x in diff)))
                        elif opt:
                            w = some(("T", (expect["elaborator::Config"], expect["pipeline"]))) if elab == TRUE else NONE
                            if v != w:
                                bad("elaboration", "elaboration options are %s, not %s" % (rules.pv(v)[:200], rules.pv(w)[:200]))
                        elif q.startswith("std::vec::Vec<elaborator::ElaborationStep"):
                            if v != expect["pipeline"]:
                                bad("pipeline", "the pipeline is not the one given on the command line: %s" % rules.pv(v)[:200])
                        elif q == "bool":
                            if v != P("stats", "stats"):
                                bad("stats", "statistics are not collected as asked")
                        elif q == "usize":
                            key = lb.name_of(i + 1) if hasattr(lb, "name_of") else None
                            if key and "stack" in key:
                                if v != P("stack", "stack_size"):
                                    bad("stack", "the stack size is not the one asked for")
                            elif key and ("thread" in key or "runs" in key or "jobs" in key):
                                if v != P(key):
                                    bad(key, "%s is %s" % (key, rules.pv(v)[:60]))
                        elif "BufRead" in q or q in ("T",) or q.startswith("std::option::Option<T"):
                            w = (("in", "PB"), ("in", "PF"), ("in", "RULES"))[min(i, 2)]
                            if v != w:
                                bad("file%d" % i, "argument %d is not the %s file" % (i + 1, ("problem", "proof", "rare")[min(i, 2)]))
                    if name == "check_parallel" and threads == num(1) or name == "check" and threads == num(2):
                        bad("threads", "the number of threads asked for is not honoured")
                    return [(ok(I.fresh("res")), st.copy()), (err(), st.copy())] if "Result" in lb.locals[0] else [(I.fresh("res"), st.copy())]
                return f

            def inst(I, a, st, b, t, d):
                if I.deref(st, a[0]) != P("input"):
                    I.report(fname + ":input", "`%s` of the executable does not read the files given on the command line" % fname, b, t)
                return [(ok(("T", (("in", "PB"), ("in", "PF"), ("in", "RULES")))), st.copy()), (err(), st.copy())]
            extra = {lib[k].path: libcall(k) for k in lib}
            extra[find_body(prog, "cli::get_instance").path] = inst
            I = interp(prog, viol, body, extra)
            I.run(body, [opts], base_state())
            n += 1
            calls += len(made)
            visited |= I.visited_bodies
            for k, m in I.viol.items():
                viol.append((k, m, None))
            if not made:
                viol.append(("%s:none" % fname, "`%s` of the executable never calls the library for some options" % fname, None))
    return n, calls, visited


def instance(prog, viol):
    """the problem, proof and rule files opened are the ones named on the command line"""
    body = find_body(prog, "cli::get_instance")
    adt = "cli::Input"
    n = 0
    vis = set()
    STDIN = ("in", "stdin")
    for pb, pf, rare, buf in itertools.product((NONE, some(("str", "-")), some(("str", "a.smt2"))), (("str", "-"), ("str", "b.alethe")), (NONE, some(("str", "c.eo"))), (TRUE, FALSE)):
        def file_(I, a, st, b, t, d):
            return [(ok(("opq", "file", I.deref(st, a[0]))), st.copy()), (err(), st.copy())]

        def infer(I, a, st, b, t, d):
            return [(ok(("opq", "infer", I.deref(st, a[0]))), st.copy()), (err(), st.copy())]
        extra = {p: file_ for p in prog.bodies if p.startswith("cli::get_instance::") and prog.bodies[p].kind == "fn"}
        extra.update({p: infer for p in prog.bodies if p.startswith("cli::") and p.split("::")[-1] == "infer_problem_path"})
        for b_ in prog.bodies.values():
            for _, t in b_.calls() if b_.crate == "cli" else ():
                r = ((t["f"].get("fnref") or {}) if isinstance(t["f"], dict) else {}).get("res") or ""
                if r.split("::")[-1] == "as_deref" or (r.startswith("std::io") and r.split("::")[-1] == "lock"):
                    extra[r] = lambda I, a, st, b, t, d: [(I.deref(st, a[0]), st)]
                elif r.startswith("std::io") and r.split("::")[-1] == "stdin":
                    extra[r] = lambda I, a, st, b, t, d: [(STDIN, st)]
        I = interp(prog, viol, body, extra)
        over = {"problem_file": pb, "proof_file": pf, "rare_file": rare}
        opts = options(prog)(adt, "", over)
        rets = I.run(body, [opts, buf], base_state())
        oks = 0
        for r, st in rets:
            for vn, w, z in split(I, st, r, ["Ok", "Err"]):
                if vn == "Err":
                    continue
                oks += 1
                p = I.deref(z, w[3][0] if w[0] == "E" else w)
                got = [I.deref(z, x) for x in p[1]] if p[0] == "T" else []
                if len(got) == 3 and got[2][0] == "E" and got[2][2] == "Some":
                    got[2] = some(I.deref(z, got[2][3][0]))
                name = lambda x: STDIN if x == ("str", "-") else ("opq", "file", x)
                want = [("opq", "file", ("opq", "infer", pf)) if pb == NONE else name(pb[3][0]), name(pf), NONE if rare == NONE else some(("opq", "file", rare[3][0]))]
                for i, (g, e) in enumerate(zip(got, want)):
                    if g[0] == e[0] == "E":
                        g, e = (g[2],) + g[3], (e[2],) + e[3]
                    if g != e:
                        what = ("problem", "proof", "rules")[i]
                        I.report("instance:" + what, "the %s read is %s, not %s (options: problem %s, proof %s, rules %s)" % (
                            what, str(g)[:60], str(e)[:60], rules.pv(pb)[:30], rules.pv(pf)[:30], rules.pv(rare)[:30]), body)
                if len(got) != 3:
                    raise RuntimeError("result of get_instance not recognised: %s" % (p,))
        both = pf == ("str", "-") and pb in (NONE, some(("str", "-")))
        if both and oks:
            I.report("instance:both", "both files are read from the standard input", body)
        if not both and not oks:
            I.report("instance:refused", "input files named on the command line are refused (problem %s, proof %s)" % (rules.pv(pb)[:30], rules.pv(pf)[:30]), body)
        n += len(rets)
        vis |= I.visited_bodies
        viol.extend((k, m, None) for k, m in I.viol.items())
    return n, vis


def c18(prog, tier):
    viol, obl, calls, vis = [], 0, 0, set()
    L = lambda *names: {n: find_body(prog, n) for n in names}
    tab = [("check_command", L("check", "check_parallel"), "cli::CheckCommandOptions"),
           ("elaborate_command", L("check_and_elaborate"), "cli::ElaborateCommandOptions"),
           ("bench_command", {n: prog.bodies["cli::benchmarking::" + n] for n in ("run_benchmark", "run_csv_benchmark")}, "cli::BenchCommandOptions"),
           ("parse_command", L("parser::parse_instance"), "cli::ParseCommandOptions")]
    for f, lib, adt in tab:
        n, c, v = command(prog, viol, f, lib, adt)
        obl += c
        calls += c
        vis |= v
    n, v = instance(prog, viol)
    obl += n
    vis |= v
    uniq = {}
    for k, m, d in viol:
        uniq.setdefault(k, (k, m, d))
    cov = {"library_calls_checked": calls, "functions_analysed": sorted(vis), "rule": "for every combination of the options, the configuration passed to the library equals the one named on the command line"}
    return finish(list(uniq.values()), cov, obl)
