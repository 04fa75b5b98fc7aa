"""C17: a benchmark's verdict is the worst verdict of its jobs, and no job's outcome is lost."""
import rules
from absint import State, num, TRUE, FALSE, UNIT, norm, add
from models import NONE, some, ok, err, split
from typestate import TS, gcell, find_body
from prop_driver import gs, fget, finish
from prop_cli import WORDS

JOB, OUT, RES = map(gcell, ("job", "outcome", "results"))
PARSED = gcell("parsed")


def std_names(prog, bodies):
    out = set()
    for b in bodies:
        for _, t in b.calls():
            f = t["f"].get("fnref") if isinstance(t["f"], dict) else None
            if f:
                out.add((f.get("res") or f.get("fn"), f.get("fn")))
    return out


def fileset(prog, *bodies):
    fs = {b.file for b in bodies}
    return lambda p: prog.bodies[p].file not in fs


def run_job(prog, viol):
    body = find_body(prog, "cli::benchmarking::run_job")
    R0 = ("in", "R")
    CELL = ("bench", "results")
    names = [body.name_of(i) for i in range(1, 6)] if hasattr(body, "name_of") else []

    def v(key, msg, b=None, t=None):
        I.report("job:" + key, "benchmark job: " + msg, b or body, t)
    JOBV = ("S", "cli::benchmarking::JobDescriptor", tuple(("in", "job." + f["n"]) for f in prog.adts["cli::benchmarking::JobDescriptor"]["variants"][0]["fields"]))
    jf = lambda n: fget(prog, "cli::benchmarking::JobDescriptor", JOBV, n)

    def parse(I, a, st, b, t, d):
        vals = [I.deref(st, x) for x in a]
        for i, key in ((0, "problem_file"), (1, "proof_file")):
            if not contains(vals[i], jf(key)):
                v("files", "the %s parsed is not the job's" % key.split("_")[0], b, t)
        if len(vals) > 3 and vals[3] != ("in", "a2"):
            v("parser-config", "the parser configuration is not the benchmark's", b, t)
        s = st.copy()
        s.store[PARSED] = gs("yes")
        return [(ok(("T", (("in", "PB"), ("in", "PF"), ("in", "RU"), ("in", "POOL")))), s), (err(), st.copy())]

    def new(I, a, st, b, t, d):
        if ("in", "a3") not in [I.deref(st, x) for x in a]:
            v("checker-config", "the checker configuration is not the benchmark's", b, t)
        return None

    def check(I, a, st, b, t, d):
        I.event("check")
        vals = [I.deref(st, x) for x in a]
        if vals[1:3] != [("in", "PB"), ("in", "PF")]:
            v("checked", "what is checked is not the job's problem and proof", b, t)
        out = []
        for val, n in ((ok(FALSE), "valid"), (ok(TRUE), "holey"), (err(), "error")):
            s = st.copy()
            s.store[OUT] = gs(n if s.store[OUT] == gs("none") else "mixed")
            out.append((val, s))
        return out

    def take(I, a, st, b, t, d):
        if a[0][0] != "mref":
            return None
        x = I.deref(st, a[0])
        I.write(st, a[0][1], a[0][2], ("in", "default"))
        return [(x, st)]

    def replace(I, a, st, b, t, d):
        if a[0][0] != "mref":
            return None
        x = I.deref(st, a[0])
        I.write(st, a[0][1], a[0][2], a[1])
        return [(x, st)]

    def keep(I, a, st, b, t, d):
        return [(UNIT, st)]

    def opened(I, a, st, b, t, d):
        return [(ok(("opq", "file", I.deref(st, a[0]))), st.copy()), (err(), st.copy())]

    def wrap(I, a, st, b, t, d):
        return [(I.deref(st, a[0]), st)]
    summ = {find_body(prog, "parser::parse_instance").path: parse}
    for p in prog.bodies:
        if "ProofChecker" in p and "Parallel" not in p and p.startswith("checker::") and prog.bodies[p].kind == "fn":
            if p.split("::")[-1] in ("check", "check_with_stats"):
                summ[p] = check
            elif p.split("::")[-1] == "new":
                summ[p] = new
    clos = [b for b in prog.bodies.values() if b.crate == "cli" and b.file == body.file]
    for res, decl in std_names(prog, clos):
        n = norm(res)
        if n in ("mem::take",):
            summ[res] = take
        elif n == "mem::replace":
            summ[res] = replace
        elif decl and "CollectResults::" in decl and decl.split("::")[-1].startswith("add_"):
            summ[res] = keep
        elif res.endswith("File::open"):
            summ[res] = opened
        elif "BufReader" in res:
            summ[res] = wrap
    I = TS(prog, summ, opaque=fileset(prog, body))
    st0 = State({OUT: gs("none"), PARSED: gs("no"), CELL: R0}, {})
    argv = [("mref", CELL, ()), JOBV, ("in", "a2"), ("in", "a3"), ("in", "a4")]
    n = 0
    for r, st in I.run(body, argv, st0):
        for vn, w, z in split(I, st, r, ["Ok", "Err"]):
            n += 1
            o = z.store[OUT][1]
            cur = z.store[CELL]
            if cur != R0:
                v("lost", "the results collected so far are lost when a job %s" % ("fails" if vn == "Err" else "succeeds"))
            if vn == "Ok":
                p = I.deref(z, w[3][0] if w[0] == "E" else I.field(z, w, "Ok", 0))
                if o in ("none", "error", "mixed"):
                    v("accepted", "success is reported although %s" % ("the proof was rejected" if o == "error" else "the proof was not checked"))
                elif p != (TRUE if o == "holey" else FALSE):
                    v("verdict", "the job's verdict (%s) is not the checker's (%s)" % (rules.pv(p)[:50], o))
            elif o in ("valid", "holey"):
                pass
    if not I.events.get("check"):
        raise RuntimeError("run_job does not check")
    viol.extend((k, m, None) for k, m in sorted(I.viol.items()))
    return n, I


def contains(v, x):
    if v == x:
        return True
    return isinstance(v, tuple) and any(contains(y, x) for y in v if isinstance(y, tuple))


def worker(prog, viol):
    body = find_body(prog, "cli::benchmarking::worker_thread")
    PEND = gcell("pend")

    def v(key, msg, b=None, t=None):
        I.report("worker:" + key, "benchmark worker: " + msg, b or body, t)

    def due(st, b=None, t=None):
        p = st.store[PEND][1]
        if p == "job":
            v("skipped", "a job taken from the queue is not run", b, t)
        elif p in ("holey", "error"):
            v("unregistered-" + p, "the outcome '%s' of a job is not recorded" % p, b, t)

    def pop(I, a, st, b, t, d):
        I.event("pop")
        due(st, b, t)
        s = st.copy()
        s.store[PEND] = gs("job")
        n = st.copy()
        n.store[PEND] = gs("end")
        return [(some(("in", "job")), s), (NONE, n)]

    def run(I, a, st, b, t, d):
        I.event("run")
        vals = [I.deref(st, x) for x in a]
        if vals[1] != ("in", "job"):
            v("other", "a job other than the one taken from the queue is run", b, t)
        if a[0][0] != "mref":
            v("results", "the job does not add to the worker's results", b, t)
        out = []
        for val, n in ((ok(FALSE), "valid"), (ok(TRUE), "holey"), (err(), "error")):
            s = st.copy()
            s.store[PEND] = gs(n)
            out.append((val, s))
        return out

    def reg(kind):
        def f(I, a, st, b, t, d):
            I.event("register")
            p = st.store[PEND][1]
            s = st.copy()
            if p != kind:
                v("misregistered", "a job whose outcome is '%s' is recorded as '%s'" % (p, kind), b, t)
            else:
                s.store[PEND] = gs("done")
            return [(UNIT, s)]
        return f
    summ = {find_body(prog, "cli::benchmarking::run_job").path: run}
    clos = [b for b in prog.bodies.values() if b.crate == "cli" and b.file == body.file]
    for res, decl in std_names(prog, clos):
        if decl and decl.endswith("CollectResults::register_holey"):
            summ[res] = reg("holey")
        elif decl and decl.endswith("CollectResults::register_error"):
            summ[res] = reg("error")
        elif "ArrayQueue" in res and res.endswith("::pop"):
            summ[res] = pop
        elif decl and decl.endswith("Default::default"):
            summ[res] = lambda I, a, st, b, t, d: [(("in", "fresh"), st)]
    I = TS(prog, summ, opaque=fileset(prog, body))
    rets = I.run(body, [("in", "a%d" % i) for i in range(4)], State({PEND: gs("none")}, {}))
    for r, st in rets:
        due(st)
        if st.store[PEND][1] != "end":
            v("early", "the worker stops although jobs may be left")
        if r != ("in", "fresh"):
            v("result", "the worker does not return the results it collected (%s)" % rules.pv(r)[:60])
    if not I.events.get("run") or not I.events.get("pop"):
        raise RuntimeError("worker_thread not recognised")
    viol.extend((k, m, None) for k, m in sorted(I.viol.items()))
    return len(rets) + sum(I.events.values()), I


def flags(prog, adt):
    """(field, kind) of the outcome fields of a results type"""
    out = []
    for f in prog.adts[adt]["variants"][0]["fields"]:
        if f["n"] in ("is_holey", "had_error", "num_errors", "num_assumes", "num_easy_assumes"):
            out.append((f["n"], "bool" if f["ty"] == "bool" else "num"))
    return out


def accumulators(prog, viol):
    """combine keeps every flag of both sides; register_* sets its flag and no other"""
    n = 0
    vis = set()
    for adt in ("benchmarking::OnlineBenchmarkResults", "benchmarking::CsvBenchmarkResults"):
        short = adt.split("::")[-1]
        fl = flags(prog, adt)
        impl = lambda m: [b for p, b in prog.bodies.items() if b.kind == "fn" and short in p.split(" as ")[0] and "CollectResults" in p and p.split("::")[-1] == m]
        fields = [f["n"] for f in prog.adts[adt]["variants"][0]["fields"]]
        if not any(k == "is_holey" for k, _ in fl) or len(impl("combine")) != 1:
            raise RuntimeError("results type %s not recognised" % adt)
        cb = impl("combine")[0]
        for ha in (TRUE, FALSE):
            for hb in (TRUE, FALSE):
                val = lambda s, h: ("S", adt, tuple((h if dict(fl).get(f) == "bool" else ("in", "%s.%s" % (s, f))) for f in fields))
                I = TS(prog, {}, opaque=lambda p: prog.bodies[p].file != cb.file)
                rets = I.run(cb, [val("a", ha), val("b", hb)], State({}, {}))
                for r, st in rets:
                    n += 1
                    if r[0] != "S":
                        raise RuntimeError("result of combine not recognised")
                    for f, k in fl:
                        got = I.deref(st, fget(prog, adt, r, f))
                        want = (TRUE if TRUE in (ha, hb) else FALSE) if k == "bool" else add(("in", "a." + f), ("in", "b." + f))
                        if got != want and f != "num_easy_assumes" and f != "num_assumes":
                            I.report("combine:%s:%s" % (short, f), "combining the results of two workers gives %s = %s, not %s (a: %s, b: %s)" % (
                                f, rules.pv(got)[:60], rules.pv(want)[:60], rules.pv(ha), rules.pv(hb)), cb)
                vis |= I.visited_bodies
                viol.extend((a, m, None) for a, m in I.viol.items())
        for m, target in (("register_holey", ("is_holey",)), ("register_error", ("had_error", "num_errors"))):
            rb = impl(m)[0]
            CELL = ("bench", "self")
            for start in (TRUE, FALSE):
                s0 = ("S", adt, tuple((start if dict(fl).get(f) == "bool" else ("in", "a." + f)) for f in fields))
                I = TS(prog, {}, opaque=lambda p: prog.bodies[p].file != rb.file)
                for r, st in I.run(rb, [("mref", CELL, ())] + [("in", "e")] * (rb.argc - 1 if hasattr(rb, "argc") else 1), State({CELL: s0}, {})):
                    n += 1
                    cur = st.store[CELL]
                    for f, k in fl:
                        got = I.deref(st, fget(prog, adt, cur, f))
                        want = fget(prog, adt, s0, f)
                        if f in target:
                            want = TRUE if k == "bool" else add(want, num(1))
                        if got != want:
                            I.report("%s:%s:%s" % (m, short, f), "%s leaves %s = %s, not %s" % (m, f, rules.pv(got)[:60], rules.pv(want)[:60]), rb)
                vis |= I.visited_bodies
                viol.extend((a, x, None) for a, x in I.viol.items())
    return n, vis


def printing(prog, viol):
    """bench prints the worst outcome recorded in the results"""
    n = 0
    vis = set()
    for fname, adt, lib in (("cli::bench_command", "benchmarking::OnlineBenchmarkResults", "run_benchmark"),
                            ("cli::benchmarking::run_csv_benchmark", "benchmarking::CsvBenchmarkResults", "run_benchmark")):
        body = find_body(prog, fname)
        fields = [f["n"] for f in prog.adts[adt]["variants"][0]["fields"]]
        fl = dict(flags(prog, adt))
        SAID = gcell("said")
        for err_ in (0, 1):
            for holey in (TRUE, FALSE):
                def bench(I, a, st, b, t, d):
                    I.event("bench")
                    m = {"is_holey": holey, "had_error": TRUE if err_ else FALSE, "num_errors": num(err_)}
                    s = st.copy()
                    s.store[gcell("ran")] = gs("yes")
                    return [(("S", adt, tuple(m.get(f, ("in", "r." + f)) for f in fields)), s)]

                def text(I, a, st, b, t, d):
                    parts = []
                    for x in a:
                        y = I.deref(st, x)
                        if y[0] == "list":
                            parts += [I.deref(st, z) for z in y[1]]
                        elif y[0] == "str":
                            parts.append(y)
                    return [(("S", "fmt::Args", (("list", tuple(parts)),)), st)]

                def out(I, a, st, b, t, d):
                    I.event("print")
                    x = I.deref(st, a[0])
                    s = st.copy()
                    if x[0] == "S" and x[1] == "fmt::Args":
                        ws = [w for y in x[2][0][1] if y[0] == "str" for w in y[1].split() if w in WORDS]
                        s.store[SAID] = ("gs", s.store[SAID][1] + tuple(ws))
                    return [(UNIT, s)]
                summ = {"cli::benchmarking::run_benchmark": bench}
                for p in prog.bodies:
                    if p == "cli::benchmarking::run_csv_benchmark" and fname != p:
                        summ[p] = lambda I, a, st, b, t, d: [(ok(UNIT), st)]
                mine = [b for b in prog.bodies.values() if b.file == body.file and b.crate == "cli"]
                for res, _ in std_names(prog, mine):
                    if res.startswith(("std::fmt::Arguments", "core::fmt::Arguments")):
                        summ[res] = text
                    elif "fmt::rt::Argument" in res:
                        summ[res] = lambda I, a, st, b, t, d: [(I.deref(st, a[0]), st)]
                    elif res == "std::io::_print":
                        summ[res] = out
                ok_files = {body.file, find_body(prog, "benchmarking::CsvBenchmarkResults::write_csv").file if False else prog.bodies[[p for p in prog.bodies if p.endswith("CsvBenchmarkResults::is_holey")][0]].file}
                skip = ("print", "write_csv", "is_empty")
                I = TS(prog, summ, max_depth=6, opaque=lambda p: prog.bodies[p].file not in ok_files or p.split("::")[-1] in skip)
                rets = I.run(body, [("in", "x%d" % i) for i in range(body.argc if hasattr(body, "argc") else 1)], State({SAID: ("gs", ()), gcell("ran"): gs("no")}, {}))
                want = "invalid" if err_ else "holey" if holey == TRUE else "valid"
                for r, st in rets:
                    if st.store[gcell("ran")] != gs("yes"):
                        continue
                    n += 1
                    for w in st.store[SAID][1]:
                        if w != want:
                            I.report("print:%s:%s-%s" % (fname.split("::")[-1], want, w), "the benchmark prints '%s' when the worst outcome of its jobs is '%s'" % (w, want), body)
                    if not st.store[SAID][1] and fname.endswith("csv_benchmark"):
                        I.report("print:%s:silent" % fname.split("::")[-1], "the benchmark prints no verdict when the worst outcome is '%s'" % want, body)
                if not I.events.get("bench") or not I.events.get("print"):
                    raise RuntimeError("benchmark output of %s not recognised (%s)" % (fname, I.events))
                vis |= I.visited_bodies
                viol.extend((a, x, None) for a, x in I.viol.items())
    return n, vis


def c17(prog, tier):
    viol = []
    n1, I1 = run_job(prog, viol)
    n2, I2 = worker(prog, viol)
    n3, v3 = accumulators(prog, viol)
    n4, v4 = printing(prog, viol)
    uniq = {}
    for k, m, d in viol:
        uniq.setdefault(k, (k, m, d))
    cov = {"paths_of_a_job": n1, "paths_of_a_worker": n2, "accumulator_cases": n3, "output_cases": n4,
           "functions_analysed": sorted(I1.visited_bodies | I2.visited_bodies | v3 | v4),
           "rule": "each job's outcome is recorded in results that are never dropped; combine, register_* and the printed verdict keep the worst outcome"}
    return finish(list(uniq.values()), cov, n1 + n2 + n3 + n4)
