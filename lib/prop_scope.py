"""C26: every name and step reference of a proof is resolved in the scope it is written in."""
import absint as A
import rules
from absint import State, num, TRUE, FALSE, UNIT, norm, add, sub, length, Interp
from models import NONE, some, ok, err, unbox
from typestate import TS, gcell, find_body, finite
from prop_driver import gs, finish
from prop_parser import PS, parser_methods, method, reads_input, reaching, fnref, root_of, mentions

FIELDS = ("symbol_table", "step_ids", "sort_declarations")
LV = {f: gcell("level:" + f) for f in FIELDS}
PH = gcell("phase")
FR, TOP, PARSED, CHK, INSERTED, PUSHES, KIND = map(gcell, ("frames", "top", "parsed", "checked", "inserted", "pushes", "kind"))


def stack_ops(prog):
    return {fnref(t).get("res") for b in prog.bodies.values() for _, t in b.calls() if "HashMapStack" in (fnref(t).get("res") or "")}


def field_path(prog, a):
    """name of the parser state table a HashMapStack method is called on"""
    names = {}
    for adt in ("parser::ParserState", "parser::Parser"):
        if adt in prog.adts:
            names[adt] = [f["n"] for f in prog.adts[adt]["variants"][0]["fields"]]
    st = names.get("parser::ParserState", [])
    if a[0] == "fld" and a[3] < len(st):
        return st[a[3]]
    if a[0] == "mref":
        for e in reversed(a[2]):
            if e[0] == "f" and e[2] < len(st):
                return st[e[2]]
    return None


def lv(st, f):
    return st.store[LV[f]][1]


def bump(st, f, d):
    st.store[LV[f]] = gs(lv(st, f) + d)


TERM_READS = ("parse_term", "parse_term_expecting_sort")


class Scopes(PS):
    def __init__(self, prog, effects, summaries=None, **kw):
        self.effects = effects
        summ = {}
        for p in stack_ops(prog):
            last = p.split("::")[-1]
            if last in ("push_scope", "pop_scope"):
                summ[p] = self.level(1 if last == "push_scope" else -1)
            elif last == "insert":
                summ[p] = self.insert
        ps = method(prog, "parse_sequence").path
        summ.update(summaries or {})
        PS.__init__(self, prog, summ, **kw)
        self.seq = ps
        inner = self.summaries[ps]
        self.callbacks = {}

        def sequence(I, a, st, body, t, dty):
            f = I.deref(st, a[1])
            out = []
            starts = [st.copy()]
            if f[0] == "C":
                # any number of elements
                acc = []

                def step(s):
                    back = []
                    for v, y in I.closure_call(a[1], [a[0]], s, body, t, "?"):
                        if v[0] == "E" and v[2] == "Err":
                            out.append((err(), y))
                        else:
                            back.append(y)
                    acc.append(s)
                    return back, {}
                I.ts_loop(st, step, ("seq", body.path if body else "", t["ln"] if t else 0), None)
                starts = [s.copy() for s in acc]
            elif f[0] == "fn":
                cb = f[1].split("::")[-1]
                for s in starts:
                    I.on_read(cb, ("in", "res:%s:seq" % cb), s, [])
            for s in starts:
                v = ("in", "res:parse_sequence:%d" % (t["ln"] if t else 0))
                I.callbacks[v] = f[1].split("::")[-1] if f[0] == "fn" else f[1]
                I.forget(s, v)
                out += [(ok(v), s), (err(), s.copy())]
            return I.merge_rets(out)
        self.summaries[ps] = sequence

    def level(self, d):
        def f(I, a, st, b, t, dty):
            n = field_path(I.p, a[0])
            if n not in LV:
                return None
            s = st.copy()
            if d < 0 and s.store[PH] == gs("ins") and n != "step_ids":
                I.on_early_pop(n, b, t)
            bump(s, n, d)
            if n != "step_ids":
                s.store[PH] = gs("open") if d > 0 else gs("none")
            I.event("push" if d > 0 else "pop")
            return [(UNIT, s)]
        return f

    def insert(self, I, a, st, b, t, dty):
        n = field_path(I.p, a[0])
        if n not in LV or n == "step_ids":
            return None
        s = st.copy()
        I.on_insert(n, s, b, t, [I.deref(st, x) for x in a[1:]])
        return [(UNIT, s)]

    def on_early_pop(self, n, b, t):
        self.report("early:%s" % self.entry_name, "the scope of %s is closed before anything is read in it" % n, b, t)

    def on_insert(self, n, s, b, t, vals):
        self.event("declare")
        if s.store[PH] == gs("body") and lv(s, n) > 0 and n == "symbol_table":
            self.report("late:%s" % self.entry_name, "a name is declared in a scope in which a term was already read: later declarations of the same list are visible in earlier terms, or earlier ones in later terms", b, t)
        if self.local and lv(s, n) <= 0:
            self.report("leak:%s" % self.entry_name, "a local name is declared outside the scope opened for it", b, t)
        if lv(s, n) > 0:
            s.store[PH] = gs("ins")

    def on_read(self, name, v, s, a):
        e = self.effects.get(name)
        if e:
            for f, d in e.get("net", {}).items():
                bump(s, f, d)
            if e.get("inserts"):
                self.on_insert("symbol_table", s, None, None, ())
                if lv(s, "symbol_table") <= 0 and self.local:
                    pass
        if name in TERM_READS and s.store[PH] in (gs("ins"), gs("open")):
            s.store[PH] = gs("body")
        elif name in ("parse_sort",) and lv(s, "sort_declarations") > 0:
            s.store[PH] = gs("body")


def start(extra=None):
    st = State({LV[f]: gs(0) for f in FIELDS}, {})
    st.store[PH] = gs("none")
    st.store.update(extra or {})
    return st


def direct(prog, b, lasts):
    """does b or a closure of it call one of these HashMapStack operations (not through input-consuming methods)?"""
    for p, c in prog.bodies.items():
        if c is b or p.startswith(b.path + "::{closure"):
            for _, t in c.calls():
                r = fnref(t).get("res") or ""
                if "HashMapStack" in r and r.split("::")[-1] in lasts:
                    return True
    return False


def balance(prog, viol):
    """net effect of every parser method that opens or closes scopes"""
    ms = parser_methods(prog)
    readers = reads_input(prog)
    scoped = sorted(p for p, b in ms.items() if direct(prog, b, ("push_scope", "pop_scope")) and p.split("::")[-1] != "parse_proof")
    # helpers that do not read input are followed where they are called
    helpers = [p for p in scoped if p not in readers]
    entries = [p for p in scoped if p in readers]
    callers = [p for p, b in ms.items() if p in readers and p not in entries and any((fnref(t).get("res") in helpers) for _, t in b.calls())]
    entries += [p for p in callers if p.split("::")[-1] != "parse_proof"]
    effects = {}
    cov = []
    # methods that declare names without opening a scope
    for p, b in ms.items():
        if p in readers and p not in entries and p.split("::")[-1] not in ("parse_problem", "parse_proof") and \
                any((fnref(t).get("res") or "").split("::")[-1] == "insert_sorted_var" for _, t in b.calls()):
            effects[p.split("::")[-1]] = {"inserts": True}
    for p in entries:
        b = ms[p]
        n = p.split("::")[-1]
        ret = b.locals[0]
        I = Scopes(prog, effects, max_states=20000, step_limit=2000000)
        I.entry_name = n
        I.local = not (ret.startswith("std::result::Result<(), ") or "ast::proof::Proof," in ret or "ast::problem::Problem" in ret)
        nets = set()
        und = None
        try:
            res = I.run(b, [("in", "self")] + [("in", "arg%d" % i) for i in range(1, b.argc)], start())
        except A.Limit as e:
            raise RuntimeError("%s: %s" % (n, e))
        for v, s in res:
            if v[0] == "E" and v[2] == "Err":
                continue
            nets.add(tuple(lv(s, f) for f in FIELDS))
        if len(nets) > 1:
            I.report("balance:%s" % n, "%s leaves a different number of scopes open on different successful paths: %s" % (n, sorted(nets)), b)
        net = dict(zip(FIELDS, sorted(nets)[0] if nets else (0, 0, 0)))
        if any(net.values()):
            effects[n] = dict(effects.get(n, {}), net={k: x for k, x in net.items() if x})
        cov.append({"method": n, "paths": len(res), "net": net, "events": dict(I.events)})
        viol.update(I.viol)
    for n, e in effects.items():
        if e.get("net") and n != "parse_anchor_command":
            key = "balance:%s" % n
            if n not in [fnref(t).get("res", "").split("::")[-1] for _, t in method(prog, "parse_proof").calls()]:
                viol.setdefault(key, "%s leaves a scope open (or closes one it did not open): %s at %s" % (n, e["net"], method(prog, n).where(method(prog, n).line)))
    return effects, cov


def frame_type(prog, ty):
    if "ast::proof::Subproof" in ty and ty.startswith(("(", "ast::proof::Subproof")):
        return True
    a = prog.adts.get(ty.split("<")[0])
    return bool(a and ty.startswith("parser::") and any("ast::proof::Subproof" in f.get("ty", "") for f in a["variants"][0]["fields"]))


def proof(prog, effects, viol):
    """parse_proof: frames, scopes and the table of step names stay in step"""
    entry = method(prog, "parse_proof")
    loops = entry.loops()
    outer = {h for h, reg in loops.items() if not any(h in r2 and h2 != h for h2, r2 in loops.items())}
    cnt = [0]

    def ga0(t):
        g = fnref(t).get("ga", [])
        return g[0] if g else ""

    shape = []     # the frame of the root proof, as it is created: constant parts stay what they are

    def generic(k):
        """a frame of which nothing is known but its shape; the root frame keeps the ids and options it was created with"""
        cnt[0] += 1
        def part(i, v):
            if k == "root" and (v[0] == "str" or v[0] == "E" and finite(v)):
                return v
            return ("in", "frame:%s:%d" % (k, i))
        v = shape[0]
        if v[0] == "T":
            return ("T", tuple(part(i, x) for i, x in enumerate(v[1])))
        return ("S", v[1], tuple(part(i, x) for i, x in enumerate(v[2])))

    def reset(st, k):
        """the frames, when an iteration starts with the innermost one being the root proof, or not"""
        st.store.update({FR: gs(0), PARSED: gs("no"), CHK: gs("no"), INSERTED: FALSE, PUSHES: gs(0), KIND: gs(k)})
        for f in FIELDS:
            st.store[LV[f]] = gs(0)
        st.store[PH] = gs("none")
        if shape:
            st.store[TOP] = generic(k)
        forget_len(st)

    def forget_len(st):
        for k in [k for k in st.facts if mentions(k, ("in", "frames.len"))]:
            del st.facts[k]

    def vec(last):
        def f(I, a, st, b, t, d):
            g = ga0(t)
            if frame_type(prog, g):
                s = st.copy()
                if last == "box_assume_init_into_vec_unsafe":
                    v = I.deref(st, a[0])
                    if v[0] == "S" and v[1] == "uninit_box":
                        v = unbox(I.deref(st, v[2][0]))
                    if v[0] != "list" or len(v[1]) != 1 or v[1][0][0] not in ("T", "S"):
                        raise RuntimeError("parse_proof: the initial stack of frames was not understood")
                    shape[:] = [v[1][0]]
                    return None
                if last == "push":
                    if not shape:
                        shape[:] = [I.deref(st, a[1])]
                        return [(UNIT, s)]
                    s.store[FR] = gs(s.store[FR][1] + 1)
                    s.store[TOP] = I.deref(st, a[1])
                    forget_len(s)
                    I.event("open frame")
                    return [(UNIT, s)]
                if last == "pop":
                    if s.store[KIND] == gs("none"):
                        return [(some(("in", "frame:last")), s)]
                    s.store[FR] = gs(s.store[FR][1] - 1)
                    v = I.deref(st, st.store[TOP])
                    I.event("close frame")
                    if s.store[KIND] == gs("root"):
                        I.report("close:root", "a step can close the root proof as if it were a subproof", b, t)
                        return []
                    s.store[TOP] = generic("outer")
                    forget_len(s)
                    return [(some(v), s)]
                if last in ("last", "last_mut"):
                    return [(some(("mref", TOP, ())), s)]
                if last == "len":
                    return [(("in", "frames.len"), s)]
                if last == "is_empty":
                    return [(FALSE, s)]
                return None
            if g == "ast::proof::ProofCommand" and last == "push" and a[0][0] == "mref" and a[0][1] == TOP and len(a[0][2]) >= 1:
                v = I.deref(st, a[1])
                s = st.copy()
                I.event("push command")
                if v[0] == "E" and v[2] == "Subproof":
                    cl = v[3][0]
                    cmds = cl[2][0] if cl[0] == "S" else ("fld", cl, "", rules.field_index(prog, "ast::proof::Subproof", "commands"))
                    enough = I.cond_value(st.facts, A.c_le(num(2), length(cmds)))
                    if enough is not True:
                        I.report("subproof:short", "a subproof with fewer than two commands can be accepted by the parser", b, t)
                    lastc = [x for k, x in st.facts.items() if (k[0] == "v" and x == "Step" or k[0] == "b" and x is True) and mentions(k, cmds) and ("is_step" in str(k) or x == "Step")]
                    if not lastc:
                        I.report("subproof:end", "a subproof whose last command is not a step can be accepted by the parser", b, t)
                    if not mentions(cl, ("in", "frame:before")) and not any(mentions(cl, x) for x in (s.store.get(gcell("closed")),) if x):
                        pass
                elif s.store[PARSED][0] == "in" and not mentions(v, s.store[PARSED]):
                    I.report("command:other", "the command added to the proof is not the one just parsed: %s" % rules.pv(v)[:80], b, t)
                s.store[PUSHES] = gs(s.store[PUSHES][1] + 1)
                # the vector grew: forget its value
                I.write(s, TOP, a[0][2][:1], ("in", "frame:grown%d" % s.store[PUSHES][1]))
                return [(UNIT, s)]
            return None
        return f

    def get(I, a, st, b, t, d):
        if field_path(prog, a[0]) != "step_ids":
            return None
        s = st.copy()
        s.store[CHK] = ("T", (I.deref(st, a[1]),))
        return [(NONE, s), (some(("in", "earlier")), st.copy())]

    def insert(I, a, st, b, t, d):
        n = field_path(prog, a[0])
        if n != "step_ids":
            return Scopes.insert(I, I, a, st, b, t, d)
        s = st.copy()
        key, idx = I.deref(st, a[1]), I.deref(st, a[2])
        I.event("name step")
        p = s.store[PARSED]
        if p[0] != "in":
            I.report("name:early", "a step name becomes visible before its command was parsed, so a step can refer to itself", b, t)
        elif not mentions(key, p):
            I.report("name:key", "the name recorded for a step is not the one it was given: %s" % rules.pv(key)[:60], b, t)
        if s.store[CHK] != ("T", (key,)):
            I.report("name:repeated", "a step name is recorded without checking that it is not in use", b, t)
        top = I.deref(st, st.store[TOP])
        want = None
        if idx[0] == "lin" and idx[1] == -1 and len(idx[2]) == 1 and idx[2][0][1] == 1 or idx[0] == "lin" and len(idx[2]) == 1:
            want = [x for x in idx[2][0] if isinstance(x, tuple) and x[0] == "len"]
        parts = top[1] if top[0] == "T" else top[2] if top[0] == "S" else ()
        good = idx[0] == "lin" and idx[1] == -1 and want and root_of(want[0][1])[0] == "in" and root_of(want[0][1]) in parts
        if not good:
            I.report("name:index", "the position recorded for a step name is not that of the last command of the innermost open subproof: %s" % rules.pv(idx)[:80], b, t)
        if s.store[FR] != s.store[LV["step_ids"]]:
            I.report("name:scope", "a step name is recorded in the scope of another subproof than the one its command is in", b, t)
        if s.store[PUSHES] == gs(0):
            I.report("name:nocommand", "a step name is recorded before its command was added to the proof", b, t)
        s.store[INSERTED] = TRUE
        return [(I.fresh("ins"), s)]
    summ = {}
    for p in {fnref(t).get("res") for c in prog.bodies.values() for _, t in c.calls()}:
        if not p:
            continue
        last = p.split("::")[-1]
        if ("Vec" in p or "slice" in p or "boxed" in p) and last in ("push", "pop", "last", "last_mut", "len", "is_empty", "box_assume_init_into_vec_unsafe"):
            summ[p] = vec(last)
        elif "HashMapStack" in p and last in ("get", "get_with_depth"):
            summ[p] = get
        elif "HashMapStack" in p and last == "insert":
            summ[p] = insert
    I = Scopes(prog, effects, summ, max_states=20000, step_limit=4000000)
    I.entry_name, I.local = "parse_proof", False
    follow = {n for n, e in effects.items() if e.get("net")}
    base = I.on_read
    head = {}

    def on_read(name, v, st, a):
        base(name, v, st, a)
        b = [x for p, x in parser_methods(prog).items() if p.split("::")[-1] == name]
        if b and ("ast::proof::ProofStep" in b[0].locals[0] or name == "parse_assume_command"):
            if st.store[INSERTED] == TRUE:
                I.report("name:before", "a step's name is recorded before its premises are read", b[0])
            st.store[PARSED] = v
            I.event("command")
    I.on_read = on_read
    nt = method(prog, "next_token").path
    base_nt = I.summaries[nt]

    def next_token(I, a, st, body, t, dty):
        r = base_nt(I, a, st, body, t, dty)
        if r is None or body is not entry or st.store[KIND] != gs("none") or not shape:
            return r
        out = []
        for v, s in r:
            if v[0] == "E" and v[2] == "Err":
                out.append((v, s))
                continue
            for k in ("root", "inner"):
                s2 = s.copy()
                reset(s2, k)
                c = A.c_eq0(sub(("in", "frames.len"), num(1))) if k == "root" else A.c_le(num(2), ("in", "frames.len"))
                out += [(v, State(dict(s2.store), f)) for f in I.assume(s2.facts, c)]
        return out
    I.summaries[nt] = next_token

    def context_id(top):
        for x in (top[1] if top[0] == "T" else top[2] if top[0] == "S" else ()):
            if x[0] == "S" and x[1] == "ast::proof::Subproof":
                return x[2][rules.field_index(prog, "ast::proof::Subproof", "context_id")]
        return None

    def on_back(st):
        back(st)
        lid = I.back_lid
        if lid[0] == entry.path and lid[2] in outer:
            top = I.deref(st, st.store[TOP])
            if st.store[KIND] == gs("root") and st.store[FR] == gs(0) and shape and top[0] == shape[0][0]:
                for x, y in zip(shape[0][-1], top[-1]):
                    if (x[0] == "str" or x[0] == "E" and finite(x)) and x != y:
                        raise RuntimeError("parse_proof: the frame of the root proof changes: %s" % rules.pv(y)[:60])
            reset(st, "none")

    def back(st):
        lid = I.back_lid
        if lid[0] != entry.path or lid[2] not in outer:
            return
        fr = st.store[FR][1]
        if fr > 0:
            # contexts are identified by number: the number a subproof was given must not be given out again
            v = context_id(I.deref(st, st.store[TOP]))
            if v is not None and v[0] in ("in", "lin") and mentions(v, ("in", "frames.len")):
                I.report("context:number", "two subproofs of a proof can be given the same context number", entry)
            if v is not None and (v[0] == "int" or v[0] == "opq" and v[1] == "loop"):
                I.event("context number")
                if not any(mentions(x, add(v, num(k))) for c, x in st.store.items() if c[0] != "ghost" for k in (1, 2, 3)):
                    I.report("context:number", "two subproofs of a proof can be given the same context number", entry)
                if v[0] == "opq":
                    head["counter"] = v
        elif "counter" in head:
            v, c = head["counter"], head["counter"][2][1]
            x = st.store.get(c)
            if x is not None and x != v and x[0] not in ("int",) and not any(x == add(v, num(k)) for k in (1, 2, 3)):
                I.report("context:number", "two subproofs of a proof can be given the same context number", entry)
        for f in ("symbol_table", "step_ids"):
            if lv(st, f) != fr:
                I.report("frames:%s" % f, "opening or closing a subproof leaves the scopes of %s out of step with the open subproofs (%+d subproofs, %+d scopes)" % (f, fr, lv(st, f)), entry)
        if st.store[PARSED][0] == "in":
            I.event("iteration")
            if st.store[INSERTED] != TRUE:
                I.report("name:lost", "a command of the proof can be parsed without its name being recorded", entry)
            want = 2 if fr < 0 else 1
            if st.store[PUSHES] != gs(want):
                I.report("command:lost", "a parsed command is added to the proof %d times (with %+d subproofs)" % (st.store[PUSHES][1], fr), entry)
    I.on_back = on_back
    st = start({FR: gs(0), PARSED: gs("no"), CHK: gs("no"), INSERTED: FALSE, PUSHES: gs(0), KIND: gs("none"), TOP: ("in", "frame:root")})
    res = I.run(entry, [("in", "self")], st)
    oks = 0
    for v, s in res:
        if v[0] == "E" and v[2] == "Err":
            continue
        oks += 1
        one = I.cond_value(s.facts, A.c_eq0(sub(("in", "frames.len"), num(1))))
        if one is not True:
            I.report("unclosed", "a proof that ends inside an open subproof can be accepted by the parser", entry)
    viol.update(I.viol)
    for k in ("command", "name step", "push command", "open frame", "close frame", "iteration"):
        if not I.events.get(k):
            raise RuntimeError("parse_proof: no %s found" % k)
    return {"method": "parse_proof", "paths": len(res), "accepting": oks, "events": dict(I.events)}


def definitions(prog, viol):
    """a name is replaced by its definition only where it means the definition, and without capturing symbols of the definition"""
    out = []
    DEF, CAP = gcell("definition"), gcell("capture")
    applies = {p for p, b in prog.bodies.items() if b.kind == "fn" and p.startswith("parser::FunctionDef::") and "PrimitivePool" in " ".join(map(str, b.locals[1:b.argc + 1]))}
    if not applies:
        return [{"method": "definitions", "note": "no function applies a definition"}]
    users = {c.path.split("::{closure")[0] for c in prog.bodies.values() for _, t in c.calls() if fnref(t).get("res") in applies}
    ch = True
    while ch:           # helpers that apply a definition and read no input are followed from their callers
        ch = False
        readers = reads_input(prog)
        for u in sorted(users):
            if u in readers or u not in prog.bodies:
                continue
            callers = {c.path.split("::{closure")[0] for c in prog.bodies.values() for _, t in c.calls() if fnref(t).get("res") == u}
            if callers:
                users = (users - {u}) | callers
                ch = True
                break
    for n in sorted(users):
        b = prog.bodies[n]
        consulted, reached = [0], [0]

        def get(I, a, st, bb, t, d):
            if field_path(prog, a[0]) != "symbol_table":
                return None
            key, res = I.deref(st, a[1]), []
            deep = fnref(t)["res"].split("::")[-1] == "get_with_depth"
            for k in ("none", "global", "local"):
                s = st.copy()
                if deep:
                    s.store[DEF] = ("T", (gs(k), key))
                    v = some(("T", (num(0 if k == "global" else 1), ("in", "sort"))))
                else:
                    v = some(("in", "sort"))
                res.append((NONE if k == "none" else v, s))
            return res

        def free_vars(I, a, st, bb, t, d):
            v = I.deref(st, a[1])
            if not A.has_tag(v, ("in", "call")) or "function_defs" not in names(v):
                return None
            I.event("free variables of a definition")
            consulted[0] += 1
            return [(("call", "free_vars", (v,)), st.copy())]

        def contains(I, a, st, bb, t, d):
            v = I.deref(st, a[0])
            if v[0] != "call" or v[1] != "free_vars":
                return None
            s1, s2 = st.copy(), st.copy()
            s1.store[CAP] = gs("captured")
            return [(TRUE, s1), (FALSE, s2)]

        fi = [f["n"] for f in prog.adts["parser::ParserState"]["variants"][0]["fields"]].index("function_defs")

        def names(v):
            r = set()

            def go(x):
                if isinstance(x, tuple):
                    if len(x) == 4 and x[0] == "fld" and x[3] == fi and isinstance(x[1], tuple) and x[1][:1] == ("fld",):
                        r.add("function_defs")
                    for y in x:
                        go(y)
            go(v)
            return r

        def app(I, a, st, bb, t, d):
            I.event("apply definition")
            reached[0] += 1
            f = I.deref(st, a[0])
            g = st.store[DEF]
            short = n.split("::")[-1]
            if g == gs("no"):
                I.report("definition:scope:" + short, "%s replaces a name by its definition without looking for a local variable of that name" % short, bb, t)
            elif g[1][0] == gs("local"):
                I.report("definition:scope:" + short, "%s replaces a local variable by the definition of a function with the same name" % short, bb, t)
            if st.store[CAP] == gs("captured"):
                I.report("definition:capture:" + short, "%s uses a definition where a local variable captures one of its symbols" % short, bb, t)
            return [(ok(("in", "applied")), st.copy()), (err(), st.copy())]
        summ = {p: app for p in applies}
        for p in {fnref(t).get("res") for c in prog.bodies.values() for _, t in c.calls()}:
            if not p:
                continue
            last = p.split("::")[-1]
            if "HashMapStack" in p and last in ("get_with_depth", "get"):
                summ[p] = get
            elif last == "free_vars":
                summ[p] = free_vars
            elif "IndexSet" in p and last == "contains":
                summ[p] = contains
        I = PS(prog, summ, max_states=20000)
        r = I.run(b, [("in", "self")] + [("in", "arg%d" % i) for i in range(1, b.argc)], State({DEF: gs("no"), CAP: gs("no")}, {}))
        if not reached[0]:
            raise RuntimeError("%s: no use of a definition analysed" % n)
        if not consulted[0]:
            I.report("definition:capture:" + n.split("::")[-1], "%s uses a definition without checking whether local variables capture its symbols" % n.split("::")[-1], b)
        viol.update(I.viol)
        out.append({"method": n.split("::")[-1], "paths": len(r), "uses": reached[0], "capture_checks": consulted[0]})
    return out


def references(prog, viol):
    """premise and discharge references are what the table of step names says"""
    out = []
    for n in ("parse_step_premise", "parse_discharge_premise"):
        b = method(prog, n)
        D, IX = ("in", "depth"), ("in", "index")

        def get(I, a, st, bb, t, d):
            if field_path(prog, a[0]) != "step_ids":
                return [(NONE, st.copy()), (some(("T", (("in", "wrong"), ("in", "wrong")))), st.copy())]
            I.event("lookup")
            key = I.deref(st, a[1])
            if not any(mentions(key, ("in", x)) for x in I.syms) and not A.has_tag(key, ("opq", "op2")):
                I.report("reference:key:" + n, "%s looks up something that was not read: %s" % (n, rules.pv(key)[:60]), bb, t)
            s = st.copy()
            s.store[CHK] = TRUE
            return [(NONE, st.copy()), (some(("T", (D, IX))), s)]
        summ = {p: get for p in stack_ops(prog) if p.split("::")[-1] in ("get_with_depth",)}
        I = PS(prog, summ)
        I.syms = set()
        I.on_read = lambda name, v, st, a, I=I: I.syms.add(v[1])
        r = I.run(b, [("in", "self"), ("in", "root")][:b.argc], State({CHK: FALSE}, {}))
        oks = 0
        for v, s in r:
            if v[0] == "E" and v[2] == "Err":
                if s.store[CHK] == TRUE:
                    I.report("reference:lost:" + n, "%s rejects the name of a known step" % n, b)
                continue
            oks += 1
            if not (v[0] == "E" and v[2] == "Ok" and v[3][0] == ("T", (D, IX))):
                I.report("reference:%s" % n, "%s returns %s, not the position recorded for the name that was read" % (n, rules.pv(v)[:80]), b)
        if not oks or not I.events.get("lookup"):
            raise RuntimeError("%s: no accepting path analysed" % n)
        viol.update(I.viol)
        out.append({"method": n, "paths": len(r), "accepting": oks})
    return out


def step_fields(prog, viol):
    """parse_step_command: every field of the step is what was written"""
    b = method(prog, "parse_step_command")
    I = Scopes(prog, {})
    I.entry_name, I.local = "parse_step_command", False
    order = []
    I_on = I.on_read
    fields = [f["n"] for f in prog.adts["ast::proof::ProofStep"]["variants"][0]["fields"]]
    got = {f: set() for f in fields}
    r = I.run(b, [("in", "self")], start())
    for v, s in r:
        if v[0] == "E" and v[2] == "Err":
            continue
        st = v[3][0]
        if st[0] != "S":
            I.report("step:shape", "parse_step_command returns a step that is not built from what was read", b)
            continue
        for f, x in zip(fields, st[2]):
            x = I.deref(s, x)
            rt = root_of(x)
            if x == ("list", ()):
                got[f].add("empty")
            elif rt[0] == "in" and rt[1].startswith("res:"):
                nm = rt[1].split(":")[1]
                got[f].add(nm + (":" + I.callbacks[rt].split("::")[-1] if rt in I.callbacks and not I.callbacks[rt].split("::")[-1].startswith("{") else ":closure" if rt in I.callbacks else ""))
            else:
                got[f].add("other:" + rules.pv(x)[:50])
    want = {"id": ({"expect_symbol"}, {"expect_symbol"}), "clause": ({"parse_clause"}, {"parse_clause"}),
            "premises": ({"parse_sequence:parse_step_premise"}, {"parse_sequence:parse_step_premise", "parse_sequence:closure", "empty"}),
            "args": ({"parse_sequence:parse_term"}, {"parse_sequence:parse_term", "parse_sequence:closure", "empty"}),
            "discharge": (set(), {"parse_sequence:closure", "parse_sequence:parse_discharge_premise", "empty"})}
    for f, (need, allow) in want.items():
        extra = got[f] - allow
        if extra:
            I.report("step:%s" % f, "the %s of a parsed step is not what was written: %s" % (f, sorted(extra)), b)
        if f in ("premises", "args", "discharge") and not (got[f] - {"empty"}):
            I.report("step:%s:lost" % f, "the %s written in a step are dropped" % f, b)
        if f == "premises" and "parse_sequence:closure" not in got[f] and need - got[f]:
            I.report("step:%s:need" % f, "the premises of a step are not read as step references", b)
    viol.update(I.viol)
    return {"method": "parse_step_command", "paths": len(r), "fields": {k: sorted(x) for k, x in got.items()}}


def table(prog, viol):
    """the scoped table itself: lookups find the innermost scope, insertions go there"""
    n = 0
    bad = []
    fs = {p.split("::")[-1]: b for p, b in prog.bodies.items() if b.kind == "fn" and p.startswith("utils::HashMapStack") and "#" not in p}
    adt = "utils::HashMapStack"
    for depth in (1, 2, 3):
        scopes = tuple(("in", "scope%d" % i) for i in range(depth))
        for name in ("get", "get_with_depth"):
            b = fs[name]

            def look(I, a, st, bb, t, d):
                m = I.deref(st, a[0])
                if not (m[0] == "in" and m[1].startswith("scope")):
                    return None
                I.event("lookup")
                c = ("in", "has:" + m[1])
                out = []
                for v, y in ((TRUE, True), (FALSE, False)):
                    cur = st.store.get(gcell(m[1]))
                    if cur is not None and cur != v:
                        continue
                    s = st.copy()
                    s.store[gcell(m[1])] = v
                    out.append((some(("in", "value:" + m[1])) if y else NONE, s))
                return out
            summ = {fnref(t).get("res"): look for c in prog.bodies.values() for _, t in c.calls()
                    if (fnref(t).get("res") or "").split("::")[-1] in ("get", "get_full") and "IndexMap" in (fnref(t).get("res") or "")}
            I = TS(prog, summ)
            res = I.run(b, [("S", adt, (("list", scopes),)), ("in", "key")], State({}, {}))
            for v, s in res:
                n += 1
                has = [s.store.get(gcell("scope%d" % i)) for i in range(depth)]
                if v == NONE:
                    if any(h != FALSE for h in has):
                        viol.setdefault("table:%s:miss" % name, "HashMapStack::%s finds nothing although a scope holds the name at %s" % (name, b.where(b.line)))
                    continue
                if v[0] != "E" or v[2] != "Some":
                    raise RuntimeError("HashMapStack::%s: result %s" % (name, rules.pv(v)[:60]))
                x = I.deref(s, v[3][0])
                if name == "get_with_depth":
                    if x[0] != "T":
                        raise RuntimeError("HashMapStack::%s: result %s" % (name, rules.pv(x)[:60]))
                    dep, x = x[1][0], I.deref(s, x[1][1])
                i = int(x[1].split("scope")[1])
                if any(h != FALSE for h in has[i + 1:]):
                    viol.setdefault("table:%s:order" % name, "HashMapStack::%s returns the entry of an outer scope although an inner one may hold the name at %s" % (name, b.where(b.line)))
                if name == "get_with_depth" and dep != num(i):
                    viol.setdefault("table:depth", "HashMapStack::get_with_depth reports depth %s for the scope at depth %d at %s" % (rules.pv(dep), i, b.where(b.line)))
            if not res or not I.events.get("lookup"):
                raise RuntimeError("HashMapStack::%s not understood" % name)
    return {"paths": n}


def c26(prog, tier):
    viol = {}
    effects, cov = balance(prog, viol)
    parts = [proof(prog, effects, viol)] + definitions(prog, viol) + references(prog, viol) + [step_fields(prog, viol), table(prog, viol)]
    n = sum(c["paths"] for c in cov) + sum(p["paths"] for p in parts)
    return finish([(k, v, None) for k, v in viol.items()], {"methods": cov, "parts": parts, "effects": {k: v for k, v in effects.items()},
                  "rule": "scopes of each table are opened and closed in step; names are declared inside the scope opened for them and before its body is read; step names are recorded after their command was read, in the scope and at the position of their command"}, n)
