"""C01, C02, C03, C08: what a verdict of the checker means, decided by typestate exploration of the driver functions."""
import absint as A
import rules
from absint import State, num, TRUE, FALSE, UNIT, c_eq0, length
from models import NONE, some, ok, err, split, bools
from typestate import TS, gcell, each, find_body

PEND, CMD, DONE, HOLE, CTXQ, JUST, DISCH = map(gcell, ("pending", "cmd", "done", "core_holey", "ctxq", "justified", "disch"))
CTXS = gcell("ctx")


def gs(n):
    return ("gs", n)


def struct_of(prog, adt, **over):
    vals = []
    for f in prog.adts[adt]["variants"][0]["fields"]:
        vals.append(over.get(f["n"], ("in", "self." + f["n"])))
    return ("S", adt, tuple(vals))


def fget(prog, adt, v, name):
    return v[2][rules.field_index(prog, adt, name)]


def with_fields(facts_state, f):
    return State(dict(facts_state.store), f)


# ------------------------------------------------------------------------------------------------ check_step_core
def core(prog):
    """every accepting path of the step core: [(rule result known Ok?, holey value, discharge checked?, facts)]"""
    body = find_body(prog, "checker::shared::check_step_core")
    out = {"viol": {}, "obl": 0, "ok": 0, "body": body}
    step = ("in", "step")
    RULEF = ("in", "rule_impl")
    HC = gcell("holey")

    def get_rule(I, a, st, b, t, d):
        I.event("lookup")
        s1 = st.copy()
        name, strict = I.deref(st, a[0]), I.deref(st, a[1])
        s1.store[gcell("lookup")] = ("T", (name, strict))
        return [(NONE, st.copy()), (some(RULEF), s1)]

    def discharge(I, a, st, b, t, d):
        I.event("discharge")
        s1 = st.copy()
        s1.store[DISCH] = ("T", tuple(I.deref(st, x) for x in a))
        return [(ok(UNIT), s1), (err(), st.copy())]

    summ = {find_body(prog, "checker::shared::get_rule_shared").path: get_rule,
            find_body(prog, "checker::shared::check_discharge_shared").path: discharge}
    I = TS(prog, summ)
    orig = I.call_value

    def call_value(fv, args, st, body_, t, dty):
        v = I.deref(st, fv)
        if v == RULEF:
            I.event("apply")
            s1 = st.copy()
            s1.store[gcell("applied")] = I.deref(st, args[0])
            return [(ok(UNIT), s1), (err(), st.copy())]
        return orig(fv, args, st, body_, t, dty)
    I.call_value = call_value
    ctx = struct_of(prog, "checker::shared::StepCheckContext", is_end_step=("in", "is_end_step"), current_subproof=("in", "current_subproof"),
                    subproof_depth=("in", "depth"), config=("in", "config"), is_holey=("mref", HC, ()))
    st = State({HC: ("in", "holey0"), DISCH: gs("no"), gcell("applied"): gs("no"), gcell("lookup"): gs("no")}, {})
    ra = ("in", "rule_args")
    amap = {"ast::proof::ProofStep": step, "checker::rules::RuleArgs": ra, "checker::shared::StepCheckContext": ctx}
    args = []
    for ty in body.locals[1:1 + nargs(body)]:
        for k, v in amap.items():
            if k in ty:
                args.append(v)
                break
        else:
            args.append(("in", "arg%d" % len(args)))
    return I, body, I.run(body, args, st), HC


def nargs(body):
    return body.argc if hasattr(body, "argc") else body.args


def field_of(prog, base, adt, name):
    return ("fld", base, "", rules.field_index(prog, adt, name))


def holey_rules(prog):
    """the names whose implementation accepts without looking at anything"""
    tab, _ = rules.rule_table(prog)
    out = []
    for n, fs in tab.items():
        for strict, fn in fs:
            try:
                I, res = rules.analyse_rule(prog, fn, step_limit=1500)
            except Exception:
                continue
            # an accepting path that establishes nothing about any input of the rule
            if any(v[0] == "E" and v[2] == "Ok" and not [k for k in st.facts if A.has_tag(k, ("in",))] for v, st in res):
                out.append(n)
    return tab, sorted(set(out))


def holey_core(prog):
    """C01 on the step core"""
    tab, trivial = holey_rules(prog)
    I, body, res, HC = core(prog)
    name = field_of(prog, ("in", "step"), "ast::proof::ProofStep", "rule")
    viol, ok_paths = [], 0
    for v, st in res:
        if v[0] == "E" and v[2] == "Err":
            continue
        ok_paths += 1
        h = st.store[HC]
        if h == TRUE:
            why = [n for n in trivial + ["lia_generic"] if not [f for f in I.assume(st.facts, A.neg(I.eqv(st, name, ("str", n))), True)]]
            lk = st.store.get(gcell("lookup"))
            ign = I.cond_value(st.facts, ("fld", ("in", "config"), "", rules.field_index(prog, "checker::Config", "ignore_unknown_rules")))
            af = ("fld", ("in", "config"), "", rules.field_index(prog, "checker::Config", "allowed_rules"))
            allowed = [k for k, x in st.facts.items() if x is True and derives(k, name) and derives(k, af)]
            if not (why or allowed or (lk in (None, gs("no")) and ign is True)):
                viol.append(("core:over", "check_step_core marks the proof holey although the step was checked by its rule, the rule was not allowed as unchecked and unknown rules were not ignored", rules.pf(st.facts)))
            continue
        if h != ("in", "holey0") and not (h[0] == "or" and ("in", "holey0") in h[1]):
            viol.append(("core:cleared", "check_step_core accepts a step and leaves the holey flag at %s: an earlier hole is forgotten" % rules.pv(h), None))
        applied = st.store[gcell("applied")]
        if applied == gs("no"):
            viol.append(("core:unchecked", "check_step_core accepts a step without running the implementation of its rule and without marking the proof holey", rules.pf(st.facts)))
            continue
        if applied != ("in", "rule_args"):
            viol.append(("core:args", "check_step_core runs the rule on arguments that are not the step's", rules.pv(applied)))
        lk = st.store[gcell("lookup")]
        if not (lk[0] == "T" and lk[1][0] == name):
            viol.append(("core:name", "check_step_core looks up a rule under a name that is not the step's rule name", rules.pv(lk)))
        for n in trivial:
            eqc = A.eqv_raw(name, ("str", n)) if False else None
            cond = I.eqv(st, name, ("str", n))
            if [f for f in I.assume(st.facts, cond, True)]:
                viol.append(("core:hole:" + n, "check_step_core accepts a step using the unchecked rule '%s' without marking the proof holey" % n, rules.pf(st.facts)))
    if not ok_paths or not I.events.get("apply"):
        raise RuntimeError("the step core was not recognised")
    return viol, {"trivially_accepting_rules": trivial, "core_accepting_paths": ok_paths, "rules_in_table": len(tab), "bodies": sorted(I.visited_bodies)}


def end_core(prog):
    """C08 on the step core: an accepted closing step has had the discharge of its local assumptions checked"""
    I, body, res, HC = core(prog)
    step = ("in", "step")
    disch = field_of(prog, step, "ast::proof::ProofStep", "discharge")
    name = field_of(prog, step, "ast::proof::ProofStep", "rule")
    viol, n, paths = [], 0, 0
    for v, st in res:
        if v[0] == "E" and v[2] == "Err":
            continue
        paths += 1
        # paths accepted because the user or an unknown rule declared the step a hole are holey by C01
        if st.store[HC] == TRUE and st.store[gcell("applied")] == gs("no"):
            continue
        d = st.store[DISCH]
        ends = [f for f in I.assume(st.facts, ("in", "is_end_step"), True) for f in I.assume(f, ("isv", ("in", "current_subproof"), "Some"))]
        if ends:
            n += 1
            if d == gs("no"):
                viol.append(("core:undischarged", "check_step_core accepts the closing step of a subproof without checking that its local assumptions are discharged", rules.pf(st.facts)))
            else:
                want = (("fld", ("in", "current_subproof"), "Some", 0), ("in", "depth"), disch)
                if tuple(d[1]) != want:
                    viol.append(("core:discharge-args", "the discharge check is applied to something other than the closing step's subproof, depth and discharge list", rules.pv(d)))
        # a discharge list is only honoured for the subproof rule
        eqc = I.eqv(st, name, ("str", "subproof"))
        for f in I.assume(st.facts, eqc, False):
            if [g for g in I.assume(f, c_eq0(length(disch)), False)]:
                viol.append(("core:discharge-elsewhere", "check_step_core accepts a step with a discharge list under a rule other than subproof", rules.pf(st.facts)))
                break
    if not n:
        raise RuntimeError("no accepting closing step found in the step core")
    return viol, {"accepting_paths": paths, "closing_paths": n, "bodies": sorted(I.visited_bodies)}


# ------------------------------------------------------------------------------------------------ sequential / worker loops
ITER = ("in", "iter")


class Driver:
    def __init__(self, prog, parallel):
        self.prog = prog
        self.parallel = parallel
        self.viol = {}
        self.PC = "checker::parallel::ParallelProofChecker" if parallel else "checker::ProofChecker"
        self.mode = "parallel" if parallel else "sequential"
        I = self.I = TS(prog, {})
        I.on_back = self.note
        s = I.summaries
        it = "<checker::parallel::scheduler::ScheduleIter<'a> as std::iter::Iterator>::next" if parallel else "<ast::iter::ProofIter<'a> as std::iter::Iterator>::next"
        self.next_path = self.must(it)
        s[self.next_path] = self.m_next
        base = "checker::parallel::scheduler::ScheduleIter::<'a>::" if parallel else "ast::iter::ProofIter::<'a>::"
        for m in ("depth", "is_in_subproof", "current_subproof", "is_end_step", "get_premise"):
            p = self.must(base + m)
            s[p] = self.accessor(m)
        s[self.must("ast::context::ContextStack::push")] = self.m_push
        s[self.must("ast::context::ContextStack::push_with_id")] = self.m_push
        s[self.must("ast::context::ContextStack::pop")] = self.m_pop
        s[self.must("ast::context::ContextStack::is_empty")] = self.m_isempty
        s[find_body(prog, "checker::shared::check_step_core").path] = self.m_core
        s[find_body(prog, "checker::shared::check_assume_shared").path] = self.m_assume
        for n in ("ast::proof::Proof::iter", "checker::parallel::scheduler::Schedule::iter"):
            s[n] = lambda I, a, st, b, t, d: [(ITER, st)]
        for n in ("clause", "id", "is_assume"):
            s[self.must("ast::proof::ProofCommand::" + n)] = self.pure(n)

    def must(self, p):
        if p not in self.prog.bodies:
            raise RuntimeError("anchor function %s not found" % p)
        return p

    def v(self, key, msg, body, t):
        self.I.report("%s:%s" % (self.mode, key), "%s checker: %s" % (self.mode, msg), body, t)

    # ---- model of the command stream
    def settle(self, st, body, t, where):
        """obligations that must hold whenever the driver moves on from the current command"""
        I = self.I
        p = st.store[PEND]
        if p not in (gs("clean"),):
            self.v("skip:" + p[1], "a proof command (%s) is passed over without being checked (%s)" % (p[1], where), body, t)
        c = st.store[CTXS]
        if c != gs("ok"):
            self.v("context:" + c[1], "the context stack is not kept in step with the subproofs (%s, %s)" % (c[1], where), body, t)
        me = st.store[gcell("self")]
        r = fget(self.prog, self.PC, me, "reached_empty_clause")
        st.store[CTXS] = gs("ok")
        if r != FALSE and st.store[JUST] != gs("yes"):
            if self.justified(st):
                st.store[JUST] = gs("yes")
            else:
                self.v("reached", "the proof counts as reaching the empty clause although the current command is not known to be a checked step with an empty clause outside every subproof (%s)" % where, body, t)

    def note(self, st):
        """before the facts about the current command are forgotten"""
        me = st.store.get(gcell("self"))
        if me is not None and me[0] == "S" and fget(self.prog, self.PC, me, "reached_empty_clause") != FALSE and st.store[JUST] != gs("yes"):
            if self.justified(st):
                st.store[JUST] = gs("yes")

    def justified(self, st):
        I = self.I
        cmd = st.store[CMD]
        if cmd[0] == "gs" or st.store[PEND] != gs("clean"):
            return False
        step = ("fld", cmd, "Step", 0)
        if I.variant_of(st.facts, cmd) != "Step":
            return False
        cl = field_of(self.prog, step, "ast::proof::ProofStep", "clause")
        if I.cond_value(st.facts, c_eq0(length(cl))) is not True:
            return False
        q = st.store[CTXQ]
        return q[0] == "T" and any(I.cond_value(st.facts, x) is True for x in q[1])

    def m_next(self, I, a, st, body, t, d):
        I.event("next")
        self.settle(st, body, t, "at the next command")
        s0 = st.copy()
        s0.store[DONE] = gs("yes")
        s0.store[CMD] = gs("none")
        out = [(NONE, s0)]
        cmd = I.fresh("cmd")
        for vn in ("Assume", "Step", "Subproof"):
            for f in I.assume(st.facts, ("isv", cmd, vn)):
                s = State(dict(st.store), f)
                s.store[CMD] = cmd
                s.store[PEND] = gs(vn.lower())
                s.store[DONE] = gs("no")
                s.store[CTXQ] = ("T", ())
                if vn == "Subproof":
                    s.store[CTXS] = gs("needs-push")
                out.append((some(cmd), s))
        return out

    def accessor(self, m):
        def f(I, a, st, body, t, d):
            cmd = st.store.get(CMD, gs("none"))
            return [(("call", m, (cmd,) + tuple(I.deref(st, x) for x in a[1:])), st)]
        return f

    def pure(self, m):
        def f(I, a, st, body, t, d):
            return [(("call", m, tuple(I.deref(st, x) for x in a)), st)]
        return f

    def is_end(self, cmd):
        return ("call", "is_end_step", (cmd,))

    def m_push(self, I, a, st, body, t, d):
        I.event("push")
        s = st.copy()
        cmd = s.store[CMD]
        if s.store[CTXS] != gs("needs-push"):
            self.v("push", "a context is pushed that does not belong to a subproof being opened", body, t)
        want = field_of(self.prog, ("fld", cmd, "Subproof", 0), "ast::proof::Subproof", "args")
        if I.deref(st, a[1]) != want:
            self.v("push-args", "the context pushed for a subproof is not built from its own arguments", body, t)
        s.store[CTXS] = gs("ok")
        if s.store[PEND] == gs("subproof"):
            s.store[PEND] = gs("clean")
        return [(UNIT, s)]

    def m_pop(self, I, a, st, body, t, d):
        I.event("pop")
        s = st.copy()
        if self.parallel:
            return [(UNIT, s)]
        if s.store[CTXS] != gs("needs-pop"):
            self.v("pop", "a context is popped although no subproof was closed by a checked step", body, t)
        s.store[CTXS] = gs("ok")
        return [(UNIT, s)]

    def m_isempty(self, I, a, st, body, t, d):
        s = st.copy()
        c = I.fresh("context_empty")
        if s.store[CTXQ][0] == "T":
            s.store[CTXQ] = ("T", s.store[CTXQ][1] + (c,))
        return [(c, s)]

    def m_core(self, I, a, st, body, t, d):
        I.event("core")
        prog = self.prog
        cmd = st.store[CMD]
        step = ("fld", cmd, "Step", 0)
        vals = [I.deref(st, x) for x in a]
        stp = [x for x in vals if x == step]
        ra = [x for x in vals if x[0] == "S" and x[1] == "checker::rules::RuleArgs"]
        cx = [x for x in vals if x[0] == "S" and x[1] == "checker::shared::StepCheckContext"]
        if not stp:
            self.v("core-step", "the step that is checked is not the current command", body, t)
            return [(ok(UNIT), st.copy()), (err(), st.copy())]
        if ra:
            for f, g in (("conclusion", "clause"), ("args", "args")):
                if I.deref(st, fget(prog, "checker::rules::RuleArgs", ra[0], f)) != field_of(prog, step, "ast::proof::ProofStep", g):
                    self.v("rule-args:" + f, "the rule is not given the step's own %s" % g, body, t)
            for f, src, wrap in (("premises", "premises", True), ("discharge", "discharge", False)):
                xs = I.deref(st, fget(prog, "checker::rules::RuleArgs", ra[0], f))
                L = field_of(prog, step, "ast::proof::ProofStep", src)
                if A.sub(length(xs), length(L)) != num(0):
                    self.v("rule-%s:len" % f, "the rule is not given one entry per %s of the step (%s)" % (src[:-1] if wrap else src, rules.pv(length(xs))[:120]), body, t)
                    continue
                k = ("k", "premise", 0)
                e = I.element(st, xs, k)
                ref = ("call", "get_premise", (cmd, A.elem_simple(L, k)))
                if f == "premises":
                    good = e[0] == "S" and fget(prog, "checker::rules::Premise", e, "index") == A.elem_simple(L, k) and derives(e, ref)
                else:
                    good = e == ref
                if not good:
                    self.v("rule-%s" % f, "entry k of the %s given to the rule is not the command the step refers to (%s)" % (f, rules.pv(e)[:200]), body, t)
        if cx:
            S = "checker::shared::StepCheckContext"
            for f, m in (("is_end_step", "is_end_step"), ("current_subproof", "current_subproof"), ("subproof_depth", "depth")):
                x = I.deref(st, fget(prog, S, cx[0], f))
                want = ("call", m, (cmd,))
                same = x == want
                if not same and f == "is_end_step" and x[0] == "bool":
                    same = I.cond_value(st.facts, want) == x[1]
                if not same:
                    self.v("ctx:" + f, "the step core is not told the iterator's %s (%s)" % (m, rules.pv(x)[:100]), body, t)
            h = fget(prog, S, cx[0], "is_holey")
        else:
            h = None
        out = [(err(), st.copy())]
        idx = rules.field_index(prog, self.PC, "is_holey")
        for mark in (False, True):
            s = st.copy()
            s.store[PEND] = gs("clean")
            if h is None or h[0] != "mref":
                self.v("holey-ref", "the step core is not given the checker's own holey flag", body, t)
            else:
                if (h[1], h[2]) != (gcell("self"), (("f", "", idx),)):
                    cell_ok = h[1] == gcell("self") and h[2] and h[2][-1][2] == idx
                    if not cell_ok:
                        self.v("holey-ref", "the step core is not given the checker's own holey flag", body, t)
                if mark:
                    I.write(s, h[1], h[2], TRUE)
                    s.store[HOLE] = TRUE
            for b, z in bools(I, s, self.is_end(cmd)):
                if b and not self.parallel:
                    z.store[CTXS] = gs("needs-pop")
                out.append((ok(UNIT), z))
        return out

    def m_assume(self, I, a, st, body, t, d):
        I.event("assume")
        prog = self.prog
        cmd = st.store[CMD]
        vals = [I.deref(st, x) for x in a]
        names = [f["n"] for v in prog.adts["ast::proof::ProofCommand"]["variants"] if v["n"] == "Assume" for f in v["fields"]]
        term = ("fld", cmd, "Assume", names.index("term"))
        prem = field_of(prog, ("in", "problem"), "ast::problem::Problem", "premises")
        insub = ("call", "is_in_subproof", (cmd,))
        s = st.copy()
        if term not in vals:
            self.v("assume-term", "the assumption that is checked is not the current command's term", body, t)
            return [(TRUE, st.copy()), (FALSE, st.copy())]
        if prem not in vals:
            self.v("assume-premises", "assumptions are not compared with the premises of the problem", body, t)
        if insub not in vals:
            deep = False
            for v in vals:
                deep = deep or (v[0] == "not" and False)
            self.v("assume-scope", "the assumption check is not told whether the command is inside a subproof", body, t)
        s.store[PEND] = gs("clean")
        return [(TRUE, s), (FALSE, st.copy())]

    # ---- running
    def run(self):
        prog, I = self.prog, self.I
        adt = self.PC
        over = {"reached_empty_clause": ("in", "reached0"), "is_holey": ("in", "holey0")}
        if self.parallel:
            # a worker starts from what `share` produces
            J = TS(prog, {})
            sb = self.method("share")
            vs = [v for v, s in J.run(sb, [struct_of(prog, adt)], State({}, {}))]
            over = {}
            for f in ("reached_empty_clause", "is_holey"):
                xs = {fget(prog, adt, v, f) for v in vs if v[0] == "S"}
                over[f] = xs.pop() if len(xs) == 1 else ("in", f + "0")
        me = struct_of(prog, adt, **over)
        base = {gcell("self"): me, PEND: gs("clean"), CMD: gs("none"), DONE: gs("no"), HOLE: FALSE, CTXQ: ("T", ()),
                JUST: gs("no"), CTXS: gs("ok")}
        body = self.method("worker_thread_check" if self.parallel else "check_impl")
        args = []
        tys = body.locals[1:1 + nargs(body)]
        for ty in tys:
            if "ProofChecker" in ty:
                args.append(("mref", gcell("self"), ()))
            elif "ast::problem::Problem" in ty:
                args.append(("in", "problem"))
            elif "ast::proof::Proof" in ty:
                args.append(("in", "proof"))
            else:
                args.append(("in", "arg%d" % len(args)))
        self.body = body
        res = I.run(body, args, State(base, {}))
        oks = 0
        for v, st in res:
            for vn, w, z in split(I, st, v, ["Ok", "Err"]):
                if vn == "Err":
                    continue
                oks += 1
                self.at_ok(w, z)
        if not oks or not I.events.get("next") or not I.events.get("core") or not I.events.get("assume"):
            raise RuntimeError("%s driver not recognised: %s" % (self.mode, I.events))
        self.oks = oks
        return self

    def method(self, name):
        c = [p for p in self.prog.bodies if p.startswith(self.PC + "::") and p.endswith("::" + name) and self.prog.bodies[p].kind == "fn"]
        if len(c) != 1:
            raise RuntimeError("anchor %s::%s not found" % (self.PC, name))
        return self.prog.bodies[c[0]]

    def at_ok(self, v, st):
        I, prog = self.I, self.prog
        p = v[3][0] if v[0] == "E" else I.field(st, v, "Ok", 0)
        p = I.deref(st, p)
        me = st.store[gcell("self")]
        holey = fget(prog, self.PC, me, "is_holey")
        reached = fget(prog, self.PC, me, "reached_empty_clause")
        aborted = st.store[DONE] != gs("yes")
        if self.parallel:
            # Ok((reached, holey)); leaving early is allowed only after another thread raised the abort flag
            if p[0] != "T" or len(p[1]) < 2:
                self.v("result", "unexpected worker result %s" % rules.pv(p), self.body, None)
                return
            rr, hh = p[1][0], p[1][1]
            if aborted and I.cond_value(st.facts, ("in", "abort")) is not True and not any(
                    k[0] == "b" and x is True and "Atomic" in repr(k[1]) for k, x in st.facts.items()):
                self.v("incomplete", "a worker reports success before it has seen all of its commands and no other worker has failed", self.body, None)
            if not aborted:
                self.settle(st, self.body, None, "at the end")
            if rr != FALSE and not (rr == reached or I.cond_value(st.facts, reached) is True):
                self.v("reached-result", "a worker reports reaching the empty clause without having reached it", self.body, None)
            if rr == TRUE and reached == FALSE:
                self.v("reached-result", "a worker reports reaching the empty clause without having reached it", self.body, None)
            self.verdict_holey(hh, holey, st)
            return
        if aborted:
            self.v("incomplete", "the proof is accepted before all of its commands were checked", self.body, None)
        self.settle(st, self.body, None, "at the end")
        if st.store[JUST] != gs("yes"):
            self.v("no-empty-clause", "the proof is accepted although no checked step concluded the empty clause at the top level", self.body, None)
        self.verdict_holey(p, holey, st)

    def verdict_holey(self, p, holey, st):
        if st.store[HOLE] == TRUE and p != TRUE:
            self.v("holey", "an accepted proof containing a hole is not reported as holey (%s)" % rules.pv(p), self.body, None)
        elif p == FALSE and st.store[HOLE] != TRUE:
            pass
        elif st.store[HOLE] != TRUE and p == TRUE:
            self.v("holey-over", "a proof without any hole is reported as holey", self.body, None)
        elif st.store[HOLE] != TRUE and p[0] == "in" and not self.parallel:
            self.v("holey-stale", "the holey verdict of a proof depends on what was checked before it (%s)" % rules.pv(p), self.body, None)
        elif p != holey and p != TRUE and not (p[0] == "in"):
            self.v("holey-other", "the reported holey verdict is not the checker's holey flag (%s)" % rules.pv(p), self.body, None)


def derives(v, ref):
    if v == ref:
        return True
    if isinstance(v, tuple):
        return any(derives(x, ref) for x in v if isinstance(x, tuple))
    return False


# ------------------------------------------------------------------------------------------------ merging worker verdicts
class Merge:
    """the parallel checker combines worker results: accepted iff no worker failed and one reached the empty clause,
    holey iff any worker was"""
    ERR, REACH, HOLEY, ALL = map(gcell, ("m_err", "m_reached", "m_holey", "m_done"))

    def __init__(self, prog, fn):
        self.prog, self.fn = prog, fn
        self.I = TS(prog, {})
        s = self.I.summaries
        self.spawned = {}
        s["thread::scope"] = lambda I, a, st, b, t, d: I.closure_call(a[0], [("in", "scope")], st, b, t, d)
        s["Builder::spawn_scoped"] = self.m_spawn
        s["Builder::spawn"] = self.m_spawn
        s["Scope::spawn"] = self.m_spawn
        s["ScopedJoinHandle::join"] = self.m_join
        s["JoinHandle::join"] = self.m_join
        s["Iterator::for_each"] = self.m_each
        s["Iterator::try_for_each"] = self.m_each
        s["Iterator::next"] = self.m_next
        s["Iterator::collect"] = self.m_collect
        self.body = find_body(prog, fn)

    def m_spawn(self, I, a, st, body, t, d):
        I.event("spawn")
        for x in a:
            v = I.deref(st, x)
            if v[0] == "C":
                self.spawned[v[1]] = v
        h = ("in", "handle")
        return [(ok(h), st)] if "Result" in d else [(h, st)]

    def m_join(self, I, a, st, body, t, d):
        I.event("join")
        n = 3 if "CheckerStatistics" in d else 2
        out = []
        for r in (FALSE, TRUE):
            for h in (FALSE, TRUE):
                s = st.copy()
                if r == TRUE:
                    s.store[self.REACH] = TRUE
                if h == TRUE:
                    s.store[self.HOLEY] = TRUE
                out.append((ok(ok(("T", (r, h) + ((("in", "local_stats"),) if n == 3 else ())))), s))
        s = st.copy()
        s.store[self.ERR] = TRUE
        out.append((ok(err()), s))
        s2 = s.copy()
        out.append((err(), s2))
        return out

    def m_collect(self, I, a, st, body, t, d):
        from models import MODELS, to_seq, seq_elem, const_len, infinite
        if "Handle" not in d:
            return None
        s = to_seq(I, st, a[0])
        if s is None or infinite(s):
            return None
        # run the element closure once (it spawns); the collection is a list of handles of unknown length
        k = ("opq", "nth", 0)
        out = []
        for e, x in seq_elem(I, st, s, k, body, t):
            out.append((("in", "handles"), x))
        return out[:1]

    def m_next(self, I, a, st, body, t, d):
        from models import MODELS
        r = MODELS["Iterator::next"](I, a, st, body, t, d)
        if r is None:
            return None
        for v, s in r:
            if v == NONE:
                s.store[self.ALL] = TRUE
        return r

    def m_each(self, I, a, st, body, t, d):
        from models import to_seq, seq_elem, const_len
        s = to_seq(I, st, a[0])
        if s is None:
            return None
        trying = "try_for_each" in t["f"]["fnref"]["fn"]

        def elem(x):
            y = x.copy()
            y.store[self.ALL] = TRUE
            return [(None, y)] + list(seq_elem(I, x, s, ("opq", "nth", 1), body, t))

        def stop(v, y):
            return [(vn in ("Break", "Err", "None"), v, z) for vn, w, z in split(I, y, v, ["Continue", "Break"])]
        out = []
        for stopped, v, x in each(I, st, a[1], elem, body, t, ("each", body.path, t["ln"]), stop if trying else None):
            out.append((I.fresh("each") if trying else UNIT, x))
        return out

    def run(self):
        I, prog = self.I, self.prog
        args = [("mref", gcell("self"), ())] + [("in", "arg%d" % i) for i in range(nargs(self.body) - 1)]
        st = State({gcell("self"): struct_of(prog, "checker::parallel::ParallelProofChecker"), self.ERR: FALSE, self.REACH: FALSE,
                    self.HOLEY: FALSE, self.ALL: FALSE}, {})
        res = I.run(self.body, args, st)
        self.oks = 0
        for v, s in res:
            for vn, w, z in split(I, s, v, ["Ok", "Err"]):
                if vn == "Err":
                    continue
                self.oks += 1
                p = w[3][0] if w[0] == "E" else I.field(z, w, "Ok", 0)
                nm = self.fn.split("::")[-1]
                if z.store[self.ERR] == TRUE:
                    I.report("merge:%s:error-lost" % nm, "parallel checker (%s): the proof can be accepted although a worker thread reported an error or died" % nm, self.body)
                elif z.store[self.ALL] != TRUE:
                    I.report("merge:%s:incomplete" % nm, "parallel checker (%s): the proof can be accepted before every worker thread was waited for" % nm, self.body)
                if z.store[self.REACH] != TRUE:
                    I.report("merge:%s:no-empty-clause" % nm, "parallel checker (%s): the proof can be accepted although no worker reached the empty clause" % nm, self.body)
                if p != z.store[self.HOLEY]:
                    I.report("merge:%s:holey" % nm, "parallel checker (%s): the holey verdict %s differs from the disjunction of the workers' verdicts (%s)" % (nm, rules.pv(p), rules.pv(z.store[self.HOLEY])), self.body)
        if not I.events.get("join") or not self.oks:
            raise RuntimeError("merging of worker results not recognised in %s: %s" % (self.fn, I.events))
        if not self.spawned:
            raise RuntimeError("no spawned worker closure found in %s" % self.fn)
        # what a worker closure returns is the worker's own verdict
        for key, clv in self.spawned.items():
            self.closure(key, clv)
        return self

    def closure(self, key, clv):
        prog = self.prog
        b = prog.bodies[key]
        W = [p for p in prog.bodies if p.endswith("::worker_thread_check")]
        if len(W) != 1:
            raise RuntimeError("worker function not found")
        R = gcell("w")

        def worker(I, a, st, body, t, d):
            I.event("worker")
            out = []
            for r in (FALSE, TRUE):
                for h in (FALSE, TRUE):
                    s = st.copy()
                    s.store[R] = ("T", (r, h))
                    out.append((ok(("T", (r, h))), s))
            s = st.copy()
            s.store[R] = gs("err")
            out.append((err(), s))
            return out
        J = TS(prog, {W[0]: worker})
        st = State({R: gs("none"), gcell("cl"): clv}, {})
        for v, s in J.run(b, [("mref", gcell("cl"), ())] if b.locals[1].startswith("&") else [clv], st):
            for vn, w, z in split(J, s, v, ["Ok", "Err"]):
                if vn == "Err":
                    continue
                p = J.deref(z, w[3][0] if w[0] == "E" else J.field(z, w, "Ok", 0))
                got = z.store[R]
                if got[0] != "T" or p[0] != "T" or tuple(J.deref(z, x) for x in p[1][:2]) != got[1]:
                    self.I.report("worker-closure", "parallel checker: a worker thread reports %s although its check ended with %s" % (rules.pv(p), rules.pv(got)), b)
        if not J.events.get("worker"):
            raise RuntimeError("the worker closure does not run the worker")


# ------------------------------------------------------------------------------------------------ command streams and contexts
def tagged(v, tags):
    return A.has_tag(v, tags)


def frames(n):
    return tuple(("T", (("in", "i%d" % k), ("in", "c%d" % k))) for k in range(n))


def stream_seq(prog):
    """ProofIter: next() yields the first unreturned command of the innermost unfinished frame and opens subproofs"""
    nx = find_body(prog, "<ast::iter::ProofIter<'a> as std::iter::Iterator>::next")
    viol, obl, und = [], 0, []
    adt = "ast::iter::ProofIter"
    if [f["ty"] for f in prog.adts[adt]["variants"][0]["fields"] if "Vec<(usize, &" in f["ty"]] == [] or len(prog.adts[adt]["variants"][0]["fields"]) != 1:
        return viol, 0, ["the iterator's representation is not a stack of (index, commands)"], []
    sub_cmds = rules.field_index(prog, "ast::proof::Subproof", "commands")
    it = gcell("it")
    bodies = set()
    for depth in (1, 2, 3):
        I = TS(prog, {})
        I.rec_limit = 4
        fr = frames(depth)
        for v, st in I.run(nx, [("mref", it, ())], State({it: ("S", adt, (("list", fr),))}, {})):
            obl += 1
            stk = st.store[it][2][0] if st.store[it][0] == "S" else None
            if v[0] != "E" or stk is None or stk[0] != "list":
                und.append("next() at depth %d: %s" % (depth - 1, rules.pv(v)[:80]))
                continue
            fin = [I.cond_value(st.facts, c_eq0(A.sub(f[1][0], length(f[1][1])))) for f in fr]
            if v[2] == "None":
                if not all(x is True for x in fin):
                    viol.append(("seq-next:end", "the proof iterator stops although a command of an open subproof or of the proof was not returned yet", rules.pf(st.facts)))
                continue
            e = v[3][0]
            good = False
            for j in range(depth):
                ij, cj = fr[j][1]
                if e != A.elem_simple(cj, ij):
                    continue
                want = tuple(fr[:j]) + (("T", (A.add(ij, num(1)), cj)),)
                var = I.variant_of(st.facts, e)
                if var == "Subproof":
                    want += (("T", (num(0), ("fld", ("fld", e, "Subproof", 0), "", sub_cmds))),)
                elif "Subproof" not in st.facts.get(("nv", e), ()) and var is None:
                    break
                good = stk[1] == want and all(x is True for x in fin[j + 1:])
            if not good:
                viol.append(("seq-next:step", "the proof iterator returns a command out of order, twice, or without entering its subproof: %s, leaving %s" % (rules.pv(v), rules.pv(stk)), rules.pf(st.facts)))
        bodies |= I.visited_bodies
    # accessors, on stacks of depth 1..3
    base = "ast::iter::ProofIter::<'a>::"
    for depth in (1, 2, 3):
        fr = frames(depth)
        top = fr[-1][1]
        spec = {"depth": num(depth - 1), "is_in_subproof": ("bool", depth > 1),
                "current_subproof": some(top[1]) if depth > 1 else NONE,
                "is_end_step": c_eq0(A.sub(top[0], length(top[1]))) if depth > 1 else FALSE}
        for m, want in spec.items():
            I = TS(prog, {})
            for v, st in I.run(find_body(prog, base + m), [("mref", it, ())], State({it: ("S", adt, (("list", fr),))}, {})):
                obl += 1
                v = I.deref(st, v)
                if v == want:
                    continue
                if v[0] == "bool" and want[0] != "bool" and I.cond_value(st.facts, want) == v[1]:
                    continue
                if tagged(v, ("opq",)):
                    und.append("%s at depth %d" % (m, depth - 1))
                    continue
                if want[0] == "bool" and I.is_cond(v) and I.cond_value(st.facts, v) == want[1]:
                    continue
                viol.append(("seq-acc:" + m, "the proof iterator's %s is %s at nesting depth %d, expected %s" % (m, rules.pv(v), depth - 1, rules.pv(want)), None))
            bodies |= I.visited_bodies
        for d in range(depth):
            I = TS(prog, {})
            j = ("in", "j")
            for v, st in I.run(find_body(prog, base + "get_premise"), [("mref", it, ()), ("T", (num(d), j))], State({it: ("S", adt, (("list", fr),))}, {})):
                obl += 1
                if I.deref(st, v) != A.elem_simple(fr[d][1][1], j):
                    (und if tagged(v, ("opq",)) else viol).append(("seq-acc:get_premise", "a premise (depth %d, index j) resolves to %s" % (d, rules.pv(v)), None))
            bodies |= I.visited_bodies
    return viol, obl, und, sorted(bodies)


def context_depth(prog):
    """push adds exactly one context, pop removes exactly one, is_empty means none is open"""
    viol, obl, und = [], 0, []
    adt = "ast::context::ContextStack"
    idx = [i for i, f in enumerate(prog.adts[adt]["variants"][0]["fields"]) if f["ty"] == "std::vec::Vec<usize>"]
    if len(idx) != 1:
        return viol, 0, ["the context stack's representation changed"], []
    c = gcell("cs")
    bodies = set()
    for n in (0, 1, 2):
        lst = ("list", tuple(("in", "id%d" % k) for k in range(n)))
        me = struct_of(prog, adt)
        me = me[:2] + (me[2][:idx[0]] + (lst,) + me[2][idx[0] + 1:],)
        for m, a, want in (("push", [("in", "args")], n + 1), ("push_with_id", [("in", "args"), ("in", "context_id")], n + 1), ("pop", [], max(n - 1, 0)), ("is_empty", [], n)):
            I = TS(prog, {})
            try:
                rs = I.run(find_body(prog, adt + "::" + m), [("mref", c, ())] + a, State({c: me}, {}))
            except A.Limit as e:
                und.append("%s: %s" % (m, e))
                continue
            bodies |= I.visited_bodies
            for v, st in rs:
                obl += 1
                s = st.store[c]
                s = s[2][idx[0]] if s[0] == "S" else s
                ln = length(s) if s[0] in ("list", "seq", "slice") else None
                if ln is None or ln[0] != "int":
                    und.append("%s with %d open contexts" % (m, n))
                elif ln != num(want):
                    viol.append(("ctx:" + m, "after %s with %d open contexts, %s are open" % (m, n, rules.pv(ln)), None))
                if m == "is_empty":
                    if v[0] != "bool":
                        und.append("is_empty")
                    elif v[1] != (n == 0):
                        viol.append(("ctx:is_empty", "is_empty is %s with %d open contexts" % (v[1], n), None))
    return viol, obl, und, sorted(bodies)


def discharge_rule(prog):
    """an accepted closing step lists every local assumption of its subproof"""
    body = find_body(prog, "checker::shared::check_discharge_shared")
    from absint import Interp
    I = Interp(prog)
    tys = body.locals[1:1 + nargs(body)]
    names = {}
    args = []
    for ty in tys:
        n = "subproof" if "ProofCommand" in ty else "discharge" if "(usize, usize)" in ty else "depth"
        args.append(("in", n))
    S, D, DEP = ("in", "subproof"), ("in", "discharge"), ("in", "depth")
    viol, und, obl = [], [], 0

    def member(k, x, i):
        if k[0] == "b" and x is True:
            c = k[1]
            if c[0] == "call" and c[1].split("::")[-1] == "contains" and derives(c[2][0], D) and c[2][1] == ("T", (DEP, i)):
                return True
            if c[0] == "eq" and ("T", (DEP, i)) in c[1:] and any(y[0] == "elem" and y[1] == D for y in c[1] if isinstance(y, tuple)):
                return True
        return False

    oks = 0
    for v, st in I.run(body, args, State({}, {})):
        if v[0] == "E" and v[2] == "Err":
            continue
        oks += 1
        obl += 1
        done = False
        alls = [k for k in st.facts if k[0] == "all" and k[2] == num(0) and k[3] == length(S)]
        bad = None
        for al in alls:
            i = al[1]
            cmd = A.elem_simple(S, i)
            good = True
            for dset in al[4]:
                d = dict(dset)
                var = d.get(("v", cmd))
                if (var is not None and var != "Assume") or "Assume" in d.get(("nv", cmd), ()):
                    continue
                if any(member(k, x, i) for k, x in d.items()) or any(k[0] == "or" and all(any(member(kk, xx, i) for kk, xx in o) for o in k[1]) for k in d):
                    continue
                good = False
                bad = rules.pf(d)
            done = done or good
        if not done:
            if bad is None and (tagged(tuple(st.facts), ("opq",)) or any(k[0] == "lossy" for k in st.facts)):
                und.append("discharge check: accepting path outside the analysed fragment")
            elif bad is not None and tagged(tuple(bad), ("opq",)):
                und.append("discharge check: " + str(bad)[:100])
            else:
                viol.append(("discharge", "the discharge check accepts a closing step although a local assumption need not be in its discharge list (%s)" % (bad,), rules.pf(st.facts)))
    if not oks:
        raise RuntimeError("discharge check not recognised")
    return viol, obl, und, sorted(I.visited_bodies)


# ------------------------------------------------------------------------------------------------ property runs
def split_viol(d, pred):
    return [(k, m, None) for k, m in sorted(d.items()) if pred(k.split(":", 1)[1] if ":" in k else k)]


HOLEY_KEYS = ("holey", "holey-ref", "holey-other")
REACH_KEYS = ("reached", "no-empty-clause", "reached-result", "context", "pop", "push", "push-args")


def drivers(prog):
    ds = [Driver(prog, p).run() for p in (False, True)]
    ms = [Merge(prog, "checker::parallel::ParallelProofChecker::<'c>::" + n).run() for n in ("check", "check_with_stats")]
    return ds, ms


def kind(k):
    # "sequential:skip:step" -> skip ; "merge:check:holey" -> holey
    parts = k.split(":")
    if parts[0] == "merge":
        return "merge-" + parts[2]
    if parts[0] in ("sequential", "parallel"):
        return parts[1]
    return parts[0]


def gather(ds, ms, kinds):
    v = []
    for x in ds + ms:
        for k, m in sorted(x.I.viol.items()):
            if kind(k) in kinds:
                v.append((k, m, None))
    return v


def cover(ds, ms, extra, und=()):
    ev = {}
    for x in ds:
        for k, n in x.I.events.items():
            ev["%s:%s" % (x.mode, k)] = n
    for x in ms:
        for k, n in x.I.events.items():
            ev["merge:%s" % k] = ev.get("merge:%s" % k, 0) + n
    bodies = sorted(set().union(*[x.I.visited_bodies for x in ds + ms])) if ds or ms else []
    c = {"events_explored": ev, "accepting_paths": sum(x.oks for x in ds + ms), "functions_analysed": bodies, "not_decided": sorted(set(map(str, und)))}
    c.update(extra)
    return c


def finish(viol, cov, n):
    cov["obligations"] = n
    cov["discharged"] = max(0, n - len(viol) - len(cov.get("not_decided", [])))
    return viol, cov


def fresh_workers(prog):
    """every constructor of the parallel checker starts without a hole and without an empty clause"""
    out, n = [], 0
    adt = [a for a in prog.adts if a.split("::")[-1] == "ParallelProofChecker"][0]
    for p, b in prog.bodies.items():
        if b.kind == "fn" and adt in p and "ParallelProofChecker" in b.locals[0] and "&" not in b.locals[0]:
            I = TS(prog, {}, opaque=lambda q: adt not in q)
            for v, st in I.run(b, [("in", "a%d" % i) for i in range(nargs(b))], State({}, {})):
                if v[0] != "S":
                    continue
                n += 1
                for f in ("is_holey", "reached_empty_clause"):
                    if I.deref(st, fget(prog, v[1], v, f)) != FALSE:
                        out.append(("fresh:" + f, "%s creates a worker whose %s is not false" % (p, f), None))
    if not n:
        raise RuntimeError("no constructor of the parallel checker found")
    return out


def c01(prog, tier):
    ds, ms = drivers(prog)
    v, cc = holey_core(prog)
    v += gather(ds, ms, ("holey", "holey-ref", "holey-other", "holey-over", "holey-stale", "merge-holey", "worker-closure", "fresh"))
    v += fresh_workers(prog)
    cov = cover(ds, ms, cc)
    n = cc["core_accepting_paths"] * (len(cc["trivially_accepting_rules"]) + 2) + sum(x.oks for x in ds + ms)
    cov["rule"] = "on every accepting path the holey flag is set unless a rule implementation ran under a name that is not unchecked; the flag reaches the verdict"
    return finish(v, cov, n)


def c02(prog, tier):
    ds, ms = drivers(prog)
    v = gather(ds, ms, ("skip", "core-step", "rule-args", "rule-premises", "rule-discharge", "ctx", "assume-term", "assume-premises", "assume-scope", "incomplete", "merge-error-lost", "merge-incomplete"))
    v2, obl, und, bodies = stream_seq(prog)
    cov = cover(ds, ms, {"iterator_bodies": bodies}, und)
    cov["rule"] = "typestate: a command fetched from the proof is checked successfully before the next is fetched or the proof accepted; the iterator yields every command"
    return finish(v + v2, cov, obl + sum(x.I.events.get(k, 0) for x in ds for k in ("next", "core", "assume")) + sum(x.oks for x in ms))


def c03(prog, tier):
    ds, ms = drivers(prog)
    v = gather(ds, ms, ("reached", "no-empty-clause", "reached-result", "context", "pop", "push", "push-args", "merge-no-empty-clause", "worker-closure"))
    v2, obl, und, bodies = context_depth(prog)
    cov = cover(ds, ms, {"context_bodies": bodies}, und)
    cov["rule"] = "typestate: acceptance implies a checked step with an empty clause while no context was open; contexts are pushed and popped with subproofs"
    return finish(v + v2, cov, obl + sum(x.I.events.get(k, 0) for x in ds for k in ("next", "push", "pop")) + sum(x.oks for x in ds + ms))


def c08(prog, tier):
    v, cc = end_core(prog)
    ds = [Driver(prog, p).run() for p in (False, True)]
    v += gather(ds, [], ("ctx",))
    v2, obl, und, bodies = discharge_rule(prog)
    cov = cover(ds, [], {"core": cc, "discharge_bodies": bodies}, und)
    cov["rule"] = "an accepted closing step implies the discharge check succeeded; that check accepts only if every local assumption is listed"
    return finish(v + v2, cov, obl + cc["accepting_paths"] + sum(x.I.events.get("core", 0) for x in ds))
