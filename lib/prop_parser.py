"""C26, C27: names are resolved in their scope; the premises are the asserted terms."""
import absint as A
import rules
from absint import State, num, TRUE, FALSE, UNIT, norm, add
from models import NONE, some, ok, err
from typestate import TS, gcell, find_body
from prop_driver import gs, finish

PARSER = "parser::Parser::"
NOSEP = ("parser::lexer::Token",)


def parser_methods(prog):
    return {p: b for p, b in prog.bodies.items() if b.kind == "fn" and p.startswith(PARSER) and "#promoted" not in p}


def method(prog, name):
    c = [b for p, b in parser_methods(prog).items() if p.split("::")[-1] == name]
    if len(c) != 1:
        raise RuntimeError("parser method %s not found" % name)
    return c[0]


def reads_input(prog):
    """parser methods that consume input, directly or through others (they are not followed: their result is a fresh value)"""
    ms = parser_methods(prog)
    out = set()
    ch = True
    while ch:
        ch = False
        for p, b in prog.bodies.items():
            if p in out or b.kind not in ("fn", "closure"):
                continue
            for _, t in b.calls():
                r = (t["f"].get("fnref") or {}) if isinstance(t["f"], dict) else {}
                q = r.get("res") or ""
                if q in out or q.startswith("parser::lexer::Lexer") and q.endswith("next_token"):
                    if p.startswith(PARSER):
                        out.add(p)
                        ch = True
                    break
    return {p for p in out if p in ms}


def ok_type(dty):
    return "result::Result<" in dty


class PS(TS):
    """parser functions: methods of the parser that consume input return ("res", method, call line, serial) values"""

    def __init__(self, prog, summaries, **kw):
        self.readers = reads_input(prog)
        summ = {}
        for p in self.readers:
            summ[p] = self.opaque_read(p)
        summ.update(summaries)
        home = {b.file for p, b in parser_methods(prog).items()}
        kw.setdefault("opaque", lambda p: prog.bodies[p].file not in home)
        TS.__init__(self, prog, summ, **kw)

    def opaque_read(self, p):
        name = p.split("::")[-1]

        def f(I, a, st, body, t, dty):
            if body is not None and not I.follow(name, body):
                I.event(name)
                s = st.copy()
                v = ("in", "res:%s:%d" % (name, t["ln"] if t else 0))
                I.on_read(name, v, s, a)
                I.forget(s, v)
                if ok_type(dty):
                    return [(ok(v), s), (err(), st.copy())]
                return [(v, s)]
            return None
        return f

    def forget(self, st, v):
        """facts about an earlier reading at the same place no longer hold"""
        for k in [k for k in st.facts if A.has_tag(k, ("in",)) and mentions(k, v)]:
            del st.facts[k]

    def follow(self, name, body):
        return False

    def on_read(self, name, v, st, a):
        pass


def mentions(k, v):
    if k == v:
        return True
    if isinstance(k, (tuple, frozenset)):
        return any(mentions(x, v) for x in k)
    return False


def root_of(v, tag="in"):
    """the input value v is a part of"""
    while v[0] in ("fld", "elem", "slice"):
        v = v[1]
    return v


def is_term_set(t):
    ga = ((t or {}).get("f", {}).get("fnref") or {}).get("ga", []) if t else []
    return bool(ga) and "Rc<ast::term::Term>" in ga[0]


PREMISE_OPS = ("insert", "extend", "insert_full", "replace", "append", "insert_before", "shift_insert", "insert_sorted")
REMOVE_OPS = ("clear", "remove", "swap_remove", "shift_remove", "pop", "retain", "drain", "truncate", "take", "swap_take", "split_off", "shift_take")


def set_op(r):
    """(operation) of a call on an IndexSet of terms"""
    p = r.get("res") or ""
    if "IndexSet" not in p or not r.get("ga") or "Rc<ast::term::Term>" not in r["ga"][0]:
        return None
    n = p.split("::")[-1]
    return n if n in PREMISE_OPS or n in REMOVE_OPS else None


def fnref(t):
    return (t["f"].get("fnref") or {}) if isinstance(t["f"], dict) else {}


def reaching(prog, pred):
    """parser methods from which a call satisfying pred is reached through parser functions"""
    out = set()
    ch = True
    homes = {b.file for b in parser_methods(prog).values()}
    bs = {p: b for p, b in prog.bodies.items() if b.kind in ("fn", "closure") and b.file in homes}
    while ch:
        ch = False
        for p, b in bs.items():
            if p in out:
                continue
            if any(pred(fnref(t)) or (fnref(t).get("res") in out) for _, t in b.calls()) or any(q in out for q in bs if q.startswith(p + "::{closure")):
                out.add(p)
                ch = True
    return out


HEAD, INS = gcell("head"), gcell("inserted")


def assertions(prog, viol, hook=None, more=None):
    """parse_problem: exactly the asserted terms (and definitions) become premises"""
    inserting = {p.split("::")[-1] for p in reaching(prog, lambda r: set_op(r) in PREMISE_OPS)}
    names = {fnref(t).get("res") for b in prog.bodies.values() for _, t in b.calls() if set_op(fnref(t))}
    entry = method(prog, "parse_problem")
    tokens = {}
    seen = []

    def kind(st):
        for tok in list(tokens):
            head = ("fld", tok, "", 0)
            w = ("fld", head, "ReservedWord", 0)
            if st.facts.get(("v", head)) == "ReservedWord" and st.facts.get(("v", w)):
                return st.facts[("v", w)]
        return None

    def contains_read(v):
        if v[0] == "in" and v[1].startswith("res:"):
            return True
        return any(contains_read(x) for x in v if isinstance(x, tuple) and x and isinstance(x[0], str)) or \
            any(contains_read(y) for x in v if isinstance(x, tuple) and x and isinstance(x[0], tuple) for y in x if isinstance(y, tuple) and y and isinstance(y[0], str))

    def unpool(v):
        while v[0] == "call" and v[1].split("::")[-1] == "add" and len(v[2]) == 2:
            v = v[2][1]
        return v

    def definition(v):
        """(= f body) or a universally quantified one, over parts of what was read"""
        v = unpool(v)
        if v[0] == "E" and v[2] == "Binder" and v[3][0][0] == "E" and v[3][0][2] == "Forall":
            v = unpool(v[3][2])
        return v[0] == "E" and v[2] == "Op" and v[3][0][2] == "Equals" and v[3][1][0] == "list" and len(v[3][1][1]) == 2

    def defs(I, a, st, b, t, d):
        ga = fnref(t).get("ga", [])
        if any("FunctionDef" in g for g in ga):
            s = st.copy()
            s.store[INS] = TRUE
            return [(I.fresh("ins"), s)]
        return None

    def op(n):
        def f(I, a, st, b, t, d):
            if not is_term_set(t):
                return None
            n_ = n
            if n_ in REMOVE_OPS:
                I.report("premises:%s" % n_, "premises of the problem are removed while it is parsed", b, t)
                return [(I.fresh("rm"), st)]
            v = I.deref(st, a[1])
            k = kind(st)
            seen.append((k, n_, rules.pv(v)[:200]))
            I.event("insert:%s" % k)
            r = root_of(v)
            if hook and k in ("Assert", "CheckSatAssuming"):
                hook(I, st, v, k, b, t)
            if k in ("Assert", "CheckSatAssuming"):
                good = r[0] == "in" and r[1].startswith("res:parse") and (v == r or k == "CheckSatAssuming")
            else:
                good = k in ("DefineFun", "DefineFunRec", "DefineFunsRec") and definition(v)
            if not good:
                I.report("premises:%s:%s" % (k, n_), "a term that was not asserted becomes a premise of the problem (command %s, term %s)" % (k, rules.pv(v)[:80]), b, t)
            s = st.copy()
            s.store[INS] = TRUE
            return [(I.fresh("ins"), s)]
        return f
    summ = {}
    for p in names:
        summ[p] = op(p.split("::")[-1])
    for p in {fnref(t).get("res") for b in prog.bodies.values() for _, t in b.calls()}:
        if p and p.split("::")[-1] == "insert" and ("IndexMap" in p or "HashMap" in p) and p not in summ:
            summ[p] = defs
    summ.update(more or {})
    I = PS(prog, summ)
    I.follow = lambda name, body: name in inserting or hook is not None and name == "parse_term_expecting_sort"
    heads = set()
    loops = entry.loops()
    outer = {h for h, reg in loops.items() if not any(h in r2 and h2 != h for h2, r2 in loops.items())}

    def main_loop(lid):
        return lid[0] == entry.path and lid[2] in outer

    def on_read(name, v, st, a):
        if name == "next_token" and I.stack and I.stack[-1][0] is entry:
            tokens[v] = True
            st.store[INS] = FALSE
    I.on_read = on_read

    def on_back(st):
        k = kind(st)
        heads.add(I.back_lid)
        if k in ("Assert", "DefineFun") and st.store.get(INS) == FALSE and main_loop(I.back_lid):
            I.report("lost:%s" % k, "an %s command can be parsed without its %s" % (
                k, "term becoming a premise of the problem" if k == "Assert" else "definition being kept"), entry)
        if k:
            I.event("command:%s" % k)
    I.on_back = on_back
    res = I.run(entry, [("in", "self")], State({INS: FALSE}, {}))
    for k in ("Assert", "CheckSatAssuming"):
        if not I.events.get("insert:" + k):
            raise RuntimeError("the handling of %s commands was not found" % k)
    late = [p for p in reaching(prog, lambda r: set_op(r) in PREMISE_OPS + REMOVE_OPS) if p.split("::")[-1] in ("parse_proof",)]
    for p in late:
        I.report("proof:%s" % p.split("::")[-1], "parsing the proof can change the set of premises of the problem", prog.bodies[p])
    viol.update(I.viol)
    return {"function": entry.path, "events": dict(I.events), "results": len(res), "inserted": sorted(set(seen), key=str)}


EQ = gcell("eq")


def assume(prog, viol):
    """check_assume_shared: an accepted top-level assumption is a premise, exactly or up to the comparison of terms"""
    b = find_body(prog, "checker::shared::check_assume_shared")
    ts = b.locals[1:1 + b.argc]
    role = {}
    for i, ty in enumerate(ts):
        for k, sub in (("premises", "IndexSet<"), ("config", "checker::Config"), ("stats", "CheckerStatistics"), ("term", "Rc<ast::term::Term>"), ("id", "str"), ("insub", "bool")):
            if k not in role and sub in ty:
                role[k] = i
                break
    if len(role) < 5:
        raise RuntimeError("parameters of check_assume_shared not recognised")

    def comp(I, a, st, body, t, d):
        vals = [I.deref(st, x) for x in a]
        I.event("comparison")
        s = st.copy()
        s.store[EQ] = ("T", tuple(v for v in vals if root_of(v)[0] == "in" and root_of(v)[1] in ("term", "premises")))
        return [(TRUE, s), (FALSE, st.copy())]
    summ = {p: comp for p, bb in prog.bodies.items() if bb.kind == "fn" and p.startswith("ast::polyeq::") and bb.locals[0] == "bool" and "#" not in p}
    I = TS(prog, summ)
    st = State({EQ: gs("no")}, {})
    args = [None] * b.argc
    for k, i in role.items():
        args[i] = ("in", k)
    args = [a if a is not None else ("in", "arg%d" % i) for i, a in enumerate(args)]
    elab = ("fld", ("in", "config"), "", rules.field_index(prog, "checker::Config", "elaborated"))
    n = 0
    for v, s in I.run(b, args, st):
        n += 1
        insub = I.cond_value(s.facts, ("in", "insub"))
        has = [x for k, x in s.facts.items() if k[0] == "b" and k[1][0] == "call" and k[1][1].split("::")[-1] in ("contains",) and k[1][2] == (("in", "premises"), ("in", "term"))]
        got = [k for k, x in s.facts.items() if k[0] == "v" and x == "Some" and k[1][0] == "call" and k[1][1].split("::")[-1] in ("get", "get_full", "get_index_of") and k[1][2] == (("in", "premises"), ("in", "term"))]
        exact = TRUE[1] in has or bool(got)
        e = s.store[EQ]
        equal = e[0] == "T" and ("in", "term") in e[1] and any(x[0] == "elem" and x[1] == ("in", "premises") for x in e[1])
        if v == TRUE:
            if insub is True or exact:
                continue
            if not equal:
                I.report("assume:unchecked", "an assumption outside every subproof is accepted although it was not found among the premises of the problem: " + "; ".join(rules.pf(s.facts))[:160], b)
            elif I.cond_value(s.facts, elab) is not False:
                I.report("assume:elaborated", "in elaborated proofs an assumption is accepted although no premise is identical to it", b)
        elif v == FALSE:
            if exact:
                I.report("assume:rejected", "an assumption identical to a premise of the problem is rejected", b)
        else:
            c = v
            if not (c[0] == "call" and c[1].split("::")[-1] == "contains" and c[2] == (("in", "premises"), ("in", "term"))):
                I.report("assume:result", "the result of checking an assumption is not decided by the premises of the problem: " + rules.pv(v)[:100], b)
    viol.update(I.viol)
    return {"function": b.path, "paths": n, "events": dict(I.events)}


def c27(prog, tier):
    viol = {}
    m = [assume(prog, viol), assertions(prog, viol)]
    n = m[0]["paths"] + sum(m[1]["events"].values())
    return finish([(k, v, None) for k, v in viol.items()], {"parts": m, "rule": "an assumption outside subproofs is accepted only on a path where it was found in the premise set, or (not elaborated) compared equal to one of its elements; premises are inserted exactly by assertion and definition commands"}, n)
