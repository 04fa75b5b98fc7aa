"""C12: free variables and substitutions follow the binding structure of terms."""
import absint as A
import models
from absint import State, num, TRUE, FALSE, UNIT, norm
from models import NONE, some
from typestate import TS, gcell, find_body
from prop_driver import finish, fget
from prop_print import variant, TERM

POOL, SUB = "ast::pool::PrimitivePool", "ast::substitution::Substitution"
LOG = gcell("log")
SORT = "ast::term::Sort"


def inp(n):
    return ("in", n)


def call(f, *a):
    return ("call", f, tuple(a))


def var(n, s):
    return call("var", variant(TERM, "Var", n, s))


def is_set(ty):
    return A.base_ty(ty).split("::")[-1] in ("IndexSet", "HashSet", "BTreeSet", "IndexMap", "HashMap")


class SV(TS):
    """runs one function on a term of a known shape; sets are traces of additions and removals, calls that recurse into
    subterms are left symbolic"""

    def __init__(self, prog, extra=None, opaque=None, **kw):
        sm = {}
        for c in ("IndexSet", "HashSet", "BTreeSet", "IndexMap", "HashMap"):
            for f in ("new", "with_capacity", "default"):
                sm[c + "::" + f] = lambda I, a, st, b, t, d: [(("fset", ()), st)]
            for f in ("insert", "extend", "swap_remove", "shift_remove", "remove", "clear", "retain", "contains", "contains_key", "get", "is_empty", "append",
                      "swap_remove_entry", "shift_remove_entry", "len", "swap_take", "take", "is_disjoint", "iter", "keys", "values", "into_iter", "entry",
                      "pop", "drain", "truncate", "sort", "union", "difference", "insert_before", "replace"):
                sm[c + "::" + f] = (lambda f: lambda I, a, st, b, t, d: setop(I, f, a, st, b, t, d))(f)
        sm["Extend::extend"] = lambda I, a, st, b, t, d: setop(I, "extend", a, st, b, t, d)
        sm["ops::Index::index"] = sm["Index::index"] = index
        sm["IntoIterator::into_iter"] = lambda I, a, st, b, t, d: into_iter(I, a, st)
        sm["ast::pool::TermPool::add"] = lambda I, a, st, b, t, d: [(call("var", I.deref(st, a[1])), st)]
        sm["ast::pool::TermPool::sort"] = lambda I, a, st, b, t, d: [(call("sort", I.deref(st, a[1])), st)]
        sm["ast::pool::TermPool::free_vars"] = lambda I, a, st, b, t, d: [(fv_of(I.deref(st, a[1])), st)]
        sm["String::push"] = sm["String::push_str"] = sm["String::insert"] = sm["String::insert_str"] = push
        sm["Iterator::filter"], sm["Iterator::filter_map"] = keep_some, keep_some
        sm["Iterator::for_each"] = each_of
        sm["Iterator::flat_map"] = sm["Iterator::flatten"] = flat
        sm["Iterator::collect"] = sm["FromIterator::from_iter"] = to_set
        for c in ("IndexMap", "IndexSet"):
            sm[c + "::first"] = sm[c + "::last"] = sm[c + "::get_index"] = nth
        for f in ("checked_sub", "saturating_sub"):
            sm["usize::" + f] = sm["num::" + f] = (lambda f: lambda I, a, st, b, t, d: minus(I, f, a, st))(f)
        sm["Option::as_mut"] = as_mut
        sm.update(extra or {})
        for p in prog.bodies:
            if p.startswith("<ast::pool::") and p.split("::")[-1] in ("add", "sort", "free_vars"):
                sm.setdefault(p, sm["ast::pool::TermPool::" + p.split("::")[-1]])
            if p.startswith("ast::pool::storage::Storage::") and p.split("::")[-1] == "add":
                sm.setdefault(p, sm["ast::pool::TermPool::add"])
        kw.setdefault("unroll", 6)
        files = ("ast/pool/mod.rs", "ast/term.rs", "ast/substitution.rs", "ast/context.rs", "ast/rc.rs", "ast/pool/advanced.rs")
        op = opaque or (lambda p: False)
        TS.__init__(self, prog, sm, opaque=lambda p: p in prog.bodies and (not prog.bodies[p].file.endswith(files) or op(p)), **kw)

    def field(self, st, v, variant, idx):
        if v[0] == "list" and idx == 0:
            return v
        return TS.field(self, st, v, variant, idx)

    def run_loop(self, body, fid, header, st):
        region = body.loops()[header]
        nexts = any(body.bbs[b]["t"]["k"] == "call" and A.norm(callee_of(body, b)).endswith(("::next", "::next_back")) for b in region)
        if nexts:
            return self.unroll_loop(body, fid, header, st, region)
        return TS.run_loop(self, body, fid, header, st)

    def log(self, st, ev):
        st = st.copy()
        st.store[LOG] = ("list", st.store.get(LOG, ("list", ()))[1] + (ev,))
        return st


def callee_of(body, b):
    from facts import callee
    return callee(body.bbs[b]["t"])[0] or ""


def fv_of(t):
    return ("fset", (("|", call("mem", t)),))


def push(I, a, st, b, t, d):
    if a[0][0] != "mref":
        return None
    I.write(st, a[0][1], a[0][2], call("cat", I.deref(st, a[0]), I.deref(st, a[1])))
    return [(UNIT, st)]


def members(I, st, v):
    """the generic members of a set"""
    v = I.deref(st, v)
    if v[0] == "fset":
        return [o[1] for o in v[1] if o[0] in ("|", "+")]
    return None


def into_iter(I, a, st):
    v = I.deref(st, a[0])
    if v[0] == "fset":
        return [(("it", ("of", ("list", tuple(members(I, st, v)))), num(0)), st)]
    return None


def keep_some(I, a, st, b, t, d):
    """filters over a known number of elements (the predicates have no effects)"""
    s = models.to_seq(I, st, a[0])
    n = models.const_len(I, st, s) if s is not None else None
    if n is None:
        return None
    mp = callee_of_t(t).endswith("filter_map")
    cur = [((), st)]
    for i in range(n):
        nxt = []
        for xs_, y in cur:
            for e, z in models.seq_elem(I, y, s, num(i), b, t):
                for r, w in I.closure_call(a[1], [e], z, b, t, "?"):
                    if mp:
                        for vn, u, q in models.split(I, w, r, ["None", "Some"]):
                            nxt.append((xs_ + (models.payload(I, q, u, vn),) if vn == "Some" else xs_, q))
                    else:
                        for k, q in models.bools(I, w, r):
                            nxt.append((xs_ + (e,) if k else xs_, q))
        cur = nxt
    return [(("it", ("of", ("list", xs_)), num(0)), z) for xs_, z in cur]


def elements(I, st, v, b, t):
    """the elements of an iterator of known length: [(elements, state)], or None"""
    s = models.to_seq(I, st, v)
    n = models.const_len(I, st, s) if s is not None else None
    if n is None:
        return None
    cur = [((), st)]
    for i in range(n):
        cur = [(xs_ + (e,), z) for xs_, y in cur for e, z in models.seq_elem(I, y, s, num(i), b, t)]
    return cur


def each_of(I, a, st, b, t, d):
    s = models.to_seq(I, st, a[0])
    n = models.const_len(I, st, s) if s is not None else None
    if n is None:
        return None
    cur = [st]
    for i in range(n):
        cur = [w for y in cur for e, z in models.seq_elem(I, y, s, num(i), b, t) for _, w in I.closure_call(a[1], [e], z, b, t, "()")]
    return [(UNIT, z) for z in cur]


def flat(I, a, st, b, t, d):
    s = models.to_seq(I, st, a[0])
    n = models.const_len(I, st, s) if s is not None else None
    if n is None:
        return None
    cur = [((), st)]
    for i in range(n):
        nxt = []
        for xs_, y in cur:
            for e, z in models.seq_elem(I, y, s, num(i), b, t):
                for r, w in (I.closure_call(a[1], [e], z, b, t, "?") if len(a) > 1 else [(e, z)]):
                    ms = members(I, w, r)
                    if ms is None:
                        sub = elements(I, w, r, b, t)
                        if sub is None:
                            return None
                        nxt.extend((xs_ + q, u) for q, u in sub)
                    else:
                        nxt.append((xs_ + tuple(ms), w))
        cur = nxt
    return [(("it", ("of", ("list", xs_)), num(0)), z) for xs_, z in cur]


def to_set(I, a, st, b, t, d):
    if not is_set(d):
        return None
    r = elements(I, st, a[0], b, t)
    if r is None:
        return None
    return [(("fset", tuple(("+" if "Map" in A.base_ty(d) else "|", x) for x in xs_)), z) for xs_, z in r]


def nth(I, a, st, b, t, d):
    S = I.deref(st, a[0])
    if S[0] != "fset" or any(o[0] == "-" for o in S[1]):
        return None
    xs_ = [o[1] for o in S[1]]
    f = callee_of_t(t).split("::")[-1]
    i = 0 if f == "first" else len(xs_) - 1
    if f == "get_index":
        i = I.deref(st, a[1])
        if i[0] != "int":
            return None
        i = i[1]
    return [(some(xs_[i]) if 0 <= i < len(xs_) else NONE, st)]


def minus(I, f, a, st):
    x, y = I.deref(st, a[0]), I.deref(st, a[1])
    if x[0] != "int" or y[0] != "int":
        return None
    z = x[1] - y[1]
    if f == "saturating_sub":
        return [(num(max(0, z)), st)]
    return [(some(num(z)) if z >= 0 else NONE, st)]


def as_mut(I, a, st, b, t, d):
    v = a[0]
    if v[0] != "mref":
        return None
    w = I.deref(st, v)
    if w[0] == "E" and w[2] == "Some":
        return [(some(("mref", v[1], v[2] + (("f", "Some", 0),))), st)]
    return None


def removed_by(I, st, e, kept, dropped):
    """the values a predicate on a generic member removes: those it was found equal to, one on each path that drops it"""
    def eqs(path, val):
        out = set()
        for k, v in path:
            if k[0] == "b" and k[1][0] == "eq" and e in k[1][1:] and v is val:
                out |= {x for x in k[1][1:] if x != e}
        return out
    cand = set()
    for p in dropped:
        cand |= eqs(p, True)
    if all(eqs(p, True) for p in dropped) and all(cand <= eqs(p, False) for p in kept):
        return cand
    return None


def index(I, a, st, b, t, d):
    v = I.deref(st, a[0])
    if v[0] in ("fset",) or is_set(b.ty_of(t["args"][0]) if hasattr(b, "ty_of") else ""):
        return [(call("at", v, I.deref(st, a[1])), st)]
    return None


def setop(I, f, a, st, b, t, d):
    S = I.deref(st, a[0])
    x = I.deref(st, a[1]) if len(a) > 1 else None
    m = a[0] if a[0][0] == "mref" else None

    def put(s, ops):
        s = s.copy()
        base = S if S[0] == "fset" else ("fset", (("|", S),))
        I.write(s, m[1], m[2], ("fset", base[1] + tuple(ops)))
        return s
    if f in ("iter", "keys", "values", "into_iter"):
        if S[0] == "fset":
            xs = members(I, st, S)
            if f in ("keys", "values") and all(y[0] == "T" for y in xs):
                xs = [y[1][0 if f == "keys" else 1] for y in xs]
            return [(("it", ("of", ("list", tuple(xs))), num(0)), st)]
        return None
    if f == "insert" and m:
        v = ("T", (x, I.deref(st, a[2]))) if len(a) > 2 else x
        return [(("any",), put(st, [("+", v)]))]
    if f in ("swap_remove", "shift_remove", "remove", "swap_take", "take") and m:
        return [(("any",), put(st, [("-", x)]))]
    if f == "clear" and m:
        s = st.copy()
        I.write(s, m[1], m[2], ("fset", ()))
        return [(UNIT, s)]
    if f in ("extend", "append") and m:
        if x[0] == "fset":
            return [(UNIT, put(st, [o for o in x[1]]))]
        s = models.to_seq(I, st, x)
        n = models.const_len(I, st, s) if s is not None else None
        if n is None:
            return [(UNIT, put(st, [("|", x)]))]
        cur = [((), st)]
        for i in range(n):
            cur = [(xs + (e,), z) for xs, y in cur for e, z in models.seq_elem(I, y, s, num(i), b, t)]
        out = []
        for xs, y in cur:
            S2 = I.deref(y, a[0])
            y = y.copy()
            I.write(y, m[1], m[2], ("fset", (S2[1] if S2[0] == "fset" else (("|", S2),)) + tuple(("|", e) for e in xs)))
            out.append((UNIT, y))
        return out
    if f in ("contains", "contains_key"):
        out = []
        for v, s in models.bools(I, st, call("contains", S, x)):
            out.append((("bool", v), s))
        return out
    if f == "get":
        if S[0] == "fset":
            for o in reversed(S[1]):
                if o[0] == "+" and o[1][0] == "T" and o[1][1][0] == x:
                    return [(some(o[1][1][1]), st)]
        out = []
        for v, s in models.bools(I, st, call("contains", S, x)):
            out.append((some(call("at", S, x)) if v else NONE, s))
        return out
    if f == "is_empty":
        if S == ("fset", ()):
            return [(TRUE, st)]
        return [(("bool", v), s) for v, s in models.bools(I, st, call("is_empty", S))]
    if f == "len":
        if S[0] == "fset" and all(o[0] == "+" for o in S[1]):
            return [(num(len(S[1])), st)]
        return [(call("size", S), st)]
    if f == "retain" and m:
        # the predicate on a generic entry; what it keeps and what it drops is recorded
        E = tuple(call("entry%d" % i, S) for i in range(2)) if "IndexMap" in callee_of_t(t) or "HashMap" in callee_of_t(t) else (call("entry0", S),)
        out = []
        kept, dropped = [], []
        for c, s in I.closure_call(a[1], list(E), st.copy(), b, t, "bool"):
            for v, z in models.bools(I, s, c):
                (kept if v else dropped).append(tuple(sorted(((k, w) for k, w in z.facts.items() if st.facts.get(k) != w), key=repr)))
        s = I.log(st, ("T", (("str", "retain"), S, ("gs", ("kept", tuple(kept))), ("gs", ("dropped", tuple(dropped))))))
        s = s.copy()
        new = call("retained", S)
        if len(E) == 1 and S[0] == "fset":
            ops = list(S[1])
            for e in members(I, st, S):
                ks, dr = [], []
                for c, z in I.closure_call(a[1], [e], st.copy(), b, t, "bool"):
                    for v, z2 in models.bools(I, z, c):
                        (ks if v else dr).append([(k, w) for k, w in z2.facts.items() if st.facts.get(k) != w])
                r = removed_by(I, st, e, ks, dr)
                ops = None if r is None or ops is None else ops + [("-", x, e) for x in sorted(r, key=repr)]
            if ops is not None:
                new = ("fset", tuple(ops))
        I.write(s, m[1], m[2], new)
        out.append((UNIT, s))
        return out
    return None


def callee_of_t(t):
    from facts import callee
    return callee(t)[0] or ""


# ------------------------------------------------------------------ sets as sources minus removals
def resort(v, flds):
    """what is remembered as the sort of a term is its sort"""
    if not isinstance(v, tuple):
        return v
    if len(v) == 3 and v[0] == "call" and v[1] == "at" and v[2][0][0] == "in" and v[2][0][1].split(".")[-1] in flds:
        return call("sort", resort(v[2][1], flds))
    return tuple(resort(x, flds) for x in v)


def content(S):
    """{member: set of what was removed from it afterwards}"""
    out = {}
    if S[0] != "fset":
        return None
    for o in S[1]:
        if o[0] in ("|", "+"):
            out[o[1]] = frozenset()
        else:
            for k in out:
                if len(o) < 3 or o[2] == k:
                    out[k] = out[k] | {o[1]}
    return out


def mem(t):
    return call("mem", t)


def blist(n):
    return ("list", tuple(("T", (inp("n%d" % i), inp("s%d" % i))) for i in range(n)))


def xs(p, n):
    return tuple(inp("%s%d" % (p, i)) for i in range(n))


def box(v):
    return ("S", "Box", (v,))


def struct(prog, ty, **f):
    return ("S", ty, tuple(f.get(x["n"], inp("self." + x["n"])) for x in prog.adts[ty]["variants"][0]["fields"]))


def sorts(prog):
    out = []
    for v in prog.adts[SORT]["variants"]:
        out.append((v["n"], variant(SORT, v["n"], *[inp("q%d" % i) for i in range(len(v["fields"]))])))
    return out


def free_vars(prog, viol, cov):
    body = find_body(prog, "ast::pool::PrimitivePool::free_vars_with_priorities")
    cov.append(body.path)

    def rec(I, a, st, b, t, d):
        return [(fv_of(I.deref(st, a[1])), st)]

    def lookup(I, a, st, b, t, d):
        x = I.deref(st, a[1])
        return [(("bool", v) and (some(call("var", x)) if v else NONE), s) for v, s in models.bools(I, st, call("stored", I.deref(st, a[0]), x))]
    cases = []

    def case(name, t, want):
        cases.append((name, t, want))
    for n in (1, 2):
        case("application", variant(TERM, "App", inp("f"), ("list", xs("a", n))), {mem(x): () for x in (inp("f"),) + xs("a", n)})
        case("operation", variant(TERM, "Op", inp("op"), ("list", xs("a", n))), {mem(x): () for x in xs("a", n)})
        case("parameterised operation", variant(TERM, "ParamOp", inp("op"), ("list", xs("i", 2)), ("list", xs("a", n))), {mem(x): () for x in xs("a", n)})
        bl = blist(n)
        case("binder", variant(TERM, "Binder", inp("b"), bl, inp("body")), {mem(inp("body")): tuple(var(*x[1]) for x in bl[1])})
        w = {mem(inp("body")): tuple(var(x[1][0], call("sort", x[1][1])) for x in bl[1])}
        w.update({mem(x[1][1]): () for x in bl[1]})
        case("let", variant(TERM, "Let", bl, inp("body")), w)
    case("variable", variant(TERM, "Var", inp("name"), inp("sort")), {None: ()})
    case("constant", variant(TERM, "Const", inp("c")), {})
    case("sort", variant(TERM, "Sort", inp("s")), {})
    n = 0
    sortf = [f["n"] for f in prog.adts[POOL]["variants"][0]["fields"] if "IndexMap<ast::rc::Rc<ast::term::Term>, ast::rc::Rc<ast::term::Term>>" in f["ty"]]
    for name, term, want in cases:
        want = {(k if k is not None else term): frozenset(v) for k, v in want.items()}
        sm = {body.path: rec}
        for p in prog.bodies:
            if p.split("::")[-1] == "compute_sort" and p.startswith("ast::pool::PrimitivePool"):
                sm[p] = lambda I, a, st, b, t, d: [(call("sort", I.deref(st, a[1])), st)]
            if p.split("::")[-1] == "get" and "Storage" in p:
                sm[p] = lookup
        I = SV(prog, sm)
        cell = ("cell", "pool")
        st = State({cell: struct(prog, POOL)}, {})
        rets = I.run(body, [("mref", cell, ()), term, ("list", (struct_prior(prog),))], st)
        if not rets:
            viol.append(("free_vars:%s" % name, "%s: never returns for a term of kind %s" % (body.where(body.line), name)))
        for v, s in rets:
            n += 1
            v = resort(strip(v), sortf)
            cached = v[0] == "call" and v[1] == "at" and v[2][1] == term or v[0] == "fset" and len(v[1]) == 1 and v[1][0][1][0] == "call" and v[1][0][1][1] == "at"
            if cached:
                continue
            got = content(v)
            if got != want:
                viol.append(("free_vars:%s" % name, "%s: the free variables of a term of kind %s are computed as %s, they are %s" % (body.where(body.line), name, show_set(got), show_set(want))))
                continue
            P = s.store[cell]
            for i, fld in enumerate(prog.adts[POOL]["variants"][0]["fields"]):
                w = P[2][i] if P[0] == "S" else None
                if w is not None and w[0] == "fset" and "IndexSet" in fld["ty"]:
                    for o in w[1]:
                        if o[0] == "+" and o[1][0] == "T" and (o[1][1][0] != term or content(resort(strip(o[1][1][1]), sortf)) != want):
                            viol.append(("free_vars:cache:%s" % name, "%s: a set is remembered under a term of kind %s that is not its set of free variables" % (body.where(body.line), name)))
    return n


def struct_prior(prog):
    return ("S", POOL, tuple(inp("prior." + x["n"]) for x in prog.adts[POOL]["variants"][0]["fields"]))


def strip(v):
    while v[0] == "call" and v[1].split("::")[-1] in ("clone", "cloned") and len(v[2]) == 1:
        v = v[2][0]
    return v


def short(v):
    if v[0] == "in":
        return str(v[1])
    if v[0] == "call":
        n = v[1].split("::")[-1]
        return "%s(%s)" % ({"mem": "free vars of ", "var": "", "cat": "renamed "}.get(n, n), ", ".join(short(x) for x in v[2]))
    if v[0] == "E":
        return "%s(%s)" % (v[2], ", ".join(short(x) for x in v[3]))
    if v[0] in ("T", "list"):
        return "(%s)" % ", ".join(short(x) for x in v[1])
    if v[0] == "fset":
        return "{%s}" % ", ".join(o[0] + short(o[1]) for o in v[1])
    if v[0] == "S":
        return v[1].split("::")[-1]
    if v[0] in ("str", "int", "bool"):
        return str(v[1])
    return v[0]


def show_set(c):
    if c is None:
        return "something else"
    return "{" + ", ".join(short(k) + (" without " + ", ".join(sorted(short(x) for x in v)) if v else "") for k, v in sorted(c.items(), key=repr)) + "}"


SELF, REN = ("cell", "self"), ("cell", "ren")
SOME_SBR = some(inp("sbr"))


def sub_struct(prog, **f):
    return struct(prog, SUB, **f)


def which(I, st, v):
    s = I.deref(st, v)
    return fget(I.p, SUB, s, "map") if s[0] == "S" and s[1] == SUB else s


def sub_summaries(prog, over):
    sm = {}
    app = find_body(prog, SUB + "::apply")

    def apply(I, a, st, b, t, d):
        m, x = which(I, st, a[0]), I.deref(st, a[2])
        st = st.copy()
        if m == ("fset", ()):
            return [(x, st)]
        return [(call("apply", m, x), st)]
    sm[app.path] = apply

    def compute(I, a, st, b, t, d):
        if a[0][0] != "mref":
            return None
        st = st.copy()
        S = I.deref(st, a[0])
        F = prog.adts[SUB]["variants"][0]["fields"]
        I.write(st, a[0][1], a[0][2], ("S", SUB, tuple(SOME_SBR if f["n"] == "should_be_renamed" else S[2][i] for i, f in enumerate(F))))
        return [(UNIT, st)]

    def rename(I, a, st, b, t, d):
        S, bl, inner, kind = I.deref(st, a[0]), I.deref(st, a[2]), I.deref(st, a[3]), I.deref(st, a[4])
        if bl[0] != "list":
            return None
        I.renames.append((fget(prog, SUB, S, "should_be_renamed"), fget(prog, SUB, S, "map"), bl, inner, kind))
        nb = ("list", tuple(("T", (call("renamed", x[1][0]), x[1][1])) for x in bl[1]))
        ren = sub_struct(prog, map=call("renaming", bl, inner), should_be_renamed=NONE, cache=inp("ren.cache"))
        return [(("T", (nb, ren)), st)]

    def skip(I, a, st, b, t, d):
        return [(("bool", v), s) for v, s in models.bools(I, st, call("can_skip", I.deref(st, a[1])))]
    for n, f in (("compute_should_be_renamed", compute), ("rename_binding_list", rename), ("can_skip_instead_of_renaming", skip)):
        sm[find_body(prog, SUB + "::" + n).path] = f
    sm.update(over or {})
    return sm, app


def strip_all(v):
    if not isinstance(v, tuple):
        return v
    if len(v) == 3 and v[0] == "S" and isinstance(v[1], str) and v[1].split("::")[-1] in ("Box", "BindingList") and len(v[2]) == 1:
        return strip_all(v[2][0])
    v = tuple(strip_all(x) for x in v)
    if len(v) == 3 and v[0] == "call" and isinstance(v[1], str) and len(v[2]) == 1 and v[1].split("::")[-1] in ("clone", "cloned", "into_boxed_slice", "to_owned", "to_string"):
        return v[2][0]
    return v


def applying(prog, viol, cov):
    """what Substitution::apply does for each kind of term"""
    sm, body = sub_summaries(prog, None)
    cov.append(body.path)
    M = inp("self.map")
    ap = lambda x: call("apply", M, x)
    added = lambda name, *fs: call("var", variant(TERM, name, *fs))
    sorted_ = lambda name, *fs: added("Sort", variant(SORT, name, *fs))
    cases = []

    def case(name, t, *want, **kw):
        cases.append((name, t, want, kw))
    for n in (0, 1, 2):
        L = ("list", xs("a", n))
        AL = ("list", tuple(ap(x) for x in xs("a", n)))
        case("application", variant(TERM, "App", inp("f"), L), added("App", ap(inp("f")), AL))
        case("operation", variant(TERM, "Op", inp("op"), L), added("Op", inp("op"), AL))
        case("parameterised operation", variant(TERM, "ParamOp", inp("op"), ("list", xs("i", 2)), L), added("ParamOp", inp("op"), ("list", xs("i", 2)), AL))
        case("declared sort", variant(TERM, "Sort", variant(SORT, "Atom", inp("name"), L)), sorted_("Atom", inp("name"), AL))
        case("function sort", variant(TERM, "Sort", variant(SORT, "Function", L)), sorted_("Function", AL))
        if n:
            bl = blist(n)
            rn = lambda x: call("renamed", x[1][0])
            R = call("renaming", bl, inp("body"))
            inner = lambda r: ap(call("apply", R, inp("body"))) if r else ap(inp("body"))
            t = variant(TERM, "Binder", inp("b"), bl, inp("body"))
            nb = ("list", tuple(("T", (rn(x), x[1][1])) for x in bl[1]))
            case("binder", t, t, added("Binder", inp("b"), nb, inner(False)), added("Binder", inp("b"), nb, inner(True)), bl=bl, kind=FALSE, R=R)
            nb = ("list", tuple(("T", (rn(x), ap(x[1][1]))) for x in bl[1]))
            case("let", variant(TERM, "Let", bl, inp("body")), None, added("Let", nb, inner(False)), added("Let", nb, inner(True)), bl=bl, kind=TRUE, R=R)
    t = variant(TERM, "Const", inp("c"))
    case("constant", t, t)
    t = variant(TERM, "Var", inp("name"), inp("sort"))
    case("variable", t, t)
    case("array sort", variant(TERM, "Sort", variant(SORT, "Array", inp("x"), inp("y"))), sorted_("Array", ap(inp("x")), ap(inp("y"))))
    for v in prog.adts[SORT]["variants"]:
        if v["n"] not in ("Atom", "Function", "Array", "ParamSort"):
            t = variant(TERM, "Sort", variant(SORT, v["n"], *[inp("q%d" % i) for i in range(len(v["fields"]))]))
            case("sort %s" % v["n"], t, t)
    n = 0
    for name, term, want, kw in cases:
        I = SV(prog, sm)
        I.renames = []
        C = inp("self.cache")
        st = State({SELF: sub_struct(prog, should_be_renamed=inp("self.sbr"), cache=C)}, {})
        rets = I.run(body, [("mref", SELF, ()), inp("pool"), term], st)
        bad = lambda k, m: viol.append(("apply:%s%s" % (name, k), "%s: %s" % (body.where(body.line), m)))
        if not rets:
            bad("", "never returns for a term of kind " + name)
        through = 0
        for v, s in rets:
            n += 1
            v = strip_all(v)
            hit = {m: s.facts.get(("b", call("contains", m, term))) for m in (M, C)}
            fromcache = v[0] == "call" and v[1] == "at" and v[2][1] == term and v[2][0] in (M, C)
            if fromcache:
                continue
            through += 1
            if hit[M] is not False:
                bad(":mapped", "a term of kind %s is rebuilt without looking for it in the mappings" % name)
                continue
            if kw:
                e = s.facts.get(("b", call("is_empty", kw["R"])))
                k = s.facts.get(("b", call("can_skip", kw["bl"])))
                if name == "binder" and v == term and k is True:
                    continue
                ok = v == want[2] or (v == want[1] and e is True)
                if ok:
                    for sbr, m, bl, inner, kind in I.renames:
                        if sbr != SOME_SBR:
                            bad(":names", "bound variables of a %s are renamed before it is computed which ones must be" % name)
                        if m != M or bl != kw["bl"] or inner != inp("body"):
                            bad(":renaming", "the bound variables of a %s are renamed for another list or body" % name)
                        if kind != kw["kind"]:
                            bad(":kind", "the binding list of a %s is taken for one of %s" % (name, "sorts" if name == "let" else "values"))
            else:
                ok = v == want[0]
            if not ok:
                bad("", "applied to a term of kind %s, a substitution gives %s%s" % (name, short(v), " although a bound variable must be renamed" if kw and v == want[1] else ""))
                continue
            S = s.store[SELF]
            c = strip_all(fget(prog, SUB, S, "cache"))
            if c[0] == "fset":
                for o in c[1]:
                    if o[0] == "+" and o[1] != ("T", (term, v)):
                        bad(":cache", "what is remembered for a term of kind %s is not the result of applying the substitution to it" % name)
        if not through:
            bad("", "no path rebuilds a term of kind " + name)
    return n


def names_to_avoid(prog, viol, cov):
    """compute_should_be_renamed: the variables of every mapping that is not reflexive, and the free variables of its image"""
    body = find_body(prog, SUB + "::compute_should_be_renamed")
    cov.append(body.path)
    n = 0
    for k in (1, 2):
        ents = [("T", (variant(TERM, "Var", inp("x%d" % i), inp("sx%d" % i)), inp("t%d" % i))) for i in range(k)]
        I = SV(prog, {})
        st = State({SELF: sub_struct(prog, map=("fset", tuple(("+", e) for e in ents)), should_be_renamed=NONE)}, {})
        for v, s in I.run(body, [("mref", SELF, ()), inp("pool")], st):
            n += 1
            r = fget(prog, SUB, s.store[SELF], "should_be_renamed")
            got = set(map(name_of, content(strip_all(r[3][0])) or {})) if r[0] == "E" and r[2] == "Some" else None
            for i, e in enumerate(ents):
                x, t = e[1]
                if I.cond_value(s.facts, I.eqv(s, x, t)) is True:
                    continue
                if got is None:
                    viol.append(("avoid:none", "%s: returns without having computed which names to avoid" % body.where(body.line)))
                    continue
                if inp("x%d" % i) not in got:
                    viol.append(("avoid:domain", "%s: the variable a mapping replaces is not among the names to avoid" % body.where(body.line)))
                if ("name", mem(t)) not in got:
                    viol.append(("avoid:image", "%s: the free variables of what a variable is replaced by are not among the names to avoid" % body.where(body.line)))
    return n


def name_of(v):
    v = strip_all(v)
    if v[0] == "fld" and v[1][0] == "call" and v[1][1] == "mem" and v[2] == "Var" and v[3] == 0:
        return ("name", v[1])
    return v


def renaming(prog, viol, cov):
    """rename_binding_list: the new name of a variable is not a name to avoid, nor that of another variable of the list, nor,
    if it was changed, that of another free variable of the body; what was renamed is mapped by the returned substitution"""
    body = find_body(prog, SUB + "::rename_binding_list")
    cov.append(body.path)
    ins = find_body(prog, SUB + "::insert")
    n = 0
    for is_value in (TRUE, FALSE):
        for k in (1, 2):
            bl = blist(k)
            sm = {}

            def insert(I, a, st, b, t, d):
                if a[0][0] != "mref":
                    return None
                st = st.copy()
                S = I.deref(st, a[0])
                m = fget(prog, SUB, S, "map")
                F = prog.adts[SUB]["variants"][0]["fields"]
                ops = (m[1] if m[0] == "fset" else (("|", m),)) + (("+", ("T", (I.deref(st, a[2]), I.deref(st, a[3])))),)
                I.write(st, a[0][1], a[0][2], ("S", SUB, tuple(("fset", ops) if f["n"] == "map" else S[2][i] for i, f in enumerate(F))))
                return [(models.ok(UNIT), st)]
            sm[ins.path] = insert
            I = SV(prog, sm)
            st = State({SELF: sub_struct(prog, should_be_renamed=SOME_SBR)}, {})
            rets = I.run(body, [("mref", SELF, ()), inp("pool"), bl, inp("inner"), is_value], st)
            if not rets:
                viol.append(("rename:none", "%s: never returns" % body.where(body.line)))
            for v, s in rets:
                n += 1
                v = strip_all(v)
                bad = lambda key, m: viol.append(("rename:" + key, "%s: %s" % (body.where(body.line), m)))
                if v[0] != "T" or v[1][0][0] != "list" or len(v[1][0][1]) != k:
                    bad("list", "the new binding list has not one binding for each of the old")
                    continue
                new, ren = v[1][0][1], v[1][1]
                m = fget(prog, SUB, ren, "map") if ren[0] == "S" else None
                maps = [o[1][1] for o in m[1] if o[0] == "+"] if m is not None and m[0] == "fset" else []
                known = lambda S, x: s.facts.get(("b", call("contains", S, x)))
                used = []
                for i, b in enumerate(new):
                    old, (nn, nv) = bl[1][i][1], b[1]
                    if nv != old[1]:
                        bad("value", "the value or sort of a renamed binding is not that of the original")
                    if known(inp("sbr"), nn) is not False:
                        bad("avoid", "a bound variable can keep or get a name that must be avoided")
                    if not any(known(S, nn) is False for S in sets_over(s.facts, used)) and used:
                        bad("distinct", "a bound variable can get the name of another variable of the list")
                    srt = call("sort", old[1]) if is_value == TRUE else old[1]
                    want = (var(old[0], srt), var(nn, srt))
                    if nn != old[0]:
                        if tuple(map(strip_all, want)) not in [tuple(x) for x in maps]:
                            bad("mapping", "a bound variable is renamed to %s without being mapped to the new variable of the same sort" % short(nn))
                        if not fresh(I, s, nn, bl):
                            bad("free", "a bound variable can be given the name of another free variable of the body")
                    used.append(nn)
                olds = [x[1][0] for x in bl[1]]
                for x, y in maps:
                    nm = name_in(x)
                    if nm not in olds or name_in(y) != new[olds.index(nm)][1][0]:
                        bad("extra", "a mapping is added for a variable that is not renamed")
    return n


def name_in(x):
    if x[0] == "call" and x[1] == "var" and x[2][0][0] == "E" and x[2][0][2] == "Var":
        return x[2][0][3][0]
    return None


def sets_over(facts, used):
    """the sets queried on this path that contain all these names"""
    out = []
    for k in facts:
        if k[0] == "b" and k[1][0] == "call" and k[1][1] == "contains" and k[1][2][0][0] == "fset":
            S = k[1][2][0]
            if set(used) <= set(o[1] for o in S[1] if o[0] in ("+", "|")):
                out.append(S)
    return out


def fresh(I, s, nn, bl):
    """the generic free variable of the body has not this name, or it is one that the list binds"""
    m = mem(inp("inner"))
    if "Var" in s.facts.get(("nv", m), ()):
        return True
    nm = ("fld", m, "Var", 0)
    if I.cond_value(s.facts, I.eqv(s, nm, nn)) is False:
        return True
    return any(I.cond_value(s.facts, I.eqv(s, x[1][0], y)) is True for x in bl[1] for y in (nn, nm))


def coherence(prog, viol, cov):
    """insert and remove keep what is remembered about the mappings in step with them"""
    n = 0
    ins, rem = find_body(prog, SUB + "::insert"), find_body(prog, SUB + "::remove")
    cov += [ins.path, rem.path]
    x, t = variant(TERM, "Var", inp("x"), inp("sx")), inp("t")
    M, C = inp("self.map"), inp("self.cache")
    for sbr in (NONE, SOME_SBR):
        I = SV(prog, {})
        st = State({SELF: sub_struct(prog, should_be_renamed=sbr)}, {})
        rets = I.run(ins, [("mref", SELF, ()), inp("pool"), inp("x"), t], st)
        oks = 0
        for v, s in rets:
            n += 1
            bad = lambda key, m: viol.append(("insert:" + key, "%s: %s" % (ins.where(ins.line), m)))
            S = s.store[SELF]
            m, c, r = (strip_all(fget(prog, SUB, S, f)) for f in ("map", "cache", "should_be_renamed"))
            if v[0] == "E" and v[2] == "Err":
                if m != M:
                    bad("error", "a mapping is added although an error is returned")
                continue
            oks += 1
            X = inp("x")
            if m != ("fset", (("|", M), ("+", ("T", (X, t))))):
                bad("map", "the mappings after inserting x -> t are %s" % short(m))
            var_ = I.variant_of(s.facts, X)
            if var_ != "Var" and not (var_ == "Sort" and I.variant_of(s.facts, ("fld", X, "Sort", 0)) in ("Var", "Atom")):
                bad("variable", "a term that is not a variable is accepted on the left of a mapping")
            if I.cond_value(s.facts, I.eqv(s, call("sort", X), call("sort", t))) is not True:
                bad("sorts", "a mapping between terms of different sorts is accepted")
            if c == C:
                bad("cache", "results computed without the new mapping are kept")
            elif c == call("retained", C):
                for ev in retained(s, C):
                    for path in ev["kept"]:
                        if dict(path).get(("b", call("contains", fv_of(call("entry0", C)), X))) is not False:
                            bad("cache", "results for terms in which the new variable is free are kept")
            elif c != ("fset", ()):
                bad("cache", "the remembered results are neither cleared nor filtered")
            if r[0] == "E" and r[2] == "Some" and I.cond_value(s.facts, I.eqv(s, X, t)) is not True:
                got = set(map(name_of, content(r[3][0]) or {}))
                if var_ == "Var" and ("fld", X, "Var", 0) not in got:
                    bad("avoid", "the variable of the new mapping is not added to the names to avoid")
                if ("name", mem(t)) not in got:
                    bad("avoid", "the free variables of what the new mapping maps to are not added to the names to avoid")
                if inp("sbr") not in got:
                    bad("avoid", "the names to avoid are not kept")
        if not oks:
            viol.append(("insert:none", "%s: no mapping is ever accepted" % ins.where(ins.line)))
    I = SV(prog, {})
    st = State({SELF: sub_struct(prog, should_be_renamed=SOME_SBR)}, {})
    for v, s in I.run(rem, [("mref", SELF, ()), inp("pool"), x], st):
        n += 1
        bad = lambda key, m: viol.append(("remove:" + key, "%s: %s" % (rem.where(rem.line), m)))
        S = s.store[SELF]
        m, c, r = (strip_all(fget(prog, SUB, S, f)) for f in ("map", "cache", "should_be_renamed"))
        if m != call("retained", M):
            bad("map", "the mappings that involve the variable are not removed")
            continue
        k, im = call("entry0", M), call("entry1", M)
        for ev in retained(s, M):
            for path in ev["kept"]:
                f = dict(path)
                if not differs(I, f, s, k, x):
                    bad("map", "the mapping of the removed variable can be kept")
                if f.get(("b", call("contains", fv_of(im), x))) is not False:
                    bad("image", "a mapping to a term in which the removed variable is free can be kept")
            for path in ev["dropped"]:
                f = dict(path)
                if I.cond_value(f, I.eqv(State(s.store, f), k, x)) is not True and f.get(("b", call("contains", fv_of(im), x))) is not True:
                    bad("other", "a mapping that does not involve the removed variable can be dropped")
        same = any(v is True and "size" in repr(q) and "retained" in repr(q) for q, v in s.facts.items())
        if not same and (r != NONE or c not in (("fset", ()),)):
            bad("stale", "mappings are removed and what was remembered about them is kept")
    return n


def differs(I, f, s, a, b):
    c = I.cond_value(f, I.eqv(State(s.store, f), a, b))
    return c is False


def retained(s, S):
    out = []
    for ev in s.store.get(LOG, ("list", ()))[1]:
        if ev[1][0] == ("str", "retain") and ev[1][1] == S:
            out.append(dict((ev[1][2][1], ev[1][3][1])))
    return out


def skipping(prog, viol, cov):
    """a binder term is left alone only if the only mapping is of a variable that it binds"""
    body = find_body(prog, SUB + "::can_skip_instead_of_renaming")
    cov.append(body.path)
    n = trues = 0
    for k in (1, 2):
        for ents in (0, 1, 2):
            I = SV(prog, {})
            E = tuple(("+", ("T", (variant(TERM, "Var", inp("x%d" % i), inp("sx%d" % i)), inp("t%d" % i)))) for i in range(ents))
            st = State({SELF: sub_struct(prog, should_be_renamed=SOME_SBR, map=("fset", E))}, {})
            for v, s0 in I.run(body, [("mref", SELF, ()), blist(k)], st):
                for r, s in models.bools(I, s0, v):
                    n += 1
                    if not r:
                        continue
                    trues += 1
                    names = [b[1][0] for b in blist(k)[1]]
                    hit = [x for x in names if ents and I.cond_value(s.facts, I.eqv(s, x, inp("x0"))) is True]
                    if ents != 1 or not hit:
                        viol.append(("skip", "%s: a term that binds %d variables is skipped by a substitution with %d mappings%s" % (
                            body.where(body.line), k, ents, "" if ents != 1 else " although it may have to be applied inside it")))
    if not trues:
        viol.append(("skip:none", "%s: never allows skipping" % body.where(body.line)))
    return n


# ------------------------------------------------------------------ contexts
CTX, STACK = "ast::context::Context", "ast::context::ContextStack"
ARG = "ast::proof::AnchorArg"


def lock_cell(v):
    return ("cell", ("lock", v))


def context_summaries(prog):
    def acquire(I, a, st, b, t, d):
        c = lock_cell(I.deref(st, a[0]))
        if c not in st.store:
            return None
        return [(models.ok(("mref", c, ())), st)]

    def edit(name):
        def f(I, a, st, b, t, d):
            if a[0][0] != "mref":
                return None
            st = st.copy()
            S = I.deref(st, a[0])
            I.write(st, a[0][1], a[0][2], call(name, S, *[I.deref(st, x) for x in a[2:]]))
            return [(models.ok(UNIT) if name == "inserted" else UNIT, st)]
        return f
    sm = {"RwLock::read": acquire, "RwLock::write": acquire, "RwLock::try_write": acquire, "RwLock::try_read": acquire}
    for p in prog.bodies:
        if p.startswith(SUB + "::"):
            n = p.split("::")[-1]
            if n == "empty":
                sm[p] = lambda I, a, st, b, t, d: [(call("empty"), st)]
            elif n == "remove":
                sm[p] = edit("removed")
            elif n == "insert":
                sm[p] = edit("inserted")
            elif n == "apply":
                sm[p] = lambda I, a, st, b, t, d: [(call("applied", I.deref(st, a[0]), I.deref(st, a[2])), st)]
    def ordmin(f):
        def g(I, a, st, b, t, d):
            x, y = I.deref(st, a[0]), I.deref(st, a[1])
            return [(num(f(x[1], y[1])), st)] if x[0] == y[0] == "int" else None
        return g
    sm["mem::drop"] = lambda I, a, st, b, t, d: [(UNIT, st)]
    for n in ("cmp", "Ord", "usize"):
        sm[n + "::min"], sm[n + "::max"] = ordmin(min), ordmin(max)
    for n in ("DerefMut::deref_mut", "Deref::deref"):
        sm[n] = lambda I, a, st, b, t, d: [(guard(I, st, a[0]), st)]
    for n in ("Option::as_ref", "Option::as_mut"):
        sm[n] = as_mut
    return sm


def guard(I, st, v):
    """a guard is a reference to what it guards"""
    if v[0] == "mref":
        w = I.read_cell(st, v[1], v[2]) if v[1] in st.store else None
        if w is not None and w[0] == "mref":
            return w
    return v


def contexts(prog, viol, cov):
    n = 0
    x = lambda i: ("T", (inp("n%d" % i), inp("s%d" % i)))
    V = lambda i: variant(ARG, "Variable", x(i))
    As = lambda i: variant(ARG, "Assign", x(i), inp("v%d" % i))

    def fold(S, args):
        for g in args:
            v = var(*g[3][0][1])
            if g[2] == "Variable":
                S = call("removed", S, v)
            else:
                S = call("inserted", call("removed", S, v), v, call("applied", S, g[3][1]))
        return S
    lists = [(), (V(0),), (As(0),), (V(0), As(1)), (As(0), As(1)), (As(0), V(1))]

    def ctx(args, cum):
        return some(struct(prog, CTX, args=("list", args), cumulative_substitution=cum))

    def state(ctxs, done):
        st = State({}, {})
        for i, c in enumerate(ctxs):
            st.store[lock_cell(inp("lock%d" % i))] = c
        st.store[SELF] = struct(prog, STACK, context_vec=("list", tuple(("T", (inp("users%d" % i), inp("lock%d" % i))) for i in range(len(ctxs)))),
                                stack=("list", tuple(num(i) for i in range(len(ctxs)))), num_cumulative_calculated=num(done))
        return st
    sm = context_summaries(prog)
    for fn, back in (("apply", 1), ("apply_previous", 2)):
        body = find_body(prog, STACK + "::" + fn)
        cov.append(body.path)
        for depth in (0, 1, 2, 3):
            for la, at in [(l, i) for l in (lists if depth else [()]) for i in range(max(1, depth))]:
                for done in range(depth + 1):
                    if depth == 3 and la not in lists[1:5:3]:
                        continue
                    argl = [(As(5 + 2 * i), V(6 + 2 * i)) for i in range(depth)]
                    argl[at:at + 1] = [la] if depth else []
                    cums = []
                    S = call("empty")
                    for i in range(depth):
                        S = fold(S, argl[i])
                        cums.append(S)
                    st = state([ctx(argl[i], some(cums[i]) if i < done else NONE) for i in range(depth)], done)
                    I = SV(prog, sm)
                    rets = I.run(body, [("mref", SELF, ()), inp("pool"), inp("term")], st)
                    want = inp("term") if depth < back else call("applied", cums[depth - back], inp("term"))
                    if not rets:
                        viol.append(("context:none", "%s: never returns" % body.where(body.line)))
                    for v, s in rets:
                        n += 1
                        v = strip_all(v)
                        if v != want:
                            viol.append(("context:%s" % fn, "%s: with %d contexts, the last binding %s, a term is replaced by %s instead of %s" % (
                                body.where(body.line), depth, short(("list", argl[-1])) if depth else "nothing", short(v), short(want))))
                            continue
                        k = fget(prog, STACK, s.store[SELF], "num_cumulative_calculated")
                        if k[0] == "int" and k[1] > depth:
                            viol.append(("context:ahead", "%s: a context that does not exist yet counts as computed" % body.where(body.line)))
                        for i in range(depth):
                            c = s.store[lock_cell(inp("lock%d" % i))]
                            got = strip_all(fget(prog, CTX, c[3][0], "cumulative_substitution")) if c[0] == "E" and c[2] == "Some" else None
                            if k[0] != "int" or i < k[1] and got != some(cums[i]):
                                viol.append(("context:computed", "%s: a context is taken to have a substitution that was not computed from its arguments" % body.where(body.line)))
    pop, push = find_body(prog, STACK + "::pop"), find_body(prog, STACK + "::push_with_id")
    cov += [pop.path, push.path]
    for depth in (1, 2):
        for done in range(depth + 1):
            st = state([ctx((V(i),), inp("c%d" % i)) for i in range(depth)], done)
            I = SV(prog, sm)
            for v, s in I.run(pop, [("mref", SELF, ())], st):
                n += 1
                S = s.store[SELF]
                k, stk = fget(prog, STACK, S, "num_cumulative_calculated"), fget(prog, STACK, S, "stack")
                if stk != ("list", tuple(num(i) for i in range(depth - 1))):
                    viol.append(("context:pop", "%s: popping does not remove the last context" % pop.where(pop.line)))
                elif k[0] != "int" or k[1] > min(done, depth - 1):
                    viol.append(("context:stale", "%s: after a context is popped, the substitution of the next one counts as computed" % pop.where(pop.line)))
    for old in (NONE, ctx((V(9),), inp("c"))):
        st = state([ctx((V(0),), inp("c0")), old], 1)
        I = SV(prog, sm)
        S = st.store[SELF]
        st.store[SELF] = struct(prog, STACK, context_vec=fget(prog, STACK, S, "context_vec"), stack=("list", (num(0),)), num_cumulative_calculated=num(1))
        rets = I.run(push, [("mref", SELF, ()), ("list", (As(3),)), num(1)], st)
        for v, s in rets:
            n += 1
            S = s.store[SELF]
            stk = fget(prog, STACK, S, "stack")
            k = fget(prog, STACK, S, "num_cumulative_calculated")
            if stk != ("list", (num(0), num(1))):
                viol.append(("context:push", "%s: pushing does not add the context" % push.where(push.line)))
            c = strip_all(s.store[lock_cell(inp("lock1"))])
            if k != num(1):
                viol.append(("context:push", "%s: the substitution of a new context counts as computed" % push.where(push.line)))
            if old == NONE and (c[2] != "Some" or fget(prog, CTX, c[3][0], "args") != ("list", (strip_all(As(3)),))):
                viol.append(("context:args", "%s: a context does not get its arguments" % push.where(push.line)))
    return n


def building(prog, viol, cov):
    """Substitution::new, and the pools' own free_vars"""
    body = find_body(prog, SUB + "::new")
    cov.append(body.path)
    n = 0
    for k in (1, 2):
        ents = ("fset", tuple(("+", ("T", (inp("x%d" % i), inp("t%d" % i)))) for i in range(k)))
        I = SV(prog, {})
        oks = 0
        for v, s in I.run(body, [inp("pool"), ents], State({}, {})):
            n += 1
            if v[2] != "Ok":
                continue
            oks += 1
            S = strip_all(v[3][0])
            if fget(prog, SUB, S, "map") != ents or fget(prog, SUB, S, "should_be_renamed") != NONE or fget(prog, SUB, S, "cache") != ("fset", ()):
                viol.append(("new:fields", "%s: a new substitution has other mappings, or remembers something" % body.where(body.line)))
            for i in range(k):
                X = inp("x%d" % i)
                var_ = I.variant_of(s.facts, X)
                if var_ not in ("Var", "Sort"):
                    viol.append(("new:variable", "%s: a term that is not a variable is accepted on the left of a mapping" % body.where(body.line)))
                sx, stt = call("sort", X), call("sort", inp("t%d" % i))
                if I.cond_value(s.facts, I.eqv(s, sx, stt)) is not True and I.variant_of(s.facts, sx) != "Sort":
                    viol.append(("new:sorts", "%s: a mapping between terms of different sorts is accepted" % body.where(body.line)))
        if not oks:
            viol.append(("new:none", "%s: no mappings are accepted" % body.where(body.line)))
    fvp = find_body(prog, POOL + "::free_vars_with_priorities")
    sm = {fvp.path: lambda I, a, st, b, t, d: [(fv_of(I.deref(st, a[1])), st)]}
    for p, b in sorted(prog.bodies.items()):
        if p.startswith("<ast::pool::") and p.split("::")[-1] == "free_vars" and b.kind == "fn":
            cov.append(p)
            I = SV(prog, sm)
            I.summaries.pop(p, None)
            for v, s in I.run(b, [("mref", SELF, ()), inp("term")], State({SELF: inp("self")}, {})):
                n += 1
                if content(strip(v)) != {mem(inp("term")): frozenset()}:
                    viol.append(("pool:" + p, "%s: the free variables of a term are %s" % (b.where(b.line), short(v))))
    return n


def c12(prog, tier):
    viol, cov = [], []
    n = free_vars(prog, viol, cov)
    n += applying(prog, viol, cov)
    n += names_to_avoid(prog, viol, cov)
    n += renaming(prog, viol, cov)
    n += coherence(prog, viol, cov)
    n += skipping(prog, viol, cov)
    n += contexts(prog, viol, cov)
    n += building(prog, viol, cov)
    out = {}
    for k, m in viol:
        out.setdefault(k, m)
    return finish([(k, m, None) for k, m in sorted(out.items())], {"functions_analysed": sorted(set(cov))}, n)
