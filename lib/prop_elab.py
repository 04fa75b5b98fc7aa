"""C13: elaboration replaces a step by steps that conclude the same clause and follow their rules."""
import absint as A
import models
from absint import State, num, TRUE, FALSE, UNIT
from models import NONE, some
from typestate import TS, gcell, find_body
from prop_driver import finish, fget, nargs
from prop_print import variant, TERM
from prop_subst import SV, inp, call, elements, callee_of_t, struct

PE = "elaborator::polyeq::PolyeqElaborator"
NODE, STEP, SUBP = "ast::node::ProofNode", "ast::node::StepNode", "ast::node::SubproofNode"
OP = "ast::term::Operator"
IDS, TRACE = gcell("ids"), gcell("trace")


# ------------------------------------------------------------------------------------------------ terms
def op(name, *xs):
    return variant(TERM, "Op", variant(OP, name), ("list", tuple(xs)))


def eq(a, b):
    return op("Equals", a, b)


def nt(a):
    return op("Not", a)


def L(*xs):
    return ("list", tuple(xs))


def step(prog, **f):
    d = dict(id=inp("id"), depth=inp("depth"), clause=L(), rule=("str", "?"), premises=L(), args=L(), discharge=L(), previous_step=NONE)
    d.update(f)
    return struct(prog, STEP, **d)


def node(prog, **f):
    return variant(NODE, "Step", step(prog, **f))


def given(prog, name, clause):
    """a premise of the step under elaboration"""
    return node(prog, id=inp(name + ".id"), depth=inp(name + ".depth"), clause=clause, rule=("str", "given:" + name), premises=inp(name + ".premises"),
                args=inp(name + ".args"), discharge=inp(name + ".discharge"), previous_step=inp(name + ".previous"))


def term_name(v):
    return v[0] == "str"


# ------------------------------------------------------------------------------------------------ interpreter
def whole(I, st, v):
    """the elements of a list of known length, or None"""
    v = I.deref(st, v)
    if v[0] == "list":
        return v[1]
    s = models.to_seq(I, st, v)
    n = models.const_len(I, st, s) if s is not None else None
    return None if n is None else tuple(A.seq_elem_simple(s, num(i)) for i in range(n))


def eager(xs):
    return ("it", ("of", ("list", tuple(xs))), num(0))


def distinct(I, st, xs):
    """[(kept elements, state)]: first occurrences"""
    cur = [((), st)]
    for x in xs:
        nxt = []
        for kept, s in cur:
            nxt.extend(add_new(I, s, kept, x))
        cur = nxt
    return cur


def member(I, st, xs, x):
    """[(position or None, state)]"""
    out, cur = [], [st]
    for i, y in enumerate(xs):
        nxt = []
        for s in cur:
            for r, z in models.bools(I, s, I.eqv(s, y, x)):
                if not consistent(z.facts):
                    continue
                (out.append((i, z)) if r else nxt.append(z))
        cur = nxt
    return out + [(None, s) for s in cur]


def add_new(I, st, kept, x):
    return [(kept if i is not None else kept + (x,), z) for i, z in member(I, st, kept, x)]


def dedup(I, a, st, b, t, d):
    r = elements(I, st, a[0], b, t)
    if r is None:
        return None
    return [(eager(k), s) for xs, y in r for k, s in distinct(I, y, xs)]


def edit(f):
    def g(I, a, st, b, t, d):
        if a[0][0] != "mref":
            return None
        v = I.deref(st, a[0])
        if v[0] != "list":
            return None
        out = []
        for new, ret, s in f(I, v[1], a, st, b, t) or []:
            I.write(s, a[0][1], a[0][2], ("list", tuple(new)))
            out.append((ret, s))
        return out or None
    return g


def v_extend(I, xs, a, st, b, t):
    r = elements(I, st, a[1], b, t)
    return None if r is None else [(xs + ys, UNIT, s.copy()) for ys, s in r]


def v_retain(I, xs, a, st, b, t):
    out = [((), st.copy())]
    for x in xs:
        nxt = []
        for kept, s in out:
            for c, z in I.closure_call(a[1], [x], s, b, t, "bool"):
                for k, w in models.bools(I, z, c):
                    if consistent(w.facts):
                        nxt.append((kept + (x,) if k else kept, w))
        out = nxt
    return [(kept, UNIT, s) for kept, s in out]


def v_truncate(I, xs, a, st, b, t):
    n = I.deref(st, a[1])
    return [(xs[:n[1]], UNIT, st)] if n[0] == "int" else None


def v_split_off(I, xs, a, st, b, t):
    n = I.deref(st, a[1])
    return [(xs[:n[1]], L(*xs[n[1]:]), st)] if n[0] == "int" and n[1] <= len(xs) else None


def v_remove(I, xs, a, st, b, t):
    n = I.deref(st, a[1])
    return [(xs[:n[1]] + xs[n[1] + 1:], xs[n[1]], st)] if n[0] == "int" and n[1] < len(xs) else None


def v_clone_from(I, xs, a, st, b, t):
    ys = whole(I, st, a[1])
    return [(ys, UNIT, st)] if ys is not None and len(ys) == len(xs) else None


def chunks(I, a, st, b, t, d):
    xs, n = whole(I, st, a[0]), I.deref(st, a[1])
    if xs is None or n[0] != "int":
        return None
    k = n[1]
    return [(eager(("list", xs[i:i + k]) for i in range(0, len(xs), k)), st)]


def position(I, a, st, b, t, d):
    r = elements(I, st, a[0], b, t)
    if r is None:
        return None
    out = []
    last = callee_of_t(t).endswith("rposition")
    for xs, s in r:
        cur = [s]
        for i in (reversed(range(len(xs))) if last else range(len(xs))):
            nxt = []
            for y in cur:
                for c, z in I.closure_call(a[1], [xs[i]], y, b, t, "bool"):
                    for k, w in models.bools(I, z, c):
                        if consistent(w.facts):
                            (out.append((some(num(i)), w)) if k else nxt.append(w))
            cur = nxt
        out.extend((NONE, y) for y in cur)
    return out


def set_insert(I, xs, a, st, b, t):
    x = I.strip(st, a[1])
    return [(xs if i is not None else xs + (x,), ("bool", i is None), s.copy()) for i, s in member(I, st, xs, x)]


def repeated(I, a, st, b, t, d):
    n = I.deref(st, a[1])
    return [(L(*[I.strip(st, a[0])] * n[1]), st)] if n[0] == "int" else None


def set_contains(I, a, st, b, t, d):
    xs = whole(I, st, a[0])
    if xs is None:
        return None
    return [(("bool", i is not None), s) for i, s in member(I, st, xs, I.strip(st, a[1]))]


def as_list(I, a, st, b, t, d):
    r = elements(I, st, a[0], b, t)
    if r is None:
        return None
    base = A.base_ty(d).split("::")[-1]
    if base == "MultiSet":
        return r and [(L(*xs), y) for xs, y in r]
    if base in ("IndexMap", "HashMap"):
        return [(("fset", tuple(("+", x) for x in xs)), y) for xs, y in r]
    if base in ("HashSet", "IndexSet", "BTreeSet"):
        return [(("list", k), s) for xs, y in r for k, s in distinct(I, y, xs)]
    return None


def or_else(I, a, st, b, t, d):
    out = []
    for vn, v, s in models.split(I, st, a[0], ["Ok", "Err"]):
        if vn == "Ok":
            out.append((v, s))
        else:
            out.extend(I.closure_call(a[1], [models.payload(I, s, v, "Err")], s, b, t, d))
    return out


def count(I, a, st, b, t, d):
    """how often an element occurs in a multiset"""
    xs = whole(I, st, a[0])
    if xs is None:
        return None
    x = I.strip(st, a[1])
    cur = [(0, st)]
    for y in xs:
        cur = [(n + (1 if r else 0), z) for n, s in cur for r, z in models.bools(I, s, I.eqv(s, y, x))]
    return [(num(n), s) for n, s in cur]


def take_out(I, xs, a, st, b, t):
    x = I.strip(st, a[1])
    return [(xs if i is None else xs[:i] + xs[i + 1:], num(0), s.copy()) for i, s in member(I, st, xs, x)]


def next_id(I, a, st, b, t, d):
    n = st.store.get(IDS, num(0))[1]
    s = st.copy()
    s.store[IDS] = num(n + 1)
    return [(call("fresh id", num(n)), s)]


HEIGHT, LEVEL, IDLEVEL = gcell("height"), gcell("level"), gcell("idlevel")


def ghost(st, cell, d):
    v = st.store.get(cell, num(d))
    return v[1]


def bump(cell, k, d):
    def g(I, a, st, b, t, dd):
        s = st.copy()
        s.store[cell] = num(ghost(st, cell, d) + k)
        return [(("T", ()), s)]
    return g


def elaborated(I, a, st, b, t, d):
    """PolyeqElaborator::elaborate(a, b) concludes (= a b), at the current depth or, if it was already proved, at that of an outer subproof (shown separately)"""
    E = I.deref(st, a[0])
    x, y = plain(I.strip(st, a[2])), plain(I.strip(st, a[3]))
    h, lv = ghost(st, HEIGHT, 1), ghost(st, LEVEL, 0)
    root = fget(I.p, E[1], E, "root_depth") if E[0] == "S" else inp("?")
    out = []
    for k in range(h - 1, -1, -1):
        s, ids = st.copy(), st.store.get(IDS, num(0))[1]
        s.store[IDS] = num(ids + 1)
        out.append((node(I.p, id=call("fresh id", num(ids)), depth=A.add(root, num(k)), clause=L(eq(x, y)), rule=("str", "polyeq"), args=L(num(k if k < h - 1 else lv))), s))
    return out


def resolved(I, a, st, b, t, d):
    """greedy_resolution(conclusion, premises, pool, true): an error, or the pivots that lead to the conclusion (or to it without its double negation)"""
    c, ps = whole(I, st, a[0]), whole(I, st, a[1])
    if c is None or ps is None:
        return None
    out = [(models.err(), st.copy())]
    inner = negated(plain(c[0])) if len(c) == 1 else None
    inner = negated(inner) if inner else None
    for dn in ((False, True) if inner else (False,)):
        s = st.copy()
        trace = L(*[("T", (inp("pivot%d" % i), ("bool", bool(i % 2)))) for i in range(max(0, len(ps) - 1))])
        ty = "resolution::ResolutionTrace"
        s.store[TRACE] = ("T", (L(inner) if dn else L(*c), L(*[I.strip(st, p) for p in ps]), L(*[y for x in trace[1] for y in (x[1][0], op("True" if x[1][1][1] else "False"))])))
        out.append((models.ok(struct(I.p, ty, not_not_added=("bool", dn), pivot_trace=trace)), s))
    return out


def as_pairs(m):
    return L(*[o[1] for o in m[1]]) if m[0] == "fset" else m


class EV(SV):
    """runs an elaboration function on a step of a known shape; every list has a known length"""
    recursion = 8

    def __init__(self, prog, over=None, **kw):
        sm = {}
        sm["ast::pool::TermPool::add"] = lambda I, a, st, b, t, d: [(I.strip(st, a[1]), st)]
        for e in ("ast::proof::AnchorArg", TERM):
            for v in prog.adts[e]["variants"]:
                for q in (e, e.split("::")[-1]):
                    sm["%s::%s" % (q, v["n"])] = (lambda e, n: lambda I, a, st, b, t, d: [(variant(e, n, *a), st)])(e, v["n"])
        for f, v in (("true", TRUE), ("false", FALSE)):
            sm["ast::pool::TermPool::bool_" + f] = sm["TermPool::bool_" + f] = (lambda v: lambda I, a, st, b, t, d: [(op("True" if v == TRUE else "False"), st)])(v)
        sm["ast::pool::TermPool::bool_constant"] = lambda I, a, st, b, t, d: [(op("True" if k else "False"), s) for k, s in models.bools(I, st, a[1])]
        sm["DedupIterator::dedup"] = dedup
        for c in ("Vec::", "VecDeque::"):
            for f, g in (("extend", v_extend), ("truncate", v_truncate), ("retain", v_retain), ("split_off", v_split_off), ("remove", v_remove), ("extend_from_slice", v_extend), ("append", v_extend)):
                sm[c + f] = edit(g)
        sm["Extend::extend"] = edit(v_extend)
        sm["slice::clone_from_slice"] = sm["slice::copy_from_slice"] = edit(v_clone_from)
        sm["slice::chunks"] = sm["slice::chunks_exact"] = chunks
        for f, g in (("get", count), ("remove", edit(take_out)), ("insert", edit(lambda I, xs, a, st, b, t: [(xs + (I.strip(st, a[1]),), num(1), st)])),
                     ("into_iter", lambda I, a, st, b, t, d: [(eager(whole(I, st, a[0])), st)] if whole(I, st, a[0]) is not None else None)):
            sm["MultiSet::" + f] = sm["utils::MultiSet::" + f] = g
        sm["Result::or_else"] = or_else
        sm["vec::from_elem"] = repeated
        sm["Iterator::position"] = sm["Iterator::rposition"] = position
        for c in ("HashSet", "IndexSet", "BTreeSet"):
            for f in ("new", "with_capacity", "default"):
                sm[c + "::" + f] = lambda I, a, st, b, t, d: [(L(), st)]
            sm[c + "::insert"] = edit(set_insert)
            sm[c + "::contains"] = set_contains
            sm[c + "::iter"] = sm[c + "::into_iter"] = lambda I, a, st, b, t, d: models.MODELS["Vec::iter"](I, a, st, b, t, "std::slice::Iter<T>")
            sm[c + "::is_empty"] = models.MODELS["Vec::is_empty"]
            sm[c + "::len"] = models.MODELS["Vec::len"]
        sm["Iterator::collect"] = sm["FromIterator::from_iter"] = as_list
        sm["Index::index"] = sm["ops::Index::index"] = None
        sm["slice::to_vec"] = sm["slice::into_vec"] = sm["ToOwned::to_owned"] = lambda I, a, st, b, t, d: [(L(*whole(I, st, a[0])), st)] if whole(I, st, a[0]) is not None else None
        sm["Iterator::copied"] = sm["Iterator::cloned"] = lambda I, a, st, b, t, d: [(a[0], st)]
        p = find_body(prog, "elaborator::IdHelper::next_id")
        sm[p.path] = next_id
        for q in prog.bodies:
            if q.startswith("ast::node") and q.endswith("Rc<ast::node::ProofNode>>::new"):
                sm[q] = lambda I, a, st, b, t, d: [(I.strip(st, a[0]), st)]
            if q.startswith("<ast::pool::") and q.split("::")[-1] in ("add",):
                sm[q] = sm["ast::pool::TermPool::add"]
        def fn(suffix, g):
            try:
                sm[find_body(prog, suffix).path] = g
            except RuntimeError:
                bs = [q for q in prog.bodies if q.endswith(suffix) and prog.bodies[q].kind == "fn"]
                if len(bs) != 1:
                    raise
                sm[bs[0]] = g
        fn("PolyeqElaborator::<'a>::elaborate", elaborated)
        fn("::Polyeq::eq", lambda I, a, st, b, t, d: [(("bool", k), s) for k, s in models.bools(I, st, call("polyeq", plain(I.strip(st, a[1])), plain(I.strip(st, a[2]))))])
        fn("::ContextStack::apply", lambda I, a, st, b, t, d: [(call("in context", plain(I.strip(st, a[2]))), st)])
        fn("::Substitution::new", lambda I, a, st, b, t, d: [(models.ok(call("substitution", as_pairs(plain(I.strip(st, a[1]))))), st), (models.err(), st.copy())])
        fn("::Substitution::apply", lambda I, a, st, b, t, d: [(call("substituted", I.strip(st, a[0]), plain(I.strip(st, a[2]))), st)])
        fn("apply_bfun_elim", lambda I, a, st, b, t, d: [(models.ok(call("bfun elim", plain(I.strip(st, a[1])))), st), (models.err(), st.copy())])
        fn("resolution::greedy_resolution", resolved)
        fn("::HashMapStack::<K, V>::height", lambda I, a, st, b, t, d: [(num(ghost(st, HEIGHT, 1)), st)])
        fn("::HashMapStack::<K, V>::push_scope", bump(HEIGHT, 1, 1))
        fn("::HashMapStack::<K, V>::pop_scope", bump(HEIGHT, -1, 1))
        fn("::ContextStack::push", bump(LEVEL, 1, 0))
        fn("::ContextStack::pop", bump(LEVEL, -1, 0))
        fn("elaborator::IdHelper::push", bump(IDLEVEL, 1, 0))
        fn("elaborator::IdHelper::pop", bump(IDLEVEL, -1, 0))
        sm.update(over or {})
        kw.setdefault("unroll", 8)
        SV.__init__(self, prog, {k: v for k, v in sm.items() if v}, **kw)
        for k, v in sm.items():
            if v is None:
                self.summaries.pop(k, None)
        files = ("ast/pool/mod.rs", "ast/term.rs", "ast/node.rs", "ast/rc.rs", "ast/macros.rs", "utils.rs")
        self.opaque = lambda p: p in prog.bodies and not ("/elaborator/" in "/" + prog.bodies[p].file or prog.bodies[p].file.endswith(files))

    def run_loop(self, body, fid, header, st):
        return self.unroll_loop(body, fid, header, st, body.loops()[header])

    def assume(self, facts, c, val=True):
        fs = SV.assume(self, facts, c, val)
        return [f for f in fs if f is facts or consistent(f)] if c[0] in ("eq", "and", "not") else fs

    def unroll_loop(self, body, fid, header, st, region):
        out, states = {}, [st]
        for _ in range(self.unroll + 1):
            exits = self.explore(body, fid, header, states, region)
            states = exits.pop("back", [])
            for tgt, xs in exits.items():
                out.setdefault(tgt, []).extend(xs)
            if not states:
                return out
            for x in states:
                self.prune(body, fid, header, x)
        raise A.Limit("%s: a loop goes on for more than %d rounds" % (body.path, self.unroll))


# ------------------------------------------------------------------------------------------------ equality on a path
class Cong:
    """congruence closure of the equalities found on a path"""

    def __init__(self, facts, extra=()):
        self.par = {}
        self.neq = []
        for k, v in facts.items():
            if k[0] == "b" and k[1][0] == "eq":
                (self.merge(k[1][1], k[1][2]) if v else self.neq.append((k[1][1], k[1][2])))
            elif k[0] == "b" and k[1][0] == "and" and v:
                for c in k[1][1]:
                    if c[0] == "eq":
                        self.merge(c[1], c[2])
        for x, y in extra:
            self.merge(x, y)

    def rank(self, x):
        return 0 if x[0] in ("E", "S", "T", "list") else 1

    def merge(self, a, b):
        a, b = self.canon(a), self.canon(b)
        if a == b:
            return
        if self.rank(a) == 0 and self.rank(b) == 0:
            if a[0] == b[0] == "E" and a[2] == b[2] and len(a[3]) == len(b[3]):
                for x, y in zip(a[3], b[3]):
                    self.merge(x, y)
            elif a[0] == b[0] in ("T", "list") and len(a[1]) == len(b[1]):
                for x, y in zip(a[1], b[1]):
                    self.merge(x, y)
            return
        if self.rank(a) == 0 or (self.rank(b) and repr(a) < repr(b)):
            a, b = b, a
        self.par[a] = b

    def canon(self, v, d=0):
        if d > 30:
            return v
        t = v[0]
        if t == "E":
            v = ("E", v[1], v[2], tuple(self.canon(x, d + 1) for x in v[3]))
        elif t == "S":
            v = ("S", v[1], tuple(self.canon(x, d + 1) for x in v[2]))
        elif t in ("T", "list"):
            v = (t, tuple(self.canon(x, d + 1) for x in v[1]))
        elif t == "call":
            v = ("call", v[1], tuple(self.canon(x, d + 1) if isinstance(x, tuple) else x for x in v[2]))
        n = 0
        while v in self.par and n < 50:
            v = self.par[v]
            n += 1
        if n:
            return self.canon(v, d + 1)
        return v

    raw = None

    def same(self, a, b):
        x, y = self.canon(a), self.canon(b)
        if x == y:
            return True
        if self.raw and self.rank(x) != self.rank(y):
            I, facts = self.raw
            return any(I.cond_value(facts, A.eqv_raw(p, q)) for p, q in ((x, y), (a, b), (a, y), (x, b)))
        return False

    def ok(self):
        return not any(self.same(a, b) for a, b in self.neq)


_CONS = {}


def consistent(facts):
    k = frozenset(x for x in facts.items() if x[0][0] == "b" and x[0][1][0] in ("eq", "and"))
    if k not in _CONS:
        _CONS[k] = Cong(facts).ok()
    return _CONS[k]


def plain(v):
    """conversions between owned and borrowed values forgotten"""
    if not isinstance(v, tuple):
        return v
    if len(v) == 3 and v[0] == "S" and isinstance(v[1], str) and v[1].split("::")[-1] in ("Box",) and len(v[2]) == 1:
        return plain(v[2][0])
    v = tuple(plain(x) for x in v)
    if len(v) == 3 and v[0] == "call" and isinstance(v[1], str) and len(v[2]) == 1 and v[1].split("::")[-1] in ("clone", "cloned", "into_boxed_slice", "to_owned", "to_string", "into"):
        return v[2][0]
    return v


# ------------------------------------------------------------------------------------------------ printing values
def show(v, d=0):
    if v[0] == "in":
        return str(v[1])
    if v[0] == "E" and v[1] == TERM and v[2] == "Op":
        o = v[3][0]
        n = o[2] if o[0] == "E" else show(o)
        return "(%s%s)" % (n, "".join(" " + show(x, d + 1) for x in v[3][1][1])) if v[3][1][0] == "list" else "(%s ..%s)" % (n, show(v[3][1]))
    if v[0] == "E":
        return "%s(%s)" % (v[2], ", ".join(show(x, d + 1) for x in v[3]))
    if v[0] == "call":
        return "%s(%s)" % (v[1].split("::")[-1], ", ".join(show(x, d + 1) if isinstance(x, tuple) else str(x) for x in v[2]))
    if v[0] in ("list", "T"):
        return "[%s]" % " ".join(show(x, d + 1) for x in v[1])
    if v[0] in ("str", "bool", "int"):
        return str(v[1])
    return repr(v)[:60]


def dump(prog, v, ind=0):
    v = plain(v)
    if v[0] == "E" and v[1] == NODE and v[2] == "Step":
        s = v[3][0]
        f = lambda n: fget(prog, STEP, s, n)
        out = "  " * ind + "%s: %s %s args=%s depth=%s prev=%s disch=%s\n" % (show(f("id")), show(f("rule")), show(f("clause")), show(f("args")), show(f("depth")), show(f("previous_step"))[:20], show(f("discharge"))[:30])
        if f("premises")[0] == "list" and not show(f("rule")).startswith("given"):
            for p in f("premises")[1]:
                out += dump(prog, p, ind + 1)
        return out
    return "  " * ind + show(v)[:200] + "\n"


# ------------------------------------------------------------------------------------------------ what the rules require
def opargs(v, name):
    if v[0] == "E" and v[2] == "Op" and v[3][0][0] == "E" and v[3][0][2] == name and v[3][1][0] == "list":
        return v[3][1][1]
    return None


def equality(v):
    r = opargs(v, "Equals")
    return r if r is not None and len(r) == 2 else None


def negated(v):
    r = opargs(v, "Not")
    return r[0] if r is not None and len(r) == 1 else None


def arguments(v):
    """(what identifies the head, arguments) of an application"""
    if v[0] == "E" and v[2] in ("App", "Op", "ParamOp") and v[3][-1][0] == "list":
        return (v[2],) + v[3][:-1], v[3][-1][1]
    return None


class Bad(Exception):
    pass


class Rules:
    """checks a generated step against its rule, modulo the equalities that hold on the path"""

    def __init__(self, prog, C, orig=None, more=None):
        self.prog, self.C, self.orig, self.more = prog, C, orig, more or {}
        self.checked = 0

    def f(self, s, name):
        return fget(self.prog, STEP, s, name)

    def clause(self, n):
        """conclusion of a node"""
        if n[0] == "E" and n[2] == "Step":
            c = self.f(n[3][0], "clause")
        elif n[0] == "E" and n[2] == "Assume":
            c = L(n[3][2])
        elif n[0] == "E" and n[2] == "Subproof":
            return self.clause(fget(self.prog, SUBP, n[3][0], "last_step"))
        else:
            raise Bad("a premise of unknown conclusion (%s)" % show(n)[:60])
        c = self.C.canon(c)
        if c[0] != "list":
            raise Bad("a conclusion of unknown length (%s)" % show(c)[:60])
        return c[1]

    def depth(self, n):
        if n[2] == "Step":
            return self.f(n[3][0], "depth")
        if n[2] == "Assume":
            return n[3][1]
        return A.sub(self.depth(fget(self.prog, SUBP, n[3][0], "last_step")), num(1))

    def unit_eq(self, n):
        c = self.clause(n)
        e = equality(c[0]) if len(c) == 1 else None
        if e is None:
            raise Bad("a premise that is not a unit equality: %s" % show(L(*c)))
        return e

    def one(self, xs, what):
        if len(xs) != 1:
            raise Bad("%d %s where one is expected" % (len(xs), what))
        return xs[0]

    def need(self, c, msg):
        if not c:
            raise Bad(msg)

    def chain(self, eqs, t, u):
        for a, b in eqs:
            self.need(self.C.same(a, t), "the chain of equalities breaks at %s" % show(t))
            t = b
        self.need(self.C.same(t, u), "the chain of equalities does not reach %s" % show(u))

    def congruent(self, eqs, f, g):
        fa, ga = arguments(self.C.canon(f)), arguments(self.C.canon(g))
        self.need(fa and ga and len(fa[1]) == len(ga[1]), "congruence between terms of different shapes: %s, %s" % (show(f), show(g)))
        self.need(all(self.C.same(x, y) for x, y in zip(fa[0][1:], ga[0][1:])), "congruence between different functions: %s, %s" % (show(f), show(g)))
        eqs = list(eqs)
        for x, y in zip(fa[1], ga[1]):
            if eqs and self.C.same(eqs[0][0], x) and self.C.same(eqs[0][1], y):
                eqs.pop(0)
            else:
                self.need(self.C.same(x, y), "no premise proves (= %s %s)" % (show(x), show(y)))
        self.need(not eqs, "premise (= %s) is not used by the congruence" % (" ".join(show(x) for x in eqs[0]) if eqs else ""))

    def naive(self, ps, args):
        """strict resolution along the given pivots"""
        cur = list(ps[0])
        self.need(len(args) == 2 * (len(ps) - 1), "%d arguments for %d premises" % (len(args), len(ps)))
        for i, nxt in enumerate(ps[1:]):
            piv, pol = args[2 * i], self.C.canon(args[2 * i + 1])
            pos = opargs(pol, "True") is not None
            self.need(pos or opargs(pol, "False") is not None, "a polarity that is not a Boolean constant: %s" % show(pol))
            a, b = (piv, nt(piv)) if pos else (nt(piv), piv)
            cur = self.drop(cur, a, "left") + self.drop(list(nxt), b, "right")
        return cur

    def drop(self, xs, x, side):
        if any(self.C.same(x, y) for y in xs):
            return [y for y in xs if not self.C.same(x, y)]
        raise Bad("the pivot %s is missing from the %s clause %s" % (show(x), side, show(L(*xs))))

    def unnamed(self, ps):
        """resolution without pivots, one complementary pair per premise"""
        cur = list(ps[0])
        for nxt in ps[1:]:
            nxt = list(nxt)
            hit = None
            for i, x in enumerate(cur):
                for j, y in enumerate(nxt):
                    if self.C.same(x, nt(y)) or self.C.same(nt(x), y):
                        hit = hit or (i, j)
            self.need(hit, "no pivot between %s and %s" % (show(L(*cur)), show(L(*nxt))))
            cur = cur[:hit[0]] + cur[hit[0] + 1:] + nxt[:hit[1]] + nxt[hit[1] + 1:]
        return cur

    def same_list(self, xs, ys):
        return len(xs) == len(ys) and all(self.C.same(x, y) for x, y in zip(xs, ys))

    def permuted(self, xs, ys):
        if len(xs) != len(ys):
            return False
        xs = list(xs)
        for y in ys:
            for i, x in enumerate(xs):
                if self.C.same(x, y):
                    xs.pop(i)
                    break
            else:
                return False
        return True

    def uniq(self, xs):
        out = []
        for x in xs:
            if not any(self.C.same(x, y) for y in out):
                out.append(x)
        return out

    def as_original(self, s):
        return self.orig is not None and all(self.C.same(self.f(s, n), self.f(self.orig, n)) for n in ("rule", "clause", "premises", "args", "discharge", "previous_step"))

    def check(self, n, top=True):
        """raises Bad unless the node and everything it is built from follow their rules"""
        if n[0] != "E" or n[1] != NODE:
            raise Bad("not a proof node: %s" % show(n)[:60])
        if n[2] == "Assume":
            if self.assumed is not None:
                self.need(any(self.C.same(n[3][2], p) for p in self.assumed), "the assumption %s is not a premise" % show(n[3][2]))
            return
        if n[2] == "Subproof":
            return self.subproof(n)
        s = n[3][0]
        rule = self.f(s, "rule")
        if rule[0] == "str" and rule[1].startswith("given:"):
            return
        if self.as_original(s):
            return
        prem = self.f(s, "premises")
        if prem[0] != "list":
            raise Bad("a list of premises of unknown length")
        d = self.f(s, "depth")
        if self.at is not None:
            self.need(d == self.at or rule == ("str", "polyeq") and d[0] == "int" and d[1] < self.at[1], "a step at depth %s" % show(d))
        if self.orig is not None:
            od = self.f(self.orig, "depth")
            self.need(self.C.same(d, od) or prem[1] and not top and all(self.C.same(self.depth(p), d) for p in prem[1]), "a step at depth %s" % show(d))
        for p in prem[1]:
            self.check(p, False)
        if rule[0] != "str":
            raise Bad("a step whose rule is not known: %s" % show(rule))
        self.checked += 1
        r = rule[1]
        m = getattr(self, "r_" + r, None) or self.more.get(r)
        if m is None:
            raise Bad("a step of rule `%s', of which it is not known whether it holds" % r)
        args = self.f(s, "args")
        self.need(args[0] == "list", "arguments of unknown length")
        try:
            m(self.clause(n), list(prem[1]), args[1], s) if r not in self.more else self.more[r](self, self.clause(n), list(prem[1]), args[1], s)
        except Bad as e:
            raise Bad("`%s' step concluding %s: %s" % (r, show(L(*self.clause(n))), e))

    # ---- the rules
    level, alpha, at, assumed = 0, False, None, None

    def r_polyeq(self, c, ps, args, s):
        lv, d = args[0][1], self.f(s, "depth")
        if self.alpha:
            self.need(lv == self.level or lv < self.level and d != self.at, "the equality is proved in the context of another subproof")

    def known_op(self, t):
        t = self.C.canon(t)
        self.need(t[0] == "E" and t[2] == "Op" and t[3][0][0] == "E" and t[3][1][0] == "list", "not an operation of a known operator: %s" % show(t))
        return t[3][0][2], list(t[3][1][1])

    def r_nary_elim(self, c, ps, args, s):
        e = equality(self.one(c, "literals"))
        self.need(e and not ps, "not an equality")
        o, xs = self.known_op(e[0])
        self.need(len(xs) >= 2 and o not in ("And", "Or"), "the rule does not apply to (%s ...)" % o)
        k = nary_case(self.prog, o)
        if k == "Chainable":
            want = op("And", *[op(o, x, y) for x, y in zip(xs, xs[1:])])
        elif k in ("LeftAssoc", "RightAssoc"):
            left = k == "LeftAssoc"
            want = xs[0] if left else xs[-1]
            for x in (xs[1:] if left else reversed(xs[:-1])):
                want = op(o, want, x) if left else op(o, x, want)
        else:
            raise Bad("the rule does not apply to (%s ...)" % o)
        self.need(self.C.same(e[1], want), "the expansion is %s" % show(want))

    def r_aci_simp(self, c, ps, args, s):
        e = equality(self.one(c, "literals"))
        self.need(e and not ps, "not an equality")
        (o, _), (o2, _) = self.known_op(e[0]), self.known_op(e[1])
        self.need(o == o2 and o in ("And", "Or"), "not a conjunction or a disjunction on both sides")

        def flat(t):
            t = self.C.canon(t)
            if t[0] == "E" and t[2] == "Op" and t[3][0] == ("E",) + t[3][0][1:2] + (o,) + t[3][0][3:] and t[3][1][0] == "list":
                return [y for x in t[3][1][1] for y in flat(x)]
            return [t]
        self.need(self.same_set(flat(e[0]), flat(e[1])), "its sides differ")

    def subproof(self, n):
        g = lambda f: fget(self.prog, SUBP, n[3][0], f)
        last = g("last_step")
        self.need(last[0] == "E" and last[2] == "Step", "a subproof that does not end in a step")
        s = last[3][0]
        rule, d, outer = self.f(s, "rule"), self.f(s, "depth"), self.at
        self.need(rule[0] == "str" and rule[1] in ("bind", "bind_let"), "a subproof of rule %s" % show(rule))
        self.need(outer is None or self.C.same(d, A.add(outer, num(1))), "the subproof stands at depth %s" % show(d))
        out, prem, args, prev = g("outbound_premises"), self.f(s, "premises"), g("args"), self.f(s, "previous_step")
        self.need(out[0] == "list" and prem[0] == "list" and args[0] == "list", "lists of unknown length")
        self.need(g("extra_steps") == L(), "steps of the subproof that are not known")
        self.need(self.same_list(out[1], prem[1]), "its outbound premises are not those of its last step")
        for p in prem[1]:
            self.check(p, False)
        self.need(prev[0] == "E" and prev[2] == "Some", "it has no previous step")
        self.at, lv = d, self.level
        if self.alpha and rule[1] == "bind":
            self.level += 1
        self.check(prev[3][0], False)
        self.at, self.level = outer, lv
        self.need(self.C.same(self.depth(prev[3][0]), d), "its previous step is not in it")
        x, y = self.unit_eq(prev[3][0])
        e = equality(self.one(self.clause(n), "literals"))
        l, r = e and self.C.canon(e[0]), e and self.C.canon(e[1])
        self.checked += 1
        vs = [a for a in args[1] if a[2] == "Variable"]
        ass = [a for a in args[1] if a[2] == "Assign"]
        self.need(list(args[1]) == vs + ass, "a variable comes after an assignment in its anchor")
        vs, ass = [v[3][0] for v in vs], [(a[3][0], a[3][1]) for a in ass]
        if rule[1] == "bind":
            self.need(l and l[2] == "Binder" and r[2] == "Binder" and l[3][0] == r[3][0] and self.C.same(l[3][2], x) and self.C.same(r[3][2], y), "it concludes %s from (= %s %s)" % (show(L(*self.clause(n))), show(x), show(y)))
            lb, rb = listing(l[3][1]), listing(r[3][1])
            self.need(len(lb) == len(rb) == len(ass), "%d assignments for %d and %d bindings" % (len(ass), len(lb), len(rb)))
            for b, c, (v, t) in zip(lb, rb, ass):
                self.need(self.C.same(v, b) and self.C.same(t, variant(TERM, "Var", c[1][0], c[1][1])), "its anchor assigns %s to %s" % (show(t), show(v)))
                self.need(any(self.C.same(c, w) for w in vs), "its anchor does not introduce %s" % show(c))
        else:
            self.need(l and l[2] == "Let" and r[2] == "Let" and self.C.same(l[3][1], x) and self.C.same(r[3][1], y), "it concludes %s from (= %s %s)" % (show(L(*self.clause(n))), show(x), show(y)))
            lb, rb = listing(l[3][0]), listing(r[3][0])
            self.need(len(lb) == len(rb) == len(vs) and not ass, "the anchor of a `bind_let' with %d and %d bindings introduces %d variables" % (len(lb), len(rb), len(vs)))
            eqs = [self.unit_eq(p) for p in prem[1]]
            for b, c, v in zip(lb, rb, vs):
                self.need(self.C.same(b[1][0], c[1][0]) and self.C.same(v[1][0], b[1][0]), "the names bound differ")
                if not self.C.same(b[1][1], c[1][1]):
                    while eqs and not (self.C.same(eqs[0][0], b[1][1]) and self.C.same(eqs[0][1], c[1][1])):
                        eqs.pop(0)
                    self.need(eqs, "no premise proves (= %s %s)" % (show(b[1][1]), show(c[1][1])))
                    eqs.pop(0)

    def r_refl(self, c, ps, args, s):
        e = equality(self.one(c, "literals"))
        self.need(e and not ps, "not an equality")
        ctx = lambda x: call("in context", x)
        self.need(self.C.same(*e) or self.C.same(ctx(e[0]), e[1]), "its sides are not equal in the context")

    def r_symm(self, c, ps, args, s):
        a, b = self.unit_eq(self.one(ps, "premises"))
        e = equality(self.one(c, "literals"))
        self.need(e and self.C.same(e[0], b) and self.C.same(e[1], a), "it does not flip its premise (= %s %s)" % (show(a), show(b)))

    def r_trans(self, c, ps, args, s):
        e = equality(self.one(c, "literals"))
        self.need(e, "not an equality")
        self.chain([self.unit_eq(p) for p in ps], *e)

    def r_cong(self, c, ps, args, s):
        e = equality(self.one(c, "literals"))
        self.need(e, "not an equality")
        self.congruent([self.unit_eq(p) for p in ps], *e)

    def r_equiv1(self, c, ps, args, s):
        a, b = self.unit_eq(self.one(ps, "premises"))
        self.need(self.same_list(c, (nt(a), b)), "its premise is (= %s %s)" % (show(a), show(b)))

    def r_equiv2(self, c, ps, args, s):
        a, b = self.unit_eq(self.one(ps, "premises"))
        self.need(self.same_list(c, (a, nt(b))), "its premise is (= %s %s)" % (show(a), show(b)))

    def r_eq_symmetric(self, c, ps, args, s):
        e = equality(self.one(c, "literals"))
        l, r = (equality(e[0]), equality(e[1])) if e else (None, None)
        self.need(l and r and not ps and self.C.same(l[0], r[1]) and self.C.same(l[1], r[0]), "its sides are not flipped equalities")

    def r_not_not(self, c, ps, args, s):
        self.need(len(c) == 2 and not ps and self.C.same(c[0], nt(nt(nt(c[1])))), "not an instance")

    def r_true(self, c, ps, args, s):
        self.need(len(c) == 1 and not ps and opargs(c[0], "True") is not None, "not an instance")

    def r_false(self, c, ps, args, s):
        self.need(len(c) == 1 and not ps and self.C.same(c[0], nt(op("False"))), "not an instance")

    def r_weakening(self, c, ps, args, s):
        p = self.clause(self.one(ps, "premises"))
        self.need(self.same_list(c[:len(p)], p), "its premise %s is not a prefix" % show(L(*p)))

    def r_contraction(self, c, ps, args, s):
        p = self.clause(self.one(ps, "premises"))
        self.need(self.same_list(c, self.uniq(p)), "its premise is %s" % show(L(*p)))

    def r_reordering(self, c, ps, args, s):
        p = self.clause(self.one(ps, "premises"))
        self.need(self.permuted(c, p), "its premise is %s" % show(L(*p)))

    trace = None

    def r_resolution(self, c, ps, args, s):
        ps = [self.clause(p) for p in ps]
        if self.trace is not None:
            tc, tp, ta = plain(self.trace)[1]
            if tp[0] == "list" and len(tp[1]) == len(ps) and args and self.same_list(ta[1], args) and all(t[0] == "list" and self.same_list(t[1], p) for t, p in zip(tp[1], ps)):
                self.need(self.same_list(c, tc[1]), "its pivots lead to %s" % show(tc))
                return
        self.need(len(ps) >= 2, "fewer than two premises")
        r = self.naive(ps, args) if args else self.unnamed(ps)
        self.need(self.same_set(c, r), "its premises resolve to %s" % show(L(*r)))

    def same_set(self, xs, ys):
        return all(any(self.C.same(x, y) for y in ys) for x in xs) and all(any(self.C.same(x, y) for y in xs) for x in ys)

    def r_eq_transitive(self, c, ps, args, s):
        e = [equality(negated(x) or x) if negated(x) else None for x in c[:-1]]
        t = equality(c[-1]) if c else None
        self.need(t and all(e) and not ps, "not an instance")
        self.chain(e, *t)

    def r_eq_congruent(self, c, ps, args, s):
        e = [equality(negated(x)) if negated(x) else None for x in c[:-1]]
        t = equality(c[-1]) if c else None
        self.need(t and all(e) and not ps, "not an instance")
        self.congruent(e, *t)

    def r_bfun_elim(self, c, ps, args, s):
        p = self.clause(self.one(ps, "premises"))
        self.need(len(p) == 1 and self.same_list(c, (call("bfun elim", p[0]),)), "not what the rule computes from its premise")

    def r_forall_inst(self, c, ps, args, s):
        o = opargs(self.one(c, "literals"), "Or")
        q = negated(o[0]) if o and len(o) == 2 else None
        self.need(q and q[2] == "Binder" and not ps, "not an instance")
        self.need(self.orig is not None and self.same_list(args, self.f(self.orig, "args")[1]), "its arguments are not those of the original step")
        sub = [x for x in self.subst_of(q, args)]
        self.need(any(self.C.same(o[1], x) for x in sub), "%s is not the instance" % show(o[1]))

    def subst_of(self, q, args):
        bl = q[3][1]
        bl = bl[2][0] if bl[0] == "S" else bl
        ps = [("T", (variant(TERM, "Var", x[1][0], x[1][1]), v)) for x, v in zip(bl[1], args)]
        yield call("substituted", call("substitution", L(*ps)), q[3][2])

    def r_ite_intro(self, c, ps, args, s):
        e = equality(self.one(c, "literals"))
        us = opargs(e[1], "And") if e else None
        self.need(us and not ps and self.C.same(us[0], e[0]), "not an instance")
        for u in us[1:]:
            i = opargs(u, "Ite")
            x, y = (equality(i[1]), equality(i[2])) if i and len(i) == 3 else (None, None)
            self.need(x and y, "%s is not the definition of an ite term" % show(u))
            t = op("Ite", i[0], x[1], y[1])
            self.need(self.C.same(x[0], t) and self.C.same(y[0], t), "%s is not the definition of an ite term" % show(u))


BENIGN = ("String::new", "ContextStack::new", "alpha_equiv", "mod_reordering", "mod_nary", "Polyeq::new", "panicking::", "panic", "from_str_nonconst")


def tainted(I, v, facts):
    """does this path depend on something the interpreter does not know?"""
    if any(not any(w in k for w in BENIGN) for k in I.unmodelled):
        return True
    return unknown(v) or any(unknown(k) for k in facts)


def unknown(v):
    if isinstance(v, tuple) and v and v[0] == "opq":
        return v[1] not in BENIGN_OPQ and not any(str(v[1]).endswith(w) for w in BENIGN_OPQ)
    return isinstance(v, tuple) and any(unknown(x) for x in v)


BENIGN_OPQ = ("String::new", "ContextStack::new", "Polyeq::new", "alpha_equiv", "mod_reordering", "mod_nary")


def blame(I, v, facts, viol, cov, key, msg):
    if tainted(I, v, facts):
        cov["not_decided"].append(msg[:300])
    else:
        viol.append((key, msg, None))


def runs(prog, fname, s, over=None, facts=None, pre=()):
    """[(result, state, interpreter)]: an elaboration function on one step"""
    body = find_body(prog, fname)
    I = EV(prog, over)
    pool, ctx = ("cell", "pool"), ("cell", "ctx")
    st = State({pool: inp("pool"), ctx: inp("ctx")}, facts or {})
    return body, [(plain(v), x, I) for v, x in I.run(body, [("mref", pool, ()), ("mref", ctx, ()), s], st)], I


def judge(prog, fname, s, label, viol, cov, over=None, more=None, same_clause=True, extra=()):
    body, rets, I = runs(prog, fname, s, over)
    cov["functions"].add(body.path)
    n = done = 0
    s = plain(s)
    for v, x, _ in rets:
        C = Cong(x.facts, extra)
        if not C.ok():
            continue
        if v[0] == "E" and v[2] == "Err":
            continue
        if v[0] == "E" and v[2] == "Ok":
            v = v[3][0]
        n += 1
        done += 1
        R = Rules(prog, C, s, more)
        R.trace = x.store.get(TRACE)
        try:
            R.check(v)
            c = R.clause(v)
            if same_clause and not R.same_list(c, R.clause(node_of(s))):
                raise Bad("it concludes %s, the step concluded %s" % (show(L(*c)), show(L(*R.clause(node_of(s))))))
            if not C.same(R.depth(v), R.f(s, "depth")):
                raise Bad("it stands at depth %s" % show(R.depth(v)))
        except Bad as e:
            blame(I, v, x.facts, viol, cov, "elab:%s:%s" % (fname.split("::")[-1], label), "%s: what replaces a step (%s) is wrong: %s" % (body.where(body.line), label, str(e)[:300]))
        cov["steps"] += R.checked
    if not done:
        blame(I, (), {}, viol, cov, "elab:%s:%s:none" % (fname.split("::")[-1], label), "%s: no step of this form is ever elaborated (%s)" % (body.where(body.line), label))
    cov["paths"] += n
    for k, c in I.unmodelled.items():
        cov["opaque"].add(k)
    return n


def listing(b):
    b = b[2][0] if b[0] == "S" else b
    if b[0] != "list":
        raise Bad("bindings of unknown number")
    return b[1]


NARY = {}


def nary_case(prog, o):
    """what Operator::nary_case() says of an operator"""
    if o not in NARY:
        body = find_body(prog, "Operator::nary_case")
        I = EV(prog)
        rs = {plain(v) for v, _ in I.run(body, [variant(OP, o)], State({}, {}))}
        v = rs.pop() if len(rs) == 1 else None
        NARY[o] = v[3][0][2] if v and v[2] == "Some" else None
    return NARY[o]


def judge_polyeq(prog, a, b, label, viol, cov, alpha=False, over=None):
    """PolyeqElaborator::elaborate_impl, given that the equalities it asks for inside are proved as they should"""
    body = find_body(prog, "PolyeqElaborator::<'a>::elaborate_impl")
    cov["functions"].add(body.path)
    I = EV(prog, over)
    self, pool = ("cell", "self"), ("cell", "pool")
    E = struct(prog, PE, ids=inp("ids"), root_depth=num(2), cache=inp("cache"), checker=inp("checker"), context=some(inp("context")) if alpha else NONE)
    st = State({pool: inp("pool"), self: E}, {})
    done = 0
    for v, x in I.run(body, [("mref", self, ()), ("mref", pool, ()), a, b], st):
        v, C = plain(v), Cong(x.facts)
        if not C.ok():
            continue
        done += 1
        C.raw = (I, x.facts)
        R = Rules(prog, C)
        R.alpha, R.at = alpha, num(2)
        try:
            R.check(v)
            c = R.clause(v)
            if not R.same_list(c, (eq(a, b),)):
                raise Bad("it concludes %s" % show(L(*c)))
            if not C.same(R.depth(v), num(2)):
                raise Bad("it stands at depth %s" % show(R.depth(v)))
            if (ghost(x, HEIGHT, 1), ghost(x, LEVEL, 0), ghost(x, IDLEVEL, 0)) != (1, 0, 0):
                raise Bad("a subproof it opens is not closed")
        except Bad as e:
            blame(I, v, x.facts, viol, cov, "elab:polyeq:%s" % label, "%s: what proves the equality of two terms (%s) is wrong: %s" % (body.where(body.line), label, str(e)[:300]))
        cov["steps"] += R.checked
    if not done:
        blame(I, (), {}, viol, cov, "elab:polyeq:%s:none" % label, "%s: no equality of this form is ever proved (%s)" % (body.where(body.line), label))
    cov["paths"] += done
    for k in I.unmodelled:
        cov["opaque"].add(k)
    return done


def exact(prog, suffix):
    bs = [b for q, b in prog.bodies.items() if q.endswith(suffix) and b.kind == "fn"]
    if len(bs) != 1:
        raise RuntimeError("anchor function %s not found (%d candidates)" % (suffix, len(bs)))
    return bs[0]


def judge_assume(prog, viol, cov, k):
    """an assumption that is only equal to a premise up to reordering is replaced by that premise and a proof of their equality"""
    body = find_body(prog, "::elaborate_assume")
    cov["functions"].add(body.path)
    I = EV(prog)
    self, pool = ("cell", "self"), ("cell", "pool")
    prem, term, d = xs("premise", k), inp("term"), num(2)
    ad = [a for a in prog.adts if a.endswith("::Problem")][0]
    E = struct(prog, "elaborator::Elaborator", pool=("mref", pool, ()), problem=struct(prog, ad, premises=L(*prem)))
    done = 0
    for v, x in I.run(body, [("mref", self, ()), inp("id"), d, term], State({pool: inp("pool"), self: E}, {})):
        v, C = plain(v), Cong(x.facts)
        if not C.ok():
            continue
        done += 1
        C.raw = (I, x.facts)
        R = Rules(prog, C)
        R.assumed = prem
        try:
            R.check(v)
            c = R.clause(v)
            if not R.same_list(c, (term,)):
                raise Bad("it concludes %s" % show(L(*c)))
            if R.depth(v) != d:
                raise Bad("it stands at depth %s" % show(R.depth(v)))
        except Bad as e:
            blame(I, v, x.facts, viol, cov, "elab:assume:%d" % k, "%s: what replaces an assumption is wrong: %s" % (body.where(body.line), str(e)[:300]))
        cov["steps"] += R.checked
    if not done:
        blame(I, (), {}, viol, cov, "elab:assume:none", "%s: no assumption is ever elaborated" % body.where(body.line))
    cov["paths"] += done
    for o in I.unmodelled:
        cov["opaque"].add(o)
    return done


def judge_ids(prog, viol, cov):
    """identifiers made for the steps of an elaboration: all of them begin with the identifier of the elaborated step, and no two of them are equal"""
    import prop_print as PP
    me, H = ("cell", "me"), "elaborator::IdHelper"
    body = find_body(prog, H + "::next_id")

    def text(I, st, v, b, t):
        return "".join(p[1] if p[0] == "str" else str(p[1][0][1]) if p[0] == "D" and p[1][0][0] == "int" else repr(p) for p in PP.pieces(I, st, v, b, t))

    def wr(I, a, st, b, t, d):
        s = st.copy()
        if a[0][0] != "mref":
            raise A.Limit("it is not known where %s writes to" % b.path)
        I.write(s, a[0][1], a[0][2], ("call", "cat", (I.deref(st, a[0]), ("str", text(I, st, a[1], b, t)))))
        return [(models.ok(UNIT), s)]
    over = {n: wr for n in ("std::fmt::Write::write_fmt", "fmt::Write::write_fmt", "Write::write_fmt", "std::fmt::Write::write_str", "fmt::Write::write_str", "Write::write_str")}
    over["ToOwned::to_owned"] = over["str::to_owned"] = over["Clone::clone"] = over["String::clone"] = lambda I, a, st, b, t, d: [(I.deref(st, a[0]), st)]
    I = PP.Emit(prog, over)
    I.opaque = lambda p: p in prog.bodies and not ("/elaborator/" in "/" + prog.bodies[p].file)

    def call1(f, args, st):
        rets = I.run(find_body(prog, f if "::" in f else "%s::%s" % (H, f)), args, st)
        if len(rets) != 1:
            raise A.Limit("%s::%s has %d outcomes" % (H, f, len(rets)))
        return rets[0]
    n = 0
    for root in ("r", "r.t1"):
        h, st = call1("new", [("str", root)], State({}, {}))
        st = State({me: h}, {})
        seen = {}
        # the ways the helper is used: identifiers at several levels of nesting, each opened more than once
        for ops in ("iiiiiiiiiiiii", "ii(ii)ii", "i(i)(i)i(i(i)i(i)i)i", "(i(i))(i(i))i", "((i)i)i((i)i)i"):
            s, seen = State({me: h}, {}), {}
            for k, o in enumerate(ops):
                v, x = call1({"i": "next_id", "(": "push", ")": "pop"}[o], [("mref", me, ())], s)
                s = State({me: x.store[me]}, {})
                if o == ")":
                    # what closes a subproof gets its identifier right after it is closed
                    v, x = call1("next_id", [("mref", me, ())], s)
                    s = State({me: x.store[me]}, {})
                if o != "(":
                    t = text(I, s, v, body, {"ln": body.line})
                    n += 1
                    if not t.startswith(root + "."):
                        viol.append(("elab:ids:root", "%s: the identifier %s does not begin with that of the elaborated step, %s" % (body.where(body.line), t, root), None))
                    if t in seen:
                        viol.append(("elab:ids:twice", "%s: the identifier %s is given out twice (identifiers i, nested subproofs in parentheses: %s)" % (body.where(body.line), t, ops[:k + 1]), None))
                    seen[t] = k
    cov["functions"] |= {"%s::%s" % (H, f) for f in ("new", "next_id", "push", "pop")}
    for k in I.unmodelled:
        cov["opaque"].add(k)
    return n


def judge_dispatch(prog, viol, cov):
    """what is done with a node: an assumption is replaced only at the outermost level, and only when it is no premise; a step only by the function of its rule"""
    n = 0
    CXN = "ast::context::ContextStack"
    asm = find_body(prog, "::elaborate_assume").path
    for q in sorted(q for q, b in prog.bodies.items() if b.kind == "fn" and b.file.endswith("elaborator/mod.rs") and q.split("::")[-1].startswith("elaborate_") and q != asm and any("ProofNodeForest" in x for x in b.locals[:1])):
        body = prog.bodies[q]
        got = []
        over = {}
        for m in [x for x in prog.bodies if x.endswith("::mutate") and "Mutate" in x] + ["elaborator::Mutate::mutate", "Mutate::mutate"]:
            over[m] = lambda I, a, st, b, t, d: got.append((a[1], st)) or [(inp("mutated"), st)]
        table = [x for x in prog.bodies if prog.bodies[x].kind == "fn" and x.startswith(q + "::") and nargs(prog.bodies[x]) == 1]
        empty = {}
        over[CXN + "::is_empty"] = lambda I, a, st, b, t, d: [(("bool", empty["v"]), st)]
        over[CXN + "::len"] = lambda I, a, st, b, t, d: [(num(0 if empty["v"] else 1), st)]
        over[asm] = lambda I, a, st, b, t, d: [(call("elaborated assumption", *[plain(I.strip(st, y)) for y in a[1:]]), st)]
        for x in prog.bodies:
            if prog.bodies[x].kind == "fn" and prog.bodies[x].file.split("elaborator/")[-1] not in ("mod.rs", prog.bodies[x].file) and nargs(prog.bodies[x]) == 3 and "StepNode" in prog.bodies[x].locals[3]:
                over[x] = (lambda x: lambda I, a, st, b, t, d: [(models.ok(call("elaborated", ("str", x), plain(I.strip(st, a[2])))), st), (models.err(), st.copy())])(x)
        I = EV(prog, over)
        me, ctx, pool = ("cell", "self"), ("cell", "ctx"), ("cell", "pool")
        ad = [a for a in prog.adts if a.endswith("::Problem")][0]
        prem = inp("premise")
        E = struct(prog, "elaborator::Elaborator", pool=("mref", pool, ()), problem=struct(prog, ad, premises=L(prem)))
        if nargs(body) != 2:
            continue
        I.run(body, [("mref", me, ()), inp("proof")], State({pool: inp("pool"), me: E}, {}))
        if not got or not any("mutate" in repr(bb["t"]) for bb in body.bbs):
            continue
        if len(got) != 1:
            cov["not_decided"].append("%s: what it does with the nodes of a proof" % q)
            continue
        clos, st0 = got[0]
        cov["functions"].add(q)
        nodes = [("an assumption", variant(NODE, "Assume", inp("id"), inp("d"), inp("term")), None)]
        rules = ["refl", "forall_inst", "subproof", "ite_intro", "bfun_elim", "eq_transitive", "trans", "resolution", "th_resolution", "cong", "eq_congruent", "hole", "rule of no name"]
        nodes += [("a `%s' step" % r, node_of(step(prog, rule=("str", r), clause=L(inp("c")))), r) for r in rules]
        for label, nd, rule in nodes:
            for e in (True, False):
                empty["v"] = e
                s = st0.copy()
                s.store[ctx] = inp("ctx")
                want = {None}
                if rule:
                    want = set()
                    for tb in table:
                        for v, _ in EV(prog).run(prog.bodies[tb], [("str", rule)], State({}, {})):
                            v = plain(v)
                            f = v[3][0] if v[0] == "E" and v[2] == "Some" else None
                            f = f[1] if f and f[0] == "fnptr" else f
                            want.add(f[1] if f else None)
                for v, x in I.closure_call(clos, [("mref", ctx, ()), nd, ("bool", True)], s, body, {"ln": body.line, "fn": "", "args": []}, "?"):
                    v = plain(v)
                    C = Cong(x.facts)
                    if not C.ok():
                        continue
                    n += 1
                    if v == plain(nd):
                        if not rule and e and calls_fn(prog, q, asm) and not C.same(inp("term"), prem):
                            blame(I, v, x.facts, viol, cov, "elab:dispatch:%s:assume" % q, "%s: an assumption that is no premise stays as it is" % body.where(body.line))
                        continue
                    if rule and v[0] == "call" and v[1] == "elaborated" and v[2][0][1] in want and v[2][1] == plain(nd)[3][0]:
                        continue
                    if not rule and e and v[0] == "call" and v[1] == "elaborated assumption" and not C.same(inp("term"), prem) and v[2] == (inp("id"), inp("d"), inp("term")):
                        continue
                    blame(I, v, x.facts, viol, cov, "elab:dispatch:%s:%s" % (q, rule or "assume"), "%s: %s %s becomes %s" % (body.where(body.line), label, "at the outermost level" if e else "inside a subproof", show(v)[:200]))
        for o in I.unmodelled:
            cov["opaque"].add(o)
    return n


def calls_fn(prog, q, f):
    """is f named in q or one of its closures?"""
    return any(repr(f) in repr(prog.bodies[p].bbs) for p in prog.bodies if p == q or p.startswith(q + "::{closure"))


def judge_cache(prog, viol, cov):
    """PolyeqElaborator::elaborate answers what elaborate_impl proved for the same two terms, and remembers it for no others"""
    body = exact(prog, "::PolyeqElaborator::<'a>::elaborate")
    impl = find_body(prog, "PolyeqElaborator::<'a>::elaborate_impl")
    cov["functions"].add(body.path)
    a, b = inp("a"), inp("b")
    log = []
    ghostly = gcell("remembered")

    def get(I, v, st, bd, t, d):
        k = plain(I.strip(st, v[1]))
        return [(NONE, st.copy()), (some(call("remembered", k)), st)]

    def insert(I, v, st, bd, t, d):
        s = st.copy()
        s.store[ghostly] = L(*s.store.get(ghostly, L())[1], ("T", (plain(I.strip(st, v[1])), plain(I.strip(st, v[2])))))
        return [(UNIT, s)]
    over = {exact(prog, "::HashMapStack::<K, V>::get").path: get, exact(prog, "::HashMapStack::<K, V>::insert").path: insert,
            impl.path: lambda I, v, st, bd, t, d: [(call("proof of", plain(I.strip(st, v[2])), plain(I.strip(st, v[3]))), st)]}
    I = EV(prog, over)
    I.summaries.pop(body.path, None)
    self, pool = ("cell", "self"), ("cell", "pool")
    E = struct(prog, PE, ids=inp("ids"), root_depth=num(2), cache=inp("cache"), checker=inp("checker"), context=inp("context"))
    n = 0
    key, want = ("T", (a, b)), call("proof of", a, b)
    for v, x in I.run(body, [("mref", self, ()), ("mref", pool, ()), a, b], State({pool: inp("pool"), self: E}, {})):
        n += 1
        v, kept = plain(v), x.store.get(ghostly, L())[1]
        if v not in (want, call("remembered", key)):
            blame(I, v, x.facts, viol, cov, "elab:cache", "%s: the equality of a and b is answered by %s" % (body.where(body.line), show(v)))
        for e in kept:
            if e[1] not in ((key, want), (key, call("remembered", key))):
                viol.append(("elab:cache:insert", "%s: %s is remembered for %s" % (body.where(body.line), show(e[1][1]), show(e[1][0])), None))
    cov["paths"] += n
    return n


# ---- the traversal
CTX = gcell("contexts")


def amap(I, st, v):
    v = I.deref(st, v)
    return v[1] if v[0] == "list" else None


def lookup(I, st, m, k):
    k = plain(I.strip(st, k))
    for e in m:
        if e[1][0] == k:
            return e[1][1]


def m_contains(I, a, st, b, t, d):
    m = amap(I, st, a[0])
    return None if m is None else [(("bool", lookup(I, st, m, a[1]) is not None), st)]


def m_get(I, a, st, b, t, d):
    m = amap(I, st, a[0])
    v = None if m is None else lookup(I, st, m, a[1])
    return None if m is None else [(NONE if v is None else some(v), st)]


def m_insert(I, xs, a, st, b, t):
    k = plain(I.strip(st, a[1]))
    old = [e[1][1] for e in xs if e[1][0] == k]
    return [(tuple(e for e in xs if e[1][0] != k) + (("T", (k, plain(I.strip(st, a[2])))),), some(old[0]) if old else NONE, st.copy())]


def m_index(I, a, st, b, t, d):
    m, k = amap(I, st, a[0]), I.strip(st, a[1])
    if m is not None and k[0] == "E" and k[1] == NODE:
        v = lookup(I, st, m, k)
        return [] if v is None else [(v, st)]
    return models.MODELS["Index::index"](I, a, st, b, t, d)


def push_ctx(I, a, st, b, t, d):
    s = st.copy()
    s.store[CTX] = L(*s.store.get(CTX, L())[1], plain(I.strip(st, a[1])))
    return [(UNIT, s)]


def pop_ctx(I, a, st, b, t, d):
    s = st.copy()
    s.store[CTX] = L(*s.store.get(CTX, L())[1][:-1])
    return [(UNIT, s)]


def proof_shape(prog):
    """a proof with assumptions, shared and repeated premises, and two nested subproofs"""
    def stp(name, d, prem=(), dis=(), prev=None):
        return node(prog, id=("str", name), depth=num(d), clause=L(inp("clause of " + name)), rule=("str", "rule of " + name), premises=L(*prem), args=L(inp("argument of " + name)), discharge=L(*dis),
                    previous_step=some(prev) if prev else NONE)

    def asm(name, d):
        return variant(NODE, "Assume", ("str", name), num(d), inp("term of " + name))

    def sub(last, out, extra, name):
        return variant(NODE, "Subproof", struct(prog, SUBP, last_step=last, args=L(inp("anchor of " + name)), outbound_premises=L(*out), extra_steps=L(*extra)))
    h, k, i, j = asm("h", 0), asm("k", 0), asm("i", 1), asm("j", 1)
    a, b = stp("a", 0, [h, k]), stp("b", 0, [h])
    p = stp("p", 1, [i, a])
    q, e, f = stp("q", 1, [p, h, p]), stp("e", 1, [j]), stp("f", 1, [k])
    inner = sub(stp("l2", 2, prev=stp("r", 2, [p, b])), [p, b], [], "sub2")
    outer = sub(stp("l", 1, [inner], [i, j], q), [a, h, b, k], [e, f], "sub")
    return stp("root", 0, [outer, a, b])


def judge_mutate(prog, viol, cov):
    """every step is rebuilt from what its premises became, in the context of its subproof, and replaced once by what the given function answers"""
    body = exact(prog, "elaborator::mutate_impl")
    cov["functions"].add(body.path)
    root = proof_shape(prog)
    R = Rules(prog, Cong({}))
    g = lambda n, f: fget(prog, SUBP, n[3][0], f)

    def replaced(n, ctx):
        return variant(NODE, "Step", struct(prog, STEP, id=n[3][0] if n[2] == "Assume" else R.f(n[3][0], "id"), depth=R.depth(n), clause=L(), rule=("str", "replaced"),
                                            premises=R.f(n[3][0], "premises") if n[2] == "Step" else L(), args=L(n, ctx), discharge=L(), previous_step=NONE))

    def mutated(I, a, st, b, t, d):
        args = a[1][1] if a[1][0] == "T" else a[1:]
        n = plain(I.strip(st, args[1]))
        if n[0] != "E" or n[1] != NODE or n[2] == "Subproof":
            raise A.Limit("mutate_impl: the function is given %s" % show(n)[:80])
        return [(replaced(n, st.store.get(CTX, L())), st)]
    memo = {}

    def want(n, ctx):
        """what a node must become, and the premises it then has in outer subproofs"""
        if n in memo:
            return memo[n]
        if n[2] == "Assume":
            r = replaced(n, L(*ctx)), []
        elif n[2] == "Step":
            s, w = n[3][0], lambda x: want(x, ctx[:R.depth(x)[1]])[0]
            new = node(prog, id=R.f(s, "id"), depth=R.f(s, "depth"), clause=R.f(s, "clause"), rule=R.f(s, "rule"), args=R.f(s, "args"), premises=L(*[w(x) for x in R.f(s, "premises")[1]]),
                       discharge=L(*[w(x) for x in R.f(s, "discharge")[1]]), previous_step=some(w(R.f(s, "previous_step")[3][0])) if R.f(s, "previous_step")[2] == "Some" else NONE)
            r = replaced(new, L(*ctx)), [x for x in R.f(new[3][0], "premises")[1] if R.depth(x)[1] < R.depth(n)[1]]
        else:
            inside = ctx + (g(n, "args"),)
            last, extra = want(g(n, "last_step"), inside), [want(x, inside) for x in g(n, "extra_steps")[1]]
            outs, todo, seen = [], [g(n, "last_step")] + list(g(n, "extra_steps")[1]), set()
            while todo:
                x = todo.pop()
                if x in seen or R.depth(x)[1] < len(inside):
                    continue
                seen.add(x)
                outs += [o for o in want(x, inside)[1] if o not in outs]
                if x[2] == "Step":
                    pv = R.f(x[3][0], "previous_step")
                    todo += list(R.f(x[3][0], "premises")[1]) + list(R.f(x[3][0], "discharge")[1]) + ([pv[3][0]] if pv[2] == "Some" else [])
            r = variant(NODE, "Subproof", struct(prog, SUBP, last_step=last[0], args=g(n, "args"), outbound_premises=L(*sorted(outs, key=repr)), extra_steps=L(*[x[0] for x in extra]))), [o for o in outs if R.depth(o)[1] < len(ctx)]
        memo[n] = r
        return r

    def norm(v):
        """outbound premises in any order"""
        if v[0] == "S" and v[1] == SUBP:
            v = ("S", v[1], tuple(norm(x) if isinstance(x, tuple) else x for x in v[2]))
            fs = [x["n"] for x in prog.adts[SUBP]["variants"][0]["fields"]]
            i = fs.index("outbound_premises")
            out = v[2][i]
            return ("S", v[1], v[2][:i] + (("list", tuple(sorted(set(out[1]), key=repr))) if out[0] == "list" else out,) + v[2][i + 1:])
        return tuple(norm(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else tuple(norm(y) if isinstance(y, tuple) and y and isinstance(y[0], str) else y for y in x) if isinstance(x, tuple) else x for x in v)
    over = {"FnMut::call_mut": mutated, "Index::index": m_index, "ops::Index::index": m_index}
    for c in ("HashMap", "IndexMap", "BTreeMap"):
        for f, h in (("contains_key", m_contains), ("get", m_get), ("insert", edit(m_insert)), ("new", lambda I, a, st, b, t, d: [(L(), st)])):
            over["%s::%s" % (c, f)] = h
    over[exact(prog, "::ContextStack::push").path] = push_ctx
    over[exact(prog, "::ContextStack::pop").path] = pop_ctx
    I = EV(prog, over, unroll=400)
    cache = ("cell", "cache")
    rets = I.run(body, [root, ("mref", cache, ()), inp("f")], State({cache: L()}, {}))
    if not rets:
        viol.append(("elab:mutate:none", "%s: a proof with nested subproofs is never rebuilt" % body.where(body.line), None))
    exp = norm(want(root, ())[0])
    for v, x in rets:
        v = norm(plain(v))
        if v != exp:
            blame(I, v, x.facts, viol, cov, "elab:mutate", "%s: a proof is not rebuilt from what its steps became: %s" % (body.where(body.line), difference(v, exp)))
        if x.store.get(CTX, L()) != L():
            viol.append(("elab:mutate:context", "%s: a context is left open" % body.where(body.line), None))
    cov["paths"] += len(rets)
    for o in I.unmodelled:
        cov["opaque"].add(o)
    return len(rets)


def difference(v, w, path=""):
    """the first place where two values differ"""
    if v[0] == w[0] and v[0] == "S" and v[1] == w[1]:
        for i, (a, b) in enumerate(zip(v[2], w[2])):
            if a != b:
                return difference(a, b, "%s.%s[%d]" % (path, v[1].split("::")[-1], i))
    if v[0] == w[0] == "E" and v[2] == w[2]:
        for a, b in zip(v[3], w[3]):
            if a != b:
                return difference(a, b, path)
    if v[0] == w[0] == "list" and len(v[1]) == len(w[1]):
        for i, (a, b) in enumerate(zip(v[1], w[1])):
            if a != b:
                return difference(a, b, "%s/%d" % (path, i))
    return "%s is %s, not %s" % (path, show(v)[:120], show(w)[:120])


def node_of(s):
    return variant(NODE, "Step", s)


def SPF(R, c, ps, args, s):
    """the step that ends a subproof: the step before it is replaced by one that concludes its last literal"""
    o = R.orig
    R.need(all(R.C.same(R.f(s, n), R.f(o, n)) for n in ("clause", "premises", "args", "discharge")), "it is not the original step with another previous step")
    p = R.f(s, "previous_step")
    R.need(p[0] == "E" and p[2] == "Some", "it has no previous step")
    R.check(p[3][0], False)
    R.need(R.C.same(R.depth(p[3][0]), R.f(o, "depth")), "its previous step stands at another depth")
    pc = R.clause(p[3][0])
    R.need(len(pc) == 1 and R.C.same(pc[0], c[-1]), "its previous step concludes %s" % show(L(*pc)))


# ------------------------------------------------------------------------------------------------ what is elaborated
def xs(p, n):
    return [inp("%s%d" % (p, i)) for i in range(n)]


def bindings(p, k):
    return L(*[("T", (inp("%sn%d" % (p, i)), inp("%ss%d" % (p, i)))) for i in range(k)])


def binder(q, p, k):
    return variant(TERM, "Binder", variant("ast::term::Binder", q), bindings(p, k), inp(p + "body"))


def app(f, *a):
    return variant(TERM, "App", inp(f), L(*a))


def forms(prog, deep):
    """rule -> [(label, step, options)]"""
    out = {}

    def add(rule, label, k=None, **f):
        out.setdefault(rule, []).append((label, dict(f, rule=("str", rule)), k or {}))
    g = lambda n, *c: given(prog, n, L(*c))
    pairs = lambda k: [eq(inp("a%d" % i), inp("b%d" % i)) for i in range(k)]
    units = lambda k: L(*[g("p%d" % i, e) for i, e in enumerate(pairs(k))])
    add("refl", "an equality", clause=L(eq(inp("l"), inp("r"))))
    for k in (1, 2, 3):
        add("trans", "%d premises" % k, clause=L(eq(inp("t"), inp("u"))), premises=units(k))
        if k > 1:
            add("eq_transitive", "%d premises" % k, clause=L(*[nt(e) for e in pairs(k)], eq(inp("t"), inp("u"))))
    for n in (1, 2, 3):
        for name, mk in (("application", lambda a: app("h", *a)), ("operation", lambda a: op("Add", *a)), ("parameterised operation", lambda a: variant(TERM, "ParamOp", inp("pop"), L(inp("i0")), L(*a)))):
            e = eq(mk(xs("f", n)), mk(xs("g", n)))
            for k in range(1, n + 1):
                if n < 3 or deep and name == "application":
                    add("cong", "%s of %d, %d premises" % (name, n, k), clause=L(e), premises=units(k))
                if n < 3 and (deep or n == 1 or name == "application" and k < 3):
                    add("eq_congruent", "%s of %d, %d premises" % (name, n, k), clause=L(*[nt(x) for x in pairs(k)], e))
    for k in (1, 2):
        add("cong", "equalities, %d premises" % k, clause=L(eq(eq(inp("f1"), inp("f2")), eq(inp("g1"), inp("g2")))), premises=units(k))
    add("bfun_elim", "any premise", clause=L(inp("got")), premises=L(g("p0", inp("psi"))))
    for k in (1, 2):
        add("forall_inst", "%d variables" % k, clause=L(op("Or", nt(binder("Forall", "q", k)), inp("res"))), args=L(*xs("v", k)))
    add("ite_intro", "one definition", clause=L(eq(inp("t"), op("And", inp("t_"), op("Ite", inp("c0"), eq(inp("p0"), inp("q0")), eq(inp("r0"), inp("t0")))))))
    for rule in ("resolution", "th_resolution"):
        add(rule, "(not true)", clause=L(), premises=L(g("p0", nt(op("True")))))
        add(rule, "an empty premise", clause=L(), premises=L(g("p0", inp("a")), g("p1"), g("p2", inp("b"))))
        add(rule, "pivots given", clause=L(inp("a")), premises=L(g("p0", inp("b")), g("p1", inp("c"))), args=L(inp("d"), op("True")))
        ks = (2, 3)
        for n in (0, 1, 2):
            for k in ks:
                add(rule, "%d literals, %d premises" % (n, k), clause=L(*xs("c", n)), premises=L(*[g("p%d" % i, *xs("l%d." % i, 2)) for i in range(k)]))
        for k in ks:
            add(rule, "a double negation, %d premises" % k, clause=L(nt(nt(inp("c0")))), premises=L(*[g("p%d" % i, *xs("l%d." % i, 2)) for i in range(k)]))
    for n in (1, 2, 3):
        add("subproof", "%d literals" % n, dict(more={"subproof": SPF}), clause=L(*xs("c", n)), previous_step=some(g("p0", inp("d"))), discharge=L(*xs("h", n - 1)))
    return out


def polyeq_forms(deep):
    n = lambda o, v: op(o, op(o, v[0], v[1]), v[2]) if o != "Implies" else op(o, v[0], op(o, v[1], v[2]))
    out = [("applications", app("f", *xs("a", 2)), app("g", *xs("b", 2))), ("operations", op("Add", *xs("a", 2)), op("Add", *xs("b", 2))),
           ("equalities", eq(*xs("a", 2)), eq(*xs("b", 2)))]
    for q in ("Forall", "Exists"):
        for k in (1, 2):
            out.append(("%s of %d variables" % (q, k), binder(q, "a", k), binder(q, "b", k)))
    for k in (1, 2):
        out.append(("let of %d variables" % k, variant(TERM, "Let", bindings("a", k), inp("abody")), variant(TERM, "Let", bindings("b", k), inp("bbody"))))
    for o in ("Sub", "Implies", "And"):
        out.append(("%s and its expansion" % o, op(o, *xs("a", 3)), n(o, xs("b", 3))))
        out.append(("an expansion and its %s" % o, n(o, xs("a", 3)), op(o, *xs("b", 3))))
    lt, pair = op("LessThan", *xs("a", 3)), op("And", op("LessThan", *xs("b", 2)), op("LessThan", *xs("c", 2)))
    out += [("LessThan and its expansion", lt, pair), ("an expansion and its LessThan", pair, lt)]
    return out


def c13(prog, tier):
    viol, n = [], 0
    deep = tier != "quick"
    cov = {"functions": set(), "steps": 0, "paths": 0, "opaque": set(), "not_decided": [], "rules": []}
    fs = forms(prog, deep)

    def attempt(what, f, *a, **k):
        try:
            return f(*a, **k)
        except A.Limit as e:
            cov["not_decided"].append("%s: %s" % (what, str(e)[:200]))
            return 1
    tables = sorted(q for q, b in prog.bodies.items() if b.kind == "fn" and b.file.endswith("elaborator/mod.rs") and "Option<" in b.locals[0] and ("fn(" in b.locals[0] or "ElaborationFunc" in b.locals[0]) and nargs(b) == 1)
    if not tables:
        cov["not_decided"].append("which function elaborates each rule is not decided by functions of the name of the rule")
    seen, todo = set(), []
    for q in tables:
        for rule, steps in sorted(fs.items()):
            rs = {plain(v) for v, _ in EV(prog).run(prog.bodies[q], [("str", rule)], State({}, {}))}
            v = rs.pop() if len(rs) == 1 else None
            if v == NONE:
                continue
            f = v[3][0] if v and v[0] == "E" and v[2] == "Some" else None
            f = f[1] if f and f[0] == "fnptr" else f
            if f is None or f[0] != "fn":
                viol.append(("elab:table:%s" % rule, "%s: the function that elaborates `%s' is not known" % (prog.bodies[q].where(prog.bodies[q].line), rule), None))
                continue
            f = f[1]
            todo.append((f, rule))
            cov["rules"].append("%s: %s" % (rule, f))
    if not tables:
        todo = [(q, r) for r in sorted(fs) for q, b in prog.bodies.items() if b.kind == "fn" and q.startswith("elaborator::") and (q.endswith("::" + r) or r == "th_resolution" and q.endswith("::resolution"))]
    for f, rule in todo:
        for label, kw, opts in fs[rule]:
            if (f, rule, label) not in seen:
                seen.add((f, rule, label))
                n += attempt(label, judge, prog, f, step(prog, **kw), label, viol, cov, **opts)
    missing = sorted(set(["refl", "trans", "eq_transitive", "cong", "eq_congruent", "resolution", "forall_inst", "subproof", "ite_intro", "bfun_elim"]) - {r for _, r in todo})
    cov["not_elaborated"] = missing
    for alpha in (False, True):
        for label, a, b in polyeq_forms(deep):
            n += attempt(label, judge_polyeq, prog, a, b, label + (", up to renaming" if alpha else ""), viol, cov, alpha)
    n += sum(attempt("assume", judge_assume, prog, viol, cov, k) for k in (1, 2)) + attempt("cache", judge_cache, prog, viol, cov) + attempt("mutate", judge_mutate, prog, viol, cov) + attempt("ids", judge_ids, prog, viol, cov) + attempt("dispatch", judge_dispatch, prog, viol, cov)
    cov["functions"] = sorted(cov["functions"])
    cov["opaque"] = sorted(cov["opaque"])
    return finish(viol, cov, n)
