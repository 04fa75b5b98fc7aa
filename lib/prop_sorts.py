"""C11: what the parser builds is well-sorted, and has the sort of its operator."""
import absint as A
import models
from absint import State, num, TRUE, FALSE, UNIT
from models import NONE, some
from typestate import gcell, find_body
from prop_driver import finish, fget, nargs
from prop_print import variant, TERM
from prop_subst import SV, inp, call, struct, elements, callee_of_t
from prop_elab import EV, L, plain, op, show, exact
import prop_elab

SORT, OP, POP = "ast::term::Sort", "ast::term::Operator", "ast::term::ParamOperator"
POOL = gcell("pool")


def sort(n, *xs):
    return variant(SORT, n, *xs)


class SI(EV):
    def __init__(self, prog, over=None, **kw):
        sm = {}
        sm["ast::pool::TermPool::sort"] = lambda I, a, st, b, t, d: [(call("sort of", plain(I.strip(st, a[1]))), st)]
        for q in prog.bodies:
            if q.startswith("<ast::pool::") and q.split("::")[-1] == "sort":
                sm[q] = sm["ast::pool::TermPool::sort"]
        sm["Integer::to_usize"] = to_usize
        map_models(sm)
        sm.update(over or {})
        EV.__init__(self, prog, sm, **kw)
        for k, f in ALSO.items():
            self.summaries[k] = either(f, self.summaries.get(k) or models.MODELS.get(k))
        files = ("parser/error.rs", "parser/mod.rs", "ast/pool/mod.rs", "ast/term.rs", "ast/rc.rs", "ast/macros.rs", "utils.rs")
        self.opaque = lambda p: p in prog.bodies and not prog.bodies[p].file.endswith(files)


# maps with known keys: ("dict", ((key, value), ...))
MAPS = ("IndexMap", "HashMap")


def the_map(I, st, v):
    m = I.deref(st, v)
    return m if m[0] == "dict" else None


def map_new(I, a, st, b, t, d):
    return [(("dict", ()), st)]


def map_entry(I, a, st, b, t, d):
    m = the_map(I, st, a[0])
    if m is None or a[0][0] != "mref":
        return None
    k = plain(I.strip(st, a[1]))
    at = [i for i, (x, _) in enumerate(m[1]) if x == k]
    path = ("indexmap::map::Entry" if "indexmap" in d else "std::collections::hash_map::Entry")
    return [(("E", path, "Occupied" if at else "Vacant", (("entry", a[0], k),)), st)]


def map_set(I, st, ref, k, v):
    m = the_map(I, st, ref)
    i = [i for i, (x, _) in enumerate(m[1]) if x == k]
    new = m[1][:i[0]] + ((k, v),) + m[1][i[0] + 1:] if i else m[1] + ((k, v),)
    s = State(dict(st.store), st.facts)
    I.write(s, ref[1], ref[2], ("dict", new))
    return (some(m[1][i[0]][1]) if i else NONE), s


def entry_get(I, a, st, b, t, d):
    e = I.deref(st, a[0])
    if e[0] != "entry":
        return None
    return [(dict(the_map(I, st, e[1])[1])[e[2]], st)]


def entry_insert(I, a, st, b, t, d):
    e = I.deref(st, a[0])
    if e[0] != "entry":
        return None
    v = plain(I.strip(st, a[1]))
    _, s = map_set(I, st, e[1], e[2], v)
    return [(v, s)]


def entry_or(I, a, st, b, t, d):
    e = I.deref(st, a[0])
    if e[0] != "E" or e[3][0][0] != "entry":
        return None
    e = e[3][0]
    have = dict(the_map(I, st, e[1])[1])
    if e[2] in have:
        return [(have[e[2]], st)]
    vs = [(plain(I.strip(st, a[1])), st)] if a[1][0] != "closure" else I.closure_call(a[1], [], st, b, t, "?")
    return [(v, map_set(I, z, e[1], e[2], plain(v))[1]) for v, z in vs]


def map_get(I, a, st, b, t, d):
    m = the_map(I, st, a[0])
    if m is None:
        return None
    k = plain(I.strip(st, a[1]))
    have = dict(m[1])
    f = callee(t)
    if f == "contains_key":
        return [(TRUE if k in have else FALSE, st)]
    if f == "index":
        return [(have[k], st)] if k in have else []
    return [(some(have[k]) if k in have else NONE, st)]


def map_insert(I, a, st, b, t, d):
    if the_map(I, st, a[0]) is None or a[0][0] != "mref":
        return None
    return [map_set(I, st, a[0], plain(I.strip(st, a[1])), plain(I.strip(st, a[2])))]


def map_iter(I, a, st, b, t, d):
    m = the_map(I, st, a[0])
    return None if m is None else [(("it", ("of", ("list", tuple(("T", x) for x in m[1]))), num(0)), st)]


def map_collect(I, a, st, b, t, d):
    if not any(m in d for m in MAPS):
        return None
    es = elements(I, st, a[0], b, t)
    if es is None:
        return None
    out = []
    for xs, z in es:
        m = {}
        for x in xs:
            x = plain(I.strip(z, x))
            m[x[1][0]] = x[1][1]
        out.append((("dict", tuple(m.items())), z))
    return out


def fold(I, a, st, b, t, d):
    es = elements(I, st, a[0], b, t)
    if es is None:
        return None
    out = []
    for xs, z in es:
        cur = [(a[1], z)]
        for x in xs:
            cur = [q for acc, y in cur for q in I.closure_call(a[2], [acc, x], y, b, t, "?")]
        out += cur
    return out


def callee(t):
    return callee_of_t(t).split("::")[-1]


def map_models(sm):
    for c in MAPS:
        sm[c + "::new"] = sm[c + "::with_capacity"] = map_new
        sm[c + "::entry"] = map_entry
        sm[c + "::insert"] = map_insert
        for f in ("get", "contains_key", "index"):
            sm[c + "::" + f] = map_get
        for f in ("iter", "into_iter", "drain"):
            sm[c + "::" + f] = map_iter
    sm["Iterator::fold"] = fold
    sm["OccupiedEntry::get"] = sm["OccupiedEntry::into_mut"] = sm["OccupiedEntry::get_mut"] = entry_get
    sm["OccupiedEntry::insert"] = sm["VacantEntry::insert"] = entry_insert
    sm["Entry::or_insert"] = sm["Entry::or_insert_with"] = entry_or


ALSO = {"ops::Index::index": map_get, "Index::index": map_get, "IntoIterator::into_iter": map_iter, "Iterator::collect": map_collect, "FromIterator::from_iter": map_collect}


def either(f, old):
    def g(I, a, st, b, t, d):
        r = f(I, a, st, b, t, d)
        return r if r is not None or old is None else old(I, a, st, b, t, d)
    return g


def to_usize(I, a, st, b, t, d):
    v = plain(I.strip(st, a[0]))
    if v[0] == "int":
        return [(some(v) if 0 <= v[1] < FITS else NONE, st)]
    c = ("pred", "fits", (v,))
    return [(r, State(dict(st.store), f)) for want, r in ((True, some(v)), (False, NONE)) for f in I.assume(st.facts, c, want)]


FITS = 2 ** 64
ALWAYS = {("fn", "fits"): lambda v: ("bool", 0 <= v[1] < FITS)}
for _n in ("Ord::max", "cmp::max", "Ord::min", "cmp::min"):
    ALWAYS[("fn", _n)] = (lambda f: lambda a, b: num(f(a[1], b[1])))(max if "max" in _n else min)


# ------------------------------------------------------------------------------------------------ sorts as values
BOOL, INT, REAL, STR, RE, RARE = (sort(x) for x in ("Bool", "Int", "Real", "String", "RegLan", "RareList"))


def bv(n):
    return sort("BitVec", num(n))


def term_of(s):
    return variant(TERM, "Sort", s)


def array(k, v):
    return sort("Array", term_of(k), term_of(v))


def atom(n):
    return sort("Atom", ("str", n), L())


VAR = sort("Var", ("str", "T"))
PBV = sort("ParamSort", L(inp("width")), term_of(sort("Var", ("str", "BitVec"))))
PLAIN = [BOOL, INT, REAL, STR, RE, bv(2), bv(3), array(INT, BOOL), array(BOOL, INT), atom("A"), atom("B")]
POLY = [VAR, PBV]


def poly(s):
    return s[2] == "Var" or s[2] == "ParamSort" and s[3][1][2] == "Sort" and s[3][1][3][0][2] == "Var"


class Unknown(Exception):
    pass


class Absurd(Exception):
    pass


def ev(v, env):
    k = v[0]
    if k == "in":
        if v[1] not in env:
            raise Unknown(v)
        return env[v[1]]
    if k == "fld":
        b = ev(v[1], env)
        if b[0] == "E":
            if b[2] != v[2]:
                raise Absurd()
            return b[3][v[3]]
        if b[0] in ("S", "T"):
            return b[-1][v[3]]
        raise Unknown(v)
    if k == "E":
        return v[:3] + (tuple(ev(x, env) for x in v[3]),)
    if k in ("T", "list"):
        return (k, tuple(ev(x, env) for x in v[1]))
    if k == "S":
        return v[:2] + (tuple(ev(x, env) for x in v[2]),)
    if k == "dict":
        return (k, tuple((ev(x, env), ev(y, env)) for x, y in v[1]))
    if k == "lin":
        t = v[1]
        for x, c in v[2]:
            y = ev(x, env)
            if y[0] != "int":
                raise Unknown(v)
            t += c * y[1]
        return num(t)
    if k in ("int", "bool", "str", "any"):
        return v
    if k == "pred" or k == "call":
        f = env.get(("fn", v[1]))
        if f:
            return f(*[ev(x, env) for x in v[2]])
    if k in ("eq", "not", "and", "isv", "le0", "lt0", "eq0"):
        return ("bool", holds(v, env))
    raise Unknown(v)


def holds(c, env):
    k = c[0]
    if k == "eq":
        return ev(c[1], env) == ev(c[2], env)
    if k == "not":
        return not holds(c[1], env)
    if k == "and":
        return all(holds(x, env) for x in c[1:])
    if k == "isv":
        return ev(c[1], env)[2] == c[2]
    if k in ("le0", "lt0", "eq0"):
        n = ev(c[1], env)
        if n[0] != "int":
            raise Unknown(c)
        return n[1] <= 0 if k == "le0" else n[1] < 0 if k == "lt0" else n[1] == 0
    v = ev(c, env)
    if v[0] == "bool":
        return v[1]
    raise Unknown(c)


def applies(facts, env):
    """does a path with these facts describe this choice of values? None: not known"""
    sure = True
    for k, w in facts.items():
        try:
            if k[0] in ("v", "nv"):
                x = ev(k[1], env)
                if x[0] != "E":
                    raise Unknown(x)
                if (x[2] != w if k[0] == "v" else x[2] in w):
                    return False
            elif k[0] == "b":
                if holds(k[1], env) != w:
                    return False
            else:
                raise Unknown(k)
        except Absurd:
            return False
        except Unknown:
            sure = None
    return sure


# ------------------------------------------------------------------------------------------------ functions taken as predicates
JUDGES = ("parser::error::SortError::assert_eq", "parser::error::SortError::assert_one_of", "ast::term::Sort::is_polymorphic")
KNOWN = {}


def judges(prog):
    """functions that only say yes or no about sorts: one predicate each, whose value on given sorts is what its body yields"""
    over, env = {}, dict(ALWAYS)
    for q in JUDGES:
        body = prog.bodies.get(q)
        if body is None:
            continue
        ret = body.locals[0]

        def f(I, a, st, b, t, d, q=q, ret=ret):
            c = ("pred", q, tuple(plain(I.strip(st, x)) for x in a))
            out = []
            for want in (True, False):
                for fs in I.assume(st.facts, c, want):
                    out.append((judged(ret, want, c), State(dict(st.store), fs)))
            return out

        def g(*xs, q=q, body=body):
            key = (id(prog), q, xs)
            if key not in KNOWN:
                rs = {truth(plain(v)) for v, x in SI(prog).run(body, list(xs), State({}, {}))}
                KNOWN[key] = rs.pop() if len(rs) == 1 else None
            if KNOWN[key] is None:
                raise Unknown(key)
            return ("bool", KNOWN[key])
        over[q] = f
        env[("fn", q)] = g
    return over, env


def truth(v):
    return v[1] if v[0] == "bool" else {"Ok": True, "Err": False}.get(v[2]) if v[0] == "E" else None


def judged(ret, want, c):
    if ret == "bool":
        return ("bool", want)
    return models.ok(UNIT) if want else models.err(("call", "sort error", c[2]))


# ------------------------------------------------------------------------------------------------ the signatures
def same(a, b):
    return a == b or poly(a) or poly(b)


def chain(ss):
    return all(same(a, b) for a, b in zip(ss, ss[1:]))


def each(t, lo, hi=None):
    """lo to hi arguments, all of sort t"""
    return lambda ss, c: len(ss) >= lo and (hi is None or len(ss) <= hi) and all(same(s, t) for s in ss)


def exactly(*ts):
    return lambda ss, c: len(ss) == len(ts) and all(same(s, t) for s, t in zip(ss, ts))


def isbv(s):
    return s[2] == "BitVec" or poly(s)


def isnum(s):
    return s in (INT, REAL) or poly(s)


def bvs(lo, hi=None, alike=True):
    return lambda ss, c: len(ss) >= lo and (hi is None or len(ss) <= hi) and all(isbv(s) for s in ss) and (not alike or chain(ss))


def arith(lo, hi=None, only=None, mixed=False):
    def f(ss, c):
        if len(ss) < lo or hi is not None and len(ss) > hi:
            return False
        if mixed or c["sub"]:
            return all(isnum(s) for s in ss)
        return all(isnum(s) if only is None else same(s, only) for s in ss) and chain(ss)
    return f


def is_array(s, key, value=None):
    if poly(s):
        return True
    if s[2] != "Array":
        return False
    k, v = (x[3][0] for x in s[3])
    return same(k, key) and (value is None or same(v, value))


def first(ss):
    return ss[0]


def num_sort(ss):
    return REAL if REAL in ss else INT


def width(ss):
    return bv(sum(s[3][0][1] for s in ss))


K = lambda s: lambda ss: s
SIG = {"True": (exactly(), K(BOOL)), "False": (exactly(), K(BOOL)), "Not": (exactly(BOOL), K(BOOL)), "Implies": (each(BOOL, 2), K(BOOL)),
       "Equals": (lambda ss, c: len(ss) >= 2 and chain(ss), K(BOOL)), "Distinct": (lambda ss, c: len(ss) >= 2 and chain(ss), K(BOOL)),
       "Ite": (lambda ss, c: len(ss) == 3 and same(ss[0], BOOL) and same(ss[1], ss[2]), lambda ss: ss[1]),
       "Add": (arith(2), num_sort), "Sub": (arith(1), num_sort), "Mult": (arith(2), num_sort), "IntDiv": (each(INT, 2), K(INT)), "RealDiv": (arith(2, only=REAL), K(REAL)),
       "Mod": (exactly(INT, INT), K(INT)), "Abs": (arith(1, 1, only=INT), num_sort), "ToReal": (exactly(INT), K(REAL)), "ToInt": (exactly(REAL), K(INT)), "IsInt": (exactly(REAL), K(BOOL)),
       "Select": (lambda ss, c: len(ss) == 2 and is_array(ss[0], ss[1]), lambda ss: ss[0][3][1][3][0]), "Store": (lambda ss, c: len(ss) == 3 and is_array(ss[0], ss[1], ss[2]), first),
       "StrConcat": (each(STR, 2), K(STR)), "StrLen": (exactly(STR), K(INT)), "StrIsDigit": (exactly(STR), K(BOOL)), "StrToCode": (exactly(STR), K(INT)), "StrToInt": (exactly(STR), K(INT)),
       "StrLessThan": (exactly(STR, STR), K(BOOL)), "StrLessEq": (exactly(STR, STR), K(BOOL)), "PrefixOf": (exactly(STR, STR), K(BOOL)), "SuffixOf": (exactly(STR, STR), K(BOOL)),
       "Contains": (exactly(STR, STR), K(BOOL)), "ReRange": (exactly(STR, STR), K(RE)), "CharAt": (exactly(STR, INT), K(STR)), "Substring": (exactly(STR, INT, INT), K(STR)),
       "IndexOf": (exactly(STR, STR, INT), K(INT)), "Replace": (exactly(STR, STR, STR), K(STR)), "ReplaceAll": (exactly(STR, STR, STR), K(STR)), "StrFromCode": (exactly(INT), K(STR)),
       "StrFromInt": (exactly(INT), K(STR)), "StrToRe": (exactly(STR), K(RE)), "StrInRe": (exactly(STR, RE), K(BOOL)), "ReplaceRe": (exactly(STR, RE, STR), K(STR)),
       "ReplaceReAll": (exactly(STR, RE, STR), K(STR)), "BvNot": (bvs(1, 1), first), "BvNeg": (bvs(1, 1), first), "BvBbTerm": (each(BOOL, 1), lambda ss: bv(len(ss))),
       "BvPBbTerm": (each(INT, 1), lambda ss: bv(len(ss))), "BvConst": (exactly(INT, INT), None), "BvConcat": (bvs(2, alike=False), width), "Delete": (exactly(BOOL), K(BOOL)),
       "Cl": (lambda ss, c: True, K(BOOL)), "RareList": (lambda ss, c: chain(ss), K(RARE)), "Pow2": (exactly(INT), K(INT)), "Log2": (exactly(INT), K(INT)), "IsPow2": (exactly(INT), K(BOOL)),
       "BvComp": (bvs(2, 2), K(bv(1)))}
for o in ("And", "Or", "Xor"):
    SIG[o] = (lambda ss, c: len(ss) >= (2 if c["strict"] else 1) and all(same(s, BOOL) for s in ss), K(BOOL))
for o in ("LessThan", "GreaterThan", "LessEq", "GreaterEq"):
    SIG[o] = (arith(2, mixed=True), K(BOOL))
for o in ("ReNone", "ReAll", "ReAllChar"):
    SIG[o] = (exactly(), K(RE))
for o in ("ReConcat", "ReUnion", "ReIntersection", "ReDiff"):
    SIG[o] = (each(RE, 2), K(RE))
for o in ("ReKleeneClosure", "ReComplement", "ReKleeneCross", "ReOption"):
    SIG[o] = (exactly(RE), K(RE))
for o in ("BvSize", "UBvToInt", "SBvToInt"):
    SIG[o] = (bvs(1, 1), K(INT))
for o in ("BvAdd", "BvMul", "BvAnd", "BvOr", "BvXor"):
    SIG[o] = (bvs(2), first)
for o in ("BvUDiv", "BvURem", "BvShl", "BvLShr", "BvNAnd", "BvNOr", "BvXNor", "BvSub", "BvSDiv", "BvSRem", "BvSMod", "BvAShr"):
    SIG[o] = (bvs(2, 2), first)
for o in ("BvULt", "BvULe", "BvUGt", "BvUGe", "BvSLt", "BvSLe", "BvSGt", "BvSGe"):
    SIG[o] = (bvs(2, 2), K(BOOL))


def tuples(k, deep):
    """the sorts tried for k arguments"""
    import itertools
    if k <= 2 or deep and k == 3:
        return list(itertools.product(PLAIN + POLY, repeat=k))
    out = set(itertools.product([BOOL, INT, REAL, STR, RE, bv(2), array(INT, BOOL)], repeat=k)) if k == 3 else set()
    # one argument differs from the others
    for s in PLAIN + POLY:
        for t in PLAIN + POLY:
            for i in range(k):
                out.add((s,) * i + (t,) + (s,) * (k - i - 1))
    if k == 3:
        out |= {(a, x, y) for a in PLAIN if a[2] == "Array" for x in PLAIN + POLY for y in PLAIN + POLY}
    return sorted(out)


def parser_self(prog, **cfg):
    c = [a for a in prog.adts if a.endswith("parser::Config")][0]
    return struct(prog, "parser::Parser", pool=("mref", POOL, ()), config=struct(prog, c, **{k: ("bool", v) for k, v in cfg.items()}))


def sorts_given(prog, f):
    over = dict(judges(prog)[0])
    over["ast::pool::TermPool::sort"] = f
    for q in prog.bodies:
        if q.startswith("<ast::pool::") and q.split("::")[-1] == "sort":
            over[q] = f
    return over


def run_make_op(prog, o, k, strict, sub):
    body = find_body(prog, "Parser::<'a, R>::make_op")
    args = [inp("a%d" % i) for i in range(k)]

    def srt(I, a, st, b, t, d):
        x = plain(I.strip(st, a[1]))
        return [(term_of(inp("s%d" % args.index(x))), st)] if x in args else None
    I = SI(prog, sorts_given(prog, srt))
    me = ("cell", "me")
    rs = I.run(body, [("mref", me, ()), variant(OP, o), L(*args)], State({me: parser_self(prog, strict=strict, allow_int_real_subtyping=sub), POOL: inp("pool")}, {}))
    return body, I, [(plain(v), x) for v, x in rs], variant(TERM, "Op", variant(OP, o), L(*args))


def sname(s):
    if s[2] in ("BitVec",):
        return "(_ BitVec %s)" % s[3][0][1]
    if s[2] == "Array":
        return "(Array %s)" % " ".join(sname(x[3][0]) for x in s[3])
    if s[2] in ("Atom", "Var"):
        return s[3][0][1]
    if s[2] == "ParamSort":
        return "(BitVec w)"
    return s[2]


def check_op(prog, o, deep, viol, cov):
    n = 0
    says = judges(prog)[1]
    for k in range(0, 6 if deep else 5):
        for strict, sub in ((False, False), (True, True)) if not deep else ((False, False), (True, False), (False, True), (True, True)):
            body, I, rs, want = run_make_op(prog, o, k, strict, sub)
            cov["functions"].add(body.path)
            c = {"strict": strict, "sub": sub}
            bad = set()
            opaque = [u for u in I.unmodelled if "panic" not in u]
            for ss in tuples(k, deep):
                env = {**{"s%d" % i: s for i, s in enumerate(ss)}, **says}
                good, vague = SIG[o][0](ss, c), any(map(poly, ss))
                hit = [(v, applies(x.facts, env)) for v, x in rs]
                hit = [(v, h) for v, h in hit if h is not False]
                n += 1
                sure = all(h for _, h in hit) and not opaque
                msg = None
                if not hit:
                    msg = "crash" if not opaque else None
                for v, h in hit:
                    okv = v[2] == "Ok"
                    if okv and not good and sure and not vague:
                        msg = "accepted"
                    if not okv and good and sure and not vague:
                        msg = "rejected"
                    if okv and v[3][0] != want and not (o == "RealDiv" and k == 2):
                        msg = "becomes %s" % show(v[3][0])[:100]
                if hit and not sure and not (o == "RealDiv" and len({v[2] for v, _ in hit}) == 1):
                    open_(cov, 0)
                if msg and msg not in bad:
                    bad.add(msg)
                    viol.append(("sorts:%s:%s" % (o, msg.split()[0]), "%s: an application of %s to %d arguments of sorts [%s] (%s, %s) %s" % (
                        body.where(body.line), o, k, " ".join(map(sname, ss)), "strict parsing" if strict else "not strict", "Int is a subtype of Real" if sub else "no subtyping",
                        {"crash": "makes the parser crash", "accepted": "is accepted, but it is ill-sorted", "rejected": "is rejected, but it is well-sorted"}.get(msg, msg)), None))
            for u in opaque:
                cov["opaque"].add(u)
    return n


# ------------------------------------------------------------------------------------------------ indexed and qualified operators, applications
def integer(n):
    return variant(TERM, "Const", variant("ast::term::Constant", "Integer", num(n)))


HUGE = 2 ** 70
NAT = lambda i: i >= 0


def one_bv(test, width):
    """indexed operators on one bitvector: the indices are fine, and the width of the result"""
    return lambda ix, ss: bv(width(ix, ss[0][3][0][1])) if len(ss) == 1 and ss[0][2] == "BitVec" and test(ix, ss[0][3][0][1]) else None


def one(t, n, r, test=lambda ix: all(map(NAT, ix))):
    return lambda ix, ss: (r(ix) if callable(r) else r) if len(ix) == n and ss == (t,) and test(ix) else None


# indices and sorts -> the sort of the application, None when it is ill-sorted
PSIG = {"BvConst": lambda ix, ss: bv(ix[1]) if len(ix) == 2 and not ss and ix[0] >= 0 and 1 <= ix[1] < FITS else None,
        "BvExtract": one_bv(lambda ix, m: len(ix) == 2 and m > ix[0] >= ix[1] >= 0, lambda ix, m: ix[0] - ix[1] + 1),
        "ZeroExtend": one_bv(lambda ix, m: len(ix) == 1 and 0 <= ix[0] < FITS - m, lambda ix, m: ix[0] + m),
        "RotateLeft": one_bv(lambda ix, m: len(ix) == 1 and ix[0] >= 0, lambda ix, m: m),
        "Repeat": one_bv(lambda ix, m: len(ix) == 1 and 1 <= ix[0] and ix[0] * m < FITS, lambda ix, m: ix[0] * m),
        "IntToBv": one(INT, 1, lambda ix: bv(ix[0]), lambda ix: 1 <= ix[0] < FITS),
        "BvBitOf": lambda ix, ss: BOOL if len(ix) == 1 and ix[0] >= 0 and len(ss) == 1 and ss[0][2] == "BitVec" else None,
        "BvIntOf": lambda ix, ss: INT if len(ix) == 1 and ix[0] >= 0 and len(ss) == 1 and ss[0][2] == "BitVec" else None,
        "RePower": one(RE, 1, RE), "ReLoop": one(RE, 2, RE), "ArrayConst": lambda ix, ss: None}
PSIG["SignExtend"] = PSIG["ZeroExtend"]
PSIG["RotateRight"] = PSIG["RotateLeft"]


def given_sorts(args, sorts):
    def srt(I, a, st, b, t, d):
        x = plain(I.strip(st, a[1]))
        return [(term_of(sorts[args.index(x)]), st)] if x in args else None
    return srt


def open_(cov, why):
    cov["undecided"] += 1
    cov.setdefault("why", {}).setdefault(str(why)[:300], 0)


def judge(viol, cov, key, where, what, rs, env, good, want, opaque, vague=False):
    """one choice of sorts: what the paths that apply return against the signature"""
    hit = [(v, applies(x.facts, env)) for v, x in rs]
    hit = [(v, h) for v, h in hit if h is not False]
    sure = all(h for _, h in hit) and not opaque
    msg = None
    if not hit:
        msg = "crash"
    for v, h in hit:
        okv = v[2] == "Ok"
        if okv and not good and sure and not vague:
            msg = "accepted"
        if not okv and good and sure and not vague:
            msg = "rejected"
        if okv and good and want is not None and v[3][0] not in want:
            msg = "becomes %s" % show(v[3][0])[:100]
    if hit and not sure:
        open_(cov, 0)
    if msg:
        k = "sorts:%s:%s" % (key, msg.split()[0])
        if not any(x[0] == k for x in viol):
            viol.append((k, "%s: %s %s" % (where, what, {
                "crash": "makes the parser crash", "accepted": "is accepted, but it is ill-sorted", "rejected": "is rejected, but it is well-sorted"}.get(msg, msg)), None))


def nones(I):
    return [u for u in I.unmodelled if "panic" not in u]


def check_indexed(prog, deep, viol, cov):
    import itertools
    body = find_body(prog, "Parser::<'a, R>::make_indexed_op")
    cov["functions"].add(body.path)
    says = judges(prog)[1]
    n = 0
    small = [-1, 0, 1, 2, 3, HUGE] + ([4, -HUGE] if deep else [])
    for p in [v["n"] for v in prog.adts[POP]["variants"]]:
        for k, m in itertools.product(range(0, 3), range(1, 4)):
            if k == 2 and m == 3:
                continue
            for ix in itertools.product(small, repeat=m) if m < 3 else [(1, 1, 1)]:
                args, ins = [inp("a%d" % i) for i in range(k)], [inp("s%d" % i) for i in range(k)]
                I = SI(prog, sorts_given(prog, given_sorts(args, ins)))
                me = ("cell", "me")
                opv = variant(POP, p)
                ixs = L(*map(integer, ix))
                rs = [(plain(v), x) for v, x in I.run(body, [("mref", me, ()), opv, ixs, L(*args)], State({me: parser_self(prog), POOL: inp("pool")}, {}))]
                want = [variant(TERM, "Const", variant("ast::term::Constant", "BitVec", num(ix[0]), num(ix[1])))] if p == "BvConst" and m == 2 else [variant(TERM, "ParamOp", opv, ixs, L(*args))]
                cov["opaque"] |= set(nones(I))
                for ss in tuples(k, False):
                    if any(map(poly, ss)):
                        continue
                    n += 1
                    judge(viol, cov, p, body.where(body.line), "((_ %s %s) ...) applied to %d arguments of sorts [%s]" % (p, " ".join(map(str, ix)), k, " ".join(map(sname, ss))),
                          rs, {**says, **{"s%d" % i: s for i, s in enumerate(ss)}}, PSIG[p](ix, ss) is not None, want, nones(I))
    return n


def check_qualified(prog, deep, viol, cov):
    body = find_body(prog, "Parser::<'a, R>::make_qualified_op")
    cov["functions"].add(body.path)
    says = judges(prog)[1]
    n = 0
    for p in [v["n"] for v in prog.adts[POP]["variants"]]:
        for k in range(0, 3):
            args, ins = [inp("a%d" % i) for i in range(k)], [inp("s%d" % i) for i in range(k)]
            I = SI(prog, sorts_given(prog, given_sorts(args, ins)))
            me, opv, to = ("cell", "me"), variant(POP, p), term_of(inp("as"))
            rs = [(plain(v), x) for v, x in I.run(body, [("mref", me, ()), opv, to, L(*args)], State({me: parser_self(prog), POOL: inp("pool")}, {}))]
            cov["opaque"] |= set(nones(I))
            for ss in tuples(k, False):
                for q in PLAIN:
                    if any(map(poly, ss)):
                        continue
                    n += 1
                    good = p == "ArrayConst" and k == 1 and q[2] == "Array" and q[3][1] == term_of(ss[0])
                    judge(viol, cov, p + ":as", body.where(body.line), "((as %s %s) ...) applied to %d arguments of sorts [%s]" % (p, sname(q), k, " ".join(map(sname, ss))),
                          rs, {**says, "as": q, **{"s%d" % i: s for i, s in enumerate(ss)}}, good, [variant(TERM, "ParamOp", opv, L(to), L(*args))], nones(I))
    return n


def function(*ss):
    return sort("Function", L(*map(term_of, ss)))


def match(p, s, m):
    """the sort parameters of p can be chosen so that it is s"""
    if p[2] == "Var":
        return m.setdefault(p, s) == s
    if p[0] != "E" or p[2] != s[2]:
        return False
    if p[2] in ("Array", "Function", "Atom"):
        ps, ss = ([x[3][0] for x in (v[3] if v[2] == "Array" else v[3][-1][1])] for v in (p, s))
        return (p[2] != "Atom" or p[3][0] == s[3][0]) and len(ps) == len(ss) and all(match(x, y, m) for x, y in zip(ps, ss))
    return p == s


def put(p, m):
    if p[2] == "Var":
        return m.get(p, p)
    if p[2] == "Array":
        return array(*(put(x[3][0], m) for x in p[3]))
    return p


PAR = [sort("Var", ("str", "T")), array(INT, sort("Var", ("str", "T"))), INT, sort("Var", ("str", "U"))]


def check_app(prog, deep, viol, cov):
    import itertools
    body = find_body(prog, "Parser::<'a, R>::make_app")
    cov["functions"].add(body.path)
    says = judges(prog)[1]
    n = 0
    fun = inp("f")
    me = ("cell", "me")

    def run(fs, k):
        args, ins = [inp("a%d" % i) for i in range(k)], [inp("s%d" % i) for i in range(k)]
        I = SI(prog, sorts_given(prog, given_sorts([fun] + args, [fs] + ins)))
        rs = [(plain(v), x) for v, x in I.run(body, [("mref", me, ()), fun, L(*args)], State({me: parser_self(prog), POOL: inp("pool")}, {}))]
        cov["opaque"] |= set(nones(I))
        return I, rs, variant(TERM, "App", fun, L(*args))
    few = [INT, BOOL, array(INT, BOOL), atom("A")]
    # not a function
    for fs in PLAIN:
        I, rs, want = run(fs, 1)
        n += 1
        judge(viol, cov, "App", body.where(body.line), "a term of sort %s applied to an argument" % sname(fs), rs, {**says, "s0": INT}, False, [want], nones(I))
    for m, k in itertools.product(range(1, 4), range(0, 4)):
        ps = [inp("p%d" % i) for i in range(m)]
        I, rs, want = run(function(*ps, inp("r")), k)
        for dom in itertools.product(few, repeat=m) if m == k else [(INT,) * m, (BOOL,) * m]:
            for ss in itertools.product(few, repeat=k):
                n += 1
                judge(viol, cov, "App", body.where(body.line), "a function of sort (-> %s Int) applied to %d arguments of sorts [%s]" % (" ".join(map(sname, dom)), k, " ".join(map(sname, ss))), rs,
                      {**says, "r": INT, **{"p%d" % i: s for i, s in enumerate(dom)}, **{"s%d" % i: s for i, s in enumerate(ss)}}, dom == ss, [want], nones(I))
    return n


def check_param(prog, deep, viol, cov):
    """functions with sort parameters"""
    import itertools
    body = find_body(prog, "Parser::<'a, R>::make_app")
    says = judges(prog)[1]
    n = 0
    fun, me = inp("f"), ("cell", "me")
    few = [INT, BOOL, array(INT, BOOL), array(INT, INT), array(BOOL, INT)]
    for m, k in itertools.product(range(1, 3), range(0, 4)):
        for ps in itertools.product(PAR, repeat=m):
            args, ins = [inp("a%d" % i) for i in range(k)], [inp("s%d" % i) for i in range(k)]
            fs = sort("ParamSort", L(), term_of(function(*ps, PAR[0])))
            I = SI(prog, sorts_given(prog, given_sorts([fun] + args, [fs] + ins)))
            rs = [(plain(v), x) for v, x in I.run(body, [("mref", me, ()), fun, L(*args)], State({me: parser_self(prog), POOL: inp("pool")}, {}))]
            cov["opaque"] |= set(nones(I))
            for ss in itertools.product(few, repeat=k):
                n += 1
                b = {}
                judge(viol, cov, "App:par", body.where(body.line), "a function of sort (-> %s T) with the sort parameters T and U applied to %d arguments of sorts [%s]" % (
                    " ".join(map(sname, ps)), k, " ".join(map(sname, ss))), rs, {**says, **{"s%d" % i: s for i, s in enumerate(ss)}},
                    m == k and all(match(p, s, b) for p, s in zip(ps, ss)), [variant(TERM, "App", fun, L(*args))], nones(I))
    return n


# ------------------------------------------------------------------------------------------------ the sort of a term
def run_sort(prog, term, subs):
    """PrimitivePool::compute_sort of a term, the sorts of its subterms being given: (body, interpreter, [(sort, state)])"""
    body = find_body(prog, "PrimitivePool::compute_sort")
    args, sorts = zip(*subs) if subs else ((), ())

    def srt(I, a, st, b, t, d):
        x = plain(I.strip(st, a[1]))
        return [(term_of(sorts[args.index(x)]), st)] if x in args else None
    sm = sorts_given(prog, srt)
    sm[body.path] = srt
    sm["ast::pool::storage::Storage::add"] = lambda I, a, st, b, t, d: [(plain(I.strip(st, a[1])), st)]
    for f, g in (("new", lambda I, a, st, b, t, d: [(models.ok(("subst", plain(I.strip(st, a[-1])))), st)]), ("apply", substituted)):
        for q in prog.bodies:
            if q.endswith("ast::substitution::Substitution::" + f) and prog.bodies[q].kind == "fn":
                sm[q] = g
    I = SI(prog, sm)
    me = ("cell", "prim")
    pool = struct(prog, "ast::pool::PrimitivePool", sorts_cache=("dict", ()))
    return body, I, [(plain(v), x, x.store.get(me)) for v, x in I.run(body, [("mref", me, ()), term], State({me: pool}, {}))]


def substituted(I, a, st, b, t, d):
    m = I.deref(st, a[0])
    if m[0] != "subst" or m[1][0] != "dict":
        return None
    return [(call("put", m[1], plain(I.strip(st, a[2]))), st)]


def do_put(m, t):
    return term_of(put(t[3][0], {a[3][0]: b[3][0] for a, b in m[1]})) if t[2] == "Sort" else ("any",)


def judge_sort(prog, viol, cov, key, term, subs, choices, shown):
    """choices: [(env, the sort expected)]"""
    body, I, rs = run_sort(prog, term, subs)
    cov["functions"].add(body.path)
    cov["opaque"] |= set(nones(I))
    n = 0
    says = {**judges(prog)[1], ("fn", "put"): do_put}
    cached = fget_index(prog)
    for env, want in choices:
        n += 1
        e = {**says, **env}
        hit = [(v, x, p, applies(x.facts, e)) for v, x, p in rs]
        hit = [h for h in hit if h[3] is not False]
        msg = None if hit else "makes the program panic"
        if hit and not all(h[3] for h in hit):
            open_(cov, (key, [h[1].facts for h in hit if not h[3]]))
        for v, x, p, sure in hit:
            try:
                got = ev(v, e)
            except (Unknown, Absurd) as u:
                open_(cov, (key, u))
                continue
            if not sure:
                continue
            if got != term_of(want):
                msg = "is given the sort %s, but has the sort %s" % (sname(got[3][0]) if got[0] == "E" and got[3][0][0] == "E" else show(got), sname(want))
            memo = p[2][cached] if p and p[0] == "S" else None
            if memo is None or memo[0] != "dict":
                open_(cov, (key, "memo"))
            else:
                for k, w in memo[1]:
                    if k == term and ev(w, e) != term_of(want):
                        msg = "is remembered with the sort %s" % show(ev(w, e))
                    if k != term and k not in [a for a, _ in subs]:
                        msg = "changes the sort remembered for %s" % show(k)[:60]
        if msg and not any(x[0] == "sort:" + key for x in viol):
            viol.append(("sort:" + key, "%s: %s %s" % (body.where(body.line), shown(env), msg), None))
    return n


def fget_index(prog):
    return [f["n"] for f in prog.adts["ast::pool::PrimitivePool"]["variants"][0]["fields"]].index("sorts_cache")


def check_sort(prog, deep, viol, cov):
    import itertools
    n = 0
    for o in [v["n"] for v in prog.adts[OP]["variants"]]:
        for k in range(0, 5):
            args = [inp("a%d" % i) for i in range(k)]
            subs = [(a, inp("s%d" % i)) for i, a in enumerate(args)]
            ch = []
            for ss in tuples(k, deep):
                if any(map(poly, ss)):
                    continue
                if SIG[o][0](ss, {"strict": False, "sub": True}) or SIG[o][0](ss, {"strict": False, "sub": False}):
                    env = {"s%d" % i: s for i, s in enumerate(ss)}
                    if o == "BvConst":
                        env["a1"] = integer(5)
                        ch.append((env, bv(5)))
                    else:
                        ch.append((env, SIG[o][1](ss)))
            if ch:
                term = variant(TERM, "Op", variant(OP, o), L(*args))
                n += judge_sort(prog, viol, cov, o, term, subs, ch, lambda env: "%s applied to arguments of sorts [%s]" % (o, " ".join(sname(env["s%d" % i]) for i in range(k))))
    small = [0, 1, 2, 3]
    for p in [v["n"] for v in prog.adts[POP]["variants"]]:
        for k, m in itertools.product(range(0, 2), range(1, 3)):
            for ix in itertools.product(small, repeat=m):
                args = [inp("a%d" % i) for i in range(k)]
                ch = []
                for ss in tuples(k, False):
                    if not any(map(poly, ss)) and p != "BvConst" and PSIG[p](ix, ss) is not None:
                        ch.append(({"s%d" % i: s for i, s in enumerate(ss)}, PSIG[p](ix, ss)))
                if ch:
                    term = variant(TERM, "ParamOp", variant(POP, p), L(*map(integer, ix)), L(*args))
                    n += judge_sort(prog, viol, cov, p, term, [(a, inp("s%d" % i)) for i, a in enumerate(args)], ch,
                                    lambda env: "((_ %s %s) ...) applied to arguments of sorts [%s]" % (p, " ".join(map(str, ix)), " ".join(sname(env["s%d" % i]) for i in range(k))))
    # other terms
    t, u, f = inp("t"), inp("u"), inp("f")
    some_sorts = [INT, BOOL, array(INT, BOOL), atom("A"), bv(3)]
    C = "ast::term::Constant"
    x = lambda i, s: ("T", (("str", "x%d" % i), term_of(s)))
    s0, s1, r = inp("s0"), inp("s1"), inp("r")
    forms = [("array", variant(TERM, "ParamOp", variant(POP, "ArrayConst"), L(term_of(s0)), L(t)), [(t, s1)], lambda e: e["s0"]),
             ("Const", variant(TERM, "Const", variant(C, "Integer", inp("v"))), [], lambda e: INT), ("Const", variant(TERM, "Const", variant(C, "Real", inp("v"))), [], lambda e: REAL),
             ("Const", variant(TERM, "Const", variant(C, "String", inp("v"))), [], lambda e: STR), ("Const", variant(TERM, "Const", variant(C, "BitVec", inp("v"), num(7))), [], lambda e: bv(7)),
             ("Var", variant(TERM, "Var", inp("v"), term_of(s0)), [], lambda e: e["s0"]),
             ("App", variant(TERM, "App", f, L(t)), [(f, function(s0, r)), (t, s0)], lambda e: e["r"]),
             ("App", variant(TERM, "App", f, L(t, u)), [(f, function(s0, s1, r)), (t, s0), (u, s1)], lambda e: e["r"]),
             ("Sort", variant(TERM, "Sort", s0), [], lambda e: sort("Type")),
             ("Let", variant(TERM, "Let", L(x(0, s0)), t), [(t, s1)], lambda e: e["s1"]),
             ("Choice", variant(TERM, "Binder", variant("ast::term::Binder", "Choice"), L(x(0, s0)), t), [(t, BOOL)], lambda e: e["s0"]),
             ("Lambda", variant(TERM, "Binder", variant("ast::term::Binder", "Lambda"), L(x(0, s0)), t), [(t, s1)], lambda e: function(e["s0"], e["s1"])),
             ("Lambda", variant(TERM, "Binder", variant("ast::term::Binder", "Lambda"), L(x(0, s0), x(1, s1)), t), [(t, r)], lambda e: function(e["s0"], e["s1"], e["r"]))]
    for q in ("Forall", "Exists"):
        forms.append((q, variant(TERM, "Binder", variant("ast::term::Binder", q), L(x(0, s0)), t), [(t, BOOL)], lambda e: BOOL))
    T, U = PAR[0], PAR[3]
    for ps, res, inst in (((T,), T, lambda e: e["s0"]), ((T, U), U, lambda e: e["s1"]), ((T, U), array(U, T), lambda e: array(e["s1"], e["s0"])), ((INT, T), array(INT, T), lambda e: array(INT, e["s1"]) if e["s0"] == INT else None)):
        fs = sort("ParamSort", L(), term_of(function(*ps, res)))
        forms.append(("App:par", variant(TERM, "App", f, L(*(t, u)[:len(ps)])), [(f, fs), (t, s0), (u, s1)], inst))
    for key, term, subs, want in forms:
        envs = [{"s0": a, "s1": b, "r": c} for a in some_sorts for b in some_sorts for c in some_sorts[:3]]
        ch = [(e, want(e)) for e in envs if want(e) is not None]
        n += judge_sort(prog, viol, cov, key, term, subs, ch, lambda env, term=term: "%s (sorts %s)" % (show(term)[:80], " ".join("%s=%s" % (k, sname(v)) for k, v in sorted(env.items()) if k in ("s0", "s1", "r"))))
    return n


# ------------------------------------------------------------------------------------------------ the pools
PP, CP, LP = "ast::pool::PrimitivePool", "ast::pool::advanced::ContextPool", "ast::pool::advanced::LocalPool"


def pool_of(prog, kind, at, t, s):
    """a pool of a kind that has the term t, of sort s, at one of its levels"""
    def prim(has):
        return struct(prog, PP, storage=("dict", ((t, t),) if has else ()), sorts_cache=("dict", ((t, s),) if has else ()))
    if kind == PP:
        return prim(at == "own")
    ctx = struct(prog, CP, global_pool=prim(at == "global"), inner=prim(at == "context"))
    return ctx if kind == CP else struct(prog, LP, ctx_pool=ctx, inner=prim(at == "own"))


def pool_models(prog):
    sm = {}

    def get(I, a, st, b, t, d):
        return map_get(I, a, st, b, {"fn": None}, d)
    for q, body in prog.bodies.items():
        if q.startswith("ast::pool::storage::Storage::") and body.kind == "fn" and q.split("::")[-1] == "get":
            sm[q] = lambda I, a, st, b, t, d: [(some(dict(the_map(I, st, a[0])[1])[plain(I.strip(st, a[1]))]) if plain(I.strip(st, a[1])) in dict(the_map(I, st, a[0])[1]) else NONE, st)]
    same_ = lambda I, a, st, b, t, d: [(models.ok(a[0]), st)]
    for f in ("read", "write"):
        sm["RwLock::" + f] = sm["sync::RwLock::" + f] = same_
    return sm


def check_pools(prog, deep, viol, cov):
    n = 0
    t, s = inp("t"), inp("sort")
    for kind, levels in ((PP, ("own",)), (CP, ("global", "context")), (LP, ("global", "context", "own"))):
        bs = [b for q, b in prog.bodies.items() if q.startswith("<%s as " % kind) and q.endswith("::sort")]
        if len(bs) != 1:
            raise RuntimeError("TermPool::sort of %s not found" % kind)
        body = bs[0]
        cov["functions"].add(body.path)
        for at in levels:
            n += 1
            I = SI(prog, pool_models(prog))
            for q in list(I.summaries):
                if q.startswith("<ast::pool::") and q.split("::")[-1] == "sort" or q == "ast::pool::TermPool::sort":
                    del I.summaries[q]
            I.opaque = lambda p: p in prog.bodies and not prog.bodies[p].file.endswith(("ast/pool/mod.rs", "ast/pool/advanced.rs", "ast/rc.rs"))
            me = ("cell", "me")
            rs = {plain(v) for v, x in I.run(body, [("mref", me, ()), t], State({me: pool_of(prog, kind, at, t, s)}, {}))}
            cov["opaque"] |= set(nones(I))
            if nones(I):
                open_(cov, (kind, nones(I)))
            elif rs != {s}:
                k = "pool:%s:%s" % (kind.split("::")[-1], at)
                viol.append((k, "%s: the sort that %s gives for a term %s is %s, not the sort of the term" % (
                    body.where(body.line), kind.split("::")[-1], {"own": "of its own", "context": "of the context pool", "global": "of the global pool"}[at],
                    "missing (it panics)" if not rs else " or ".join("the term itself" if r == t else show(r) for r in rs)), None))
    return n


# ------------------------------------------------------------------------------------------------ where a sort is required
COUNT = gcell("reads")
SELF = ("cell", "me")
FEW = [BOOL, INT, atom("A"), bv(2)]


def reading(name):
    """a method that reads input: fresh values, of the shape the method returns"""
    def f(I, a, st, b, t, d):
        s = State(dict(st.store), st.facts)
        done = s.store.get(COUNT, L())[1]
        i = "#%d" % len(done)
        so = term_of(inp("S" + i))
        v = {"parse_sort": so, "parse_sorted_var": ("T", (inp("x" + i), so)), "parse_term": inp("t" + i), "parse_application": inp("t" + i), "expect_token": UNIT,
             "parse_function_dec": ("T", (inp("f" + i), L(("T", (inp("p" + i), term_of(inp("P" + i))))), so))}.get(name, inp("r" + i))
        s.store[COUNT] = L(*(done + (v,)))
        me = s.store.get(SELF)
        if me is not None and me[0] == "S":  # the reader is at another token
            at = [f["n"] for f in I.p.adts[me[1]]["variants"][0]["fields"]].index("current_token")
            s.store[SELF] = ("S", me[1], me[2][:at] + (inp("token" + i),) + me[2][at + 1:])
        return [(models.ok(v), s), (models.err(("any",)), st.copy())] if "Result" in d else [(v, s)]
    return f


def sequence(I, a, st, b, t, d):
    """two elements are read"""
    cur = [((), st)]
    err = []
    for _ in range(2):
        nxt = []
        for xs, y in cur:
            for r, z in I.closure_call(a[1], [a[0]], y, b, t, "std::result::Result<?, Error>"):
                for vn, u, q in models.split(I, z, r, ["Ok", "Err"]):
                    if vn == "Ok":
                        nxt.append((xs + (plain(I.strip(q, models.payload(I, q, u, vn))),), q))
                    else:
                        err.append((models.err(("any",)), q))
        cur = nxt
    return [(models.ok(L(*xs)), y) for xs, y in cur] + err


def run_reader(prog, name, args, follow=(), more=None, strict=False):
    from prop_parser import reads_input, method
    body = method(prog, name)

    def srt(I, a, st, b, t, d):
        x = plain(I.strip(st, a[1]))
        return [(term_of(inp("sort:" + x[1])), st)] if x[0] == "in" and x[1].startswith("t#") else [(call("sort of", x), st)]
    sm = sorts_given(prog, srt)
    for p in reads_input(prog):
        n = p.split("::")[-1]
        if p != body.path and n not in ("parse_term_expecting_sort",) + tuple(follow):
            sm[p] = sequence if n == "parse_sequence" else reading(n)
    sm.update(more or {})
    I = SI(prog, sm)
    me = SELF
    cfg = {f["n"]: strict for f in prog.adts[[a for a in prog.adts if a.endswith("parser::Config")][0]]["variants"][0]["fields"]}
    rs = I.run(body, [("mref", me, ())] + list(args), State({me: parser_self(prog, **cfg), POOL: inp("pool")}, {}))
    return body, I, [(plain(v), x) for v, x in rs]


def needs(prog, viol, cov, name, what, args, pairs, follow=(), more=None, strict=False):
    """on every accepting path the two sorts of each pair are the same"""
    import itertools
    body, I, rs = run_reader(prog, name, args, follow, more, strict)
    cov["functions"].add(body.path)
    says = judges(prog)[1]
    n = 0
    for v, x in rs:
        if v[0] == "E" and v[2] == "Err":
            continue
        try:
            ps = pairs(v[3][0] if v[0] == "E" and v[2] == "Ok" else v, x)
        except (IndexError, KeyError, TypeError, ValueError):
            open_(cov, (name, show(v)[:200]))
            continue
        for got, want in ps:
            ins = sorted({q[1] for q in subvals(("T", (got, want))) if q[0] == "in"})
            for vals in itertools.product(FEW, repeat=len(ins)):
                env = {**says, **dict(zip(ins, vals))}
                n += 1
                try:
                    g, w = ev(got, env), ev(want, env)
                except (Unknown, Absurd):
                    open_(cov, (name, "sort", got))
                    continue
                if g != w and applies(x.facts, env) is not False:
                    k = "need:%s:%s" % (name, what)
                    if not any(y[0] == k for y in viol):
                        viol.append((k, "%s: %s is accepted although its sort is %s, where %s is required" % (body.where(body.line), what, sname(g[3][0]), sname(w[3][0])), None))
    if not n:
        raise RuntimeError("%s: where %s is accepted was not found" % (body.path, what))
    return n


def subvals(v):
    if isinstance(v, tuple):
        if v and isinstance(v[0], str):
            yield v
        for x in v:
            for y in subvals(x):
                yield y


def read(x):
    return x.store.get(COUNT, L())[1]


def sort_of(t):
    return term_of(inp("sort:" + t[1]))


def check_needs(prog, deep, viol, cov):
    n = needs(prog, viol, cov, "parse_term_expecting_sort", "a term", [inp("E")], lambda v, x: [(sort_of(v), term_of(inp("E")))])
    B = term_of(BOOL)
    n += needs(prog, viol, cov, "parse_assume_command", "an assumption", [], lambda v, x: [(sort_of(v[1][1]), B)])
    n += needs(prog, viol, cov, "parse_clause", "a literal of a clause", [], lambda v, x: [(sort_of(t), B) for t in v[1]])
    for q in ("Forall", "Exists", "Choice"):
        n += needs(prog, viol, cov, "parse_binder", "the body of a binder " + q, [variant("ast::term::Binder", q)], lambda v, x: [(sort_of(v[3][2]), B)])
    n += needs(prog, viol, cov, "parse_define_fun", "the body of a defined function", [], lambda v, x: [(sort_of(fget(prog, "parser::FunctionDef", v[1][1], "body")), term_of(inp("S#0")))])
    for strict in (False, True):
        n += needs(prog, viol, cov, "parse_anchor_argument", "the value assigned to a variable", [], lambda v, x: [(v[3][0][1][1], sort_of(v[3][1]))] if v[2] == "Assign" else [], strict=strict)
    for many in (False, True):
        n += needs(prog, viol, cov, "parse_define_fun_rec", "the body of a recursive function", [("bool", many)],
                   lambda v, x: list(zip([sort_of(t) for t in read(x) if t[0] == "in" and t[1].startswith("t#")], [t[1][2] for t in read(x) if t[0] == "T" and len(t[1]) == 3], strict=True)))
    return n


def check_asserts(prog, deep, viol, cov):
    """asserted terms are of sort Bool"""
    import prop_parser
    says = judges(prog)[1]
    seen = []

    def srt(I, a, st, b, t, d):
        x = plain(I.strip(st, a[1]))
        return [(term_of(inp("sort:" + x[1])), st)] if x[0] == "in" and x[1].startswith("res:") else [(call("sort of", x), st)]

    def hook(I, st, v, k, b, t):
        terms = plain(I.strip(st, v))
        terms = terms[1] if terms[0] == "list" else (terms,)
        for x in terms:
            seen.append(k)
            if x[0] != "in":
                open_(cov, (k, show(x)))
                continue
            for s in FEW:
                if s != BOOL and applies(st.facts, {**says, "sort:" + x[1]: s}) is not False:
                    key = "need:" + k
                    if not any(y[0] == key for y in viol):
                        viol.append((key, "%s: a term of sort %s can be asserted by a command %s" % (b.where(t["ln"]), sname(s), k), None))
    def once(I, a, st, b, t, d):
        cl = I.deref(st, a[1])
        if not (cl[0] == "C" and prog.bodies[cl[1]].locals[0].startswith("std::result::Result<ast::rc::Rc<ast::term::Term>") or "parse_term" in str(cl)):
            return None
        out = []
        for r, z in I.closure_call(a[1], [a[0]], st, b, t, "std::result::Result<ast::rc::Rc<ast::term::Term>, Error>"):
            for vn, u, q in models.split(I, z, r, ["Ok", "Err"]):
                out.append((models.ok(L(plain(I.strip(q, models.payload(I, q, u, vn))))), q) if vn == "Ok" else (models.err(("any",)), q))
        return out
    more = sorts_given(prog, srt)
    more["ast::term::Term::as_sort"] = lambda I, a, st, b, t, d: [(some(plain(I.strip(st, a[0]))[3][0]), st)] if plain(I.strip(st, a[0]))[:3] == ("E", TERM, "Sort") else None
    opaque = prop_parser.PS.opaque_read
    for p in prop_parser.reads_input(prog):
        if p.endswith("::parse_sequence"):
            more[p] = (lambda p: lambda I, a, st, b, t, d: once(I, a, st, b, t, d) or opaque(I, p)(I, a, st, b, t, d))(p)
    prop_parser.assertions(prog, {}, hook, more)
    for k in ("Assert", "CheckSatAssuming"):
        if k not in seen:
            raise RuntimeError("where the terms of %s become premises was not found" % k)
    cov["functions"].add("parse_problem")
    return len(seen) * len(FEW)


def check_define(prog, deep, viol, cov):
    """a defined function is applied to as many arguments as it has parameters, of their sorts"""
    import itertools
    body = find_body(prog, "parser::FunctionDef::apply")
    cov["functions"].add(body.path)
    says = judges(prog)[1]
    n = 0
    for m, k in itertools.product(range(0, 4), range(0, 4)):
        args, ins = [inp("a%d" % i) for i in range(k)], [inp("s%d" % i) for i in range(k)]
        more = sorts_given(prog, given_sorts(args, ins))
        for f in ("new", "apply"):
            for q in prog.bodies:
                if q.endswith("ast::substitution::Substitution::" + f) and prog.bodies[q].kind == "fn":
                    more[q] = substituted if f == "apply" else lambda I, a, st, b, t, d: [(models.ok(("subst", plain(I.strip(st, a[-1])))), st)]
        I = SI(prog, more)
        fd = struct(prog, "parser::FunctionDef", params=L(*(("T", (("str", "x%d" % i), term_of(inp("p%d" % i)))) for i in range(m))), body=inp("body"))
        rs = [(plain(v), x) for v, x in I.run(body, [fd, ("mref", POOL, ()), L(*args)], State({POOL: inp("pool")}, {}))]
        cov["opaque"] |= set(nones(I))
        var = lambda i: variant(TERM, "Var", ("str", "x%d" % i), term_of(inp("p%d" % i)))
        want = [call("put", ("dict", tuple((var(i), args[i]) for i in range(m))), inp("body")) if m and m == k else inp("body")]
        for dom in itertools.product(FEW[:3], repeat=m):
            for ss in itertools.product(FEW[:3], repeat=k):
                n += 1
                judge(viol, cov, "define", body.where(body.line), "a defined function with parameters of sorts [%s] applied to %d arguments of sorts [%s]" % (" ".join(map(sname, dom)), k, " ".join(map(sname, ss))), rs,
                      {**says, **{"p%d" % i: s for i, s in enumerate(dom)}, **{"s%d" % i: s for i, s in enumerate(ss)}}, dom == ss, want, nones(I))
    return n


def c11(prog, tier):
    viol, cov = [], {"functions": set(), "opaque": set(), "undecided": 0}
    ops = [v["n"] for v in prog.adts[OP]["variants"]]
    gone = set(SIG) ^ set(ops) | set(PSIG) ^ {v["n"] for v in prog.adts[POP]["variants"]}
    if gone:
        raise RuntimeError("operators without a signature, or signatures without an operator: " + " ".join(sorted(gone)))
    deep = tier == "thorough"
    n = sum(check_op(prog, o, deep, viol, cov) for o in ops)
    parts = {"make_op": n}
    for f in (check_indexed, check_qualified, check_app, check_param, check_define, check_sort, check_pools, check_needs, check_asserts):
        parts[f.__name__] = k = f(prog, deep, viol, cov)
        n += k
    return finish(viol, {"functions": sorted(cov["functions"]), "parts": parts, "undecided": cov["undecided"], "undecided_why": list(cov.get("why", {}))[:20], "not_followed": sorted(cov["opaque"]),
                         "rule": "for each operator and each choice of sorts the paths of the constructor whose conditions hold end in acceptance exactly when the signature says so; compute_sort yields the sort of the signature"}, n)
