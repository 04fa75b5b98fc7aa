"""C28: the comparison of terms modulo reordering, renaming, n-ary expansion and string concatenation."""
import time
import itertools
import absint as A
import models
from absint import State, num, TRUE, FALSE, UNIT
from models import NONE, some
from typestate import gcell, find_body
from prop_driver import finish, fget
from prop_print import variant, TERM
from prop_subst import inp, call, struct
from prop_elab import L, plain, op, show, exact
from prop_sorts import SI, the_map, sort, SORT, OP, POP, BOOL, INT, term_of

PQ = "ast::polyeq::"
TERM_EQ = "<ast::term::Term as ast::polyeq::PolyeqComparable>::eq"
RC_EQ = "<ast::rc::Rc<ast::term::Term> as ast::polyeq::PolyeqComparable>::eq"
COMP = ("cell", "comparator")
SAID = gcell("said")
MODES = ("is_mod_reordering", "is_alpha_equivalence", "is_mod_nary", "is_mod_string_concat")


def first_of(f, g):
    def h(I, a, st, b, t, d):
        r = f(I, a, st, b, t, d)
        return r if r is not None or g is None else g(I, a, st, b, t, d)
    return h


class QI(SI):
    def __init__(self, prog, over=None):
        sm = {}
        number_models(sm)
        text_models(sm)
        for c in ("IndexMap::", "HashMap::"):
            sm[c + "is_empty"] = lambda I, a, st, b, t, d: [(("bool", not the_map(I, st, a[0])[1]), st)] if the_map(I, st, a[0]) else None
            sm[c + "len"] = lambda I, a, st, b, t, d: [(num(len(the_map(I, st, a[0])[1])), st)] if the_map(I, st, a[0]) else None
        idx = sm.pop("Index::index"), sm.pop("ops::Index::index")
        sm.update(over or {})
        SI.__init__(self, prog, sm)
        for n in ("Index::index", "ops::Index::index"):
            self.summaries[n] = first_of(idx[0], self.summaries.get(n))
        for p in prog.bodies:  # the maps are followed
            if p.startswith(("utils::HashMapStack", PQ)) and p not in (over or {}):
                self.summaries.pop(p, None)
        old = self.opaque
        self.opaque = lambda p: p in prog.bodies and not prog.bodies[p].file.endswith("ast/polyeq.rs") and old(p)

    def field(self, st, v, variant, idx):
        if v[0] == "list" and idx == 0:  # BindingList is a newtype of a list
            return v
        return SI.field(self, st, v, variant, idx)


def generic(prog, name):
    """the implementation of the comparison for a shape of value"""
    return "<%s as ast::polyeq::PolyeqComparable>::eq" % name


def dispatch(prog, cut_rc, cut_term):
    """Polyeq::eq: the implementation for the type of the values; the cuts answer for terms (or are None: follow)"""
    def f(I, a, st, b, t, d):
        x, y = I.strip(st, a[1]), I.strip(st, a[2])
        px = plain(x)
        if px[0] == "list":
            return I.call_fn(generic(prog, "[T]"), generic(prog, "[T]"), a, st, b, t, d, ())
        if px[0] == "T":
            return I.call_fn(generic(prog, "(T, U)"), generic(prog, "(T, U)"), a, st, b, t, d, ())
        if px[0] == "str":
            return [(("pred", "eq", px, plain(y)) if px[0] == "in" or plain(y)[0] == "in" else (TRUE if px == plain(y) else FALSE), st)]
        if px[0] == "S":
            p = "<%s as ast::polyeq::PolyeqComparable>::eq" % px[1]
            return I.call_fn(p, p, a, st, b, t, d, ())
        if px[0] == "E" and px[1] == SORT:
            return cut_rc(I, a, st, px, plain(y))
        ga = (t.get("f", {}).get("fnref") or {}).get("ga") or []
        if ga and ga[-1] == TERM:
            if cut_term is not None:
                return cut_term(I, a, st, px, plain(y))
            return I.call_fn(TERM_EQ, TERM_EQ, a, st, b, t, d, ())
        if cut_rc is not None:
            return cut_rc(I, a, st, px, plain(y))
        return I.call_fn(RC_EQ, RC_EQ, a, st, b, t, d, ())
    return f


def comparator(prog, **cfg):
    """what the public constructor makes"""
    I = QI(prog)
    c = struct(prog, PQ + "PolyeqConfig", **{f: ("bool", bool(cfg.get(f))) for f in MODES})
    rs = I.run(find_body(prog, "polyeq::Polyeq::with_config"), [c], State({}, {}))
    if len(rs) != 1:
        raise RuntimeError("Polyeq::with_config: %d results" % len(rs))
    return plain(rs[0][0])


def with_depth(prog, comp, n):
    """the comparator as it is n levels below the terms it was asked about"""
    return comp[:2] + (tuple(num(n) if x["n"].endswith("_depth") else v for x, v in zip(prog.adts[PQ + "Polyeq"]["variants"][0]["fields"], comp[2])),)


def said(I, a, st, x, y):
    """a comparison of subterms: either answer; what was asked, and where"""
    s = st.copy()
    s.store[SAID] = L(*(s.store.get(SAID, L())[1] + (("T", (x, y, plain(I.strip(st, a[0])))),)))
    return [(TRUE, s), (FALSE, st.copy())]


MACHINES = {}


def machine(prog, cut_rc, cut_term):
    k = (id(prog), cut_rc, cut_term)
    if k not in MACHINES:
        MACHINES[k] = QI(prog, {PQ + "Polyeq::eq": dispatch(prog, cut_rc, cut_term)})
    return MACHINES[k]


def run(prog, path, comp, x, y, cut_rc=said, cut_term=said, facts=None):
    I = machine(prog, cut_rc, cut_term)
    I.steps = 0
    rs = I.run(prog.bodies[path], [("mref", COMP, ()), x, y], State({COMP: comp, SAID: L()}, facts or {}))
    return I, [(plain(v), s) for v, s in rs]


def bindings(names, values):
    return L(*(("T", (("str", n), s)) for n, s in zip(names, values)))


def binder(prog, q, names, sorts, inner):
    return variant(TERM, "Binder", variant("ast::term::Binder", q), bindings(names, sorts), inner)


# ------------------------------------------------------------------------------------------------ what terms denote
LEFT = {"And", "Or", "Xor", "Add", "Sub", "Mult", "IntDiv", "RealDiv", "StrConcat", "ReConcat", "ReUnion", "ReIntersection", "ReDiff", "BvAdd", "BvMul", "BvAnd", "BvOr", "BvXor", "Cl"}
CHAIN = {"Equals", "LessThan", "GreaterThan", "LessEq", "GreaterEq"}
ALONE = LEFT - {"Sub"} | {"Delete"}  # applied to one argument, it is that argument


class Values:
    """terms up to what the standard says of their operators, and the equalities learnt"""

    def __init__(self):
        self.parent = {}
        self.learnt = []

    def find(self, k):
        while k in self.parent:
            k = self.parent[k]
        return k

    def learn(self, x, y):
        self.learnt.append((x, y))
        while True:
            n = len(self.parent)
            for p, q in self.learnt:
                p, q = self.nf(p), self.nf(q)
                if p != q:
                    p, q = (q, p) if p[0] in ("num", "cat", "bv") else (p, q)
                    self.parent[p] = q
            if len(self.parent) == n:
                return

    def app(self, o, *xs):
        if o == "Equals" and len(xs) == 2:
            xs = tuple(sorted(xs, key=repr))
        if o == "Sub" and len(xs) == 1 and xs[0][0] == "num":
            return ("num", -xs[0][1])
        if o == "RealDiv" and len(xs) == 2 and xs[0][0] == xs[1][0] == "num" and xs[1][1]:
            return ("num", xs[0][1] / xs[1][1])
        return self.find(("op", o, xs))

    def nf(self, t):
        from fractions import Fraction
        if t[0] == "in":
            return self.find(t)
        if t[:2] == ("E", SORT):
            return self.find(("sort", t[2]) + tuple(self.nf(x) if x[0] in ("in", "list", "E") else x for x in t[3]))
        if t[0] == "list":
            return ("list", tuple(map(self.nf, t[1])))
        assert t[:2] == ("E", TERM), t
        k, xs = t[2], t[3]
        if k == "Const":
            c = xs[0]
            if c[2] in ("Integer", "Real"):
                return self.find(("num", number(c[3][0])))
            if c[2] == "String" and c[3][0][0] == "str":
                return self.find(("cat", tuple(c[3][0][1])))
            return self.find(("const",) + c[2:])
        if k == "Op":
            o, args = xs[0][2], [self.nf(x) for x in xs[1][1]]
            if o in ALONE and len(args) == 1:
                return args[0]
            if o == "StrConcat":
                flat = ()
                for x in args:
                    flat += x[1] if x[0] == "cat" else (x,)
                return flat[0] if len(flat) == 1 and isinstance(flat[0], tuple) else self.find(("cat", flat))
            if o in CHAIN and len(args) > 2:
                args, o = [self.app(o, x, y) for x, y in zip(args, args[1:])], "And"
            if o in LEFT and len(args) > 2:
                v = args[0]
                for x in args[1:]:
                    v = self.app(o, v, x)
                return v
            if o == "Implies" and len(args) > 2:
                v = args[-1]
                for x in args[-2::-1]:
                    v = self.app(o, x, v)
                return v
            return self.app(o, *args)
        if k == "Binder":
            return self.find(("binder", xs[0][2], tuple((b[1][0], self.nf(b[1][1])) for b in xs[1][1]), self.nf(xs[2])))
        if k == "Let":
            return self.find(("let", tuple((b[1][0], self.nf(b[1][1])) for b in xs[0][1]), self.nf(xs[1])))
        if k == "Var":
            return self.find(("var", xs[0], self.nf(xs[1])))
        if k == "App":
            return self.find(("app", self.nf(xs[0]), self.nf(xs[1])))
        if k == "ParamOp":
            return self.find(("param", xs[0][2], xs[1], self.nf(xs[2])))
        if k == "Sort":
            return self.find(("sort", self.nf(xs[0])))
        raise RuntimeError("a term %s" % k)


def number(v):
    """the number of a constant of known value"""
    from fractions import Fraction
    if v[0] == "int":
        return Fraction(v[1])
    raise RuntimeError("a number %s" % (v,))


def agree(st, a, b):
    """what was said to be equal on a path entails that the two terms are"""
    V = Values()
    for e in st.store.get(SAID, L())[1]:
        V.learn(e[1][0], e[1][1])
    for k, w in st.facts.items():
        if k[0] == "b" and k[1][0] in ("eq",) and w is True and all(x[0] in ("in", "E") for x in k[1][1:3]):
            try:
                V.learn(k[1][1], k[1][2])
            except (AssertionError, RuntimeError):
                pass
    return V.nf(a) == V.nf(b)


# ------------------------------------------------------------------------------------------------ numbers of known value
def known(I, st, v):
    v = I.deref(st, v)
    return v[1] if v[0] == "int" else None


def numeric(f):
    def g(I, a, st, b, t, d):
        xs = [known(I, st, v) for v in a]
        if any(x is None for x in xs):
            return None
        r = f(*xs)
        return [((("bool", r) if isinstance(r, bool) else num(r)), st)]
    return g


def num_from(I, a, st, b, t, d):
    from fractions import Fraction
    if "Rational" not in d and "Integer" not in d:
        return None
    v = I.deref(st, a[0])
    if v[0] == "T":
        x, y = known(I, st, v[1][0]), known(I, st, v[1][1])
        if x is None or y is None:
            return None
        return [(num(Fraction(x) / Fraction(y)), st)] if y else []  # rug panics
    x = known(I, st, v)
    return None if x is None else [(num(x), st)]


def number_models(sm):
    from fractions import Fraction
    fs = {"is_zero": lambda x: x == 0, "is_negative": lambda x: x < 0, "is_positive": lambda x: x > 0, "is_integer": lambda x: Fraction(x).denominator == 1, "abs": abs,
          "numer": lambda x: Fraction(x).numerator, "denom": lambda x: Fraction(x).denominator, "abs_ref": abs, "recip": None, "signum": None}
    for k, f in fs.items():
        if f:
            for c in ("Rational::", "Integer::"):
                sm[c + k] = (lambda f, old: lambda I, a, st, b, t, d: numeric(f)(I, a, st, b, t, d) or (old(I, a, st, b, t, d) if old else None))(f, models.MODELS.get(c + k))
    old = models.MODELS.get("From::from")
    sm["From::from"] = lambda I, a, st, b, t, d: num_from(I, a, st, b, t, d) or (old(I, a, st, b, t, d) if old else None)


def const(k, v):
    return variant(TERM, "Const", variant("ast::term::Constant", k, v))


def integer(n):
    return const("Integer", num(n))


def real(n):
    from fractions import Fraction
    return const("Real", num(Fraction(n)))


# ------------------------------------------------------------------------------------------------ shapes of terms
UNIFORM = [BOOL, INT, sort("Real"), sort("String"), sort("RegLan"), sort("BitVec", num(2))]


def arities(o):
    """({accepted numbers of arguments of one sort}, whether the result is of that sort too)"""
    from prop_sorts import SIG
    acc, res = SIG[o]
    ks, nest = set(), False
    for s in UNIFORM:
        for k in range(0, 5):
            if acc((s,) * k, {"strict": False, "sub": False}):
                ks.add(k)
                nest |= bool(k and res and res((s,) * k) == s)
    return ks, nest


def leaf(n):
    """a term with no structure of interest"""
    return variant(TERM, "Var", ("str", n), inp("sort of " + n))


def leaves(t, side, n=None):
    """the term with its leaves named"""
    n = [0] if n is None else n
    if t == "leaf":
        n[0] += 1
        return leaf("%s%d" % (side, n[0] - 1))
    if t[0] == "E":
        return t
    return op(t[0], *[leaves(x, side, n) for x in t[1]])


def trees(o, ks, size, depth):
    """applications of o, with arguments that are leaves or applications of o, of a number of leaves"""
    out = []
    if size == 1:
        out.append("leaf")
    if depth:
        for k in ks:
            if 1 <= k <= size:
                for split in compositions(size, k):
                    out += [(o, xs) for xs in itertools.product(*[trees(o, ks, n, depth - 1) for n in split])]
    return out


def compositions(n, k):
    if k == 1:
        return [(n,)]
    return [(i,) + r for i in range(1, n - k + 2) for r in compositions(n - i, k - 1)]


def nary_pairs(deep):
    from prop_sorts import SIG
    for o in sorted(SIG):
        ks, nest = arities(o)
        flat = [(o, ("leaf",) * k) for k in sorted(ks)]
        if nest:
            lim = 4 if deep else 3
            if o == "Cl":
                ks = ks - {0}
            ts = [t for n in range(1, lim + 1) for t in trees(o, ks, n, 3 if o in ("Sub", "Implies") and n < (4 if deep and o != "Sub" else 3) else 2)]
            if not deep and o in ("Sub", "And", "Implies"):
                ts += [(o, ("leaf",) * 4)]
        else:
            ts = flat
        for a in ts:
            for b in ts:
                if a != "leaf" or b != "leaf":
                    yield o, a, b
        # what a chain stands for
        if 3 in ks:
            parts = [(o, ("leaf",) * 2), (o, ("leaf",) * 3), "leaf", ("Equals" if o != "Equals" else "LessThan", ("leaf",) * 2)]
            for k in (2, 3, 4) if deep else (2, 3):
                if k in ks:
                    for m in (1, 2, 3):
                        for xs in itertools.product(parts, repeat=m) if m < 3 else [(parts[0],) * 3]:
                            yield o, (o, ("leaf",) * k), ("And", xs)
                            yield o, ("And", xs), (o, ("leaf",) * k)
                            if m == 2:
                                for w in ("Or", "Xor", "Implies", "Cl", "Distinct") if deep else ("Or",):
                                    yield o, (o, ("leaf",) * k), (w, xs)
                                    yield o, (w, xs), (o, ("leaf",) * k)


def other_pairs():
    """applications of two operators"""
    from prop_sorts import SIG
    ops = sorted(SIG)
    for i, o in enumerate(ops):
        for p in {"And", "Or", "Equals", "Sub", "StrConcat", "Distinct", ops[i - 1], ops[i - 2]} - {o}:
            for k in sorted(arities(o)[0])[:3]:
                for m in {k, 2} & arities(p)[0] or {min(arities(p)[0] or {2})}:
                    yield o, (o, ("leaf",) * k), (p, ("leaf",) * m)
                    yield o, (p, ("leaf",) * m), (o, ("leaf",) * k)


def string(s):
    return const("String", ("str", s))


def text_pairs(deep):
    atoms = [string(""), string("a"), string("ab"), string("b"), leaf("x"), leaf("y")] + ([string("\u00e9"), string("\u00e9a")] if deep else [string("\u00e9")])
    cat = lambda *xs: op("StrConcat", *xs)
    two = [cat(x, y) for x in atoms for y in atoms]
    ends = [cat(cat(x, y), z) for x, y, z in itertools.product(atoms[1:5], repeat=3)] if deep else [cat(cat(x, y), z) for x, y, z in [(leaf("x"), string("a"), string("b")), (string("a"), leaf("x"), string("b")), (string("a"), string("b"), leaf("y"))]]
    ends += [cat(cat(leaf("x"), string("a"), leaf("y")), string("b")), cat(cat(string("a"), leaf("x"), leaf("y")), leaf("x")), cat(leaf("x"), leaf("y")), cat(leaf("x"), cat(string("a"), leaf("y"), string("b")))]
    three = [cat(x, y, z) for x, y, z in itertools.product([string("a"), string("b"), leaf("x")], repeat=3)]
    for a in two + [x for x in atoms if x[0] == "E"] + ends:
        for b in two + three + ends + [x for x in atoms if x[0] == "E"]:
            yield a, b


def kinds():
    """a term of each kind"""
    def make(side):
        v = lambda n: leaf(side + n)
        P = lambda n: variant(POP, n)
        return [variant(TERM, "Var", ("str", side), inp(side + "s")), variant(TERM, "App", v("f"), L(v("0"), v("1"))), variant(TERM, "App", v("f"), L(v("0"))), variant(TERM, "Sort", inp(side + "s")), op("And", v("0"), v("1")),
                op("Equals", v("0"), v("1")), op("Equals", v("0"), v("1"), v("2")), op("Distinct", v("0"), v("1")), op("Sub", v("0")), op("RealDiv", v("0"), v("1")), op("StrConcat", v("0"), v("1")),
                integer(-1), real("1/2"), string("a"), const("BitVec", num(1)),
                param("BvExtract", [v("i"), v("j")], [v("0")]), param("BvExtract", [v("i"), v("j")], [v("0"), v("1")]), param("ZeroExtend", [v("i")], [v("0")]), param("ZeroExtend", [v("i"), v("j")], [v("0")]),
                param("Repeat", [leaf("i")], [v("0")]), param("RotateLeft", [leaf("i")], [v("0")]), param("RotateLeft", [leaf("i"), leaf("j")], [v("0"), v("1")])]
    return make("a"), make("b")


def param(o, ixs, args):
    return ("E", TERM, "ParamOp", (variant(POP, o), L(*ixs), L(*args)))


# ------------------------------------------------------------------------------------------------ the checks
CONFIGS = [("modulo reordering", dict(is_mod_reordering=1)), ("modulo n-ary expansion and reordering", dict(is_mod_nary=1, is_mod_reordering=1)), ("modulo string concatenation", dict(is_mod_string_concat=1)),
           ("in all modes", dict(is_mod_nary=1, is_mod_reordering=1, is_mod_string_concat=1)), ("with no mode", {}), ("modulo renaming and reordering", dict(is_mod_reordering=1, is_alpha_equivalence=1))]


def sound(prog, viol, cov, name, comp, key, a, b):
    """every path on which the two are said to be equal entails it"""
    if len(viol) >= ENOUGH or time.time() > cov.setdefault("until", time.time() + 540):
        cov["left"] = cov.get("left", 0) + 1
        return False
    I, rs = run(prog, TERM_EQ, comp, a, b)
    cov["opaque"] |= set(I.unmodelled)
    body = prog.bodies[TERM_EQ]
    cov["paths"] += len(rs)
    some_true = False
    for v, s in rs:
        if v == FALSE:
            continue
        if v != TRUE:
            cov["undecided"] += 1
            cov.setdefault("why", {})[(name, key, show(v)[:80])] = 1
            continue
        some_true = True
        if not agree(s, a, b):
            k = "unequal:%s:%s" % (name, key)
            if not any(y[0] == k for y in viol):
                viol.append((k, "%s: %s, %s and %s are said to be equal, given that %s" % (body.where(body.line), name, show(a), show(b),
                                                                                       ", ".join("%s = %s" % (show(e[1][0]), show(e[1][1])) for e in s.store[SAID][1]) or "nothing"), None))
    return some_true


def complete(prog, viol, cov, name, comp, key, a, b):
    """two terms that are equal leaf by leaf are said to be equal"""
    def truly(I, x, st, p, q):
        V = Values()
        for i in range(8):
            V.learn(leaf("a%d" % i), leaf("b%d" % i))
        for s in ("f", "s", "i", "j"):
            V.learn(leaf("a" + s), leaf("b" + s))
            V.learn(inp("a" + s), inp("b" + s))
        return [(TRUE if V.nf(p) == V.nf(q) else FALSE, st)]
    I, rs = run(prog, TERM_EQ, comp, a, b, TRULY.setdefault(0, truly), TRULY.setdefault(0, truly))
    if not rs or any(v == FALSE for v, s in rs):
        k = "missed:%s:%s" % (name, key)
        body = prog.bodies[TERM_EQ]
        if not any(y[0] == k for y in viol):
            viol.append((k, "%s: %s, %s and %s are not said to be equal although their parts are" % (body.where(body.line), name, show(a), show(b)), None))


TRULY = {}
ENOUGH = 12  # violations after which the remaining pairs are left


def check_terms(prog, deep, viol, cov):
    n = 0
    A, B = kinds()
    cs = [integer(x) for x in (-2, -1, 0, 1)] + [real(x) for x in ("-3/2", "-1", "-1/2", "0", "1/2", "1", "2")]
    small = [integer(-1), integer(2), integer(0), real("1/2"), real("-1"), real("1"), real("2"), real("0")]
    nums = cs + [op("Sub", x) for x in cs] + [op("RealDiv", x, y) for x in small for y in small] + [op("Sub", op("RealDiv", x, y)) for x in small for y in small]
    nums += [op("RealDiv", x, op("Sub", y)) for x in small for y in small] + [op("RealDiv", op("Sub", x), y) for x in small for y in small] + [op("Sub", x, y) for x in small[:3] for y in small[:3]]
    nums += [op("RealDiv", x, y, z) for x in small[4:7] for y in small[4:7] for z in small[4:7]] + [op("Sub", op("Sub", x)) for x in cs[:3]]
    for name, cfg in CONFIGS:
        comp = comparator(prog, **cfg)
        for a in A:
            for b in B:
                n += 1
                sound(prog, viol, cov, name, comp, "%s:%s" % (shape(a), shape(b)), a, b)
        if not cfg.get("is_alpha_equivalence"):
            for a, b in zip(A, B):
                if a[2] not in ("Const", "Var") and not (a[2] == "ParamOp" and a[3][1] != b[3][1]):
                    complete(prog, viol, cov, name, comp, "%s" % shape(a), a, b)
        if not cfg.get("is_mod_string_concat") or deep:
            for x in cs:
                for y in nums:
                    for a, b in ((x, y), (y, x)):
                        n += 1
                        sound(prog, viol, cov, name, comp, "number", a, b)
        for o, a, b in other_pairs():
            n += 1
            sound(prog, viol, cov, name, comp, "%s:%s" % (o, "two operators"), leaves(a, "a"), leaves(b, "b"))
        if cfg.get("is_mod_nary"):
            for o, a, b in nary_pairs(deep):
                n += 1
                sound(prog, viol, cov, name, comp, o, leaves(a, "a"), leaves(b, "b"))
        if cfg.get("is_mod_string_concat"):
            for a, b in text_pairs(deep):
                n += 1
                sound(prog, viol, cov, name, comp, "strings", a, b)
    return n


def shape(t):
    return "%s%s" % (t[2], ":" + t[3][0][2] if t[2] in ("Op", "Binder", "ParamOp", "Const") else "")


def check_accepted(prog, deep, viol, cov):
    """what each mode is there to identify"""
    a, b = (lambda i: leaf("a%d" % i)), (lambda i: leaf("b%d" % i))
    n = 0
    reorder, nary, cat = (comparator(prog, **{"is_mod_" + m: 1}) for m in ("reordering", "nary", "string_concat"))
    complete(prog, viol, cov, "modulo reordering", reorder, "flipped", op("Equals", a(0), a(1)), op("Equals", b(1), b(0)))
    for o in sorted(LEFT - {"Cl", "StrConcat"}) + ["StrConcat"]:
        if o == "BvXor":
            continue
        x = op(o, op(o, b(0), b(1)), b(2))
        complete(prog, viol, cov, "modulo n-ary expansion", nary, o, op(o, a(0), a(1), a(2)), x)
        complete(prog, viol, cov, "modulo n-ary expansion", nary, o, x, op(o, *[a(i) for i in range(3)]))
        n += 2
    complete(prog, viol, cov, "modulo n-ary expansion", nary, "Implies", op("Implies", a(0), a(1), a(2)), op("Implies", b(0), op("Implies", b(1), b(2))))
    for o in sorted(CHAIN):
        complete(prog, viol, cov, "modulo n-ary expansion", nary, o, op(o, a(0), a(1), a(2)), op("And", op(o, b(0), b(1)), op(o, b(1), b(2))))
        n += 1
    for s, t in (("a", "b"), ("", "ab")):
        complete(prog, viol, cov, "modulo string concatenation", cat, "constants", op("StrConcat", string(s), string(t), a(0)), op("StrConcat", string("ab"), b(0)))
        complete(prog, viol, cov, "modulo string concatenation", cat, "constants", op("StrConcat", string(s), string(t)), string("ab"))
        n += 2
    complete(prog, viol, cov, "modulo string concatenation", cat, "nested", op("StrConcat", a(0), a(1), a(2)), op("StrConcat", op("StrConcat", b(0), b(1)), b(2)))
    return n + 3


# ------------------------------------------------------------------------------------------------ strings of known value
def text(I, st, v):
    v = I.deref(st, v)
    return v[1] if v[0] == "str" and isinstance(v[1], str) else None


def bounds(r, n):
    """(start, end) of a range of indices"""
    if r[0] != "S" or not all(x[0] == "int" for x in r[2]):
        return None
    k, xs = r[1].split("::")[-1], [x[1] for x in r[2]]
    return {"RangeFrom": lambda: (xs[0], n), "RangeTo": lambda: (0, xs[0]), "Range": lambda: (xs[0], xs[1]), "RangeFull": lambda: (0, n), "RangeToInclusive": lambda: (0, xs[0] + 1)}.get(k, lambda: None)()


def cut_text(s, lo, hi):
    """the slice of bytes lo..hi, or None (a panic)"""
    b = s.encode()
    if not 0 <= lo <= hi <= len(b):
        return None
    try:
        return b[lo:hi].decode()
    except UnicodeDecodeError:
        return None


def text_models(sm):
    def on(f):
        def g(I, a, st, b, t, d):
            xs = [text(I, st, v) for v in a]
            if any(x is None for x in xs):
                return None
            r = f(*xs)
            return [(("bool", r) if isinstance(r, bool) else num(r) if isinstance(r, int) else r, st)]
        return g

    def keep(name, f):
        old = models.MODELS.get(name)
        sm[name] = lambda I, a, st, b, t, d: (lambda r: r if r is not None else (old(I, a, st, b, t, d) if old else None))(f(I, a, st, b, t, d))
    byte = lambda s: L(*(num(x) for x in s.encode()))
    for c in ("String::", "str::"):
        keep(c + "len", on(lambda s: len(s.encode())))
        keep(c + "is_empty", on(lambda s: s == ""))
        keep(c + "as_bytes", on(byte))
        keep(c + "into_bytes", on(byte))
        keep(c + "chars", on(lambda s: ("it", ("of", L(*(("chr", x) for x in s))), num(0))))
        keep(c + "bytes", on(lambda s: ("it", ("of", byte(s)), num(0))))
        keep(c + "starts_with", on(lambda s, p: s.startswith(p)))
        keep(c + "ends_with", on(lambda s, p: s.endswith(p)))
        keep(c + "strip_prefix", on(lambda s, p: some(("str", s[len(p):])) if s.startswith(p) else NONE))

        def split_at(I, a, st, b, t, d):
            s, i = text(I, st, a[0]), known(I, st, a[1])
            if s is None or i is None:
                return None
            x, y = cut_text(s, 0, i), cut_text(s, i, len(s.encode()))
            return [] if x is None or y is None else [(("T", (("str", x), ("str", y))), st)]
        keep(c + "split_at", split_at)

    def index(I, a, st, b, t, d):  # replaces nothing: falls through to the models of lists
        s = text(I, st, a[0])
        if s is None:
            return None
        r = bounds(I.deref(st, a[1]), len(s.encode()))
        if r is None:
            return None
        x = cut_text(s, *r)
        return [] if x is None else [(("str", x), st)]
    sm["Index::index"] = sm["ops::Index::index"] = index

    def least(f):
        def g(I, a, st, b, t, d):
            x, y = known(I, st, a[0]), known(I, st, a[1])
            return None if x is None or y is None else [(num(f(x, y)), st)]
        return g
    for n in ("cmp::min", "Ord::min"):
        keep(n, least(min))
    for n in ("cmp::max", "Ord::max"):
        keep(n, least(max))


# ------------------------------------------------------------------------------------------------ bound variables
NAMES = ("x", "y", "z")


def alike(prog, comp, cache):
    """{(x, y): a variable x and a variable y are said to be the same in this state of the comparator}"""
    if comp not in cache:
        m = {}
        for x in NAMES:
            for y in NAMES:
                I, rs = run(prog, TERM_EQ, comp, variant(TERM, "Var", ("str", x), inp("s")), variant(TERM, "Var", ("str", y), inp("t")))
                m[x, y] = any(v != FALSE and (inp("s"), inp("t")) in [e[1][:2] for e in s.store[SAID][1]] for v, s in rs)
                if any(v != FALSE and (inp("s"), inp("t")) not in [e[1][:2] for e in s.store[SAID][1]] for v, s in rs):
                    m[x, y] = "whatever their sorts"
        cache[comp] = m
    return cache[comp]


def meant(scopes):
    """scopes: [(names on the left, names on the right)]"""
    flat = [(x, y) for a, b in scopes for x, y in zip(a, b)]
    last = lambda n, i: max([k for k, p in enumerate(flat) if p[i] == n], default=None)
    return {(x, y): (x == y if last(x, 0) is None and last(y, 1) is None else last(x, 0) == last(y, 1)) for x in NAMES for y in NAMES}


def scoped(prog, kind, names, side):
    if kind == "Let":
        return variant(TERM, "Let", bindings(names, [inp("%sv%d" % (side, i)) for i in range(len(names))]), leaf(side + "i"))
    return binder(prog, kind, names, [inp("%sv%d" % (side, i)) for i in range(len(names))], leaf(side + "i"))


def check_scopes(prog, deep, viol, cov):
    body = prog.bodies[TERM_EQ]
    matrix = {}
    n = 0

    def alarm(key, msg):
        if not any(y[0] == "scope:" + key for y in viol):
            viol.append(("scope:" + key, "%s: %s" % (body.where(body.line), msg), None))

    def wrong(comp, scopes):
        m, w = alike(prog, comp, matrix), meant(scopes)
        return [(x, y, m[x, y]) for x, y in m if m[x, y] != w[x, y]]
    lists = [c for k in range(0, 3) for c in itertools.product("xy", repeat=k)]
    start = comparator(prog, is_alpha_equivalence=1, is_mod_reordering=1)
    if wrong(start, []):
        alarm("free", "free variables %s are told apart wrongly" % (wrong(start, []),))
    level = [(start, ())]
    for depth in range(3 if deep else 2):
        nxt = {}
        for comp, scopes in level:
            for kind in ("Forall", "Let") if depth < 2 else ("Forall",):
                for na in lists:
                    for nb in lists:
                        if depth and len(na) != len(nb) and max(len(na), len(nb)) > 1:
                            continue
                        n += 1
                        I, rs = run(prog, TERM_EQ, comp, scoped(prog, kind, na, "a"), scoped(prog, kind, nb, "b"))
                        cov["opaque"] |= set(I.unmodelled)
                        what = "(%s (%s) ..) and (%s (%s) ..)%s" % (kind, " ".join(na), kind, " ".join(nb), " in scopes %s" % (scopes,) if scopes else "")
                        seen = False
                        for v, s in rs:
                            events = [e[1] for e in s.store[SAID][1]]
                            if wrong(plain(s.store[COMP]), scopes):
                                alarm("left", "after comparing %s the variables %s" % (what, wrong(plain(s.store[COMP]), scopes)))
                            if v == FALSE:
                                continue
                            if len(na) != len(nb):
                                alarm("number", "%s are said to be equal, with different numbers of variables" % what)
                                continue
                            seen = True
                            for i in range(len(na)):
                                at = [e for e in events if e[:2] == (inp("av%d" % i), inp("bv%d" % i))]
                                if not at:
                                    alarm("values", "%s are said to be equal whatever the %s of their variables" % (what, "values" if kind == "Let" else "sorts"))
                                elif kind == "Let" and wrong(at[0][2], scopes):
                                    alarm("parallel", "the values in %s are compared in the scope of the bindings" % what)
                            at = [e for e in events if e[:2] == (leaf("ai"), leaf("bi"))]
                            if not at:
                                alarm("body", "%s are said to be equal whatever their bodies" % what)
                                continue
                            here = scopes + ((na, nb),)
                            if wrong(at[0][2], here):
                                alarm("bound", "in the bodies of %s: variables %s" % (what, wrong(at[0][2], here)))
                            elif kind == "Forall":
                                nxt.setdefault(here, at[0][2])
                        if len(na) == len(nb) and not seen:
                            alarm("missed", "%s are never said to be equal" % what)
        level = [(c, s) for s, c in nxt.items()]
    # without renaming the names count
    for name, cfg in CONFIGS:
        if cfg.get("is_alpha_equivalence"):
            continue
        comp = comparator(prog, **cfg)
        for kind in ("Forall", "Let"):
            for na in lists:
                for nb in lists:
                    n += 1
                    I, rs = run(prog, TERM_EQ, comp, scoped(prog, kind, na, "a"), scoped(prog, kind, nb, "b"))
                    for v, s in rs:
                        if v != FALSE and not agree(s, scoped(prog, kind, na, "a"), scoped(prog, kind, nb, "b")):
                            alarm("names", "%s, (%s (%s) ..) and (%s (%s) ..) are said to be equal" % (name, kind, " ".join(na), kind, " ".join(nb)))
                    if na == nb and all(v == FALSE for v, s in rs):
                        alarm("missed names", "%s, two terms (%s (%s) ..) are never said to be equal" % (name, kind, " ".join(na)))
    for comp in (start, comparator(prog, is_mod_reordering=1)):
        for p, q in itertools.permutations(("Forall", "Exists", "Choice", "Lambda", "Let"), 2):
            n += 1
            I, rs = run(prog, TERM_EQ, comp, scoped(prog, p, ("x",), "a"), scoped(prog, q, ("x",), "b"))
            if any(v != FALSE for v, s in rs):
                alarm("kind", "(%s ((x ..)) ..) and (%s ((x ..)) ..) are said to be equal" % (p, q))
    return n


# ------------------------------------------------------------------------------------------------ what is remembered
def denied(I, a, st, x, y):
    return [(FALSE, st)]


def granted(I, a, st, x, y):
    return [(TRUE, st)]


def check_memory(prog, deep, viol, cov):
    """terms are said to be equal only if they are the same (and no variable is bound), they were compared, or were compared in the same scope"""
    body = prog.bodies[RC_EQ]
    n = 0

    def alarm(key, msg):
        if not any(y[0] == "memory:" + key for y in viol):
            viol.append(("memory:" + key, "%s: %s" % (body.where(body.line), msg), None))

    def ask(comp, x, y, answer):
        I, rs = run(prog, RC_EQ, comp, x, y, None, answer)
        cov["opaque"] |= set(I.unmodelled)
        return [(v, plain(s.store[COMP])) for v, s in rs]

    def enter(comp, na, nb, follow=None):
        """(states of the comparator inside the bodies of two quantifiers, states after)"""
        inside, after = [], []
        I, rs = run(prog, TERM_EQ, comp, scoped(prog, "Forall", na, "a"), scoped(prog, "Forall", nb, "b"), *(() if follow is None else (None, follow)))
        for v, s in rs:
            if v == TRUE:
                inside += [e[1][2] for e in s.store[SAID][1] if e[1][:2] == (leaf("ai"), leaf("bi"))]
                after.append(plain(s.store[COMP]))
        return inside, after
    p, q = leaf("x"), leaf("y")
    alpha, beta = comparator(prog, is_alpha_equivalence=1, is_mod_reordering=1), comparator(prog, is_mod_reordering=1)
    inner = enter(alpha, ("x",), ("y",))[0]
    if not inner:
        alarm("bodies", "no comparison of two quantifiers with one variable each compares their bodies")
        return 1
    for where, comp in [("below other terms", with_depth(prog, alpha, 3)), ("below other terms, without renaming", with_depth(prog, beta, 3))] + [("at the top", alpha), ("without renaming", beta)] + [("in a quantifier", c) for c in inner]:
        n += 1
        if any(v != FALSE for v, c in ask(comp, p, q, denied)):
            alarm("at once", "%s, two terms are said to be equal without having been compared" % where)
        if where == "in a quantifier" and any(v != FALSE for v, c in ask(comp, p, p, denied)):
            alarm("same", "in a quantifier, where its variables may be bound to different things, a term is said to be equal to itself without a comparison")
        if where != "in a quantifier" and any(v == FALSE for v, c in ask(comp, p, p, granted)):
            alarm("reflexive", "%s, a term is not said to be equal to itself" % where)
        for v, c in ask(comp, p, q, denied):
            if any(w != FALSE for w, _ in ask(c, p, q, denied)):
                alarm("failed", "%s, two terms that were found to be different are later said to be equal" % where)
        yes = ask(comp, p, q, granted)
        if not any(v == TRUE for v, c in yes):
            alarm("answer", "%s, two terms that were found to be equal are not said to be" % where)
        for v, c in yes:
            n += 1
            if any(w != FALSE for w, _ in ask(c, q, p, denied)) and where == "in a quantifier":
                alarm("turned", "%s, that two terms are equal is used for the terms the other way around" % where)
            if any(w != FALSE for w, _ in ask(c, p, leaf("z"), denied)):
                alarm("other", "%s, that two terms are equal is used for other terms" % where)
            if where in ("without renaming", "below other terms, without renaming"):
                continue
            for na, nb in ((("x",), ("y",)), (("x",), ("x",)), (("z", "x"), ("y", "z"))):
                for d in enter(c, na, nb)[0]:
                    n += 1
                    if any(w != FALSE for w, _ in ask(d, p, q, denied)):
                        alarm("outer", "that two terms are equal is used in the scope of variables that are bound since")
    for comp in [alpha] + inner:
        for c in enter(comp, ("x",), ("y",), granted)[1]:
            n += 1
            if any(w != FALSE for w, _ in ask(c, leaf("ai"), leaf("bi"), denied)):
                alarm("inner", "that two terms are equal in the scope of bound variables is used outside of it")
    return n


def check_sorts(prog, deep, viol, cov):
    """two sorts are said to be equal only if they are"""
    path = generic(prog, SORT)
    body = prog.bodies[path]
    cov["functions"].add(body.path)

    def some_sorts(side):
        v = lambda n: inp(side + n)
        lists = [L(), L(v("0")), L(v("0"), v("1"))]
        out = [sort(n) for n in ("Bool", "Int", "Real", "String", "RegLan", "RareList", "Type")] + [sort("BitVec", num(w)) for w in (1, 2)] + [sort("Array", v("0"), v("1"))]
        out += [sort("Function", x) for x in lists[1:]] + [sort("Atom", ("str", n), x) for n in "AB" for x in lists] + [sort("Var", ("str", n)) for n in "AB"] + [sort("ParamSort", x, v("h")) for x in lists[1:]]
        missing = {q["n"] for q in prog.adts[SORT]["variants"]} - {x[2] for x in out}
        if missing:
            raise RuntimeError("sorts that are not tried: %s" % sorted(missing))
        return out
    n = 0
    for name, cfg in CONFIGS:
        comp = comparator(prog, **cfg)
        for a in some_sorts("a"):
            for b in some_sorts("b"):
                n += 1
                I, rs = run(prog, path, comp, a, b)
                cov["opaque"] |= set(I.unmodelled)
                if any(v not in (TRUE, FALSE) for v, s in rs):
                    cov["undecided"] += 1
                k = None
                for v, s in rs:
                    if v == TRUE and not agree(s, a, b):
                        k = "unequal", "said to be equal, given only that %s" % (", ".join("%s = %s" % (show(e[1][0]), show(e[1][1])) for e in s.store[SAID][1]) or "nothing")
                if a[2] == b[2] and shown(a) == shown(b) and a[2] not in ("Var", "ParamSort") and all(v == FALSE for v, s in rs):
                    k = "missed", "never said to be equal"
                if k and not any(y[0] == "sort:" + k[0] for y in viol):
                    viol.append(("sort:" + k[0], "%s: %s, the sorts %s and %s are %s" % (body.where(body.line), name, show(a), show(b), k[1]), None))
    return n


def shown(t):
    return show(t).replace("a0", "b0").replace("a1", "b1")


def c28(prog, tier):
    viol, cov = [], {"functions": set(), "opaque": set(), "undecided": 0, "paths": 0}
    parts, n = {}, 0
    for f in (check_terms, check_accepted, check_scopes, check_memory, check_sorts):
        parts[f.__name__] = k = f(prog, tier == "thorough", viol, cov)
        n += k
    for p in (TERM_EQ, RC_EQ):
        cov["functions"].add(p)
    return finish(viol, {"functions": sorted(cov["functions"] | {p for p in prog.bodies if p.startswith(PQ) and prog.bodies[p].kind == "fn"}), "parts": parts, "paths": cov["paths"], "undecided": cov["undecided"], "left": cov.get("left", 0), "undecided_why": [str(x) for x in cov.get("why", {})][:20], "not_followed": sorted(cov["opaque"]),
                         "rule": "on every path on which two terms are said to be equal, the comparisons of their parts that were answered yes entail that they denote the same value; variables are told apart as their bindings do; a remembered answer is used only where it was given"}, n)
