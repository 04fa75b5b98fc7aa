"""Abstract interpreter over the extracted MIR.

Abstract domain: every value is an access path into the (unknown) inputs or a constructor applied to
abstract values; a state holds a set of must-facts (which enum variant a path is, equalities between
paths, linear facts about lengths and indices, and universally quantified facts produced by loops).
The interpretation is trace-partitioned: states are joined at block entries when their live values agree,
the facts they disagree on being kept as a disjunction.  Nothing of /repo is executed and no solver is used.
"""
import re
from facts import Program, callee, term_succ

ANY = ("any",)
UNIT = ("T", ())
STD_VARIANTS = {
    "std::option::Option": ["None", "Some"],
    "std::result::Result": ["Ok", "Err"],
    "std::ops::ControlFlow": ["Continue", "Break"],
    "std::borrow::Cow": ["Borrowed", "Owned"],
    "indexmap::map::Entry": ["Occupied", "Vacant"],
}


class Limit(Exception):
    pass


# ---------------------------------------------------------------- linear forms
def num(n):
    return ("int", n)


def lin_parts(v):
    """value -> (const, {atom: coef})"""
    if v[0] == "int":
        return v[1], {}
    if v[0] == "lin":
        return v[1], dict(v[2])
    return 0, {v: 1}


def mk_lin(c, d):
    d = {a: k for a, k in d.items() if k != 0}
    if not d:
        return ("int", c)
    if c == 0 and len(d) == 1:
        (a, k), = d.items()
        if k == 1:
            return a
    return ("lin", c, tuple(sorted(d.items(), key=repr)))


def add(a, b, s=1):
    c1, d1 = lin_parts(a)
    c2, d2 = lin_parts(b)
    for k, x in d2.items():
        d1[k] = d1.get(k, 0) + s * x
    return mk_lin(c1 + s * c2, d1)


def sub(a, b):
    return add(a, b, -1)


def scale(a, n):
    c, d = lin_parts(a)
    return mk_lin(c * n, {k: x * n for k, x in d.items()})


def mul(a, b):
    if a[0] == "int":
        return scale(b, a[1])
    if b[0] == "int":
        return scale(a, b[1])
    return ("mul",) + tuple(sorted((a, b), key=repr))


# ---------------------------------------------------------------- conditions
TRUE = ("bool", True)
FALSE = ("bool", False)


def neg(c):
    if c[0] == "bool":
        return ("bool", not c[1])
    if c[0] == "not":
        return c[1]
    return ("not", c)


def c_and(cs):
    out = []
    for c in cs:
        if c == FALSE:
            return FALSE
        if c == TRUE:
            continue
        if c[0] == "and":
            out.extend(c[1])
        else:
            out.append(c)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return ("and", tuple(out))


def c_or(cs):
    return neg(c_and([neg(c) for c in cs]))


def c_le(a, b):
    """a <= b over integers"""
    d = sub(a, b)
    if d[0] == "int":
        return ("bool", d[1] <= 0)
    return ("le0", d)


def c_lt(a, b):
    return c_le(add(a, num(1)), b)


def c_rlt(a, b):
    d = sub(a, b)
    if d[0] == "int":
        return ("bool", d[1] < 0)
    return ("lt0", d)


def c_eq0(d):
    if d[0] == "int":
        return ("bool", d[1] == 0)
    c, m = lin_parts(d)
    # sign-normalise
    k = sorted(m.items(), key=repr)[0][1]
    if k < 0:
        d = scale(d, -1)
    return ("eq0", d)


class State:
    __slots__ = ("store", "facts")

    def __init__(self, store, facts):
        self.store = store
        self.facts = facts

    def copy(self):
        return State(dict(self.store), dict(self.facts))


def has_tag(v, tags, _depth=0):
    if isinstance(v, tuple):
        if v and v[0] in tags:
            return True
        return any(has_tag(x, tags) for x in v)
    return False


def substitute(v, m):
    """replace sub-values of v by the map m"""
    if isinstance(v, tuple):
        if v in m:
            return m[v]
        r = tuple(substitute(x, m) if isinstance(x, tuple) else (frozenset(substitute(y, m) for y in x) if isinstance(x, frozenset) else x) for x in v)
        if r != v:
            return renorm(r)
        return v
    if isinstance(v, frozenset):
        return frozenset(substitute(y, m) for y in v)
    return v


def renorm(v):
    t = v[0] if v else None
    if t == "lin":
        acc = ("int", v[1])
        for a, k in v[2]:
            acc = add(acc, scale(a, k))
        return acc
    if t == "elem":
        return elem_simple(v[1], v[2])
    if t == "len":
        return length(v[1])
    if t == "eq0":
        return c_eq0(v[1])
    if t in ("le0", "lt0") and v[1][0] == "int":
        return ("bool", v[1][1] <= 0 if t == "le0" else v[1][1] < 0)
    if t == "eq":
        return eqv_raw(v[1], v[2])
    return v


# ---------------------------------------------------------------- sequences
def length(L):
    t = L[0]
    if t == "list":
        return num(len(L[1]))
    if t == "slice":
        return sub(L[3], L[2])
    if t == "seq":
        return seq_len(L[1])
    if t == "str":
        return num(len(L[1].encode()))
    return ("len", L)


def elem_simple(L, i):
    t = L[0]
    if t == "list" and i[0] == "int" and 0 <= i[1] < len(L[1]):
        return L[1][i[1]]
    if t == "slice":
        return elem_simple(L[1], add(L[2], i))
    if t == "seq":
        s = L[1]
        if s[0] == "lam":
            return substitute(s[3], {s[1]: i})
        r = seq_elem_simple(s, i)
        if r is not None:
            return r
    return ("elem", L, i)


def seq_len(s):
    t = s[0]
    if t == "of":
        return length(s[1])
    if t == "zip":
        return imin(seq_len(s[1]), seq_len(s[2]))
    if t in ("enum", "map", "rev"):
        return seq_len(s[1])
    if t == "skip":
        return imax(sub(seq_len(s[1]), s[2]), num(0))
    if t == "take":
        return imin(seq_len(s[1]), s[2])
    if t == "range":
        return imax(sub(s[2], s[1]), num(0))
    if t == "windows":
        return imax(add(sub(seq_len(s[1]), s[2]), num(1)), num(0))
    if t == "chain":
        return add(seq_len(s[1]), seq_len(s[2]))
    if t == "lam":
        return s[2]
    return ("len", ("seq", s))


def imin(a, b):
    if a == b:
        return a
    d = sub(a, b)
    if d[0] == "int":
        return a if d[1] <= 0 else b
    return ("min",) + tuple(sorted((a, b), key=repr))


def imax(a, b):
    if a == b:
        return a
    d = sub(a, b)
    if d[0] == "int":
        return b if d[1] <= 0 else a
    return ("max",) + tuple(sorted((a, b), key=repr))


def seq_elem_simple(s, i):
    """element without running code, or None"""
    t = s[0]
    if t == "of":
        return elem_simple(s[1], i)
    if t == "zip":
        a, b = seq_elem_simple(s[1], i), seq_elem_simple(s[2], i)
        return None if a is None or b is None else ("T", (a, b))
    if t == "enum":
        a = seq_elem_simple(s[1], i)
        return None if a is None else ("T", (i, a))
    if t == "skip":
        return seq_elem_simple(s[1], add(i, s[2]))
    if t == "take":
        return seq_elem_simple(s[1], i)
    if t == "rev":
        return seq_elem_simple(s[1], sub(sub(seq_len(s[1]), num(1)), i))
    if t == "range":
        return add(s[1], i)
    if t == "windows":
        if s[1][0] == "of":
            return ("slice", s[1][1], i, add(i, s[2]))
        return None
    if t == "chain":
        l1 = seq_len(s[1])
        if l1[0] == "int" and i[0] == "int":
            return seq_elem_simple(s[1], i) if i[1] < l1[1] else seq_elem_simple(s[2], num(i[1] - l1[1]))
        return None
    if t == "lam":
        return substitute(s[3], {s[1]: i})
    return None


# ---------------------------------------------------------------- equality conditions
CONCRETE = ("int", "bool", "str", "chr", "E", "S", "T", "list")


def is_term_list(v):
    return v[0] in ("list", "slice", "seq")


def eqv_raw(a, b):
    """condition under which two abstract values are structurally equal (no facts used)"""
    if a == b:
        return TRUE
    ta, tb = a[0], b[0]
    if ta in ("int", "lin", "len", "min", "max", "mul") or tb in ("int", "lin", "len", "min", "max", "mul"):
        return c_eq0(sub(a, b))
    if ta == tb and ta in ("bool", "str", "chr"):
        return FALSE
    if ta == "bool":
        return b if a[1] else neg(b)
    if tb == "bool":
        return a if b[1] else neg(a)
    if ta == "E" and tb == "E":
        if a[2] != b[2]:
            return FALSE
        return c_and([eqv_raw(x, y) for x, y in zip(a[3], b[3])])
    if ta == "S" and tb == "S" and a[1] == b[1]:
        return c_and([eqv_raw(x, y) for x, y in zip(a[2], b[2])])
    if ta == "T" and tb == "T":
        return c_and([eqv_raw(x, y) for x, y in zip(a[1], b[1])])
    if ta == "list" and tb == "list":
        if len(a[1]) != len(b[1]):
            return FALSE
        return c_and([eqv_raw(x, y) for x, y in zip(a[1], b[1])])
    if tb == "E" and ta != "E":
        a, b, ta, tb = b, a, tb, ta
    if ta == "E":
        cs = [("isv", b, a[2])]
        for i, f in enumerate(a[3]):
            cs.append(eqv_raw(f, ("fld", b, a[2], i)))
        return c_and(cs)
    if tb == "T":
        a, b, ta, tb = b, a, tb, ta
    if ta == "T":
        return c_and([eqv_raw(f, ("fld", b, "", i)) for i, f in enumerate(a[1])])
    if tb == "list":
        a, b, ta, tb = b, a, tb, ta
    if ta == "list":
        return c_and([eqv_raw(length(b), num(len(a[1])))] + [eqv_raw(x, elem_simple(b, num(i))) for i, x in enumerate(a[1])])
    return ("eq",) + tuple(sorted((a, b), key=repr))


class Obligation:
    """one potential panic site, seen on one abstract state"""
    __slots__ = ("kind", "body", "line", "cond", "facts", "what")

    def __init__(self, kind, body, line, cond, facts, what):
        self.kind = kind; self.body = body; self.line = line; self.cond = cond; self.facts = facts; self.what = what


def norm(path):
    """std path -> 'Owner::method'"""
    p = path
    m = re.match(r"^<(.*) as (.*)>::([\w#]+)$", p)
    if m:
        tr = strip_generics(m.group(2)).split("::")[-1]
        return tr + "::" + m.group(3)
    m = re.match(r"^(.*)::<impl (.*)>::([\w#]+)$", p)
    if m:
        inner = m.group(2)
        if " for " in strip_generics(inner):
            tr = strip_generics(inner.split(" for ")[0]).split("::")[-1]
            return tr + "::" + m.group(3)
        if inner.startswith("["):
            return ("array" if ";" in inner else "slice") + "::" + m.group(3)
        return strip_generics(inner).split("::")[-1] + "::" + m.group(3)
    q = strip_generics(p).replace("::::", "::")
    parts = [x for x in q.split("::") if x]
    return "::".join(parts[-2:])


def strip_generics(s):
    out, d = [], 0
    i = 0
    while i < len(s):
        c = s[i]
        if c == "<":
            d += 1
        elif c == ">" and (i == 0 or s[i - 1] != "-"):
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    return "".join(out)


def base_ty(ty):
    t = ty
    while True:
        t = t.strip()
        if t.startswith("&"):
            t = t[1:]
            if t.startswith("'"):
                t = t.split(" ", 1)[1] if " " in t else t
            if t.startswith("mut "):
                t = t[4:]
            continue
        break
    return strip_generics(t)


def int_op(base, a, b):
    """truncated division of machine integers"""
    if base in ("Div", "Rem") and b:
        q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
        return num(q if base == "Div" else a - b * q)
    return None


class Interp:
    recursion = 0

    def __init__(self, prog, summaries=None, max_depth=24, max_states=400, step_limit=400000, opaque=None, unroll=0):
        self.p = prog
        self.max_depth = max_depth
        self.max_states = max_states
        self.steps = 0
        self.step_limit = step_limit
        self.obls = []            # Obligation list
        self.fid = 0
        self.uid = 0
        self.unroll = unroll       # > 0: loops that have no summary are followed for this many iterations instead
        self.unrolled = set()
        self.summaries = summaries or {}
        self.opaque = opaque or (lambda path: False)
        self.closure_obligations = set()   # rewriting closures used through a fn pointer
        self.unmodelled = {}
        self.consts = {}
        self.stack = []
        self.nchecks = 0
        self.visited_bodies = set()
        self.nonneg = {}
        self._live = {}

    # ------------------------------------------------------------ helpers
    def fresh(self, what):
        self.uid += 1
        return ("opq", what, self.uid)

    def variants(self, ty):
        b = base_ty(ty)
        if b in STD_VARIANTS:
            return STD_VARIANTS[b]
        a = self.p.adts.get(b) or self.p.adts.get("cli::" + b)
        if a and a["kind"] == "enum":
            return [v["n"] for v in a["variants"]]
        return None

    def is_error_ty(self, ty):
        b = base_ty(ty)
        return b.endswith("Error") and b in self.p.adts

    # ------------------------------------------------------------ facts
    def variant_of(self, facts, v):
        if v[0] == "E":
            return v[2]
        return facts.get(("v", v))

    def cond_value(self, facts, c):
        """True/False/None"""
        t = c[0]
        if t == "bool":
            return c[1]
        if t == "not":
            r = self.cond_value(facts, c[1])
            return None if r is None else not r
        if t == "and":
            un = False
            for x in c[1]:
                r = self.cond_value(facts, x)
                if r is False:
                    return False
                if r is None:
                    un = True
            return None if un else True
        if t == "isv":
            v = self.variant_of(facts, c[1])
            if v is not None:
                return v == c[2]
            if c[2] in facts.get(("nv", c[1]), ()):
                return False
            return None
        if t in ("le0", "lt0"):
            r = self.lin_value(facts, c)
            return facts.get(("b", c)) if r is None else r
        if t == "eq0":
            r1 = self.lin_value(facts, ("le0", c[1]))
            if r1 is False:
                return False
            r2 = self.lin_value(facts, ("le0", scale(c[1], -1)))
            if r2 is False:
                return False
            if r1 and r2:
                return True
            if facts.get(("b", c)) is not None:
                return facts[("b", c)]
            return None
        r = facts.get(("b", c))
        if r is not None:
            return r
        if t == "eq":
            va, vb = self.variant_of(facts, c[1]), self.variant_of(facts, c[2])
            if va and vb and va != vb:
                return False
            if va and not vb and va in facts.get(("nv", c[2]), ()):
                return False
            if vb and not va and vb in facts.get(("nv", c[1]), ()):
                return False
        return None

    def lin_value(self, facts, c):
        strict = c[0] == "lt0"
        # integers: lt0 over rationals only when tagged; intervals of single atoms and difference constraints
        hi = self.upper(facts, c[1])
        if hi is not None and (hi < 0 if strict else hi <= 0):
            return True
        lo = self.upper(facts, scale(c[1], -1))
        if lo is not None:
            lo = -lo
            if (lo >= 0 if strict else lo > 0):
                return False
        return None

    def upper(self, facts, e):
        """an upper bound of the linear form e implied by the facts (difference-bound closure), or None"""
        c, d = lin_parts(e)
        if not d:
            return c
        best = None
        if len(d) == 1:
            (a, k), = d.items()
            if k == 1:
                b = self.dist(facts, a, None)
                return None if b is None else b + c
            if k == -1:
                b = self.dist(facts, None, a)
                return None if b is None else b + c
        if len(d) == 2:
            (a, k), (b, m) = d.items()
            if k == -1 and m == 1:
                a, k, b, m = b, m, a, k
            if k == 1 and m == -1:
                r = self.dist(facts, a, b)
                if r is not None:
                    return r + c
        # direct lookup of the same form
        for (kk, val) in facts.items():
            if kk[0] == "b" and kk[1][0] in ("le0", "lt0") and val is True:
                diff = sub(e, kk[1][1])
                if diff[0] == "int":
                    return diff[1]
        # a = sum of upper bounds
        tot = c
        for a, k in d.items():
            if k > 0:
                b = self.dist(facts, a, None)
            else:
                b = self.dist(facts, None, a)
            if b is None:
                return None
            tot += abs(k) * b
        return tot

    def edges(self, facts):
        """difference constraints x - y <= c from the facts (None = zero)"""
        es = []
        atoms = set()
        for kk, val in facts.items():
            if kk[0] != "b":
                continue
            c = kk[1]
            if c[0] in ("le0", "lt0", "eq0"):
                forms = []
                if c[0] == "eq0":
                    if val:
                        forms = [c[1], scale(c[1], -1)]
                elif val:
                    forms = [c[1]]
                    # a <= 0 ; lt0 (rationals) treated as <= 0
                else:
                    # not (e <= 0)  =>  e >= 1 (ints): 1 - e <= 0;  not(e<0) => -e <= 0
                    forms = [add(num(1 if c[0] == "le0" else 0), c[1], -1)]
                for f in forms:
                    k, d = lin_parts(f)
                    atoms.update(d)
                    it = list(d.items())
                    if len(it) == 1:
                        a, m = it[0]
                        if m > 0:
                            es.append((a, None, (-k) // m))
                        else:
                            es.append((None, a, -(k // -m) if False else ((-k) // (-m)) if k <= 0 else -((k + (-m) - 1) // (-m))))
                    elif len(it) == 2:
                        (a, m), (b, n) = it
                        if m == 1 and n == -1:
                            es.append((a, b, -k))
                        elif m == -1 and n == 1:
                            es.append((b, a, -k))
        return es, atoms

    def is_nonneg(self, a):
        t = a[0]
        if t in ("len", "k", "kint", "usz"):
            return True
        if t in ("min", "max"):
            return all(self.nn_lin(x) for x in a[1:])
        if t == "mul":
            return all(self.nn_lin(x) for x in a[1:])
        return a in self.nonneg

    def nn_lin(self, e):
        c, d = lin_parts(e)
        return c >= 0 and all(k >= 0 and self.is_nonneg(a) for a, k in d.items())

    def dist(self, facts, x, y):
        """least c with x - y <= c derivable"""
        es, atoms = self.edges(facts)
        atoms = set(atoms)
        for v in (x, y):
            if v is not None:
                atoms.add(v)
        todo = list(atoms)
        while todo:
            a = todo.pop()
            if a is None:
                continue
            if self.is_nonneg(a):
                es.append((None, a, 0))
            if a[0] == "min":
                for o in a[1:]:
                    k, d = lin_parts(o)
                    # min <= o
                    if len(d) == 1 and list(d.values()) == [1]:
                        b, = d
                        es.append((a, b, k))
                        if b not in atoms:
                            atoms.add(b); todo.append(b)
                    elif not d:
                        es.append((a, None, k))
            if a[0] == "max":
                for o in a[1:]:
                    k, d = lin_parts(o)
                    if len(d) == 1 and list(d.values()) == [1]:
                        b, = d
                        es.append((b, a, -k))
                        if b not in atoms:
                            atoms.add(b); todo.append(b)
                    elif not d:
                        es.append((None, a, -k))
        INF = None
        distm = {x: 0}
        # x - y <= c : path from x to y; edge (u,v,c): u - v <= c
        for _ in range(len(atoms) + 2):
            ch = False
            for u, v, c in es:
                if u in distm:
                    n = distm[u] + c
                    if v not in distm or n < distm[v]:
                        distm[v] = n
                        ch = True
            if not ch:
                break
        return distm.get(y)

    def lin_consistent(self, facts):
        es, atoms = self.edges(facts)
        if not es:
            return True
        for a in list(atoms):
            if self.is_nonneg(a):
                es.append((None, a, 0))
        d = {a: 0 for a in atoms}
        d[None] = 0
        n = len(d)
        for i in range(n + 1):
            ch = False
            for u, v, c in es:
                if u not in d:
                    d[u] = 0
                if v not in d:
                    d[v] = 0
                if d[u] + c < d[v]:
                    d[v] = d[u] + c
                    ch = True
            if not ch:
                return True
        return False

    def assume(self, facts, c, val=True):
        """list of fact dicts (possibly several when a disjunction must be split); [] if contradictory"""
        t = c[0]
        if t == "not":
            return self.assume(facts, c[1], not val)
        r = self.cond_value(facts, c)
        if r is not None:
            return [facts] if r == val else []
        if t == "and":
            if val:
                fs = [facts]
                for x in c[1]:
                    fs = [g for f in fs for g in self.assume(f, x, True)]
                return fs
            out = []
            pre = [facts]
            for x in c[1]:
                for f in pre:
                    out.extend(self.assume(f, x, False))
                pre = [g for f in pre for g in self.assume(f, x, True)]
                if not pre:
                    break
            return out
        f = dict(facts)
        if t == "isv":
            if val:
                f.pop(("nv", c[1]), None)
                f[("v", c[1])] = c[2]
            else:
                f[("nv", c[1])] = f.get(("nv", c[1]), frozenset()) | {c[2]}
            return [f]
        f[("b", c)] = val
        if t in ("le0", "eq0", "lt0") and (val or t != "eq0"):
            if not self.lin_consistent(f):
                return []
        if t == "eq0" and not val:
            # lengths: x != lo bound sharpened
            if self.cond_value(facts, ("le0", c[1])) is True:
                return self.assume(f, ("le0", add(c[1], num(1))), True)
            if self.cond_value(facts, ("le0", scale(c[1], -1))) is True:
                return self.assume(f, ("le0", add(scale(c[1], -1), num(1))), True)
        if t == "eq" and val:
            a, b = c[1], c[2]
            va, vb = self.variant_of(facts, a), self.variant_of(facts, b)
            if va and not vb:
                f[("v", b)] = va
            if vb and not va:
                f[("v", a)] = vb
        return [f]

    # ------------------------------------------------------------ places
    def read_cell(self, st, cell, proj):
        v = st.store.get(cell)
        if v is None:
            return self.fresh("uninit")
        for e in proj:
            v = self.project(st, v, e)
        return v

    def project(self, st, v, e):
        if e[0] == "f":          # ("f", variant, idx)
            return self.field(st, v, e[1], e[2])
        if e[0] == "i":
            return self.element(st, v, e[1])
        if e[0] == "sub":
            return self.subslice(st, v, e[1], e[2])
        return v

    def field(self, st, v, variant, idx):
        t = v[0]
        if t == "S":
            return v[2][idx] if idx < len(v[2]) else self.fresh("field")
        if t == "T":
            return v[1][idx] if idx < len(v[1]) else self.fresh("field")
        if t == "E":
            if variant and v[2] != variant:
                return self.fresh("dead")
            return v[3][idx] if idx < len(v[3]) else self.fresh("field")
        if t == "C":
            return v[2][idx] if idx < len(v[2]) else self.fresh("cap")
        if t == "any":
            return ANY
        if t == "mref":
            return self.field(st, self.read_cell(st, v[1], v[2]), variant, idx)
        return ("fld", v, variant, idx)

    def element(self, st, v, i):
        if v[0] == "mref":
            v = self.read_cell(st, v[1], v[2])
        if v[0] == "any":
            return ANY
        return elem_simple(v, i)

    def subslice(self, st, v, a, b):
        if v[0] == "mref":
            v = self.read_cell(st, v[1], v[2])
        return mk_slice(v, a, b)

    def resolve(self, st, fid, body, pl):
        """place -> (cell, proj) for writing, following mutable references"""
        cell, proj = (fid, pl["l"]), ()
        variant = ""
        for e in pl.get("p", []):
            if e == "*":
                v = self.read_cell(st, cell, proj)
                if v[0] == "mref":
                    cell, proj = v[1], v[2]
                variant = ""
            elif "f" in e:
                proj = proj + (("f", variant, e["f"]),)
                variant = ""
            elif "d" in e:
                variant = e["n"]
            elif "i" in e:
                proj = proj + (("i", self.read_cell(st, (fid, e["i"]), ())),)
            elif "ci" in e:
                if e["end"]:
                    L = self.read_cell(st, cell, proj)
                    proj = proj + (("i", sub(length(self.deref(st, L)), num(e["ci"]))),)
                else:
                    proj = proj + (("i", num(e["ci"])),)
            elif "sub" in e:
                L = self.deref(st, self.read_cell(st, cell, proj))
                hi = sub(length(L), num(e["to"])) if e["end"] else num(e["to"])
                proj = proj + (("sub", num(e["sub"]), hi),)
        return cell, proj

    def deref(self, st, v):
        while v[0] == "mref":
            v = self.read_cell(st, v[1], v[2])
        return v

    def read_place(self, st, fid, body, pl):
        cell, proj = self.resolve(st, fid, body, pl)
        return self.read_cell(st, cell, proj)

    def write(self, st, cell, proj, val):
        if not proj:
            st.store[cell] = val
            return
        base = st.store.get(cell, ("opq", "uninit", 0))
        st.store[cell] = self.update(st, base, proj, val)

    def update(self, st, base, proj, val):
        if not proj:
            return val
        e, rest = proj[0], proj[1:]
        if base[0] == "mref":
            self.write(st, base[1], base[2] + proj, val)
            return base
        if e[0] == "f":
            idx = e[2]
            if base[0] == "S" and idx < len(base[2]):
                fs = list(base[2]); fs[idx] = self.update(st, fs[idx], rest, val)
                return ("S", base[1], tuple(fs))
            if base[0] == "T" and idx < len(base[1]):
                fs = list(base[1]); fs[idx] = self.update(st, fs[idx], rest, val)
                return ("T", tuple(fs))
            if base[0] == "E" and idx < len(base[3]):
                fs = list(base[3]); fs[idx] = self.update(st, fs[idx], rest, val)
                return ("E", base[1], base[2], tuple(fs))
            if base[0] == "C" and idx < len(base[2]):
                fs = list(base[2]); fs[idx] = self.update(st, fs[idx], rest, val)
                return ("C", base[1], tuple(fs))
        if e[0] == "i" and base[0] == "list" and e[1][0] == "int" and 0 <= e[1][1] < len(base[1]):
            fs = list(base[1]); fs[e[1][1]] = self.update(st, fs[e[1][1]], rest, val)
            return ("list", tuple(fs))
        if e[0] == "sub" and base[0] == "list" and e[1][0] == e[2][0] == "int" and 0 <= e[1][1] <= e[2][1] <= len(base[1]):
            part = self.update(st, ("list", base[1][e[1][1]:e[2][1]]), rest, val)
            if part[0] == "list" and len(part[1]) == e[2][1] - e[1][1]:
                return ("list", base[1][:e[1][1]] + part[1] + base[1][e[2][1]:])
        return self.fresh("write")

    def operand(self, st, fid, body, o):
        if "cp" in o:
            return self.read_place(st, fid, body, o["cp"])
        if "mv" in o:
            return self.read_place(st, fid, body, o["mv"])
        if "fnref" in o:
            r = o["fnref"]
            return ("fn", r["res"] or r["fn"], r["fn"], tuple(r.get("ga", [])))
        if "closure" in o:
            return ("C", o["closure"], ())
        if "promoted" in o:
            return self.const_body(body.path.split("#promoted")[0] + "#promoted%d" % o["promoted"])
        ty = o.get("ty", "")
        if "v" in o:
            if isinstance(o["v"], bool):
                return ("bool", o["v"])
            return num(o["v"])
        if "s" in o:
            return ("str", o["s"])
        if "ch" in o:
            return ("chr", o["ch"])
        if "item" in o:
            q = o["item"]
            if q in self.p.bodies:
                return self.const_body(q)
            return ("call", "const:" + q, ())
        if o.get("zst"):
            if ty == "()":
                return UNIT
            b = base_ty(ty)
            return ("S", b, ())
        if "bytes" in o:
            return ("call", "bytes:" + o["bytes"], ())
        if "static" in o:
            return ("call", "static:" + o["static"], ())
        vs = self.variants(ty)
        if vs and "raw" in o and len(o["raw"]) == 1 and o["raw"][0] < len(vs):
            return ("E", base_ty(ty), vs[o["raw"][0]], ())
        return ("call", "const:%s:%s" % (ty, sorted((k, str(v)) for k, v in o.items())), ())

    def const_body(self, path):
        if path in self.consts:
            return self.consts[path]
        b = self.p.bodies.get(path)
        if b is None:
            return self.fresh("const")
        self.consts[path] = ("call", "const:" + path, ())
        obls = self.obls
        self.obls = []
        try:
            rs = self.run(b, [], State({}, {}))
            v = rs[0][0] if len(rs) == 1 else self.fresh("const")
        finally:
            self.obls = obls
        self.consts[path] = v
        return v

    # ------------------------------------------------------------ rvalues: list of (value, state)
    def rvalue(self, st, fid, body, s):
        v = s["v"]
        r = v["r"]
        if r == "use":
            return self.operand(st, fid, body, v["a"])
        if r == "ref":
            pl = v["pl"]
            if v["m"]:
                cell, proj = self.resolve(st, fid, body, pl)
                cur = self.read_cell(st, cell, proj)
                if pl.get("p") and pl["p"][-1] == "*" and cur[0] not in ("mref",):
                    # reborrow of a mutable reference
                    cell0, proj0 = self.resolve(st, fid, body, {"l": pl["l"], "p": pl["p"][:-1]})
                    w = self.read_cell(st, cell0, proj0)
                    if w[0] != "mref":
                        return w if w[0] in ("in", "pool", "opq", "fld", "elem", "call") else cur
                if proj and cell in st.store and st.store[cell][0] in ("in", "opq", "pool", "call"):
                    return cur
                return ("mref", cell, proj)
            val = self.read_place(st, fid, body, pl)
            return val
        if r == "raw":
            return self.read_place(st, fid, body, v["pl"])
        if r == "repeat":
            a = self.operand(st, fid, body, v["a"])
            m = re.match(r"^(\d+)", v["n"])
            if m and int(m.group(1)) <= 16:
                return ("list", (a,) * int(m.group(1)))
            return self.fresh("repeat")
        if r == "cast":
            a = self.operand(st, fid, body, v["a"])
            k = v["k"]
            if "ClosureFnPointer" in k or "ReifyFnPointer" in k:
                return ("fnptr", a)
            return a
        if r == "bin":
            a = self.deref(st, self.operand(st, fid, body, v["a"]))
            b = self.deref(st, self.operand(st, fid, body, v["b"]))
            return self.binop(st, v["op"], a, b)
        if r == "un":
            a = self.deref(st, self.operand(st, fid, body, v["a"]))
            if v["op"] == "Not":
                if a[0] == "bool" or not (a[0] in ("int", "lin")):
                    return neg(a)
                return self.fresh("bitnot")
            if v["op"] == "Neg":
                return scale(a, -1)
            if v["op"] == "PtrMetadata":
                return length(a)
            return self.fresh("un")
        if r == "discr":
            val = self.deref(st, self.read_place(st, fid, body, v["pl"]))
            return ("discr", val, base_ty(v["ty"]))
        if r == "agg":
            ops = tuple(self.operand(st, fid, body, o) for o in v["ops"])
            k = v["k"]
            if k == "tuple":
                return ("T", ops)
            if k == "array":
                return ("list", ops)
            if k == "closure":
                return ("C", v["cl"], ops)
            if k == "adt":
                b = v["adt"]
                if self.is_error_ty(b):
                    return ANY
                if v["en"]:
                    if b == "std::result::Result" and v["vn"] == "Err":
                        ops = (ANY,) if self.err_is_error(body, s["d"]) else ops
                    return ("E", b, v["vn"], ops)
                return ("S", b, ops)
            return self.fresh("agg")
        return self.fresh("rv:" + r)

    def err_is_error(self, body, d):
        ty = body.locals[d["l"]]
        return "Error" in ty

    def binop(self, st, op, a, b):
        if op in ("Eq", "Ne") and a[0] == b[0] == "discr" and a[1][0] == b[1][0] == "E":
            return TRUE if (a[1][2] == b[1][2]) == (op == "Eq") else FALSE
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        res = None
        if base in ("Add", "Sub", "Mul"):
            res = add(a, b) if base == "Add" else sub(a, b) if base == "Sub" else mul(a, b)
            if "WithOverflow" in op:
                return ("T", (res, ("ovf", base, a, b)))
            return res
        if base == "Eq":
            return self.eqv(st, a, b)
        if base == "Ne":
            return neg(self.eqv(st, a, b))
        if base in ("Lt", "Le", "Gt", "Ge") and a[0] not in ("chr",) and b[0] not in ("chr",):
            if base == "Lt":
                return c_lt(a, b)
            if base == "Le":
                return c_le(a, b)
            if base == "Gt":
                return c_lt(b, a)
            return c_le(b, a)
        if base in ("BitAnd", "BitOr", "BitXor") and self.is_cond(a) and self.is_cond(b):
            if base == "BitAnd":
                return c_and([a, b])
            if base == "BitOr":
                return c_or([a, b])
            return neg(c_and([neg(c_and([a, neg(b)])), neg(c_and([neg(a), b]))]))
        if a[0] == "int" and b[0] == "int":
            r = int_op(base, a[1], b[1])
            if r is not None:
                return r
        return ("op2", base, a, b)

    def is_cond(self, v):
        return v[0] in ("bool", "not", "and", "eq", "le0", "lt0", "eq0", "isv", "pred", "fld", "elem", "call", "opq", "in")

    def eqv(self, st, a, b):
        a, b = self.strip(st, a), self.strip(st, b)
        return eqv_raw(a, b)

    def strip(self, st, v):
        """replace top-level mutable refs by their current value (one level into tuples/enums)"""
        v = self.deref(st, v)
        if v[0] == "T":
            return ("T", tuple(self.strip(st, x) for x in v[1]))
        if v[0] == "E":
            return ("E", v[1], v[2], tuple(self.strip(st, x) for x in v[3]))
        return v

    # ------------------------------------------------------------ running bodies
    def run(self, body, args, st):
        """[(return value, state)] over all normally returning abstract traces"""
        if len(self.stack) > self.max_depth:
            raise Limit("inlining depth")
        self.fid += 1
        fid = self.fid
        self.stack.append((body, fid))
        self.visited_bodies.add(body.path)
        try:
            s = State(dict(st.store), st.facts)
            for i, a in enumerate(args):
                s.store[(fid, i + 1)] = a
            rets = []
            exits = self.explore(body, fid, 0, [s], None)
            for tgt, states in exits.items():
                assert tgt == "ret"
                for x in states:
                    v = x.store.get((fid, 0), UNIT)
                    store = {c: w for c, w in x.store.items() if c[0] != fid}
                    v = self.scrub(v, fid)
                    rets.append((v, State(store, x.facts)))
            return self.merge_rets(rets)
        finally:
            self.stack.pop()

    def scrub(self, v, fid):
        return v

    def merge_rets(self, rets):
        if len(rets) < 2:
            return rets
        groups = {}
        for v, st in rets:
            k = (v, tuple(sorted(((c, w) for c, w in st.store.items()), key=repr))) if len(rets) > 1 else None
            groups.setdefault(k, []).append((v, st))
        out = []
        for k, g in groups.items():
            if len(g) == 1:
                out.append(g[0])
            else:
                out.append((g[0][0], State(g[0][1].store, self.join_facts([x[1].facts for x in g]))))
        return out

    def join_facts(self, fl):
        """disjunction of fact sets: common facts + one 'or' over the differences"""
        # subsumption
        uniq = []
        for f in fl:
            if any(self.subsumes(g, f) for g in uniq):
                continue
            uniq = [g for g in uniq if not self.subsumes(f, g)]
            uniq.append(f)
        if len(uniq) == 1:
            return uniq[0]
        common = {k: v for k, v in uniq[0].items() if all(k in g and g[k] == v for g in uniq[1:])}
        diffs = []
        for f in uniq:
            d = frozenset((k, v) for k, v in f.items() if k not in common)
            diffs.append(d)
        common[("or", frozenset(diffs))] = True
        return common

    def subsumes(self, g, f):
        """g is weaker or equal (every fact of g holds in f)"""
        return len(g) <= len(f) and all(k in f and f[k] == v for k, v in g.items())

    def liveness(self, body):
        if body.path in self._live:
            return self._live[body.path]
        n = len(body.bbs)
        use = [set() for _ in range(n)]
        dfn = [set() for _ in range(n)]
        always = set()

        def pl_use(pl, u, d, is_def=False):
            if is_def and not pl.get("p"):
                d.add(pl["l"])
            elif pl["l"] not in d:
                u.add(pl["l"])
            for e in pl.get("p", []):
                if e != "*" and "i" in e and e["i"] not in d:
                    u.add(e["i"])

        def op_use(o, u, d):
            if "cp" in o:
                pl_use(o["cp"], u, d)
            elif "mv" in o:
                pl_use(o["mv"], u, d)

        for i, bb in enumerate(body.bbs):
            u, d = use[i], dfn[i]
            for s in bb["s"]:
                v = s["v"]
                for k in ("a", "b"):
                    if isinstance(v.get(k), dict):
                        op_use(v[k], u, d)
                for o in v.get("ops", []):
                    op_use(o, u, d)
                if "pl" in v:
                    pl_use(v["pl"], u, d)
                    if v["r"] == "ref" and v["m"] or v["r"] == "raw":
                        if "*" not in v["pl"].get("p", []):
                            always.add(v["pl"]["l"])
                pl_use(s["d"], u, d, True)
            t = bb["t"]
            if t["k"] == "switch":
                op_use(t["a"], u, d)
            elif t["k"] == "assert":
                op_use(t["c"], u, d)
                for o in t["ops"]:
                    op_use(o, u, d)
            elif t["k"] == "call":
                op_use(t["f"], u, d)
                for o in t["args"]:
                    op_use(o, u, d)
                pl_use(t["d"], u, d, True)
            elif t["k"] == "return":
                if 0 not in d:
                    u.add(0)
        live = [set(x) for x in use]
        changed = True
        order = list(reversed(body.rpo()))
        while changed:
            changed = False
            for b in order:
                out = set()
                for s in body.succ(b):
                    out |= live[s]
                nl = use[b] | (out - dfn[b])
                if nl != live[b]:
                    live[b] = nl
                    changed = True
        live = [x | always for x in live]
        self._live[body.path] = live
        return live

    def prune(self, body, fid, b, st):
        live = self.liveness(body)[b]
        dead = [c for c in st.store if c[0] == fid and c[1] not in live]
        if dead:
            refd = set()
            for c, v in st.store.items():
                if c not in dead:
                    collect_refs(v, refd)
            for c in dead:
                if c not in refd:
                    del st.store[c]

    def merge_at(self, body, fid, b, states):
        for s in states:
            self.prune(body, fid, b, s)
        if len(states) < 2:
            return states
        groups = {}
        for s in states:
            k = frozenset(s.store.items())
            groups.setdefault(k, []).append(s)
        out = []
        for k, g in groups.items():
            if len(g) == 1:
                out.append(g[0])
            else:
                out.append(State(g[0].store, self.join_facts([x.facts for x in g])))
        if len(out) > self.max_states:
            raise Limit("too many states at %s bb%d" % (body.path, b))
        return out

    def explore(self, body, fid, start, states, region):
        """runs `states` from block `start`; region = None for the whole body, else a set of blocks (a loop body
        whose header is `start`): returns {target or 'ret' or 'back': [states]}"""
        idx = body.rpoidx()
        loops = body.loops()
        pending = {start: list(states)}
        exits = {}
        first = True
        while pending:
            b = min(pending, key=lambda x: idx.get(x, 1 << 30))
            sts = pending.pop(b)
            sts = self.merge_at(body, fid, b, sts)
            if b in loops and not (first and region is not None and b == start):
                outs = {}
                for s in sts:
                    for tgt, xs in self.run_loop(body, fid, b, s).items():
                        outs.setdefault(tgt, []).extend(xs)
            else:
                outs = {}
                for s in sts:
                    for tgt, x in self.step_block(body, fid, b, s):
                        outs.setdefault(tgt, []).append(x)
            first = False
            for tgt, xs in outs.items():
                if tgt == "ret":
                    exits.setdefault("ret", []).extend(xs)
                elif region is not None and tgt == start:
                    exits.setdefault("back", []).extend(xs)
                elif region is not None and tgt not in region:
                    exits.setdefault(tgt, []).extend(xs)
                else:
                    pending.setdefault(tgt, []).extend(xs)
        return exits

    # ------------------------------------------------------------ loops
    def run_loop(self, body, fid, header, st):
        region = body.loops()[header]
        self.uid += 1
        lid = self.uid
        N = ("k", "n", lid)
        self.prune(body, fid, header, st)
        entry = dict(st.store)
        havoc = {}        # cell -> kind
        uid0 = self.uid
        saved = self.obls
        invs = {}
        for rnd in range(12):
            s = State(dict(entry), dict(st.facts))
            guess = {}
            for cell, kind in havoc.items():
                v = entry[cell]
                guess[cell] = self.havoc_value(v, kind, N, cell, lid)
                s.store[cell] = guess[cell]
            for f in self.havoc_facts(entry, havoc, N):
                fs = self.assume(s.facts, f)
                if not fs:
                    break
                s.facts = fs[0]
            for cell in invs:
                if cell in havoc and havoc[cell] == "opq":
                    s.facts = dict(s.facts)
                    s.facts[("b", sem(entry[cell], guess[cell]))] = True
            hstore, hfacts = dict(s.store), dict(s.facts)
            self.obls = []
            exits = self.explore(body, fid, header, [s], region)
            back = exits.get("back", [])
            changed = False
            for bs in back:
                self.prune(body, fid, header, bs)
                for cell, v in hstore.items():
                    nv = bs.store.get(cell)
                    if nv is None or nv == v:
                        if cell in havoc and havoc[cell] in ("it", "ind") and nv == v:
                            # not advanced on this path
                            havoc[cell] = "opq"; changed = True
                        continue
                    kind = havoc.get(cell)
                    if kind is None:
                        v0 = entry[cell]
                        if v0[0] == "it" and nv[0] == "it":
                            havoc[cell] = "it"
                        elif v0[0] == "peek" and nv[0] in ("peek", "it"):
                            havoc[cell] = "opq"
                        elif v0[0] in ("int", "lin", "len") and sub(nv, v)[0] == "int":
                            havoc[cell] = ("ind", sub(nv, v)[1])
                        else:
                            havoc[cell] = "opq"
                        changed = True
                    elif kind == "it":
                        if not (nv[0] == "it" and nv[1] == v[1] and sub(nv[2], v[2]) == num(1)):
                            havoc[cell] = "opq"; changed = True
                    elif isinstance(kind, tuple):
                        if sub(nv, v) != num(kind[1]):
                            havoc[cell] = "opq"; changed = True
                    else:
                        # opaque: candidate invariant sem(entry, value)
                        if cell in invs:
                            if not self.sem_holds(bs.facts, nv, v):
                                del invs[cell]
                                havoc[cell] = "opq"
                                invs_dropped = True
                                changed = True
            if not changed:
                # try adding semantic invariants once
                cand = [c for c, k in havoc.items() if k == "opq" and c not in invs and self.termish(entry[c])]
                if cand and rnd == 0 + len([1]) * 0 and False:
                    pass
                if cand and not getattr(self, "_tried_inv", {}).get((lid,)):
                    self.__dict__.setdefault("_tried_inv", {})[(lid,)] = True
                    for c in cand:
                        invs[c] = True
                    continue
                break
        else:
            raise Limit("loop does not stabilise in %s" % body.path)
        # universal facts
        back = exits.get("back", [])
        self.obls = saved + self.obls if not back else saved
        if back:
            outer = dict(hfacts)
            ds = []
            for bs in back:
                d = frozenset((k, v) for k, v in bs.facts.items() if outer.get(k) != v)
                ds.append(d)
            if not any(len(d) == 0 for d in ds):
                ds = reduce_disj(ds)
                uni = ("all", N, num(0), N, frozenset(ds))
            else:
                uni = None
            s = State(dict(hstore), dict(hfacts))
            if uni is not None:
                s.facts[uni] = True
            if any(k == "opq" for k in havoc.values()) and self.unroll:
                self.obls = saved
                return self.unroll_loop(body, fid, header, st, region)
            if any(k == "opq" for k in havoc.values()):
                # some loop-carried value is not summarised: what the loop established about it is lost
                s.facts[("lossy", body.path)] = True
            exits = self.explore(body, fid, header, [s], region)
        exits.pop("back", None)
        return exits

    def unroll_loop(self, body, fid, header, st, region):
        self.unrolled.add(body.path)
        out = {}
        states = [st]
        for _ in range(self.unroll + 1):
            exits = self.explore(body, fid, header, states, region)
            states = exits.pop("back", [])
            for tgt, xs in exits.items():
                out.setdefault(tgt, []).extend(xs)
            if not states:
                break
            for x in states:
                self.prune(body, fid, header, x)
        return out

    def termish(self, v):
        return v[0] in ("in", "elem", "fld", "E", "call", "opq")

    def sem_holds(self, facts, a, b):
        if a == b:
            return True
        return facts.get(("b", sem(a, b))) is True

    def havoc_value(self, v, kind, N, cell, lid):
        if kind == "it":
            return ("it", v[1], add(v[2], N))
        if isinstance(kind, tuple):
            return add(v, scale(N, kind[1]))
        return ("opq", "loop", (lid, cell))

    def havoc_facts(self, entry, havoc, N):
        out = []
        for cell, kind in havoc.items():
            v = entry[cell]
            if kind == "it" and v[2] == num(0):
                ln = seq_len(v[1])
                parts = ln[1:] if ln[0] == "min" else (ln,)
                for x in parts:
                    out.append(c_le(N, x))
        return out

    # ------------------------------------------------------------ blocks
    def step_block(self, body, fid, b, st):
        self.steps += 1
        if self.steps > self.step_limit:
            raise Limit("step limit")
        st = st.copy()
        bb = body.bbs[b]
        for s in bb["s"]:
            if s["v"]["r"] == "setdiscr":
                cell, proj = self.resolve(st, fid, body, s["d"])
                self.write(st, cell, proj, self.fresh("setdiscr"))
                continue
            v = self.rvalue(st, fid, body, s)
            if isinstance(v, tuple) and v[0] == "discr" and False:
                pass
            cell, proj = self.resolve(st, fid, body, s["d"])
            self.write(st, cell, proj, v)
        t = bb["t"]
        k = t["k"]
        if k in ("goto", "drop"):
            return [(t["t"], st)]
        if k == "return":
            return [("ret", st)]
        if k == "switch":
            return self.switch(body, fid, t, st)
        if k == "assert":
            return self.do_assert(body, fid, t, st)
        if k == "call":
            return self.do_call(body, fid, b, t, st)
        return []

    def switch(self, body, fid, t, st):
        v = self.deref(st, self.operand(st, fid, body, t["a"]))
        out = []
        if v[0] == "discr":
            x, ty = v[1], v[2]
            vs = self.variants(ty)
            if vs is None and ty == "std::cmp::Ordering":
                vs = {255: "Less", 0: "Equal", 1: "Greater", -1: "Less"}
                names = [(n, vs.get(n)) for n, _ in t["ts"]]
                allv = ["Less", "Equal", "Greater"]
            elif vs is None:
                # unknown enum: fork
                for n, tgt in t["ts"]:
                    for f in self.assume(st.facts, ("pred", "variant", x, n)):
                        out.append((tgt, State(dict(st.store), f)))
                out.append((t["o"], st.copy()))
                return out
            else:
                names = [(n, vs[n] if 0 <= n < len(vs) else None) for n, _ in t["ts"]]
                allv = vs
            cur = self.variant_of(st.facts, x)
            if x[0] == "any":
                cur = None
            seen = set()
            for (n, nm), (_, tgt) in zip(names, t["ts"]):
                seen.add(nm)
                if cur is not None:
                    if cur == nm:
                        return [(tgt, st)]
                    continue
                if nm in st.facts.get(("nv", x), ()):
                    continue
                for f in self.assume(st.facts, ("isv", x, nm)):
                    out.append((tgt, State(dict(st.store), f)))
            rest = [n for n in allv if n not in seen]
            if cur is not None:
                return [(t["o"], st)]
            rest = [n for n in rest if n not in st.facts.get(("nv", x), ())]
            if rest and body.bbs[t["o"]]["t"]["k"] != "unreachable":
                if len(rest) == 1:
                    fs = self.assume(st.facts, ("isv", x, rest[0]))
                else:
                    f = dict(st.facts)
                    f[("nv", x)] = f.get(("nv", x), frozenset()) | frozenset(n for n in seen if n)
                    fs = [f]
                for f in fs:
                    out.append((t["o"], State(dict(st.store), f)))
            return out
        if t["ty"] == "bool" or self.is_cond(v) and t["ty"] == "bool":
            # ts: [[0, bbF]] , o: bbT
            tgts = dict((n, x) for n, x in t["ts"])
            ft = tgts.get(0, t["o"])
            tt = tgts.get(1, t["o"])
            for f in self.assume(st.facts, v, True):
                out.append((tt, State(dict(st.store), f)))
            for f in self.assume(st.facts, v, False):
                out.append((ft, State(dict(st.store), f)))
            return out
        if v[0] == "chr":
            for n, tgt in t["ts"]:
                if n == ord(v[1]):
                    return [(tgt, st)]
            return [(t["o"], st)]
        # integer switch
        pre = [st.facts]
        for n, tgt in t["ts"]:
            c = c_eq0(sub(v, num(n)))
            nxt = []
            for f in pre:
                for g in self.assume(f, c, True):
                    out.append((tgt, State(dict(st.store), g)))
                nxt.extend(self.assume(f, c, False))
            pre = nxt
        for f in pre:
            out.append((t["o"], State(dict(st.store), f)))
        return out

    def do_assert(self, body, fid, t, st):
        c = self.operand(st, fid, body, t["c"])
        cond = c if t["e"] else neg(c)
        m = t["m"]
        ops = [self.deref(st, self.operand(st, fid, body, o)) for o in t["ops"]]
        if m == "bounds":
            cond = c_lt(ops[1], ops[0])
        elif m == "overflow Sub":
            cond = c_le(ops[1], ops[0]) if self.unsigned(body, t) else TRUE
            if not self.unsigned(body, t):
                return [(t["t"], st)]
        elif m.startswith("overflow"):
            # additions/multiplications of lengths and indices: not treated as reachable
            return [(t["t"], st)]
        elif m in ("div0", "rem0"):
            cond = TRUE
        elif m not in ("bounds", "overflow Sub"):
            # pointer alignment / null checks of the compiler
            return [(t["t"], st)]
        self.nchecks += 1
        if self.cond_value(st.facts, cond) is not True:
            self.obls.append(Obligation(m, body, t["ln"], cond, st.facts, None))
        out = []
        for f in self.assume(st.facts, cond, True):
            out.append((t["t"], State(dict(st.store), f)))
        return out

    def unsigned(self, body, t):
        o = t["ops"][0]
        if "cp" in o or "mv" in o:
            pl = o.get("cp") or o.get("mv")
            ty = body.locals[pl["l"]] if not pl.get("p") else "usize"
            return ty.startswith("u")
        return o.get("ty", "usize").startswith("u")

    def panic(self, body, t, st, what):
        self.obls.append(Obligation("panic", body, t["ln"], FALSE, st.facts, what))

    # ------------------------------------------------------------ calls
    def do_call(self, body, fid, b, t, st):
        args = [self.operand(st, fid, body, a) for a in t["args"]]
        dty = body.locals[t["d"]["l"]] if not t["d"].get("p") else ""
        self.cur_dty = dty
        f = t["f"]
        results = None
        if "fnref" in f:
            r = f["fnref"]
            results = self.call_fn(r["res"] or r["fn"], r["fn"], args, st, body, t, dty, tuple(r.get("ga", [])))
        else:
            fv = self.deref(st, self.operand(st, fid, body, f))
            results = self.call_value(fv, args, st, body, t, dty)
        out = []
        if t["t"] < 0:
            self.panic(body, t, st, "diverging call " + str(f.get("fnref", {}).get("fn")))
            return []
        for v, s in results:
            if v is None:
                continue
            cell, proj = self.resolve(s, fid, body, t["d"])
            self.write(s, cell, proj, v)
            out.append((t["t"], s))
        return out

    def call_value(self, fv, args, st, body, t, dty):
        fv = self.deref(st, fv)
        if fv[0] == "fnptr":
            inner = fv[1]
            key = inner[1]
            if "Option<ast::rc::Rc<ast::term::Term>>" in dty and inner[0] in ("C", "fn") and len(args) == 2:
                # a rewriting function used through a function pointer: summarised as
                # "Some(r) implies r is equivalent to the argument"; the summary is its own obligation
                self.closure_obligations.add(key)
                x = self.deref(st, args[0])
                r = ("call", key, (x,))
                f2 = dict(st.facts)
                f2[("b", sem(x, r))] = True
                return [(("E", "std::option::Option", "None", ()), st.copy()),
                        (("E", "std::option::Option", "Some", (r,)), State(dict(st.store), f2))]
            return self.call_value(inner, args, st, body, t, dty)
        if fv[0] == "C":
            cb = self.p.bodies.get(fv[1])
            if cb is None:
                return [(self.unknown_call(fv[1], args, st, dty), st)]
            return self.run_inline(cb, [fv] + list(args), st, dty)
        if fv[0] == "fn":
            return self.call_fn(fv[1], fv[2], list(args), st, body, t, dty, fv[3] if len(fv) > 3 else ())
        return [(self.unknown_call("indirect", [fv] + list(args), st, dty), st)]

    def closure_call(self, clv, args, st, body, t, dty):
        """call a closure or function value with unpacked args; clv may be a mutable ref to a closure cell"""
        cv = self.deref(st, clv)
        if cv[0] == "C":
            cb = self.p.bodies.get(cv[1])
            if cb is None:
                return [(self.unknown_call(cv[1], args, st, dty), st)]
            selfv = clv if clv[0] == "mref" else cv
            return self.run_inline(cb, [selfv] + list(args), st, dty)
        return self.call_value(cv, args, st, body, t, dty)

    def run_inline(self, cb, args, st, dty):
        if sum(fr[0] is cb for fr in self.stack) > self.recursion or self.opaque(cb.path):
            return [(self.unknown_call(cb.path, args, st, dty), st)]
        return self.run(cb, args, st)

    def unknown_call(self, path, args, st, dty):
        self.unmodelled[path] = self.unmodelled.get(path, 0) + 1
        pure = True
        for a in args:
            if a[0] == "mref":
                pure = False
                self.write(st, a[1], a[2], self.fresh("mut:" + path.split("::")[-1]))
        if dty == "()":
            return UNIT
        if pure:
            return ("call", path, tuple(args))
        return self.fresh("call:" + path)

    def call_fn(self, path, decl, args, st, body, t, dty, ga):
        from models import MODELS
        if path in self.summaries:
            r = self.summaries[path](self, args, st, body, t, dty)
            if r is not None:
                return r
        elif self.summaries and norm(path) in self.summaries:
            r = self.summaries[norm(path)](self, args, st, body, t, dty)
            if r is not None:
                return r
        cb = self.p.bodies.get(path)
        if cb is not None and cb.kind == "closure" and decl.split("::")[-1] in ("call", "call_mut", "call_once"):
            tup = self.deref(st, args[1])
            return self.closure_call(args[0], list(tup[1]) if tup[0] == "T" else [tup], st, body, t, dty)
        if cb is not None and cb.kind == "fn" and not cb.bbs == []:
            n = norm(path)
            m = MODELS.get("local:" + path)
            if m is None and (n.startswith(("Clone::", "PartialEq::", "Hash::", "Debug::", "Display::")) or n in ("Deref::deref", "AsRef::as_ref", "Borrow::borrow")):
                m = MODELS.get(n)
            if m is None:
                if body is not None and body.crate == "cli" and False:
                    pass
                return self.run_inline(cb, args, st, dty)
            r = m(self, args, st, body, t, dty)
            if r is not None:
                return r
            return self.run_inline(cb, args, st, dty)
        n = norm(path)
        if n in ("v1::Some", "Option::Some", "v1::Ok", "Result::Ok", "v1::Err", "Result::Err") and len(args) == 1:
            v = n.split("::")[1]
            return [(("E", "std::option::Option" if v == "Some" else "std::result::Result", v, (args[0],)), st)]
        m = MODELS.get(n)
        if m is not None:
            r = m(self, args, st, body, t, dty)
            if r is not None:
                return r
        # trait method called on a type known only through its value
        if path == decl or True:
            r = self.trait_dispatch(decl, args, st, body, t, dty)
            if r is not None:
                return r
        return [(self.unknown_call(n, args, st, dty), st)]

    def trait_dispatch(self, decl, args, st, body, t, dty):
        return None


def collect_refs(v, out):
    if isinstance(v, tuple):
        if v and v[0] == "mref":
            out.add(v[1])
        for x in v:
            if isinstance(x, tuple):
                collect_refs(x, out)


def sem(a, b):
    return ("sem",) + tuple(sorted((a, b), key=repr))


def mk_slice(v, a, b):
    if v[0] == "list" and a[0] == "int" and b[0] == "int" and 0 <= a[1] <= b[1] <= len(v[1]):
        return ("list", v[1][a[1]:b[1]])
    if v[0] == "slice":
        return ("slice", v[1], add(v[2], a), add(v[2], b))
    if a == num(0) and b == length(v):
        return v
    return ("slice", v, a, b)


def reduce_disj(ds):
    out = []
    for d in ds:
        if any(o <= d for o in out):
            continue
        out = [o for o in out if not d <= o]
        out.append(d)
    return out
