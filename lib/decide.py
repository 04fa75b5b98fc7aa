"""Decides, for one abstract Ok-state of a rule, whether the facts it establishes make the accepted
inference valid.  The facts describe a family of terms; the family is expanded up to small list lengths
(congruence closure over access paths), its propositional/first-order skeleton is evaluated over all
interpretations of the unconstrained sub-terms in small domains, and an interpretation that makes every
premise clause true and the conclusion clause false is a counterexample to the rule."""
import itertools, sys
from fractions import Fraction
import absint as A
from absint import num, substitute, has_tag

sys.setrecursionlimit(6000)
MAXLEN = 4
MAXCL = 4


class Budget(Exception):
    pass


IDX = ("len", "k", "usz", "min", "max")


def atoms_of(v, out, tags=IDX):
    if isinstance(v, tuple):
        if v and v[0] in tags:
            out.add(v)
        for x in v:
            if isinstance(x, (tuple, frozenset)):
                atoms_of(x, out, tags)
    elif isinstance(v, frozenset):
        for x in v:
            atoms_of(x, out, tags)


def ground(v, env):
    """substitute integer atoms and normalise"""
    if not isinstance(v, tuple):
        if isinstance(v, frozenset):
            return frozenset(ground(x, env) for x in v)
        return v
    if v in env:
        return num(env[v])
    if not v:
        return v
    t = v[0]
    if t in ("int", "str", "bool", "chr", "in"):
        return v
    if t == "all":
        return v
    r = tuple(ground(x, env) if isinstance(x, (tuple, frozenset)) else x for x in v)
    if r in env:
        return num(env[r])
    if t == "lin":
        acc = num(r[1])
        for a, k in r[2]:
            acc = A.add(acc, A.scale(a, k))
        return acc
    if t == "elem":
        if r[2][0] == "int":
            return A.elem_simple(expand(r[1]), r[2])
        return r
    if t == "len":
        return A.length(expand(r[1]))
    if t in ("min", "max"):
        if all(x[0] == "int" for x in r[1:]):
            return num((min if t == "min" else max)(x[1] for x in r[1:]))
        return (A.imin if t == "min" else A.imax)(r[1], r[2])
    if t == "mul":
        return A.mul(r[1], r[2])
    if t == "op2" and r[2][0] == "int" and r[3][0] == "int":
        return A.int_op(r[1], r[2][1], r[3][1]) or r
    if t == "eq0":
        return A.c_eq0(r[1])
    if t in ("le0", "lt0"):
        if r[1][0] == "int":
            return ("bool", r[1][1] <= 0 if t == "le0" else r[1][1] < 0)
        return r
    if t in ("slice", "seq"):
        return expand(r)
    if t == "fld" and r[1][0] in ("E", "T", "S"):
        b = r[1]
        fs = b[3] if b[0] == "E" else b[1] if b[0] == "T" else b[2]
        if r[3] < len(fs) and (b[0] != "E" or not r[2] or b[2] == r[2]):
            return fs[r[3]]
    return r


def expand(v):
    """sequences of known length become lists"""
    if v[0] == "slice" and v[2][0] == "int" and v[3][0] == "int":
        lo, hi = v[2][1], v[3][1]
        if 0 <= lo <= hi and hi - lo <= 12:
            b = expand(v[1])
            return ("list", tuple(A.elem_simple(b, num(i)) for i in range(lo, hi)))
    if v[0] == "seq":
        n = A.seq_len(v[1])
        n = ground(n, {}) if n[0] in ("min", "max", "lin") else n
        if n[0] == "int" and 0 <= n[1] <= 12:
            xs = []
            for i in range(n[1]):
                e = A.seq_elem_simple(v[1], num(i))
                if e is None:
                    return v
                xs.append(ground(e, {}))
            return ("list", tuple(xs))
    return v


class Conflict(Exception):
    pass


class CC:
    """congruence closure over access paths with constructors"""

    def __init__(self):
        self.par = {}
        self.kids = {}
        self.var = {}
        self.nv = {}
        self.len = {}
        self.lit = {}
        self.calls = {}
        self.diseq = []

    def copy(self):
        c = CC.__new__(CC)
        c.par = dict(self.par)
        c.kids = {k: dict(v) for k, v in self.kids.items()}
        c.var = dict(self.var)
        c.nv = dict(self.nv)
        c.len = dict(self.len)
        c.lit = dict(self.lit)
        c.calls = dict(self.calls)
        c.diseq = list(self.diseq)
        return c

    def find(self, x):
        while self.par[x] != x:
            x = self.par[x]
        return x

    def node(self, v):
        if v in self.par:
            return self.find(v)
        t = v[0]
        if t == "fld":
            b = self.node(v[1])
            return self.kid(b, ("f", v[2], v[3]), v)
        if t == "elem" and v[2][0] == "int":
            b = self.node(v[1])
            return self.kid(b, ("e", v[2][1]), v)
        self.par[v] = v
        self.kids[v] = {}
        if t == "E":
            self.var[v] = v[2]
            for i, x in enumerate(v[3]):
                self.setkid(v, ("f", v[2], i), self.node(x))
        elif t == "S":
            for i, x in enumerate(v[2]):
                self.setkid(v, ("f", "", i), self.node(x))
        elif t == "T":
            for i, x in enumerate(v[1]):
                self.setkid(v, ("f", "", i), self.node(x))
        elif t == "list":
            self.len[v] = len(v[1])
            for i, x in enumerate(v[1]):
                self.setkid(v, ("e", i), self.node(x))
        elif t in ("int", "str", "bool", "chr"):
            self.lit[v] = v
        elif t == "call":
            key = ("call", v[1]) + tuple(self.node(x) for x in v[2])
            self.calls[v] = key
        return self.find(v)

    def kid(self, b, key, v=None):
        b = self.find(b)
        k = self.kids[b].get(key)
        if k is None:
            nv = v if v is not None else (("fld", b, key[1], key[2]) if key[0] == "f" else ("elem", b, num(key[1])))
            if nv in self.par:
                k = self.find(nv)
            else:
                self.par[nv] = nv
                self.kids[nv] = {}
                k = nv
            self.kids[b][key] = k
        elif v is not None and v not in self.par:
            self.par[v] = self.find(k)
            self.kids.setdefault(v, {})
        return self.find(k)

    def setkid(self, b, key, n):
        b = self.find(b)
        k = self.kids[b].get(key)
        if k is None:
            self.kids[b][key] = n
        else:
            self.merge(k, n)

    def merge(self, a, b):
        todo = [(a, b)]
        while todo:
            a, b = todo.pop()
            a, b = self.find(a), self.find(b)
            if a == b:
                continue
            # keep the constructor as representative
            if a[0] in ("E", "list", "T", "int", "str", "bool") and b[0] not in ("E", "list", "T", "int", "str", "bool"):
                a, b = b, a
            self.par[a] = b
            if a in self.lit and b in self.lit and self.lit[a] != self.lit[b]:
                raise Conflict
            if a in self.lit and b not in self.lit:
                self.lit[b] = self.lit[a]
            va, vb = self.var.get(a), self.var.get(b)
            if va and vb and va != vb:
                raise Conflict
            if va and not vb:
                self.var[b] = va
            nv = self.nv.get(a, frozenset()) | self.nv.get(b, frozenset())
            if nv:
                self.nv[b] = nv
                if self.var.get(b) in nv:
                    raise Conflict
            la, lb = self.len.get(a), self.len.get(b)
            if la is not None and lb is not None and la != lb:
                raise Conflict
            if la is not None:
                self.len[b] = la
            for key, k in self.kids[a].items():
                k2 = self.kids[b].get(key)
                if k2 is None:
                    self.kids[b][key] = k
                else:
                    todo.append((k, k2))
        return

    def close(self):
        """congruence of uninterpreted calls"""
        ch = True
        while ch:
            ch = False
            seen = {}
            for v, key in list(self.calls.items()):
                k = key[:2] + tuple(self.find(x) for x in key[2:])
                if k in seen and self.find(seen[k]) != self.find(v):
                    self.merge(seen[k], v)
                    ch = True
                seen[k] = v

    def set_variant(self, n, v):
        n = self.find(n)
        if self.var.get(n, v) != v or v in self.nv.get(n, ()):
            raise Conflict
        self.var[n] = v

    def not_variant(self, n, vs):
        n = self.find(n)
        if self.var.get(n) in vs:
            raise Conflict
        self.nv[n] = self.nv.get(n, frozenset()) | frozenset(vs)

    def set_len(self, n, k):
        n = self.find(n)
        if self.len.get(n, k) != k:
            raise Conflict
        self.len[n] = k

    def same(self, a, b, depth=0):
        """structurally equal in every model"""
        a, b = self.find(a), self.find(b)
        if a == b:
            return True
        if depth > 12:
            return False
        if a in self.lit and b in self.lit:
            return self.lit[a] == self.lit[b]
        if self.var.get(a) and self.var.get(a) == self.var.get(b) and a[0] == "E" and b[0] == "E" and len(a[3]) == len(b[3]):
            return all(self.same(self.kid(a, ("f", a[2], i)), self.kid(b, ("f", b[2], i)), depth + 1) for i in range(len(a[3])))
        la, lb = self.len.get(a), self.len.get(b)
        if la is not None and la == lb:
            return all(self.same(self.kid(a, ("e", i)), self.kid(b, ("e", i)), depth + 1) for i in range(la))
        if self.var.get(a) and self.var.get(a) == self.var.get(b):
            ar = VARIANT_ARITY.get(self.var[a])
            if ar is not None:
                v = self.var[a]
                return all(self.same(self.kid(a, ("f", v, i)), self.kid(b, ("f", v, i)), depth + 1) for i in range(ar))
        return False

    def check(self):
        self.close()
        for a, b in self.diseq:
            if self.same(self.node(a), self.node(b)):
                raise Conflict
        # acyclicity of term structure
        state = {}

        def go(x):
            x = self.find(x)
            s = state.get(x)
            if s == 1:
                raise Conflict
            if s == 2:
                return
            state[x] = 1
            for key, k in self.kids[x].items():
                go(k)
            state[x] = 2
        for x in list(self.par):
            if self.par[x] == x:
                go(x)


VARIANT_ARITY = {"Op": 2, "Const": 1, "Var": 2, "App": 2, "Sort": 1, "Binder": 3, "Let": 2, "ParamOp": 3,
                 "Integer": 1, "Real": 1, "String": 1}
TERM_VARIANTS = {"Const", "Var", "App", "Op", "Sort", "Binder", "Let", "ParamOp"}
INTERP = {"True": (0, 0), "False": (0, 0), "Not": (1, 1), "Implies": (2, MAXLEN), "And": (1, MAXLEN), "Or": (1, MAXLEN),
          "Xor": (1, MAXLEN), "Equals": (2, MAXLEN), "Distinct": (2, MAXLEN), "Ite": (3, 3), "Add": (2, MAXLEN),
          "Sub": (1, MAXLEN), "Mult": (2, MAXLEN), "LessThan": (2, MAXLEN), "GreaterThan": (2, MAXLEN), "LessEq": (2, MAXLEN),
          "GreaterEq": (2, MAXLEN), "RealDiv": (2, 3), "IntDiv": (2, 2)}
ARITH = ("Add", "Sub", "Mult", "RealDiv", "IntDiv")
REL = {"LessThan": lambda a, b: a < b, "GreaterThan": lambda a, b: a > b, "LessEq": lambda a, b: a <= b, "GreaterEq": lambda a, b: a >= b}


class Problem:
    """goal(cc) -> (premise node lists, conclusion) as access paths"""

    def __init__(self, facts, goal, operators, minprem=0, maxprem=3, budget=60000, extra=None, evalbudget=400000):
        self.goal = goal
        self.ops = operators
        self.budget = budget
        self.steps = 0
        self.inexact = False
        self.maxprem = maxprem
        self.unit = list(facts.items())
        self.cex = None
        self.cex_inexact = None
        self.nleaf = 0
        self.neval = 0
        self.evalbudget = evalbudget
        self.why = set()

    # ----- DFS over lengths, indices and disjunctions
    def solve(self):
        """'valid' | ('cex', description) | ('undecided', why)"""
        try:
            self.dfs(self.unit, {}, CC(), [], [], set())
        except Budget:
            if self.cex:
                return ("cex", self.cex)
            return ("undecided", "budget")
        except RecursionError:
            return ("undecided", "depth")
        if self.cex:
            return ("cex", self.cex)
        if self.cex_inexact:
            return ("undecided", "imprecise facts: " + "; ".join(sorted(self.why))[:400])
        return ("valid", None)

    def dfs(self, todo, env, cc, pend, filt, inex):
        """todo: facts to process; pend: facts with unassigned atoms / disjunctions; filt: semantic filters"""
        if self.cex:
            return
        self.steps += 1
        if self.steps > self.budget:
            raise Budget
        todo = list(todo)
        pend = list(pend)
        filt = list(filt)
        inex = set(inex)
        env = dict(env)
        try:
            while True:
                while todo:
                    k, x = todo.pop()
                    self.fact(k, x, env, cc, todo, pend, filt, inex)
                # re-examine pending facts
                progress = False
                cc.close()
                lens = {}
                rest = []
                for k, x in pend:
                    r = self.retry(k, x, env, cc)
                    if r is None:
                        rest.append((k, x))
                    else:
                        todo.extend(r)
                        progress = True
                pend = rest
                if not progress and not todo:
                    break
            cc.check()
        except Conflict:
            return
        # is the inference already valid with what is known?  (pending facts only strengthen the state)
        D = Denote(self, cc, env)
        try:
            need = D.build()
        except Conflict:
            return
        if need is not None:
            kind, node, choices = need
            for ch in choices:
                c2 = cc.copy()
                try:
                    if kind == "len":
                        c2.set_len(node, ch)
                    else:
                        c2.set_variant(node, ch)
                except Conflict:
                    continue
                self.dfs([], env, c2, pend, filt, inex)
                if self.cex:
                    return
            return
        self.nleaf += 1
        r = D.evaluate(filt, inex)
        if r is None:
            return
        if self.cex_inexact and (inex or D.inexact):
            # another imprecise counter-model on this state adds nothing
            return
        atom = self.pick_atom(pend, env, cc)
        if atom is not None:
            for n in self.domain(atom, env, cc):
                e2 = dict(env)
                e2[atom] = n
                c2 = cc.copy()
                try:
                    if atom[0] == "len":
                        L = ground(atom[1], env)
                        c2.set_len(c2.node(L), n)
                except Conflict:
                    continue
                self.dfs([], e2, c2, pend, filt, inex)
                if self.cex:
                    return
            return
        ors = [p for p in pend if p[0][0] == "or"]
        if ors:
            o = min(ors, key=lambda o: (len(o[0][1]), sum(len(d) for d in o[0][1])))
            rest = [p for p in pend if p is not o]
            for d in sorted(o[0][1], key=lambda d: (len(d), repr(d))):
                self.dfs(list(d), env, cc.copy(), rest, filt, inex)
                if self.cex:
                    return
            return
        for k, x in pend:
            inex.add("pending %s" % (k[0],))
        if inex or D.inexact:
            self.why |= inex | D.inexact
            self.cex_inexact = r
        else:
            self.cex = r

    def retry(self, k, x, env, cc):
        """re-ground a pending fact; list of replacement facts or None"""
        if k[0] == "or":
            live = []
            for d in k[1]:
                if self.dead(d, env, cc):
                    continue
                live.append(d)
            if not live:
                raise Conflict
            if len(live) == 1:
                return list(live[0])
            if len(live) < len(k[1]):
                return [(("or", frozenset(live)), True)]
            return None
        if k[0] == "all":
            lo, hi = self.ival(k[2], env, cc), self.ival(k[3], env, cc)
            if lo is None or hi is None:
                return None
            out = []
            for i in range(lo, min(hi, 12)):
                ds = frozenset(substitute_d(d, k[1], i) for d in k[4])
                out.append((("or", ds), True))
            return out
        ats = set()
        atoms_of(k, ats)
        ch = False
        for a in ats:
            if a not in env:
                v = self.ival(a, env, cc)
                if v is not None:
                    env[a] = v
                    ch = True
        if ch or not ats or all(a in env for a in ats):
            return [(k, x)]
        return None

    def dead(self, d, env, cc):
        """cheap refutation of a disjunct"""
        for k, x in d:
            if k[0] == "v":
                n = ground(k[1], env)
                n = cc.par.get(n) and cc.find(n)
                if n is not None and cc.var.get(n, x) != x:
                    return True
            elif k[0] == "b" and k[1][0] in ("le0", "eq0", "lt0"):
                c = ground(k[1], env)
                if c[0] == "bool" and c[1] != x:
                    return True
        return False

    def ival(self, v, env, cc):
        g = ground(v, env)
        if g[0] == "int":
            return g[1]
        # lengths known through the congruence closure
        ats = set()
        atoms_of(g, ats)
        e2 = {}
        for a in ats:
            if a[0] == "len":
                L = a[1]
                if L in cc.par:
                    n = cc.len.get(cc.find(L))
                    if n is not None:
                        e2[a] = n
        if e2:
            g = ground(g, e2)
            if g[0] == "int":
                return g[1]
        return None

    def pick_atom(self, pend, env, cc):
        best = None
        for k, x in pend:
            src = ("x", k[2], k[3]) if k[0] == "all" else k if k[0] != "or" else None
            if src is None:
                continue
            ats = set()
            atoms_of(ground(src, env), ats)
            for a in sorted(ats, key=repr):
                if a in env or a[0] in ("min", "max"):
                    continue
                sub = set()
                for y in a[1:]:
                    if isinstance(y, tuple):
                        atoms_of(y, sub)
                if any(s not in env for s in sub):
                    continue
                # bound k variables inside `all` are not free
                score = (len(repr(a)),)
                if best is None or score < best[0]:
                    best = (score, a)
        if best is None:
            for k, x in pend:
                if k[0] != "or":
                    continue
        return best[1] if best else None

    def domain(self, atom, env, cc):
        if atom[0] == "len":
            L = ground(atom[1], env)
            if L in cc.par:
                n = cc.len.get(cc.find(L))
                if n is not None:
                    return [n]
            if L == ("in", "premises"):
                return range(0, self.maxprem + 1)
            return range(0, MAXLEN + 1)
        return range(0, MAXLEN)

    def fact(self, k, x, env, cc, todo, pend, filt, inex):
        t = k[0]
        if t == "lossy":
            inex.add("loop in %s not summarised" % k[1])
            return
        if t == "or" or t == "all":
            r = self.retry(k, x, env, cc)
            if r is None:
                pend.append((k, x))
            else:
                todo.extend(r)
            return
        ats = set()
        gk = ground(k, env)
        atoms_of(gk, ats)
        if ats:
            e2 = {}
            for a in ats:
                v = self.ival(a, env, cc)
                if v is not None:
                    e2[a] = v
            if e2:
                gk = ground(gk, e2)
            ats = set()
            atoms_of(gk, ats)
        if ats and not (t == "same"):
            pend.append((k, x))
            return
        if t == "v":
            cc.set_variant(cc.node(gk[1]), x)
            self.note(gk[1], inex)
            return
        if t == "nv":
            cc.not_variant(cc.node(gk[1]), x)
            self.note(gk[1], inex)
            return
        if t == "same":
            a, b = gk[1], gk[2]
            if a[0] == "usz" or b[0] == "usz":
                return
            if ats:
                pend.append((k, x))
                return
            cc.merge(cc.node(a), cc.node(b))
            return
        if t == "b":
            self.cond(gk[1], x, cc, filt, inex, todo)
            return
        inex.add("fact %s" % t)

    def note(self, v, inex):
        if has_tag(v, ("opq", "op2", "pred", "ovf", "mref", "any")):
            inex.add("value lost: %s" % describe(v))
        cs = set()
        atoms_of(v, cs, ("call",))
        for c in cs:
            if c[1] not in ("sort", "value", "isnum"):
                inex.add("call %s" % c[1])

    def cond(self, c, val, cc, filt, inex, todo):
        t = c[0]
        if t == "bool":
            if c[1] != val:
                raise Conflict
            return
        if t == "not":
            return self.cond(c[1], not val, cc, filt, inex, todo)
        if t == "and":
            if val:
                for y in c[1]:
                    self.cond(y, True, cc, filt, inex, todo)
            else:
                todo.append((("or", frozenset(frozenset([(("b", y), False)]) for y in c[1])), True))
            return
        if t == "call" and c[1] == "isnum":
            # known only through the value facts that follow from it
            self.note(c, inex)
            return
        if t == "isv":
            self.note(c[1], inex)
            if val:
                cc.set_variant(cc.node(c[1]), c[2])
            else:
                cc.not_variant(cc.node(c[1]), [c[2]])
            return
        if t == "eq":
            r = A.eqv_raw(c[1], c[2])
            if r != c and r[0] != "eq":
                return self.cond(r, val, cc, filt, inex, todo)
            self.note(c, inex)
            a, b = cc.node(c[1]), cc.node(c[2])
            if val:
                cc.merge(a, b)
            else:
                cc.diseq.append((c[1], c[2]))
            if all((x[0] == "fld" and x[2] in ("Integer", "Real")) or x[:2] == ("call", "value") for x in (c[1], c[2])):
                filt.append(("lin", "eq0", A.sub(c[1], c[2]), val))
            return
        if t == "sem":
            self.note(c, inex)
            if val:
                filt.append(("sem", cc.node(c[1]), cc.node(c[2])))
            return
        if t in ("le0", "lt0", "eq0"):
            filt.append(("lin", t, c[1], val))
            _, d = A.lin_parts(c[1])
            for a in d:
                self.note(a, inex)
                if a[0] in ("fld", "elem", "in", "call"):
                    cc.node(a)
                else:
                    inex.add("arith %s" % (a[0],))
            return
        if t in ("fld", "elem", "in"):
            self.note(c, inex)
            cc.merge(cc.node(c), cc.node(("bool", val)))
            return
        inex.add("condition %s" % describe(c))


def birth(v):
    """creation number of a symbolic loop index or opaque value (None for anything else)"""
    if not (len(v) >= 3 and ((v[0] == "k" and v[1] == "n") or v[0] == "opq")):
        return None
    u = v[2]
    while isinstance(u, tuple):
        if not u:
            return None
        u = u[0]
    return u if isinstance(u, int) else None


def instance_names(v, lid, i):
    """values created while the loop body was analysed belong to one iteration: give each iteration its own copies"""
    if isinstance(v, frozenset):
        return frozenset(instance_names(x, lid, i) for x in v)
    if isinstance(v, tuple) and v:
        n = birth(v)
        if n is not None:
            if n > lid or (n == lid and v[0] == "opq"):
                return (v[0], v[1], (v[2], "@%d" % i)) + v[3:]
            return v
        return tuple(instance_names(x, lid, i) if isinstance(x, (tuple, frozenset)) else x for x in v)
    return v


def substitute_d(d, k, i):
    lid = birth(k)
    if lid is not None:
        d = instance_names(d, lid, i)
    return frozenset((subst(kk, k, i), subst(x, k, i) if isinstance(x, (tuple, frozenset)) and not isinstance(x, str) else x) for kk, x in d)


def subst(v, k, i):
    if isinstance(v, frozenset):
        return frozenset(subst(x, k, i) for x in v)
    if isinstance(v, tuple):
        if v == k:
            return num(i)
        return ground(tuple(subst(x, k, i) if isinstance(x, (tuple, frozenset)) else x for x in v), {})
    return v


def describe(v):
    from rules import pv
    try:
        return pv(v)[:80]
    except Exception:
        return str(v)[:80]


def eq_goal(a, b):
    """the two terms denote the same value"""
    return lambda D: ([], [("EQ", a, b)])


class Denote:
    def __init__(self, prob, cc, env):
        self.p = prob
        self.cc = cc
        self.env = env
        self.memo = {}
        self.inexact = set()
        self.sorts = {}

    def build(self):
        cc = self.cc
        prem, concl = self.p.goal(self)
        self.need = None
        self.prem = []
        for cl in prem:
            lits = self.lits(cl)
            if self.need:
                return self.need
            self.prem.append(lits)
        self.concl = self.lits(concl)
        return self.need

    def lits(self, cl):
        if isinstance(cl, list):
            out = []
            for x in cl:
                if isinstance(x, tuple) and x and x[0] == "EQ":
                    out.append(("Equals", (self.term(self.cc.node(x[1]), ()), self.term(self.cc.node(x[2]), ()))))
                else:
                    out.append(self.term(x, ()))
            return out
        n = self.cc.node(cl)
        ln = self.cc.len.get(n)
        if ln is None:
            self.need = ("len", n, range(0, MAXCL + 1))
            return []
        return [self.term(self.cc.kid(n, ("e", i)), ()) for i in range(ln)]

    def args(self, n, lo, hi):
        ln = self.cc.len.get(n)
        if ln is None:
            if self.need is None:
                self.need = ("len", n, range(lo, hi + 1))
            return None
        if lo is not None and ln < lo:
            raise Conflict      # ill-formed term: cannot be built by the parser
        return [self.cc.kid(n, ("e", i)) for i in range(ln)]

    def term(self, n, ctx):
        """node -> expression"""
        cc = self.cc
        n = cc.find(n)
        key = (n, ctx)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = ("atom", n, ctx)   # guards cycles
        e = self.term1(n, ctx)
        self.memo[key] = e
        return e

    def term1(self, n, ctx):
        cc = self.cc
        if self.need:
            return ("atom", n, ctx)
        v = cc.var.get(n)
        if v == "Op":
            opn = cc.kid(n, ("f", "Op", 0))
            argn = cc.kid(n, ("f", "Op", 1))
            op = cc.var.get(opn)
            if op is None:
                left = [o for o in self.p.ops if o not in cc.nv.get(opn, ())]
                if len(left) <= 12:
                    self.need = ("var", opn, left)
                    return ("atom", n, ctx)
                # an operator the facts say nothing about: still it may be one of the interpreted ones, but any
                # model for an uninterpreted function symbol is also one for a fresh function
                a = self.args(argn, 0, 2)
                if a is None:
                    return ("atom", n, ctx)
                return ("uf", ("op", opn), tuple(self.term(x, ctx) for x in a), n, ctx)
            if op in INTERP:
                lo, hi = INTERP[op]
                a = self.args(argn, lo, hi)
                if a is None:
                    return ("atom", n, ctx)
                if len(a) > 12:
                    raise Conflict
                if op in ("Not", "Ite", "True", "False") and len(a) != hi:
                    raise Conflict
                return (op, tuple(self.term(x, ctx) for x in a))
            a = self.args(argn, 1, 2)
            if a is None:
                return ("atom", n, ctx)
            return ("uf", ("op", op), tuple(self.term(x, ctx) for x in a), n, ctx)
        if v == "Const":
            c = cc.kid(n, ("f", "Const", 0))
            cv = cc.var.get(c)
            if cv in ("Integer", "Real"):
                p = cc.kid(c, ("f", cv, 0))
                if p in cc.lit and cc.lit[p][0] == "int":
                    return ("num", Fraction(cc.lit[p][1]))
                return ("natom", p, cv)
            if cv is None:
                return ("atom", n, ctx)
            return ("atom", n, ())
        if v == "App":
            f = cc.kid(n, ("f", "App", 0))
            argn = cc.kid(n, ("f", "App", 1))
            a = self.args(argn, 1, 2)
            if a is None:
                return ("atom", n, ctx)
            return ("uf", ("app", len(a)), (self.term(f, ctx),) + tuple(self.term(x, ctx) for x in a), n, ctx)
        if v == "ParamOp":
            o = cc.kid(n, ("f", "ParamOp", 0))
            oa = cc.kid(n, ("f", "ParamOp", 1))
            argn = cc.kid(n, ("f", "ParamOp", 2))
            a = self.args(argn, 0, 2)
            if a is None:
                return ("atom", n, ctx)
            return ("uf", ("pop", o, oa), tuple(self.term(x, ctx) for x in a), n, ctx)
        if v == "Binder":
            b = cc.kid(n, ("f", "Binder", 0))
            l = cc.kid(n, ("f", "Binder", 1))
            t = cc.kid(n, ("f", "Binder", 2))
            bk = cc.var.get(b)
            if bk in ("Forall", "Exists"):
                return (bk, tuple(self.term(t, ctx + ((l, i),)) for i in range(2)))
            return ("atom", n, ctx)
        return ("atom", n, ctx)

    # ----- evaluation
    def evaluate(self, filt, inex):
        """an interpretation making all premises true and the conclusion false, or None"""
        cc = self.cc
        sems = []
        lins = []
        for f in filt:
            if f[0] == "sem":
                sems.append((self.term(f[1], ()), self.term(f[2], ())))
                if self.need:
                    # lengths needed by a filter only: treat as opaque
                    self.need = None
            else:
                lins.append(f)
        # numeric values constrained by the linear facts
        exprs = []
        linf = []
        for _, t, e, val in lins:
            c, d = A.lin_parts(e)
            m = []
            for a, k in d.items():
                if a in cc.par and a[:2] != ("call", "value"):
                    n = cc.find(a)
                    if n in cc.lit and cc.lit[n][0] == "int":
                        c += k * cc.lit[n][1]
                        continue
                    m.append((("natom?", n), k))
                elif a[:2] == ("call", "value"):
                    e_ = self.term(cc.node(a[2][0]), ())
                    if self.need:
                        self.need = None
                    m.append((("expr", e_), k))
                    exprs.append(e_)
                elif a[0] == "mul":
                    m = None
                    break
                else:
                    m = None
                    break
            if m is None:
                self.inexact.add("nonlinear fact")
                continue
            linf.append((t, c, m, val))
        roots = [l for c in self.prem for l in c] + list(self.concl)
        typer = Typer()
        try:
            for r in roots:
                typer.unify(typer.of(r), "B")
            for e_ in exprs:
                typer.unify(typer.of(e_), "N")
            for a, b in sems:
                typer.unify(typer.of(a), typer.of(b))
            for v, key in cc.calls.items():
                if key[1] == "sort":
                    s = cc.find(v)
                    x = cc.find(key[2])
                    srt = cc.kids[s].get(("f", "Sort", 0))
                    if srt is not None:
                        sv = cc.var.get(cc.find(srt))
                        e = self.term(x, ())
                        if sv == "Bool":
                            typer.unify(typer.of(e), "B")
                        elif sv in ("Int", "Real"):
                            typer.unify(typer.of(e), "N")
                        elif sv is not None or "Bool" in cc.nv.get(cc.find(srt), ()):
                            typer.unify(typer.of(e), typer.fresh_nonbool())
        except TypeError_:
            return None
        atoms = []
        ufs = []
        seen = set()

        def go(e):
            if e in seen:
                return
            seen.add(e)
            if e[0] == "atom":
                atoms.append(e)
            elif e[0] == "natom":
                atoms.append(e)
            elif e[0] == "uf":
                for x in e[2]:
                    go(x)
                atoms.append(e)
                ufs.append(e)
            elif e[0] == "num":
                pass
            else:
                for x in e[1]:
                    go(x)
        for r in roots:
            go(r)
        for a, b in sems:
            go(a)
            go(b)
        for e_ in exprs:
            go(e_)
        na = {}
        for e in atoms:
            if e[0] == "natom":
                na[cc.find(e[1])] = e
        for t, c, m, val in linf:
            for (q, n), k in m:
                if q == "natom?" and n not in na:
                    na[n] = ("natom", n, "Real")
                    atoms.append(na[n])
        linf = [(t, c, [(na[q[1]] if q[0] == "natom?" else q, k) for q, k in m], val) for t, c, m, val in linf]
        doms = []
        nnum = 0
        for e in atoms:
            s = "N" if e[0] == "natom" else typer.sort(e)
            if s == "B":
                doms.append((False, True))
            elif s == "N":
                nnum += 1
                doms.append("N")
            else:
                doms.append((0, 1, 2))
        big = (Fraction(-2), Fraction(-1), Fraction(0), Fraction(1), Fraction(2), Fraction(1, 2))
        small = (Fraction(-1), Fraction(0), Fraction(1), Fraction(2))
        tiny = (Fraction(-1), Fraction(0), Fraction(1))
        nd = big if nnum <= 3 else small if nnum <= 5 else tiny
        intd = tuple(x for x in nd if x.denominator == 1)
        doms = [(intd if e[0] == "natom" and e[2] == "Integer" else nd) if d == "N" else d for e, d in zip(atoms, doms)]
        size = 1
        for d in doms:
            size *= len(d)
        if size > 400000:
            doms = [d[:2] if len(d) == 3 and d[0] == 0 else d for d in doms]
            size = 1
            for d in doms:
                size *= len(d)
        if size > 400000:
            self.p.why.add("too many interpretations")
            raise Budget
        # order ufs after their arguments (they are appended in post-order already)
        for vals in itertools.product(*doms):
            self.p.neval += 1
            if self.p.neval > self.p.evalbudget:
                raise Budget
            env = dict(zip(atoms, vals))
            ok = True
            ev = Eval(env)
            for t, c, m, val in linf:
                try:
                    s = c + sum((ev.val(a[1]) if a[0] == "expr" else env[a]) * k for a, k in m)
                except ZeroDivisionError:
                    ok = False
                    break
                r = s <= 0 if t == "le0" else s < 0 if t == "lt0" else s == 0
                if r != val:
                    ok = False
                    break
            if not ok:
                continue
            try:
                tab = {}
                for u in ufs:
                    key = (u[1], tuple(ev.val(x) for x in u[2]))
                    if tab.setdefault(key, env[u]) != env[u]:
                        ok = False
                        break
                if not ok:
                    continue
                if any(not any(ev.val(l) for l in cl) for cl in self.prem):
                    continue
                if any(ev.val(l) for l in self.concl):
                    continue
                if any(ev.val(a) != ev.val(b) for a, b in sems):
                    continue
            except ZeroDivisionError:
                continue
            return self.report(env)
        return None

    def report(self, env):
        return {"premises": [[show(l) for l in c] for c in self.prem], "conclusion": [show(l) for l in self.concl],
                "interpretation": {show(a): str(v) for a, v in env.items()}}


def show(e):
    if e[0] == "atom":
        return describe(e[1]) + ("@%d" % e[2][-1][1] if e[2] else "")
    if e[0] == "natom":
        return describe(e[1])
    if e[0] == "num":
        return str(e[1])
    if e[0] == "uf":
        return "f%s(%s)" % (e[1][1] if isinstance(e[1][1], (str, int)) else "", ", ".join(map(show, e[2])))
    return "(%s %s)" % (e[0], " ".join(map(show, e[1]))) if e[1] else e[0]


class Eval:
    def __init__(self, env):
        self.env = env
        self.memo = {}

    def val(self, e):
        if e in self.env:
            return self.env[e]
        if e in self.memo:
            return self.memo[e]
        r = self.val1(e)
        self.memo[e] = r
        return r

    def val1(self, e):
        t = e[0]
        if t == "num":
            return e[1]
        if t == "True":
            return True
        if t == "False":
            return False
        if t == "Ite":
            return self.val(e[1][1]) if self.val(e[1][0]) else self.val(e[1][2])
        a = [self.val(x) for x in e[1]]
        if t == "Not":
            return not a[0]
        if t in ("And", "Forall"):
            return all(a)
        if t in ("Or", "Exists"):
            return any(a)
        if t == "Xor":
            r = False
            for x in a:
                r ^= bool(x)
            return r
        if t == "Implies":
            r = a[-1]
            for x in reversed(a[:-1]):
                r = (not x) or r
            return r
        if t == "Equals":
            return all(x == y for x, y in zip(a, a[1:]))
        if t == "Distinct":
            return all(x != y for i, x in enumerate(a) for y in a[i + 1:])
        if t in REL:
            return all(REL[t](x, y) for x, y in zip(a, a[1:]))
        if t == "Add":
            return sum(a, Fraction(0))
        if t == "Sub":
            return -a[0] if len(a) == 1 else a[0] - sum(a[1:], Fraction(0))
        if t == "Mult":
            r = Fraction(1)
            for x in a:
                r *= x
            return r
        if t == "IntDiv":
            if Fraction(a[0]).denominator != 1 or Fraction(a[1]).denominator != 1:
                raise ZeroDivisionError
            q = a[0] // a[1]
            return Fraction(q if a[0] - q * a[1] >= 0 else q + 1)
        if t == "RealDiv":
            r = Fraction(a[0])
            for x in a[1:]:
                r /= x
            return r
        raise KeyError(t)


class TypeError_(Exception):
    pass


class Typer:
    def __init__(self):
        self.par = {}
        self.memo = {}
        self.n = 0

    def find(self, x):
        while self.par.get(x, x) != x:
            x = self.par[x]
        return x

    def fresh_nonbool(self):
        self.n += 1
        return ("nb", self.n)

    def unify(self, a, b):
        a, b = self.find(a), self.find(b)
        if a == b:
            return
        ca, cb = a in ("B", "N"), b in ("B", "N")
        if ca and cb:
            raise TypeError_
        if isinstance(a, tuple) and a[0] == "nb" and b == "B" or isinstance(b, tuple) and b[0] == "nb" and a == "B":
            raise TypeError_
        if ca or (isinstance(a, tuple) and a[0] == "nb"):
            self.par[b] = a
        else:
            self.par[a] = b

    def of(self, e):
        if e in self.memo:
            return self.memo[e]
        t = e[0]
        if t in ("atom", "uf"):
            s = ("v", e[1] if t == "atom" else e[3])
            self.memo[e] = s
            if t == "uf":
                for x in e[2]:
                    self.of(x)
            return s
        if t in ("num", "natom"):
            s = "N"
        elif t in ("True", "False"):
            s = "B"
        elif t in ("Not", "And", "Or", "Xor", "Implies", "Forall", "Exists"):
            for x in e[1]:
                self.unify(self.of(x), "B")
            s = "B"
        elif t in ("Equals", "Distinct"):
            for x in e[1][1:]:
                self.unify(self.of(e[1][0]), self.of(x))
            s = "B"
        elif t == "Ite":
            self.unify(self.of(e[1][0]), "B")
            self.unify(self.of(e[1][1]), self.of(e[1][2]))
            s = self.of(e[1][1])
        elif t in REL:
            for x in e[1]:
                self.unify(self.of(x), "N")
            s = "B"
        else:
            for x in e[1]:
                self.unify(self.of(x), "N")
            s = "N"
        self.memo[e] = s
        return s

    def sort(self, e):
        s = self.find(self.of(e))
        return s


def rule_goal(nprem_node, clause_idx):
    """goal of an ordinary rule: premises[i].clause |= conclusion"""
    def goal(D):
        cc = D.cc
        prem = []
        pn = cc.par.get(("in", "premises")) and cc.find(("in", "premises"))
        if pn is not None:
            for key, k in list(cc.kids[pn].items()):
                if key[0] == "e":
                    ln = cc.len.get(pn)
                    if ln is not None and key[1] >= ln:
                        continue
                    prem.append(cc.kid(k, ("f", "", clause_idx)))
        return prem, ("in", "conclusion")
    return goal
