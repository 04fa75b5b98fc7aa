"""Pointwise evaluation of path summaries on small concrete terms.

A concrete term is ("Op", (name, (args...))) or ("Const", ((kind, (q,)),)) in the shape the analysis sees: a variant name
and its fields. Anything outside the fragment evaluates to UNKNOWN, which never discharges and never refutes."""
from fractions import Fraction
import itertools

UNKNOWN = ("unknown",)


class Unknown(Exception):
    pass


def const(kind, q):
    return ("Const", ((kind, (Fraction(q),)),))


def op(name, *args):
    return ("Op", ((name, ()), tuple(args)))


def euclid(n, d):
    q = n // d
    return Fraction(q if n - q * d >= 0 else q + 1)


def meaning(t):
    """value of an arithmetic term; None if it is not fixed by the theory"""
    if t[0] == "Const":
        return t[1][0][1][0]
    name, args = t[1][0][0], [meaning(x) for x in t[1][1]]
    if any(a is None for a in args) or not args:
        return None
    if name == "Sub":
        return -args[0] if len(args) == 1 else args[0] - sum(args[1:])
    if name == "Add":
        return sum(args)
    if name == "Mult":
        r = Fraction(1)
        for a in args:
            r *= a
        return r
    if name == "RealDiv":
        r = args[0]
        for a in args[1:]:
            if a == 0:
                return None
            r /= a
        return r
    if name == "IntDiv":
        r = args[0]
        for a in args[1:]:
            if a == 0 or a.denominator != 1 or r.denominator != 1:
                return None
            r = euclid(r, a)
        return r
    return None


def show(t):
    if t[0] == "Const":
        q = t[1][0][1][0]
        return str(q) if t[1][0][0] == "Integer" else "%s.0" % q if q.denominator == 1 else "(%s:Real)" % q
    return "(%s %s)" % (t[1][0][0], " ".join(map(show, t[1][1])))


class Point:
    def __init__(self, env):
        self.env = env

    def val(self, v):
        t = v[0]
        if t == "in":
            return self.env[v[1]]
        if t == "fld":
            b = self.val(v[1])
            if v[2] and b[0] != v[2]:
                raise Unknown
            if not v[2]:
                return b[1][v[3]] if isinstance(b[1], tuple) else b[v[3]]
            return b[1][v[3]]
        if t == "elem":
            l, i = self.val(v[1]), self.val(v[2])
            if not 0 <= i < len(l):
                raise Unknown
            return l[int(i)]
        if t == "len":
            return Fraction(len(self.val(v[1])))
        if t == "int":
            return Fraction(v[1])
        if t == "lin":
            return Fraction(v[1]) + sum(k * self.val(a) for a, k in v[2])
        if t == "mul":
            r = Fraction(1)
            for a in v[1:]:
                for x in (a if isinstance(a[0], tuple) else (a,)):
                    r *= self.val(x)
            return r
        if t == "T":
            return ("", tuple(self.val(x) for x in v[1]))
        if t == "E":
            return (v[2], tuple(self.val(x) for x in v[3]))
        if t == "bool":
            return v[1]
        if t == "call":
            n = v[1].split("::")[-1]
            a = [self.val(x) for x in v[2]]
            if n == "div":
                if a[1] == 0:
                    raise ZeroDivisionError
                return a[0] / a[1]
            if n == "into_numer_denom":
                return ("", (Fraction(a[0].numerator), Fraction(a[0].denominator)))
            if n == "numer":
                return Fraction(a[0].numerator)
            if n == "denom":
                return Fraction(a[0].denominator)
            if n == "is_integer":
                return a[0].denominator == 1
            if n in ("div_rem_euc", "div_euc", "div_rem", "div_rem_floor"):
                n_, d = a
                if d == 0:
                    raise ZeroDivisionError
                q = {"div_rem_euc": euclid, "div_euc": euclid, "div_rem": lambda x, y: Fraction(int(x / y)), "div_rem_floor": lambda x, y: Fraction(x // y)}[n](n_, d)
                return q if n == "div_euc" else ("", (q, n_ - q * d))
            if n == "is_zero":
                return a[0] == 0
            if n in ("from", "into", "clone"):
                return a[0]
        raise Unknown

    def cond(self, c):
        t = c[0]
        if t == "bool":
            return c[1]
        if t == "not":
            return not self.cond(c[1])
        if t == "and":
            return all(self.cond(x) for x in c[1])
        if t == "isv":
            return self.val(c[1])[0] == c[2]
        if t in ("le0", "lt0", "eq0"):
            x = self.val(c[1])
            return x <= 0 if t == "le0" else x < 0 if t == "lt0" else x == 0
        if t == "eq":
            return self.val(c[1]) == self.val(c[2])
        r = self.val(c)
        if isinstance(r, bool):
            return r
        raise Unknown

    def fact(self, k, x):
        t = k[0]
        if t == "v":
            return self.val(k[1])[0] == x
        if t == "nv":
            return self.val(k[1])[0] not in x
        if t == "b":
            return self.cond(k[1]) == x
        if t == "or":
            unk = False
            for d in k[1]:
                h = self.holds(dict(d))
                if h:
                    return True
                unk |= h is None
            if unk:
                raise Unknown
            return False
        if t == "same":
            return True
        raise Unknown

    def holds(self, facts):
        """True, False, or None (not known)"""
        unk = False
        for k, x in facts.items():
            try:
                if not self.fact(k, x):
                    return False
            except Unknown:
                unk = True
        return None if unk else True


def terms():
    """all constant terms of interest: signed constants, quotients of them, their negations, and near misses"""
    cs = [const("Integer", q) for q in (0, 1, 2, 7)] + [const("Real", q) for q in (0, 1, 2, "3/2", "1/3")]
    signed = cs + [op("Sub", c) for c in cs]
    out = list(signed)
    small = [const("Integer", 0), const("Integer", 2), const("Integer", 7), const("Real", 2), const("Real", "3/2")]
    small += [op("Sub", c) for c in small]
    divs = [op(o, a, b) for o in ("IntDiv", "RealDiv") for a in small for b in small]
    divs += [op(o, small[2], small[1], small[1]) for o in ("IntDiv", "RealDiv", "Add", "Mult", "Sub")]
    divs += [op(o, small[2], small[1]) for o in ("Add", "Mult", "Sub", "Mod", "LessThan", "Equals")]
    divs += [op("Abs", op("Sub", small[1])), op("ToInt", small[4]), op("Sub", op("Sub", small[1]))]
    out += divs + [op("Sub", d) for d in divs]
    return out
