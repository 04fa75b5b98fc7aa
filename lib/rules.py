"""Rule table and per-rule abstract summaries."""
import sys
import absint as A
import models  # noqa
from absint import Interp, State, ANY, num
from facts import callee


def rule_table(prog):
    """rule name -> callable value, read off the dispatch function: every string comparison that guards a
    function-pointer constant stored in the result."""
    b = prog.bodies["checker::shared::get_rule_shared"]
    I = Interp(prog, max_states=4000)
    name = ("in", "rule_name")
    strict = ("in", "strict")
    res = I.run(b, [name, strict], State({}, {}))
    table = {}
    default = None
    for v, st in res:
        names = [k for k, x in st.facts.items() if k[0] == "b" and k[1][0] == "eq" and x is True and name in k[1]]
        strictv = st.facts.get(("b", strict))
        if v[0] == "E" and v[2] == "None":
            default = True
            continue
        f = v[3][0] if v[0] == "E" else v
        while f[0] == "fnptr":
            f = f[1]
        for nm in names:
            s = [x[1] for x in nm[1] if isinstance(x, tuple) and x[0] == "str"][0]
            table.setdefault(s, []).append((strictv, f))
    return table, default


def rule_args(prog, n_prem=None):
    adt = prog.adts["checker::rules::RuleArgs"]
    vals = []
    for f in adt["variants"][0]["fields"]:
        n = f["n"]
        if n == "pool":
            vals.append(("pool",))
        else:
            vals.append(("in", n))
    return ("S", "checker::rules::RuleArgs", tuple(vals))


def field_index(prog, adt, name):
    for i, f in enumerate(prog.adts[adt]["variants"][0]["fields"]):
        if f["n"] == name:
            return i
    raise KeyError(name)


def analyse_rule(prog, fn, **kw):
    I = Interp(prog, **kw)
    body = prog.bodies[fn[1]]
    ra = rule_args(prog)
    args = [("C", fn[1], ()), ra] if fn[0] == "C" else [ra]
    res = I.run(body, args, State({}, {}))
    return I, res


def pv(v):
    """readable value"""
    t = v[0] if isinstance(v, tuple) and v else None
    if t == "in":
        return v[1]
    if t == "fld":
        return "%s.%s%s" % (pv(v[1]), (v[2] + "." if v[2] else ""), v[3])
    if t == "elem":
        return "%s[%s]" % (pv(v[1]), pv(v[2]))
    if t == "int":
        return str(v[1])
    if t == "len":
        return "|%s|" % pv(v[1])
    if t == "lin":
        return "(%s)" % "+".join([str(v[1])] * (v[1] != 0) + [("%d*" % k if k != 1 else "") + pv(a) for a, k in v[2]])
    if t == "k":
        return "k%d" % v[2]
    if t == "E":
        return "%s(%s)" % (v[2], ", ".join(map(pv, v[3]))) if v[3] else v[2]
    if t == "S":
        return "%s{%s}" % (v[1].split("::")[-1], ", ".join(map(pv, v[2])))
    if t == "T":
        return "(%s)" % ", ".join(map(pv, v[1]))
    if t == "list":
        return "[%s]" % ", ".join(map(pv, v[1]))
    if t == "str":
        return repr(v[1])
    if t == "bool":
        return str(v[1])
    if t == "not":
        return "!" + pv(v[1])
    if t == "and":
        return "(%s)" % " & ".join(map(pv, v[1]))
    if t == "eq":
        return "%s==%s" % (pv(v[1]), pv(v[2]))
    if t == "isv":
        return "%s is %s" % (pv(v[1]), v[2])
    if t in ("le0", "lt0", "eq0"):
        return "%s%s" % (pv(v[1]), {"le0": "<=0", "lt0": "<0", "eq0": "==0"}[t])
    if t == "call":
        return "%s(%s)" % (v[1].split("::")[-1], ", ".join(map(pv, v[2])))
    if t == "slice":
        return "%s[%s..%s]" % (pv(v[1]), pv(v[2]), pv(v[3]))
    if t == "sem":
        return "%s~%s" % (pv(v[1]), pv(v[2]))
    return str(v)


def pf(facts, ind="    "):
    out = []
    for k, x in facts.items():
        if k[0] == "v":
            out.append("%s is %s" % (pv(k[1]), x))
        elif k[0] == "nv":
            out.append("%s not in %s" % (pv(k[1]), sorted(x)))
        elif k[0] == "b":
            out.append(("" if x else "!") + "{" + pv(k[1]) + "}")
        elif k[0] == "or":
            out.append("OR" + "".join("\n%s  - %s" % (ind, ("; ".join(pf(dict(d), ind + "    ")))) for d in k[1]))
        elif k[0] == "all":
            out.append("ALL %s in %s..%s:" % (pv(k[1]), pv(k[2]), pv(k[3])) + "".join("\n%s  - %s" % (ind, ("; ".join(pf(dict(d), ind + "    ")))) for d in k[4]))
        else:
            out.append(str(k) + str(x))
    return out


if __name__ == "__main__":
    from facts import extract
    import time
    p = extract()
    tab, d = rule_table(p)
    if len(sys.argv) == 1:
        for n, v in sorted(tab.items()):
            print(n, v)
        print(len(tab), d)
    for n in sys.argv[1:]:
        for s, f in tab[n]:
            t0 = time.time()
            I, res = analyse_rule(p, f)
            print("==", n, f[1], "%.2fs" % (time.time() - t0), "steps", I.steps, "unmodelled", I.unmodelled)
            for v, st in res:
                print("  ->", pv(v))
                if v[0] == "E" and v[2] == "Ok":
                    for l in pf(st.facts):
                        print("    ", l)
            for o in I.obls:
                print("  OBL", o.kind, o.body.path, o.line, pv(o.cond), o.what)
