"""Loads the MIR facts dumped by driver/ and offers CFG / call-graph helpers."""
import json, os, subprocess, sys, re
from collections import defaultdict

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Body:
    __slots__ = ("path", "kind", "file", "line", "argc", "locals", "names", "bbs", "vis", "impl_of",
                 "crate", "_succ", "_pred", "_dom", "_live", "_mutb", "_loops", "_rpo", "_rpoidx")

    def __init__(self, j, crate):
        self.path = j["path"]; self.kind = j["kind"]; self.file = j["file"]; self.line = j["line"]
        self.argc = j["argc"]; self.locals = j["locals"]; self.names = j["names"]; self.bbs = j["bbs"]
        self.vis = j.get("vis", ""); self.impl_of = j.get("impl_of", ""); self.crate = crate
        self._succ = self._pred = self._dom = self._live = self._mutb = self._loops = self._rpo = self._rpoidx = None

    # --- CFG (normal edges only; unwind paths are not part of the analysis) ---
    def succ(self, b):
        if self._succ is None:
            self._succ = [term_succ(bb["t"]) for bb in self.bbs]
        return self._succ[b]

    def preds(self):
        if self._pred is None:
            p = [[] for _ in self.bbs]
            for b in self.rpo():
                for s in self.succ(b):
                    p[s].append(b)
            self._pred = p
        return self._pred

    def rpo(self):
        if self._rpo is None:
            seen, order = set(), []
            stack = [(0, iter(self.succ(0)))]
            seen.add(0)
            while stack:
                b, it = stack[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        stack.append((s, iter(self.succ(s))))
                        break
                else:
                    order.append(b)
                    stack.pop()
            order.reverse()
            self._rpo = order
            self._rpoidx = {b: i for i, b in enumerate(order)}
        return self._rpo

    def rpoidx(self):
        self.rpo()
        return self._rpoidx

    def dom(self):
        """dominator sets"""
        if self._dom is None:
            order = self.rpo()
            idom = {0: 0}
            idx = self.rpoidx()
            preds = self.preds()
            changed = True
            while changed:
                changed = False
                for b in order[1:]:
                    ps = [p for p in preds[b] if p in idom]
                    n = ps[0]
                    for p in ps[1:]:
                        x, y = p, n
                        while x != y:
                            while idx[x] > idx[y]:
                                x = idom[x]
                            while idx[y] > idx[x]:
                                y = idom[y]
                        n = x
                    if idom.get(b) != n:
                        idom[b] = n
                        changed = True
            self._dom = idom
        return self._dom

    def dominates(self, a, b):
        idom = self.dom()
        if a not in idom or b not in idom:
            return False
        while True:
            if a == b:
                return True
            if b == 0:
                return False
            b = idom[b]

    def loops(self):
        """header -> set of blocks (natural loops, merged by header)"""
        if self._loops is None:
            res = {}
            for b in self.rpo():
                for s in self.succ(b):
                    if self.dominates(s, b):
                        body = res.setdefault(s, {s})
                        st = [b]
                        while st:
                            x = st.pop()
                            if x in body:
                                continue
                            body.add(x)
                            st.extend(self.preds()[x])
            self._loops = res
        return self._loops

    def calls(self):
        """(block, terminator) of each call"""
        for i in self.rpo():
            t = self.bbs[i]["t"]
            if t["k"] == "call":
                yield i, t

    def where(self, ln=None):
        return "%s:%s (%s)" % (self.file, ln or self.line, self.path)

    def name_of(self, local):
        for n, p in self.names:
            if p["l"] == local and not p.get("p"):
                return n
        return "_%d" % local


def term_succ(t):
    k = t["k"]
    if k in ("goto", "drop", "assert"):
        return [t["t"]]
    if k == "switch":
        out = []
        for _, x in t["ts"]:
            if x not in out:
                out.append(x)
        if t["o"] not in out:
            out.append(t["o"])
        return out
    if k == "call":
        return [t["t"]] if t["t"] >= 0 else []
    return []


def callee(t):
    """(declared path, resolved path or '', generic args, fnref) of a call terminator"""
    f = t["f"]
    if "fnref" in f:
        r = f["fnref"]
        return r["fn"], r["res"], r
    return None, None, None


def unify_names(v, own, lib):
    """inside the executable's facts, names of its own items and of the library's are written the way Program indexes them"""
    if isinstance(v, dict):
        for k, x in v.items():
            if isinstance(x, str):
                if k in ("fn", "res", "cl", "closure", "adt", "item"):
                    y = x.replace("carcara::", "")
                    if y in lib and x != y:
                        v[k] = y
                    elif x in own:
                        v[k] = "cli::" + x
            else:
                unify_names(x, own, lib)
    elif isinstance(v, list):
        for x in v:
            unify_names(x, own, lib)


class Program:
    def __init__(self, d):
        self.bodies = {}
        self.adts = {}
        self.impls = []
        self.crates = {}
        for fn, crate in (("carcara.json", "carcara"), ("carcara.bin.json", "cli")):
            j = json.load(open(os.path.join(d, fn)))
            pre = "" if crate == "carcara" else "cli::"
            if crate == "cli":
                unify_names(j, {b["path"] for b in j["bodies"]} | {a["path"] for a in j["adts"]}, set(self.bodies) | set(self.adts))
            for b in j["bodies"]:
                body = Body(b, crate)
                body.path = pre + body.path
                self.bodies[body.path] = body
            for a in j["adts"]:
                a["path"] = pre + a["path"]
                self.adts[a["path"]] = a
            for i in j["impls"]:
                i["crate"] = crate
                self.impls.append(i)
        self.by_file = defaultdict(list)
        for b in self.bodies.values():
            self.by_file[b.file].append(b)

    def find(self, suffix):
        """the unique body whose path is `suffix` or ends with `::suffix`"""
        c = [b for p, b in self.bodies.items() if p == suffix or p.endswith("::" + suffix)]
        return c[0] if len(c) == 1 else None

    def closures_of(self, path):
        return [b for p, b in self.bodies.items() if p.startswith(path + "::{closure") and b.kind == "closure"]


def extract():
    """re-analyses /repo's current tree and returns the Program"""
    # VERIF_FACTS lets a developer reuse a dump; the registered commands never set it
    d = os.environ.get("VERIF_FACTS")
    if not d:
        d = os.path.join(HERE, ".build", "facts")
        r = subprocess.run([os.path.join(HERE, "facts.sh"), d], capture_output=True, text=True)
        if r.returncode != 0:
            sys.stderr.write(r.stdout + r.stderr)
            raise SystemExit(2)
    return Program(d)


def pl_str(p):
    s = "_%d" % p["l"]
    for e in p.get("p", []):
        if e == "*":
            s = "(*%s)" % s
        elif "f" in e:
            s += ".%d%s" % (e["f"], ":" + e["n"] if e.get("n") else "")
        elif "i" in e:
            s += "[_%d]" % e["i"]
        elif "ci" in e:
            s += "[%s%d min %d]" % ("-" if e["end"] else "", e["ci"], e["min"])
        elif "sub" in e:
            s += "[%d..%s%d]" % (e["sub"], "-" if e["end"] else "", e["to"])
        elif "d" in e:
            s += " as %s" % e["n"]
    return s


def op_str(o):
    if "cp" in o:
        return pl_str(o["cp"])
    if "mv" in o:
        return "move " + pl_str(o["mv"])
    if "fnref" in o:
        r = o["fnref"]
        return "fn:" + (r["res"] or r["fn"])
    return "const " + json.dumps({k: v for k, v in o.items() if k not in ("c",)})


def dump(b, out=sys.stdout):
    w = out.write
    w("fn %s  (%s:%d) argc=%d\n" % (b.path, b.file, b.line, b.argc))
    for i, t in enumerate(b.locals):
        w("  let _%d: %s  %s\n" % (i, t, b.name_of(i)))
    for i, bb in enumerate(b.bbs):
        if bb["cu"]:
            continue
        w(" bb%d:\n" % i)
        for s in bb["s"]:
            v = s["v"]
            r = v["r"]
            if r == "use":
                x = op_str(v["a"])
            elif r == "ref":
                x = "&%s%s" % ("mut " if v["m"] else "", pl_str(v["pl"]))
            elif r == "discr":
                x = "discr(%s)" % pl_str(v["pl"])
            elif r == "bin":
                x = "%s(%s, %s)" % (v["op"], op_str(v["a"]), op_str(v["b"]))
            elif r == "un":
                x = "%s(%s)" % (v["op"], op_str(v["a"]))
            elif r == "agg":
                x = "%s %s(%s)" % (v["k"], v.get("adt", v.get("cl", "")) + ("::" + v["vn"] if "vn" in v else ""), ", ".join(map(op_str, v["ops"])))
            elif r == "cast":
                x = "%s as %s [%s]" % (op_str(v["a"]), v["ty"], v["k"])
            else:
                x = json.dumps(v)
            w("    %s = %s  // %d\n" % (pl_str(s["d"]), x, s["ln"]))
        t = bb["t"]
        k = t["k"]
        if k == "call":
            x = "%s = %s(%s) -> bb%d" % (pl_str(t["d"]), op_str(t["f"]), ", ".join(map(op_str, t["args"])), t["t"])
        elif k == "switch":
            x = "switch %s [%s, else bb%d]" % (op_str(t["a"]), ", ".join("%s: bb%d" % (v, q) for v, q in t["ts"]), t["o"])
        elif k == "assert":
            x = "assert %s == %s (%s %s) -> bb%d" % (op_str(t["c"]), t["e"], t["m"], ", ".join(map(op_str, t["ops"])), t["t"])
        else:
            x = k + (" bb%d" % t["t"] if "t" in t else "")
        w("    %s  // %d\n" % (x, t["ln"]))


if __name__ == "__main__":
    p = Program(os.environ.get("VERIF_FACTS") or os.path.join(HERE, ".build", "facts"))
    for a in sys.argv[1:]:
        for q, b in p.bodies.items():
            if q == a or q.endswith("::" + a):
                dump(b)
