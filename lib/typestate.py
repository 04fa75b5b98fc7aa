"""Typestate exploration on top of the abstract interpreter: every acyclic path is kept apart, loops are explored to a
fixpoint over the finite part of the state (flags and ghost cells); everything else a loop changes is widened."""
import absint as A
from absint import Interp, State, num, TRUE, FALSE, ANY, UNIT
import models  # noqa: F401

G = "ghost"


def gcell(name):
    return (G, name)


def finite(v, d=0):
    t = v[0]
    if t in ("bool", "gs", "str", "any"):
        return True
    if t == "E" and d < 3:
        return all(finite(x, d + 1) for x in v[3])
    if t == "T" and d < 3:
        return all(finite(x, d + 1) for x in v[1])
    return False


class TS(Interp):
    """events are recorded by the summaries in self.viol as (key, message, body, line)"""

    def __init__(self, prog, summaries, **kw):
        kw.setdefault("max_states", 4000)
        kw.setdefault("step_limit", 300000)
        Interp.__init__(self, prog, summaries=summaries, **kw)
        self.viol = {}
        self.events = {}
        self.on_back = None

    rec_limit = 0

    def run_inline(self, cb, args, st, dty):
        n = sum(1 for fr in self.stack if fr[0] is cb)
        if n and n <= self.rec_limit:
            return self.run(cb, args, st)
        return Interp.run_inline(self, cb, args, st, dty)

    def event(self, name):
        self.events[name] = self.events.get(name, 0) + 1

    def report(self, key, msg, body=None, t=None):
        where = ""
        if body is not None:
            where = " at " + body.where(t["ln"] if t else body.line)
        self.viol.setdefault(key, msg + where)

    def merge_at(self, body, fid, b, states):
        out, seen = [], set()
        for s in states:
            self.prune(body, fid, b, s)
            k = (frozenset(s.store.items()), frozenset(s.facts.items()))
            if k not in seen:
                seen.add(k)
                out.append(s)
        if len(out) > self.max_states:
            raise A.Limit("too many states at %s bb%d" % (body.path, b))
        return out

    def merge_rets(self, rets):
        out, seen = [], set()
        for v, s in rets:
            k = (v, frozenset(s.store.items()), frozenset(s.facts.items()))
            if k not in seen:
                seen.add(k)
                out.append((v, s))
        return out

    def widen(self, old, new, key):
        if new == old:
            return old
        if finite(new):
            return new
        if old[0] == new[0] and old[0] in ("S", "E") and old[1:-1] == new[1:-1] and len(old[-1]) == len(new[-1]):
            return old[:-1] + (tuple(self.widen(a, b, key + (i,)) for i, (a, b) in enumerate(zip(old[-1], new[-1]))),)
        if old[0] == new[0] == "T" and len(old[1]) == len(new[1]):
            return ("T", tuple(self.widen(a, b, key + (i,)) for i, (a, b) in enumerate(zip(old[1], new[1]))))
        if old[0] == new[0] == "mref" and old == new:
            return old
        if new[0] == "E" and len(key) < 6:
            return new[:3] + (tuple(x if finite(x) else ("opq", "loop", key + (new[2], i)) for i, x in enumerate(new[3])),)
        if old[0] == new[0] == "it" and old[1] == new[1]:
            return ("it", old[1], ("opq", "pos", key))
        return ("opq", "loop", key)

    def ts_loop(self, start, step, lid, cells_of):
        """start: State; step(State) -> (back states, exits dict); explores all distinct header states"""
        seen = set()
        work = [start]
        exits = {}
        n = 0
        while work:
            s = work.pop()
            k = (frozenset((c, v) for c, v in s.store.items()), frozenset(s.facts.items()))
            if k in seen:
                continue
            seen.add(k)
            n += 1
            if n > 400:
                raise A.Limit("loop does not stabilise")
            back, ex = step(s.copy())
            for tgt, xs in ex.items():
                exits.setdefault(tgt, []).extend(xs)
            for bs in back:
                if self.on_back is not None:
                    self.back_lid = lid
                    self.on_back(bs)
                ns = dict(start.store)
                for c in set(bs.store) | set(start.store):
                    if c not in start.store:
                        if c[0] == G:
                            ns[c] = bs.store[c] if finite(bs.store[c]) else self.widen(("bool", None), bs.store[c], (lid, c))
                        continue
                    if c not in bs.store:
                        continue
                    ns[c] = self.widen(start.store[c], bs.store[c], (lid, c))
                work.append(State(ns, start.facts))
        return exits

    def run_loop(self, body, fid, header, st):
        region = body.loops()[header]
        lid = (body.path, fid, header)
        self.prune(body, fid, header, st)

        def step(s):
            ex = self.explore(body, fid, header, [s], region)
            back = ex.pop("back", [])
            for b in back:
                self.prune(body, fid, header, b)
            return back, ex
        return self.ts_loop(st, step, lid, None)


def each(I, st, a_closure, elem, body, t, key, stop_on=None):
    """iterator adaptor consuming an unknown number of elements: elem(State) -> [(element or None, State)];
    returns [(stopped, value, State)]"""
    out = []

    def step(s):
        back = []
        for e, x in elem(s):
            if e is None:
                out.append((False, None, x))
                continue
            for v, y in I.closure_call(a_closure, [e], x, body, t, "?"):
                if stop_on is not None:
                    for is_stop, w, z in stop_on(v, y):
                        if is_stop:
                            out.append((True, w, z))
                        else:
                            back.append(z)
                else:
                    back.append(y)
        return back, {}
    I.ts_loop(st, step, key, None)
    return out


def find_body(prog, suffix, crate=None):
    """the function with this path, or the only one ending in it"""
    if suffix in prog.bodies:
        return prog.bodies[suffix]
    last = suffix.split("::")[-1]
    c = [b for p, b in prog.bodies.items() if b.kind == "fn" and p.split("::")[-1] == last]
    if len(c) == 1:
        return c[0]
    raise RuntimeError("anchor function %s not found (%d candidates)" % (suffix, len(c)))
