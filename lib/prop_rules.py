"""Properties decided by summarising rule implementations (C04, C05, C06, C07)."""
import os, signal, sys, traceback
import multiprocessing as mp
import absint, decide, rules
from absint import State, Interp

# rule names of the Alethe language whose soundness is decided, by property
CLAUSAL = """true false not_not and_pos and_neg or_pos or_neg xor_pos1 xor_pos2 xor_neg1 xor_neg2 implies_pos
 implies_neg1 implies_neg2 equiv_pos1 equiv_pos2 equiv_neg1 equiv_neg2 ite_pos1 ite_pos2 ite_neg1 ite_neg2
 and not_or or not_and xor1 xor2 not_xor1 not_xor2 implies not_implies1 not_implies2 equiv1 equiv2 not_equiv1
 not_equiv2 ite1 ite2 not_ite1 not_ite2 connective_def tautology and_intro weakening distinct_elim""".split()
EQUALITY = """eq_reflexive eq_congruent eq_congruent_pred symm not_symm eq_symmetric la_rw_eq
 la_disequality la_totality la_mult_pos la_mult_neg qnt_simplify cong ho_cong""".split()
SIMPLIFY = """ite_simplify eq_simplify not_simplify implies_simplify equiv_simplify bool_simplify comp_simplify""".split()

STEP_LISTS = ("conclusion", "premises", "args", "discharge")


class Timeout(Exception):
    pass


def _alarm(*a):
    raise Timeout()


CTX = {}


def init(prog):
    CTX["prog"] = prog
    CTX["tab"], CTX["default"] = rules.rule_table(prog)
    CTX["ops"] = [v["n"] for v in prog.adts["ast::term::Operator"]["variants"]]
    CTX["ci"] = rules.field_index(prog, "checker::rules::Premise", "clause")


def where(prog, fn):
    b = prog.bodies.get(fn)
    return b.where(b.line) if b is not None and hasattr(b, "where") else fn


def guarded(secs, f):
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(secs)
    try:
        return f()
    except Timeout:
        return {"status": "undecided", "why": "time limit"}
    except absint.Limit as e:
        return {"status": "undecided", "why": "analysis limit: %s" % e}
    except (decide.Conflict, decide.Budget, RecursionError) as e:
        return {"status": "undecided", "why": type(e).__name__}
    except MemoryError:
        return {"status": "undecided", "why": "memory"}
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)[-1]
        return {"status": "undecided", "why": "construct outside the analysed fragment (%s: %s at %s:%d)" % (type(e).__name__, str(e)[:80], os.path.basename(tb.filename), tb.lineno)}
    finally:
        signal.alarm(0)


def sound_job(spec):
    """spec = (rule, index into the table entry)"""
    rule, idx, secs = spec
    prog = CTX["prog"]
    strict, fn = CTX["tab"][rule][idx]
    out = {"rule": rule, "fn": fn[1], "strict": strict}

    def go():
        r = attempt(0)
        if r["status"] in ("partial", "undecided") and "not summarised" in r.get("why", ""):
            # loops without a summary are followed for as many iterations as lists may be long
            r2 = attempt(decide.MAXLEN)
            if r2["status"] in ("valid", "cex"):
                return r2
        return r

    def attempt(unroll):
        I, res = rules.analyse_rule(prog, fn, unroll=unroll)
        states = valid = 0
        why = []
        r = {"status": "valid"}
        for v, st in res:
            if v[0] == "E" and v[2] == "Err":
                continue
            states += 1
            if v[0] != "E":
                why.append("result " + rules.pv(v)[:80])
                continue
            P = decide.Problem(st.facts, decide.rule_goal(None, CTX["ci"]), CTX["ops"])
            s, d = P.solve()
            if s == "valid":
                valid += 1
                if P.nleaf == 0:
                    states -= 1
                    valid -= 1
            elif s == "cex":
                return {"status": "cex", "cex": d, "states": states, "facts": rules.pf(st.facts)[:40]}
            else:
                why.append(str(d)[:160])
        r["states"] = states
        r["decided"] = valid
        r["functions"] = len(I.visited_bodies)
        if I.unrolled:
            r["loops_bounded"] = sorted(I.unrolled)
        r["closures"] = sorted(I.closure_obligations)
        if states == 0:
            r["status"] = "undecided"
            r["why"] = "no accepting path was found by the analysis"
        elif why:
            r["status"] = "partial" if valid else "undecided"
            r["why"] = "; ".join(sorted(set(why)))[:300]
        return r
    out.update(guarded(secs, go))
    return out


def closure_job(spec):
    key, secs = spec
    prog = CTX["prog"]
    out = {"rewriter": key, "fn": key}

    def go():
        r = attempt(0)
        if r["status"] in ("partial", "undecided") and "not summarised" in r.get("why", ""):
            r2 = attempt(decide.MAXLEN)
            if r2["status"] in ("valid", "cex"):
                return r2
        return r

    def attempt(unroll):
        I = Interp(prog, max_states=3000, **({"unroll": unroll} if unroll else {}))
        term = ("in", "term")
        b = prog.bodies[key]
        args = [term, ("pool",)]
        if b.kind == "closure":
            args = [("C", key, ())] + args
        states = valid = 0
        why = []
        for v, st in I.run(b, args, State({}, {})):
            if v[0] == "E" and v[2] == "None":
                continue
            states += 1
            if v[0] != "E":
                why.append("result " + rules.pv(v)[:80])
                continue
            P = decide.Problem(st.facts, decide.eq_goal(term, v[3][0]), CTX["ops"], budget=int(__import__("os").environ.get("BUD","6000")))
            s, d = P.solve()
            if s == "valid":
                valid += 1
            elif s == "cex":
                return {"status": "cex", "cex": d, "states": states, "result": rules.pv(v[3][0])[:200], "facts": rules.pf(st.facts)[:20]}
            else:
                why.append(str(d)[:160])
        r = {"status": "valid", "states": states, "decided": valid, "functions": len(I.visited_bodies)}
        if states == 0:
            r["status"] = "undecided"
            r["why"] = "no rewriting path was found"
        elif why:
            r["status"] = "partial" if valid else "undecided"
            r["why"] = "; ".join(sorted(set(why)))[:300]
        return r
    out.update(guarded(secs, go))
    return out


def pool_map(f, specs):
    if not specs:
        return []
    ctx = mp.get_context("fork")
    with ctx.Pool(min(8, len(specs))) as P:
        return P.map(f, specs, chunksize=1)


def soundness(prog, names, tier, floor):
    init(prog)
    secs = 120 if tier == "quick" else 240
    specs = []
    missing = []
    for n in names:
        if n not in CTX["tab"]:
            missing.append(n)
            continue
        for i in range(len(CTX["tab"][n])):
            specs.append((n, i, secs))
    if len(missing) > len(names) // 2:
        raise RuntimeError("rule table not recovered: %d of %d rules missing" % (len(missing), len(names)))
    res = pool_map(sound_job, specs)
    keys = sorted({k for r in res for k in r.get("closures", [])})
    cres = pool_map(closure_job, [(k, 400 if tier == "quick" else 600) for k in keys])
    viol = []
    for r in res:
        if r["status"] == "cex":
            viol.append(("rule:%s" % r["rule"],
                         "rule %s (%s) accepts an inference its premises do not entail: %s" % (r["rule"], r["fn"], r["cex"]), r))
    for r in cres:
        if r["status"] == "cex":
            viol.append(("rewriter:%s" % r["fn"].split("::{")[0],
                         "rewriting function %s replaces a term by one with a different value: %s" % (r["fn"], r["cex"]), r))
    ok = [r for r in res + cres if r["status"] == "valid"]
    part = [r for r in res + cres if r["status"] in ("partial", "undecided")]
    if not viol and len(ok) < floor:
        raise RuntimeError("only %d of %d rule summaries were decided: %s" % (len(ok), len(res) + len(cres), [(r.get("rule", r["fn"]), r.get("why")) for r in part][:10]))
    states = sum(r.get("decided", 0) for r in res + cres)
    cov = {"obligations": len(res) + len(cres), "discharged": len(ok), "rules_decided": [r.get("rule", r["fn"]) for r in ok],
           "accepting_states_decided": states,
           "not_decided": [{"what": r.get("rule", r["fn"]), "function": r["fn"], "why": r.get("why", ""), "states_decided": r.get("decided", 0)} for r in part],
           "rules_not_in_table": missing,
           "functions_analysed": sum(r.get("functions", 0) for r in res + cres),
           "rule": "abstract Ok-summary of each rule implementation entails: premise clauses imply conclusion clause"}
    return viol, cov


# ---------------------------------------------------------------- panic freedom on step shapes
def lens_of(v, out):
    if isinstance(v, tuple):
        if v and v[0] == "len":
            out.append(v[1])
        for x in v:
            if isinstance(x, (tuple, frozenset)):
                lens_of(x, out)


def step_list(v, ci):
    """is v one of the lists a proof step supplies freely (clause, premises, arguments, premise clauses)?"""
    if v[0] == "in":
        return v[1] in STEP_LISTS
    if v[0] == "slice":
        return step_list(v[1], ci)
    if v[0] == "fld" and v[3] == ci and v[1][0] == "elem":
        return v[1][1] == ("in", "premises")
    return False


def panic_job(spec):
    rule, idx, secs = spec
    prog = CTX["prog"]
    strict, fn = CTX["tab"][rule][idx]
    out = {"rule": rule, "fn": fn[1]}

    def go():
        I, res = rules.analyse_rule(prog, fn)
        sites = {}
        nob = 0
        bad = []
        und = 0
        for o in I.obls:
            ls = []
            lens_of(o.cond, ls)
            if o.kind not in ("bounds", "index", "range", "overflow Sub", "split_at") or not ls or not all(step_list(x, CTX["ci"]) for x in ls):
                continue
            nob += 1
            facts = dict(o.facts)
            facts[("b", o.cond)] = False
            P = decide.Problem(facts, lambda D: ([], []), CTX["ops"], budget=2000)
            s, d = P.solve()
            if s == "cex":
                bad.append({"function": o.body.path, "where": o.body.where(o.line), "needs": rules.pv(o.cond), "kind": o.kind})
            elif s != "valid":
                und += 1
        return {"status": "cex" if bad else ("valid" if not und else "partial"), "bad": bad, "open": nob, "undecided": und,
                "checked": I.nchecks, "functions": len(I.visited_bodies)}
    out.update(guarded(secs, go))
    return out


def panics(prog, tier):
    init(prog)
    specs = [(n, i, 100 if tier == "quick" else 400) for n in sorted(CTX["tab"]) for i in range(len(CTX["tab"][n]))]
    res = pool_map(panic_job, specs)
    viol = []
    for r in res:
        seen = set()
        for b in r.get("bad", []):
            k = "%s:%s:%s" % (r["rule"], b["function"], b["needs"])
            if k in seen:
                continue
            seen.add(k)
            viol.append((k, "rule %s: access at %s in %s is not guarded by a check that %s does not hold" % (r["rule"], b["where"], b["function"], b["needs"]), b))
    done = [r for r in res if r["status"] in ("valid", "cex")]
    if len(done) < len(res) // 2:
        raise RuntimeError("only %d of %d rules analysed" % (len(done), len(res)))
    cov = {"obligations": len(done), "discharged": sum(r["status"] == "valid" for r in res), "rules_in_table": len(res),
           "panic_sites_visited": sum(r.get("checked", 0) for r in res),
           "not_decided": [{"rule": r["rule"], "why": r.get("why", "%d open accesses" % r.get("undecided", 0))} for r in res if r["status"] not in ("valid", "cex")],
           "rule": "every index/slice/subtraction on a list supplied by the proof step is dominated by a check implying it is in range"}
    return viol, cov


# ---------------------------------------------------------------- constant folding helpers
CONSTFN = ("as_number", "as_signed_number", "as_fraction")


def constant_job(spec):
    import concrete as K
    import models
    n, secs = spec
    prog = CTX["prog"]
    key = "ast::term::Term::" + n
    out = {"fn": key}

    def go():
        saved = models.MODELS.pop("local:" + key, None)
        try:
            I = Interp(prog, max_states=4000)
            res = I.run(prog.bodies[key], [("in", "term")], State({}, {}))
        finally:
            if saved is not None:
                models.MODELS["local:" + key] = saved
        hits = unk = 0
        for tm in K.terms():
            P = K.Point({"term": tm})
            m = K.meaning(tm)
            for v, st in res:
                if v[0] == "E" and v[2] == "None":
                    continue
                h = P.holds(st.facts)
                if h is False:
                    continue
                try:
                    r = P.val(v[3][0]) if v[0] == "E" and v[2] == "Some" else None
                except K.Unknown:
                    r = None
                except ZeroDivisionError:
                    if h:
                        return {"status": "cex", "cex": "for %s the division by zero aborts the process" % K.show(tm)}
                    continue
                if h and r is not None and (m is None or r != m):
                    return {"status": "cex", "cex": "for %s it returns %s, the value of the term is %s" % (K.show(tm), r, "not fixed" if m is None else m)}
                if r is None or h is None:
                    unk += 1
                else:
                    hits += 1
        r = {"status": "valid" if not unk and hits else "undecided", "hits": hits, "paths": len(res), "functions": len(I.visited_bodies)}
        if unk:
            r["why"] = "%d of %d evaluations not understood" % (unk, unk + hits)
        return r
    out.update(guarded(secs, go))
    return out


def constants(prog, secs):
    init(prog)
    return pool_map(constant_job, [(n, secs) for n in CONSTFN if "ast::term::Term::" + n in prog.bodies])


def simplification(prog, tier):
    viol, cov = soundness(prog, SIMPLIFY, tier, 6)
    cres = constants(prog, 200)
    if len(cres) < len(CONSTFN):
        raise RuntimeError("constant folding helpers not found")
    for r in cres:
        if r["status"] == "cex":
            viol.append(("constant:%s" % r["fn"].split("::")[-1], "%s does not return the value of the term: %s" % (r["fn"], r["cex"]), r))
    cov["obligations"] += len(cres)
    cov["discharged"] += sum(r["status"] == "valid" for r in cres)
    cov["constant_folding"] = cres
    return viol, cov
