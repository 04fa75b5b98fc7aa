#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below (run after editing them)."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
SRC = "carcara/src/"
TIER = "Existing tests run a few hundred hand-written proofs"


def P(id, title, statement, over, text, why, files, mech, tech=None, level="proof", note=None, na=None):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, tech=tech, level=level, note=note, na=na)


PROPS = [
 P("C01", "A proof with an unchecked step is never reported as fully valid",
   "If any accepted step of a proof was not checked by an implementation of its rule (a `hole` or `lia_generic` step, a rule the user allowed, or an unknown rule the user asked to ignore), the verdict is 'holey', never plain 'valid'. "
   "Conversely a proof without such steps is not reported holey. This holds for the sequential and the parallel checker, with and without statistics, wherever in the proof and in whichever worker the step occurs.",
   ["inputs", "schedules", "configurations"], "all proofs, configurations of allowed and ignored rules, thread counts and schedules",
   TIER + " with one rule each; none combines a hole with every other path through the checker, and the parallel merge is exercised on few schedules.",
   [SRC + "checker/shared.rs", SRC + "checker/mod.rs", SRC + "checker/parallel/mod.rs"],
   [("step core sets the holey flag", SRC + "checker/shared.rs check_step_core"), ("parallel merge of worker flags", SRC + "checker/parallel/mod.rs check, check_with_stats")],
   "typestate abstract interpretation of MIR", note="All paths of the step core, both checker loops and both merge routines, for any number of commands and workers; trusts the models of std iterators and threads."),
 P("C02", "Every command of an accepted proof was checked against its own data",
   "A proof is accepted only after every one of its commands, including those in nested subproofs, was visited and its check succeeded: steps by the rule named in the step applied to the step's own clause, arguments and referenced premises, assumptions against the problem's premises (unless local to a subproof). "
   "A failing check, or a worker thread that fails or dies, makes the whole check fail.",
   ["inputs", "schedules"], "all proofs (any nesting and length), all schedules of the parallel checker",
   TIER + "; a command that is skipped or checked against the wrong premises only shows on proofs that are wrong exactly there.",
   [SRC + "checker/mod.rs", SRC + "checker/parallel/mod.rs", SRC + "checker/shared.rs", SRC + "ast/iter.rs"],
   [("sequential loop", SRC + "checker/mod.rs check_impl"), ("worker loop", SRC + "checker/parallel/mod.rs worker_thread_check"), ("proof iterator", SRC + "ast/iter.rs ProofIter")],
   "typestate abstract interpretation of MIR", note="Both loops explored to a fixpoint for arbitrary command streams; the proof iterator is summarised exactly for stacks up to depth 3 (it only looks at the top frames). The distribution of commands to workers is a separate property."),
 P("C03", "Acceptance requires the empty clause outside every subproof",
   "A proof is accepted only if some checked step concludes the empty clause at the top level, that is while no subproof is open; an empty clause inside a subproof or a clause that merely looks empty never counts. "
   "The verdict depends only on the proof given, not on proofs checked before with the same checker.",
   ["inputs", "histories", "schedules"], "all proofs, nesting structures, sequences of checks and schedules",
   TIER + ", nearly all of which end in an empty clause at the root; reuse of a checker is not tested.",
   [SRC + "checker/mod.rs", SRC + "checker/parallel/mod.rs", SRC + "ast/context.rs"],
   [("reached_empty_clause flag", SRC + "checker/mod.rs check_impl"), ("context stack depth", SRC + "ast/context.rs push/pop/is_empty")],
   "typestate abstract interpretation of MIR", note="As C02; the context stack's push/pop/is_empty are summarised for 0, 1 and 2 open contexts."),
 P("C04", "Clausification and tautology rules accept only sound inferences",
   "For every Boolean clausification or tautology rule (true, false, not_not, and_pos, and_neg, or_pos, or_neg, xor_*, not_xor*, implies*, not_implies*, equiv*, not_equiv*, ite_pos*, ite_neg*, ite*, not_ite*, and, not_or, or, not_and, and_intro, weakening, tautology, distinct_elim, connective_def) an accepted step's clause is a logical consequence of its premises' clauses. "
   "No choice of clause, premises or arguments makes such a step accepted when it is not.",
   ["inputs"], "all terms, clause lengths, premise lists and argument lists",
   TIER + "; a negation, index or arity mistake in one of 46 rules needs a specific wrong proof to show.",
   [SRC + "checker/rules/tautology.rs", SRC + "checker/rules/clausification.rs", SRC + "checker/rules/extras.rs", SRC + "checker/rules/resolution.rs"],
   [("rule implementations", SRC + "checker/rules/*.rs"), ("dispatch", SRC + "checker/shared.rs get_rule_shared")],
   "abstract interpretation of each rule's MIR to a path summary, entailment decided by small-model evaluation", note="Summaries are exact for the analysed fragment (anything imprecise is reported undecided, never accepted); entailment is evaluated for lists of up to 4 elements; loops without a summary are followed for 4 iterations."),
 P("C05", "Simplification rules only rewrite a term to one with the same value",
   "For the rules ite_simplify, eq_simplify, not_simplify, implies_simplify, equiv_simplify, bool_simplify and comp_simplify an accepted step equates two terms that have the same value in every interpretation. "
   "Reading the numeric value of a constant term (as_number, as_signed_number, as_fraction) gives exactly its SMT-LIB value, or none if the term is not a constant or divides by zero.",
   ["inputs"], "all terms and numbers of rewriting steps",
   TIER + "; each simplification rule has up to a dozen rewriting cases, and a wrong case only shows on terms of its exact shape.",
   [SRC + "checker/rules/simplification.rs", SRC + "ast/term.rs"],
   [("rewriting loop", SRC + "checker/rules/simplification.rs generic_simplify_rule"), ("rewriting cases", SRC + "checker/rules/simplification.rs *_simplify"), ("constants", SRC + "ast/term.rs as_fraction")],
   "abstract interpretation of MIR to path summaries, entailment decided by small-model evaluation", note="As C04; every path of each rewriting function is compared with its result for equality of value; the chain of rewriting steps is modelled as an equivalence. The constant readers' summaries are evaluated on all constant terms built from a small set of numerals."),
 P("C06", "Equality and arithmetic-axiom rules accept only sound inferences",
   "For the rules eq_reflexive, symm, not_symm, eq_symmetric, eq_congruent, eq_congruent_pred, cong, ho_cong, la_rw_eq, la_disequality, la_totality, la_mult_pos, la_mult_neg and qnt_simplify an accepted step's clause is a logical consequence of its premises' clauses in the theory of equality and ordered arithmetic. "
   "No choice of clause, premises or arguments makes such a step accepted when it is not.",
   ["inputs"], "all terms, clause lengths, premise and argument lists",
   TIER + "; swapped sides or a weakened comparison show only on specific unsound steps.",
   [SRC + "checker/rules/congruence.rs", SRC + "checker/rules/reflexivity.rs", SRC + "checker/rules/linear_arithmetic.rs", SRC + "checker/rules/extras.rs"],
   [("rule implementations", SRC + "checker/rules/*.rs")],
   "abstract interpretation of each rule's MIR to a path summary, entailment decided by small-model evaluation", note="As C04."),
 P("C07", "No proof step shape can crash the checker",
   "Checking a step never aborts the process because the step's clause, premise list, argument list, discharge list or a premise's clause is shorter than its rule expects: such a step is rejected with an error. "
   "This holds for every rule name the checker knows, in lenient and strict mode.",
   ["inputs"], "all clause, premise, premise-clause and argument list lengths for every rule",
   TIER + " that mostly supply the expected number of items; each rule has its own accesses.",
   [SRC + "checker/rules/", SRC + "checker/rules/mod.rs"],
   [("length assertions", SRC + "checker/rules/mod.rs assert_num_premises, assert_clause_len, assert_num_args, get_premise_term"), ("rule implementations", SRC + "checker/rules/*.rs")],
   "abstract interpretation of each rule's MIR, discharging every index/slice/subtraction obligation on step-supplied lists", note="Rules whose analysis exceeds its limits are listed in the evidence and not claimed."),
 P("C08", "Closing a subproof discharges all of its local assumptions",
   "When the closing step of a subproof is accepted, every assumption made directly inside that subproof is listed in the step's discharge list, so no local assumption escapes into the surrounding proof; a discharge list on any other kind of step is rejected. (Steps whose rule the user allowed are not checked at all, and are reported holey.)",
   ["inputs"], "all subproofs, nesting depths, assumption positions and discharge lists",
   TIER + " of which few end a subproof, and none varies which assumption is left out.",
   [SRC + "checker/shared.rs", SRC + "checker/mod.rs", SRC + "checker/parallel/mod.rs"],
   [("discharge check", SRC + "checker/shared.rs check_discharge_shared"), ("step core", SRC + "checker/shared.rs check_step_core")],
   "path exploration of MIR plus quantified loop summary", note="All paths of the step core; the discharge check's accepting summary is universally quantified over assumption positions."),
 P("C11", "Terms are well-sorted and have the sort of their operator",
   "Every operator, indexed or qualified operator, function (also with sort parameters) and defined function is accepted by the parser exactly when its arguments have the number and sorts of its signature (and its indices their range), the term built is that application with all its arguments, and no choice of sorts or indices makes the parser panic. "
   "The sort computed and remembered for a term is the sort its signature gives, and every pool that holds the term gives it. "
   "Assertions, assumptions, clauses and the bodies of quantifiers are of sort Bool; bodies of defined functions and values assigned to variables have the declared sort.",
   ["inputs"], "all operators, up to four arguments, all combinations of the sorts and indices tried, strict and lenient parsing, with and without integer subtyping",
   "Tests parse a few applications of some operators; an ill-sorted application of another operator, a third argument or an index out of range goes unnoticed until a rule misreads the term.",
   [SRC + "parser/mod.rs", SRC + "parser/error.rs", SRC + "ast/pool/mod.rs", SRC + "ast/pool/advanced.rs"],
   [("constructors", SRC + "parser/mod.rs Parser::make_op, make_indexed_op, make_qualified_op, make_app"), ("sorts", SRC + "ast/pool/mod.rs PrimitivePool::compute_sort"), ("pools", SRC + "ast/pool/advanced.rs TermPool::sort")],
   "abstract interpretation of MIR (path conditions against signatures)", note="Each constructor is summarised with symbolic sorts; its path conditions are evaluated on all combinations of a domain of sorts. Arguments whose sort is a sort parameter are accepted leniently by design and are only checked for panics."),
 P("C12", "Free variables and substitutions respect binders",
   "The free variables computed for a term are those of its parts, except what its binder or let binds in the body (the values of a let are outside its scope). "
   "Applying a substitution rebuilds every kind of term with the substitution applied to its parts, replaces exactly the mapped variables where they are free, and renames the bound variables that would capture, or be captured, to names that are not otherwise in use; nothing remembered from before a mapping was added or removed is used after. "
   "The substitution of a proof context is the composition, from outside in, of the contexts on the stack: each binding shadows outer bindings of that name, and an assigned value is taken under the bindings before it.",
   ["inputs", "histories"], "all terms, substitutions, sequences of insertions and removals, and nestings of contexts",
   "Tests substitute in a few terms; captures, shadowing and stale cache entries each need a particular choice of names or order of operations.",
   [SRC + "ast/substitution.rs", SRC + "ast/context.rs", SRC + "ast/pool/mod.rs"],
   [("free variables", SRC + "ast/pool/mod.rs free_vars_with_priorities"), ("substitution", SRC + "ast/substitution.rs Substitution::apply, rename_binding_list, compute_should_be_renamed, insert, remove"), ("contexts", SRC + "ast/context.rs ContextStack::catch_up_cumulative, apply, apply_previous")],
   "abstract interpretation of MIR (set contents, cache coherence)", note="Each function is interpreted on every kind of term with symbolic parts and lists of up to two elements (three contexts); recursion is replaced by the statement itself (induction on the term)."),
 P("C13", "Elaboration replaces steps by derivations that follow their rules",
   "When the polyeq or local elaboration replaces a step (refl, trans, eq_transitive, cong, eq_congruent, resolution, th_resolution, forall_inst, bfun_elim, ite_intro, subproof) or an assumption, the replacement stands at the same depth and concludes the same clause in the same order, every step it adds follows its own rule from its premises and arguments, and an assumption it adds is a premise of the problem. "
   "The derivation built for two terms that are equal up to reordering of equalities, n-ary expansion or renaming concludes exactly the equality asked for, in that direction, also inside binders and lets. "
   "Rebuilding a proof keeps every step's id, depth, clause, rule and arguments, refers to what its premises, discharged assumptions and previous step became, and handles each step once, in the context of its subproof.",
   ["inputs"], "all steps of these rules, with premises flipped, out of order, repeated or missing; all pairs of terms; all nestings of subproofs",
   "Tests elaborate a few steps of a few rules and only compare the printed result; a flipped or repeated premise, an n-ary term or a nested binder takes another path.",
   [SRC + "elaborator/mod.rs", SRC + "elaborator/polyeq.rs", SRC + "elaborator/congruence.rs", SRC + "elaborator/transitivity.rs", SRC + "elaborator/resolution.rs"],
   [("elaboration functions", SRC + "elaborator/mod.rs get_elaboration_function"), ("equalities", SRC + "elaborator/polyeq.rs PolyeqElaborator::elaborate_impl"), ("traversal", SRC + "elaborator/mod.rs mutate_impl")],
   "abstract interpretation of MIR (derivation checking)", note="Each elaboration function is interpreted on steps whose terms are symbolic, with up to three premises or arguments; uncrowding, hole, lia_generic and reordering removal are not covered."),
 P("C16", "The printed verdict is the checker's verdict",
   "The library entry points (check, check_parallel, check_and_elaborate) parse exactly the given problem, proof and rules, check the parsed proof against the parsed problem under the given configuration, and return the checker's verdict unchanged; an error of the parser or checker is returned as an error. "
   "The executable prints 'valid' or 'holey' only when that is the verdict of the proof it checked, and exits with a non-zero status when the proof was rejected or could not be parsed; nothing is reported valid that was not checked.",
   ["inputs", "configurations"], "all inputs, subcommands, statistics settings and thread counts",
   TIER + " through the library on one configuration; the executable's output and exit status are not tested.",
   [SRC + "lib.rs", "cli/src/main.rs"],
   [("library entry points", SRC + "lib.rs check, check_parallel, check_and_elaborate"), ("executable", "cli/src/main.rs main, check_command, elaborate_command")],
   "typestate abstract interpretation of MIR", note="Every path of main and of the three entry points; clap, printing and logging are modelled."),
 P("C17", "A benchmark reports the worst outcome of its jobs",
   "Every job of a benchmark is run, and its outcome is recorded: the benchmark's verdict is 'invalid' if any job failed to parse or was rejected, otherwise 'holey' if any proof was holey, otherwise 'valid'. "
   "No outcome, error count or measurement collected earlier is lost when a later job fails or when the results of several workers are combined, in both the online and the CSV mode.",
   ["histories", "schedules", "inputs"], "all sequences of jobs, numbers of workers, distributions of jobs to workers and outcomes",
   "No test runs a benchmark; which worker gets which job varies from run to run.",
   ["cli/src/benchmarking.rs", "cli/src/main.rs", SRC + "benchmarking/mod.rs"],
   [("job and worker loop", "cli/src/benchmarking.rs run_job, worker_thread"), ("merging", SRC + "benchmarking/mod.rs CollectResults::combine"), ("output", "cli/src/main.rs bench_command; cli/src/benchmarking.rs run_csv_benchmark")],
   "typestate abstract interpretation of MIR", note="All paths of a job and of the worker loop, all flag combinations for merging and printing; that every pair of results is combined is std's reduce. Only the verdict-bearing fields are tracked through merging."),
 P("C18", "Command-line options and files reach the library unchanged",
   "The problem, proof and rules read are the files named on the command line (standard input for '-', the inferred problem when none is given). "
   "For every subcommand the parser configuration, checker configuration (granularity, ignored and allowed rules), elaborator configuration, elaboration pipeline, statistics flag, thread count and stack size passed to the library are exactly those the user asked for.",
   ["configurations"], "all combinations of the options of check, elaborate, bench and parse",
   "Tests call the library with fixed configurations; no test goes through the executable's options.",
   ["cli/src/main.rs"],
   [("option conversions", "cli/src/main.rs From<ParsingOptions>, From<CheckingOptions>, From<ElaborationOptions>"), ("subcommands", "cli/src/main.rs check_command, elaborate_command, bench_command, get_instance")],
   "interprocedural value-flow analysis of MIR", note="Finite options are enumerated, free ones symbolic; clap's own parsing of the argument strings is trusted."),
 P("C26", "Names and step references mean what their scope says",
   "Every name in a proof is resolved in the scope it is written in: a binder's, definition's or subproof's names are visible exactly until it ends, and every opened scope is closed again, so none leaks into later commands. "
   "Every premise and discharge reference denotes the command that was given that id in the current or an enclosing open subproof and had already been read, and the parsed step carries exactly the id, clause, rule, premises, arguments and discharge list written. "
   "A subproof ends exactly at its closing step, and the root proof only at the end of the input.",
   ["inputs"], "all proofs: any nesting of binders, definitions and subproofs, any choice of ids and references",
   "Tests parse well-formed proofs with unique ids; a name visible for too long, or an index that is off by one, only shows on a proof that relies on it.",
   [SRC + "parser/mod.rs"],
   [("scoped table", SRC + "parser/mod.rs HashMapStack"), ("proof parser", SRC + "parser/mod.rs parse_proof, parse_step_command, parse_step_premise, parse_discharge_premise"), ("binders", SRC + "parser/mod.rs parse_binder, parse_let_term, parse_define_fun, parse_anchor_command")],
   "typestate abstract interpretation of MIR", note="Every path of every parser method that opens a scope; the loop of parse_proof explored with a symbolic frame stack of any depth."),
 P("C27", "The premises of a proof are the terms the problem asserts",
   "The premises of a problem are exactly the terms it asserts or assumes, and the equations of its definitions; no other command adds one, and no asserted term is lost or replaced. "
   "An assumption outside every subproof is accepted only if its term is one of these premises, or equal to one by the configured comparison of terms; the comparison is made between the assumption and a premise, and its answer is respected.",
   ["inputs", "configurations"], "all problems, command sequences and assumptions, with and without premise comparison up to elaboration",
   "Tests use problems with a handful of commands; an assumption that is not a premise is tested once.",
   [SRC + "parser/mod.rs", SRC + "checker/shared.rs"],
   [("problem parser", SRC + "parser/mod.rs parse_problem"), ("assumption check", SRC + "checker/shared.rs check_assume_shared")],
   "typestate abstract interpretation of MIR", note="All paths of the problem parser for any command sequence, and all paths of the assumption check with a quantified summary of its search."),
 P("C28", "Terms that the comparison calls equal denote the same value",
   "Two terms that the comparison modulo reordering of equalities, expansion of n-ary operators, string concatenation and alpha-equivalence calls equal denote the same value whenever the parts it compared do, for every operator and number of arguments. "
   "Alpha-equivalence identifies two terms only if they agree up to the names of bound variables: bound variables are matched to the binder and position that binds them, with equal sorts, binders of equal length and kind, and values of a let outside its scope; a remembered answer is used only where it was given. "
   "The differences that each mode is there to accept are accepted.",
   ["inputs"], "all operators with up to three or four arguments and nesting of two, terms of depth two in all modes, all scopes up to two nested binders",
   "Tests compare a few pairs of terms; a wrong answer for another operator, another arity or a shadowed name makes refl, assume and every rule that uses the comparison unsound.",
   [SRC + "ast/polyeq.rs", SRC + "utils.rs"],
   [("comparison", SRC + "ast/polyeq.rs Polyeq, PolyeqComparable for Rc<Term> and Term"), ("binders", SRC + "ast/polyeq.rs Polyeq::compare_binder, DeBruijnMap"), ("strings", SRC + "ast/polyeq.rs Polyeq::compare_strings")],
   "abstract interpretation of MIR (equalities learnt on each path entail the answer)", note="The comparisons of subterms are cut: each may answer yes or no, and the answers given on the path must entail the equality of the whole. String constants are compared for a small alphabet; that a trailing empty constant is accepted is not required."),
 P("C10", "What is printed is read back as the same proof",
   "A printed proof contains every definition, command, conclusion term, rule, premise, argument, discharged assumption, binding and subterm, each in its place in the grammar the parser reads; the same holds for printed declarations and for the queries written for external solvers. "
   "Names and ids that are not plain symbols are quoted, strings are escaped, constants keep their value, and the printed name of every operator, binder and reserved word is read back as that one. "
   "With term sharing, a name is printed only for the term it was given to, and never where a bound variable captures a variable of that term.",
   ["inputs", "configurations"], "all proofs and terms, with and without sharing and strict SMT-LIB notation",
   "Tests print a few terms and parse them back; a wrong separator, a missing quote or a captured shared name needs a particular term, name or binder to show.",
   [SRC + "ast/printer.rs", SRC + "ast/term.rs", SRC + "parser/lexer.rs"],
   [("printer", SRC + "ast/printer.rs write_raw_term, write_step, write_proof, print_with_sharing"), ("quoting", SRC + "ast/printer.rs quote_symbol, escape_string"), ("operator names", SRC + "ast/term.rs impl_str_conversion_traits")],
   "abstract interpretation of MIR (output grammar analysis)", note="Each printing function is interpreted with symbolic parts and lists of up to three elements; its output, with placeholders for the parts, is compared with the grammar."),
]

NA = [
 P("C90", "Resolution, RUP and DRUP steps accept only clauses that follow",
   "A resolution, th_resolution, strict_resolution, contraction, reordering, drup or drat step is accepted only if its clause follows from the premises.",
   ["inputs"], "all clauses and premise lists", "Tests cover a few chains.", [SRC + "checker/rules/resolution.rs", SRC + "drup.rs"], [("pivot search", SRC + "checker/rules/resolution.rs"), ("unit propagation", SRC + "drup.rs")],
   na="The verdict depends on the contents of hash sets updated along a data-dependent number of pivot eliminations and unit propagations; a sound static argument would have to bound runtime set contents, which no abstraction here can."),
 P("C91", "Linear arithmetic certificates are checked exactly",
   "An la_generic, poly_simp, cutting-plane or evaluate step is accepted only if the arithmetic it claims is correct over the integers or reals.",
   ["inputs"], "all coefficients and terms", "Tests sample coefficients.", [SRC + "checker/rules/linear_arithmetic.rs", SRC + "checker/rules/polynomial.rs", SRC + "checker/rules/cutting_planes.rs"], [("linear combination", SRC + "checker/rules/linear_arithmetic.rs LinearComb")],
   na="Correctness is a numeric identity over unbounded coefficient maps built at run time; deciding it needs arithmetic reasoning about runtime values, not program structure."),
 P("C92", "Bit-blasting and string rules match the theories' semantics",
   "A bit-vector or string rule step is accepted only if the circuit or word equation it concludes is valid in the theory.",
   ["inputs"], "all widths, constants and words", "Tests sample widths.", [SRC + "checker/rules/bitvectors.rs", SRC + "checker/rules/strings.rs", SRC + "checker/rules/pb_blasting.rs"], [("circuit builders", SRC + "checker/rules/bitvectors.rs")],
   na="The rules build terms in loops over runtime widths and compare them structurally; proving the circuits correct for every width is an inductive semantic proof outside static dataflow."),
 P("C93", "Binder rules never capture variables",
   "A bind, let, forall_inst, onepoint, sko_ex, sko_forall or qnt_* step is accepted only if renaming and instantiation are capture-avoiding.",
   ["inputs"], "all binders, substitutions and nestings", "Tests sample binders.", [SRC + "checker/rules/subproof.rs", SRC + "checker/rules/quantifier.rs", SRC + "ast/substitution.rs"], [("substitution", SRC + "ast/substitution.rs Substitution::apply")],
   na="The substitution and free-variable machinery itself is C12; that each rule asks it the right question needs the semantics of quantified formulas under nested contexts, which the path summaries do not express."),
 P("C94", "Printing and parsing are inverse",
   "Parsing a printed proof yields the same proof.",
   ["inputs"], "all proofs", "Tests sample terms.", [SRC + "ast/printer.rs", SRC + "parser/mod.rs"], [("printer", SRC + "ast/printer.rs"), ("parser", SRC + "parser/mod.rs")],
   na="Equality of two recursive traversals through strings of unbounded length is a relational property of runtime text; only its table fragment can be read off the source."),
 P("C95", "Elaborated proofs check in strict mode",
   "Elaborating an accepted proof yields a proof that is accepted too.",
   ["inputs"], "all proofs and pipelines", "Tests sample proofs.", [SRC + "elaborator/mod.rs"], [("pipeline", SRC + "elaborator/mod.rs")],
   na="What each local replacement concludes is C13; that a whole elaborated proof checks also depends on uncrowding, on the answers of external solvers and on steps that were accepted leniently, which quantify over runtime clauses."),
]


def main():
    import importlib
    sys.path.insert(0, os.path.join(HERE, "lib"))
    registry = importlib.import_module("registry")
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS + NA:
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
                                "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}) + "\n")
    checks, na = [], []
    for p in PROPS + NA:
        if p["na"] is None and p["id"] in registry.PROPERTIES:
            checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"], "thorough_cmd": "python3 check.py %s thorough" % p["id"],
                           "technique": p["tech"], "level": p["level"], "level_note": p["note"]})
        else:
            na.append({"property": p["id"], "reason": p["na"] or "no check built yet"})
    assert set(registry.PROPERTIES) == {c["property"] for c in checks}, set(registry.PROPERTIES) ^ {c["property"] for c in checks}
    m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
         "notes": "All checks analyse MIR facts extracted from /repo's working tree on every run; nothing of /repo is executed."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    how = json.load(open(os.path.join(HERE, "how.json")))
    out = []
    for p in PROPS:
        out.append("### %s %s\n\n*%s.* %s\n\n%s\n" % (p["id"], p["title"], p["tech"], p["note"] or "", how.get(p["id"], "")))
    out.append("### Not applicable\n")
    for p in NA:
        out.append("* **%s %s**: %s" % (p["id"], p["title"], p["na"]))
    seeds = ["| change | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
    res = json.load(open(os.path.join(HERE, "seed_results.json")))
    for d in sorted(res):
        mp = os.path.join(HERE, "seeded", d, "meta.json")
        if os.path.exists(mp):
            m = json.load(open(mp))
            seeds.append("| %s | %s | %s | %s | %s |" % (d, m["property"], m["what_it_breaks"], m["needs"], res[d]))
    t = open(os.path.join(HERE, "DESIGN.in.md")).read()
    open(os.path.join(HERE, "DESIGN.md"), "w").write(t.replace("@@PROPS@@", "\n".join(out)).replace("@@FINDINGS@@", findings()).replace("@@SEEDS@@", "\n".join(seeds)))
    for p in PROPS + NA:
        assert len(p["title"]) <= 80, p["id"]



def findings():
    out = []
    for f in json.load(open(os.path.join(HERE, "known_findings.json")))["findings"]:
        w = f["what"].split(" ", 3)[-1] if f["status"] == "fixed" else f["what"]
        out.append("* %s (%s) %s" % (f.get("commit", "open"), f["property"], w))
    return "\n".join(out)


main()
