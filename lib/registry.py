"""Property id -> how it is decided."""
import prop_rules as R
import prop_driver as D
import prop_cli as CL
import prop_bench as B
import prop_opts as O
import prop_parser as PA
import prop_scope as SC
import prop_print as PP
import prop_subst as SU
import prop_elab as EL
import prop_polyeq as PQ
import prop_sorts as SO

ENGINE_TRUST = ("rustc's MIR construction and method resolution; the hand-written models of std/rug/indexmap functions in lib/models.py; "
                "the SMT-LIB semantics of the interpreted operators written in lib/decide.py; list lengths up to 4 and small value domains "
                "when a summary is evaluated (values are otherwise symbolic)")
DRIVER_TRUST = ("rustc's MIR construction and method resolution; the models of std iterators, Option/Result and threads in lib/models.py and lib/prop_driver.py; "
                "workers and the loader of commands behave as their summaries, which are checked separately")
PARSER_TRUST = ("rustc's MIR construction and method resolution; the models of std collections in lib/models.py; parser methods that consume input are "
                "opaque in their callers (any result, any error)")
PRINTER_TRUST = ("rustc's MIR construction and method resolution; the encoding of format templates in MIR; the models of std collections in lib/models.py; the SMT-LIB and "
                 "Alethe grammar written in lib/prop_print.py; lists of more than three elements are printed by the same loops")
SUBST_TRUST = ("rustc's MIR construction and method resolution; the models of indexmap sets and maps in lib/prop_subst.py; lists of more than two elements are handled by the "
               "same loops; the locks of the context stack are transparent (no other thread interferes)")
ELAB_TRUST = ("rustc's MIR construction and method resolution; the rule schemas written in lib/prop_elab.py (class Rules); the contract of greedy_resolution (its pivots lead to the conclusion); "
              "lists longer than those tried are handled by the same loops")
SORT_TRUST = ("rustc's MIR construction and method resolution; the signatures written in lib/prop_sorts.py (SIG, PSIG); the models of std and rug functions in lib/models.py; "
              "more than four arguments are handled by the same loops; substitution is its specification")
POLY_TRUST = ("rustc's MIR construction and method resolution; the meaning of operators written in lib/prop_polyeq.py (Values); the models of std and rug functions in lib/models.py; "
              "more arguments than the bound are handled by the same loops")
PROPERTIES = {
    "C01": dict(level="proof", trusted=DRIVER_TRUST, explain="typestate exploration of the step core, both checker loops and the merging of worker verdicts", run=D.c01),
    "C02": dict(level="proof", trusted=DRIVER_TRUST, explain="typestate exploration of both checker loops over the command stream; exact summary of the proof iterator", run=D.c02),
    "C03": dict(level="proof", trusted=DRIVER_TRUST, explain="typestate exploration of both checker loops; depth accounting of the context stack", run=D.c03),
    "C08": dict(level="proof", trusted=DRIVER_TRUST, explain="path exploration of the step core; quantified summary of the discharge check", run=D.c08),
    "C04": dict(level="proof", trusted=ENGINE_TRUST,
                explain="each clausal rule is summarised by abstract interpretation of its MIR; every accepting summary is checked to entail its conclusion",
                run=lambda p, t: R.soundness(p, R.CLAUSAL, t, 30)),
    "C06": dict(level="proof", trusted=ENGINE_TRUST,
                explain="as C04, for the equality, congruence and linear-arithmetic axiom rules",
                run=lambda p, t: R.soundness(p, R.EQUALITY, t, 7)),
    "C05": dict(level="proof", trusted=ENGINE_TRUST,
                explain="as C04 for the simplification rules and every rewriting step they apply, plus the functions that read a constant term's value",
                run=lambda p, t: R.simplification(p, t)),
    "C07": dict(level="proof", trusted=ENGINE_TRUST,
                explain="every access to a list supplied by a proof step is discharged from the length facts the rule established before it",
                run=lambda p, t: R.panics(p, t)),
    "C10": dict(level="proof", trusted=PRINTER_TRUST, explain="interpretation of every printing function on symbolic terms; its output compared with the grammar", run=PP.c10),
    "C11": dict(level="proof", trusted=SORT_TRUST, explain="interpretation of the term constructors on symbolic sorts; every path condition evaluated against the operator's signature", run=SO.c11),
    "C12": dict(level="proof", trusted=SUBST_TRUST, explain="interpretation of the free-variable, substitution and context functions on every kind of term", run=SU.c12),
    "C13": dict(level="proof", trusted=ELAB_TRUST, explain="interpretation of the elaboration functions on steps of every shape; each derivation they build is checked against its rules", run=EL.c13),
    "C16": dict(level="proof", trusted=DRIVER_TRUST, explain="typestate exploration of the library entry points and of the executable's main function", run=CL.c16),
    "C17": dict(level="proof", trusted=DRIVER_TRUST, explain="typestate exploration of benchmark jobs, workers, result merging and output", run=B.c17),
    "C18": dict(level="proof", trusted=DRIVER_TRUST, explain="value flow from the command line structure to the library calls, for every combination of options", run=O.c18),
    "C26": dict(level="proof", trusted=PARSER_TRUST, explain="typestate exploration of the proof parser: frame stack, scopes and index tables", run=SC.c26),
    "C27": dict(level="proof", trusted=PARSER_TRUST, explain="path exploration of the assumption check; typestate exploration of the problem parser", run=PA.c27),
    "C28": dict(level="proof", trusted=POLY_TRUST, explain="interpretation of the comparison of terms; on every path that says yes, the comparisons of parts answered yes entail it", run=PQ.c28),
}
