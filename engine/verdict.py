"""Collects obligations and turns them into a verdict and evidence."""
import importlib, json, os

HERE = os.path.dirname(os.path.abspath(__file__))

TRUSTED = [
    "the deductive engine in engine/ (MIR reader mirp.py, symbolic executor symex.py, normal form canon.py, obligation generators prove*.py)",
    "rustc's MIR printer (cargo rustc -Z unpretty=mir equivalent) and code generation",
    "z3 and cvc5 on quantifier-free non-linear arithmetic with the axioms instantiated in smt.py (exp, ln, erf, atan, gamma and beta functions)",
    "the textbook identities of canon.py (exponent and logarithm laws, lgamma and digamma recurrences, symmetry of the incomplete beta, normal quantile)",
    "mpmath for ground evaluation of tables and for the run-time evaluation of contracts",
]
MODEL = ("machine arithmetic is treated as exact real arithmetic extended by infinities and NaN (rounding, overflow and underflow of intermediate "
         "results are outside the proof; the run-time evaluation of the same contracts on the compiled crate looks at them)")


class Report:
    def __init__(self):
        self.total = self.done = 0
        self.obl = []            # (name, status, backend, seconds)
        self.violations = []
        self.notes = []
        self.targets = []        # inputs to try on the real crate (from countermodels)
        self.lits = []
        self.functions = []
        self.assumed = []
        self.by = {}
        self.bounded, self.refuted, self.open, self.findings = [], [], [], []
        self.callee_contracts, self.libs, self.loops, self.theorems = [], [], [], []
        self.solver, self.cases, self.paths, self.witnessed = {}, (0, 0), 0, 0


def prove(pid, srv, seed, tier, rep):
    try:
        prove_mod = importlib.import_module("prove")
    except ModuleNotFoundError:
        rep.notes.append("no deductive engine")
        return
    prove_mod.run(pid, srv, seed, tier, rep)


def claimed(pid):
    return json.load(open(os.path.join(HERE, "levels.json")))[pid]["level"]


def evidence(pid, tier, seed, rep, ctx, viol, times):
    lemmas = sum(1 for n, *_ in rep.obl if n.startswith("lemma"))
    cov = dict(
        obligations=rep.total - len(rep.bounded) - len(rep.findings), discharged=rep.done,
        checker_cmd="python3-vt engine/check.py %s %s" % (pid, tier), trusted_base=TRUSTED,
        obligation_kinds=dict(over_the_code=rep.total - lemmas, lemmas_over_the_contracts=lemmas),
        by_back_end=rep.by, solver=rep.solver,
        functions_under_contract=rep.functions, callee_contracts_used=rep.callee_contracts,
        library_functions_by_assumed_contract=rep.libs,
        loops=[str(l)[:200] for l in rep.loops],
        spec_cases_reached="%d of %d" % tuple(rep.cases), paths=rep.paths, paths_with_a_concrete_witness=rep.witnessed,
        bounded_not_proved=rep.bounded, failing_on_known_findings=rep.findings, refuted=rep.refuted, not_decided=rep.open,
        slowest=[dict(obligation=n, seconds=s) for n, st, by, s in sorted(rep.obl, key=lambda o: -o[3])[:5]],
        evaluations=ctx.n, distinct_nontrivial=len(ctx.seen),
        rule="parameters and arguments are drawn from the boundary-aware generators in gen.py and from the solvers' models of every path; a case is one "
             "operation on one constructed object evaluated on the compiled crate and compared with its contract; "
             "distinct cases are counted by family, method, parameters, argument and stream",
        samples=ctx.samples)
    cov = {k: v for k, v in cov.items() if v not in ([], {}) or k in ("samples", "trusted_base")}
    return dict(property=pid, tier=tier, seed=seed, level=claimed(pid), coverage=cov,
                assumptions=[MODEL] + sorted(rep.assumed), violations=len(viol), times={k: round(v, 2) for k, v in times.items()})
