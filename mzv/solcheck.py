"""Shared decision procedure: the solution set the driver prints for a model must be exactly the
expected one."""
from . import drv
from .core import ok, fail, Res

# explicit, documented refusals of the library: not an answer, so not a wrong one
REFUSALS = ["Unable to decompose count_eq without bounds for the value argument", "is not supported",
            "used in a reified context but no reified version is available", "free variable in non-positive context",
            "rerun with --allow-unbounded-vars", "Int::channel: ", "REG: Passed argument array has too few elements",
            "ambiguous overloading on return type"]
# refusals of expressions over variables declared without bounds
OPEN_REFUSALS = ["needs finite bounds on argument array", "comprehension iterates over an infinite set"]

STD = ["--solver", "mzv.std"]
POW = ["--solver", "mzv.pow"]  # STD with a decomposition of int_pow
ALT = ["--solver", "mzv.alt"]
GCP = ["--solver", "org.minizinc.gecode_presolver"]


def run_solutions(case, d, timeout=60, extra=()):
    drv.write(d, "m.mzn", case["model"])
    for n, t in case.get("files", {}).items():
        drv.write(d, n, t)
    args = list(case["solver"]) + ["-a"] + list(case.get("args", [])) + list(extra) + ["m.mzn"] + list(case.get("data", []))
    return drv.run(args, d, timeout=timeout)


def compare(case, o):
    """-> (kind, message) of a disagreement, or None; or ('inconclusive', ...)"""
    if o.timeout:
        return "inconclusive", "timeout"
    if o.crashed:
        return "crash", o.brief()
    if o.rc != 0:
        for r in REFUSALS + (OPEN_REFUSALS if "decl:open" in case.get("labels", []) else []):
            if r in o.err:
                return "inconclusive", "refused: " + r
        return "error", o.brief()
    sols, st = drv.parse_stream(o.out)
    got = set(s.strip() for s in sols)
    exp = set(case["expect"])
    if got != exp:
        miss, extra = sorted(exp - got), sorted(got - exp)
        return "wrong-solutions", "missing solutions: %s\nunexpected solutions: %s\n(expected %d, got %d, status %s)\n%s" % (
            miss[:8], extra[:8], len(exp), len(got), st, o.brief())
    want = "complete" if exp else "unsat"
    if st != want:
        return "wrong-status", "expected %s got %s\n%s" % (want, st, o.brief())
    return None


def decide(case, d, nontrivial, sub=1, timeout=60):
    o = run_solutions(case, d, timeout)
    r = compare(case, o)
    kw = dict(nontrivial=nontrivial, key=case["model"], labels=case.get("labels", []), sample=case["model"], sub=sub)
    if r is not None and r[0] == "wrong-solutions" and case["solver"] == STD:
        # second opinion: the same FlatZinc without Gecode's 0..1-integer shortcuts
        if compare(case, run_solutions(dict(case, solver=ALT), d, timeout)) is None:
            return Res("inconclusive", "gecode-bool-linear", labels=case.get("labels", []))
    if r is None:
        return ok(**kw)
    if r[0] == "inconclusive":
        return Res("inconclusive", r[1], labels=case.get("labels", []))
    return fail(r[0], r[1] + "\nmodel:\n" + case["model"], **kw)
