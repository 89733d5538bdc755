"""Common part of the checks for groups of global constraints."""
from . import build, solcheck

RULE = ("random models with one or two constraints of the group over random arguments (variables, repeated variables, "
        "constants, small expressions, shifted index sets) in a random context (root, negated, reified, half-reified, "
        "disjunction, implication, xor, conditional); every assignment is decided by the documented definition; "
        "non-trivial: some but not all assignments are solutions, or the truth value of the reified constraint varies")
ASSUMPTIONS = ["fzn-gecode 6.2 / Gecode enumerates the solutions of the FlatZinc it is given",
               "arrays of up to 4 elements, domains of up to 5 values"]


def install(g):
    cls = g["CLS"]
    g.setdefault("RULE", RULE)
    g.setdefault("ASSUMPTIONS", ASSUMPTIONS)

    def setup(tier):
        build.build_driver()

    def gen(src, tier):
        m = cls(src)
        m.model()
        sols = m.solutions()
        expect = sorted(set(m.canon(e) for e in sols))
        solver = src.weighted([(5, "std"), (2, "gcp")]) if getattr(cls, "GCP", True) and not getattr(m, "nogcp", False) else "std"
        args = src.weighted([(6, []), (1, ["-O0"]), (1, ["-O2"]), (1, ["--no-half-reifications"])])
        varied = False
        for n, e in m.derived:
            if len(set(env[n] for env in sols)) > 1:
                varied = True
        return {"model": m.text(), "expect": expect, "total": m.nassign(), "args": args, "varied": varied,
                "solver": solcheck.STD if solver == "std" else solcheck.GCP,
                "labels": sorted(m.labels) + ["solver:" + solver, "sols:" + ("0" if not expect else "all" if len(expect) == m.nassign() else "some")]}

    def run(case, ctx, d):
        n = len(case["expect"])
        return solcheck.decide(case, d, 0 < n < case["total"] or case["varied"])
    g.setdefault("setup", setup)
    g.setdefault("gen", gen)
    g.setdefault("run", run)
