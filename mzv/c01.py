"""C01: compiled models have exactly the solutions of the model."""
from . import build, lang, solcheck
from .core import main, SkipCase

PROP = "C01"
N = {"quick": 2600, "thorough": 60000}
RULE = ("random well-typed models over int/bool variables, arrays, comprehensions, let, if-then-else, user functions, "
        "derived variables; every assignment enumerated by a reference evaluator; non-trivial: at least one assignment "
        "is a solution and at least one is not")
ASSUMPTIONS = ["fzn-gecode 6.2 / Gecode enumerates the solutions of the FlatZinc it is given",
               "integer expressions stay within +-12000, domains are small"]


def setup(tier):
    build.build_driver()


def gen(src, tier):
    g = lang.Gen(src, ("powvar",))
    g.model()
    if src.bool(1, 10):
        g = lang.Gen(src, ("powvar",))
        g.leftover()
    sols = g.solutions()
    expect = sorted(set(g.canon(e) for e in sols))
    solver = src.weighted([(4, "std"), (1, "gcp")])
    args = src.weighted([(5, []), (1, ["-O0"]), (1, ["-O2"]), (1, ["--no-half-reifications"]), (1, ["-O3"])])
    if "decl:open" in g.labels:
        solver = "std"  # the internal Gecode refuses unbounded variables
        if args == ["-O3"]:
            args = []
    solve = g.search() if src.bool(1, 6) else "solve satisfy;"
    if "powvar" in g.labels:
        solver = "pow"
    return {"model": g.text(solve), "expect": expect, "total": g.nassign(), "args": args,
            "solver": {"std": solcheck.STD, "pow": solcheck.POW, "gcp": solcheck.GCP}[solver],
            "labels": sorted(g.labels) + ["solver:" + solver, "sols:" + ("0" if not expect else "all" if len(expect) == g.nassign() else "some")]}


def run(case, ctx, d):
    n = len(case["expect"])
    return solcheck.decide(case, d, 0 < n < case["total"])


if __name__ == "__main__":
    import mzv.c01 as me
    main(me)
