"""C10: models with optional variables have exactly the solutions of the model."""
from . import build, solcheck
from .optgen import OptGen
from .lang import ident
from .core import main

PROP = "C10"
N = {"quick": 1800, "thorough": 50000}
RULE = ("random well-typed models over optional integer and Boolean variables, arrays of them and comprehensions with variable conditions, combined "
        "with plain variables by the operators and functions of the standard library; every assignment (including absence) enumerated by a reference "
        "evaluator; non-trivial: some assignment is a solution and some is not")
ASSUMPTIONS = ["fzn-gecode 6.2 / Gecode enumerates the solutions of the FlatZinc it is given"]
NOSETS = ["--solver", "mzv.nosets"]


def setup(tier):
    build.build_driver()


def gen(src, tier):
    g = OptGen(src)
    solver = src.weighted([(5, "std"), (2, "nosets"), (3, "gcp")])
    g.cur = None
    g.decls(200)
    if not any(e.t in ("oint", "obool", "aoint", "aobool") and e.v for e in g.ids):
        n = g.fresh("o")
        g.items.append("var opt 0..1: %s;" % n)
        g.vars.append((n, [None, 0, 1]))
        g.ids.append(ident(n, "oint", True, 0, 1))
    for _ in range(src.int(1, 3)):
        g.nodes = 0
        k = src.weighted([(6, 0), (1, 1), (1, 2)])
        if k == 0:
            g.constraint(src.int(1, 3))
        elif k == 1:
            g.linear()
        else:
            g.clause()
    for _ in range(src.weighted([(3, 0), (2, 1), (1, 2)])):
        g.late()
    sols = g.solutions()
    expect = sorted(set(g.canon(e) for e in sols))
    args = src.weighted([(5, []), (1, ["-O0"]), (1, ["-O2"]), (1, ["--no-half-reifications"])])
    if "decl:open" in g.labels and solver == "gcp":
        solver = "std"
    return {"model": g.text(), "expect": expect, "total": g.nassign(), "args": args,
            "solver": {"std": solcheck.STD, "nosets": NOSETS, "gcp": solcheck.GCP}[solver],
            "labels": sorted(g.labels) + ["solver:" + solver, "sols:" + ("0" if not expect else "all" if len(expect) == g.nassign() else "some")]}


def run(case, ctx, d):
    n = len(case["expect"])
    return solcheck.decide(case, d, 0 < n < case["total"])


if __name__ == "__main__":
    import mzv.c10 as me
    main(me)
