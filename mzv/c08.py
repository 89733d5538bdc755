"""C08: models with set variables have exactly the solutions of the model."""
from . import build, solcheck
from .setgen import SetGen
from .core import main

PROP = "C08"
N = {"quick": 1800, "thorough": 50000}
RULE = ("random well-typed models over variables of type set of int, arrays of them, integers and Booleans, with set algebra, comprehensions, set "
        "constraints and globals; every assignment enumerated by a reference evaluator; non-trivial: some assignment is a solution and some is not")
ASSUMPTIONS = ["fzn-gecode 6.2 / Gecode enumerates the solutions of the FlatZinc it is given"]
NOSETS = ["--solver", "mzv.nosets"]


def setup(tier):
    build.build_driver()


def gen(src, tier):
    g = SetGen(src)
    solver = src.weighted([(4, "std"), (3, "nosets"), (2, "gcp")])
    g.setorder = solver == "nosets"  # Gecode orders sets differently from the documented set_le and set_lt
    g.fn_var = solver == "nosets"  # recorded finding: par function of a variable argument
    g.cur = None
    g.decls(200)
    if not any(isinstance(d[0], frozenset) or (hasattr(d[0], "v") and isinstance(d[0].v[0], frozenset)) for _, d in g.vars):
        u = g.universe()[:3]
        n = g.fresh("S")
        g.items.append("var set of %s: %s;" % (g.utext(u), n))
        from .setgen import subsets, ident
        g.vars.append((n, subsets(u)))
        g.ids.append(ident(n, "set", True, x=u))
    for _ in range(src.int(1, 3)):
        g.nodes = 0
        k = src.weighted([(6, 0), (1, 1), (1, 2)])
        if k == 0:
            g.constraint(src.int(1, 3))
        elif k == 1:
            g.linear()
        else:
            g.clause()
    for _ in range(src.weighted([(3, 0), (2, 1), (1, 2)])):
        g.late()
    if src.bool(2 if solver == "gcp" else 1, 3):
        g.equivalence()
    sols = g.solutions()
    expect = sorted(set(g.canon(e) for e in sols))
    args = src.weighted([(5, []), (1, ["-O0"]), (1, ["-O2"]), (1, ["--no-half-reifications"])])
    if "decl:open" in g.labels and solver == "gcp":
        solver = "std"
    return {"model": g.text(), "expect": expect, "total": g.nassign(), "args": args,
            "solver": {"std": solcheck.STD, "nosets": NOSETS, "gcp": solcheck.GCP}[solver],
            "labels": sorted(g.labels) + ["solver:" + solver, "sols:" + ("0" if not expect else "all" if len(expect) == g.nassign() else "some")]}


def run(case, ctx, d):
    n = len(case["expect"])
    return solcheck.decide(case, d, 0 < n < case["total"])


if __name__ == "__main__":
    import mzv.c08 as me
    main(me)
