"""C09: half-reification: a library with p_imp(..., r) meaning exactly r -> p(...) yields the same solutions."""
from . import build, solcheck, lang
from .setgen import SetGen
from .core import main

PROP = "C09"
N = {"quick": 1900, "thorough": 50000}
RULE = ("random well-typed models over Booleans, integers and sets compiled against a library with half-reified predicates that are "
        "implemented as weakly as their meaning allows; non-trivial: some assignment is a solution and some is not")
ASSUMPTIONS = ["fzn-gecode 6.2 / Gecode enumerates the solutions of the FlatZinc it is given"]
HALF = ["--solver", "mzv.half"]


def setup(tier):
    build.build_driver()


def gen(src, tier):
    if src.bool(1, 3):
        g = SetGen(src)
        g.setorder = False
        g.setglobals = False
        g.cur = None
        g.decls(150)
        for _ in range(src.int(1, 3)):
            g.nodes = 0
            k = src.weighted([(6, 0), (1, 1), (2, 2)])
            if k == 0:
                g.constraint(src.int(1, 3))
            elif k == 1:
                g.linear()
            else:
                g.clause()
        for _ in range(src.weighted([(3, 0), (2, 1), (1, 2)])):
            g.late()
        kind = "sets"
    else:
        g = lang.Gen(src)
        g.model()
        kind = "ints"
    sols = g.solutions()
    expect = sorted(set(g.canon(e) for e in sols))
    args = src.weighted([(6, []), (1, ["-O0"]), (1, ["-O2"]), (1, ["--no-chain-compression"])])
    return {"model": g.text(), "expect": expect, "total": g.nassign(), "args": args, "solver": HALF,
            "labels": sorted(g.labels) + ["kind:" + kind, "sols:" + ("0" if not expect else "all" if len(expect) == g.nassign() else "some")]}


def run(case, ctx, d):
    n = len(case["expect"])
    return solcheck.decide(case, d, 0 < n < case["total"])


if __name__ == "__main__":
    import mzv.c09 as me
    main(me)
