"""C07: bounds and domains reported by the compiler enclose the values of every solution, and asking does not constrain."""
from . import build, lang, solcheck, drv
from .core import main, SkipCase, ok, fail, Res
from .lang import Undef

PROP = "C07"
N = {"quick": 2200, "thorough": 50000}
RULE = ("random models with one to six questions lb, ub, dom, lb_array, ub_array, dom_array, has_bounds about variable expressions; every solution enumerated by a "
        "reference evaluator; non-trivial: some asked expression takes two different values over the solutions")
ASSUMPTIONS = ["fzn-gecode 6.2 / Gecode enumerates the solutions of the FlatZinc it is given"]


def setup(tier):
    build.build_driver()


def gen(src, tier):
    g = lang.Gen(src, ("powvar",))
    g.cur = None
    g.arith(300) if src.bool(1, 5) else g.decls(160)
    asked, outs = [], []

    def ask():
        k = len(asked)
        g.nodes = 0
        arr = src.bool(1, 3)
        if arr:
            e = g.arr_int(src.int(1, 2), False)
        else:
            e = g.int(src.int(1, 3))
        if not e.v or (arr and 0 in [len(r) for r in e.ix]):
            return
        form = src.weighted([(4, "par"), (2, "fn"), (2, "decl"), (1, "let")])
        if arr and len(e.ix) > 1:
            form = "par"
        if arr:
            fs = ["lb_array", "ub_array", "dom_array"]
        else:
            fs = ["lb", "ub", "dom"]
        g.lab("form:" + form + (":arr" if arr else ""))
        if form == "decl" and "any:" in e.s:
            form = "par"
        if form == "decl" and not arr:
            n = g.fresh("k")
            g.items.append("var lb(%s)..ub(%s): %s = %s;" % (e.s, e.s, n, e.s))
            g.derived.append((n, e))
            return
        t = "array[int] of var int" if arr else "var int"
        for i, f in enumerate(fs):
            rt = "set of int" if i == 2 else "int"
            if form == "fn":
                g.items.append("function %s: f%d_%d(%s: v) = %s(v);" % (rt, k, i, t, f))
                tx = "f%d_%d(%s)" % (k, i, e.s)
            elif form == "let":
                tx = "let { %s: v%d = %s } in %s(v%d)" % (t, k, e.s, f, k)
            else:
                tx = "%s(%s)" % (f, e.s)
            g.items.append("%s: q%d_%d = %s;" % (rt, k, i, tx))
            outs.append("q%d_%d" % (k, i))
        asked.append((arr, e))

    for _ in range(src.int(0, 2)):
        ask()
    for _ in range(src.int(1, 2)):
        g.nodes = 0
        if src.bool():
            g.linear()
        else:
            g.constraint(src.int(1, 2))
    for _ in range(src.weighted([(3, 0), (2, 1), (2, 2)])):
        g.late()
    for _ in range(src.int(1, 3)):
        ask()
    sols = g.solutions()
    expect = sorted(set(g.canon(e) for e in sols))
    total, empty = [], False
    for env in sols:
        try:
            total.append([(lambda v: v.v if arr else [v])(e.f(env)) for arr, e in asked])
            empty = empty or any(arr and not v for (arr, _), v in zip(asked, total[-1]))
        except Undef:
            total.append(None)  # the question itself is undefined here
    may = set(g.canon(e) for e, t in zip(sols, total) if t is None)
    # a question asked at the top level also says that its expression is defined
    vals = [sorted(set(x for t in total if t is not None for x in t[k])) for k in range(len(asked))]
    if src.bool():
        # items may come in any order
        rest = g.items
        g.items = src.shuffle(rest)
    text = "\n".join(g.items) + "\nsolve satisfy;\n" + 'output ["%s\\n"];' % " ; ".join(["\\(%s)" % n for n in outs + g.outnames()]) + "\n"
    return {"model": text, "expect": expect, "vals": vals, "may": sorted(may), "empty": empty, "nouts": len(outs), "labels": sorted(g.labels),
            "args": src.weighted([(5, []), (1, ["-O0"]), (1, ["-O2"])]), "solver": solcheck.POW if "powvar" in g.labels else solcheck.STD}


def run(case, ctx, d):
    o = solcheck.run_solutions(case, d)
    kw = dict(labels=case["labels"], key=case["model"], sample=case["model"], nontrivial=any(len(v) > 1 for v in case["vals"]), sub=max(1, len(case["vals"])))
    if o.timeout:
        return Res("inconclusive", "timeout", labels=case["labels"])
    if o.rc != 0 and not o.crashed:
        none = not set(case["expect"]) - set(case["may"])
        if "bound of empty array undefined" in o.err and (case["empty"] or none) or "result of evaluation is undefined" in o.err and none:
            return Res("inconclusive", "question about nothing", labels=case["labels"])
        if "decl:open" in case["labels"] and ("cannot determine" in o.err or "without bounds" in o.err):
            return Res("inconclusive", "refused: unbounded variable", labels=case["labels"])
    if o.rc != 0:
        return fail("crash" if o.crashed else "error", o.brief() + "\n" + case["model"], **kw)
    sols, st = drv.parse_stream(o.out)
    n = case["nouts"]
    got = set()
    for s in sols:
        parts = s.strip().split(" ; ")
        got.add(" ; ".join(parts[n:]))
        for k, vs in enumerate(case["vals"]):
            if not vs:
                continue
            lo, hi, dom = parts[3 * k:3 * k + 3]
            if not (num(lo) <= vs[0] and vs[-1] <= num(hi)):
                return fail("bounds", "question %d: values %s outside reported bounds %s..%s\n%s\n%s" % (k, vs, lo, hi, o.brief(), case["model"]), **kw)
            dv = parse_set(dom)
            if not all(any(a <= v <= b for a, b in dv) for v in vs):
                return fail("domain", "question %d: values %s outside reported domain %s\n%s\n%s" % (k, vs, dom, o.brief(), case["model"]), **kw)
    may = set(case["may"])
    exp = set(case["expect"]) - may
    got -= may
    if got != exp:
        c2 = dict(case, solver=solcheck.ALT)
        o2 = solcheck.run_solutions(c2, d)
        g2 = set(" ; ".join(s.strip().split(" ; ")[n:]) for s in drv.parse_stream(o2.out)[0]) - may
        if g2 == exp:
            return Res("inconclusive", "gecode-bool-linear", labels=case["labels"])
        return fail("wrong-solutions", "missing %s\nunexpected %s\n%s\n%s" % (sorted(exp - got)[:6], sorted(got - exp)[:6], o.brief(), case["model"]), **kw)
    return ok(**kw)


def num(t):
    return float(t.replace("infinity", "inf")) if "inf" in t else int(t)


def parse_set(t):
    out = []
    for r in t.strip().split(" union "):
        r = r.strip()
        if r.startswith("{"):
            out += [(num(x), num(x)) for x in r[1:-1].split(",") if x.strip()]
        else:
            a, _, b = r.partition("..")
            out.append((num(a), num(b)))
    return out


if __name__ == "__main__":
    import mzv.c07 as me
    main(me)
