"""C12: optimisation and the number of solutions asked for."""
import json
from . import build, lang, solcheck, drv
from .core import main, ok, fail, Res

PROP = "C12"
N = {"quick": 1900, "thorough": 50000}
RULE = ("random well-typed models with a random objective (integer, Boolean or float expression, or none) and search annotations; every assignment "
        "and its objective value enumerated by a reference evaluator; non-trivial: at least two different objective values among the solutions, "
        "or, without objective, at least two solutions")
ASSUMPTIONS = ["fzn-gecode 6.2 / Gecode is a correct FlatZinc solver for the FlatZinc it is given"]


def setup(tier):
    build.build_driver()


def annotation(g, s):
    iv = [e for e in g.ids if e.v and e.t == "int"]
    bv = [e for e in g.ids if e.v and e.t == "bool"]
    ai = [e for e in g.ids if e.v and e.t == "aint" and len(e.ix) == 1] if False else []

    def one(d):
        k = s.weighted([(4, "int"), (3, "bool"), (2, "seq"), (1, "warm"), (1, "restart")])
        if k == "int" and iv:
            vs = s.sample(iv, s.int(1, len(iv)))
            a = ", ".join(e.s for e in vs)
            if s.bool(1, 6):
                a += ", %d" % s.int(-2, 4)
            return "int_search([%s], %s, %s%s)" % (
                a, s.choice(["input_order", "first_fail", "smallest", "largest", "anti_first_fail", "most_constrained", "dom_w_deg", "occurrence", "max_regret"]),
                s.choice(["indomain_min", "indomain_max", "indomain_median", "indomain_split", "indomain_reverse_split", "indomain", "indomain_random"]), s.choice(["", ", complete"]))
        if k == "bool" and bv:
            vs = s.sample(bv, s.int(1, len(bv)))
            return "bool_search([%s], %s, %s%s)" % (", ".join(e.s for e in vs), s.choice(["input_order", "first_fail", "smallest", "largest"]),
                                                     s.choice(["indomain_min", "indomain_max"]), s.choice(["", ", complete"]))
        if k == "seq" and d > 0:
            return "seq_search([%s])" % ", ".join(x for x in (one(d - 1) for _ in range(s.int(1, 3))) if x)
        if k == "warm" and iv:
            e = s.choice(iv)
            return "warm_start([%s], [%d])" % (e.s, s.int(-2, 4))
        if k == "restart":
            return s.choice(["restart_luby(100)", "restart_constant(1000)", "restart_geometric(1.5, 100)", "restart_none"]) if False else ""
        return ""
    out = ""
    for _ in range(s.weighted([(3, 0), (3, 1), (1, 2)])):
        a = one(1)
        if a and a != "seq_search([])":
            out += " :: " + a
            g.lab("ann:" + a[:a.find("_") if "_" in a else 8])
    return out


def times(c, e):
    return lang.E("%d*(%s)" % (c, e.s), lang.P_MUL, "int", e.v, lambda env: c * e.f(env), min(c * e.lo, c * e.hi), max(c * e.lo, c * e.hi))


def plus(a, b):
    return lang.E("%s + %s" % (lang.par_if(a, lang.P_ADD), lang.par_if(b, lang.P_MUL)), lang.P_ADD, "int", a.v or b.v,
                  lambda env: lang.both(a, b, env, lambda x, y: x + y), a.lo + b.lo, a.hi + b.hi)


def gen(src, tier):
    g = lang.Gen(src)
    g.model(ncons=(0, 2))
    goal = src.weighted([(5, "minimize"), (5, "maximize"), (3, "satisfy")])
    obj = None
    g.nodes = 0
    scale = 1
    if goal != "satisfy":
        g.pos = False
        k = src.weighted([(5, "expr"), (3, "var"), (1, "bool"), (2, "float"), (1, "deep"), (1, "derived"), (4, "lin")])
        if k == "var":
            c = [e for e in g.ids if e.v and e.t == "int" and not e.m]
            obj = src.choice(c) if c else g.int(1)
        elif k == "bool":
            obj = g.bool(2)
        elif k == "derived":
            e = g.int(2)
            n = g.fresh("obj")
            g.items.append("var int: %s = %s;" % (n, e.s))
            g.derived.append((n, e))
            obj = lang.ident(n, "int", True, e.lo, e.hi, x=None)
        elif k == "lin":
            obj = None
            for _ in range(src.int(1, 3)):
                e, c = g.leaf_int() if src.bool(2, 3) else g.int(1), src.choice([1, -1, 2, -3, 5])
                if e.m:
                    continue
                if c != 1:
                    e = times(c, e)
                obj = e if obj is None else plus(obj, e)
            obj = obj or g.int(1)
        else:
            for _ in range(4):
                obj = g.int(src.int(1, 2) if k != "deep" else 3)
                if obj.v and not obj.m:
                    break
        if obj.m:
            obj = g.leaf_int() if obj.t == "int" else g.leaf_bool()
        text = obj.s
        if k == "float":
            scale = src.choice([1.0, 0.5, -0.25, 3.0, -1.0])
            text = "int2float(%s)" % obj.s if scale == 1.0 else "%s * (%s)" % (scale if scale > 0 else "(%s)" % scale, obj.s)
        g.lab("obj:" + k)
        g.lab("objtype:" + ("var" if obj.v else "par"))
    sols = []
    for env in g.solutions():
        if obj is not None:
            try:
                env["_obj"] = obj.f(env) * scale
            except lang.Undef:
                continue
        sols.append(env)
    exp = {}
    for env in sols:
        exp[g.canon(env)] = env.get("_obj")
    args = src.weighted([(4, []), (1, ["-O0"]), (2, ["-O2"]), (1, ["--no-half-reifications"]), (2, ["-O3"])])
    solver = src.weighted([(3, "std"), (1, "gcp")])
    if "decl:open" in g.labels:
        solver = "std"
        if args == ["-O3"]:
            args = []
    ann = annotation(g, src)
    solve = "solve%s %s%s;" % (ann, goal, " " + text if obj is not None else "")
    items = list(g.items)
    if src.bool():
        items.insert(src.int(0, len(items)), solve)
    else:
        items.append(solve)
    flags, k = [], None
    if goal == "satisfy":
        m = src.weighted([(2, "one"), (4, "n"), (2, "canon")])
        if m == "n":
            k = src.int(1, max(2, len(exp) + 1))
            flags = ["-n", str(k)]
        elif m == "canon":
            flags = ["-a", "--canonicalize"] if len(sols) != 1 or True else []
        g.lab("mode:" + m)
    else:
        m = src.weighted([(3, "last"), (3, "all"), (2, "json")])
        if m == "all":
            flags = ["-a"]
        elif m == "json":
            flags = ["--output-mode", "json", "--output-objective"] + (["-a"] if src.bool() else [])
        g.lab("mode:" + m)
    return {"model": "\n".join(items + [g.out_item()]) + "\n", "expect": sorted(exp.items()), "goal": goal, "mode": m, "k": k, "flags": flags, "args": args,
            "names": g.outnames(), "float": scale != 1,
            "solver": solcheck.STD if solver == "std" else solcheck.GCP,
            "labels": sorted(g.labels) + ["solver:" + solver, "goal:" + goal]}


def jshow(v):
    if isinstance(v, dict) and "set" in v:
        v = v["set"]
    return json.dumps(v)


def judge(case, o):
    """-> (kind, message) or None"""
    if o.timeout:
        return "inconclusive", "timeout"
    if o.crashed:
        return "crash", o.brief()
    if o.rc != 0:
        for r in solcheck.REFUSALS + (solcheck.OPEN_REFUSALS if "decl:open" in case["labels"] else []):
            if r in o.err:
                return "inconclusive", "refused: " + r
        return "error", o.brief()
    exp = dict(map(tuple, case["expect"]))
    sols, st = drv.parse_stream(o.out)
    sols = [s.strip() for s in sols]
    objs = None
    if case["mode"] == "json":
        try:
            js = [json.loads(s) for s in sols]
        except ValueError:
            return "bad-json", o.brief()
        objs = [j.pop("_objective", None) for j in js]
        got = [objs[i] for i in range(len(js))]
        vals = set(exp.values())
        for j, v in zip(js, objs):
            if v is None or not any(abs(v - x) < 1e-6 for x in vals):
                return "wrong-objective", "no solution has objective %s (possible %s)\n%s" % (v, sorted(vals)[:10], o.brief())
        cvals = got
    else:
        for s in sols:
            if s not in exp:
                return "not-a-solution", "%s is not a solution\n%s" % (s, o.brief())
        cvals = [exp[s] for s in sols]
    if not exp:
        if sols or st != "unsat":
            return "wrong-status", "expected UNSATISFIABLE\n" + o.brief()
        return None
    if case["goal"] == "satisfy":
        if len(set(sols)) != len(sols):
            return "duplicates", o.brief()
        if case["mode"] == "one":
            if len(sols) != 1 or st not in ("none", "complete") or (st == "complete" and len(exp) > 1):
                return "wrong-number", "one solution expected (of %d)\n%s" % (len(exp), o.brief())
        elif case["mode"] == "n":
            want = min(case["k"], len(exp))
            if len(sols) != want or (st != "none" if case["k"] < len(exp) else st not in ("none", "complete") if case["k"] == len(exp) else st != "complete"):
                return "wrong-number", "%d solutions expected (of %d)\n%s" % (want, len(exp), o.brief())
        else:
            if sorted(sols) != sorted(exp) or st != "complete":
                return "wrong-solutions", "%d solutions expected\n%s" % (len(exp), o.brief())
            if sols != sorted(sols):
                return "not-canonical", o.brief()
        return None
    sg = 1 if case["goal"] == "minimize" else -1
    best = min(sg * v for v in exp.values())
    if st != "complete":
        return "wrong-status", "expected complete, got %s\n%s" % (st, o.brief())
    if not sols:
        return "no-solution", o.brief()
    if abs(sg * cvals[-1] - best) > 1e-6:
        return "not-optimal", "best objective is %s, got %s\n%s" % (sg * best, cvals[-1], o.brief())
    if "-a" not in case["flags"] and len(sols) != 1:
        return "intermediate", "only the last solution was asked for\n" + o.brief()
    for a, b in zip(cvals, cvals[1:]):
        if sg * b >= sg * a:
            return "not-improving", "%s then %s\n%s" % (a, b, o.brief())
    return None


def execute(case, d):
    drv.write(d, "m.mzn", case["model"])
    return drv.run(list(case["solver"]) + case["args"] + case["flags"] + ["m.mzn"], d)


def run(case, ctx, d):
    vals = set(v for _, v in case["expect"])
    nt = len(vals) > 1 or (case["goal"] == "satisfy" and len(case["expect"]) > 1)
    kw = dict(nontrivial=nt, key=case["model"], labels=case["labels"], sample=case["model"])
    r = judge(case, execute(case, d))
    if r is None:
        return ok(**kw)
    if r[0] == "inconclusive":
        return Res("inconclusive", r[1], labels=case["labels"])
    if case["solver"] == solcheck.STD and judge(case, execute(dict(case, solver=solcheck.ALT), d)) is None:
        return Res("inconclusive", "gecode-bool-linear", labels=case["labels"])
    return fail(r[0], r[1] + "\nmodel:\n" + case["model"], **kw)


if __name__ == "__main__":
    import mzv.c12 as me
    main(me)
