"""C06: fixed expressions evaluate to the documented value."""
from . import build, drv, pareval
from .core import main, SkipCase, ok, fail, Res
from .lang import Undef

PROP = "C06"
N = {"quick": 1300, "thorough": 40000}
RULE = ("each run evaluates about twenty random typed expressions over random parameters; an expression counts as non-trivial "
        "when it applies at least two operations (nested)")
ASSUMPTIONS = ["the values of the C library's floating point functions (compared with relative tolerance 1e-9)"]
TYPES = [(6, "int"), (4, "float"), (6, "bool"), (4, "str"), (5, ("set", "int")), (2, ("set", "Col")), (1, ("set", "float")), (2, "Col"), (1, "Day"),
         (4, pareval.AR("int")), (2, pareval.AR("float")), (2, pareval.AR("bool")), (2, pareval.AR("str")), (2, pareval.AR("Col")), (2, pareval.AR("int", "int", "int")), (1, pareval.AR(("set", "int"))),
         (1, ("tup", ("int", "bool"))), (1, ("rec", (("a", "int"), ("b", "float")))), (1, ("opt", "int")), (1, pareval.AR(("tup", ("int", "str")))), (1, pareval.AR("Day", "int", "int"))]


def setup(tier):
    build.build_driver()


def gen(src, tier):
    g = pareval.Par(src)
    g.decls()
    outs, exp, ctxs = [], [], []
    want = src.int(1, 24)
    tries = 0
    while len(exp) < want and tries < 60:
        tries += 1
        t = src.weighted(TYPES)
        n_items = len(g.items)
        e = g.ex(t, src.int(1, 4))
        try:
            v = e.f({})
        except (Undef, SkipCase):
            del g.items[n_items:]
            continue
        if len(e.s) > 700:
            del g.items[n_items:]
            continue
        k = len(exp)
        ctx = src.weighted([(4, "out"), (3, "par"), (1, "let"), (2, "var"), (1, "fun"), (1, "eq"), (1, "cons")])
        if ctx == "var" and t not in ("int", "bool", "float", "Col", "Day"):
            ctx = "par"
        if ctx in ("eq", "cons") and (pareval.is_arr(t) or not isinstance(t, str) or t == "float"):
            ctx = "out"
        if ctx == "fun" and pareval.is_arr(t):
            ctx = "par"
        if ctx == "out":
            tx = "show(%s)" % e.s
        elif ctx == "par":
            tt = "any" if (pareval.is_arr(t) or src.bool()) else pareval.ttext(t)
            g.items.append("%s: c%d = %s;" % (tt, k, e.s))
            tx = "show(c%d)" % k
        elif ctx == "let":
            tx = "let { any: q%d = %s } in show(q%d)" % (k, e.s, k)
        elif ctx == "var":
            g.items.append("var %s: c%d = %s;" % (t, k, e.s))
            tx = "show(c%d)" % k
        elif ctx == "fun":
            rt = pareval.ttext(t)
            g.items.append("function %s: g%d() = %s;" % (rt, k, e.s))
            tx = "show(g%d())" % k
        elif ctx == "eq":
            tx = "show((%s) = (%s))" % (e.s, pareval.literal(v, t))
            v = True
        else:
            g.items.append("constraint (%s) = (%s);" % (e.s, pareval.literal(v, t)))
            tx = "\"ok\""
            v = None
        outs.append('"@%d " ++ %s ++ "\\n"' % (k, tx))
        exp.append("ok" if v is None else pareval.render(v))
        ctxs.append(ctx)
        g.labels.add("ctx:" + ctx)
    if not exp:
        raise SkipCase("nothing")
    model = "\n".join(g.items) + "\noutput [" + ",\n  ".join(outs) + "];\n"
    if "inverse(" in model:
        model = 'include "inverse_fn.mzn";\n' + model
    return {"model": model, "expect": exp, "labels": sorted(g.labels), "n": len(exp), "args": src.weighted([(6, []), (1, ["-O0"]), (1, ["-O2"])])}


def regressions():
    return []


def run(case, ctx, d):
    drv.write(d, "m.mzn", case["model"])
    o = drv.run(["--solver", "mzv.std"] + case["args"] + ["m.mzn"], d)
    kw = dict(labels=case["labels"], key=case["model"], nontrivial=True, sub=case["n"], sample=case["model"])
    if o.timeout:
        return Res("inconclusive", "timeout", labels=case["labels"])
    if o.rc != 0:
        if "Index set mismatch" in o.err:  # a hoisted condition that the program never reaches in textual order
            return Res("inconclusive", "index set mismatch", labels=case["labels"])
        em = [l for l in o.err.split("\n") if l.startswith("Error")]
        return fail("error:" + em[0][7:45] if em and not o.crashed else "crash" if o.crashed else "error", o.brief() + "\n" + case["model"], **kw)
    sols, st = drv.parse_stream(o.out)
    if len(sols) != 1:
        return fail("no-output", o.brief() + "\n" + case["model"], **kw)
    got = {}
    for part in ("\n" + sols[0]).split("\n@")[1:]:
        k, _, v = part.partition(" ")
        got[int(k)] = v
    for k, want in enumerate(case["expect"]):
        g = got.get(k)
        if g is None or not pareval.match(want, g):
            line = [l for l in case["model"].split("\n") if "c%d " % k in l or "g%d()" % k in l or '"@%d "' % k in l]
            return fail("wrong-value", "expression %d: expected %s got %s\n%s\nmodel:\n%s" % (k, want, g, "\n".join(line), case["model"]), **kw)
    return ok(**kw)


if __name__ == "__main__":
    import mzv.c06 as me
    main(me)
