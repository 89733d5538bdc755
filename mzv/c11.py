"""C11: parameter values are read from and written to every data format unchanged; wrong data is rejected."""
import json, os
from . import build, drv, pareval
from .core import main, SkipCase, ok, fail, Res
from .datagen import Data, jeq, dznloses

PROP = "C11"
N = {"quick": 650, "thorough": 20000}
RULE = ("random parameter types and values, each assigned in the model, in one of two DZN files, in a JSON file or on the command line; non-trivial: "
        "at least three parameters, or one planted data error")
ASSUMPTIONS = ["output through a satisfaction problem without variables"]


def setup(tier):
    build.build_driver()


def gen(src, tier):
    g = Data(src)
    g.mkenums()
    items, out = [], []
    where = {"dzn1": [], "dzn2": [], "json": [], "cmd": []}
    methods = [(2, "inline"), (3, "dzn1"), (2, "dzn2"), (4, "json"), (1, "cmd")]
    back = []  # enum definitions for feeding the output back
    for n, e in g.enums.items():
        m = src.weighted(methods)
        if m == "json" and e.kind != "names":
            m = "dzn1"
        if m == "inline":
            items.append("enum %s = %s;" % (n, e.rhs()))
        else:
            items.append("enum %s;" % n)
            if m == "json":
                where["json"].append((n, json.dumps(e.names, ensure_ascii=False) if src.bool() else json.dumps({"set": [{"e": x} for x in e.names]}, ensure_ascii=False)))
            else:
                where[m].append((n, e.rhs()))
        back.append("%s = %s;" % (n, e.rhs()))
    pars = []
    for k in range(src.int(1, 9)):
        t = g.type()
        v = g.value(t)
        n = "p%d" % k
        m = src.weighted(methods)
        if m == "json" and not g.onebased(v, t):
            m = "dzn2"
        pars.append((n, t, v, m))
    fault = None
    if src.bool(1, 4):
        fault = make_fault(g, src, pars, where, items)
        if fault is None:
            raise SkipCase("no place for the fault")
        g.labels.add("fault:" + fault)
    for n, t, v, m in pars:
        if m == "skip":
            items.append("%s: %s;" % (g.ttext(t), n))
            continue
        if m == "raw":
            continue
        if m == "inline":
            items.append("%s: %s :: output = %s;" % (g.ttext(t), n, g.mzn(v, t)))
        else:
            items.append("%s: %s :: output;" % (g.ttext(t), n))
            if m == "json":
                where["json"].append((n, g.jstext(v, t)))
            else:
                where[m].append((n, g.mzn(v, t)))
        g.labels.add("type:" + t[0])
        g.labels.add("by:" + m)
    files, args = {}, []
    for f in ("dzn1", "dzn2"):
        if where[f]:
            its = src.shuffle(where[f]) if src.bool() else where[f]
            sep = src.choice(["\n", " ", "\n% comment ; x = 3\n", " /* a = b; */ "])
            end = src.choice(["", "\n", "% end"])
            files[f + ".dzn"] = sep.join("%s%s=%s%s;" % (n, src.choice(["", " "]), src.choice(["", " "]), x) for n, x in its) + ("\n" if sep == " " and end[:1] == "%" else "") + end
    if where["json"]:
        its = src.shuffle(where["json"]) if src.bool() else where["json"]
        files["data.json"] = "{%s}" % (",\n" if src.bool() else ", ").join("%s : %s" % (json.dumps(n), x) for n, x in its)
    for n, x in where["cmd"]:
        args += ["-D", "%s = %s;" % (n, x)] if src.bool() else ["-D%s=%s" % (n, x)]
    if src.bool(1, 3):
        items = src.shuffle(items)
    oi = "output [%s];" % ", ".join('"@%d " ++ show(%s) ++ "\\n"' % (i, p[0]) for i, p in enumerate(pars) if p[3] != "raw")
    order = src.shuffle(sorted(files))
    exp = [None if p[3] in ("raw", "skip") else g.show(p[2]) for p in pars]
    js = {p[0]: g.js(p[2]) for p in pars if p[3] not in ("raw", "skip")}
    oneb = all(g.onebased(p[2], p[1]) for p in pars if p[3] not in ("raw", "skip"))
    mode = src.weighted([(2, "dzn"), (2, "json"), (1, "none")])
    if mode == "dzn" and any(dznloses(p[2], p[1], None) for p in pars if p[3] not in ("raw", "skip")):
        mode = "none"
    # the model with no assignments at all, for feeding the output back
    bare = "\n".join(["enum %s;" % n for n in g.enums] + ["%s: %s :: output;" % (g.ttext(t), n) for n, t, v, m in pars if m not in ("raw", "skip")])
    return {"model": "\n".join(items) + "\n", "out": oi + "\n", "files": files, "order": order, "args": args, "expect": exp, "json": js, "oneb": oneb,
            "back": "\n".join(back) + "\n", "bare": bare + "\n", "fault": fault, "mode": mode,
            "flags": src.weighted([(4, []), (1, ["-O0"]), (1, ["-O2"])]), "names": [p[0] for p in pars], "labels": sorted(g.labels)}


def make_fault(g, src, pars, where, items):
    k = src.choice(["missing", "domain", "length", "dup", "member", "type", "undeclared", "enummissing", "shape"])
    n = "q"

    def put(ttext, mz, js):
        m = src.choice(["inline", "dzn1", "json", "cmd"])
        if js is None and m == "json":
            m = "dzn1"
        if m == "inline":
            items.append("%s: %s = %s;" % (ttext, n, mz))
        else:
            items.append("%s: %s;" % (ttext, n))
            where[m].append((n, js if m == "json" else mz))
    if k == "missing":
        t = g.type()
        if t[0] == "opt":
            return None
        items.append("%s: %s;" % (g.ttext(t), n))
        pars.append((n, t, None, "raw"))
        g.labels.add("missing:" + t[0])
    elif k == "domain":
        lo = src.small(-3, 3)
        hi = lo + src.int(0, 4)
        bad = src.choice([lo - 1, hi + 1, hi + 5, lo - 3])
        good = src.int(lo, hi)
        D = "%d..%d" % (lo, hi)
        f = src.choice(["s", "set", "arr", "tup", "rec", "opt", "arr2", "float", "arrtup", "arrset"])
        g.labels.add("domain:" + f)
        if f == "s":
            put(D, str(bad), str(bad))
        elif f == "opt":
            put("opt " + D, str(bad), str(bad))
        elif f == "set":
            put("set of " + D, "{%d,%d}" % (good, bad), '{"set":[%d,%d]}' % (good, bad))
        elif f == "arr":
            put("array[1..2] of " + D, "[%d,%d]" % (good, bad), "[%d,%d]" % (good, bad))
        elif f == "arr2":
            put("array[int,int] of " + D, "[|%d,%d|%d,%d|]" % (good, good, bad, good), "[[%d,%d],[%d,%d]]" % (good, good, bad, good))
        elif f == "tup":
            put("tuple(bool, %s)" % D, "(true, %d)" % bad, "[true, %d]" % bad)
        elif f == "rec":
            put("record(%s: a, bool: b)" % D, "(a: %d, b: true)" % bad, '{"a": %d, "b": true}' % bad)
        elif f == "float":
            put("%d.0..%d.5" % (lo, hi), "%d.75" % hi if hi >= 0 else "%d.0" % (hi + 1), "%d.75" % hi if hi >= 0 else "%d.0" % (hi + 1))
        elif f == "arrtup":
            put("array[int] of tuple(%s,int)" % D, "[(%d,1),(%d,2)]" % (good, bad), "[[%d,1],[%d,2]]" % (good, bad))
        elif f == "arrset":
            put("array[int] of set of " + D, "[{},{%d}]" % bad, '[{"set":[]},{"set":[%d]}]' % bad)
    elif k == "length":
        a, b = src.int(1, 3), src.int(1, 4)
        if a == b:
            b += 1
        l = ",".join(str(src.int(0, 3)) for _ in range(b))
        put("array[1..%d] of int" % a, "[%s]" % l, "[%s]" % l)
    elif k == "shape":
        r, c = src.int(1, 3), src.int(1, 3)
        r2, c2 = src.int(1, 3), src.int(1, 3)
        if (r, c) == (r2, c2):
            r2 += 1
        rows = [[src.int(0, 3) for _ in range(c2)] for _ in range(r2)]
        put("array[1..%d,1..%d] of int" % (r, c), "[|%s|]" % "|".join(",".join(map(str, x)) for x in rows), json.dumps(rows) if r * c != r2 * c2 else None)
    elif k == "dup":
        items.append("int: %s;" % n)
        a, b = src.int(0, 3), src.int(4, 7)
        ms = src.sample(["dzn1", "dzn2", "json", "cmd"], 2)
        if src.bool(1, 4):
            ms[1] = ms[0] if ms[0] != "json" else "dzn1"
        where[ms[0]].append((n, str(a)))
        where[ms[1]].append((n, str(b)))
    elif k == "member":
        if not g.enums:
            return None
        e = src.choice(sorted(g.enums))
        f = src.choice(["%s", "set of %s", "array[1..1] of %s"])
        bad = "Nope"
        put(f % e, {"%": "%s", "s": "{%s}", "a": "[%s]"}[f[0]] % bad, {"%": "%s", "s": '{"set":[%s]}', "a": "[%s]"}[f[0]] % '{"e":"Nope"}')
    elif k == "type":
        t, mz, js = src.choice([("int", '"a"', '"a"'), ("int", "1.5", "1.5"), ("bool", "2", "2"), ("string", "3", "3"), ("int", "[1]", "[1]"), ("array[int] of int", "3", "3"),
                                ("set of int", "3", "3"), ("set of int", "[1,2]", None), ("tuple(int,int)", "(1,2,3)", "[1,2,3]"), ("tuple(int,int)", '(1,"a")', '[1,"a"]'),
                                ("record(int: a, int: b)", "(a: 1)", '{"a":1}'), ("record(int: a)", "(b: 1)", '{"b":1}'), ("int", "<>", "null"),
                                ("array[int] of int", "[1,<>]", "[1,null]"), ("array[int] of int", "[1,2.5]", "[1,2.5]"), ("array[int] of bool", '[true,"x"]', '[true,"x"]'), ("set of int", "{1.5}", '{"set":[1.5]}'),
                                ("int", "{1}", '{"set":[1]}'), ("string", "[]", '{"a":1}'), ("array[int] of set of int", "[{1},2]", '[{"set":[1]},2]')])
        g.labels.add("badtype:" + t)
        put(t, mz, js)
    elif k == "undeclared":
        where[src.choice(["dzn1", "cmd"])].append((n, "1"))
    elif k == "enummissing":
        items.append("enum Q;")
        items.append("set of Q: sq = Q;")
    pars.append((n, ("int", None), 0, "raw"))
    return k


def regressions():
    return []


def parse(sol):
    got = {}
    for part in ("\n" + sol).split("\n@")[1:]:
        k, _, v = part.partition(" ")
        got[int(k)] = v
    return got


def run(case, ctx, d):
    files = dict(case["files"])
    for n, x in files.items():
        drv.write(d, n, x)
    drv.write(d, "m.mzn", case["model"] + case["out"])
    data = [f for f in case["order"]]
    S = ["--solver", "mzv.std"]
    text = case["model"] + case["out"] + "".join("\n--- %s\n%s" % f for f in files.items()) + "\nargs: %s" % case["args"]
    kw = dict(labels=case["labels"], key=text, nontrivial=len(case["names"]) >= 3 or bool(case["fault"]), sub=len(case["names"]), sample=text)
    o = drv.run(S + case["flags"] + case["args"] + ["m.mzn"] + data, d)
    if o.timeout:
        return Res("inconclusive", "timeout", labels=case["labels"])
    if o.crashed or "internal error" in o.err or "violation detected" in o.err:
        return fail("crash", o.brief() + "\n" + text, **kw)
    if case["fault"]:
        if o.rc == 0 or drv.SEP in o.out:
            return fail("accepted:" + case["fault"], "wrong data accepted\n" + o.brief() + "\n" + text, **kw)
        return ok(**kw)

    def err(tag, o, extra=""):
        em = [l for l in o.err.split("\n") if l.startswith("Error")]
        return fail(tag + (em[0][7:50] if em else "error"), o.brief() + "\n" + text + extra, **kw)

    def check(tag, o, extra=""):
        if o.rc != 0:
            return err(tag + ":", o, extra)
        sols, _ = drv.parse_stream(o.out)
        if len(sols) != 1:
            return fail(tag + ":no-output", o.brief() + "\n" + text + extra, **kw)
        got = parse(sols[0])
        for k, want in enumerate(case["expect"]):
            if want is not None and (k not in got or not pareval.match(want, got[k])):
                return fail(tag + ":value", "%s: expected %s got %s\n%s%s" % (case["names"][k], want, got.get(k), text, extra), **kw)
        return None
    r = check("read", o)
    if r:
        return r
    if case["mode"] == "none":
        return ok(**kw)
    drv.write(d, "b.mzn", case["bare"])
    drv.write(d, "bo.mzn", case["bare"] + case["out"])
    drv.write(d, "enums.dzn", case["back"])
    o = drv.run(S + case["flags"] + ["--output-mode", case["mode"]] + case["args"] + ["m.mzn"] + data, d)
    if o.timeout:
        return Res("inconclusive", "timeout", labels=case["labels"])
    if o.rc != 0 or o.crashed:
        return err("write-%s:" % case["mode"], o)
    sols, _ = drv.parse_stream(o.out)
    if len(sols) != 1:
        return fail("write:no-output", o.brief() + "\n" + text, **kw)
    if case["mode"] == "json":
        try:
            j = json.loads(sols[0])
        except ValueError:
            return fail("write-json:invalid", o.brief() + "\n" + text, **kw)
        for n, v in case["json"].items():
            if n not in j or not jeq(v, j[n]):
                return fail("write-json:value", "%s: expected %s got %s\n%s" % (n, json.dumps(v), json.dumps(j.get(n)), text), **kw)
        if set(j) != set(case["json"]):
            return fail("write-json:names", "%s\n%s" % (sorted(j), text), **kw)
        if not case["oneb"]:
            return ok(**kw)
        drv.write(d, "back.json", sols[0])
        o = drv.run(S + ["bo.mzn", "enums.dzn", "back.json"], d)
    else:
        drv.write(d, "back.dzn", sols[0])
        o = drv.run(S + ["bo.mzn", "enums.dzn", "back.dzn"], d)
    if o.timeout:
        return Res("inconclusive", "timeout", labels=case["labels"])
    if o.crashed:
        return fail("crash", o.brief() + "\n" + text, **kw)
    return check("back-" + case["mode"], o, "\n--- fed back:\n" + sols[0]) or ok(**kw)


if __name__ == "__main__":
    import mzv.c11 as me
    main(me)
