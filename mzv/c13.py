"""C13: a FlatZinc solver's solution stream is translated faithfully, however it arrives."""
import json, os, re, subprocess
from . import build, drv
from .core import main, ok, fail, Res
from .datagen import Data, jeq, SetV, ArrV, EV, ident

PROP = "C13"
N = {"quick": 1300, "thorough": 40000}
RULE = ("random output variables, output items and solution streams (values, layout, comments, statistics, duplicates, status, truncation, exit status, chunk "
        "boundaries) replayed by a scripted solver; the expected output is computed from the stream's content; non-trivial: at least two solutions, or a faulty end of the stream")
ASSUMPTIONS = ["arrays whose FlatZinc name is introduced are recognised in the FlatZinc by element type and length"]
SCR = ["--solver", "mzv.scripted"]
MSG = {"complete": "==========", "unsat": "=====UNSATISFIABLE=====", "unknown": "=====UNKNOWN=====", "unbounded": "=====UNBOUNDED=====",
       "unsatunb": "=====UNSATorUNBOUNDED=====", "error": "=====ERROR====="}
JST = {"complete": None, "unsat": "UNSATISFIABLE", "unknown": "UNKNOWN", "unbounded": "UNBOUNDED", "unsatunb": "UNSAT_OR_UNBOUNDED", "error": "ERROR"}
FLAG = {"complete": "--search-complete-msg", "unsat": "--unsat-msg", "unknown": "--unknown-msg", "unbounded": "--unbounded-msg", "unsatunb": "--unsatorunbnd-msg", "error": "--error-msg"}


def setup(tier):
    build.build_driver()


def vtype(g, s):
    def scalar():
        k = s.weighted([(5, "int"), (2, "bool"), (2, "float"), (2, "set")] + ([(3, "enum")] if g.enums else []))
        if k == "int":
            lo = s.small(-5, 5)
            return ("int", (lo, lo + s.int(1, 8)) if s.bool(2, 3) else None)
        if k == "float":
            return ("float", None)
        if k == "set":
            if g.enums and s.bool(1, 3):
                return ("set", ("enum", s.choice(sorted(g.enums))))
            lo = s.small(-3, 3)
            return ("set", ("int", (lo, lo + s.int(1, 5))))
        return (k,) if k != "enum" else ("enum", s.choice(sorted(g.enums)))
    if s.bool():
        return scalar()
    ix = []
    for _ in range(s.weighted([(4, 1), (2, 2), (1, 3)])):
        if g.enums and s.bool(1, 4):
            ix.append(("e", s.choice(sorted(g.enums))))
        else:
            lo = s.weighted([(5, 1), (1, 0), (1, -2), (1, 3)])
            ix.append(("r", lo, lo + s.int(0, 3)))
    return ("arr", ix, scalar())


def value(g, s, t):
    if t[0] == "float":
        return s.small(-12, 12) / 4
    if t[0] == "int" and t[1] is None:
        return s.choice([0, 1, -1, 7, 100000, -2147483647, 123456789])
    if t[0] == "arr":
        ix = [("int", i[1], i[2]) if i[0] == "r" else (i[1], 1, g.enums[i[1]].size) for i in t[1]]
        n = 1
        for _, lo, hi in ix:
            n *= hi - lo + 1
        return ArrV(ix, [value(g, s, t[2]) for _ in range(n)])
    return g.value(t)


def signature(g, t):
    n = 1
    for i in t[1]:
        n *= i[2] - i[1] + 1 if i[0] == "r" else g.enums[i[1]].size
    e = t[2]
    return ("set of int" if e[0] == "set" else "int" if e[0] == "enum" else e[0], n)


def fz(v, s):
    """FlatZinc text of a value"""
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, float):
        return s.choice([repr(v), "%.6f" % v, "%e" % v])
    if isinstance(v, EV):
        return str(v.i)
    if isinstance(v, SetV):
        w = [x.i if isinstance(x, EV) else x for x in v.vals]
        if not w:
            return s.choice(["{}", "1..0"])
        if w[-1] - w[0] == len(w) - 1 and s.bool():
            return "%d..%d" % (w[0], w[-1])
        return "{" + s.choice([",", ", "]).join(map(str, w)) + "}"
    return str(v)


def show(g, v):
    return g.show(v).replace("\x01", "").replace("\x02", "")


def gen(src, tier):
    s = src
    g = Data(s)
    g.mkenums()
    for e in g.enums.values():
        if e.size < 2:
            e.k += 2 if e.kind != "names" else 0
            if e.kind == "names":
                e.names.append("Y" + e.name)
            e.size = len(e.names) + e.k
    items = ["enum %s = %s;" % (n, e.rhs()) for n, e in g.enums.items()]
    vs = []
    sigs = set()
    for i in range(s.int(1, 4)):
        t = vtype(g, s)
        if t[0] == "arr":  # each array is recognisable in the FlatZinc by its type and length
            if signature(g, t) in sigs:
                t = vtype(g, s)
                if t[0] == "arr" and signature(g, t) in sigs:
                    continue
            if t[0] == "arr":
                sigs.add(signature(g, t))
        vs.append(("v%d" % i if s.bool(3, 4) else "var_name_%d" % i, t))
    # "var" goes before the element type
    items += [vdecl(g, t, n) for n, t in vs]
    goal = s.weighted([(3, "satisfy"), (1, "opt")])
    if goal == "opt":
        c = [n for n, t in vs if t[0] == "int" and t[1] is not None]
        goal = "minimize " + s.choice(c) if c else "satisfy"
    items.append("solve %s;" % goal)
    # output item
    parts = []
    lits = ["", "\n", " ", "a", "x = ", ";", "%% not a comment\n", "\"q\"", "é\n", "----------\n", "==========", "\\", "\t", "{", "[1,2]"]
    if s.bool(1, 8):
        parts = [("l", s.choice(lits)) for _ in range(s.int(0, 2))] + [("v", n) for n, t in vs if t[0] == "arr"]
    else:
        shown = s.sample(vs, s.int(1, len(vs)))
        for n, t in shown + [x for x in vs if x[1][0] == "arr" and x not in shown]:
            if s.bool():
                parts.append(("l", s.choice(lits)))
            parts.append(("v", n))
        if s.bool(2, 3):
            parts.append(("l", "\n"))
    sections = None
    mode = s.weighted([(4, "item"), (2, "dzn"), (3, "json"), (4, "stream")])
    if parts or s.bool():
        items.append("output [%s];" % ", ".join(mstr(x) if k == "l" else "show(%s)" % x for k, x in parts))
        noout = False
    else:
        noout = True
    sub = "item"
    if mode == "stream":
        sub = s.weighted([(3, "item"), (1, "dzn"), (2, "json")])
        if not noout and s.bool(1, 3):
            n, t = s.choice(vs)
            items.insert(s.int(0, len(items)), 'output :: "sec" ["<", show(%s), ">"];' % n)
            sections = n
    if s.bool(1, 3):
        decls = [x for x in items if " var " in " " + x]
        items = [decls.pop(0) if " var " in " " + x else x for x in s.shuffle(items)]
    order = [n for n, _ in vs]
    # the stream
    nsol = s.weighted([(1, 0), (2, 1), (4, 2), (3, 3), (2, 5), (1, 12)])
    ev = []  # ("c", line) comment, ("stat", {..}), ("sol", values), ("st", kind)
    vals = []
    for _ in range(nsol):
        if vals and s.bool(1, 6):
            vals.append(s.choice(vals))
        else:
            vals.append({n: value(g, s, t) for n, t in vs})
    text = []
    nl = s.weighted([(6, "\n"), (1, "\r\n")])

    def noise():
        for _ in range(s.weighted([(5, 0), (2, 1), (1, 2)])):
            k = s.weighted([(3, "c"), (1, "blank"), (2, "stat")])
            if k == "c":
                c = s.choice(["% comment", "%", "  % indented", "%%%mzn-other: x=1", "% x = 99; ----------", "%----------", "% é \"q\"", "%" + "y" * 400, "%%%mzn-progress 10"])
                text.append(c + nl)
                ev.append(("c", c))
            elif k == "blank":
                text.append(nl)
            else:
                st = {}
                for n in s.sample(["nodes", "failures", "propagations", "peakDepth", "solveTime"], s.int(1, 3)):
                    st[n] = s.int(0, 1000) if n != "solveTime" else 0.25
                for n, x in st.items():
                    text.append("%%%%%%mzn-stat: %s=%s%s" % (n, x, nl))
                    ev.append(("s", "%%%%%%mzn-stat: %s=%s" % (n, x)))
                text.append("%%%mzn-stat-end" + nl)
                ev.append(("s", "%%%mzn-stat-end"))
                ev.append(("stat", st))

    def assigns(v, upto=None):
        o = s.shuffle(vs)
        sep = s.choice([nl, " ", nl + nl])
        out = []
        for n, t in o:
            x = v[n]
            k = order.index(n)
            eq = s.choice([" = ", "=", " =  "])
            if isinstance(x, ArrV):
                c = s.choice([",", ", "])
                out.append("\x03%d\x04\x01%d\x02%s\x01%d(\x02[%s]);\x05" % (k, k, eq, k, c.join(fz(y, s) for y in x.v)))
            else:
                out.append("\x03%d\x04\x01%d\x02%s%s;\x05" % (k, k, eq, fz(x, s)))
        body = sep.join(out)
        if s.bool(1, 10) and "sep" != " " and out[-1:] and not any(isinstance(x, str) and not x for x in out):
            body = body[:-1] + " % trailing comment\x05"
        return body + nl
    ignore = 0
    if s.bool(1, 8):
        ignore = s.int(1, 3)
        for _ in range(ignore):
            text.append(s.choice(["garbage !", "----------", "% ignored", "=====UNKNOWN=====", ""]) + nl)
    for v in vals:
        noise()
        text.append(assigns(v))
        noise()
        text.append("----------" + nl)
        ev.append(("sol", v))
    noise()
    end = s.weighted([(5, "complete" if nsol else "unsat"), (3, None), (2, "partial"), (1, "unknown"), (1, "unbounded"), (1, "unsatunb"), (1, "error")])
    exit_ = s.weighted([(6, 0), (1, 1), (1, 3)]) if end in (None, "partial", "complete", "unsat") else 0
    sig = 0
    if end in (None, "partial") and s.bool(1, 5):
        sig = s.choice([9, 11, 15])
    if end == "partial":
        b = assigns(value_all(g, s, vs))
        text.append(b if s.bool() else b.rstrip("\r\n"))
    elif end:
        text.append(MSG[end] + nl)
        ev.append(("st", end))
        noise()
        while text[-1] == nl:
            text.pop()
        if s.bool(1, 4):
            text[-1] = text[-1].rstrip("\r\n")
    elif nsol and s.bool(1, 4):
        text[-1] = text[-1].rstrip("\r\n")
    route = s.weighted([(4, "solver"), (1, "stdin")])
    if route == "stdin" and mode == "stream":
        route = "solver"
    cuts = []
    if route == "solver":
        cuts = sorted([round(s.draw(1000) / 1000.0, 3), s.int(1, 6)] for _ in range(s.weighted([(3, 0), (2, 1), (2, 3), (1, 6)])))
    # options
    flags, o = [], {}
    if s.bool(1, 6):
        flags.append("--non-unique")
        o["nonunique"] = True
    if s.bool(1, 6):
        flags.append("--canonicalize")
        o["canon"] = True
        if s.bool(1, 3):
            flags += ["--output-non-canonical", "nc.txt"]
            o["nc"] = True
    if s.bool(1, 8):
        flags.append("--no-output-comments")
        o["nocomm"] = True
    if s.bool(1, 8) and mode != "stream":
        flags += [s.choice(["--soln-sep", "--soln-separator", "--solution-separator"]), s.choice(["~~~", "%%%sep", "==="])]
        o["sep"] = flags[-1]
    if s.bool(1, 8) and mode != "stream":
        flags += [s.choice(["--soln-comma", "--solution-comma"]), s.choice([",", "%%%comma"])]
        o["comma"] = flags[-1]
    if s.bool(1, 6) and mode != "stream":
        k = s.choice(sorted(FLAG))
        flags += [FLAG[k], "<<" + k + ">>"]
        o["msg"] = {k: flags[-1]}
    if ignore:
        flags += ["--ignore-leading-lines", str(ignore)]
    if s.bool(1, 6):
        flags += [s.choice(["-o", "--output-to-file"]), "out.txt"]
        o["file"] = True
    if s.bool(1, 6) and route == "solver":
        flags += ["--output-raw", "raw.txt"]
        o["raw"] = True
    if mode == "stream":
        flags.append("--json-stream")
        if sub != "item":
            flags += ["--output-mode", sub]
    elif mode != "item":
        flags += ["--output-mode", mode]
    if s.bool(1, 5) and route == "solver" and "file" not in o:
        flags.append(s.choice(["-s", "--statistics"]))
        o["stats"] = True
    # expectations, solution by solution
    def it(v):
        t = "".join(x if k == "l" else show(g, v[x]) for k, x in parts)
        return t
    exp = []
    for k, x in ev:
        if k == "sol":
            e = {"js": {n: g.js(x[n]) for n, _ in vs}, "dzn": {n: [show(g, y) for y in x[n].v] if isinstance(x[n], ArrV) else show(g, x[n]) for n, _ in vs}}
            e["item"] = it(x)
            if sections:
                e["sec"] = "<" + show(g, x[sections]) + ">"
            exp.append(["sol", e])
        else:
            exp.append([k, x])
    labels = sorted(g.labels) + ["mode:" + mode + ("-" + sub if mode == "stream" else ""), "end:%s" % end, "exit:%d" % exit_, "sig:%d" % sig, "route:" + route,
                                 "nl:" + repr(nl), "nsol:%d" % nsol] + ["opt:" + k for k in o] + ["type:" + (t[0] if t[0] != "arr" else "arr%d-%s" % (len(t[1]), t[2][0])) for _, t in vs]
    return {"model": "\n".join(items) + "\n", "text": "".join(text), "vars": [[n, list(signature(g, dict(vs)[n])) if dict(vs)[n][0] == "arr" else None] for n in order], "cuts": cuts, "exit": exit_, "signal": sig,
            "events": exp, "flags": flags, "o": o, "mode": mode, "sub": sub, "end": end, "route": route, "sat": goal == "satisfy", "noout": noout, "nsol": nsol, "labels": labels}


def value_all(g, s, vs):
    return {n: value(g, s, t) for n, t in vs}


def vdecl(g, t, n):
    if t[0] == "arr":
        base = g.ttext(t)
        i = base.index("] of ") + 5
        return base[:i] + "var " + base[i:] + ": %s;" % n
    return "var %s: %s;" % (g.ttext(t), n)


def mstr(v):
    return '"' + v.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n").replace("\t", "\\t") + '"'


def dzn_ok(text, exp):
    """the DZN text assigns exactly the expected values (index sets are C11's business)"""
    got = {}
    for m in re.finditer(r"(?m)^(\w+) = ((?:[^;\"]|\"(?:[^\"\\]|\\.)*\")*);\n", text):
        got[m.group(1)] = m.group(2)
    if set(got) != set(exp):
        return "names %s" % sorted(got)
    for n, want in exp.items():
        x = got[n].strip()
        if isinstance(want, list):
            m = re.match(r"array\dd\((.*), *(\[[^\[]*\])\)$", x, re.S)
            if m:
                x = m.group(2)
            x = re.sub(r"^\[\|?|\|?\]$", "", x.strip()).strip()
            els, cur, dep = [], "", 0
            for ch in x.replace("|", ","):
                dep += ch in "{(["
                dep -= ch in "})]"
                if ch == "," and dep == 0:
                    els.append(cur)
                    cur = ""
                else:
                    cur += ch
            els.append(cur)
            els = [e.split(": ", 1)[-1].strip() for e in els if e.strip()]
            els = [e.replace("'", "") for e in els]
            w = [e.replace("'", "") for e in want]
            if len(els) > len(w) and len(els) == len(w) + 0:
                pass
            if els != w and not (len(els) > len(w)):
                return "%s: expected %s got %s" % (n, w, els)
        elif x.replace("'", "") != want.replace("'", ""):
            return "%s: expected %s got %s" % (n, want, x)
    return None


def solmatch(case, e, text):
    """does the printed solution text stand for the expected solution?"""
    if case["mode"] == "json":
        try:
            j = json.loads(text)
        except ValueError:
            return "not JSON: " + text
        return None if jeq(j, e["js"]) else "expected %s got %s" % (json.dumps(e["js"]), json.dumps(j))
    if case["mode"] == "dzn" or case["noout"]:
        return dzn_ok(text, e["dzn"])
    w = e["item"]
    if w and not w.endswith("\n"):
        w += "\n"
    return None if text == w else "expected %r got %r" % (w, text)


def key(case, e):
    if case["mode"] in ("json", "dzn") or (case["mode"] == "stream" and case["sub"] != "item") or case["noout"]:
        k = json.dumps(e["js"], sort_keys=True)
        return k
    return e["item"] + (e.get("sec", "") if case["mode"] == "stream" else "")


def expected(case):
    """list of ("line", text) | ("sol", e) | ("status", kind) | ("stat", d)"""
    o = case["o"]
    out, seen, n = [], set(), 0
    kept = []
    st = None
    for k, x in case["events"]:
        if k in ("c", "s", "stat"):
            if not o.get("nocomm"):
                out.append([k, x])
        elif k == "sol":
            kk = key(case, x)
            if kk in seen and (not o.get("nonunique") or o.get("canon")):
                continue
            seen.add(kk)
            n += 1
            if o.get("canon"):
                kept.append((kk, x))
            else:
                out.append(["sol", x])
        else:
            if o.get("canon"):
                out += [["sol", y] for _, y in kept]
                kept = []
            out.append(["status", x])
            st = x
    if st is None and case["route"] == "solver":
        if o.get("canon"):
            out += [["sol", y] for _, y in kept]
        nothing = not any(k == "sol" for k, _ in case["events"])
        if case["exit"] or case["signal"]:
            out.append(["status", "error"])
        elif nothing:
            out.append(["status", "unknown"])
    return out, n


def judge(case, out, err, rc):
    o = case["o"]
    exp, nsol = expected(case)
    if case["mode"] == "stream":
        return judge_stream(case, exp, nsol, out)
    sep = o.get("sep", "----------") + "\n"
    stats = []
    if o.get("stats"):
        stats = re.findall(r"(?m)^%%%mzn-stat: nSolutions=(\d+)$", out)
        if stats != [str(nsol)]:
            return "nSolutions statistic %s, expected %d" % (stats, nsol)
        head = re.match(r"(% Generated FlatZinc statistics:\n(%%%mzn-stat: .*\n)*%%%mzn-stat-end\n)", out)
        if head:
            out = out[head.end():]
        out = re.sub(r"%%%mzn-stat: nSolutions=\d+\n%%%mzn-stat-end\n$", "", out)
    first = True
    sols = []
    if o.get("canon"):
        # sorted by their text; which is which is decided by the text
        texts = []
    for k, x in exp:
        if k in ("c", "s"):
            if not out.startswith(x + "\n"):
                return "expected the line %r, got %r" % (x, out[:200])
            out = out[len(x) + 1:]
        elif k == "stat":
            pass
        elif k == "sol":
            if o.get("comma") and not first:
                c = o["comma"] + "\n"
                if not out.startswith(c):
                    return "expected the separator %r, got %r" % (c, out[:200])
                out = out[len(c):]
            first = False
            # the solution text ends at the first separator line that makes it match
            i = -1
            why = "no separator"
            while True:
                i = out.find(sep, i + 1)
                if i < 0:
                    break
                if i and out[i - 1] != "\n":
                    continue
                t = out[:i]
                if o.get("canon"):
                    why = None if not sols or sols[-1] < t else "not sorted"
                    hit = [e for kk, e in exp if kk == "sol" and solmatch(case, e, t) is None]
                    if not hit:
                        why = "no such solution: %r" % t
                else:
                    why = solmatch(case, x, t)
                if why is None:
                    break
            if i < 0:
                return "solution: %s\ngot %r" % (solmatch(case, x, out.split(sep)[0]) or why, out[:300])
            sols.append(out[:i])
            out = out[i + len(sep):]
        else:
            m = o.get("msg", {}).get(x, MSG[x]) + "\n"
            if not out.startswith(m):
                return "expected the status %r, got %r" % (m, out[:200])
            out = out[len(m):]
    if out:
        return "unexpected output %r" % out[:300]
    if o.get("nc"):
        pass
    return None


def judge_stream(case, exp, nsol, out):
    o = case["o"]
    try:
        msgs = [json.loads(l) for l in out.split("\n") if l]
    except ValueError:
        return "not a JSON stream: " + out[:300]
    got = []
    nst = []
    for m in msgs:
        if m["type"] == "statistics" and ("nSolutions" in m["statistics"] or "flatTime" in m["statistics"] or "paths" in m["statistics"]):
            if "nSolutions" in m["statistics"]:
                nst.append(m["statistics"]["nSolutions"])
            continue
        got.append(m)
    if o.get("stats") and nst != [nsol]:
        return "nSolutions statistic %s, expected %d" % (nst, nsol)
    exp = [e for e in exp if e[0] != "s"]
    if o.get("canon"):
        a = [m for m in got if m["type"] == "solution"]
        got = [m for m in got if m["type"] != "solution"]
        b = [x for k, x in exp if k == "sol"]
        exp = [e for e in exp if e[0] != "sol"]
        if len(a) != len(b):
            return "%d solutions, expected %d" % (len(a), len(b))
        for e in b:
            if not any(strsol(case, e, m) is None for m in a):
                return "missing solution %s" % json.dumps(e["js"])
    if len(got) != len(exp):
        return "%d messages, expected %d: %s" % (len(got), len(exp), json.dumps(got)[:600])
    for (k, x), m in zip(exp, got):
        if k == "c":
            if m != {"type": "comment", "comment": x + "\n"}:
                return "expected comment %r got %s" % (x, m)
        elif k == "stat":
            if m != {"type": "statistics", "statistics": x}:
                return "expected statistics %s got %s" % (x, m)
        elif k == "status":
            w = JST[x] or ("ALL_SOLUTIONS" if case["sat"] else "OPTIMAL_SOLUTION")
            if m != {"type": "status", "status": w}:
                return "expected status %s got %s" % (w, m)
        else:
            why = strsol(case, x, m)
            if why:
                return why
    return None


def strsol(case, e, m):
    if m["type"] != "solution":
        return "expected a solution, got %s" % m
    u = m["output"]
    if not case["noout"]:
        if u.get("default") != e["item"] and not (e["item"] == "" and "default" not in u):
            return "default section: expected %r got %r" % (e["item"], u.get("default"))
        if "sec" in e and u.get("sec") != e["sec"]:
            return "section sec: expected %r got %r" % (e["sec"], u.get("sec"))
    if case["sub"] == "json" and not jeq(u.get("json"), e["js"]):
        return "json: expected %s got %s" % (json.dumps(e["js"]), json.dumps(u.get("json")))
    if case["sub"] == "dzn" or (case["noout"] and case["sub"] == "item"):
        return dzn_ok(u.get("dzn") or "", e["dzn"])
    return None


def run(case, ctx, d):
    drv.write(d, "m.mzn", case["model"])
    sc = {k: case[k] for k in ("text", "vars", "cuts", "exit", "signal")}
    drv.write(d, "script.json", json.dumps(sc))
    env = {"MZV_SCRIPT": os.path.join(d, "script.json")}
    text = "%s\nstream: %r\ncuts %s exit %s signal %s\nflags %s" % (case["model"], case["text"], case["cuts"], case["exit"], case["signal"], case["flags"])
    kw = dict(labels=case["labels"], key=text, nontrivial=case["nsol"] > 1 or case["end"] in (None, "partial") or case["exit"] > 0, sample=text)
    raw = None
    if case["route"] == "stdin":
        mode = [] if case["mode"] == "item" else ["--output-mode", case["mode"]]
        o = drv.run(SCR + mode + ["-c", "--fzn", "m.fzn", "--ozn", "m.ozn", "m.mzn"], d)
        if o.rc != 0:
            return fail("compile", o.brief() + "\n" + text, **kw)
        e = dict(os.environ)
        e.update(env)
        p = subprocess.run([os.path.join(drv.SOLVERS, "fzn-scripted"), os.path.join(d, "m.fzn")], capture_output=True, env=e)
        if p.returncode == 77:
            return Res("inconclusive", "names", labels=case["labels"])
        f = [x for x in case["flags"] if x not in mode]
        o = drv.run(["--ozn-file", "m.ozn"] + f, d, stdin=p.stdout)
    else:
        o = drv.run(SCR + case["flags"] + ["m.mzn"], d, extra_env=env)
    if o.timeout:
        return Res("inconclusive", "timeout", labels=case["labels"])
    if os.path.exists(os.path.join(d, "script.json.77")):
        return Res("inconclusive", "names", labels=case["labels"])
    if o.crashed:
        return fail("crash", o.brief() + "\n" + text, **kw)
    err = [l for l in o.err.split("\n") if "rror" in l]
    if err:
        return fail("error:" + err[0][:60], o.brief() + "\n" + text, **kw)
    out = o.out
    if case["o"].get("file"):
        p = os.path.join(d, "out.txt")
        if not os.path.exists(p):
            return fail("no-output-file", o.brief() + "\n" + text, **kw)
        out = open(p, encoding="utf-8", newline="").read()
        if case["o"].get("stats"):
            out2 = o.out
            # statistics of the driver go to the standard output
            out = re.sub(r"$", "", out)
    why = judge(case, out, o.err, o.rc)
    if why:
        return fail("stream", why + "\n" + o.brief() + "\n" + text, **kw)
    return ok(**kw)


if __name__ == "__main__":
    import mzv.c13 as me
    main(me)
