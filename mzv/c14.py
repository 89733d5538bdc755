"""C14: models over structured data (tuples, records, enumerated values, nested arrays of them) have exactly the solutions of the model."""
import json
from . import build, drv, solcheck
from .core import main, SkipCase, ok, fail, Res
from .datagen import Data, ArrV, EV, SetV, jeq

PROP = "C14"
N = {"quick": 1700, "thorough": 50000}
RULE = ("random well-typed models over variables of tuple, record, enumerated and nested array types, combined by field and element access, literals, "
        "conditionals, local declarations, functions, comprehensions, concatenation and comparison; every assignment enumerated by a reference evaluator; "
        "non-trivial: some assignment is a solution and some is not")
ASSUMPTIONS = ["fzn-gecode 6.2 / Gecode enumerates the solutions of the FlatZinc it is given"]


def setup(tier):
    build.build_driver()


INT, BOOL = ("int",), ("bool",)


def key(v):
    if isinstance(v, EV):
        return v.i
    if isinstance(v, tuple):
        return [key(x) for x in v]
    if isinstance(v, dict):
        return [key(v[k]) for k in sorted(v)]
    if isinstance(v, ArrV):
        return [key(x) for x in v.v]
    return int(v)


class X:
    """an expression: text, type, evaluator, whether it depends on variables, bounds if an integer"""
    __slots__ = ("s", "t", "f", "v", "lo", "hi")

    def __init__(self, s, t, f, v, lo=None, hi=None):
        self.s, self.t, self.f, self.v, self.lo, self.hi = s, t, f, v, lo, hi


class Gen:
    def __init__(self, src):
        self.src = src
        self.data = Data(src)
        if src.bool(2, 3):
            self.data.mkenums()
        self.enums = self.data.enums
        for e in self.enums.values():  # plain names only
            e.names = [n if n.isidentifier() and n.isascii() else "N" + str(k) + e.name for k, n in enumerate(e.names)]
        self.types = []       # structured types in use
        self.alias = []       # (name, type) of type synonyms
        self.items = []
        self.vars = []        # (name, type with domains)
        self.ids = []
        self.scope = []
        self.funs = []
        self.labels = set()
        self.n = 0
        self.size = 1
        self.nofun = False

    def fresh(self, p="x"):
        self.n += 1
        return p + str(self.n)

    # -- types without domains --------------------------------------------------------------
    def scalar(self):
        return self.src.weighted([(5, INT), (4, BOOL)] + [(3, ("enum", e)) for e in sorted(self.enums)])

    def type(self, d):
        s = self.src
        k = s.weighted([(3, "s"), (4, "tup"), (4, "rec"), (3, "arr")]) if d > 0 else "s"
        if k == "s":
            return self.scalar()
        if k == "tup":
            return ("tup", tuple(self.type(d - 1) for _ in range(s.int(1, 3))))
        if k == "rec":
            ns = sorted(s.sample(["a", "b", "c", "dd"], s.int(1, 3)))
            return ("rec", tuple((n, self.type(d - 1)) for n in ns))
        e = self.type(d - 1)
        if e[0] == "arr":
            return e
        if self.enums and s.bool(1, 4):
            return ("arr", ("e", s.choice(sorted(self.enums))), e)
        lo = s.weighted([(6, 1), (1, 0), (1, 3)])
        return ("arr", ("r", lo, lo + s.int(0, 2)), e)

    def leaves(self, t):
        k = t[0]
        if k == "tup":
            return sum(map(self.leaves, t[1]))
        if k == "rec":
            return sum(self.leaves(x) for _, x in t[1])
        if k == "arr":
            return self.ixn(t[1]) * self.leaves(t[2])
        return 1

    def ixb(self, ix):
        return ("int", ix[1], ix[2]) if ix[0] == "r" else (ix[1], 1, self.enums[ix[1]].size)

    def ixn(self, ix):
        _, lo, hi = self.ixb(ix)
        return hi - lo + 1

    def ixt(self, ix):
        return "%d..%d" % ix[1:] if ix[0] == "r" else ix[1]

    def ixtype(self, ix):
        return INT if ix[0] == "r" else ("enum", ix[1])

    # -- type-insts: text and domain tree -----------------------------------------------------
    def ti(self, t, var, dom, outer=False):
        """text of a type-inst; dom: list collecting the leaf domains in order, or None (no domains);
        outer: the var keyword stands in front of the whole type"""
        s = self.src
        k = t[0]
        v = "var " if var and not outer else ""
        if k == "int":
            if dom is None:
                return v + "int"
            lo = s.small(-2, 2)
            hi = lo + s.weighted([(4, 1), (3, 2), (1, 3)])
            dom.append(list(range(lo, hi + 1)))
            return v + "%d..%d" % (lo, hi)
        if k == "bool":
            if dom is not None:
                dom.append([False, True])
            return v + "bool"
        if k == "enum":
            if dom is not None:
                dom.append([EV(t[1], i + 1) for i in range(self.enums[t[1]].size)])
            return v + t[1]
        if k == "tup":
            return "%stuple(%s)" % ("var " if outer and var else "", ", ".join(self.ti(x, var and not outer, dom) for x in t[1]))
        if k == "rec":
            order = list(t[1])
            return "%srecord(%s)" % ("var " if outer and var else "", ", ".join("%s: %s" % (self.ti(x, var and not outer, dom), n) for n, x in order))
        one = []
        e = self.ti(t[2], var, one if dom is not None else None)
        if dom is not None:
            dom += one * self.ixn(t[1])
        return "array[%s] of %s" % (self.ixt(t[1]), e)

    def build(self, t, leaves):
        """value of type t from an iterator over leaves"""
        k = t[0]
        if k == "tup":
            return tuple([self.build(x, leaves) for x in t[1]])
        if k == "rec":
            return {n: self.build(x, leaves) for n, x in t[1]}
        if k == "arr":
            b = self.ixb(t[1])
            return ArrV([b], [self.build(t[2], leaves) for _ in range(b[2] - b[1] + 1)])
        return next(leaves)

    def declare(self, t, name=None):
        s = self.src
        dom = []
        outer = t[0] in ("tup", "rec") and s.bool(1, 3) and not self.has_arr(t)
        text = self.ti(t, True, dom, outer)
        n = 1
        for d in dom:
            n *= len(d)
        if self.size * n > 260 or len(dom) > 9:
            return None
        self.size *= n
        nm = name or self.fresh("v")
        if t[0] in ("tup", "rec", "arr") and s.bool(1, 4):
            al = self.fresh("T")
            self.items.append("type %s = %s;" % (al, text))
            text = al
            self.labels.add("alias")
        self.items.append("%s: %s;" % (text, nm))
        self.vars.append((nm, t, dom))
        lo = hi = None
        if t == INT:
            lo, hi = dom[0][0], dom[0][-1]
        x = X(nm, t, (lambda env, nm=nm: env[nm]), True, lo, hi)
        self.ids.append(x)
        if t not in self.types and t[0] in ("tup", "rec", "arr"):
            self.types.append(t)
        self.labels.add("var:" + t[0])
        return x

    def has_arr(self, t):
        if t[0] == "arr":
            return True
        return any(map(self.has_arr, t[1])) if t[0] == "tup" else any(self.has_arr(x) for _, x in t[1]) if t[0] == "rec" else False

    # -- expressions ------------------------------------------------------------------------
    def known(self):
        return self.ids + self.scope

    def paths(self, x, d=3):
        """expressions obtained from x by constant field and element access"""
        yield x
        if d == 0:
            return
        t = x.t
        if t[0] == "tup":
            for i, ft in enumerate(t[1]):
                yield from self.paths(X("%s.%d" % (x.s, i + 1), ft, (lambda env, f=x.f, i=i: f(env)[i]), x.v), d - 1)
        elif t[0] == "rec":
            for n, ft in t[1]:
                yield from self.paths(X("%s.%s" % (x.s, n), ft, (lambda env, f=x.f, n=n: f(env)[n]), x.v), d - 1)
        elif t[0] == "arr":
            e = self.src.int(0, self.ixn(t[1]) - 1)
            k, lo, hi = self.ixb(t[1])
            yield from self.paths(X("%s[%s]" % (x.s, lo + e if k == "int" else self.enums[k].text(lo + e, True)), t[2],
                                    (lambda env, f=x.f, e=e: f(env).v[e]), x.v), d - 1)

    def struct(self):
        c = [x.t for x in self.known() if x.t[0] in ("tup", "rec", "arr")] + self.types
        return self.src.choice(c) if c and self.src.bool(5, 6) else self.type(2)

    def atom(self, s):
        return s if s.replace(".", "").replace("_", "").isalnum() or s.startswith(("[", "(")) and False else "(" + s + ")"

    def index(self, ix, d):
        """total index expression -> (text, f giving the offset, var)"""
        s = self.src
        k, lo, hi = self.ixb(ix)
        if k == "int":
            e = self.expr(INT, d)
            if e.lo is not None and e.lo >= lo and e.hi <= hi:
                return e.s, (lambda env, f=e.f: f(env) - lo), e.v
            return "max(%d, min(%d, %s))" % (lo, hi, e.s), (lambda env, f=e.f: max(lo, min(hi, f(env))) - lo), e.v
        e = self.expr(("enum", k), d)
        return e.s, (lambda env, f=e.f: f(env).i - 1), e.v

    def expr(self, t, d):
        """expression of type t"""
        s = self.src
        self.nodes += 1
        if self.nodes > 45:
            d = 0
        opts = []
        cand = [p for x in self.known() for p in self.paths(x) if p.t == t]
        if cand:
            opts.append((8 if d > 0 else 12, "id"))
        opts.append((2 if cand else 6, "lit"))
        if d > 0:
            opts += [(4, "ite"), (2, "let"), (2, "field")] + ([(2, "access")] if t[0] != "arr" else []) + ([] if self.nofun else [(2, "fun")])
            if t[0] in ("arr",):
                opts += [(3, "comp"), (1, "slice")]
            if t[0] == "int":
                opts += [(4, "arith"), (2, "sum")]
            if t[0] == "bool":
                opts += [(6, "cmp"), (3, "conn"), (2, "quant")]
            if t[0] in ("tup", "rec") and len(t[1]) > 1:
                opts += [(2, "concat")]
            if t[0] == "enum":
                opts += [(1, "enumfn")]
        k = s.weighted(opts)
        return getattr(self, "e_" + k)(t, d)

    def e_id(self, t, d):
        return self.src.choice([p for x in self.known() for p in self.paths(x) if p.t == t])

    def e_lit(self, t, d):
        s = self.src
        k = t[0]
        if k == "int":
            v = s.int(-2, 4)
            return X(str(v) if v >= 0 else "(%d)" % v, t, lambda env: v, False, v, v)
        if k == "bool":
            v = s.bool()
            return X("true" if v else "false", t, lambda env: v, False)
        if k == "enum":
            v = EV(t[1], s.int(1, self.enums[t[1]].size))
            return X(self.data.enums[t[1]].text(v.i, True), t, lambda env: v, False)
        if k == "tup":
            l = [self.expr(x, d - 1) for x in t[1]]
            return X("(" + ", ".join(e.s for e in l) + ("," if len(l) == 1 else "") + ")", t, lambda env: tuple([e.f(env) for e in l]), any(e.v for e in l))
        if k == "rec":
            l = [(n, self.expr(x, d - 1)) for n, x in t[1]]
            return X("(" + ", ".join("%s: %s" % (n, e.s) for n, e in s.shuffle(l)) + ")", t, lambda env: {n: e.f(env) for n, e in l}, any(e.v for _, e in l))
        n = self.ixn(t[1])
        l = [self.expr(t[2], d - 1) for _ in range(n)]
        b = self.ixb(t[1])
        body = "[" + ", ".join(e.s for e in l) + "]"
        if not (t[1][0] == "r" and b[1] == 1) or s.bool(1, 8):
            body = "array1d(%s, %s)" % (self.ixt(t[1]), body)
        return X(body, t, lambda env: ArrV([b], [e.f(env) for e in l]), any(e.v for e in l))

    def parexpr(self, t, d):
        ids, sc = self.ids, self.scope
        self.ids, self.scope, self.nofun = [x for x in ids if not x.v], [x for x in sc if not x.v], True
        e = self.expr(t, d)
        self.ids, self.scope, self.nofun = ids, sc, False
        return e

    def e_ite(self, t, d):
        s = self.src
        n = s.weighted([(4, 1), (2, 2), (1, 3)])
        if self.has_arr(t):  # only with fixed conditions
            br = [(self.parexpr(BOOL, 1), self.expr(t, d - 1)) for _ in range(n)]
        else:
            br = [(self.expr(BOOL, d - 1), self.expr(t, d - 1)) for _ in range(n)]
        el = self.expr(t, d - 1)
        text = "if " + " elseif ".join("%s then %s" % (c.s, e.s) for c, e in br) + " else %s endif" % el.s

        def f(env):
            for c, e in br:
                if c.f(env):
                    return e.f(env)
            return el.f(env)
        bs = [e for _, e in br] + [el]
        lo = hi = None
        if t == INT and all(e.lo is not None for e in bs):
            lo, hi = min(e.lo for e in bs), max(e.hi for e in bs)
        self.labels.add("ite:" + t[0])
        return X(text if text.endswith(")") and False else "(" + text + ")", t, f, any(e.v for e in bs) or any(c.v for c, _ in br), lo, hi)

    def e_let(self, t, d):
        s = self.src
        lt = self.struct() if s.bool(3, 4) else self.scalar()
        e = self.expr(lt, d - 1)
        nm = self.fresh("l")

        ann = s.weighted([(3, "any"), (0 if self.nofun else 2, "ti")])
        vhead = self.ti(lt, True, None)
        if ann == "ti":
            head = vhead
            if not e.v and s.bool():
                head = self.ti(lt, False, None)
        else:
            head = "any"
        x = X(nm, lt, lambda env: env[nm], e.v or (ann == "ti" and head == vhead), e.lo, e.hi)
        extra = None
        self.scope.append(x)
        if s.bool(1, 5):
            extra = self.expr(BOOL, 1)
        body = self.expr(t, d - 1)
        self.scope.pop()
        self.labels.add("let")
        if extra is not None and t == BOOL:
            self.labels.add("let-constraint")
            return X("(let { %s: %s = %s; constraint %s; } in %s)" % (head, nm, e.s, extra.s, body.s), t,
                     lambda env: (lambda e2: extra.f(e2) and body.f(e2))({**env, nm: e.f(env)}), e.v or body.v or extra.v)
        return X("let { %s: %s = %s } in %s" % (head, nm, e.s, self.atom(body.s)), t, lambda env: body.f({**env, nm: e.f(env)}), e.v or body.v, body.lo, body.hi) \
            if False else X("(let { %s: %s = %s } in %s)" % (head, nm, e.s, body.s), t, lambda env: body.f({**env, nm: e.f(env)}), e.v or body.v, body.lo, body.hi)

    def e_access(self, t, d):
        """element with computed index"""
        s = self.src
        cand = [p for x in self.known() for p in self.paths(x) if p.t[0] == "arr" and p.t[2] == t]
        if cand and s.bool(3, 4):
            a = s.choice(cand)
        else:
            lo = s.weighted([(3, 1), (1, 0)])
            at = ("arr", ("r", lo, lo + s.int(0, 2)), t)
            if self.enums and s.bool(1, 4):
                at = ("arr", ("e", s.choice(sorted(self.enums))), t)
            a = self.expr(at, d - 1)
            if not a.s.replace(".", "").isalnum():
                a = X("(" + a.s + ")" if not a.s.startswith("[") else a.s, a.t, a.f, a.v)
        it, fi, iv = self.index(a.t[1], d - 1)
        self.labels.add("access:" + t[0] + (":var" if iv else ""))
        return X("%s[%s]" % (a.s, it), t, lambda env: a.f(env).v[fi(env)], a.v or iv)

    def e_field(self, t, d):
        """field of a computed tuple or record"""
        s = self.src
        cs = []
        for y in [x.t for x in self.known()] + self.types:
            if y[0] == "tup":
                cs += [(y, i) for i, ft in enumerate(y[1]) if ft == t]
            elif y[0] == "rec":
                cs += [(y, n) for n, ft in y[1] if ft == t]
        if cs and s.bool(3, 4):
            y, i = s.choice(cs)
        else:
            y, i = ("tup", (self.scalar(), t)), 1
        e = self.expr(y, d - 1)
        self.labels.add("field:" + t[0])
        tx = e.s if e.s.startswith("(") or e.s.replace(".", "").isalnum() else "(" + e.s + ")"
        return X("%s.%s" % (tx, i + 1 if y[0] == "tup" else i), t, lambda env: e.f(env)[i], e.v)

    def e_fun(self, t, d):
        s = self.src
        k = s.weighted([(3, "user"), (2, "poly")])
        self.labels.add("fun:" + k)
        if k == "poly":
            if ("pick",) not in self.funs:
                self.funs.append(("pick",))
                self.items.append("function any $T: pick(bool: c, any $T: x, any $T: y) = if c then x else y endif;")
            if t[0] == "arr":
                return self.e_ite(t, d)
            c, a, b = self.parexpr(BOOL, 1), self.expr(t, d - 1), self.expr(t, d - 1)
            return X("pick(%s, %s, %s)" % (c.s, a.s, b.s), t, lambda env: a.f(env) if c.f(env) else b.f(env), c.v or a.v or b.v,
                     min(a.lo, b.lo) if a.lo is not None and b.lo is not None else None, max(a.hi, b.hi) if a.hi is not None and b.hi is not None else None)
        fs = [f for f in self.funs if len(f) > 1 and f[1] == t]
        if fs and s.bool(2, 3):
            fn = s.choice(fs)
        else:
            if d < 2:
                return self.expr(t, d - 1)
            ps = [self.struct() if s.bool(2, 3) else self.scalar() for _ in range(s.int(1, 2))]
            ps = [p if p[0] != "arr" or p[1][0] == "e" or s.bool() else p for p in ps]
            nm = self.fresh("f")
            save, self.scope = self.scope, [X("p%d" % i, p, (lambda env, i=i: env["p%d" % i]), True) for i, p in enumerate(ps)]
            if s.bool(2, 3):
                ids, self.ids = self.ids, []
                body = self.expr(t, d - 1)
                self.ids = ids
            else:
                body = self.expr(t, d - 1)
            self.scope = save
            self.items.append("function %s: %s(%s) = %s;" % (self.ti(t, True, None), nm, ", ".join("%s: p%d" % (self.ti(p, True, None), i) for i, p in enumerate(ps)), body.s))
            fn = (nm, t, ps, body)
            self.funs.append(fn)
        nm, _, ps, body = fn
        args = [self.expr(p, d - 1) for p in ps]
        return X("%s(%s)" % (nm, ", ".join(a.s for a in args)), t, lambda env: body.f({**env, **{"p%d" % i: a.f(env) for i, a in enumerate(args)}}), True)

    def e_comp(self, t, d):
        s = self.src
        b = self.ixb(t[1])
        n = b[2] - b[1] + 1
        # over an array of the same length, or over the index set
        cand = [p for x in self.known() for p in self.paths(x) if p.t[0] == "arr" and self.ixn(p.t[1]) == n]
        nm = self.fresh("g")
        if cand and s.bool(2, 3):
            a = s.choice(cand)
            self.scope.append(X(nm, a.t[2], lambda env: env[nm], a.v))
            body = self.expr(t[2], d - 1)
            self.scope.pop()
            f = lambda env: ArrV([b], [body.f({**env, nm: y}) for y in a.f(env).v])
            gens, v = "%s in %s" % (nm, a.s), a.v or body.v
        else:
            it = self.ixtype(t[1])
            self.scope.append(X(nm, it, lambda env: env[nm], False, b[1] if it == INT else None, b[2] if it == INT else None))
            body = self.expr(t[2], d - 1)
            self.scope.pop()
            vals = [EV(b[0], i) if b[0] != "int" else i for i in range(b[1], b[2] + 1)]
            f = lambda env: ArrV([b], [body.f({**env, nm: y}) for y in vals])
            gens, v = "%s in %s" % (nm, self.ixt(t[1])), body.v
        self.labels.add("comp")
        text = "[%s | %s]" % (body.s, gens)
        if s.bool(1, 4):
            text = "[%s | %s where %s]" % (body.s, gens, s.choice(["true", "1 < 2"]))
        if not (t[1][0] == "r" and b[1] == 1):
            text = "array1d(%s, %s)" % (self.ixt(t[1]), text)
        return X(text, t, f, v)

    def e_slice(self, t, d):
        """concatenation of arrays"""
        b = self.ixb(t[1])
        n = b[2] - b[1] + 1
        if n < 2:
            return self.e_lit(t, d)
        k = self.src.int(1, n - 1)
        x = self.expr(("arr", ("r", 1, k), t[2]), d - 1)
        y = self.expr(("arr", ("r", 1, n - k), t[2]), d - 1)
        text = "%s ++ %s" % (x.s, y.s)
        self.labels.add("arr++")
        text = "(" + text + ")" if t[1][0] == "r" and b[1] == 1 else "array1d(%s, %s)" % (self.ixt(t[1]), text)
        return X(text, t, lambda env: ArrV([b], x.f(env).v + y.f(env).v), x.v or y.v)

    def e_concat(self, t, d):
        k = self.src.int(1, len(t[1]) - 1)
        self.labels.add("struct++")
        if t[0] == "tup":
            x, y = self.expr(("tup", t[1][:k]), d - 1), self.expr(("tup", t[1][k:]), d - 1)
            return X("(%s ++ %s)" % (x.s, y.s), t, lambda env: x.f(env) + y.f(env), x.v or y.v)
        fs = self.src.shuffle(list(t[1]))
        x, y = self.expr(("rec", tuple(sorted(fs[:k]))), d - 1), self.expr(("rec", tuple(sorted(fs[k:]))), d - 1)
        return X("(%s ++ %s)" % (x.s, y.s), t, lambda env: {**x.f(env), **y.f(env)}, x.v or y.v)

    def e_arith(self, t, d):
        s = self.src
        op = s.choice(["+", "-", "*", "max", "min", "bool2int", "enum2int"])
        if op == "bool2int":
            b = self.expr(BOOL, d - 1)
            return X("bool2int(%s)" % b.s, t, lambda env: int(b.f(env)), b.v, 0, 1)
        if op == "enum2int":
            if not self.enums:
                return self.e_lit(t, d)
            en = s.choice(sorted(self.enums))
            b = self.expr(("enum", en), d - 1)
            return X("enum2int(%s)" % b.s, t, lambda env: b.f(env).i, b.v, 1, self.enums[en].size)
        x, y = self.expr(INT, d - 1), self.expr(INT, d - 1)
        fn = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "max": max, "min": min}[op]
        lo = hi = None
        if x.lo is not None and y.lo is not None:
            c = [fn(p, q) for p in (x.lo, x.hi) for q in (y.lo, y.hi)]
            lo, hi = min(c), max(c)
        text = "%s(%s, %s)" % (op, x.s, y.s) if op in ("max", "min") else "(%s %s %s)" % (x.s, op, y.s)
        return X(text, t, lambda env: fn(x.f(env), y.f(env)), x.v or y.v, lo, hi)

    def agg(self, et, d):
        """an array to iterate over -> (array, generator text for name)"""
        cand = [p for x in self.known() for p in self.paths(x) if p.t[0] == "arr"]
        if cand and self.src.bool(3, 4):
            return self.src.choice(cand)
        return self.expr(("arr", ("r", 1, self.src.int(0, 3) if False else self.src.int(1, 3)), self.scalar() if d < 2 else self.noarr(self.type(1))), d - 1)

    def noarr(self, t):
        return t if t[0] != "arr" else self.scalar()

    def e_sum(self, t, d):
        s = self.src
        a = self.agg(t, d)
        if a.t[2][0] == "arr":
            return self.e_lit(t, d)
        nm = self.fresh("g")
        op = s.choice(["sum", "max", "min"])
        self.scope.append(X(nm, a.t[2], lambda env: env[nm], a.v))
        body = self.expr(INT, d - 1)
        self.scope.pop()
        fn = {"sum": sum, "max": max, "min": min}[op]
        self.labels.add("agg")
        return X("%s(%s in %s)(%s)" % (op, nm, a.s, body.s), t, lambda env: fn([body.f({**env, nm: y}) for y in a.f(env).v]), a.v or body.v)

    def e_quant(self, t, d):
        s = self.src
        a = self.agg(t, d)
        nm = self.fresh("g")
        self.scope.append(X(nm, a.t[2], lambda env: env[nm], a.v))
        op = s.choice(["forall", "exists", "xorall"])
        if s.bool(1, 3):
            nm2 = self.fresh("g")
            self.scope.append(X(nm2, a.t[2], lambda env: env[nm2], a.v))
            body = self.expr(BOOL, d - 1)
            self.scope.pop()
            gens = "%s, %s in %s" % (nm, nm2, a.s)
            vals = lambda env: [body.f({**env, nm: y, nm2: z}) for y in a.f(env).v for z in a.f(env).v]
        else:
            body = self.expr(BOOL, d - 1)
            gens = "%s in %s" % (nm, a.s)
            vals = lambda env: [body.f({**env, nm: y}) for y in a.f(env).v]
        self.scope.pop()
        fn = {"forall": all, "exists": any, "xorall": lambda l: sum(map(int, l)) % 2 == 1}[op]
        self.labels.add("quant")
        return X("%s(%s)(%s)" % (op, gens, body.s), t, lambda env: fn(vals(env)), a.v or body.v)

    def e_cmp(self, t, d):
        s = self.src
        et = self.struct() if s.bool(3, 5) else self.scalar()
        op = s.choice(["=", "!=", "=", "!=", "<", "<=", ">", ">=", "in"])
        if op == "in":
            if et[0] not in ("tup", "rec"):
                et = self.struct()
            if et[0] in ("tup", "rec"):
                x = self.expr(et, d - 1)
                y = self.expr(("arr", ("r", 1, s.int(1, 3)), et), d - 1)
                self.labels.add("in")
                return X("(%s in %s)" % (x.s, y.s), t, lambda env: key(x.f(env)) in [key(z) for z in y.f(env).v], x.v or y.v)
            op = "!="
        if et[0] == "arr" and (et[1][0] == "r" and et[1][1] != 1 or et[2][0] in ("tup", "rec")) and op not in ("=", "!="):
            op = "="
        x, y = self.expr(et, d - 1), self.expr(et, d - 1)
        self.labels.add("cmp:%s%s" % (op, et[0]))
        fn = {"=": lambda a, b: a == b, "!=": lambda a, b: a != b, "<": lambda a, b: a < b, "<=": lambda a, b: a <= b, ">": lambda a, b: a > b, ">=": lambda a, b: a >= b}[op]
        return X("(%s %s %s)" % (x.s, op, y.s), t, lambda env: fn(key(x.f(env)), key(y.f(env))), x.v or y.v)

    def e_conn(self, t, d):
        s = self.src
        op = s.choice(["/\\", "\\/", "->", "<->", "xor", "not"])
        x = self.expr(BOOL, d - 1)
        if op == "not":
            return X("(not %s)" % x.s, t, lambda env: not x.f(env), x.v)
        y = self.expr(BOOL, d - 1)
        fn = {"/\\": lambda a, b: a and b, "\\/": lambda a, b: a or b, "->": lambda a, b: (not a) or b, "<->": lambda a, b: a == b, "xor": lambda a, b: a != b}[op]
        return X("(%s %s %s)" % (x.s, op, y.s), t, lambda env: fn(x.f(env), y.f(env)), x.v or y.v)

    def e_enumfn(self, t, d):
        e = self.expr(t, d - 1)
        n = self.enums[t[1]].size
        i = self.expr(INT, d - 1)
        return X("to_enum(%s, max(1, min(%d, %s)))" % (t[1], n, i.s), t, lambda env: EV(t[1], max(1, min(n, i.f(env)))), i.v)


def gen(src, tier):
    g = Gen(src)
    for e in g.enums.values():
        g.items.append("enum %s = %s;" % (e.name, e.rhs()))
    g.nodes = 0
    for _ in range(src.int(1, 3)):
        for _ in range(6):
            if g.declare(g.type(src.weighted([(1, 0), (3, 1), (5, 2)]))):
                break
    if not g.vars:
        g.declare(BOOL)
    # fixed structured parameters and defined variables
    for _ in range(src.weighted([(3, 0), (2, 1), (1, 2)])):
        t = g.struct()
        if g.leaves(t) > 8:
            continue
        g.nodes = 20
        ids = g.ids
        if src.bool():
            e = g.parexpr(t, 1)
        else:
            e = g.expr(t, 2)
        nm = g.fresh("d")
        if e.v:
            head = src.choice([g.ti(t, True, None), "any"])
        else:
            head = src.choice([g.ti(t, False, None), g.ti(t, True, None), "any"])
        g.items.append("%s: %s = %s;" % (head, nm, e.s))
        g.ids.append(X(nm, t, e.f, e.v or head == g.ti(t, True, None)))
        g.labels.add("defined")
    cons = []
    narrow = []
    for _ in range(src.int(1, 3)):
        g.nodes = 0
        if src.bool(1, 6):
            # a defined variable whose declared domains constrain the value
            t = g.struct()
            if t[0] != "arr" and g.leaves(t) <= 6 and not g.has_arr(t):
                e = g.expr(t, 2)
                if not e.v:
                    continue
                dom = []
                head = g.ti(t, True, dom)
                nm = g.fresh("d")
                g.items.append("%s: %s = %s;" % (head, nm, e.s))
                g.ids.append(X(nm, t, e.f, True))
                narrow.append((e, t, dom))
                g.labels.add("narrow")
                continue
        c = g.expr(BOOL, src.int(2, 4))
        g.items.append("constraint %s;" % c.s)
        cons.append(c)

    def flat(v):
        if isinstance(v, tuple):
            return [y for x in v for y in flat(x)]
        if isinstance(v, dict):
            return [y for k in sorted(v) for y in flat(v[k])]
        if isinstance(v, ArrV):
            return [y for x in v.v for y in flat(x)]
        return [key(v)]
    alld = [x for _, _, dom in g.vars for x in dom]
    import itertools
    mode = src.weighted([(3, "item"), (3, "json")])
    sols = []
    total = 0
    for vals in itertools.product(*alld):
        total += 1
        it = iter(vals)
        env = {n: g.build(t, it) for n, t, _ in g.vars}
        if all(c.f(env) for c in cons) and all(all(x in [key(y) for y in dm] for x, dm in zip(flat(e.f(env)), dom)) for e, t, dom in narrow):
            if mode == "item":
                sols.append(" ".join(g.data.show(env[n]) for n, _, _ in g.vars))
            else:
                sols.append({n: g.data.js(env[n]) for n, _, _ in g.vars})
    items = src.shuffle(g.items) if src.bool(1, 3) else g.items
    text = "\n".join(items) + "\n" + ("output [%s ++ \"\\n\"];\n" % " ++ \" \" ++ ".join("show(%s)" % n for n, _, _ in g.vars) if mode == "item" else "")
    args = src.weighted([(5, []), (1, ["-O0"]), (1, ["-O2"]), (1, ["--no-half-reifications"])])
    solver = src.weighted([(6, "std"), (3, "gcp")])
    return {"model": text, "expect": sorted(sols) if mode == "item" else sols, "mode": mode, "total": total, "nsol": len(sols), "args": args + (["--output-mode", "json"] if mode == "json" else []),
            "solver": {"std": solcheck.STD, "gcp": solcheck.GCP}[solver],
            "labels": sorted(g.labels) + ["mode:" + mode, "solver:" + solver, "sols:" + ("0" if not sols else "all" if len(sols) == total else "some")]}


def canonj(x):
    if isinstance(x, dict):
        return {k: canonj(v) for k, v in x.items()}
    return [canonj(v) for v in x] if isinstance(x, list) else x


def run(case, ctx, d):
    r = run1(case, ctx, d)
    if r.status == "fail" and "narrow" in case["labels"] and "parameter out of range: declared domain of" in r.msg:
        # a field that is fixed outside its declared domain aborts the compilation instead of making the model unsatisfiable
        return Res("inconclusive", "fixed-field-outside-domain")
    return r


def run1(case, ctx, d):
    if case["mode"] == "json":
        # JSON solutions are compared as data
        case = dict(case, expect=[json.dumps(x, sort_keys=True) for x in case["expect"]])
        real = solcheck.compare

        def compare(c, o):
            if not o.timeout and o.rc == 0:
                sols, st = drv.parse_stream(o.out)
                try:
                    tr = [json.dumps(json.loads(x), sort_keys=True) for x in sols]
                except ValueError:
                    return "bad-json", o.brief()
                o2 = drv.Out(o.rc, "".join(x + "\n----------\n" for x in tr) + {"complete": "==========\n", "unsat": "=====UNSATISFIABLE=====\n"}.get(st, "%s\n" % st), o.err, o.timeout, o.cmd)
                return real(c, o2)
            return real(c, o)
        solcheck.compare = compare
        try:
            return solcheck.decide(case, d, 0 < case["nsol"] < case["total"])
        finally:
            solcheck.compare = real
    return solcheck.decide(case, d, 0 < case["nsol"] < case["total"])


if __name__ == "__main__":
    import mzv.c14 as me
    main(me)
