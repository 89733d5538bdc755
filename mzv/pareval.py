"""Typed random fixed expressions with their value (reference semantics of the built-in library).

An expression is a Py object: text, precedence, type, closure env -> Python value.  The closures
follow the documentation of the built-ins; they raise Undef where the documentation says the result
is undefined, and Skip where the reference deliberately does not decide."""
import math
from itertools import product as iproduct
from .core import SkipCase
from .lang import Undef, tdiv, tmod, P_ATOM, P_DEFAULT, P_PP, P_POW, P_UN, P_MUL, P_ADD, P_DOTS, P_INTER, P_UNION, P_IN, P_CMP, P_AND, P_OR, P_IMPL, P_EQV, LEFT

LIMI = 10 ** 7
ENUMS = {"Col": ["red", "green", "blue"], "Day": ["mo", "tu", "we", "th", "fr"]}


class EV(tuple):
    """enum value (enum name, 1-based index)"""
    __slots__ = ()

    def __str__(self):
        return ENUMS[self[0]][self[1] - 1]


class Absent:
    def __repr__(self):
        return "<>"


ABS = Absent()


class Tup(tuple):
    __slots__ = ()


class RecV:
    def __init__(self, names, vals):
        self.names, self.vals = tuple(names), tuple(vals)

    def __eq__(self, o):
        return self.names == o.names and self.vals == o.vals


class A:
    """array value: ix = list of (kind, lo, hi); kind 'int' or an enum name"""
    __slots__ = ("ix", "v")

    def __init__(self, ix, v):
        self.ix, self.v = [tuple(i) for i in ix], list(v)

    def __eq__(self, o):
        return self.ix == o.ix and self.v == o.v


class Py:
    __slots__ = ("s", "p", "t", "f", "loc")

    def __init__(self, s, p, t, f, loc=False):
        self.s, self.p, self.t, self.f, self.loc = s, p, t, f, loc


def key(v):
    """index number of an int / enum / bool value"""
    return v[1] if isinstance(v, EV) else int(v)


def kind(v):
    return v[0] if isinstance(v, EV) else "int"


def mk(kind_, k):
    return k if kind_ == "int" else EV((kind_, k))


def whole(e, env):
    """value of a field or literal element: whether an undefined one makes the others undefined is unspecified (evaluation is lazy)"""
    try:
        return e.f(env)
    except Undef:
        raise SkipCase("undefined field")


def ck(v):
    if isinstance(v, bool):
        return v
    if isinstance(v, int) and abs(v) > LIMI:
        raise SkipCase("large")
    if isinstance(v, float) and (not math.isfinite(v) or abs(v) > 1e12 or 0 < abs(v) < 1e-9):
        raise SkipCase("float range")
    return v


def esc(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n").replace("\t", "\\t") + '"'


def render(v):
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, EV):
        return str(v)
    if isinstance(v, int):
        return str(v)
    if isinstance(v, float):
        return "\x01%r\x02" % v
    if isinstance(v, str):
        return esc(v)
    if v is ABS:
        return "<>"
    if isinstance(v, frozenset):
        if not v:
            return "{}"
        l = sorted(v)
        if isinstance(l[0], bool):
            return "{" + ",".join(map(render, l)) + "}"
        if isinstance(l[0], float) and len(l) == 1:
            return "%s..%s" % (render(l[0]), render(l[0]))
        if isinstance(l[0], int) and l[-1] - l[0] == len(l) - 1:
            return "%d..%d" % (l[0], l[-1])
        return "{" + (", " if isinstance(l[0], EV) else ",").join(map(render, l)) + "}"
    if isinstance(v, A):
        return "[" + ", ".join(map(render, v.v)) + "]"
    if isinstance(v, Tup):
        return "(" + ", ".join(map(render, v)) + ("," if len(v) == 1 else "") + ")"
    if isinstance(v, RecV):
        return "(" + ", ".join("%s: %s" % (n, render(x)) for n, x in zip(v.names, v.vals)) + ")"
    raise AssertionError(type(v))


def default_text(t):
    if t in ENUMS:
        return ENUMS[t][0]
    return {"int": "0", "float": "0.0", "bool": "true", "str": '""'}[t] if isinstance(t, str) else literal(zero(t), t)


def zero(t):
    if isinstance(t, str):
        return EV((t, 1)) if t in ENUMS else {"int": 0, "float": 0.0, "bool": True, "str": ""}[t]
    if t[0] == "set":
        return frozenset([zero(t[1])])
    if t[0] == "opt":
        return zero(t[1])
    if t[0] == "arr":
        return A([("int", 1, 1) if k == "int" else (k, 1, len(ENUMS[k])) for k in t[2]], [zero(t[1])] * 1 if all(k == "int" for k in t[2]) else [])
    if t[0] == "tup":
        return Tup(map(zero, t[1]))
    return RecV([n for n, _ in t[1]], [zero(x) for _, x in t[1]])


def literal(v, t=None):
    """text of a literal denoting the value; t: its type, which makes empty literals typed"""
    if isinstance(v, float):
        return repr(v)
    if v is ABS and t:
        return "if true then <> else %s endif" % literal(zero(t), t[1])
    if isinstance(v, frozenset):
        if not v:
            return "{}" if t is None else "{%s | i in 1..0}" % default_text(t[1])
        return "{" + ",".join(literal(x) for x in sorted(v)) + "}"
    if isinstance(v, A):
        et = t[1] if t else None
        els = "[" + ", ".join(literal(x, et) for x in v.v) + "]" if v.v or not t else "[%s | i in 1..0]" % default_text(et)
        if len(v.ix) == 1:
            k, lo, hi = v.ix[0]
            return els if (k, lo) == ("int", 1) and (v.v or t) else "array1d(%s, %s)" % (ixtext(v.ix[0]), els)
        return "array%dd(%s, %s)" % (len(v.ix), ", ".join(map(ixtext, v.ix)), els)
    if isinstance(v, Tup):
        return "(" + ", ".join(literal(x, t and t[1][i]) for i, x in enumerate(v)) + ("," if len(v) == 1 else "") + ")"
    if isinstance(v, RecV):
        return "(" + ", ".join("%s: %s" % (n, literal(x, t and t[1][i][1])) for i, (n, x) in enumerate(zip(v.names, v.vals))) + ")"
    return render(v)


def ixtext(ix):
    k, lo, hi = ix
    if k == "int":
        return "%d..%d" % (lo, hi)
    if lo == 1 and hi == len(ENUMS[k]):
        return k
    return "%s..%s" % (ENUMS[k][lo - 1], ENUMS[k][hi - 1])


def match(exp, act):
    """compare a rendered expectation (floats marked) with the actual text"""
    import re
    i = j = 0
    while i < len(exp):
        if exp[i] == "\x01":
            e = exp.index("\x02", i)
            want = float(exp[i + 1:e])
            m = re.compile(r"-?(\d+\.\d+|\d+)([eE][-+]?\d+)?|-?inf|-?nan").match(act, j)
            if not m:
                return False
            t = m.group(0)
            if not ("." in t or "e" in t.lower()):
                return False
            got = float(t)
            if not (got == want or abs(got - want) <= 1e-9 * max(1.0, abs(want))):
                return False
            i, j = e + 1, m.end()
        else:
            if j >= len(act) or act[j] != exp[i]:
                return False
            i += 1
            j += 1
    return j == len(act)


SCAL = ["int", "float", "bool", "str", "Col", "Day"]


def AR(et, *kinds):
    return ("arr", et, kinds or ("int",))


def is_arr(t):
    return isinstance(t, tuple) and t[0] == "arr"


def ttext(t):
    if t == "str":
        return "string"
    if isinstance(t, str):
        return t
    if t[0] == "set":
        return "set of " + ttext(t[1])
    if t[0] == "arr":
        return "array[%s] of %s" % (",".join(["_"] * len(t[2])), ttext(t[1]))
    if t[0] == "opt":
        return "opt " + ttext(t[1])
    if t[0] == "tup":
        return "tuple(%s)" % ", ".join(map(ttext, t[1]))
    if t[0] == "rec":
        return "record(%s)" % ", ".join("%s: %s" % (ttext(x), n) for n, x in t[1])
    raise AssertionError(t)


class Par:
    def __init__(self, src):
        self.src = src
        self.items = []
        self.params = []        # Py of kind ident
        self.scope = []         # local identifiers
        self.labels = set()
        self.n = 0

    def fresh(self, b="v"):
        self.n += 1
        return "%s%d" % (b, self.n)

    # ---- helpers ---------------------------------------------------------------------------
    def kind(self):
        return self.src.weighted([(6, "int"), (1, "Col"), (1, "Day")])

    def A1(self, et):
        return AR(et, self.kind())

    def A2(self, et):
        return AR(et, self.kind(), self.kind())

    def node(self, lab, s, p, t, f, kids=()):
        self.labels.add(lab)
        def g(env):
            return ck(f(env))
        if t == "bool" and lab != "default":
            # an undefined Boolean expression is false somewhere around it: which is the relational
            # semantics' business (C01), not this check's
            def g(env):
                try:
                    return ck(f(env))
                except Undef:
                    raise SkipCase("undefined Boolean")
        return Py(s, p, t, g, any(k.loc for k in kids))

    def bin(self, op, pr, a, b, t, f, lab=None):
        s = self.src
        if s.bool():
            l = a.s if a.p <= (pr if pr in LEFT else pr - 1) else "(" + a.s + ")"
            r = b.s if b.p <= pr - 1 else "(" + b.s + ")"
        else:
            l = a.s if a.p == P_ATOM else "(" + a.s + ")"
            r = b.s if b.p == P_ATOM else "(" + b.s + ")"
        return self.node(lab or op, "%s %s %s" % (l, op, r), pr, t, lambda e: f(a.f(e), b.f(e)), (a, b))

    def call(self, name, args, t, f, lab=None):
        return self.node(lab or name, "%s(%s)" % (name, ", ".join(a if isinstance(a, str) else a.s for a in args)), P_ATOM, t, f,
                         [a for a in args if not isinstance(a, str)])

    def fun1(self, name, a, t, f, lab=None):
        return self.call(name, [a], t, lambda e: f(a.f(e)), lab)

    def fun2(self, name, a, b, t, f, lab=None):
        return self.call(name, [a, b], t, lambda e: f(a.f(e), b.f(e)), lab)

    def lit(self, v, t):
        tx = literal(v, t)
        neg = isinstance(v, (int, float)) and not isinstance(v, bool) and v < 0
        return Py(tx, P_UN if neg else P_ATOM, t, lambda e: v)

    def idents(self, t):
        return [x for x in self.scope + self.params if x.t == t]

    # ---- declarations ----------------------------------------------------------------------
    def value(self, t):
        """a random value of a type"""
        s = self.src
        if t == "int":
            return s.weighted([(8, None), (2, "big")]) and s.choice([17, 100, 255, -64, 1000, 4096, 99999, -12345]) or s.small(-4, 6)
        if t == "float":
            return s.choice([0.0, 1.0, 2.0, -1.0, 0.5, 0.25, 1.5, -2.5, 3.75, 0.1, 10.0, 123.456, -0.125, 1e-3, 1e6, 7.0, 2.5, 0.3])
        if t == "bool":
            return s.bool()
        if t == "str":
            return s.choice(["a", "", "abc", "b", "a b", "x\ny", "q\"q", "back\\slash", "t\tt", "ab", "zz,z", "\u00e4\u00f6", "A", "%d", "(x)", "{1}", "a,b,,c", "\U0001F600x", "\u20acu"])
        if t in ENUMS:
            return EV((t, s.int(1, len(ENUMS[t]))))
        if t[0] == "set":
            if t[1] in ENUMS:
                return frozenset(EV((t[1], k)) for k in range(1, len(ENUMS[t[1]]) + 1) if s.bool())
            if t[1] == "int":
                lo = s.int(-2, 4)
                if s.bool():
                    return frozenset(range(lo, lo + s.int(0, 4)))
                return frozenset(lo + k for k in range(6) if s.bool())
            return frozenset(self.value(t[1]) for _ in range(s.int(0, 3)))
        if t[0] == "opt":
            return ABS if s.bool(1, 3) else self.value(t[1])
        if t[0] == "tup":
            return Tup(self.value(x) for x in t[1])
        if t[0] == "rec":
            return RecV([n for n, _ in t[1]], [self.value(x) for _, x in t[1]])
        if t[0] == "arr":
            ix = [self.index(k) for k in t[2]]
            n = 1
            for k, lo, hi in ix:
                n *= hi - lo + 1
            return A(ix, [self.value(t[1]) for _ in range(n)])
        raise AssertionError(t)

    def index(self, kind):
        """a random index set of the kind"""
        s = self.src
        if kind == "int":
            k = s.weighted([(6, "one"), (3, "off"), (1, "zero")])
            if k == "one":
                return ("int", 1, s.int(1, 4))
            if k == "zero":
                return ("int", 1, 0)
            lo = s.int(-2, 3)
            return ("int", lo, lo + s.int(0, 3))
        n = len(ENUMS[kind])
        if s.bool(2, 3):
            return (kind, 1, n)
        lo = s.int(1, 2)
        return (kind, lo, lo + s.int(0, 1))

    def decls(self):
        s = self.src
        self.items.append("enum Col = {red, green, blue};")
        self.items.append("enum Day = {mo, tu, we, th, fr};")
        ts = ["int", "int", "bool", "float", "str", "Col", "Day", self.A1("int"), self.A1("int"), self.A2("int"), self.A1("bool"), self.A1("float"),
              self.A1("str"), self.A1("Col"), ("set", "int"), ("set", "int"), ("set", "Col"), ("set", "Day"), self.A1(("set", "int")), AR("int", "int", "int", self.kind()), ("opt", "int"), self.A1(("opt", "int")),
              ("tup", ("int", "bool")), ("rec", (("a", "int"), ("b", "float"))), self.A1(("tup", ("int", "str"))), ("set", "float"), self.A1(("rec", (("k", "int"), ("z", "Col")))), self.A2("Day")]
        for t in ts:
            if s.bool(2, 3):
                self.decl(t)

    def decl(self, t):
        n = self.fresh("p")
        v = self.value(t)
        tt = ttext(t)
        if is_arr(t):
            tt = "array[%s] of %s" % (", ".join(map(ixtext, v.ix)), ttext(t[1]))
        self.items.append("%s: %s = %s;" % (tt, n, literal(v)))
        self.params.append(Py(n, P_ATOM, t, lambda e: v))

    # ---- generic constructors ----------------------------------------------------------------
    def ex(self, t, d):
        """expression of type t, depth d"""
        s = self.src
        if d <= 0:
            return self.leaf(t)
        fam = self.family(t)
        gens = GENS[fam]
        g = s.weighted([(2, "leaf")] + gens + COMMON)
        if g == "leaf":
            return self.leaf(t)
        m = getattr(self, g)
        e = m(t, d)
        return e if e is not None else self.leaf(t)

    def family(self, t):
        if isinstance(t, str):
            return "enum" if t in ENUMS else t
        if t[0] == "arr":
            return "arr%d" % len(t[2])
        return t[0]

    def leaf(self, t):
        s = self.src
        ids = self.idents(t)
        if ids and s.bool(3, 4):
            return s.choice(ids)
        return self.lit(self.value(t), t)

    # common to all types
    def c_if(self, t, d):
        s = self.src
        br = [(self.ex("bool", d - 1), self.ex(t, d - 1)) for _ in range(s.int(1, 2))]
        el = self.ex(t, d - 1)
        tx = "if " + " elseif ".join("%s then %s" % (c.s, v.s) for c, v in br) + " else %s endif" % el.s

        def f(env):
            for c, v in br:
                if c.f(env):
                    return v.f(env)
            return el.f(env)
        return self.node("if", tx, P_ATOM, t, f, [x for b in br for x in b] + [el])

    def c_let(self, t, d):
        s = self.src
        names, defs = [], []
        n0 = len(self.scope)
        for _ in range(s.int(1, 2)):
            lt = self.anytype()
            e = self.ex(lt, d - 1)
            n = self.fresh("l")
            names.append(n)
            defs.append((n, lt, e))
            self.scope.append(Py(n, P_ATOM, lt, lambda env, n=n: env[n], True))
        body = self.ex(t, d - 1)
        del self.scope[n0:]
        dt = "any" if s.bool() else None
        tx = "let { " + "; ".join("%s: %s = %s" % (dt or self.declt(lt), n, e.s) for n, lt, e in defs) + " } in " + (body.s if body.p == P_ATOM else "(" + body.s + ")")

        def f(env):
            env = dict(env)
            for n, lt, e in defs:
                env[n] = e.f(env)
            return body.f(env)
        return self.node("let", "(" + tx + ")", P_ATOM, t, f, [e for _, _, e in defs] + [body])

    def declt(self, t):
        if is_arr(t):
            return "any"
        return ttext(t)

    def c_access(self, t, d):
        s = self.src
        if is_arr(t) or isinstance(t, tuple) and t[0] == "opt":
            return None
        nd = s.weighted([(4, 1), (2, 2), (1, 3)])
        a = self.ex(AR(t, *[self.kind() for _ in range(nd)]), d - 1 if nd < 3 else 0)
        # indices: mostly valid: derived from the array's index set when it does not depend on locals
        try:
            if a.loc:
                raise SkipCase("local")
            av = a.f({})
        except (Undef, SkipCase, KeyError):
            return None
        if not av.v:
            return None
        ixs = []
        for k, lo, hi in av.ix:
            v = mk(k, s.int(lo, hi))
            tt = "int" if k == "int" else k
            c = self.lit(v, tt)
            if s.bool(1, 3):
                c = self.same(tt, v, d - 1) or c
            ixs.append(c)
        ap = a.s if a.p == P_ATOM and (not a.s.startswith("if ")) else "(" + a.s + ")"

        def f(env):
            x = a.f(env)
            k = 0
            for (kd, lo, hi), i in zip(x.ix, ixs):
                v = key(i.f(env))
                if v < lo or v > hi:
                    raise Undef()
                k = k * (hi - lo + 1) + v - lo
            return x.v[k]
        return self.node("access", "%s[%s]" % (ap, ", ".join(i.s for i in ixs)), P_ATOM, t, f, [a] + ixs)

    def same(self, t, v, d):
        """an expression with a given index value"""
        s = self.src
        if t == "int":
            e = self.ex("int", d)
            try:
                if e.loc:
                    return None
                ev = e.f({})
            except (Undef, SkipCase, KeyError):
                return None
            k = v - ev
            return Py("(%s) + %s" % (e.s, k if k >= 0 else "(%d)" % k), P_ADD, "int", lambda env: e.f(env) + k)
        k = s.draw(3)
        if k == 0:
            return Py("to_enum(%s, %d)" % (t, v[1]), P_ATOM, t, lambda env: v)
        if k == 1 and v[1] > 1:
            w = EV((t, v[1] - 1))
            return Py("enum_next(%s)" % str(w), P_ATOM, t, lambda env: v)
        return None

    def c_field(self, t, d):
        s = self.src
        if isinstance(t, tuple) and t[0] in ("tup", "rec", "opt"):
            return None
        other = s.choice(["int", "bool", "str", "Col"])
        if s.bool():
            tt = ("tup", (t, other)) if s.bool() else ("tup", (other, t))
            i = tt[1].index(t)
            e = self.ex(tt, d - 1)
            return self.node("tuple access", "%s.%d" % (e.s if e.p == P_ATOM and e.s[0] != "i" else "(" + e.s + ")", i + 1), P_ATOM, t, lambda env: e.f(env)[i], [e])
        tt = ("rec", tuple(sorted([("f", t), ("g", other)])))
        e = self.ex(tt, d - 1)
        return self.node("record access", "%s.f" % (e.s if e.p == P_ATOM and e.s[0] != "i" else "(" + e.s + ")"), P_ATOM, t, lambda env: e.f(env).vals[0], [e])

    def c_call(self, t, d):
        """user defined function"""
        s = self.src
        if is_arr(t) or isinstance(t, tuple) and t[0] in ("tup", "rec") and any(is_arr(x if t[0] == "tup" else x[1]) for x in t[1]):
            return None
        n = self.fresh("fn")
        ps = []
        outer = self.scope
        self.scope = []
        for _ in range(s.int(1, 2)):
            pt = self.anytype()
            pn = self.fresh("a")
            ps.append((pn, pt))
            self.scope.append(Py(pn, P_ATOM, pt, lambda env, pn=pn: env[pn], True))
        body = self.ex(t, d - 1)
        self.scope = outer
        args = [self.ex(pt, d - 1) for _, pt in ps]
        # arrays need index sets: use type-inst variables of any index set
        def ptx(pt):
            if is_arr(pt):
                return "array[%s] of %s" % (", ".join("$$%s%d" % (chr(69 + i), self.n) for i in range(len(pt[2]))), ttext(pt[1]))
            return ttext(pt)
        used = []
        for pn, pt in ps:
            self.n += 1
            used.append("%s: %s" % (ptx(pt), pn))
        rt = ttext(t)
        self.items.append("function %s: %s(%s) = %s;" % (rt, n, ", ".join(used), body.s))

        def f(env):
            return body.f({pn: a.f(env) for (pn, _), a in zip(ps, args)})
        return self.call(n, args, t, f, "user function")

    def c_default(self, t, d):
        if isinstance(t, tuple) and t[0] in ("tup", "rec", "opt"):
            return None
        s = self.src
        b = self.ex(t, d - 1)
        if s.bool() and t in ("int", "float", "bool", "str", "Col", "Day"):
            a = self.ex(("opt", t), d - 1)
            def f(env):
                try:
                    v = a.f(env)
                except Undef:
                    raise SkipCase("undefined optional")
                return b.f(env) if v is ABS else v
        else:
            a = self.ex(t, d - 1)
            if self.src.bool():
                a = self.undefined(t) or a

            def f(env):
                try:
                    bv = b.f(env)
                except Undef:
                    raise SkipCase("undefined default value")
                try:
                    return a.f(env)
                except Undef:
                    return bv
        l = a.s if a.p == P_ATOM else "(" + a.s + ")"
        r = b.s if b.p == P_ATOM else "(" + b.s + ")"
        return self.node("default", "%s default %s" % (l, r), P_DEFAULT, t, f, [a, b])

    def undefined(self, t):
        """a certainly undefined expression"""
        s = self.src
        def u(env):
            raise Undef()
        if t == "int":
            tx = s.choice(["1 div 0", "5 mod 0", "[1,2][3]", "min([1 | i in 1..0])", "max({i | i in 1..3 where i > 7})", "0 ^ (-1)", "[1,2,3][0]", "pow(0, -2)", "arg_max([1 | i in 1..0])",
                           "array2d(0..1, 0..1, [1,2,3,4])[2, 0]", "array1d(3..4, [1,2])[1]"])
        elif t == "float":
            tx = s.choice(["1.0 / 0.0", "[1.5][2]", "[0.5, 1.0][3]"])
        elif t == "Col":
            tx = s.choice(["enum_next(blue)", "enum_prev(red)", "to_enum(Col, 4)", "to_enum(Col, 0)"])
        elif t == "str":
            tx = s.choice(['["a"][2]', '["a", "b"][0]'])
        else:
            return None
        return Py("(" + tx + ")", P_ATOM, t, u)

    def anytype(self):
        return self.src.choice(["int", "bool", "int", "Col", "float", "str", ("set", "int"), self.A1("int"), self.A1("bool"), ("set", "Col"), self.A2("int"), ("tup", ("int", "bool"))])

    # ---- generators (comprehension) -----------------------------------------------------------
    def gens(self, d, maxg=2):
        """-> (text, fn env -> iterator of env)  adds names to scope; caller restores"""
        s = self.src
        parts = []
        for _ in range(s.int(1, maxg)):
            k = s.weighted([(6, "set"), (3, "arr"), (2, "eset"), (1, "assign")])
            n = self.fresh("i")
            two = None
            if k == "set":
                c = self.ex(("set", "int"), d - 1)
                t, it = "int", lambda v: sorted(v)
            elif k == "eset":
                en = s.choice(["Col", "Day"])
                c = self.ex(("set", en), d - 1) if s.bool() else Py(en, P_ATOM, ("set", en), lambda env, en=en: frozenset(EV((en, i + 1)) for i in range(len(ENUMS[en]))))
                t, it = en, lambda v: sorted(v)
            elif k == "arr":
                t = s.choice(["int", "bool", "str", "Col", "float", ("tup", ("int", "str"))])
                c = self.ex(self.A1(t), d - 1)
                it = lambda v: v.v
            else:
                t = s.choice(["int", "bool", "str"])
                c = self.ex(t, d - 1)
                it = lambda v: [v]
            names = [n]
            if k in ("set", "eset") and s.bool(1, 5):
                names.append(self.fresh("i"))
            for m in names:
                self.scope.append(Py(m, P_ATOM, t, lambda env, m=m: env[m], True))
            w = self.ex("bool", d - 1) if s.bool(1, 3) else None
            parts.append((names, k, c, it, w))
        tx = ", ".join("%s %s %s%s" % (", ".join(ns), "=" if k == "assign" else "in", c.s if c.p <= P_IN - 1 and not c.s.startswith("let") else "(" + c.s + ")", " where " + w.s if w else "") for ns, k, c, it, w in parts)

        def run(env, i=0):
            if i == len(parts):
                yield env
                return
            ns, k, c, it, w = parts[i]
            cv = it(c.f(env))
            for combo in iproduct(cv, repeat=len(ns)):
                e2 = dict(env)
                e2.update(zip(ns, combo))
                if w is None or w.f(e2):
                    yield from run(e2, i + 1)
        kids = [p[2] for p in parts] + [p[4] for p in parts if p[4]]
        return tx, run, kids

    def comp(self, t, d, op):
        n0 = len(self.scope)
        tx, run, kids = self.gens(d)
        body = self.ex(t, d - 1)
        del self.scope[n0:]
        # locality: anything inside a comprehension that refers to an outer local
        def vals(env):
            out = []
            for e in run(env):
                out.append(body.f(e))
                if len(out) > 60:
                    raise SkipCase("long")
            return out
        return tx, body, vals, kids + [body]

    # ---- int -----------------------------------------------------------------------------------
    def i_bin(self, t, d):
        a, b = self.ex("int", d - 1), self.ex("int", d - 1)
        k = self.src.draw(3)
        return self.bin("+-*"[k], P_MUL if k == 2 else P_ADD, a, b, "int", [lambda x, y: x + y, lambda x, y: x - y, lambda x, y: x * y][k])

    def i_div(self, t, d):
        a, b = self.ex("int", d - 1), self.ex("int", d - 1)
        def dv(x, y, f):
            if y == 0:
                raise Undef()
            return f(x, y)
        if self.src.bool():
            return self.bin("div", P_MUL, a, b, "int", lambda x, y: dv(x, y, tdiv))
        return self.bin("mod", P_MUL, a, b, "int", lambda x, y: dv(x, y, tmod))

    def i_neg(self, t, d):
        a = self.ex("int", d - 1)
        return self.node("neg", "-%s" % (a.s if a.p == P_ATOM else "(" + a.s + ")"), P_UN, "int", lambda e: -a.f(e), [a])

    def i_fun(self, t, d):
        s = self.src
        k = s.choice(["abs", "min", "max", "pow", "pow^", "b2i", "e2i", "round", "floor", "ceil", "strlen", "fix", "length", "card", "count", "countv", "identity", "deopt"])
        ex = self.ex
        if k == "abs":
            return self.fun1("abs", ex("int", d - 1), "int", abs)
        if k in ("min", "max"):
            return self.fun2(k, ex("int", d - 1), ex("int", d - 1), "int", min if k == "min" else max)
        if k in ("pow", "pow^"):
            a = ex("int", d - 1)
            b = self.lit(s.int(0, 3), "int") if s.bool() else ex("int", d - 1)
            def pw(x, y):
                if y < 0:
                    if x == 0:
                        raise Undef()
                    return 1 if x == 1 else (1 if y % 2 == 0 else -1) if x == -1 else 0
                if y > 40 and abs(x) > 1:
                    raise SkipCase("large")
                return x ** y
            if k == "pow":
                return self.fun2("pow", a, b, "int", pw)
            return self.bin("^", P_POW, a, b, "int", pw) if (a.p == P_ATOM and b.p == P_ATOM) else self.node("^", "(%s)^(%s)" % (a.s, b.s), P_POW, "int", lambda e: pw(a.f(e), b.f(e)), [a, b])
        if k == "b2i":
            return self.fun1("bool2int", ex("bool", d - 1), "int", int)
        if k == "e2i":
            return self.fun1("enum2int", ex(s.choice(["Col", "Day"]), d - 1), "int", lambda v: v[1])
        if k in ("round", "floor", "ceil"):
            def rd(x):
                if k == "round":
                    if abs(x - math.floor(x) - 0.5) < 1e-9:
                        if x * 8 != int(x * 8):
                            raise SkipCase("tie")
                        return int(math.copysign(math.floor(abs(x) + 0.5), x))
                    return int(math.copysign(math.floor(abs(x) + 0.5), x))
                if abs(x - round(x)) < 1e-9 and x != round(x):
                    raise SkipCase("tie")
                return math.floor(x) if k == "floor" else math.ceil(x)
            return self.fun1(k, ex("float", d - 1), "int", rd)
        if k == "strlen":
            return self.fun1("string_length", ex("str", d - 1), "int", len)
        if k == "fix":
            return self.fun1(s.choice(["fix", "lb", "ub"]), ex("int", d - 1), "int", lambda v: v)
        if k == "length":
            return self.fun1("length", ex(AR(s.choice(["int", "bool", "str", ("set", "int"), "Col"]), *[self.kind() for _ in range(s.choice([1, 1, 2]))]), d - 1), "int", lambda v: len(v.v))
        if k == "card":
            return self.fun1("card", ex(("set", s.choice(["int", "int", "Col", "Day"])), d - 1), "int", len)
        if k == "count":
            return self.fun1("count", ex(AR("bool", *[self.kind() for _ in range(s.choice([1, 1, 2]))]), d - 1), "int", lambda v: sum(v.v))
        if k == "countv":
            return self.fun2("count", ex(self.A1("int"), d - 1), ex("int", d - 1), "int", lambda v, x: v.v.count(x))
        if k == "deopt":
            def dp(v):
                if v is ABS:
                    raise Undef()
                return v
            return self.fun1("deopt", ex(("opt", "int"), d - 1), "int", dp)
        return ex("int", d - 1)

    def i_agg(self, t, d):
        s = self.src
        name = s.choice(["sum", "sum", "product", "min", "max"])
        def ag(v):
            if name == "sum":
                return sum(v)
            if name == "product":
                r = 1
                for x in v:
                    r = ck(r * x)
                return r
            if not v:
                raise Undef()
            return min(v) if name == "min" else max(v)
        if s.bool():
            tx, b, vals, kids = self.comp("int", d, name)
            if s.bool() and name in ("sum", "product", "min", "max"):
                return self.node(name + "()", "%s(%s)(%s)" % (name, tx, b.s), P_ATOM, "int", lambda e: ag(vals(e)), kids)
            return self.node(name, "%s([%s | %s])" % (name, b.s, tx), P_ATOM, "int", lambda e: ag(vals(e)), kids)
        return self.fun1(name, self.ex(AR("int", *[self.kind() for _ in range(s.choice([1, 1, 2]))]), d - 1), "int", lambda v: ag(v.v))

    def i_arg(self, t, d):
        s = self.src
        k = s.choice(["arg_max", "arg_min", "minset", "maxset", "minidx", "maxidx"])
        if k in ("minset", "maxset"):
            def ms(v):
                if not v:
                    raise Undef()
                return min(v) if k == "minset" else max(v)
            return self.fun1(k[:3], self.ex(("set", "int"), d - 1), "int", ms, k)
        if k in ("minidx", "maxidx"):
            def mi(v):
                kd, lo, hi = v.ix[0]
                if hi < lo:
                    raise Undef()
                return lo if k == "minidx" else hi
            a = self.ex(self.A1("int"), d - 1)
            if not self.intix(a):
                return None
            return self.node("index_set", "%s(index_set(%s))" % (k[:3], a.s), P_ATOM, "int", lambda e: mi(a.f(e)), [a])
        a = self.ex(self.A1(s.choice(["int", "float", "bool", "Col"])), d - 1)
        if not self.intix(a):
            return None
        def am(v):
            if not v.v:
                raise Undef()
            x = max(v.v) if k == "arg_max" else min(v.v)
            return v.ix[0][1] + v.v.index(x)
        return self.fun1(k, a, "int", am)

    def intix(self, a):
        """does the array have an integer index set?"""
        return a.t[2][0] == "int"

    # ---- float ---------------------------------------------------------------------------------
    def fl(self, d):
        """float argument: a float expression or (coercion) an int one"""
        if self.src.bool(1, 4):
            a = self.ex("int", d)
            return Py(a.s, a.p, "float", lambda e: float(a.f(e)), a.loc)
        return self.ex("float", d)

    def f_bin(self, t, d):
        k = self.src.draw(4)
        a = self.ex("float", d - 1)
        b = self.fl(d - 1)
        if self.src.bool(1, 4):
            a, b = b, a
        if k == 3:
            def dv(x, y):
                if y == 0:
                    raise Undef()
                return x / y
            return self.bin("/", P_MUL, a, b, "float", dv)
        return self.bin("+-*"[k], P_MUL if k == 2 else P_ADD, a, b, "float", [lambda x, y: x + y, lambda x, y: x - y, lambda x, y: x * y][k], "f" + "+-*"[k])

    def f_fun(self, t, d):
        s = self.src
        k = s.choice(["abs", "min", "max", "sqrt", "exp", "ln", "log10", "log2", "sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "pow", "int2float", "log", "neg", "pow^"])
        a = self.ex("float", d - 1)
        if k == "neg":
            return self.node("fneg", "-%s" % (a.s if a.p == P_ATOM else "(" + a.s + ")"), P_UN, "float", lambda e: -a.f(e), [a])
        if k == "abs":
            return self.fun1("abs", a, "float", abs, "fabs")
        if k in ("min", "max"):
            return self.fun2(k, a, self.fl(d - 1), "float", min if k == "min" else max, "f" + k)
        if k == "int2float":
            return self.fun1("int2float", self.ex("int", d - 1), "float", float)
        def guard(f):
            def g(*x):
                try:
                    return float(f(*x))
                except (ValueError, OverflowError, ZeroDivisionError):
                    raise SkipCase("float domain")
            return g
        if k in ("pow", "pow^"):
            b = self.fl(d - 1)
            def pw(x, y):
                if x == 0 and y < 0 or x < 0 and y != int(y):
                    raise SkipCase("float domain")
                return x ** y
            if k == "pow":
                return self.fun2("pow", a, b, "float", guard(pw), "fpow")
            return self.node("f^", "(%s)^(%s)" % (a.s, b.s), P_POW, "float", lambda e: guard(pw)(a.f(e), b.f(e)), [a, b])
        if k == "log":
            b = self.fl(d - 1)
            def lg(x, y):
                if x <= 0 or y <= 0 or x == 1:
                    raise SkipCase("float domain")
                return math.log(y) / math.log(x)
            return self.fun2("log", a, b, "float", guard(lg))
        fn = {"ln": math.log}.get(k) or getattr(math, k)
        return self.fun1(k, a, "float", guard(fn))

    def f_agg(self, t, d):
        s = self.src
        name = s.choice(["sum", "product", "min", "max"])
        def ag(v):
            if name == "sum":
                return math.fsum(v) if v else 0.0
            if name == "product":
                r = 1.0
                for x in v:
                    r = ck(r * x)
                return r
            if not v:
                raise Undef()
            return min(v) if name == "min" else max(v)
        if s.bool():
            tx, b, vals, kids = self.comp("float", d, name)
            return self.node("f" + name, "%s([%s | %s])" % (name, b.s, tx), P_ATOM, "float", lambda e: ag(vals(e)), kids)
        return self.fun1(name, self.ex(self.A1("float"), d - 1), "float", lambda v: ag(v.v), "f" + name)

    # ---- bool ----------------------------------------------------------------------------------
    def b_conn(self, t, d):
        s = self.src
        op, pr, f = s.choice([("/\\", P_AND, lambda x, y: x and y), ("\\/", P_OR, lambda x, y: x or y), ("->", P_IMPL, lambda x, y: not x or y), ("<-", P_IMPL, lambda x, y: x or not y), ("<->", P_EQV, lambda x, y: x == y), ("xor", P_OR, lambda x, y: x != y)])
        a, b = self.ex("bool", d - 1), self.ex("bool", d - 1)
        def g(x, y):
            return f(x, y)
        if pr in (P_IMPL, P_OR):
            l = a.s if a.p == P_ATOM else "(" + a.s + ")"
            r = b.s if b.p == P_ATOM else "(" + b.s + ")"
            return self.node(op, "%s %s %s" % (l, op, r), pr, "bool", lambda e: g(a.f(e), b.f(e)), [a, b])
        return self.bin(op, pr, a, b, "bool", g)

    def b_not(self, t, d):
        a = self.ex("bool", d - 1)
        return self.node("not", "not %s" % (a.s if a.p == P_ATOM else "(" + a.s + ")"), P_UN, "bool", lambda e: not a.f(e), [a])

    def b_cmp(self, t, d):
        s = self.src
        ty = s.choice(["int", "int", "float", "bool", "str", "Col", "Day"])
        op = s.choice(["<", "<=", ">", ">=", "=", "!=", "=="])
        a, b = self.ex(ty, d - 1), self.ex(ty, d - 1)
        def cmp(x, y):
            if ty == "float" and x != y and abs(x - y) <= 1e-9 * max(1, abs(x), abs(y)):
                raise SkipCase("close floats")
            return {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y, "=": x == y, "==": x == y, "!=": x != y}[op]
        return self.bin(op, P_CMP, a, b, "bool", cmp, "%s:%s" % (op, ty))

    def b_scmp(self, t, d):
        s = self.src
        st = ("set", s.choice(["int", "int", "Col", "Day", "float"]))
        op = s.choice(["subset", "superset", "=", "!=", "<", "<=", ">", ">="])
        a, b = self.ex(st, d - 1), self.ex(st, d - 1)
        def cmp(x, y):
            if op == "subset":
                return x <= y
            if op == "superset":
                return x >= y
            if op == "=":
                return x == y
            if op == "!=":
                return x != y
            lx, ly = sorted(x), sorted(y)
            return {"<": lx < ly, "<=": lx <= ly, ">": lx > ly, ">=": lx >= ly}[op]
        return self.bin(op, P_IN if op[0] == "s" else P_CMP, a, b, "bool", cmp, "set" + op)

    def b_acmp(self, t, d):
        s = self.src
        et = s.choice(["int", "bool", "str", "Col", ("set", "int"), "float", ("tup", ("int", "bool"))])
        op = s.choice(["=", "!="])
        a, b = self.ex(self.A1(et), d - 1), self.ex(self.A1(et), d - 1)
        if s.bool():
            b = self.perturb(a, d) or b
        def cmp(x, y):
            eq = x.v == y.v and (x.ix == y.ix or (not x.v and not y.v))
            if x.v == y.v and not eq:
                raise SkipCase("index sets differ")
            if len(x.v) == len(y.v) and x.ix != y.ix:
                raise SkipCase("index sets differ")
            if len(x.v) != len(y.v):
                raise SkipCase("lengths differ")
            if et == "float" and not eq and all(abs(p - q) <= 1e-9 * max(1, abs(p)) for p, q in zip(x.v, y.v)):
                raise SkipCase("close floats")
            return eq == (op == "=")
        return self.bin(op, P_CMP, a, b, "bool", cmp, "array" + op)

    def perturb(self, a, d):
        """a literal array equal to, or differing in one element from, a closed array expression"""
        if a.loc:
            return None
        try:
            v = a.f({})
        except (Undef, SkipCase, KeyError):
            return None
        w = A(v.ix, v.v)
        if w.v and self.src.bool():
            w.v[self.src.draw(len(w.v))] = self.value(a.t[1])
        return Py(literal(w), P_ATOM, a.t, lambda e: w)

    def b_in(self, t, d):
        s = self.src
        et = s.choice(["int", "int", "Col", "Day", "float", "str", "arr"])
        if et == "arr":
            et = s.choice(["int", "str", "Col"])
            a, b = self.ex(et, d - 1), self.ex(self.A1(et), d - 1)
            return self.bin("in", P_IN, a, b, "bool", lambda x, y: x in y.v, "in array")
        if et == "str":
            a, b = self.ex("str", d - 1), self.ex(self.A1("str"), d - 1)
            return self.fun2("has_element", a, b, "bool", lambda x, y: x in y.v)
        a, b = self.ex(et, d - 1), self.ex(("set", et), d - 1)
        if et == "float" and s.bool():
            lo = self.value("float")
            hi = lo + 2.0
            return self.node("in float range", "%s in %r..%r" % (a.s if a.p == P_ATOM else "(" + a.s + ")", lo, hi), P_IN, "bool", lambda e: lo <= a.f(e) <= hi, [a])
        return self.bin("in", P_IN, a, b, "bool", lambda x, y: x in y)

    def b_quant(self, t, d):
        s = self.src
        name = s.choice(["forall", "exists", "xorall", "iffall"])
        ag = {"forall": all, "exists": any, "xorall": lambda v: sum(v) % 2 == 1, "iffall": lambda v: sum(v) % 2 == 0}[name]
        if name == "iffall":
            # documented through an even number of false/true elements only for variables; decided for arrays of even length
            def ag(v):
                if len(v) % 2:
                    raise SkipCase("iffall parity")
                return sum(v) % 2 == 0
        if s.bool():
            tx, b, vals, kids = self.comp("bool", d, name)
            if name in ("forall", "exists") and s.bool():
                return self.node(name, "%s(%s)(%s)" % (name, tx, b.s), P_ATOM, "bool", lambda e: ag(vals(e)), kids)
            return self.node(name, "%s([%s | %s])" % (name, b.s, tx), P_ATOM, "bool", lambda e: ag(vals(e)), kids)
        if s.bool(1, 4):
            a, b = self.ex(self.A1("bool"), d - 1), self.ex(self.A1("bool"), d - 1)
            return self.fun2("clause", a, b, "bool", lambda x, y: any(x.v) or not all(y.v))
        return self.fun1(name, self.ex(self.A1("bool"), d - 1), "bool", lambda v: ag(v.v))

    def b_opt(self, t, d):
        s = self.src
        a = self.ex(("opt", s.choice(["int", "bool", "Col", "str", "float"])), d - 1)
        k = s.choice(["occurs", "absent"])
        return self.fun1(k, a, "bool", lambda v: (v is not ABS) == (k == "occurs"))

    def b_misc(self, t, d):
        s = self.src
        k = s.choice(["agree", "fixed", "has_index", "increasing", "all_different", "all_equal"])
        if k == "agree":
            a, b = self.ex(self.A1("int"), d - 1), self.ex(self.A1("bool"), d - 1)
            def ag(x, y):
                if not x.v or not y.v:
                    raise SkipCase("empty")
                if x.ix[0][0] != y.ix[0][0]:
                    raise SkipCase("index types")
                return x.ix == y.ix
            return self.fun2("index_sets_agree", a, b, "bool", ag)
        if k == "fixed":
            return self.fun1("is_fixed", self.ex("int", d - 1), "bool", lambda v: True)
        if k == "has_index":
            a = self.ex(self.A1("int"), d - 1)
            if not self.intix(a):
                return None
            return self.fun2("has_index", self.ex("int", d - 1), a, "bool", lambda i, v: v.ix[0][1] <= i <= v.ix[0][2])
        return self.ex("bool", d - 1)

    # ---- strings -------------------------------------------------------------------------------
    def s_cat(self, t, d):
        a, b = self.ex("str", d - 1), self.ex("str", d - 1)
        return self.bin("++", P_PP, a, b, "str", lambda x, y: x + y, "s++")

    def s_join(self, t, d):
        s = self.src
        k = s.draw(4)
        if k == 0:
            return self.fun1("concat", self.ex(self.A1("str"), d - 1), "str", lambda v: "".join(v.v))
        if k == 1:
            return self.fun2("join", self.ex("str", d - 1), self.ex(self.A1("str"), d - 1), "str", lambda x, v: x.join(v.v))
        tx, b, vals, kids = self.comp("str", d, "join")
        if k == 2:
            return self.node("concat()", "concat(%s)(%s)" % (tx, b.s), P_ATOM, "str", lambda e: "".join(vals(e)), kids)
        sep = self.leaf("str")
        return self.node("join()", "join(%s, [%s | %s])" % (sep.s, b.s, tx), P_ATOM, "str", lambda e: sep.f(e).join(vals(e)), kids + [sep])

    def showable(self, d):
        s = self.src
        t = s.choice(["int", "bool", "Col", "Day", "str", ("set", "int"), ("set", "Col"), self.A1("int"), self.A1("str"), ("tup", ("int", "bool")), ("opt", "int"), self.A1("bool"), self.A1("Col"), ("rec", (("a", "int"), ("b", "str")))])
        return self.ex(t, d)

    def s_show(self, t, d):
        s = self.src
        a = self.showable(d - 1)
        k = s.draw(4)
        if k < 2:
            return self.fun1("show", a, "str", render)
        if k == 2 and a.t != "str" and "\n" not in a.s:
            pre, post = s.choice(["", "x=", "("]), s.choice(["", ")", "!"])
            def it(env):
                return pre + render(a.f(env)) + post
            return self.node("interpolation", '"%s\\(%s)%s"' % (pre, a.s, post), P_ATOM, "str", it, [a])
        w = s.int(-8, 8)
        def pad(x):
            if any(ord(c) > 126 for c in x):
                raise SkipCase("non-ascii width")
            return x.rjust(w) if w >= 0 else x.ljust(-w)
        def fixed(e, p):
            def sf(env):
                v = e.f(env)
                if abs(abs(v) * 10 ** p % 1 - 0.5) < 1e-6 or (round(v, p) == 0 and v < 0):
                    raise SkipCase("rounding tie")
                return pad("%.*f" % (p, v))
            return sf
        k = s.draw(6)
        if k in (0, 1):
            e = self.ex("int", d - 1)
            fn = ("show_int", "format")[k]
            return self.node(fn, "%s(%d, %s)" % (fn, w, e.s), P_ATOM, "str", lambda env: pad(str(e.f(env))), [e])
        p = s.int(0, 4)
        if k == 2:
            e = self.ex("float", d - 1)
            fn = s.choice(["show_float", "format"])
            return self.node(fn, "%s(%d, %d, %s)" % (fn, w, p, e.s), P_ATOM, "str", fixed(e, p), [e])
        cut = s.bool(1, 3)
        def trunc(x):
            if not cut:
                return pad(x)
            if any(ord(c) > 126 for c in x):
                raise SkipCase("non-ascii width")
            return pad(x[:p])
        ws = "%d, %d" % (w, p) if cut else "%d" % w
        if k == 3:
            e = self.ex("str", d - 1)
            return self.node("format_justify_string", "format_justify_string(%s, %s)" % (ws, e.s), P_ATOM, "str", lambda env: trunc(e.f(env)), [e])
        if a.t in ("int", ("opt", "int")):
            ws, cut = "%d" % w, False  # the precision does not shorten integers
        return self.node("format", "format(%s, %s)" % (ws, a.s), P_ATOM, "str", lambda env: trunc(render(a.f(env))), [a])

    # ---- sets ----------------------------------------------------------------------------------
    def t_lit(self, t, d):
        els = [self.ex(t[1], d - 1) for _ in range(self.src.int(1, 3))]
        return self.node("set literal", "{" + ", ".join(e.s for e in els) + "}", P_ATOM, t, lambda env: frozenset(e.f(env) for e in els), els)

    def t_range(self, t, d):
        s = self.src
        et = t[1]
        if et == "float":
            return None
        a, b = self.ex(et, d - 1), self.ex(et, d - 1)
        op = s.weighted([(5, ".."), (1, "..<"), (1, "<.."), (1, "<..<")])
        def rg(x, y):
            lo, hi = key(x), key(y)
            if op != ".." and et != "int":
                # ends of the enum
                if op[0] == "<" and lo == len(ENUMS[et]) or op[-1] == "<" and hi == 1:
                    raise SkipCase("open enum range")
            lo, hi = lo + (op[0] == "<"), hi - (op[-1] == "<")
            if hi - lo > 50:
                raise SkipCase("wide")
            return frozenset(mk(et, k) for k in range(lo, hi + 1))
        return self.bin(op, P_DOTS, a, b, t, rg, op)

    def t_op(self, t, d):
        s = self.src
        if t[1] == "float" and False:
            return None
        op, pr, f = s.choice([("union", P_UNION, lambda x, y: x | y), ("intersect", P_INTER, lambda x, y: x & y), ("diff", P_UNION - 0, lambda x, y: x - y), ("symdiff", P_UNION, lambda x, y: x ^ y)])
        a, b = self.ex(t, d - 1), self.ex(t, d - 1)
        if op in ("diff", "symdiff", "union", "intersect"):
            l = a.s if a.p == P_ATOM else "(" + a.s + ")"
            r = b.s if b.p == P_ATOM else "(" + b.s + ")"
            return self.node(op, "%s %s %s" % (l, op, r), pr, t, lambda e: f(a.f(e), b.f(e)), [a, b])

    def t_comp(self, t, d):
        tx, b, vals, kids = self.comp(t[1], d, "set")
        return self.node("set comprehension", "{%s | %s}" % (b.s, tx), P_ATOM, t, lambda e: frozenset(vals(e)), kids)

    def t_fun(self, t, d):
        s = self.src
        k = s.choice(["array_union", "array_intersect", "array2set", "index_set"])
        if t[1] == "float":
            return None
        if k in ("array_union", "array_intersect"):
            a = self.ex(self.A1(("set", t[1])), d - 1)
            def un(v):
                if not v.v:
                    raise SkipCase("empty")
                r = v.v[0]
                for x in v.v[1:]:
                    r = r | x if k == "array_union" else r & x
                return r
            return self.fun1(k, a, t, un)
        if k == "array2set":
            a = self.ex(self.A1(t[1]), d - 1)
            if a.loc or not self.intix(a):
                return None
            return self.fun1(k, a, t, lambda v: frozenset(v.v))
        nd = s.choice([1, 1, 2])
        i = s.draw(nd)
        a = self.ex(AR(s.choice(["int", "bool", "str"]), *[t[1] if j == i else self.kind() for j in range(nd)]), d - 1)
        return self.fun1("index_set" if nd == 1 else "index_set_%dof2" % (i + 1), a, t, lambda v: frozenset(mk(t[1], k) for k in range(v.ix[i][1], v.ix[i][2] + 1)))

    # ---- enums ---------------------------------------------------------------------------------
    def e_fun(self, t, d):
        s = self.src
        n = len(ENUMS[t])
        k = s.choice(["enum_next", "enum_prev", "to_enum", "min", "max", "arg", "amin", "ctor"])
        def lim(i):
            if not 1 <= i <= n:
                raise Undef()
            return EV((t, i))
        if k in ("enum_next", "enum_prev"):
            a = self.ex(t, d - 1)
            dl = 1 if k == "enum_next" else -1
            if s.bool():
                return self.call(k, [t, a], t, lambda e: lim(a.f(e)[1] + dl))
            return self.fun1(k, a, t, lambda v: lim(v[1] + dl))
        if k == "to_enum":
            a = self.ex("int", d - 1)
            return self.call("to_enum", [t, a], t, lambda e: lim(a.f(e)))
        if k in ("min", "max"):
            def mm(v):
                if not v:
                    raise Undef()
                return EV((t, (min if k == "min" else max)(x[1] for x in v)))
            return self.fun1(k, self.ex(("set", t), d - 1), t, mm, "e" + k)
        if k == "amin":
            nm = s.choice(["min", "max"])
            def mm(v):
                if not v.v:
                    raise Undef()
                return EV((t, (min if nm == "min" else max)(x[1] for x in v.v)))
            return self.fun1(nm, self.ex(self.A1(t), d - 1), t, mm, "ea" + nm)
        return None

    # ---- arrays --------------------------------------------------------------------------------
    def a_lit(self, t, d):
        if t[2] != ("int",):
            return None
        els = [self.ex(t[1], d - 1) for _ in range(self.src.int(1, 4))]
        return self.node("array literal", "[" + ", ".join(e.s for e in els) + "]", P_ATOM, t, lambda env: A([("int", 1, len(els))], [whole(e, env) for e in els]), els)

    def a_ilit(self, t, d):
        """indexed array literal"""
        s = self.src
        k, lo, hi = self.index(t[2][0])
        if hi < lo:
            return None
        els = [self.ex(t[1], d - 1) for _ in range(hi - lo + 1)]
        if s.bool():
            tx = ", ".join("%s: %s" % (literal(mk(k, lo + i)) , e.s) for i, e in enumerate(els))
        else:
            tx = "%s: %s" % (literal(mk(k, lo)), ", ".join(e.s for e in els))
        if len(els) == 1 and False:
            return None
        return self.node("indexed literal", "[" + tx + "]", P_ATOM, t, lambda env: A([(k, lo, hi)], [whole(e, env) for e in els]), els)

    def a_comp(self, t, d):
        if t[2] != ("int",):
            return None
        tx, b, vals, kids = self.comp(t[1], d, "arr")
        def f(env):
            v = vals(env)
            return A([("int", 1, len(v))], v)
        return self.node("array comprehension", "[%s | %s]" % (b.s, tx), P_ATOM, t, f, kids)

    def a_icomp(self, t, d):
        """indexed comprehension over a range"""
        s = self.src
        k, lo, hi = self.index(t[2][0])
        if hi < lo:
            return None
        n = self.fresh("i")
        n0 = len(self.scope)
        self.scope.append(Py(n, P_ATOM, k, lambda env: env[n], True))
        body = self.ex(t[1], d - 1)
        del self.scope[n0:]
        return self.node("indexed comprehension", "[%s: %s | %s in %s]" % (n, body.s, n, ixtext((k, lo, hi))), P_ATOM, t,
                         lambda env: A([(k, lo, hi)], [body.f(dict(env, **{n: mk(k, i)})) for i in range(lo, hi + 1)]), [body])

    def a_cat(self, t, d):
        if t[2] != ("int",):
            return None
        a, b = self.ex(t, d - 1), self.ex(t, d - 1)
        def cat(x, y):
            return A([("int", 1, len(x.v) + len(y.v))], x.v + y.v)
        return self.bin("++", P_PP, a, b, t, cat, "a++")

    def a_fun(self, t, d):
        s = self.src
        k = s.choice(["reverse", "sort", "sort_by", "array1d", "array1dix", "slice", "set2array", "row", "col", "flat2", "arrayXd", "zip", "sortf", "inverse"])
        et = t[1]
        if k == "inverse":
            if et != "int" or t[2] != ("int",):
                return None
            n, lo, off = s.int(1, 4), s.small(-3, 4), s.small(-3, 4)
            p = list(range(n))
            for i in range(n - 1, 0, -1):
                j = s.int(0, i)
                p[i], p[j] = p[j], p[i]
            a = self.lit(A([("int", lo, lo + n - 1)], [v + off for v in p]), t)
            if s.bool() and n > 1 and a.f({}).ix == [("int", lo, lo + n - 1)]:
                a = self.node("ite", "(if %s then %s else %s endif)" % ("true", a.s, a.s), P_ATOM, t, a.f, [a])
            return self.call("inverse", [a], t, lambda e: A([("int", off, off + n - 1)], [lo + p.index(v) for v in range(n)]))
        if k in ("sort", "sortf"):
            if et not in ("int", "float", "bool", "Col", "Day"):
                return None
            return self.fun1("sort", self.ex(t, d - 1), t, lambda v: A(v.ix, sorted(v.v)))
        if k == "reverse":
            return self.fun1("reverse", self.ex(t, d - 1), t, lambda v: A(v.ix, v.v[::-1]))
        if k == "sort_by":
            a = self.ex(t, d - 1)
            kt = s.choice(["int", "float"])
            b = self.ex(self.A1(kt), d - 1)
            if a.loc:
                return None
            try:
                av = a.f({})
            except (Undef, SkipCase, KeyError):
                return None
            ks = [self.value(kt) for _ in av.v]
            b = self.lit(A(av.ix, ks), self.A1(kt))
            return self.call("sort_by", [a, b], t, lambda e: A(a.f(e).ix, [x for _, x in sorted(zip(ks, a.f(e).v), key=lambda p: p[0])]))
        if k in ("array1d", "set2array") and t[2] != ("int",):
            return None
        if k == "array1d":
            nd = s.choice([1, 2, 2])
            return self.fun1("array1d", self.ex(AR(et, *[self.kind() for _ in range(nd)]), d - 1), t, lambda v: A([("int", 1, len(v.v))], v.v))
        if k in ("array1dix", "arrayXd"):
            a = self.ex(self.A1(et), d - 1)
            if a.loc:
                return None
            try:
                n = len(a.f({}).v)
            except (Undef, SkipCase, KeyError):
                return None
            lo = s.int(-2, 3)
            ix = ("int", lo, lo + n - 1)
            if n == 0:
                return None
            if t[2][0] != "int":
                if n > len(ENUMS[t[2][0]]):
                    return None
                ix = (t[2][0], 1, n)
            if k == "array1dix":
                return self.call("array1d", [ixtext(ix), a], t, lambda e: A([ix], a.f(e).v))
            tmpl = A([ix], [0] * n)
            return self.call("arrayXd", [literal(tmpl), a], t, lambda e: A([ix], a.f(e).v))
        if k == "slice":
            a = self.ex(t, d - 1)
            if a.loc:
                return None
            try:
                kd, lo, hi = a.f({}).ix[0]
            except (Undef, SkipCase, KeyError):
                return None
            if hi < lo:
                return None
            x = s.int(lo, hi)
            y = s.int(x, hi)
            ap = a.s if a.p == P_ATOM else "(" + a.s + ")"
            return self.node("slice", "%s[%s..%s]" % (ap, literal(mk(kd, x)), literal(mk(kd, y))), P_ATOM, t, lambda e: (lambda v: A([(kd, x, y)], v.v[x - lo:y - lo + 1]))(a.f(e)), [a])
        if k == "set2array":
            if et not in ("int", "Col", "Day"):
                return None
            return self.fun1("set2array", self.ex(("set", et), d - 1), t, lambda v: A([("int", 1, len(v))], sorted(v)))
        if k in ("row", "col"):
            a = self.ex(AR(et, *([self.kind(), t[2][0]] if k == "row" else [t[2][0], self.kind()])), d - 1)
            if a.loc:
                return None
            try:
                v = a.f({})
            except (Undef, SkipCase, KeyError):
                return None
            i = 0 if k == "row" else 1
            kd, lo, hi = v.ix[i]
            if not v.v:
                return None
            c = s.int(lo, hi)
            m = v.ix[1][2] - v.ix[1][1] + 1
            def sl(v):
                if i == 0:
                    return A([v.ix[1]], v.v[(c - lo) * m:(c - lo + 1) * m])
                return A([v.ix[0]], v.v[c - lo::m])
            ap = a.s if a.p == P_ATOM else "(" + a.s + ")"
            ct = literal(mk(kd, c))
            if s.bool():
                return self.node("slice2", "%s[%s]" % (ap, "%s, .." % ct if i == 0 else ".., %s" % ct), P_ATOM, t, lambda e: sl(a.f(e)), [a])
            return self.call(k, [a, ct], t, lambda e: sl(a.f(e)))
        return None

    def m_lit(self, t, d):
        s = self.src
        if t[2] != ("int", "int"):
            return None
        r, c = s.int(1, 3), s.int(1, 3)
        els = [self.ex(t[1], d - 1 if r * c < 5 else 0) for _ in range(r * c)]
        tx = "[|" + " | ".join(", ".join(e.s if not e.s.endswith("|") else "(" + e.s + ")" for e in els[i * c:(i + 1) * c]) for i in range(r)) + " |]"
        return self.node("2d literal", tx, P_ATOM, t, lambda env: A([("int", 1, r), ("int", 1, c)], [e.f(env) for e in els]), els)

    def m_comp(self, t, d):
        s = self.src
        (k, lo, hi), (k2, lo2, hi2) = self.index(t[2][0]), self.index(t[2][1])
        if hi < lo or hi2 < lo2 or (hi - lo + 1) * (hi2 - lo2 + 1) > 12:
            return None
        n, m = self.fresh("i"), self.fresh("i")
        n0 = len(self.scope)
        self.scope += [Py(n, P_ATOM, k, lambda env: env[n], True), Py(m, P_ATOM, k2, lambda env: env[m], True)]
        body = self.ex(t[1], d - 1)
        del self.scope[n0:]
        i1, i2 = (k, lo, hi), (k2, lo2, hi2)
        if s.bool():
            tx = "[(%s, %s): %s | %s in %s, %s in %s]" % (n, m, body.s, n, ixtext(i1), m, ixtext(i2))
        else:
            tx = "array2d(%s, %s, [%s | %s in %s, %s in %s])" % (ixtext(i1), ixtext(i2), body.s, n, ixtext(i1), m, ixtext(i2))
        return self.node("2d comprehension", tx, P_ATOM, t,
                         lambda env: A([i1, i2], [body.f(dict(env, **{n: mk(k, i), m: mk(k2, j)})) for i in range(lo, hi + 1) for j in range(lo2, hi2 + 1)]), [body])

    def m_fun(self, t, d):
        s = self.src
        a = self.ex(t, d - 1)
        if a.loc:
            return None
        try:
            v = a.f({})
        except (Undef, SkipCase, KeyError):
            return None
        if not v.v:
            return None
        ap = a.s if a.p == P_ATOM else "(" + a.s + ")"
        if s.bool() and t[2] == ("int", "int"):
            # reshape
            n = len(v.v)
            fac = [(x, n // x) for x in range(1, n + 1) if n % x == 0]
            r, c = s.choice(fac)
            lo, lo2 = s.choice([1, 0, -1]), s.choice([1, 0, 4])
            i1, i2 = ("int", lo, lo + r - 1), ("int", lo2, lo2 + c - 1)
            return self.call("array2d", [ixtext(i1), ixtext(i2), a], t, lambda e: A([i1, i2], a.f(e).v))
        (k, lo, hi), (k2, lo2, hi2) = v.ix
        x, y = s.int(lo, hi), s.int(lo2, hi2)
        xx, yy = s.int(x, hi), s.int(y, hi2)
        m = hi2 - lo2 + 1
        def rt(k_, p, q):
            return ixtext((k_, p, q)) if k_ == "int" else "%s..%s" % (literal(mk(k_, p)), literal(mk(k_, q)))
        def sl(v):
            return A([(k, x, xx), (k2, y, yy)], [v.v[(i - lo) * m + j - lo2] for i in range(x, xx + 1) for j in range(y, yy + 1)])
        return self.node("2d slice", "%s[%s, %s]" % (ap, rt(k, x, xx), rt(k2, y, yy)), P_ATOM, t, lambda e: sl(a.f(e)), [a])

    # ---- tuples, records, options ----------------------------------------------------------------
    def u_lit(self, t, d):
        els = [self.ex(x, d - 1) for x in t[1]]
        return self.node("tuple literal", "(" + ", ".join(e.s for e in els) + ")", P_ATOM, t, lambda env: Tup(whole(e, env) for e in els), els)

    def r_lit(self, t, d):
        els = [(n, self.ex(x, d - 1)) for n, x in t[1]]
        if self.src.bool():
            order = els[::-1]
        else:
            order = els
        return self.node("record literal", "(" + ", ".join("%s: %s" % (n, e.s) for n, e in order) + ")", P_ATOM, t,
                         lambda env: RecV([n for n, _ in els], [whole(e, env) for _, e in els]), [e for _, e in els])

    def o_val(self, t, d):
        e = self.ex(t[1], d - 1)
        return Py(e.s, e.p, t, e.f, e.loc)


COMMON = [(1, "c_if"), (1, "c_let"), (1, "c_access"), (1, "c_field"), (1, "c_call"), (1, "c_default")]
GENS = {
    "int": [(4, "i_bin"), (2, "i_div"), (1, "i_neg"), (5, "i_fun"), (3, "i_agg"), (2, "i_arg")],
    "float": [(4, "f_bin"), (5, "f_fun"), (2, "f_agg")],
    "bool": [(4, "b_conn"), (1, "b_not"), (4, "b_cmp"), (2, "b_scmp"), (2, "b_acmp"), (3, "b_in"), (3, "b_quant"), (2, "b_opt"), (1, "b_misc")],
    "str": [(2, "s_cat"), (3, "s_join"), (4, "s_show")],
    "set": [(2, "t_lit"), (4, "t_range"), (4, "t_op"), (3, "t_comp"), (3, "t_fun")],
    "enum": [(5, "e_fun")],
    "arr1": [(3, "a_lit"), (1, "a_ilit"), (3, "a_comp"), (1, "a_icomp"), (2, "a_cat"), (6, "a_fun")],
    "arr2": [(3, "m_lit"), (3, "m_comp"), (3, "m_fun")],
    "arr3": [],
    "tup": [(5, "u_lit")],
    "rec": [(5, "r_lit")],
    "opt": [(4, "o_val")],
}
