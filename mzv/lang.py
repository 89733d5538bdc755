"""Typed random MiniZinc expressions together with their meaning.

Every expression object carries its concrete syntax and a Python closure that gives its value under
an environment, following the language specification (relational semantics): an undefined *var*
expression makes the nearest enclosing Boolean expression false.  The closures are the reference
model; nothing of MiniZinc's implementation is consulted."""
from .core import SkipCase

LIM = 12000


class Undef(Exception):
    pass


def undef(var):
    """signal undefinedness of a (var/par) expression; fixed undefined expressions abort compilation, so such
    cases are outside the domain"""
    if var:
        raise Undef()
    raise SkipCase("undefined fixed expression")


class Arr:
    """array value: index sets as list of (lo,hi), row-major values"""
    __slots__ = ("ix", "v")

    def __init__(self, ix, v):
        self.ix, self.v = ix, v

    def get(self, idx):
        k = 0
        for (lo, hi), i in zip(self.ix, idx):
            if i < lo or i > hi:
                raise Undef()
            k = k * (hi - lo + 1) + (i - lo)
        return self.v[k]


class E:
    __slots__ = ("s", "p", "t", "v", "lo", "hi", "f", "ix", "x", "m")

    def __init__(self, s, p, t, v, f, lo=None, hi=None, ix=None, x=None, m=False):
        self.s = s      # text
        self.p = p      # precedence (0 = atom)
        self.t = t      # 'int' 'bool' 'aint' 'abool' ...
        self.v = v      # var?
        self.f = f      # env -> value
        self.lo, self.hi = lo, hi
        self.ix = ix    # index sets of an array
        self.x = x      # extra
        self.m = m      # mentions a local name


def bnode(s, p, v, f, **kw):
    """Boolean expression: undefinedness stops here"""
    def g(env):
        try:
            return f(env)
        except Undef:
            if v:
                return False
            raise SkipCase("undefined fixed Boolean")
    return E(s, p, "bool", v, g, **kw)


# precedence numbers: larger binds looser
P_ATOM, P_DEFAULT, P_PP, P_POW, P_UN, P_MUL, P_ADD, P_DOTS, P_INTER, P_UNION, P_IN, P_CMP, P_AND, P_OR, P_IMPL, P_EQV = range(16)
LEFT = {P_POW, P_MUL, P_ADD, P_INTER, P_UNION, P_AND, P_OR, P_IMPL, P_EQV, P_PP}


def par_if(e, limit):
    return "(" + e.s + ")" if e.p > limit else e.s


def infix(op, pr, a, b, src=None, minimal=False):
    """text of `a op b`; fully parenthesised operands unless minimal"""
    if minimal:
        l = par_if(a, pr if pr in LEFT else pr - 1)
        r = par_if(b, pr - 1)
    else:
        l, r = par_if(a, P_ATOM), par_if(b, P_ATOM)
    return "%s %s %s" % (l, op, r)


def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def tmod(a, b):
    return a - b * tdiv(a, b)


def lit_int(k):
    return E(str(k), P_ATOM if k >= 0 else P_UN, "int", False, lambda env: k, k, k)


def lit_bool(b):
    return E("true" if b else "false", P_ATOM, "bool", False, lambda env: b)


def ident(name, t, v, lo=None, hi=None, ix=None, x=None, m=False):
    return E(name, P_ATOM, t, v, lambda env: env[name], lo, hi, ix, x, m)


def setlit(vals):
    return "{" + ",".join(map(str, vals)) + "}"


class Gen:
    """Base generator: integers, Booleans, arrays, comprehensions, let, functions."""

    MAXD = 3
    MINIMAL = True

    fn_var = False  # declare functions of variables as var even when their body is fixed

    def __init__(self, src, feats=()):
        self.src = src
        self.feats = set(feats)
        self.items = []       # declarations, as text
        self.env = {}         # fixed (parameter) values
        self.vars = []        # (name, domain list) to enumerate
        self.derived = []     # (name, E) evaluated after assignment, in order
        self.ids = []         # identifiers in scope, as E
        self.pool = []        # reusable closed subexpressions
        self.nfresh = 0
        self.labels = set()
        self.funcs = []
        self.outs = []        # output expressions, as E
        self.cons = []
        self.nodes = 0
        self.cur = None
        self.mini = src.bool()
        self.pos = False      # are we in a positive (root conjunctive) context?
        self.in_fn = 0

    # ---- names ------------------------------------------------------------------------------
    def fresh(self, base="v"):
        self.nfresh += 1
        return "%s%d" % (base, self.nfresh)

    def lab(self, l):
        self.labels.add(l)

    # ---- declarations -----------------------------------------------------------------------
    def dom_int(self, maxw=4):
        s = self.src
        if s.bool(1, 4):
            k = s.int(2, 3)
            vals = sorted(s.sample(range(-3, 6), k))
            return setlit(vals), vals
        lo = s.small(-3, 3)
        hi = lo + s.int(1, maxw - 1)
        return "%d..%d" % (lo, hi), list(range(lo, hi + 1))

    def decl_var(self):
        s = self.src
        k = s.weighted([(5, "int"), (3, "bool"), (2, "aint"), (1, "abool"), (1, "aint2")])
        n = self.fresh("x")
        if k == "int":
            txt, vals = self.dom_int()
            form = s.draw(6)
            if form == 4:
                d = self.fresh("D")
                self.items.append("set of int: %s = %s;" % (d, txt))
                txt = d
            if form == 5 and len(vals) > 1:
                # unbounded declaration constrained later
                self.items.append("var int: %s;" % n)
                self.items.append("constraint %s;" % ("%s in %s" % (n, txt) if s.bool() else
                                                       "%s >= %d /\\ %s <= %d /\\ %s in %s" % (n, vals[0], n, vals[-1], n, txt)))
                self.lab("decl:open")
            else:
                self.items.append("var %s: %s;" % (txt, n))
            self.vars.append((n, vals))
            self.ids.append(ident(n, "int", True, vals[0], vals[-1]))
        elif k == "bool":
            self.items.append("var bool: %s;" % n)
            self.vars.append((n, [False, True]))
            self.ids.append(ident(n, "bool", True))
        elif k == "aint":
            ln = s.int(2, 3)
            base = s.choice([1, 1, 0, -1, 2])
            txt, vals = self.dom_int(3)
            self.items.append("array[%d..%d] of var %s: %s;" % (base, base + ln - 1, txt, n))
            ix = [(base, base + ln - 1)]
            self.vars.append((n, [Arr(ix, list(c)) for c in prod([vals] * ln)]))
            self.ids.append(ident(n, "aint", True, vals[0], vals[-1], ix))
        elif k == "aint2":
            vals = [0, 1] if s.bool() else [-1, 2]
            self.items.append("array[1..2,0..1] of var %s: %s;" % (setlit(vals), n))
            ix = [(1, 2), (0, 1)]
            self.vars.append((n, [Arr(ix, list(c)) for c in prod([vals] * 4)]))
            self.ids.append(ident(n, "aint", True, vals[0], vals[-1], ix))
        else:
            ln = s.int(2, 3)
            base = s.choice([1, 0])
            self.items.append("array[%d..%d] of var bool: %s;" % (base, base + ln - 1, n))
            ix = [(base, base + ln - 1)]
            self.vars.append((n, [Arr(ix, list(c)) for c in prod([[False, True]] * ln)]))
            self.ids.append(ident(n, "abool", True, ix=ix))

    def decl_par(self):
        s = self.src
        n = self.fresh("p")
        k = s.weighted([(2, "int"), (1, "bool"), (3, "aint"), (1, "abool")])
        if k == "int":
            v = s.small(-4, 5)
            self.items.append("int: %s = %d;" % (n, v))
            self.env[n] = v
            self.ids.append(ident(n, "int", False, v, v))
        elif k == "bool":
            v = s.bool()
            self.items.append("bool: %s = %s;" % (n, "true" if v else "false"))
            self.env[n] = v
            self.ids.append(ident(n, "bool", False))
        else:
            ln = s.int(1, 4)
            base = s.choice([1, 1, 0, -1])
            ix = [(base, base + ln - 1)]
            if k == "aint":
                v = [s.small(-4, 5) for _ in range(ln)]
                txt = ",".join(map(str, v))
                ty = "int"
            else:
                v = [s.bool() for _ in range(ln)]
                txt = ",".join("true" if b else "false" for b in v)
                ty = "bool"
            if base == 1 and s.bool():
                self.items.append("array[int] of %s: %s = [%s];" % (ty, n, txt))
            elif s.bool():
                self.items.append("array[%d..%d] of %s: %s = [%s];" % (base, base + ln - 1, ty, n,
                                  ",".join("%d:%s" % (base + i, t) for i, t in enumerate(txt.split(",")))))
            else:
                self.items.append("array[%d..%d] of %s: %s = array1d(%d..%d,[%s]);" % (base, base + ln - 1, ty, n, base, base + ln - 1, txt))
            self.env[n] = Arr(ix, v)
            e = ident(n, "a" + ty, False, ix=ix)
            if ty == "int":
                e.lo, e.hi = min(v), max(v)
            self.ids.append(e)

    def decl_derived(self):
        """a variable defined by an expression"""
        s = self.src
        n = self.fresh("d")
        if s.bool(2, 3):
            e = self.int(2)
            if not e.v:
                return
            if s.bool(1, 3):
                # declared domain is a constraint too
                lo = e.lo + s.draw(2)
                hi = max(lo, e.hi - s.draw(2))
                self.items.append("var %d..%d: %s = %s;" % (lo, hi, n, e.s))
                self.cons.append(("", bnode("", 0, True, lambda env, n=n, lo=lo, hi=hi: lo <= env[n] <= hi)))
            else:
                self.items.append("var int: %s = %s;" % (n, e.s))
            self.derived.append((n, e))
            self.ids.append(ident(n, "int", True, e.lo, e.hi))
        else:
            e = self.bool(2)
            if not e.v:
                return
            self.items.append("var bool: %s = %s;" % (n, e.s))
            self.derived.append((n, e))
            self.ids.append(ident(n, "bool", True))
        self.lab("decl:derived")

    def nassign(self):
        n = 1
        for _, d in self.vars:
            n *= len(d)
        return n

    # ---- leaves -----------------------------------------------------------------------------
    def pick(self, t, var=None):
        c = [e for e in self.ids if e.t == t and (var is None or e.v == var)]
        return self.src.choice(c) if c else None

    def leaf_int(self, par=False):
        s = self.src
        e = None
        if par:
            if s.bool(1, 2):
                e = self.pick("int", False)
        elif s.bool(7, 10):
            e = self.pick("int", True) or self.pick("int")
            if e is None or s.bool(1, 6):
                a = [x for x in self.ids if x.t == "aint" and x.v]
                if a:
                    e = self.elem_const(s.choice(a))
        elif s.bool(1, 3):
            e = self.pick("int", False)
        return e or lit_int(s.small(-3, 5))

    def elem_const(self, a):
        """in-bounds constant access"""
        idx = [self.src.int(lo, hi) for lo, hi in a.ix]
        f = lambda env, a=a, idx=idx: a.f(env).get(idx)
        return E("%s[%s]" % (a.s, ",".join(map(str, idx))), P_ATOM, a.t[1:], a.v, f, a.lo, a.hi, m=a.m)

    def leaf_bool(self, par=False):
        s = self.src
        e = None
        if par:
            if s.bool(1, 2):
                e = self.pick("bool", False)
        elif s.bool(5, 6):
            e = self.pick("bool", True)
            if e is None or s.bool(1, 4):
                a = [x for x in self.ids if x.t == "abool" and x.v]
                if a:
                    e = self.elem_const(s.choice(a))
            if e is None or s.bool(1, 3):
                return self.b_cmp(0, par)
        return e or lit_bool(s.bool())

    # ---- integer expressions -----------------------------------------------------------------
    def bounded(self, e):
        return e is not None and (e.t != "int" or (-LIM <= e.lo and e.hi <= LIM))

    INT = [(6, "i_add"), (3, "i_mul"), (3, "i_div"), (2, "i_mod"), (2, "i_neg"), (2, "i_abs"), (2, "i_minmax"),
           (3, "i_ite"), (4, "i_access"), (4, "i_agg"), (3, "i_b2i"), (1, "i_pow"), (2, "i_let"), (2, "i_call"),
           (1, "i_count"), (1, "i_default"), (1, "i_varwhere")]
    BOOL = [(9, "b_cmp"), (6, "b_conn"), (4, "b_not"), (4, "b_quant"), (3, "b_in"), (2, "b_ite"), (2, "b_access"),
            (2, "b_let"), (2, "b_call"), (1, "b_clause"), (2, "b_beq"), (1, "b_arreq"), (1, "b_xorall"), (2, "b_varwhere")]

    def int(self, d, par=False):
        self.nodes += 1
        s = self.src
        if d <= 0 or self.nodes > 60:
            return self.leaf_int(par)
        if s.bool(1, 6):
            return self.leaf_int(par)
        if s.bool(1, 10) and not par:
            c = [e for e in self.pool if e.t == "int" and not e.m]
            if c:
                self.lab("reuse")
                return s.choice(c)
        for _ in range(3):
            m = s.weighted(self.INT)
            pos, self.pos = self.pos, False
            e = getattr(self, m)(d, par)
            self.pos = pos
            if e is not None and self.bounded(e) and not (par and e.v):
                self.lab(m)
                if not self.in_fn and not e.m:
                    self.pool.append(e)
                return e
        return self.leaf_int(par)

    def bool(self, d, par=False, pos=False):
        self.nodes += 1
        s = self.src
        save, self.pos = self.pos, pos
        try:
            if d <= 0 or self.nodes > 60:
                return self.leaf_bool(par)
            if s.bool(1, 10):
                return self.leaf_bool(par)
            if s.bool(1, 10) and not par:
                c = [e for e in self.pool if e.t == "bool" and not e.m]
                if c:
                    self.lab("reuse")
                    return s.choice(c)
            for _ in range(3):
                m = s.weighted(self.BOOL)
                e = getattr(self, m)(d, par)
                if e is not None and not (par and e.v):
                    self.lab(m)
                    if not self.in_fn and not e.m and e.x != "free":
                        self.pool.append(e)
                    return e
            return self.leaf_bool(par)
        finally:
            self.pos = save

    def inf(self, op, pr, a, b):
        return infix(op, pr, a, b, minimal=self.mini)

    def i_add(self, d, par):
        a, b = self.int(d - 1, par), self.int(d - 1, par)
        if self.src.bool():
            return E(self.inf("-", P_ADD, a, b), P_ADD, "int", a.v or b.v, lambda env: both(a, b, env, lambda x, y: x - y),
                     a.lo - b.hi, a.hi - b.lo, m=a.m or b.m)
        return E(self.inf("+", P_ADD, a, b), P_ADD, "int", a.v or b.v, lambda env: both(a, b, env, lambda x, y: x + y),
                 a.lo + b.lo, a.hi + b.hi, m=a.m or b.m)

    def i_mul(self, d, par):
        a, b = self.int(d - 1, par), self.int(d - 1, par)
        c = [x * y for x in (a.lo, a.hi) for y in (b.lo, b.hi)]
        return E(self.inf("*", P_MUL, a, b), P_MUL, "int", a.v or b.v, lambda env: both(a, b, env, lambda x, y: x * y),
                 min(c), max(c), m=a.m or b.m)

    def i_div(self, d, par):
        a, b = self.int(d - 1, par), self.int(d - 1, par)
        if par or not b.v:
            # keep fixed divisors non-zero
            k = self.src.choice([1, 2, 3, -1, -2, -3])
            b = lit_int(k)
        v = a.v or b.v

        def f(x, y):
            if y == 0:
                undef(v)
            return tdiv(x, y)
        m = max(abs(a.lo), abs(a.hi))
        return E(self.inf("div", P_MUL, a, b), P_MUL, "int", v, lambda env: both(a, b, env, f), -m, m, m=a.m or b.m)

    def i_mod(self, d, par):
        a, b = self.int(d - 1, par), self.int(d - 1, par)
        if par or not b.v:
            b = lit_int(self.src.choice([1, 2, 3, -2, -3]))
        v = a.v or b.v

        def f(x, y):
            if y == 0:
                undef(v)
            return tmod(x, y)
        m = max(abs(b.lo), abs(b.hi))
        return E(self.inf("mod", P_MUL, a, b), P_MUL, "int", v, lambda env: both(a, b, env, f), -m, m, m=a.m or b.m)

    def i_pow(self, d, par):
        a = self.int(d - 1, par)
        k = self.src.choice([2, 2, 3, 0, 1])
        m = max(abs(a.lo), abs(a.hi), 1) ** k
        b = lit_int(k)
        if self.src.bool():
            return E("pow(%s,%d)" % (a.s, k), P_ATOM, "int", a.v, lambda env: a.f(env) ** k, -m, m, m=a.m)
        return E(self.inf("^", P_POW, a, b), P_POW, "int", a.v, lambda env: a.f(env) ** k, -m, m, m=a.m)

    def i_neg(self, d, par):
        a = self.int(d - 1, par)
        return E("-" + (a.s if a.p == P_ATOM else "(" + a.s + ")"), P_UN, "int", a.v, lambda env: -a.f(env), -a.hi, -a.lo, m=a.m)

    def i_abs(self, d, par):
        a = self.int(d - 1, par)
        return E("abs(%s)" % a.s, P_ATOM, "int", a.v, lambda env: abs(a.f(env)), 0, max(abs(a.lo), abs(a.hi)), m=a.m)

    def i_minmax(self, d, par):
        fn = self.src.choice(["min", "max"])
        pf = min if fn == "min" else max
        if self.src.bool(1, 3):
            a = self.arr_int(d - 1, par)
            if a is None or (isinstance(a.x, tuple) and a.x[3]):
                return None
            return E("%s(%s)" % (fn, a.s), P_ATOM, "int", a.v, lambda env: pf(a.f(env).v), a.lo, a.hi, m=a.m) if a else None
        a, b = self.int(d - 1, par), self.int(d - 1, par)
        return E("%s(%s, %s)" % (fn, a.s, b.s), P_ATOM, "int", a.v or b.v, lambda env: both(a, b, env, pf),
                 pf(a.lo, b.lo), pf(a.hi, b.hi), m=a.m or b.m)

    def i_ite(self, d, par):
        a, b = self.int(d - 1, par), self.int(d - 1, par)
        parc = par or self.src.bool(1, 6)
        c = self.bool(d - 1, parc)
        lo, hi = min(a.lo, b.lo), max(a.hi, b.hi)
        if self.src.bool(1, 3):
            c2, e2 = self.bool(d - 1, parc), self.int(d - 1, par)
            lo, hi = min(lo, e2.lo), max(hi, e2.hi)
            f = ite_f([(c, a), (c2, e2)], b)
            s = "if %s then %s elseif %s then %s else %s endif" % (c.s, a.s, c2.s, e2.s, b.s)
            v = c.v or a.v or b.v or c2.v or e2.v
            m = c.m or a.m or b.m or c2.m or e2.m
        else:
            f = ite_f([(c, a)], b)
            s = "if %s then %s else %s endif" % (c.s, a.s, b.s)
            v = c.v or a.v or b.v
            m = c.m or a.m or b.m
        return E(s, P_ATOM, "int", v, f, lo, hi, m=m)

    def i_access(self, d, par):
        a = self.arr_int(d - 1, par, lit_ok=True)
        if a is None:
            return None
        return self.access(a, d, par)

    def access(self, a, d, par):
        idx = [self.index(lo, hi, d - 1, par, a.v) for lo, hi in a.ix]
        v = a.v or any(i.v for i in idx)

        def f(env):
            err = None
            iv = []
            for i in idx:
                iv.append(i.f(env))
            av = a.f(env)
            try:
                return av.get(iv)
            except Undef:
                undef(v)
        s = par_if(a, P_ATOM) + "[" + ",".join(i.s for i in idx) + "]"
        return E(s, P_ATOM, a.t[1:], v, f, a.lo, a.hi, m=a.m or any(i.m for i in idx))

    def index(self, lo, hi, d, par, avar):
        """index expression; var ones may leave the index set"""
        s = self.src
        if par or s.bool(1, 4):
            c = [e for e in self.ids if e.t == "int" and not e.v and lo <= e.lo and e.hi <= hi]
            if c and s.bool():
                return s.choice(c)
            return lit_int(s.int(lo, hi))
        c = [e for e in self.ids if e.t == "int" and e.v and e.hi >= lo and e.lo <= hi]
        if c and s.bool(2, 3):
            e = s.choice(c)
            if s.bool(1, 3):
                k = s.choice([1, -1, 2])
                return E("%s%s%d" % (e.s, "+" if k > 0 else "-", abs(k)), P_ADD, "int", True, lambda env: e.f(env) + k, e.lo + k, e.hi + k, m=e.m)
            return e
        e = self.int(d, par)
        if not e.v and not (lo <= e.lo and e.hi <= hi):
            return lit_int(s.int(lo, hi))
        return e

    def i_b2i(self, d, par):
        a = self.bool(d - 1, par)
        if self.src.bool(1, 3):
            # implicit coercion in arithmetic
            b = self.int(d - 1, par)
            return E(self.inf("+", P_ADD, a, b), P_ADD, "int", a.v or b.v, lambda env: both(a, b, env, lambda x, y: int(x) + y),
                     b.lo, b.hi + 1, m=a.m or b.m)
        return E("bool2int(%s)" % a.s, P_ATOM, "int", a.v, lambda env: int(a.f(env)), 0, 1, m=a.m)

    def i_agg(self, d, par):
        a = self.arr_int(d - 1, par)
        if a is None:
            return None
        n = alen(a.ix)
        fn = self.src.weighted([(4, "sum"), (2, "max"), (2, "min"), (1, "product")])
        if fn == "product":
            m = max(abs(a.lo), abs(a.hi), 1) ** n
            f = lambda env: prodl(a.f(env).v)
            lo, hi = -m, m
        elif fn == "sum":
            f = lambda env: sum(a.f(env).v)
            lo, hi = min(a.lo * n, 0 if n == 0 else a.lo * n), a.hi * n
        else:
            if n == 0 or a.x == "maybe-empty":
                return None
            pf = min if fn == "min" else max
            f = lambda env: pf(a.f(env).v)
            lo, hi = a.lo, a.hi
        if a.x == "maybe-empty" and fn != "product":
            lo, hi = min(lo, 0), max(hi, 0)
        # generator-call syntax for comprehensions
        s = "%s(%s)" % (fn, a.s)
        if a.s.startswith("[") and isinstance(a.x, tuple) and a.x[0] == "comp" and self.src.bool():
            s = "%s(%s)(%s)" % (fn, a.x[2], a.x[1])
        if isinstance(a.x, tuple) and a.x[0] == "comp" and a.x[3]:
            lo, hi = min(lo, 0), max(hi, 0)
            if fn in ("min", "max"):
                return None
        return E(s, P_ATOM, "int", a.v, f, lo, hi, m=a.m)

    def i_count(self, d, par):
        a = self.arr_int(d - 1, par)
        if a is None or a.x is not None:
            return None
        b = self.int(d - 1, par)
        n = alen(a.ix)
        return E("count(%s, %s)" % (a.s, b.s), P_ATOM, "int", a.v or b.v,
                 lambda env: both(a, b, env, lambda x, y: sum(1 for z in x.v if z == y)), 0, n, m=a.m or b.m)

    def i_default(self, d, par):
        return None

    # ---- arrays ------------------------------------------------------------------------------
    def arr_int(self, d, par, lit_ok=True):
        s = self.src
        c = [e for e in self.ids if e.t == "aint" and (not par or not e.v)]
        k = s.weighted([(4, "id"), (3, "lit"), (4, "comp"), (1, "slice"), (1, "concat")])
        if k == "id" and c:
            return s.choice(c)
        if k == "slice":
            c2 = [e for e in c if len(e.ix) == 2]
            if c2:
                a = s.choice(c2)
                self.lab("slice")
                (l1, h1), (l2, h2) = a.ix
                if s.bool():
                    r = self.index(l1, h1, 0, True, True)
                    def f(env):
                        i = r.f(env)
                        return Arr([a.ix[1]], [a.f(env).get([i, j]) for j in range(l2, h2 + 1)])
                    return E("%s[%s,..]" % (a.s, r.s), P_ATOM, "aint", a.v, f, a.lo, a.hi, [a.ix[1]], m=a.m or r.m)
                r = self.index(l2, h2, 0, True, True)
                def f(env):
                    i = r.f(env)
                    return Arr([a.ix[0]], [a.f(env).get([j, i]) for j in range(l1, h1 + 1)])
                return E("%s[..,%s]" % (a.s, r.s), P_ATOM, "aint", a.v, f, a.lo, a.hi, [a.ix[0]], m=a.m or r.m)
            c1 = [e for e in c if len(e.ix) == 1 and e.ix[0][1] - e.ix[0][0] >= 1]
            if c1:
                self.lab("slice")
                a = s.choice(c1)
                lo, hi = a.ix[0]
                l = s.int(lo, hi)
                h = s.int(l, hi)
                form = s.draw(3)
                if form == 0:
                    txt = "%s[%d..%d]" % (a.s, l, h)
                elif form == 1:
                    h = hi
                    txt = "%s[%d..]" % (a.s, l)
                else:
                    l = lo
                    txt = "%s[..%d]" % (a.s, h)
                return E(txt, P_ATOM, "aint", a.v, lambda env: Arr([(l, h)], [a.f(env).get([j]) for j in range(l, h + 1)]),
                         a.lo, a.hi, [(l, h)], m=a.m)
        if k == "concat" and d > 0:
            a, b = self.arr_int(d - 1, par), self.arr_int(d - 1, par)
            if a and b and a.x is None and b.x is None and len(a.ix) == 1 and len(b.ix) == 1:
                n = alen(a.ix) + alen(b.ix)
                self.lab("concat")
                return E("(%s ++ %s)" % (par_if(a, 0), par_if(b, 0)), P_ATOM, "aint", a.v or b.v,
                         lambda env: both(a, b, env, lambda x, y: Arr([(1, n)], x.v + y.v)), min(a.lo, b.lo), max(a.hi, b.hi), [(1, n)], m=a.m or b.m)
        if k == "comp" and d > 0:
            e = self.comp(d, par, "int")
            if e:
                return e
        if not lit_ok:
            return s.choice(c) if c else None
        n = s.int(1, 3)
        if s.bool(1, 8):
            els = [self.int(d - 1, par) for _ in range(4)]
            self.lab("lit2d")
            return self.arrlit(els, "[|%s,%s|%s,%s|]" % tuple(e.s for e in els), [(1, 2), (1, 2)])
        els = [self.int(d - 1, par) for _ in range(n)]
        if s.bool(1, 6):
            b = s.int(-1, 3)
            self.lab("ixlit")
            return self.arrlit(els, "[" + ",".join("%d: %s" % (b + i, e.s) for i, e in enumerate(els)) + "]", [(b, b + n - 1)])
        if s.bool(1, 8):
            b = s.int(-1, 3)
            return self.arrlit(els, "array1d(%d..%d,[%s])" % (b, b + n - 1, ", ".join(e.s for e in els)), [(b, b + n - 1)])
        return self.arrlit(els, "[" + ", ".join(e.s for e in els) + "]", [(1, n)])

    def arrlit(self, els, s, ix):
        v = any(e.v for e in els)

        def f(env):
            r, u = [], False
            for e in els:
                try:
                    r.append(e.f(env))
                except Undef:
                    u = True
            if u:
                raise Undef()
            return Arr(ix, r)
        lo = min(e.lo for e in els) if els[0].t == "int" else None
        hi = max(e.hi for e in els) if els[0].t == "int" else None
        return E(s, P_ATOM, "a" + els[0].t, v, f, lo, hi, ix, m=any(e.m for e in els))

    def gen_range(self, par=True):
        """a small par range expression for a generator -> (text, lo, hi) """
        s = self.src
        lo = s.small(-1, 3)
        hi = lo + s.int(0, 2)
        arrs = [e for e in self.ids if e.t == "aint" and len(e.ix) == 1 and not e.m]
        if arrs and s.bool():
            a = s.choice(arrs)
            lo, hi = a.ix[0]
            if s.bool():
                return "index_set(%s)" % a.s, list(range(lo, hi + 1))
        if s.bool(1, 6):
            vals = sorted(s.sample(range(-1, 5), s.int(1, 3)))
            return setlit(vals), vals
        return "%d..%d" % (lo, hi), list(range(lo, hi + 1))

    def comp(self, d, par, t):
        """array comprehension over par generators"""
        s = self.src
        ngen = s.weighted([(4, 1), (2, 2)])
        nids = len(self.ids)
        gens, names = [], []
        cards = 1
        share = None
        for g in range(ngen):
            n = self.fresh("i")
            arr = [e for e in self.ids if e.t == "aint" and not e.v and not e.m and len(e.ix) == 1]
            if arr and s.bool(1, 6):
                a = s.choice(arr)
                dom = (lambda a: lambda env: list(a.f(env).v))(a)
                lo, hi, cnt = a.lo, a.hi, alen(a.ix)
                txt = a.s
                self.lab("gen:array")
            else:
                txt, vals = self.gen_range()
                dom = (lambda vals: lambda env: vals)(vals)
                lo, hi, cnt = min(vals), max(vals), len(vals)
                share = (n, txt, vals)
            cards *= cnt
            gens.append((n, txt, dom))
            self.ids.append(ident(n, "int", False, lo, hi, m=True))
        if s.bool(1, 8) and ngen == 1 and share and cards <= 2:
            # two names over one range
            n2 = self.fresh("i")
            gens = [(share[0] + ", " + n2, share[1], gens[0][2])]
            names = [[share[0], n2]]
            vals = share[2]
            self.ids.append(ident(n2, "int", False, min(vals), max(vals), m=True))
            cards *= cards
        else:
            names = [[g[0]] for g in gens]
        if cards > 9:
            del self.ids[nids:]
            return None
        where = None
        if s.bool(1, 4):
            where = self.bool(1, True)
        pos, self.pos = self.pos, False
        body = self.int(d - 1, par) if t == "int" else self.bool(d - 1, par)
        self.pos = pos
        del self.ids[nids:]
        outer = any(x.m for x in self.ids)  # conservative: an enclosing local may be mentioned
        m = outer

        def f(env):
            out, u = [], False
            for b in bindings(names, gens, env):
                if where is not None and not where.f(b):
                    continue
                try:
                    out.append(body.f(b))
                except Undef:
                    u = True
            if u:
                raise Undef()
            return Arr([(1, len(out))], out)
        gt = ", ".join("%s in %s" % (n, txt) for n, txt, _ in gens) + (" where " + where.s if where else "")
        e = E("[%s | %s]" % (body.s, gt), P_ATOM, "a" + t, body.v, f, body.lo, body.hi, [(1, cards)],
              x=("comp", body.s, gt, where is not None), m=m)
        if where is not None:
            self.lab("where")
        return e

    # ---- Boolean expressions -------------------------------------------------------------------
    CMP = [("=", lambda x, y: x == y), ("<", lambda x, y: x < y), ("<=", lambda x, y: x <= y), (">", lambda x, y: x > y),
           (">=", lambda x, y: x >= y), ("!=", lambda x, y: x != y), ("==", lambda x, y: x == y)]

    def b_cmp(self, d, par):
        pos, self.pos = self.pos, False
        a, b = self.int(d - 1, par), self.int(d - 1, par)
        self.pos = pos
        op, f = self.src.choice(self.CMP)
        if not a.v and not b.v and not par:
            a = self.pick("int", True) or a
        return bnode(self.inf(op, P_CMP, a, b), P_CMP, a.v or b.v, lambda env: both(a, b, env, f), m=a.m or b.m)

    def b_conn(self, d, par):
        s = self.src
        op, pr, f = s.choice([("/\\", P_AND, lambda x, y: x and y), ("\\/", P_OR, lambda x, y: x or y),
                              ("->", P_IMPL, lambda x, y: (not x) or y), ("<->", P_EQV, lambda x, y: x == y),
                              ("xor", P_OR, lambda x, y: x != y), ("<-", P_IMPL, lambda x, y: x or not y)])
        pos = self.pos and op == "/\\"
        a, b = self.bool(d - 1, par, pos), self.bool(d - 1, par, pos)
        return bnode(self.inf(op, pr, a, b), pr, a.v or b.v, lambda env: both(a, b, env, f), m=a.m or b.m,
                     x="free" if "free" in (a.x, b.x) else None)

    def b_not(self, d, par):
        a = self.bool(d - 1, par)
        return bnode("not " + par_if(a, P_ATOM), P_UN, a.v, lambda env: not a.f(env), m=a.m)

    def b_beq(self, d, par):
        a, b = self.bool(d - 1, par), self.bool(d - 1, par)
        op, f = self.src.choice(self.CMP)
        return bnode(self.inf(op, P_CMP, a, b), P_CMP, a.v or b.v, lambda env: both(a, b, env, f), m=a.m or b.m)

    def arr_bool(self, d, par):
        s = self.src
        c = [e for e in self.ids if e.t == "abool" and (not par or not e.v)]
        k = s.weighted([(3, "id"), (3, "lit"), (4, "comp")])
        if k == "id" and c:
            return s.choice(c)
        if k == "comp" and d > 0:
            e = self.comp(d, par, "bool")
            if e:
                return e
        els = [self.bool(d - 1, par) for _ in range(s.int(1, 3))]
        return self.arrlit(els, "[" + ", ".join(e.s for e in els) + "]", [(1, len(els))])

    def b_quant(self, d, par):
        fn = self.src.choice(["forall", "exists"])
        a = self.arr_bool(d - 1, par)
        pf = all if fn == "forall" else any
        s = "%s(%s)" % (fn, a.s)
        if isinstance(a.x, tuple) and a.x[0] == "comp" and self.src.bool():
            s = "%s(%s)(%s)" % (fn, a.x[2], a.x[1])
        return bnode(s, P_ATOM, a.v, lambda env: pf(a.f(env).v), m=a.m)

    def varwhere(self, kind, d):
        """forall / exists / sum (i in .., j in .. where conjunction of fixed and variable conditions) (body)"""
        s = self.src
        nid = len(self.ids)
        outer = any(x.m for x in self.ids)
        gens, names = [], []
        for k in range(s.weighted([(3, 1), (1, 2)])):
            n = self.fresh("i")
            lo = s.small(-1, 2)
            hi = lo + s.int(0, 2)
            if k and s.bool():
                gens.append(("%s in %s..%d" % (n, names[0], hi), n, lambda env, a=names[0], hi=hi: range(env[a], hi + 1)))
                lo = min(lo, hi)
            else:
                gens.append(("%s in %d..%d" % (n, lo, hi), n, lambda env, lo=lo, hi=hi: range(lo, hi + 1)))
            if k:
                lo = min(lo, hi)
            names.append(n)
            self.ids.append(ident(n, "int", False, min(lo, -1), max(hi, 4), m=True))
        conds = []
        for _ in range(s.weighted([(3, 1), (3, 2), (3, 3), (1, 4)])):
            k = s.draw(4)
            c = self.bool(1, True) if k == 0 else self.b_cmp(1, False) if k == 1 else self.bool(1)
            conds.append(c)
        body = (self.int(d - 1) if kind == "sum" else self.bool(d - 1))
        del self.ids[nid:]
        ts = ["(%s)" % c.s for c in conds]
        while len(ts) > 1:
            k = s.draw(len(ts) - 1)
            x = "%s /\\ %s" % (ts[k], ts[k + 1])
            ts[k:k + 2] = [x if len(ts) == 2 else "(%s)" % x]
        if not any(c.v for c in conds) and not body.v:
            return None
        self.lab("varwhere:%s:%d" % (kind, len(conds)))

        def elems(env):
            """(condition, value or None when undefined) of each binding"""
            envs = [dict(env)]
            for _, n, rng in gens:
                nxt = []
                for e in envs:
                    for v in rng(e):
                        e2 = dict(e)
                        e2[n] = v
                        nxt.append(e2)
                envs = nxt
            for e in envs:
                if not all([c.f(e) for c in conds if not c.v]):
                    continue
                w = all([c.f(e) for c in conds if c.v])
                try:
                    yield w, body.f(e)
                except Undef:
                    yield w, None
        tx = "%s(%s where %s)(%s)" % (kind, ", ".join(g[0] for g in gens), ts[0], body.s)
        return tx, elems, body, outer

    def b_varwhere(self, d, par):
        if par or d < 1:
            return None
        fn = self.src.choice(["forall", "exists"])
        r = self.varwhere(fn, d)
        if r is None:
            return None
        tx, elems, body, m = r
        if fn == "forall":
            return bnode(tx, P_ATOM, True, lambda env: all([v or not w for w, v in list(elems(env))]), m=m)
        return bnode(tx, P_ATOM, True, lambda env: any([v and w for w, v in list(elems(env))]), m=m)

    def i_varwhere(self, d, par):
        if par or d < 1:
            return None
        r = self.varwhere("sum", d)
        if r is None:
            return None
        tx, elems, body, m = r

        def f(env):
            t = 0
            u = False
            for w, v in list(elems(env)):
                if w and v is None:
                    u = True
                elif w:
                    t += v
            if u:
                raise Undef()
            return t
        return E(tx, P_ATOM, "int", True, f, min(0, 9 * body.lo), max(0, 9 * body.hi), m=m)

    def b_xorall(self, d, par):
        a = self.arr_bool(d - 1, par)
        fn = self.src.choice(["xorall", "iffall"])
        # documentation: iffall is "true xor (xor of the elements)"
        f = (lambda env: sum(a.f(env).v) % 2 == 1) if fn == "xorall" else (lambda env: sum(a.f(env).v) % 2 == 0)
        return bnode("%s(%s)" % (fn, a.s), P_ATOM, a.v, f, m=a.m)

    def b_clause(self, d, par):
        a, b = self.arr_bool(d - 1, par), self.arr_bool(d - 1, par)
        return bnode("clause(%s, %s)" % (a.s, b.s), P_ATOM, a.v or b.v,
                     lambda env: both(a, b, env, lambda x, y: any(x.v) or not all(y.v)), m=a.m or b.m)

    def b_in(self, d, par):
        s = self.src
        a = self.int(d - 1, par)
        if s.bool():
            lo = s.small(-2, 3)
            hi = lo + s.int(0, 3)
            vals, txt = list(range(lo, hi + 1)), "%d..%d" % (lo, hi)
        else:
            vals = sorted(s.sample(range(-3, 6), s.int(1, 3)))
            txt = setlit(vals)
        return bnode("%s in %s" % (par_if(a, P_IN - 1 if self.mini else P_ATOM), txt), P_IN, a.v, lambda env: a.f(env) in vals, m=a.m)

    def b_ite(self, d, par):
        a, b = self.bool(d - 1, par), self.bool(d - 1, par)
        c = self.bool(d - 1, par or self.src.bool(1, 8))
        if self.src.bool(1, 5):
            # missing else: true
            b = lit_bool(True)
            s = "if %s then %s endif" % (c.s, a.s)
        else:
            s = "if %s then %s else %s endif" % (c.s, a.s, b.s)
        return bnode(s, P_ATOM, c.v or a.v or b.v, ite_f([(c, a)], b), m=c.m or a.m or b.m)

    def b_access(self, d, par):
        a = self.arr_bool(d - 1, par)
        if isinstance(a.x, tuple):
            return None
        e = self.access(a, d, par)
        return bnode(e.s, e.p, e.v, e.f, m=e.m)

    def b_arreq(self, d, par):
        a = self.arr_int(d - 1, par)
        if a is None or isinstance(a.x, tuple) or len(a.ix) != 1:
            return None
        els = [self.int(d - 1, par) for _ in range(alen(a.ix))]
        lo, hi = a.ix[0]
        if lo == 1:
            b = self.arrlit(els, "[" + ", ".join(e.s for e in els) + "]", [(1, len(els))])
        else:
            b = self.arrlit(els, "array1d(%d..%d, [%s])" % (lo, hi, ", ".join(e.s for e in els)), a.ix)
        op = self.src.choice(["=", "!="])
        f = (lambda x, y: x.v == y.v) if op == "=" else (lambda x, y: x.v != y.v)
        return bnode("%s %s %s" % (par_if(a, 0), op, b.s), P_CMP, a.v or b.v, lambda env: both(a, b, env, f), m=a.m or b.m)

    # ---- let ---------------------------------------------------------------------------------
    def i_let(self, d, par):
        return self.let(d, par, "int")

    def b_let(self, d, par):
        return self.let(d, par, "bool")

    def let(self, d, par, t):
        s = self.src
        nids = len(self.ids)
        binds, cons, txt = [], [], []
        free = []
        pos = self.pos and t == "bool" and not par and not self.in_fn and not any(e.m for e in self.ids)
        self.pos = False
        outer_m = any(e.m for e in self.ids)
        for _ in range(s.int(1, 2)):
            n = self.fresh("l")
            if pos and s.bool(1, 3) and not free:
                lo = s.small(-1, 2)
                hi = lo + s.int(1, 2)
                free.append((n, list(range(lo, hi + 1))))
                txt.append("var %d..%d: %s" % (lo, hi, n))
                self.ids.append(ident(n, "int", True, lo, hi, m=True))
                self.lab("let:free")
            elif s.bool(2, 3):
                e = self.int(d - 1, par)
                txt.append("%s: %s = %s" % (s.choice(["var int", "any"]) if e.v else "int", n, e.s))
                binds.append((n, e))
                self.ids.append(ident(n, "int", e.v, e.lo, e.hi, m=True))
            else:
                e = self.bool(d - 1, par)
                txt.append("%s: %s = %s" % ("var bool" if e.v else "bool", n, e.s))
                binds.append((n, e))
                self.ids.append(ident(n, "bool", e.v, m=True))
        if s.bool(1, 3) and not par:
            c = self.bool(d - 1, par)
            if c.v:
                txt.append("constraint " + c.s)
                cons.append(c)
                self.lab("let:constraint")
        body = self.int(d - 1, par) if t == "int" else self.bool(d - 1, par)
        del self.ids[nids:]
        v = body.v or bool(cons) or bool(free) or any(e.v for _, e in binds)
        order = s.bool(1, 6)
        if not v and not par and False:
            return None

        def f1(env):
            env = dict(env)
            u = False
            for n, e in binds:
                env[n] = e.f(env)
            for c in cons:
                if not c.f(env):
                    raise Undef()
            return body.f(env)

        def f(env):
            if not free:
                return f1(env)
            n, dom = free[0]
            for val in dom:
                e2 = dict(env)
                e2[n] = val
                try:
                    if f1(e2):
                        return True
                except Undef:
                    pass
            return False
        text = "let { %s } in %s" % ("; ".join(txt) if s.bool() else ", ".join(txt), "(" + body.s + ")" if body.p > 0 else body.s)
        text = "(" + text + ")"
        if body.t == "int" and not body.v and v:
            # par body with a var constraint: the let expression is typed by its body
            return None
        if t == "bool":
            if not body.v and v:
                return None
            return bnode(text, P_ATOM, v, f, m=outer_m, x="free" if free else None)
        return E(text, P_ATOM, "int", v, f, body.lo, body.hi, m=outer_m)

    # ---- functions -----------------------------------------------------------------------------
    def decl_func(self):
        s = self.src
        n = self.fresh("f")
        rt = s.choice(["int", "bool"])
        ps = []
        save = (self.ids, self.pool, self.in_fn, self.nodes, self.pos)
        self.pos = False
        self.in_fn = 1
        glob = [e for e in self.ids if s.bool(1, 3) and not e.m]
        self.ids = list(glob)
        self.pool = []
        for _ in range(s.int(1, 3)):
            p = self.fresh("a")
            pt = s.weighted([(4, "int"), (2, "bool"), (1, "aint")])
            pv = s.bool(3, 4)
            if pt == "int":
                lo, hi = -6, 8
                self.ids.append(ident(p, "int", pv, lo, hi, m=True))
                ps.append((p, pt, pv, None))
            elif pt == "bool":
                self.ids.append(ident(p, "bool", pv, m=True))
                ps.append((p, pt, pv, None))
            else:
                ix = [(1, 2)]
                self.ids.append(ident(p, "aint", pv, -6, 8, ix, m=True))
                ps.append((p, pt, pv, ix))
        body = self.int(2) if rt == "int" else self.bool(2)
        self.ids, self.pool, self.in_fn, self.nodes, self.pos = save
        tt = {"int": "int", "bool": "bool", "aint": "array[1..2] of %sint"}

        def ptxt(p, pt, pv, ix):
            if pt == "aint":
                return "array[1..2] of %sint: %s" % ("var " if pv else "", p)
            return "%s%s: %s" % ("var " if pv else "", pt, p)
        args = ", ".join(ptxt(*p) for p in ps)
        rv = body.v or (self.fn_var and any(pv for _, _, pv, _ in ps))
        if rt == "bool" and rv and s.bool():
            self.items.append("predicate %s(%s) = %s;" % (n, args, body.s))
        elif rt == "bool" and not rv and s.bool():
            self.items.append("test %s(%s) = %s;" % (n, args, body.s))
        else:
            self.items.append("function %s%s: %s(%s) = %s;" % ("var " if rv else "", rt, n, args, body.s))
        self.funcs.append((n, rt, ps, rv, body))
        self.lab("func:" + rt)

    def call(self, d, par, rt):
        s = self.src
        c = [f for f in self.funcs if f[1] == rt]
        if not c:
            return None
        n, _, ps, rv, body = s.choice(c)
        if par and rv:
            return None
        args = []
        for p, pt, pv, ix in ps:
            if pt == "int":
                for _ in range(4):
                    a = self.int(d - 1, par or not pv)
                    if -6 <= a.lo and a.hi <= 8:
                        break
                else:
                    a = lit_int(s.int(0, 3))
            elif pt == "bool":
                a = self.bool(d - 1, par or not pv)
            else:
                els = []
                for _ in range(2):
                    x = self.leaf_int(par or not pv)
                    els.append(x if -6 <= x.lo and x.hi <= 8 else lit_int(1))
                a = self.arrlit(els, "[%s,%s]" % (els[0].s, els[1].s), [(1, 2)])
            args.append(a)

        def f(env):
            e2 = dict(env)
            vals = []
            u = False
            for a in args:
                try:
                    vals.append(a.f(env))
                except Undef:
                    u = True
                    vals.append(None)
            if u:
                raise Undef()
            for (p, _, _, _), val in zip(ps, vals):
                e2[p] = val
            return body.f(e2)
        txt = "%s(%s)" % (n, ", ".join(a.s for a in args))
        m = any(a.m for a in args)
        v = rv
        if rt == "int":
            return E(txt, P_ATOM, "int", v, f, body.lo, body.hi, m=m)
        return bnode(txt, P_ATOM, v, f, m=m)

    def i_call(self, d, par):
        return self.call(d, par, "int")

    def b_call(self, d, par):
        return self.call(d, par, "bool")

    # ---- whole models ----------------------------------------------------------------------------
    def decls(self, maxassign=220):
        s = self.src
        for _ in range(s.int(0, 2)):
            self.decl_par()
        nv = s.int(2, 4)
        for i in range(nv):
            k = (len(self.items), len(self.vars), len(self.ids), len(self.cons))
            self.decl_var()
            if self.nassign() > maxassign:
                del self.items[k[0]:], self.vars[k[1]:], self.ids[k[2]:], self.cons[k[3]:]
        if not self.vars:
            n = self.fresh("x")
            self.items.append("var 0..3: %s;" % n)
            self.vars.append((n, [0, 1, 2, 3]))
            self.ids.append(ident(n, "int", True, 0, 3))
        for _ in range(s.weighted([(4, 0), (3, 1), (2, 2)])):
            self.decl_func()
        for _ in range(s.weighted([(3, 0), (2, 1)])):
            k = (len(self.items), len(self.derived), len(self.ids), len(self.cons))
            self.decl_derived()
            if len(self.derived) > k[1] and not self.solutions():
                del self.items[k[0]:], self.derived[k[1]:], self.ids[k[2]:], self.cons[k[3]:]

    def constraint(self, d):
        """add a constraint; candidates that keep every or no assignment are usually redrawn"""
        if self.cur is None:
            self.cur = self.solutions()
        e = None
        for k in range(6):
            n0 = len(self.items), self.nodes, len(self.cons)
            e = self.bool(d, pos=True)
            if not e.v and k < 5:
                continue
            keep = [env for env in self.cur if e.f(env)]
            if k < 5 and (not keep or len(keep) == len(self.cur)) and not self.src.bool(1, 8):
                continue
            break
        self.cur = [env for env in self.cur if e.f(env)]
        self.add(e)
        return e

    def add(self, e):
        self.items.append("constraint %s;" % e.s)
        self.cons.append((e.s, e))

    # ---- arithmetic over wider domains --------------------------------------------------------------
    def arith(self, maxassign=420):
        """a few variables with domains around zero and variables defined by one arithmetic operation each:
        exercises the bounds, signs and rounding of every operation on two variables"""
        s = self.src
        self.lab("arith")
        nv = s.weighted([(3, 2), (1, 3), (1, 1)])
        for _ in range(nv):
            if s.bool(1, 3):
                vals = sorted(set(s.int(-9, 9) for _ in range(s.int(2, 5))))
                txt = setlit(vals)
            else:
                lo = s.int(-9, 6)
                hi = min(9, lo + s.int(1, 13 if nv < 3 else 5))
                vals = list(range(lo, hi + 1))
                txt = "%d..%d" % (lo, hi)
            if self.nassign() * len(vals) > maxassign:
                vals = vals[:3]
                txt = setlit(vals)
            n = self.fresh("x")
            self.items.append("var %s: %s;" % (txt, n))
            self.vars.append((n, vals))
            self.ids.append(ident(n, "int", True, vals[0], vals[-1]))
        envs = self.solutions()
        for _ in range(s.int(1, 3)):
            def leaf():
                if s.bool(1, 6):
                    return lit_int(s.choice([2, 3, -2, -3, 5, 1, -1, 0, 7]))
                return self.pick("int", True)
            a, b = leaf(), leaf()
            op = s.choice(["+", "-", "*", "*", "div", "div", "mod", "mod", "pow", "pow", "abs", "min", "max", "sq", "neg"])
            if "powvar" in self.feats and s.bool(1, 6):
                small = [e for e in self.ids if e.t == "int" and e.v and -4 <= e.lo and e.hi <= 4]
                if small:
                    op, b = "pow", s.choice(small)
            if not (a.v or b.v) or (op in ("div", "mod") and not b.v and b.lo == 0):
                continue
            if op == "pow":
                if not (-9 <= a.lo and a.hi <= 9):
                    continue
                if not b.v:
                    b = lit_int(s.choice([2, 3, 4, 0, 1, -1, -2]))
                else:
                    # needs int_pow, which no solver available here has: only with the library that decomposes it
                    if "powvar" not in self.feats or not (-4 <= b.lo and b.hi <= 4):
                        continue
                    self.labels.add("powvar")

            def power(x, y):
                if y < 0:
                    if x == 0:
                        undef(True)
                    return 1 if x == 1 else 0 if abs(x) != 1 else (1 if y % 2 == 0 else -1)
                return x ** y

            def quot(x, y):
                if y == 0:
                    undef(True)
                return tdiv(x, y)

            def rem(x, y):
                if y == 0:
                    undef(True)
                return tmod(x, y)
            F = {"+": lambda x, y: x + y, "-": lambda x, y: x - y, "*": lambda x, y: x * y, "div": quot, "mod": rem,
                 "pow": power, "abs": lambda x, y: abs(x), "min": min, "max": max, "sq": lambda x, y: x * x, "neg": lambda x, y: -x}[op]
            one = op in ("abs", "sq", "neg")
            if one:
                b = a
            if not a.v and one:
                continue
            f = lambda env, a=a, b=b, F=F: both(a, b, env, F)
            tx = {"abs": "abs(%s)" % a.s, "neg": "-%s" % par_if(a, P_ATOM), "sq": "%s * %s" % (par_if(a, P_ATOM), par_if(a, P_ATOM)),
                  "min": "min(%s, %s)" % (a.s, b.s), "max": "max(%s, %s)" % (a.s, b.s),
                  "pow": ("pow(%s, %s)" % (a.s, b.s)) if s.bool() else "%s ^ %s" % (par_if(a, P_ATOM), par_if(b, P_ATOM))}.get(
                op) or infix(op, 0, a, b)
            vs = []
            for env in envs:
                try:
                    vs.append(f(env))
                except Undef:
                    pass
            if not vs or max(abs(v) for v in vs) > 9000:
                continue
            e = E(tx, P_ATOM, "int", True, f, min(vs), max(vs))
            n = self.fresh("d")
            form = s.draw(4)
            if form == 0 and len(set(vs)) > 1:
                lo, hi = min(vs) + s.draw(3), max(vs) - s.draw(3)
                if lo > hi:
                    lo, hi = min(vs), max(vs)
                self.items.append("var %d..%d: %s = %s;" % (lo, hi, n, tx))
                self.cons.append(("", bnode("", 0, True, lambda env, n=n, lo=lo, hi=hi: lo <= env[n] <= hi)))
            else:
                self.items.append("var int: %s = %s;" % (n, tx))
            self.derived.append((n, e))
            self.ids.append(ident(n, "int", True, e.lo, e.hi))
            self.lab("arith:" + op)
            envs = self.solutions()
            if not envs:
                break
        for _ in range(s.weighted([(2, 0), (3, 1), (1, 2)])):
            d = [e for e in self.ids if e.t == "int" and e.v]
            if not envs:
                break
            e = s.choice(d)
            k = s.choice(envs)[e.s] if s.bool(3, 4) else s.choice([e.lo, e.hi])
            op = s.choice(["=", "!=", "<=", ">=", "<", ">"])
            g = {"<=": lambda x, k: x <= k, ">=": lambda x, k: x >= k, "=": lambda x, k: x == k, "<": lambda x, k: x < k,
                 ">": lambda x, k: x > k, "!=": lambda x, k: x != k}[op]
            self.add(bnode("%s %s %d" % (e.s, op, k), P_CMP, True, lambda env, e=e, k=k, g=g: g(e.f(env), k)))
            envs = self.solutions()
        self.cur = None

    def model(self, maxassign=220, ncons=(1, 3)):
        s = self.src
        self.cur = None
        if s.bool(1, 7):
            self.arith()
            if s.bool(1, 3):
                self.nodes = 0
                self.constraint(2)
            return
        self.decls(maxassign)
        for _ in range(s.int(*ncons)):
            self.nodes = 0
            k = s.weighted([(5, 0), (2, 1), (1, 2)])
            if k == 0:
                self.constraint(s.int(1, self.MAXD))
            elif k == 1:
                self.linear()
            else:
                self.clause()
        for _ in range(s.weighted([(3, 0), (2, 1), (2, 2), (1, 3)])):
            self.late()

    # -- simple constraints that feed presolve (fixing, aliasing, tightening after the fact) -----------
    def atoms(self, t):
        """variables and array elements of type t"""
        out = []
        for e in self.ids:
            if not e.v:
                continue
            if e.t == t:
                out.append(e)
            elif e.t == "a" + t and alen(e.ix) <= 6:
                for idx in prod([range(lo, hi + 1) for lo, hi in e.ix]):
                    out.append(E("%s[%s]" % (e.s, ",".join(map(str, idx))), P_ATOM, t, True,
                                 lambda env, idx=idx, e=e: e.f(env).get(idx), e.lo, e.hi))
        return out

    def accept(self, e):
        """add e unless it leaves no solution (mostly)"""
        if self.cur is None:
            self.cur = self.solutions()
        keep = []
        for env in self.cur:
            try:
                if e.f(env):
                    keep.append(env)
            except Undef:
                pass
        if not keep and not self.src.bool(1, 8):
            return False
        self.cur = keep
        self.add(e)
        return True

    def some(self):
        if self.cur is None:
            self.cur = self.solutions()
        return self.src.choice(self.cur) if self.cur else None

    def leftover(self):
        """linear constraints of which presolve leaves one variable, because the others are fixed by other constraints only later"""
        s = self.src
        self.cur = None
        xs, bs = [], []
        for i in range(s.int(2, 3)):
            lo = s.int(-5, 2)
            hi = lo + (s.int(4, 9) if i == 0 else s.int(1, 4))
            n = self.fresh("x")
            self.items.append("var %d..%d: %s;" % (lo, hi, n))
            self.vars.append((n, list(range(lo, hi + 1))))
            xs.append(ident(n, "int", True, lo, hi))
        for i in range(s.int(1, 2)):
            n = self.fresh("b")
            self.items.append("var bool: %s;" % n)
            self.vars.append((n, [False, True]))
            bs.append(ident(n, "bool", True))
        self.ids += xs + bs
        env = {n: s.choice(vals) for n, vals in self.vars}
        out = []

        def lit(b):
            pos = env[b.s]
            return bnode(b.s if pos else "not " + b.s, P_UN, True, lambda e: e[b.s] == pos)

        def eq(l, op, k):
            F = {"<=": lambda a: a <= k, ">=": lambda a: a >= k, "=": lambda a: a == k, "<": lambda a: a < k, ">": lambda a: a > k, "!=": lambda a: a != k}[op]
            return bnode("%s %s %d" % (l.s, op, k), P_CMP, True, lambda e: F(l.f(e)))

        def imp(a, b):
            return bnode("%s -> %s" % (par_if(a, P_CMP), par_if(b, P_CMP)), P_IMPL, True, lambda e: (not a.f(e)) or b.f(e))

        def iff(a, b):
            return bnode("%s <-> %s" % (par_if(a, P_CMP), par_if(b, P_CMP)), P_EQV, True, lambda e: a.f(e) == b.f(e))
        for _ in range(s.int(1, 2)):
            terms = [(s.choice([2, -2, 3, -3, 4, -5, 1, -1]), x) for x in xs]
            if s.bool(1, 3):
                b = s.choice(bs)
                terms.append((s.choice([1, -1, 2, -3]), E("bool2int(%s)" % b.s, P_ATOM, "int", True, lambda e, b=b: int(e[b.s]), 0, 1)))
            for i in range(len(terms) - 1, 0, -1):
                j = i - s.draw(i + 1)
                terms[i], terms[j] = terms[j], terms[i]
            txt = ""
            for c, x in terms:
                a = x.s if abs(c) == 1 else "%d*%s" % (abs(c), x.s)
                txt += ("-" if c < 0 else "") + a if not txt else (" - " if c < 0 else " + ") + a
            l = E(txt, P_ADD, "int", True, lambda e, terms=terms: sum(c * x.f(e) for c, x in terms), -99, 99)
            e = eq(l, s.choice(["<=", "<=", ">=", ">=", "<", ">", "=", "!="]), l.f(env) + s.int(-4, 4))
            w = s.draw(6)
            if w == 4:
                e = imp(lit(s.choice(bs)), e)
            elif w == 5:
                e = iff(lit(s.choice(bs)), e)
            out.append(e)
        for x in xs[1:]:
            v = env[x.s]
            w = s.weighted([(3, 0), (2, 1), (1, 2), (1, 3), (1, 4), (1, 5)])
            b = lit(s.choice(bs))
            if w in (0, 1):
                out += [imp(b, eq(x, "=", v)) if w == 0 else iff(b, eq(x, "=", v)), b]
            elif w == 2:
                out.append(eq(x, "=", v))
            elif w == 3:
                out += [eq(x, "<=", v), eq(x, ">=", v)]
            elif w == 4:
                out += [imp(b, eq(x, "<=", v)), eq(x, ">=", v), b]
        for i in range(len(out) - 1, 0, -1):
            j = i - s.draw(i + 1)
            out[i], out[j] = out[j], out[i]
        seen = set()
        for e in out:
            if e.s not in seen:
                seen.add(e.s)
                self.add(e)
        self.lab("leftover")

    def linear(self):
        s = self.src
        at = [e for e in self.atoms("int") if -40 <= e.lo and e.hi <= 40]
        bs = self.atoms("bool")
        if not at:
            return
        n = s.int(1, 4)
        terms = []
        for _ in range(n):
            c = s.choice([1, -1, 2, -2, 3, -3, 4, -5])
            if bs and s.bool(1, 6):
                b = s.choice(bs)
                terms.append((c, E("bool2int(%s)" % b.s, P_ATOM, "int", True, lambda env, b=b: int(b.f(env)), 0, 1)))
            else:
                terms.append((c, s.choice(at)))
        txt = ""
        for c, e in terms:
            a = e.s if abs(c) == 1 else "%d*%s" % (abs(c), e.s)
            txt += ("-" if c < 0 else "") + a if not txt else (" - " if c < 0 else " + ") + a

        def val(env):
            return sum(c * e.f(env) for c, e in terms)
        env = self.some()
        try:
            k = val(env) if env is not None else 0
        except Undef:
            return
        k += s.weighted([(4, 0), (1, 1), (1, -1), (1, 2), (1, -3)])
        op = s.choice(["<=", ">=", "=", "<", ">", "!="])
        f = {"<=": lambda x: x <= k, ">=": lambda x: x >= k, "=": lambda x: x == k, "<": lambda x: x < k, ">": lambda x: x > k, "!=": lambda x: x != k}[op]
        e = bnode("%s %s %d" % (txt, op, k), P_CMP, True, lambda env: f(val(env)))
        w = s.draw(4)
        if w == 3 and bs:
            b = s.choice(bs)
            e = bnode("%s -> %s" % (b.s, e.s), 9, True, lambda env, e=e: bool((not b.f(env)) | e.f(env)))
        elif w == 2 and bs:
            b = s.choice(bs)
            e = bnode("%s <-> %s" % (b.s, e.s), 9, True, lambda env, e=e: b.f(env) == e.f(env))
        self.lab("linear")
        self.accept(e)

    def clause(self):
        s = self.src
        bs = self.atoms("bool")
        at = self.atoms("int")
        lits = []
        for _ in range(s.int(2, 4)):
            if bs and (not at or s.bool(3, 4)):
                b = s.choice(bs)
                lits.append(bnode("not " + b.s, 3, True, lambda env, b=b: not b.f(env)) if s.bool() else b)
            elif at:
                a = s.choice(at)
                k = s.int(a.lo, a.hi) if a.hi - a.lo < 50 else 0
                lits.append(bnode("%s <= %d" % (a.s, k), P_CMP, True, lambda env, a=a, k=k: a.f(env) <= k))
        if not lits:
            return
        self.lab("clause")
        self.accept(bnode(" \\/ ".join(l.s for l in lits), 9, True, lambda env: any([l.f(env) for l in lits])))

    def late(self):
        s = self.src
        bs, at = self.atoms("bool"), self.atoms("int")
        env = self.some()
        if env is None:
            return
        if bs and (not at or s.bool()):
            b = s.choice(bs)
            try:
                v = b.f(env)
            except Undef:
                return
            k = s.weighted([(3, "fix"), (2, "alias"), (1, "imp")])
            if k == "fix" or len(bs) == 1:
                t = (b.s if s.bool() else b.s + " = true") if v else s.choice(["not " + b.s, b.s + " = false"])
                e = bnode(t, 9, True, lambda env: b.f(env) == v)
            else:
                c = s.choice([x for x in bs if x.s != b.s])
                if k == "imp":
                    e = bnode("%s -> %s" % (b.s, c.s), 9, True, lambda env: bool((not b.f(env)) | c.f(env)))
                elif c.f(env) == v:
                    e = bnode("%s = %s" % (b.s, c.s), 9, True, lambda env: b.f(env) == c.f(env))
                else:
                    e = bnode("%s != %s" % (b.s, c.s), 9, True, lambda env: b.f(env) != c.f(env))
        elif at:
            a = s.choice(at)
            try:
                v = a.f(env)
            except Undef:
                return
            k = s.weighted([(4, "="), (1, "<="), (1, ">="), (1, "!="), (1, "in"), (2, "alias")])
            if k == "alias" and len(at) > 1:
                c = s.choice([x for x in at if x.s != a.s])
                d = v - c.f(env)
                t = c.s if d == 0 else "%s %s %d" % (c.s, "+" if d > 0 else "-", abs(d))
                e = bnode("%s = %s" % (a.s, t), P_CMP, True, lambda env: a.f(env) == c.f(env) + d)
            elif k == "in":
                S = sorted({v, s.int(-1, 5), s.int(-1, 5)})
                e = bnode("%s in {%s}" % (a.s, ",".join(map(str, S))), P_CMP, True, lambda env: a.f(env) in S)
            else:
                if k == "alias":
                    k = "="
                f = {"=": lambda x: x == v, "<=": lambda x: x <= v, ">=": lambda x: x >= v, "!=": lambda x: x != v}[k]
                e = bnode("%s %s %d" % (a.s, k, v), P_CMP, True, lambda env: f(a.f(env)))
        else:
            return
        self.lab("late")
        self.accept(e)

    # -- enumeration -------------------------------------------------------------------------------
    def solutions(self):
        """all solutions as list of environments"""
        sols = []
        names = [n for n, _ in self.vars]
        for vals in prod([d for _, d in self.vars]):
            env = dict(self.env)
            env.update(zip(names, vals))
            good = True
            try:
                for n, e in self.derived:
                    env[n] = e.f(env)
            except Undef:
                good = False
            if good:
                for _, c in self.cons:
                    try:
                        # evaluate every constraint: a fixed undefinedness in any of them leaves the domain
                        if not c.f(env):
                            good = False
                    except Undef:
                        good = False
            if good:
                sols.append(env)
        return sols

    def outnames(self):
        return [n for n, _ in self.vars] + [n for n, _ in self.derived]

    def out_item(self):
        return 'output ["%s\\n"];' % " ; ".join("\\(%s)" % n for n in self.outnames())

    def search(self):
        """a random search annotation over the declared variables (it never changes the set of solutions)"""
        s = self.src
        pools = {"int": [], "bool": []}
        for n, vals in self.vars:
            v = vals[0] if vals else None
            arr = isinstance(v, Arr)
            if arr and (not v.v or len(v.ix) > 1):
                continue
            v = v.v[0] if arr else v
            if isinstance(v, bool):
                pools["bool"].append((n, arr))
            elif isinstance(v, int):
                pools["int"].append((n, arr))
        for n, e in self.derived:
            if e.t in pools:
                pools[e.t].append((n, False))

        def one():
            t = s.choice([k for k in pools if pools[k]])
            ps = [p for p in s.shuffle(pools[t]) if s.bool(2, 3)] or pools[t][:1]
            xs = " ++ ".join(n if arr else "[%s]" % n for n, arr in ps)
            if s.bool(1, 6):
                xs += " ++ [%s]" % ("true" if t == "bool" else "1")
            var = s.choice(["input_order", "first_fail", "anti_first_fail", "smallest", "largest", "occurrence", "most_constrained", "max_regret", "dom_w_deg"])
            val = s.choice(["indomain", "indomain_min", "indomain_max", "indomain_median", "indomain_middle", "indomain_split", "indomain_reverse_split", "indomain_interval", "indomain_random"])
            return "%s_search(%s, %s, %s%s)" % (t, xs, var, val, s.choice(["", ", complete"]))
        if not pools["int"] and not pools["bool"]:
            return "solve satisfy;"
        k = s.weighted([(3, 1), (1, 2), (1, 3)])
        self.lab("search-annotation")
        if k == 1:
            return "solve :: %s satisfy;" % one()
        return "solve :: seq_search([%s]) satisfy;" % ", ".join(one() for _ in range(k))

    def text(self, solve="solve satisfy;"):
        return "\n".join(self.arrange(self.items + [solve, self.out_item()])) + "\n"

    def arrange(self, items):
        """the items of a model may come in any order"""
        if any(i.startswith("include") for i in items):
            return items
        k = self.src.weighted([(11, 0), (1, 1), (1, 2), (3, 3)])
        if k == 0:
            return items
        self.lab("item-order")
        if k == 1:
            return items[::-1]
        if k == 2:  # constraints first
            return sorted(items, key=lambda i: not i.startswith("constraint"))
        items = list(items)
        for i in range(len(items) - 1, 0, -1):
            j = i - self.src.draw(i + 1)
            items[i], items[j] = items[j], items[i]
        return items

    def canon(self, env):
        return " ; ".join(show(env[n]) for n in self.outnames())


def alen(ix):
    n = 1
    for lo, hi in ix:
        n *= hi - lo + 1
    return n


def prod(lists):
    if not lists:
        yield ()
        return
    for x in lists[0]:
        for r in prod(lists[1:]):
            yield (x,) + r


def prodl(l):
    r = 1
    for x in l:
        r *= x
    return r


def both(a, b, env, f):
    """strict binary application: both operands are evaluated, a fixed undefinedness in either is noticed"""
    u = False
    x = y = None
    try:
        x = a.f(env)
    except Undef:
        u = True
    try:
        y = b.f(env)
    except Undef:
        u = True
    if u:
        raise Undef()
    return f(x, y)


def ite_f(branches, els):
    allv = any(c.v for c, _ in branches)

    def f(env):
        if not allv:
            for c, e in branches:
                if c.f(env):
                    return e.f(env)
            return els.f(env)
        # var condition: every branch is compiled; undefinedness only matters in the selected one
        res, done, undefd = None, False, False
        for c, e in branches:
            cv = c.f(env)
            r, u = None, False
            try:
                r = e.f(env)
            except Undef:
                u = True
            if cv and not done:
                done, res, undefd = True, r, u
        r, u = None, False
        try:
            r = els.f(env)
        except Undef:
            u = True
        if not done:
            res, undefd = r, u
        if undefd:
            raise Undef()
        return res
    return f


def bindings(names, gens, env):
    flat = []
    for ns, g in zip(names, gens):
        for n in ns:
            flat.append((n, g[2]))

    def go(i, env):
        if i == len(flat):
            yield env
            return
        n, dom = flat[i]
        for v in dom(env):
            e2 = dict(env)
            e2[n] = v
            yield from go(i + 1, e2)
    return go(0, env)


def show(v):
    if v is True:
        return "true"
    if v is False:
        return "false"
    if v is None:
        return "<>"
    if isinstance(v, Arr):
        return "[" + ", ".join(show(x) for x in v.v) + "]"
    if isinstance(v, (set, frozenset)):
        return show_set(v)
    if isinstance(v, tuple):
        return "(" + ", ".join(show(x) for x in v) + ("," if len(v) == 1 else "") + ")"
    return str(v)


def show_set(v):
    l = sorted(v)
    if not l:
        return "{}"
    if len(l) > 1 and l[-1] - l[0] == len(l) - 1:
        return "%d..%d" % (l[0], l[-1])
    return "{" + ",".join(map(str, l)) + "}"
