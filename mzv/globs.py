"""Generators for the library of global constraints.

Each g_* method draws the arguments of one constraint (variables, parameters, repeated variables,
expressions) and returns a Boolean or integer expression with its meaning taken from the documented
definition of the constraint."""
from itertools import permutations
from .core import SkipCase
from .lang import Gen, E, Arr, Undef, bnode, ident, lit_int, lit_bool, prod, setlit, show, P_ATOM, P_CMP, both, alen


def vals(els, env):
    """strict evaluation of a list of expressions"""
    out, u = [], False
    for e in els:
        try:
            out.append(e.f(env))
        except Undef:
            u = True
    if u:
        raise Undef()
    return out


class GG(Gen):
    MAXSOL = 400
    GROUP = []          # (weight, method name)
    FUNCS = []

    def __init__(self, src):
        super().__init__(src)
        self.includes = set()
        self.rootonly = False       # the constraint has no reified version
        self.gnames = []

    # ---- variables ---------------------------------------------------------------------------
    def declare(self, n, t, dom, size=None, base=1, dims=None):
        """declare scalar or array variables; dom = list of values (None: absent)"""
        opt = None in dom
        dt = ("opt " if opt else "") + ("bool" if t == "bool" else dom_text([v for v in dom if v is not None]))
        if opt:
            t = "o" + t
        if size is None:
            self.items.append("var %s: %s;" % (dt, n))
            self.vars.append((n, list(dom)))
            e = ident(n, t, True, *(bnds(dom) if t[-3:] == "int" else (None, None)))
            self.ids.append(e)
            self.scal.append(e)
            return
        ix = dims or [(base, base + size - 1)]
        self.items.append("array[%s] of var %s: %s;" % (",".join("%d..%d" % p for p in ix), dt, n))
        self.vars.append((n, [Arr(ix, list(c)) for c in prod([list(dom)] * alen(ix))]))
        e = ident(n, "a" + t, True, *(bnds(dom) if t[-3:] == "int" else (None, None)), ix=ix)
        self.ids.append(e)
        self.arrs.append(e)

    def setup(self):
        s = self.src
        self.scal, self.arrs = [], []
        lay = s.weighted([(5, "one"), (3, "two"), (2, "bools"), (2, "scal")])
        base = s.weighted([(5, 1), (1, 0), (1, -1), (1, 3)])
        if lay == "one":
            n = s.int(2, 4)
            w = {2: 5, 3: 5, 4: 4}[n]
            self.declare("x", "int", self.rdom(w), n, base)
            if s.bool():
                self.declare("y", "int", self.rdom(3 if n < 4 else 2))
            if s.bool(1, 4):
                self.declare("b", "bool", [False, True])
        elif lay == "two":
            n, k = s.choice([(2, 2), (3, 2), (2, 3), (3, 3)])
            w = 2 if n + k == 6 else 3 if n + k == 5 else 4
            self.declare("x", "int", self.rdom(w), n, base)
            self.declare("y", "int", self.rdom(w), k, s.choice([1, base]))
        elif lay == "bools":
            n = s.int(2, 4)
            self.declare("p", "bool", [False, True], n, base)
            self.declare("x", "int", self.rdom(3), 3 if n < 4 else 2, 1)
        else:
            for i in range(s.int(2, 4)):
                self.declare("v%d" % (i + 1), "int", self.rdom(4 if i < 2 else 3))
            if s.bool():
                self.declare("b", "bool", [False, True])

    def rdom(self, w):
        s = self.src
        k = s.int(2, max(2, w))
        if s.bool(1, 5):
            return sorted(s.sample(range(-2, 7), k))
        lo = s.weighted([(6, 1), (3, 0), (1, -1), (1, 2), (1, -3)])
        return list(range(lo, lo + k))

    # ---- arguments ---------------------------------------------------------------------------
    def ivars(self):
        out = [e for e in self.scal if e.t == "int"]
        for a in self.arrs:
            if a.t == "aint":
                out += self.elems(a)
        return out

    def ovars(self):
        out = [e for e in self.scal if e.t == "oint"]
        for a in self.arrs:
            if a.t == "aoint":
                out += self.elems(a)
        return out

    def bvars(self):
        out = [e for e in self.scal if e.t == "bool"]
        for a in self.arrs:
            if a.t == "abool":
                out += self.elems(a)
        return out

    def elems(self, a):
        out = []
        for idx in prod([range(lo, hi + 1) for lo, hi in a.ix]):
            out.append(E("%s[%s]" % (a.s, ",".join(map(str, idx))), P_ATOM, a.t[1:], a.v,
                         lambda env, idx=idx: a.f(env).get(idx), a.lo, a.hi))
        return out

    def iarg(self, par=False, lo=-4, hi=7):
        """an integer argument: mostly a variable, sometimes a small expression or a constant"""
        s = self.src
        k = 9 if par else s.draw(10)
        if k < 7:
            v = self.ivars()
            if v:
                return s.choice(v)
        if k < 8:
            v = self.ivars()
            if v:
                a = s.choice(v)
                c = s.int(1, 2)
                f = s.draw(3)
                if f == 0:
                    return E("%s + %d" % (a.s, c), 1, "int", True, lambda env: a.f(env) + c, a.lo + c, a.hi + c)
                if f == 1:
                    return E("%d - %s" % (c, a.s), 1, "int", True, lambda env: c - a.f(env), c - a.hi, c - a.lo)
                return E("%d*%s" % (c + 1, a.s), 1, "int", True, lambda env: (c + 1) * a.f(env), *sorted(((c + 1) * a.lo, (c + 1) * a.hi)))
        if k == 8 and not par:
            v = self.bvars()
            if v:
                a = s.choice(v)
                return E("bool2int(%s)" % a.s, 0, "int", True, lambda env: int(a.f(env)), 0, 1)
        return lit_int(s.small(max(lo, -2), min(hi, 4)))

    def nonneg(self, hi=3):
        """an integer argument known to be non-negative"""
        s = self.src
        c = [v for v in self.ivars() if v.lo >= 0]
        if c and s.bool():
            return s.choice(c)
        return lit_int(s.int(0, hi))

    def barg(self, par=False):
        s = self.src
        v = self.bvars()
        if not par and v and s.bool(4, 5):
            a = s.choice(v)
            if s.bool(1, 5):
                return bnode("not " + a.s, 3, True, lambda env: not a.f(env))
            return a
        if not par and s.bool():
            a = self.iarg()
            k = s.small(-1, 3)
            op = s.choice([">", "=", "<=", "!="])
            f = {">": lambda x: x > k, "=": lambda x: x == k, "<=": lambda x: x <= k, "!=": lambda x: x != k}[op]
            return bnode("(%s %s %d)" % (a.s, op, k), 0, a.v, lambda env: f(a.f(env)))
        return lit_bool(s.bool())

    def vec(self, n=None, lo=0, hi=4, par=False, arg=None, base=None, shape=True):
        """-> (text, els, base): a one-dimensional array argument of length n; shape: the constraint accepts
        an arbitrary index set"""
        s = self.src
        if arg is None and not par and n is None and s.bool(1, 2):
            c = [a for a in self.arrs if a.t == "aint" and (base is None or a.ix[0][0] == base)]
            if c:
                a = s.choice(c)
                return a.s, self.elems(a), a.ix[0][0]
        if n is None:
            n = s.int(max(lo, 1) if not s.bool(1, 12) else lo, hi)
        els = [(arg or self.iarg)(par) for _ in range(n)]
        if not par and els and s.bool(1, 5):
            els[s.draw(n)] = (arg or self.iarg)(True)
        return self.arr(els, base, shape) + ()

    def arr(self, els, base=None, shape=True, ty="int"):
        s = self.src
        txt = "[" + ", ".join(e.s for e in els) + "]"
        b = 1
        if base is not None:
            b = base
        elif shape and els and s.bool(1, 6):
            b = s.choice([0, -1, 2, 5])
        if b != 1:
            txt = "array1d(%d..%d, %s)" % (b, b + len(els) - 1, txt)
        elif shape and len(els) in (4, 6) and base is None and s.bool(1, 12):
            pass
        return txt, els, b

    def mvec(self, n=None, lo=0, hi=4, arg=None):
        """array argument of any dimension ([$X])"""
        t, els, b = self.vec(n, lo, hi, arg=arg)
        if len(els) == 4 and self.src.bool(1, 8) and "[" == t[0]:
            t = "array2d(1..2, 0..1, %s)" % t
        return t, els

    def pvec(self, n, lo, hi):
        return [self.src.small(lo, hi) for _ in range(n)]

    def pset(self, lo=-1, hi=4, mx=3):
        s = self.src
        v = sorted(s.sample(range(lo, hi + 1), s.int(0 if s.bool(1, 6) else 1, mx)))
        return setlit(v), set(v)

    def inc(self, *fs):
        self.includes.update(fs)

    def B(self, text, els, f, par=False):
        """Boolean expression over strict arguments"""
        v = any(e.v for e in els)
        return bnode(text, P_ATOM, v, lambda env: f(env))

    def I(self, text, els, f, lo, hi):
        v = any(e.v for e in els)
        return E(text, P_ATOM, "int", v, f, lo, hi)

    def rel(self, ie):
        """turn a functional constraint into a Boolean one"""
        s = self.src
        b = self.iarg()
        if s.bool(1, 3):
            b = lit_int(s.int(ie.lo, min(ie.hi, ie.lo + 3)))
        op = s.weighted([(4, "="), (1, "!="), (1, "<="), (1, ">")])
        f = {"=": lambda x, y: x == y, "!=": lambda x, y: x != y, "<=": lambda x, y: x <= y, ">": lambda x, y: x > y}[op]
        return bnode("(%s %s %s)" % (ie.s, op, b.s), P_ATOM, ie.v or b.v, lambda env: both(ie, b, env, f))

    def glob(self):
        """one Boolean expression built from a constraint of the group"""
        s = self.src
        for _ in range(8):
            self.rootonly, self.hidden = False, []
            m = s.weighted(self.GROUP)
            e = getattr(self, m)()
            if e is None:
                continue
            self.lastm = m
            if e.t == "int":
                e = self.rel(e)
            return e
        raise SkipCase("no constraint fits")

    # ---- whole model ------------------------------------------------------------------------
    def add_context(self, e):
        """place the constraint in a context"""
        s = self.src
        self.lab(self.lastm)
        self.cons += self.hidden
        if self.rootonly:
            self.rootonly = False
            self.lab("ctx:root")
            self.add(e)
            return
        ctx = s.weighted([(5, "root"), (3, "reif"), (2, "not"), (2, "half"), (1, "or"), (1, "implies"), (1, "xor"), (1, "ite")])
        if not e.v and ctx not in ("reif", "root"):
            ctx = "root"
        self.lab("ctx:" + ctx)
        if ctx == "root":
            self.add(e)
        elif ctx == "not":
            self.add(bnode("not " + paren(e), 3, e.v, lambda env: not e.f(env)))
        elif ctx == "reif":
            n = self.fresh("r")
            self.items.append("var bool: %s = %s;" % (n, e.s))
            self.derived.append((n, e))
        elif ctx == "half":
            n = self.fresh("h")
            self.items.append("var bool: %s;" % n)
            self.vars.append((n, [False, True]))
            self.add(bnode("%s -> %s" % (n, paren(e)), 9, True, lambda env: (not env[n]) or e.f(env)))
        else:
            b = self.barg()
            if not b.v:
                n = self.fresh("h")
                self.items.append("var bool: %s;" % n)
                self.vars.append((n, [False, True]))
                b = ident(n, "bool", True)
            if ctx == "or":
                self.add(bnode("%s \\/ %s" % (paren(b), paren(e)), 9, True, lambda env: bool(b.f(env) | e.f(env))))
            elif ctx == "implies":
                self.add(bnode("%s -> %s" % (paren(e), paren(b)), 9, True, lambda env: bool((not e.f(env)) | b.f(env))))
            elif ctx == "xor":
                self.add(bnode("%s xor %s" % (paren(e), paren(b)), 9, True, lambda env: e.f(env) != b.f(env)))
            else:
                e2 = self.glob()
                if self.rootonly:
                    raise SkipCase("no reified version")
                self.lab(self.lastm)
                self.cons += self.hidden
                self.add(bnode("if %s then %s else %s endif" % (b.s, e.s, e2.s), 0, True,
                               lambda env: pick(b.f(env), e.f(env), e2.f(env))))

    def model(self):
        s = self.src
        self.setup()
        if self.nassign() > self.MAXSOL:
            raise SkipCase("too many assignments")
        for _ in range(s.weighted([(5, 1), (2, 2)])):
            save = s
            e = None
            for k in range(4):
                e = self.glob()
                if not e.v and k < 3:
                    continue
                # prefer constraints that are neither always true nor always false
                envs = self.solutions()
                if len(envs) > 12 and k < 3:
                    t = sum(1 for env in envs if e.f(env))
                    if t in (0, len(envs)) and not s.bool(1, 6):
                        continue
                break
            self.add_context(e)

    def text(self, solve="solve satisfy;"):
        inc = ['include "%s.mzn";' % f for f in sorted(self.includes)]
        return "\n".join(inc) + "\n" + super().text(solve)

    def outnames(self):
        return [n for n, _ in self.vars] + [n for n, _ in self.derived]


def pick(c, a, b):
    return a if c else b


def paren(e):
    return e.s if e.p == 0 else "(" + e.s + ")"


def bnds(dom):
    dom = [v for v in dom if v is not None]
    return min(dom), max(dom)


def dom_text(dom):
    dom = list(dom)
    if dom == list(range(dom[0], dom[-1] + 1)):
        return "%d..%d" % (dom[0], dom[-1])
    return setlit(dom)


def cov(els):
    return "[" + ", ".join(map(str, els)) + "]"


# ==================================================================================================
class Counting(GG):
    GROUP = [(4, "g_alldiff"), (3, "g_alldiff_except"), (1, "g_alldiff0"), (2, "g_symalldiff"), (2, "g_allequal"), (3, "g_among"),
             (2, "g_among_fn"), (2, "g_atleast"), (4, "g_count"), (3, "g_count_fn"), (3, "g_countrel"), (2, "g_countbool"),
             (2, "g_countcomp"), (3, "g_nvalue"), (2, "g_distribute"), (3, "g_gcc"), (3, "g_gcc_bounds"), (2, "g_gcc_fn"),
             (2, "g_slidingsum"), (2, "g_slidingamong"), (1, "g_sumpred"), (2, "g_exactly")]

    def g_alldiff(self):
        t, els = self.mvec()
        n = self.src.choice(["alldifferent", "all_different"])
        self.inc("all_different")
        return self.B("%s(%s)" % (n, t), els, lambda env: len(set(v := vals(els, env))) == len(v))

    def g_alldiff_except(self):
        t, els = self.mvec()
        st, S = self.pset()
        n = self.src.choice(["all_different", "alldifferent", "all_different_except", "alldifferent_except"])
        self.inc("all_different", "all_different_except")

        def f(env):
            v = [x for x in vals(els, env) if x not in S]
            return len(set(v)) == len(v)
        return self.B("%s(%s, %s)" % (n, t, st), els, f)

    def g_alldiff0(self):
        t, els = self.mvec()
        self.inc("all_different_except_0")

        def f(env):
            v = [x for x in vals(els, env) if x != 0]
            return len(set(v)) == len(v)
        return self.B("%s(%s)" % (self.src.choice(["alldifferent_except_0", "all_different_except_0"]), t), els, f)

    def g_symalldiff(self):
        t, els, b = self.vec(lo=1)
        self.inc("symmetric_all_different")

        def f(env):
            v = vals(els, env)
            n = len(v)
            return all(b <= x < b + n and v[x - b] == i + b for i, x in enumerate(v))
        return self.B("symmetric_all_different(%s)" % t, els, f)

    def g_allequal(self):
        t, els = self.mvec()
        self.inc("all_equal")
        return self.B("all_equal(%s)" % t, els, lambda env: len(set(vals(els, env))) <= 1)

    def g_among(self):
        t, els = self.mvec()
        st, S = self.pset()
        n = self.iarg()
        self.inc("among")
        return self.B("among(%s, %s, %s)" % (n.s, t, st), els + [n],
                      lambda env: (v := vals(els + [n], env))[-1] == sum(x in S for x in v[:-1]))

    def g_among_fn(self):
        t, els = self.mvec()
        st, S = self.pset()
        self.inc("among_fn")
        return self.I("among(%s, %s)" % (t, st), els, lambda env: sum(x in S for x in vals(els, env)), 0, len(els))

    def g_atleast(self):
        t, els = self.mvec()
        n, v = self.src.small(-1, 3), self.src.small(-1, 4)
        nm = self.src.choice(["at_least", "at_most", "atleast", "atmost"])
        self.inc("at_least", "at_most")
        f = (lambda c: c >= n) if "least" in nm else (lambda c: c <= n)
        return self.B("%s(%d, %s, %d)" % (nm, n, t, v), els, lambda env: f(vals(els, env).count(v)))

    def g_exactly(self):
        t, els = self.mvec()
        n, v = self.src.small(-1, 3), self.src.small(-1, 4)
        self.inc("exactly")
        return self.B("exactly(%d, %s, %d)" % (n, t, v), els, lambda env: vals(els, env).count(v) == n)

    def g_count(self):
        t, els = self.mvec()
        v, n = self.iarg(), self.iarg()
        self.inc("count")
        nm = self.src.choice(["count", "count_eq"])
        if nm == "count_eq":
            self.inc("count_eq")
        return self.B("%s(%s, %s, %s)" % (nm, t, v.s, n.s), els + [v, n],
                      lambda env: (w := vals(els + [v, n], env))[:-2].count(w[-2]) == w[-1])

    def g_countrel(self):
        t, els = self.mvec()
        v, n = self.iarg(self.src.bool(1, 3)), self.iarg(self.src.bool(1, 3))
        r = self.src.choice(["eq", "neq", "lt", "leq", "gt", "geq"])
        self.inc("count_" + r)
        f = {"eq": lambda n, c: n == c, "neq": lambda n, c: n != c, "lt": lambda n, c: n < c, "leq": lambda n, c: n <= c,
             "gt": lambda n, c: n > c, "geq": lambda n, c: n >= c}[r]
        return self.B("count_%s(%s, %s, %s)" % (r, t, v.s, n.s), els + [v, n],
                      lambda env: f((w := vals(els + [v, n], env))[-1], w[:-2].count(w[-2])))

    def g_countbool(self):
        t, els = self.mvec(arg=self.barg)
        v, n = self.barg(self.src.bool(1, 3)), self.iarg(self.src.bool(1, 3))
        r = self.src.choice(["eq", "neq", "lt", "leq", "gt", "geq"])
        self.inc("count_" + r)
        f = {"eq": lambda n, c: n == c, "neq": lambda n, c: n != c, "lt": lambda n, c: n < c, "leq": lambda n, c: n <= c,
             "gt": lambda n, c: n > c, "geq": lambda n, c: n >= c}[r]
        if not els:
            return None
        return self.B("count_%s(%s, %s, %s)" % (r, t, v.s, n.s), els + [v, n],
                      lambda env: f((w := vals(els + [v, n], env))[-1], w[:-2].count(w[-2])))

    def g_count_fn(self):
        t, els = self.mvec()
        v = self.iarg()
        self.inc("count_fn")
        return self.I("count(%s, %s)" % (t, v.s), els + [v], lambda env: (w := vals(els + [v], env))[:-1].count(w[-1]), 0, len(els))

    def g_countcomp(self):
        t, els = self.mvec(lo=1)
        k = self.src.small(-1, 4)
        op = self.src.choice(["=", "!=", "<", ">="])
        f = {"=": lambda x: x == k, "!=": lambda x: x != k, "<": lambda x: x < k, ">=": lambda x: x >= k}[op]
        return self.I("count(q in %s)(q %s %d)" % (t, op, k), els, lambda env: sum(1 for x in vals(els, env) if f(x)), 0, len(els))

    def g_nvalue(self):
        t, els = self.mvec()
        if self.src.bool():
            self.inc("nvalue_fn")
            return self.I("nvalue(%s)" % t, els, lambda env: len(set(vals(els, env))), 0, len(els))
        n = self.iarg()
        self.inc("nvalue")
        return self.B("nvalue(%s, %s)" % (n.s, t), els + [n], lambda env: (w := vals(els + [n], env))[-1] == len(set(w[:-1])))

    def g_distribute(self):
        k = self.src.int(1, 3)
        tb, eb, b = self.vec(k)
        tc, ec, b = self.vec(k, base=b)
        t, els = self.mvec(lo=1)
        self.inc("distribute")

        def f(env):
            w = vals(ec + eb + els, env)
            c, v, x = w[:k], w[k:2 * k], w[2 * k:]
            return all(c[i] == x.count(v[i]) for i in range(k))
        # count and cover share the index set
        tc2 = "[" + ", ".join(e.s for e in ec) + "]"
        tb2 = "[" + ", ".join(e.s for e in eb) + "]"
        if b != 1:
            tc2, tb2 = ("array1d(%d..%d, %s)" % (b, b + k - 1, q) for q in (tc2, tb2))
        return self.B("distribute(%s, %s, %s)" % (tc2, tb2, t), ec + eb + els, f)

    def cover(self, k=None):
        s = self.src
        k = k or s.int(1, 3)
        return s.sample(range(-1, 5), k)

    def g_gcc(self):
        t, els = self.mvec(lo=1)
        cv = self.cover()
        tc, ec, b = self.vec(len(cv), base=1)
        closed = self.src.bool(1, 3)
        nm = "global_cardinality_closed" if closed else "global_cardinality"
        self.inc(nm)

        def f(env):
            w = vals(els + ec, env)
            x, c = w[:len(els)], w[len(els):]
            return all(x.count(v) == c[i] for i, v in enumerate(cv)) and (not closed or all(v in cv for v in x))
        if not els:
            return None
        return self.B("%s(%s, %s, %s)" % (nm, t, cov(cv), tc), els + ec, f)

    def g_gcc_bounds(self):
        t, els = self.mvec(lo=1)
        cv = self.cover()
        lo = [self.src.int(0, 2) for _ in cv]
        hi = [l + self.src.int(0, 2) for l in lo]
        closed = self.src.bool(1, 3)
        nm = "global_cardinality_closed" if closed else "global_cardinality"
        if self.src.bool(1, 4):
            nm = "global_cardinality_low_up_closed" if closed else "global_cardinality_low_up"
        self.inc(nm)
        if not els:
            return None

        def f(env):
            x = vals(els, env)
            return all(lo[i] <= x.count(v) <= hi[i] for i, v in enumerate(cv)) and (not closed or all(v in cv for v in x))
        return self.B("%s(%s, %s, %s, %s)" % (nm, t, cov(cv), cov(lo), cov(hi)), els, f)

    def g_gcc_fn(self):
        t, els = self.mvec(lo=1)
        cv = self.cover()
        i = self.src.draw(len(cv))
        self.inc("global_cardinality_fn")
        if not els:
            return None
        return self.I("(global_cardinality(%s, %s))[%d]" % (t, cov(cv), i + 1), els, lambda env: vals(els, env).count(cv[i]), 0, len(els))

    def g_slidingsum(self):
        s = self.src
        t, els, b = self.vec(lo=2)
        k = s.int(1, len(els)) if els else 1
        lo = s.small(-1, 4)
        hi = lo + s.int(0, 4)
        self.inc("sliding_sum")

        def f(env):
            v = vals(els, env)
            return all(lo <= sum(v[i:i + k]) <= hi for i in range(len(v) - k + 1))
        return self.B("sliding_sum(%d, %d, %d, %s)" % (lo, hi, k, t), els, f)

    def g_slidingamong(self):
        s = self.src
        t, els = self.mvec(lo=2)
        k = s.int(1, max(1, len(els)))
        lo = s.int(0, 2)
        hi = lo + s.int(0, 2)
        st, S = self.pset()
        self.inc("sliding_among")

        def f(env):
            v = vals(els, env)
            return all(lo <= sum(x in S for x in v[i:i + k]) <= hi for i in range(len(v) - k + 1))
        return self.B("sliding_among(%d, %d, %d, %s, %s)" % (lo, hi, k, t, st), els, f)

    def g_sumpred(self):
        s = self.src
        m = s.int(1, 3)
        sets = [sorted(s.sample(range(1, 4), s.int(0, 3))) for _ in range(m)]
        co = self.pvec(3, -2, 4)
        i, tot = self.iarg(), self.iarg()
        self.inc("sum_pred")

        def f(env):
            iv, tv = vals([i, tot], env)
            return 1 <= iv <= m and sum(co[j - 1] for j in sets[iv - 1]) == tv
        return self.B("sum_pred(%s, [%s], %s, %s)" % (i.s, ", ".join(setlit(x) for x in sets), cov(co), tot.s), [i, tot], f)


def adj(f, v):
    return all(f(a, b) for a, b in zip(v, v[1:]))


class Ordering(GG):
    GROUP = [(3, "g_increasing"), (2, "g_incbool"), (4, "g_lex"), (2, "g_lexbool"), (2, "g_lexchain"), (1, "g_lex2"), (3, "g_sort"), (2, "g_sortfn"),
             (3, "g_argsort"), (4, "g_argmax"), (2, "g_argval"), (3, "g_maximum"), (2, "g_member"), (2, "g_valprec"),
             (2, "g_valprecchain"), (2, "g_seqprec"), (3, "g_element"), (3, "g_inverse"), (2, "g_inverse_range"), (1, "g_write"),
             (1, "g_inversefn")]

    def g_increasing(self):
        t, els = self.mvec()
        nm = self.src.choice(["increasing", "decreasing", "strictly_increasing", "strictly_decreasing"])
        self.inc(nm)
        f = {"increasing": lambda a, b: a <= b, "decreasing": lambda a, b: a >= b, "strictly_increasing": lambda a, b: a < b,
             "strictly_decreasing": lambda a, b: a > b}[nm]
        return self.B("%s(%s)" % (nm, t), els, lambda env: adj(f, vals(els, env)))

    def g_incbool(self):
        t, els = self.mvec(arg=self.barg)
        nm = self.src.choice(["increasing", "decreasing"])
        self.inc(nm)
        f = {"increasing": lambda a, b: a <= b, "decreasing": lambda a, b: a >= b}[nm]
        if not els:
            return None
        return self.B("%s(%s)" % (nm, t), els, lambda env: adj(f, vals(els, env)))

    def lex(self, arg):
        t1, e1, b1 = self.vec(arg=arg)
        t2, e2, b2 = self.vec(arg=arg)
        if arg and (not e1 or not e2):
            return None
        nm = self.src.choice(["lex_less", "lex_lesseq", "lex_greater", "lex_greatereq"])
        self.inc(nm)
        f = {"lex_less": lambda a, b: a < b, "lex_lesseq": lambda a, b: a <= b, "lex_greater": lambda a, b: a > b,
             "lex_greatereq": lambda a, b: a >= b}[nm]
        k = len(e1)
        return self.B("%s(%s, %s)" % (nm, t1, t2), e1 + e2, lambda env: f((v := vals(e1 + e2, env))[:k], v[k:]))

    def g_lex(self):
        return self.lex(None)

    def g_lexbool(self):
        return self.lex(self.barg)

    def g_lexchain(self):
        s = self.src
        r, c = s.int(1, 3), s.int(1, 2)
        els = [self.iarg() for _ in range(r * c)]
        nm = s.choice(["lex_chain_less", "lex_chain_lesseq", "lex_chain_greater", "lex_chain_greatereq"])
        self.inc(nm)
        f = {"less": lambda a, b: a < b, "lesseq": lambda a, b: a <= b, "greater": lambda a, b: a > b,
             "greatereq": lambda a, b: a >= b}[nm[10:]]

        def g(env):
            v = vals(els, env)
            # columns are ordered
            cols = [[v[i * c + j] for i in range(r)] for j in range(c)]
            return all(f(a, b) for a, b in zip(cols, cols[1:]))
        return self.B("%s(array2d(1..%d, 1..%d, [%s]))" % (nm, r, c, ", ".join(e.s for e in els)), els, g)

    def g_lex2(self):
        s = self.src
        r, c = s.int(1, 2), s.int(1, 2)
        els = [self.iarg() for _ in range(r * c)]
        nm = s.choice(["lex2", "strict_lex2"])
        self.inc(nm)
        f = (lambda a, b: a < b) if nm == "strict_lex2" else (lambda a, b: a <= b)

        def g(env):
            v = vals(els, env)
            rows = [v[i * c:(i + 1) * c] for i in range(r)]
            cols = [[v[i * c + j] for i in range(r)] for j in range(c)]
            return all(f(a, b) for a, b in zip(cols, cols[1:])) and all(f(a, b) for a, b in zip(rows, rows[1:]))
        return self.B("%s(array2d(1..%d, 1..%d, [%s]))" % (nm, r, c, ", ".join(e.s for e in els)), els, g)

    def g_sort(self):
        t1, e1, b = self.vec(lo=1, hi=3)
        t2, e2, b2 = self.vec(len(e1), base=1)
        self.inc("sort")
        k = len(e1)
        return self.B("sort(%s, %s)" % (t1, t2), e1 + e2, lambda env: sorted((v := vals(e1 + e2, env))[:k]) == v[k:])

    def g_sortfn(self):
        t, els, b = self.vec(lo=1)
        self.inc("sort_fn")
        i = self.src.draw(len(els))
        # the result has the index set 1..n or that of the argument: compare through array1d
        return self.I("(array1d(sort(%s)))[%d]" % (t, i + 1), els, lambda env: sorted(vals(els, env))[i],
                      min(e.lo for e in els), max(e.hi for e in els))

    def g_argsort(self):
        s = self.src
        t, els, b = self.vec(lo=1, hi=3)
        n = len(els)
        self.inc("arg_sort")

        def perm(v):
            return [i + b for i in sorted(range(n), key=lambda i: (v[i], i))]
        if s.bool():
            i = s.draw(n)
            return self.I("(arg_sort(%s))[%d]" % (t, i + 1), els, lambda env: perm(vals(els, env))[i], b, b + n - 1)
        t2, e2, _ = self.vec(n, base=1)
        return self.B("arg_sort(%s, %s)" % (t, t2), els + e2, lambda env: perm((v := vals(els + e2, env))[:n]) == v[n:])

    def g_argmax(self):
        s = self.src
        kind = s.bool(1, 4)
        t, els, b = self.vec(lo=1, arg=self.barg if kind else None)
        if not els:
            return None
        nm = s.choice(["arg_max", "arg_min"])
        self.inc(nm)
        m = max if nm == "arg_max" else min

        def f(env):
            v = vals(els, env)
            return b + v.index(m(v))
        return self.I("%s(%s)" % (nm, t), els, f, b, b + len(els) - 1)

    def g_argval(self):
        t, els, b = self.vec(lo=1)
        v = self.iarg()
        if not els:
            return None
        self.inc("arg_val")

        def f(env):
            w = vals(els + [v], env)
            if w[-1] not in w[:-1]:
                if not any(e.v for e in els + [v]):
                    raise SkipCase("undefined fixed expression")
                raise Undef()
            return b + w.index(w[-1])
        # documented: "forces the value to occur"; whether it does so when the truth value of the enclosing
        # expression is known without it is not, so use it in a root context only
        self.rootonly = True
        return self.I("arg_val(%s, %s)" % (t, v.s), els + [v], f, b, b + len(els) - 1)

    def g_maximum(self):
        s = self.src
        t, els = self.mvec(lo=1)
        if not els:
            return None
        lo, hi = min(e.lo for e in els), max(e.hi for e in els)
        k = s.draw(3)
        nm = s.choice(["max", "min"])
        m = max if nm == "max" else min
        if k == 0:
            return self.I("%s(%s)" % (nm, t), els, lambda env: m(vals(els, env)), lo, hi)
        n = self.iarg()
        nm2 = {"max": "maximum", "min": "minimum"}[nm]
        self.inc(nm2)
        self.rootonly = True
        return self.B("%s(%s, %s)" % (nm2, n.s, t), els + [n], lambda env: m((v := vals(els + [n], env))[:-1]) == v[-1])

    def g_member(self):
        t, els = self.mvec(lo=1)
        v = self.iarg()
        self.inc("member")
        return self.B("member(%s, %s)" % (t, v.s), els + [v], lambda env: (w := vals(els + [v], env))[-1] in w[:-1])

    def prec(self, x, a, b):
        for v in x:
            if v == a:
                return True
            if v == b:
                return False
        return True

    def g_valprec(self):
        t, els, b = self.vec(lo=1)
        p, q = self.src.sample(range(0, 4), 2)
        self.inc("value_precede")
        self.rootonly = True
        return self.B("value_precede(%d, %d, %s)" % (p, q, t), els, lambda env: self.prec(vals(els, env), p, q))

    def g_valprecchain(self):
        t, els, b = self.vec(lo=1)
        o = self.src.sample(range(0, 5), self.src.int(1, 4))
        self.inc("value_precede_chain")
        self.rootonly = True
        return self.B("value_precede_chain(%s, %s)" % (cov(o), t), els,
                      lambda env: all(self.prec(v, a, c) for v in [vals(els, env)] for a, c in zip(o, o[1:])))

    def g_seqprec(self):
        t, els, b = self.vec(lo=1)
        self.inc("seq_precede_chain")
        self.rootonly = True

        def f(env):
            m = 0
            for v in vals(els, env):
                if v > m + 1:
                    return False
                m = max(m, v)
            return True
        return self.B("seq_precede_chain(%s)" % t, els, f)

    def g_element(self):
        t, els, b = self.vec(lo=1, par=self.src.bool(1, 3))
        i, y = self.iarg(), self.iarg()
        self.inc("element")
        n = len(els)

        def f(env):
            w = vals(els + [i, y], env)
            return b <= w[n] < b + n and w[w[n] - b] == w[n + 1]
        return self.B("element(%s, %s, %s)" % (i.s, t, y.s), els + [i, y], f)

    def can_inv(self):
        return self.nassign() <= 100 and not any(v[0] == "iv" for v in self.vars)

    def inverse_args(self):
        """two arrays whose index sets start at independent values and that are inverse for some assignment"""
        s = self.src
        k = self.nassign()
        n, b1, b2 = s.int(1, 3 if k <= 14 else 2), s.int(-1, 3), s.int(-1, 3)
        name = "iv"
        self.declare(name, "int", list(range(b2, b2 + n)), n, b1)
        a1 = (name, self.elems(self.arrs[-1]), b1)
        perm = s.shuffle(range(n))
        els = [lit_int(b1 + p) for p in perm]
        if s.bool(1, 3):
            els[s.draw(n)] = self.iarg(False)
        a2 = self.arr(els, b2)
        return (a2, a1) if s.bool() else (a1, a2)

    def g_inverse(self):
        s = self.src
        if s.bool() and self.can_inv():
            (t1, e1, b1), (t2, e2, b2) = self.inverse_args()
            n = m = len(e1)
        else:
            t1, e1, b1 = self.vec(lo=1, hi=3)
            n = len(e1)
            m = n if s.bool(4, 5) else s.int(1, 3)
            t2, e2, b2 = self.vec(m)
        self.inc("inverse")

        def f(env):
            v = vals(e1 + e2, env)
            x, y = v[:n], v[n:]
            return (all(b2 <= a < b2 + m and y[a - b2] == i + b1 for i, a in enumerate(x)) and
                    all(b1 <= a < b1 + n and x[a - b1] == i + b2 for i, a in enumerate(y)))
        return self.B("inverse(%s, %s)" % (t1, t2), e1 + e2, f)

    def g_inverse_range(self):
        if self.src.bool(1, 3) and self.can_inv():
            (t1, e1, b1), (t2, e2, b2) = self.inverse_args()
        else:
            t1, e1, b1 = self.vec(lo=1, hi=3)
            t2, e2, b2 = self.vec(lo=1, hi=3)
        n, m = len(e1), len(e2)
        self.inc("inverse_in_range")

        def f(env):
            v = vals(e1 + e2, env)
            x, y = v[:n], v[n:]
            return (all(not (b2 <= a < b2 + m) or y[a - b2] == i + b1 for i, a in enumerate(x)) and
                    all(not (b1 <= a < b1 + n) or x[a - b1] == i + b2 for i, a in enumerate(y)))
        return self.B("inverse_in_range(%s, %s)" % (t1, t2), e1 + e2, f)

    def g_inversefn(self):
        """inverse as a function over an array that must be a bijection onto its bounds"""
        c = [a for a in self.arrs if a.t == "aint" and a.hi - a.lo + 1 == alen(a.ix) and a.ix[0][0] is not None]
        if not c:
            return None
        a = self.src.choice(c)
        self.inc("inverse_fn")
        els = self.elems(a)
        b = a.ix[0][0]
        k = self.src.int(a.lo, a.hi)

        def f(env):
            v = vals(els, env)
            if sorted(v) != list(range(a.lo, a.hi + 1)):
                raise Undef()
            return b + v.index(k)
        return self.I("(inverse(%s))[%d]" % (a.s, k), els, f, b, b + len(els) - 1)

    def g_write(self):
        """J is I with V written at position idx"""
        t1, e1, b = self.vec(lo=1, hi=3)
        t2, e2, _ = self.vec(len(e1), base=b)
        n = len(e1)
        c = [x for x in self.ivars() if x.lo >= b and x.hi < b + n]
        i, v = self.src.choice(c) if c else lit_int(self.src.int(b, b + n - 1)), self.iarg()
        self.inc("write")
        if t2[0] != "a" and b != 1:
            t2 = "array1d(%d..%d, %s)" % (b, b + n - 1, t2)

        def f(env):
            w = vals(e1 + e2 + [i, v], env)
            x, y, iv, vv = w[:n], w[n:2 * n], w[-2], w[-1]
            z = list(x)
            z[iv - b] = vv
            return z == y
        return self.B("write(%s, %s, %s, %s)" % (t1, i.s, v.s, t2), e1 + e2 + [i, v], f)
