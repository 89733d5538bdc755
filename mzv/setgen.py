"""Generator for models with set variables: extends lang.Gen with set-typed expressions and their use in Boolean
and integer expressions.  Values of sets are frozensets; E.x of a set expression is its universe (sorted list)."""
from .lang import *
from .lang import both, ite_f
from .core import SkipCase


def slit(vals):
    v = sorted(vals)
    f = frozenset(v)
    if len(v) > 1 and v[-1] - v[0] == len(v) - 1 and v[0] % 2 == 0:
        return E("%d..%d" % (v[0], v[-1]), P_DOTS, "set", False, lambda env: f, x=v)
    return E(setlit(v), P_ATOM, "set", False, lambda env: f, x=v)


def subsets(u):
    out = [frozenset()]
    for x in u:
        out += [s | {x} for s in out]
    return out


class SetGen(Gen):
    INT = Gen.INT + [(8, "i_card"), (4, "i_smin"), (4, "i_ssum"), (3, "i_let")]
    BOOL = Gen.BOOL + [(9, "b_sin"), (8, "b_subset"), (6, "b_seq"), (5, "b_slt"), (5, "b_squant"), (4, "b_sglob")]
    SET = [(6, "s_op"), (3, "s_lit"), (2, "s_range"), (3, "s_ite"), (3, "s_access"), (3, "s_comp"), (2, "s_aop"), (1, "s_let"), (2, "s_call")]

    # ---- declarations ------------------------------------------------------------------------------
    def universe(self):
        s = self.src
        if s.bool(1, 3):
            return sorted(s.sample(range(-2, 6), s.int(2, 3)))
        lo = s.small(-2, 3)
        return list(range(lo, lo + s.int(2, 3 if s.bool(2, 3) else 4)))

    def utext(self, u):
        return "%d..%d" % (u[0], u[-1]) if u[-1] - u[0] == len(u) - 1 else setlit(u)

    def decl_var(self):
        s = self.src
        k = s.weighted([(4, "set"), (2, "sets"), (4, "other")])
        if k == "other":
            return Gen.decl_var(self)
        n = self.fresh("S")
        u = self.universe()
        if k == "set":
            self.items.append("var set of %s: %s;" % (self.utext(u), n))
            self.vars.append((n, subsets(u)))
            self.ids.append(ident(n, "set", True, x=u))
        else:
            u = u[:2]
            ln = s.int(2, 3)
            base = s.choice([1, 1, 0, -1])
            ix = [(base, base + ln - 1)]
            self.items.append("array[%d..%d] of var set of %s: %s;" % (ix[0] + (self.utext(u), n)))
            self.vars.append((n, [Arr(ix, list(c)) for c in prod([subsets(u)] * ln)]))
            self.ids.append(ident(n, "aset", True, ix=ix, x=u))
        self.lab("decl:" + k)

    def decl_par(self):
        s = self.src
        if s.bool(1, 2):
            return Gen.decl_par(self)
        n = self.fresh("P")
        if s.bool():
            u = self.universe()
            self.items.append("set of int: %s = %s;" % (n, self.utext(u)))
            self.env[n] = frozenset(u)
            self.ids.append(ident(n, "set", False, x=u))
        else:
            us = [self.universe() for _ in range(s.int(2, 3))]
            if s.bool(1, 3):
                us[-1] = []
            base = s.choice([1, 0])
            ix = [(base, base + len(us) - 1)]
            self.items.append("array[%d..%d] of set of int: %s = array1d(%d..%d,[%s]);" % (ix[0] + (n,) + ix[0] + (",".join(self.utext(u) if u else "{}" for u in us),)))
            self.env[n] = Arr(ix, [frozenset(u) for u in us])
            self.ids.append(ident(n, "aset", False, ix=ix, x=sorted(set(sum(us, [])))))

    def decl_derived(self):
        s = self.src
        if s.bool(1, 2):
            return Gen.decl_derived(self)
        e = self.set(2)
        if not e.v:
            return
        n = self.fresh("d")
        self.items.append("var set of int: %s = %s;" % (n, e.s))
        self.derived.append((n, e))
        self.ids.append(ident(n, "set", True, x=e.x))
        self.lab("decl:derivedset")

    def decl_func(self):
        s = self.src
        if s.bool(1, 2):
            return Gen.decl_func(self)
        # a set function
        n, p = self.fresh("f"), self.fresh("p")
        u = list(range(-3, 7))
        save, self.ids = self.ids, [ident(p, "set", True, x=u, m=True)]
        self.in_fn += 1
        try:
            e = self.set(2)
        finally:
            self.in_fn -= 1
            self.ids = save
        if not e.v or p not in e.s or len(e.x) > 12:
            return
        self.items.append("function var set of int: %s(var set of int: %s) = %s;" % (n, p, e.s))
        self.sfuncs.append((n, p, e))
        self.lab("decl:sfunc")

    def __init__(self, src, feats=()):
        Gen.__init__(self, src, feats)
        self.sfuncs = []
        self.setorder = True

    # ---- set expressions -----------------------------------------------------------------------------
    def leaf_set(self, par=False):
        s = self.src
        e = None
        if par:
            if s.bool():
                e = self.pick("set", False)
        elif s.bool(5, 6):
            e = self.pick("set", True)
            if e is None or s.bool(1, 4):
                a = [x for x in self.ids if x.t == "aset" and x.v]
                if a:
                    a = s.choice(a)
                    i = s.int(*a.ix[0])
                    e = E("%s[%d]" % (a.s, i), P_ATOM, "set", True, lambda env, a=a, i=i: a.f(env).get([i]), x=a.x, m=a.m)
        elif s.bool():
            e = self.pick("set", False)
        if e is None:
            e = slit(self.universe() if s.bool(7, 8) else [])
        return e

    def set(self, d, par=False):
        self.nodes += 1
        s = self.src
        if d <= 0 or self.nodes > 60 or s.bool(1, 5):
            return self.leaf_set(par)
        for _ in range(3):
            m = s.weighted(self.SET)
            save, self.pos = self.pos, False
            e = getattr(self, m)(d, par)
            self.pos = save
            if e is not None and not (par and e.v) and len(e.x) <= 10 and (not e.x or (e.x[0] >= -12 and e.x[-1] <= 20)):
                self.lab(m)
                return e
        return self.leaf_set(par)

    def s_op(self, d, par):
        s = self.src
        a, b = self.set(d - 1, par), self.set(d - 1, par)
        op = s.choice(["union", "intersect", "diff", "symdiff"])
        F = {"union": lambda x, y: x | y, "intersect": lambda x, y: x & y, "diff": lambda x, y: x - y, "symdiff": lambda x, y: x ^ y}[op]
        A, B = frozenset(a.x), frozenset(b.x)
        x = {"union": A | B, "symdiff": A | B, "intersect": A & B, "diff": A}[op]
        p = {"intersect": P_INTER}.get(op, P_UNION)
        return E(infix(op, p, a, b), P_UNION, "set", a.v or b.v, lambda env: both(a, b, env, F), x=sorted(x), m=a.m or b.m)

    def s_lit(self, d, par):
        es = [self.int(d - 1, par) for _ in range(self.src.int(1, 3))]
        if any(e.hi - e.lo > 9 for e in es):
            return None
        x = sorted(set(v for e in es for v in range(e.lo, e.hi + 1)))
        return E("{%s}" % ", ".join(e.s for e in es), P_ATOM, "set", any(e.v for e in es),
                 lambda env: frozenset(all_vals(es, env)), x=x, m=any(e.m for e in es))

    def s_range(self, d, par):
        a, b = self.int(d - 1, par), self.int(d - 1, par)
        if b.hi - a.lo > 9:
            return None
        return E("%s..%s" % (par_if(a, P_ATOM), par_if(b, P_ATOM)), P_DOTS, "set", a.v or b.v,
                 lambda env: both(a, b, env, lambda x, y: frozenset(range(x, y + 1))), x=list(range(a.lo, b.hi + 1)), m=a.m or b.m)

    def s_ite(self, d, par):
        a, b = self.set(d - 1, par), self.set(d - 1, par)
        c = self.bool(d - 1, par or self.src.bool(1, 6))
        return E("if %s then %s else %s endif" % (c.s, a.s, b.s), P_ATOM, "set", a.v or b.v or c.v, ite_f([(c, a)], b),
                 x=sorted(set(a.x) | set(b.x)), m=a.m or b.m or c.m)

    def arr_set(self, d, par):
        s = self.src
        c = [e for e in self.ids if e.t == "aset" and (not par or not e.v)]
        if c and s.bool(2, 3):
            return s.choice(c)
        es = [self.set(d - 1, par) for _ in range(s.int(1, 3))]
        ix = [(1, len(es))]
        return E("[%s]" % ", ".join(e.s for e in es), P_ATOM, "aset", any(e.v for e in es), lambda env: Arr(ix, all_vals(es, env)), ix=ix,
                 x=sorted(set(v for e in es for v in e.x)), m=any(e.m for e in es))

    def s_access(self, d, par):
        a = self.arr_set(d - 1, par)
        i = self.index(a.ix[0][0], a.ix[0][1], d - 1, par, a.v)
        v = a.v or i.v

        def f(env):
            k = i.f(env)
            av = a.f(env)
            try:
                return av.get([k])
            except Undef:
                undef(v)
        return E("%s[%s]" % (a.s, i.s), P_ATOM, "set", v, f, x=a.x, m=a.m or i.m)

    def genset(self, g):
        """a set used as generator: an undefined one is a recorded finding (its definedness is enforced at the root)"""
        if not g.v:
            return g
        f = g.f

        def f2(env):
            try:
                return f(env)
            except Undef:
                raise SkipCase("undefined variable set as generator (recorded finding)")
        return E(g.s, g.p, g.t, g.v, f2, x=g.x, m=g.m)

    def s_comp(self, d, par):
        """{ e | i in ... where c }"""
        s = self.src
        n = self.fresh("i")
        if s.bool(1, 2) and not par:
            g = self.genset(self.set(d - 1, par))
        else:
            g = slit(self.universe())
        if g.m or not g.x:
            return None
        nid = len(self.ids)
        self.ids.append(ident(n, "int", False, g.x[0], g.x[-1], m=True))
        e = self.int(d - 1, par)
        c = self.bool(d - 1, par) if s.bool(1, 2) else None
        del self.ids[nid:]
        if e.hi - e.lo > 9:
            return None
        v = g.v or e.v or (c is not None and c.v)

        def f(env):
            out = set()
            S = g.f(env)
            for k in g.x:
                e2 = dict(env)
                e2[n] = k
                w = c is None or c.f(e2)
                if k in S and w:
                    out.add(e.f(e2))
                elif not e.v or (c is not None and not c.v and c is None):
                    # evaluated by the compiler although absent
                    e.f(e2)
            return frozenset(out)
        return E("{ %s | %s in %s%s }" % (e.s, n, g.s, "" if c is None else " where " + c.s), P_ATOM, "set", v, f,
                 x=list(range(e.lo, e.hi + 1)), m=True)

    def s_aop(self, d, par):
        a = self.arr_set(d - 1, par)
        if self.src.bool():
            return E("array_union(%s)" % a.s, P_ATOM, "set", a.v, lambda env: frozenset().union(*a.f(env).v), x=a.x, m=a.m)
        return E("array_intersect(%s)" % a.s, P_ATOM, "set", a.v, lambda env: frozenset.intersection(*a.f(env).v), x=a.x, m=a.m)

    def s_let(self, d, par):
        n = self.fresh("l")
        b = self.set(d - 1, par)
        nid = len(self.ids)
        self.ids.append(ident(n, "set", b.v, x=b.x, m=True))
        e = self.set(d - 1, par)
        del self.ids[nid:]
        if n not in e.s:
            return None

        def f(env):
            e2 = dict(env)
            e2[n] = b.f(env)
            return e.f(e2)
        return E("let { %s: %s = %s } in %s" % ("var set of int" if b.v else "set of int", n, b.s, par_if(e, P_ATOM)), 99, "set", e.v or b.v, f,
                 x=e.x, m=True)

    def s_call(self, d, par):
        if not self.sfuncs or par:
            return None
        n, p, e = self.src.choice(self.sfuncs)
        a = self.set(d - 1, par)
        if not set(a.x) <= set(range(-3, 7)):
            return None

        def f(env):
            e2 = dict(env)
            e2[p] = a.f(env)
            return e.f(e2)
        return E("%s(%s)" % (n, a.s), P_ATOM, "set", True, f, x=e.x, m=a.m)

    # ---- integers from sets --------------------------------------------------------------------------
    def i_card(self, d, par):
        a = self.set(d - 1, par)
        return E("card(%s)" % a.s, P_ATOM, "int", a.v, lambda env: len(a.f(env)), 0, len(a.x), m=a.m)

    def i_smin(self, d, par):
        a = self.set(d - 1, par)
        if not a.v or not a.x:
            return None
        k = self.src.choice(["min", "max"])
        g = min if k == "min" else max

        def f(env):
            S = a.f(env)
            if not S:
                raise Undef()
            return g(S)
        return E("%s(%s)" % (k, a.s), P_ATOM, "int", True, f, a.x[0], a.x[-1], m=a.m)

    def sbody(self, d, par, t):
        """an expression over a generator variable ranging over a set -> (n, g, e)"""
        n = self.fresh("i")
        g = self.genset(self.set(d - 1, par))
        if not g.x:
            return None
        nid = len(self.ids)
        self.ids.append(ident(n, "int", False, g.x[0], g.x[-1], m=True))
        e = self.int(d - 1, par) if t == "int" else self.bool(d - 1, par)
        del self.ids[nid:]
        return n, g, e

    def over(self, n, g, e, env):
        """values for the members; the compiler also evaluates fixed expressions for the possible members"""
        S = g.f(env)
        out = []
        u = False
        for k in g.x:
            e2 = dict(env)
            e2[n] = k
            if k in S:
                try:
                    out.append(e.f(e2))
                except Undef:
                    u = True
            elif not e.v:
                e.f(e2)
        if u:
            raise Undef()
        return out

    def i_ssum(self, d, par):
        r = self.sbody(d, par, "int")
        if r is None:
            return None
        n, g, e = r
        k = len(g.x)
        lo, hi = min(0, k * e.lo), max(0, k * e.hi)
        return E("sum(%s in %s)(%s)" % (n, g.s, e.s), P_ATOM, "int", g.v or e.v, lambda env: sum(self.over(n, g, e, env)), lo, hi, m=True)

    # ---- Booleans from sets --------------------------------------------------------------------------
    def b_sin(self, d, par):
        a, b = self.int(d - 1, par), self.set(d - 1, par)
        return bnode("%s in %s" % (par_if(a, P_ATOM), par_if(b, P_ATOM)), P_IN, a.v or b.v, lambda env: both(a, b, env, lambda x, y: x in y), m=a.m or b.m)

    def equivalence(self):
        """the truth value of one set relation on plain variables tied to a Boolean (fully reified in FlatZinc)"""
        s = self.src
        if self.cur is None:
            self.cur = self.solutions()
        e = None
        for k in range(6):
            b = self.leaf_set()
            rel, F = s.choice([("in", lambda x, y: x in y), ("in", lambda x, y: x in y), ("subset", lambda x, y: x <= y), ("superset", lambda x, y: x >= y),
                               ("=", lambda x, y: x == y), ("!=", lambda x, y: x != y)])
            a = self.leaf_int() if rel == "in" else self.leaf_set()
            c = self.leaf_bool()
            if a.m or b.m or c.m or not (a.v or b.v) or not c.v:
                continue
            r = bnode("%s %s %s" % (par_if(a, P_ATOM), rel, par_if(b, P_ATOM)), P_CMP, True, lambda env, a=a, b=b, F=F: both(a, b, env, F))
            op, G = s.choice([("<->", lambda x, y: x == y), ("xor", lambda x, y: x != y), ("=", lambda x, y: x == y)])
            l, q = (c, r) if s.bool() else (r, c)
            e = bnode("%s %s %s" % (par_if(l, P_ATOM), op, par_if(q, P_ATOM)), P_EQV, True, lambda env, l=l, q=q, G=G: both(l, q, env, G))
            keep = [env for env in self.cur if e.f(env)]
            if k < 5 and (not keep or len(keep) == len(self.cur)):
                continue
            self.cur = keep
            self.lab("equivalence")
            self.add(e)
            return

    def scmp(self, a, b, op, F):
        return bnode("%s %s %s" % (par_if(a, P_ATOM), op, par_if(b, P_ATOM)), P_CMP, a.v or b.v, lambda env: both(a, b, env, F), m=a.m or b.m)

    def b_subset(self, d, par):
        a, b = self.set(d - 1, par), self.set(d - 1, par)
        if self.src.bool(2, 3):
            return self.scmp(a, b, "subset", lambda x, y: x <= y)
        return self.scmp(a, b, "superset", lambda x, y: x >= y)

    def b_seq(self, d, par):
        a, b = self.set(d - 1, par), self.set(d - 1, par)
        if self.src.bool():
            return self.scmp(a, b, "=", lambda x, y: x == y)
        return self.scmp(a, b, "!=", lambda x, y: x != y)

    def b_slt(self, d, par):
        if not self.setorder and not par:
            return None
        a, b = self.set(d - 1, par), self.set(d - 1, par)
        op = self.src.choice(["<", "<=", ">", ">="])
        k = lambda x: sorted(x)
        F = {"<": lambda x, y: k(x) < k(y), "<=": lambda x, y: k(x) <= k(y), ">": lambda x, y: k(x) > k(y), ">=": lambda x, y: k(x) >= k(y)}[op]
        return self.scmp(a, b, op, F)

    def b_squant(self, d, par):
        r = self.sbody(d, par, "bool")
        if r is None:
            return None
        n, g, e = r
        q = self.src.choice(["forall", "exists"])
        F = all if q == "forall" else any
        return bnode("%s(%s in %s)(%s)" % (q, n, g.s, e.s), P_ATOM, g.v or e.v, lambda env: F(self.over(n, g, e, env)), m=True)

    def b_sglob(self, d, par):
        if par:
            return None
        s = self.src
        k = s.choice(["disjoint", "all_disjoint", "partition_set", "at_most1", "link", "range", "roots", "all_different", "all_equal",
                      "channel", "inverse_set", "sum_set", "member", "increasing"])
        self.lab("sglob:" + k)
        self.needs_globals = True
        if k == "increasing" and not self.setorder:
            return None
        A = lambda: self.arr_set(d - 1, False)
        if k == "disjoint":
            a, b = self.set(d - 1), self.set(d - 1)
            return bnode("disjoint(%s, %s)" % (a.s, b.s), P_ATOM, True, lambda env: both(a, b, env, lambda x, y: not (x & y)), m=a.m or b.m)
        if k in ("all_disjoint", "at_most1", "all_different", "all_equal", "increasing"):
            a = A()
            pair = {"all_disjoint": lambda x, y: not (x & y), "at_most1": lambda x, y: len(x & y) <= 1, "all_different": lambda x, y: x != y,
                    "all_equal": lambda x, y: x == y, "increasing": lambda x, y: sorted(x) <= sorted(y)}[k]

            def f(env):
                v = a.f(env).v
                return all(pair(v[i], v[j]) for j in range(len(v)) for i in range(j))
            return bnode("%s(%s)" % (k, a.s), P_ATOM, True, f, m=a.m)
        if k == "partition_set":
            a = A()
            u = slit(self.universe() if s.bool() or not a.x else a.x)

            def f(env):
                v = a.f(env).v
                return sorted(x for t in v for x in t) == u.x
            return bnode("partition_set(%s, %s)" % (a.s, u.s), P_ATOM, True, f, m=a.m)
        if k == "member":
            a, b = A(), self.set(d - 1)
            return bnode("member(%s, %s)" % (a.s, b.s), P_ATOM, True, lambda env: both(a, b, env, lambda x, y: y in x.v), m=a.m or b.m)
        if k == "link":
            a = self.leaf_set()
            if not a.x or a.x[-1] - a.x[0] > 4 or a.m:
                return None
            lo, hi = a.x[0] - s.draw(2), a.x[-1] + s.draw(2)
            bs = [self.bool(d - 1) for _ in range(lo, hi + 1)]
            return bnode("link_set_to_booleans(%s, array1d(%d..%d, [%s]))" % (a.s, lo, hi, ", ".join(b.s for b in bs)), P_ATOM, True,
                         lambda env: both(a, bs[0], env, lambda S, _: all((lo + i in S) == b for i, b in enumerate([b.f(env) for b in bs]))),
                         m=a.m or any(b.m for b in bs))
        if k in ("range", "roots"):
            c = [e for e in self.ids if e.t == "aint" and e.v and len(e.ix) == 1 and not e.m]
            if not c:
                return None
            x = s.choice(c)
            dm = self.leaf_set()
            if not all(x.ix[0][0] <= v <= x.ix[0][1] for v in dm.x) or dm.m or not dm.v:
                return None
            im = self.set(d - 1)

            def f(env):
                D, I, xs = dm.f(env), im.f(env), x.f(env)
                if k == "range":
                    return frozenset(xs.get([i]) for i in D) == I
                return D == frozenset(i for i in range(x.ix[0][0], x.ix[0][1] + 1) if xs.get([i]) in I)
            return bnode("%s(%s, %s, %s)" % (k, x.s, dm.s, im.s), P_ATOM, True, f, m=im.m)
        if k == "channel":
            c = [e for e in self.ids if e.t == "aint" and e.v and len(e.ix) == 1 and not e.m]
            c2 = [e for e in self.ids if e.t == "aset" and e.v and not e.m]
            if not c or not c2:
                return None
            x, a = s.choice(c), s.choice(c2)
            if not all(x.ix[0][0] <= v <= x.ix[0][1] for v in a.x) or not (a.ix[0][0] <= x.lo and x.hi <= a.ix[0][1]):
                return None

            def f(env):
                xs, av = x.f(env), a.f(env)
                return all((xs.get([i]) == j) == (i in av.get([j])) for i in range(x.ix[0][0], x.ix[0][1] + 1) for j in range(a.ix[0][0], a.ix[0][1] + 1))
            return bnode("int_set_channel(%s, %s)" % (x.s, a.s), P_ATOM, True, f)
        if k == "inverse_set":
            c2 = [e for e in self.ids if e.t == "aset" and not e.m]
            if not any(e.v for e in c2):
                return None
            a, b = s.choice(c2), s.choice(c2)
            if not (a.v or b.v):
                return None
            inr = lambda e, g: all(g.ix[0][0] <= v <= g.ix[0][1] for v in e.x)
            if not inr(a, b) or not inr(b, a):
                return None

            def f(env):
                f1, f2 = a.f(env), b.f(env)
                return all((j in f1.get([i])) == (i in f2.get([j])) for i in range(a.ix[0][0], a.ix[0][1] + 1) for j in range(b.ix[0][0], b.ix[0][1] + 1))
            return bnode("inverse_set(%s, %s)" % (a.s, b.s), P_ATOM, True, f)
        if k == "sum_set":
            a = self.set(d - 1)
            if not a.x:
                return None
            w = {v: s.int(-3, 4) for v in a.x}
            extra = [v for v in (a.x[0] - 1, a.x[-1] + 2) if s.bool(1, 3)]
            for v in extra:
                w[v] = 2
            order = list(w)
            t = self.int(d - 1)
            return bnode("sum_set([%s], [%s], %s, %s)" % (",".join(map(str, order)), ",".join(str(w[v]) for v in order), a.s, t.s), P_ATOM, True,
                         lambda env: both(a, t, env, lambda S, y: sum(w[v] for v in S) == y), m=a.m or t.m)

    def out_item(self):
        out = []
        types = {e.s: e for e in self.ids}
        for n in self.outnames():
            e = types[n]
            if e.t == "set":
                out.append("\\([i | i in %s])" % n)
            elif e.t == "aset":
                out += ["\\([i | i in %s[%d]])" % (n, k) for k in range(e.ix[0][0], e.ix[0][1] + 1)]
            else:
                out.append("\\(%s)" % n)
        return 'output ["%s\\n"];' % " ; ".join(out)

    def canon(self, env):
        out = []
        for n in self.outnames():
            v = env[n]
            if isinstance(v, Arr) and v.v and isinstance(v.v[0], frozenset):
                out += [str(sorted(x)) for x in v.v]
            elif isinstance(v, frozenset):
                out.append(str(sorted(v)))
            else:
                out.append(show(v))
        return " ; ".join(out)

    def text(self, solve="solve satisfy;"):
        return ('include "globals.mzn";\n' if getattr(self, "needs_globals", False) else "") + Gen.text(self, solve)


def all_vals(es, env):
    """strict evaluation of a list"""
    out, u = [], False
    for e in es:
        try:
            out.append(e.f(env))
        except Undef:
            u = True
    if u:
        raise Undef()
    return out
