"""Generator for models with option types: extends lang.Gen.  An absent value is None.  Type "oint"/"obool" are optional integers and
Booleans, "aoint"/"aobool" arrays of them.  The meaning follows the documentation of the operators in the standard library."""
import re
from .lang import *
from .lang import both, ite_f
from .setgen import all_vals
from .core import SkipCase

ABS = E("<>", P_ATOM, "oint", False, lambda env: None, 0, 0)


class OptGen(Gen):
    INT = Gen.INT + [(8, "i_oarith"), (5, "i_odef"), (6, "i_oguard"), (6, "i_oagg"), (2, "i_occ")]
    BOOL = Gen.BOOL + [(6, "b_occ"), (9, "b_ocmp"), (4, "b_oin"), (6, "b_oguard"), (6, "b_oconn"), (5, "b_oquant"), (3, "b_odef"), (4, "b_oglob")]
    OINT = [(4, "o_sub"), (4, "o_tilde"), (2, "o_div"), (2, "o_neg"), (6, "o_ite"), (4, "o_access"), (2, "o_weak"), (2, "o_call"), (2, "o_let")]
    OBOOL = [(3, "ob_not"), (4, "ob_ite"), (2, "ob_access")]

    def __init__(self, src, feats=()):
        Gen.__init__(self, src, feats)
        self.ofuncs = []

    # ---- declarations ------------------------------------------------------------------------------
    def decl_var(self):
        s = self.src
        k = s.weighted([(5, "oint"), (2, "obool"), (2, "aoint"), (1, "aobool"), (4, "other")])
        if k == "other":
            return Gen.decl_var(self)
        n = self.fresh("o")
        self.lab("decl:" + k)
        if k == "oint":
            txt, vals = self.dom_int(3)
            if s.bool(1, 10):
                vals, txt = vals[:1], "%d..%d" % (vals[0], vals[0])
            self.items.append("var opt %s: %s;" % (txt, n))
            self.vars.append((n, [None] + vals))
            self.ids.append(ident(n, "oint", True, vals[0], vals[-1]))
        elif k == "obool":
            self.items.append("var opt bool: %s;" % n)
            self.vars.append((n, [None, False, True]))
            self.ids.append(ident(n, "obool", True))
        else:
            ln = s.int(2, 3)
            base = s.choice([1, 1, 0, -1])
            ix = [(base, base + ln - 1)]
            if k == "aoint":
                txt, vals = self.dom_int(2)
                vals = vals[:2]
                txt = setlit(vals)
            else:
                txt, vals = "bool", [False, True]
            self.items.append("array[%d..%d] of var opt %s: %s;" % (ix[0] + (txt, n)))
            self.vars.append((n, [Arr(ix, list(c)) for c in prod([[None] + vals] * ln)]))
            self.ids.append(ident(n, k, True, vals[0] if k == "aoint" else None, vals[-1] if k == "aoint" else None, ix))

    def decl_par(self):
        s = self.src
        if s.bool(2, 3):
            return Gen.decl_par(self)
        n = self.fresh("P")
        ln = s.int(1, 3)
        base = s.choice([1, 0])
        ix = [(base, base + ln - 1)]
        v = [None if s.bool(1, 3) else s.small(-3, 4) for _ in range(ln)]
        self.items.append("array[%d..%d] of opt int: %s = array1d(%d..%d,[%s]);" % (ix[0] + (n,) + ix[0] + (", ".join(show(x) for x in v),)))
        self.env[n] = Arr(ix, v)
        w = [x for x in v if x is not None] or [0]
        self.ids.append(ident(n, "aoint", False, min(w), max(w), ix))

    def decl_derived(self):
        s = self.src
        if s.bool(1, 2):
            return Gen.decl_derived(self)
        e = self.oint(2)
        if not e.v:
            return
        n = self.fresh("d")
        if s.bool(1, 3) and e.hi - e.lo < 30:
            # (the domain of an optional variable is not enforced if its definition involves a let: known finding)
            lo, hi = e.lo + (0 if re.search(r"\[|let|\bf\d|min_|max_|~|div|mod|abs|\bif\b", e.s) else s.draw(2)), e.hi
            self.items.append("var opt %d..%d: %s = %s;" % (lo, max(lo, hi), n, e.s))
            hi = max(lo, hi)
            self.cons.append(("", bnode("", 0, True, lambda env, n=n, lo=lo, hi=hi: env[n] is None or lo <= env[n] <= hi)))
        else:
            self.items.append("var opt int: %s = %s;" % (n, e.s))
        self.derived.append((n, e))
        self.ids.append(ident(n, "oint", True, e.lo, e.hi))
        self.lab("decl:derivedopt")

    def decl_func(self):
        s = self.src
        if s.bool(1, 2):
            return Gen.decl_func(self)
        n, p = self.fresh("f"), self.fresh("p")
        save, self.ids = self.ids, [ident(p, "oint", True, -6, 6, m=True)]
        self.in_fn += 1
        rt = s.choice(["oint", "int", "bool"])
        try:
            e = {"oint": self.oint, "int": self.int, "bool": self.bool}[rt](2)
        finally:
            self.in_fn -= 1
            self.ids = save
        if not e.v or p not in e.s:
            return
        self.items.append("function var %s: %s(var opt int: %s) = %s;" % ({"oint": "opt int"}.get(rt, rt), n, p, e.s))
        self.ofuncs.append((n, p, e, rt))
        self.lab("decl:ofunc")

    # ---- optional integers -------------------------------------------------------------------------
    def oany(self, d, par=False):
        """an optional or (seldom) a plain integer operand"""
        if self.src.bool(1, 5):
            return self.int(d, par)
        return self.oint(d, par)

    def leaf_oint(self, par=False):
        s = self.src
        e = None
        if not par:
            e = self.pick("oint", True)
            if e is None or s.bool(1, 4):
                a = [x for x in self.ids if x.t == "aoint" and x.v]
                if a:
                    e = self.elem_const(s.choice(a))
        if e is None or s.bool(1, 10):
            a = [x for x in self.ids if x.t == "aoint" and not x.v]
            if a and s.bool():
                return self.elem_const(s.choice(a))
            return self.opar("oint")
        return e

    def opar(self, t):
        """an optional parameter (literal <> only occurs as a branch of a conditional and in array literals)"""
        s = self.src
        c = [x for x in self.ids if x.t == t and not x.v]
        if c and s.bool():
            return s.choice(c)
        n = self.fresh("q")
        v = None if s.bool(1, 2) else s.small(-3, 4) if t == "oint" else s.bool()
        self.items.append("opt %s: %s = %s;" % (t[1:], n, show(v)))
        e = E(n, P_ATOM, t, False, lambda env: v, v or 0, v or 0)
        if not self.in_fn:
            self.ids.append(e)
        return e

    def oint(self, d, par=False):
        self.nodes += 1
        s = self.src
        if d <= 0 or self.nodes > 60 or s.bool(1, 3):
            return self.leaf_oint(par)
        for _ in range(3):
            m = s.weighted(self.OINT)
            save, self.pos = self.pos, False
            e = getattr(self, m)(d, par)
            self.pos = save
            if e is not None and not (par and e.v) and -200 <= e.lo and e.hi <= 200:
                self.lab(m)
                return e
        return self.leaf_oint(par)

    @staticmethod
    def strict(F):
        """both present, otherwise absent"""
        return lambda x, y: None if x is None or y is None else F(x, y)

    def o_sub(self, d, par):
        a, b = self.oint(d - 1, par), self.oany(d - 1, par)
        return E(self.inf("-", P_ADD, a, b), P_ADD, "oint", a.v or b.v,
                 lambda env: both(a, b, env, lambda x, y: None if x is None else x if y is None else x - y),
                 min(a.lo, a.lo - b.hi), max(a.hi, a.hi - b.lo), m=a.m or b.m)

    def o_tilde(self, d, par):
        a, b = self.oint(d - 1, par), self.oany(d - 1, par)
        op, p, F = self.src.choice([("~+", P_ADD, lambda x, y: x + y), ("~-", P_ADD, lambda x, y: x - y), ("~*", P_MUL, lambda x, y: x * y)])
        c = [F(x, y) for x in (a.lo, a.hi) for y in (b.lo, b.hi)]
        return E(infix(op, p, a, b), p, "oint", a.v or b.v, lambda env: both(a, b, env, self.strict(F)), min(c), max(c), m=a.m or b.m)

    def o_div(self, d, par):
        a = self.oint(d - 1, par)
        b = lit_int(self.src.choice([1, 2, 3, -2])) if self.src.bool() else self.leaf_oint(par)
        if not b.v and b.t == "oint" and not (b.lo > 0 or b.hi < 0):
            return None
        op = self.src.choice(["div", "mod", "~div"])
        v = a.v or b.v
        M = max(abs(a.lo), abs(a.hi))
        if op == "mod":
            M = max(abs(b.lo), abs(b.hi))

        def F(x, y):
            if x is None:
                return None
            if y is None:
                return x if op == "div" else None
            if y == 0:
                undef(v)
            return tmod(x, y) if op == "mod" else tdiv(x, y)
        return E(infix(op, P_MUL, a, b), P_MUL, "oint", v, lambda env: both(a, b, env, F), -M, M, m=a.m or b.m)

    def o_neg(self, d, par):
        a = self.oint(d - 1, par)
        if a is ABS:
            return None
        if self.src.bool(3, 4):
            return E("-" + par_if(a, P_ATOM), P_UN, "oint", a.v, lambda env: (lambda x: None if x is None else -x)(a.f(env)), -a.hi, -a.lo, m=a.m)
        return E("abs(%s)" % a.s, P_ATOM, "oint", a.v, lambda env: (lambda x: None if x is None else abs(x))(a.f(env)), 0,
                 max(abs(a.lo), abs(a.hi)), m=a.m)

    def o_ite(self, d, par):
        s = self.src
        a = self.int(d - 1, par) if s.bool() else self.oint(d - 1, par)
        b = ABS if s.bool() else self.oany(d - 1, par)
        if a is ABS or a.t == b.t == "int":
            return None
        c = self.bool(d - 1, par or (b is not ABS and s.bool(1, 8)))
        if b is ABS and not c.v:
            return None
        x, y = (a, b) if s.bool() else (b, a)
        return E("if %s then %s else %s endif" % (c.s, x.s, y.s), P_ATOM, "oint", a.v or b.v or c.v, ite_f([(c, x)], y),
                 min(a.lo, b.lo), max(a.hi, b.hi), m=a.m or b.m or c.m)

    def arr_oint(self, d, par):
        s = self.src
        c = [e for e in self.ids if e.t == "aoint" and (not par or not e.v)]
        k = s.weighted([(4, "id"), (3, "lit"), (3, "comp")])
        if k == "id" and c:
            return s.choice(c)
        if k == "comp" and not par:
            return self.ocomp(d, "int")
        els = [self.oany(d - 1, par) for _ in range(s.int(1, 3))]
        if all(e.t == "int" for e in els):
            els.append(self.leaf_oint(par))
        if s.bool(1, 6):
            els.insert(s.draw(len(els) + 1), ABS)
        ix = [(1, len(els))]
        return E("[%s]" % ", ".join(e.s for e in els), P_ATOM, "aoint", any(e.v for e in els), lambda env: Arr(ix, all_vals(els, env)),
                 min(e.lo for e in els), max(e.hi for e in els), ix=ix, m=any(e.m for e in els))

    def ocomp(self, d, t):
        """[ e | i in lo..hi where var condition ]: absent where the condition is false"""
        s = self.src
        n = self.fresh("i")
        lo = s.small(-1, 2)
        hi = lo + s.int(0, 2)
        nid = len(self.ids)
        self.ids.append(ident(n, "int", False, lo, hi, m=True))
        e = (self.oany if s.bool() else self.int)(d - 1) if t == "int" else (self.bool if s.bool() else self.obool)(d - 1)
        c = self.bool(d - 1)
        if not c.v:
            c = self.b_cmp(1, False)
        del self.ids[nid:]
        if not c.v or (e.t[0] == "o" and not e.v):
            # a fixed condition filters instead
            els = [lit_int(lo), self.leaf_oint()] if t == "int" else [lit_bool(True), self.leaf_obool()]
            ix = [(1, 2)]
            return E("[%s]" % ", ".join(x.s for x in els), P_ATOM, "ao" + t, True, lambda env: Arr(ix, all_vals(els, env)), 
                     min(x.lo for x in els) if t == "int" else None, max(x.hi for x in els) if t == "int" else None, ix=ix)

        def f(env):
            out = []
            u = False
            for k in range(lo, hi + 1):
                e2 = dict(env)
                e2[n] = k
                w = c.f(e2)
                try:
                    v = e.f(e2)
                except Undef:
                    if w:
                        u = True
                    v = None
                out.append(v if w else None)
            if u:
                raise Undef()
            return Arr([(1, len(out))], out)
        return E("[%s | %s in %d..%d where %s]" % (e.s, n, lo, hi, c.s), P_ATOM, "ao" + t, True, f, e.lo, e.hi, ix=[(1, hi - lo + 1)], x="ocomp", m=True)

    def oaccess(self, a, d, par, t):
        s = self.src
        if s.bool(1, 3):
            # optional index: absent index gives an absent element
            i = self.leaf_oint(par)
            if not i.v:
                return None
        else:
            i = self.index(a.ix[0][0], a.ix[0][1], d - 1, par, a.v)
        v = a.v or i.v
        if t == "obool" and (i.lo < a.ix[0][0] or i.hi > a.ix[0][1]):
            return None  # whether an undefined optional Boolean is false or absent is not specified

        def f(env):
            # both parts are compiled whatever the other one is
            k, u = None, False
            try:
                k = i.f(env)
            except Undef:
                u = True
            av = a.f(env)
            if u:
                raise Undef()
            if k is None:
                return None
            try:
                return av.get([k])
            except Undef:
                undef(v)
        return E("%s[%s]" % (a.s, i.s), P_ATOM, t, v, f, a.lo, a.hi, m=a.m or i.m)

    def o_access(self, d, par):
        s = self.src
        if s.bool(2, 3):
            a = self.arr_oint(d - 1, par)
            if a.x == "ocomp":
                return None
            return self.oaccess(a, d, par, "oint")
        a = [e for e in self.ids if e.t == "aint" and len(e.ix) == 1 and (e.v or not par)]
        i = self.pick("oint", True)
        if not a or i is None or par:
            return None
        a = s.choice(a)

        def f(env):
            k = i.f(env)
            return None if k is None else a.f(env).get([k])
        return E("%s[%s]" % (a.s, i.s), P_ATOM, "oint", True, f, a.lo, a.hi, m=a.m or i.m)

    def o_weak(self, d, par):
        a = self.arr_oint(d - 1, par)
        k, F = self.src.choice([("min_weak", min), ("max_weak", max)])
        if "decl:open" in self.labels or "decl:derivedopt" in self.labels:
            return None

        def f(env):
            v = [x for x in a.f(env).v if x is not None]
            return F(v) if v else None
        return E("%s(%s)" % (k, a.s), P_ATOM, "oint", a.v, f, a.lo, a.hi, m=a.m)

    def ocall(self, d, rt):
        c = [f for f in self.ofuncs if f[3] == rt]
        if not c:
            return None
        n, p, e, _ = self.src.choice(c)
        a = self.oany(d - 1, False)
        if a.lo < -6 or a.hi > 6:
            a = self.leaf_oint()

        def f(env):
            e2 = dict(env)
            e2[p] = a.f(env)
            return e.f(e2)
        r = E("%s(%s)" % (n, a.s), P_ATOM, rt, True, f, e.lo, e.hi, m=a.m)
        return bnode(r.s, P_ATOM, True, f, m=a.m) if rt == "bool" else r

    def o_call(self, d, par):
        return None if par else self.ocall(d, "oint")

    def i_call(self, d, par):
        if not par and self.src.bool():
            e = self.ocall(d, "int")
            if e:
                return e
        return Gen.i_call(self, d, par)

    def b_call(self, d, par):
        if not par and self.src.bool():
            e = self.ocall(d, "bool")
            if e:
                return e
        return Gen.b_call(self, d, par)

    def o_let(self, d, par):
        n = self.fresh("l")
        b = self.oint(d - 1, par)
        if b is ABS:
            return None
        nid = len(self.ids)
        self.ids.append(ident(n, "oint", b.v, b.lo, b.hi, m=True))
        e = self.oint(d - 1, par)
        del self.ids[nid:]
        if n not in e.s:
            return None

        def f(env):
            e2 = dict(env)
            e2[n] = b.f(env)
            return e.f(e2)
        return E("let { %s: %s = %s } in %s" % ("var opt int" if b.v else "opt int", n, b.s, par_if(e, P_ATOM)), 99, "oint", e.v or b.v, f, e.lo, e.hi, m=True)

    # ---- optional Booleans ---------------------------------------------------------------------------
    def leaf_obool(self, par=False):
        s = self.src
        e = None
        if not par:
            e = self.pick("obool", True)
            if e is None or s.bool(1, 4):
                a = [x for x in self.ids if x.t == "aobool" and x.v]
                if a:
                    e = self.elem_const(s.choice(a))
        return e if e is not None else self.opar("obool")

    def obool(self, d, par=False):
        self.nodes += 1
        s = self.src
        if d <= 0 or self.nodes > 60 or s.bool(1, 3):
            return self.leaf_obool(par)
        for _ in range(3):
            m = s.weighted(self.OBOOL)
            save, self.pos = self.pos, False
            e = getattr(self, m)(d, par)
            self.pos = save
            if e is not None and not (par and e.v):
                self.lab(m)
                return e
        return self.leaf_obool(par)

    def obany(self, d, par=False):
        return self.bool(d, par) if self.src.bool(1, 4) else self.obool(d, par)

    def ob_not(self, d, par):
        a = self.obool(d - 1, par)
        if not a.v:
            return None
        return E("not " + par_if(a, P_ATOM), P_UN, "obool", a.v, lambda env: (lambda x: None if x is None else not x)(a.f(env)), m=a.m)

    def ob_ite(self, d, par):
        s = self.src
        a = self.obany(d - 1, par)
        b = E("<>", P_ATOM, "obool", False, lambda env: None) if s.bool() else self.obany(d - 1, par)
        if a.s == "<>" or a.t == b.t == "bool":
            return None
        c = self.bool(d - 1, par or (b.s != "<>" and s.bool(1, 8)))
        if b.s == "<>" and not c.v:
            return None
        return E("if %s then %s else %s endif" % (c.s, a.s, b.s), P_ATOM, "obool", a.v or b.v or c.v, ite_f([(c, a)], b), m=a.m or b.m or c.m)

    def arr_obool(self, d, par):
        s = self.src
        c = [e for e in self.ids if e.t == "aobool" and (not par or not e.v)]
        k = s.weighted([(3, "id"), (3, "lit"), (4, "comp")])
        if k == "id" and c:
            return s.choice(c)
        if k == "comp" and not par:
            return self.ocomp(d, "bool")
        els = [self.obany(d - 1, par) for _ in range(s.int(1, 3))]
        if all(e.t == "bool" for e in els):
            els.append(self.leaf_obool(par))
        ix = [(1, len(els))]
        return E("[%s]" % ", ".join(e.s for e in els), P_ATOM, "aobool", any(e.v for e in els), lambda env: Arr(ix, all_vals(els, env)),
                 ix=ix, m=any(e.m for e in els))

    def ob_access(self, d, par):
        a = self.arr_obool(d - 1, par)
        return None if a.x == "ocomp" else self.oaccess(a, d, par, "obool")

    # ---- integers from options ------------------------------------------------------------------------
    def i_oarith(self, d, par):
        a, b = self.oint(d - 1, par), self.oany(d - 1, par)
        if a is ABS and b is ABS:
            return None
        k = self.src.weighted([(3, "+"), (2, "*"), (2, "-"), (1, "div")])
        if k in "+*":
            if self.src.bool():
                a, b = b, a
            e0, F = (0, lambda x, y: x + y) if k == "+" else (1, lambda x, y: x * y)
            c = [F(x, y) for x in (a.lo, a.hi, e0) for y in (b.lo, b.hi, e0)]
            return E(self.inf(k, P_ADD if k == "+" else P_MUL, a, b), P_ADD if k == "+" else P_MUL, "int", a.v or b.v,
                     lambda env: both(a, b, env, lambda x, y: F(e0 if x is None else x, e0 if y is None else y)), min(c), max(c), m=a.m or b.m)
        x = self.int(d - 1, par)
        if k == "-":
            return E(self.inf("-", P_ADD, x, a), P_ADD, "int", x.v or a.v, lambda env: both(x, a, env, lambda p, q: p if q is None else p - q),
                     min(x.lo, x.lo - a.hi), max(x.hi, x.hi - a.lo), m=x.m or a.m)
        if a is ABS or not a.v:
            return None
        M = max(abs(x.lo), abs(x.hi))

        def F(p, q):
            if q is None:
                return p
            if q == 0:
                raise Undef()
            return tdiv(p, q)
        return E(self.inf("div", P_MUL, x, a), P_MUL, "int", True, lambda env: both(x, a, env, F), -M, M, m=x.m or a.m)

    def odef(self, d, par, o, t):
        a, b = o(d - 1, par), getattr(self, t)(d - 1, par)
        if a.s == "<>":
            return None
        v = a.v or b.v

        def f(env):
            # the fallback also applies when the first operand is undefined
            u = False
            try:
                x = a.f(env)
            except Undef:
                x = None
            try:
                y = b.f(env)
            except Undef:
                u = True
                y = None
            if x is not None:
                return x
            if u:
                raise Undef()
            return y
        if self.src.bool():
            s, p = infix("default", P_DEFAULT, a, b), P_DEFAULT
            if self.src.bool():
                s, p = "(" + s + ")", P_ATOM
        else:
            s, p = "'default'(%s, %s)" % (a.s, b.s), P_ATOM
        return E(s, p, t, v, f, min(a.lo, b.lo) if t == "int" else None, max(a.hi, b.hi) if t == "int" else None, m=a.m or b.m)

    def i_odef(self, d, par):
        return self.odef(d, par, self.oint, "int")

    def b_odef(self, d, par):
        e = self.odef(d, par, self.obool, "bool")
        return e and bnode(e.s, e.p, e.v, e.f, m=e.m)

    def i_oguard(self, d, par):
        a = self.oint(d - 1, par)
        if a is ABS or (not a.v and not par):
            return None
        b = self.int(d - 1, par)
        r = self.leaf_int(par) if self.src.bool(1, 3) else None
        t = "deopt(%s)" % a.s if r is None else "deopt(%s) + %s" % (a.s, par_if(r, P_ATOM))

        def f(env):
            y, u = None, False
            try:
                y = b.f(env)
            except Undef:
                u = True
            try:
                x = a.f(env)
            except Undef:
                raise SkipCase("undefined operand of occurs")
            z = 0 if r is None else r.f(env)
            if x is not None:
                return x + z
            if u:
                raise Undef()
            return y
        if self.src.bool():
            s = "if occurs(%s) then %s else %s endif" % (a.s, t, b.s)
        else:
            s = "if absent(%s) then %s else %s endif" % (a.s, b.s, t)
        z = (0, 0) if r is None else (r.lo, r.hi)
        if par:
            return None
        return E(s, P_ATOM, "int", a.v or b.v, f, min(a.lo + z[0], b.lo), max(a.hi + z[1], b.hi), m=a.m or b.m or (r is not None and r.m))

    def i_oagg(self, d, par):
        a = self.arr_oint(d - 1, par)
        n = alen(a.ix)
        k = self.src.weighted([(4, "sum"), (2, "product"), (2, "min"), (2, "max"), (2, "count"), (1, "sumocc")])
        if k == "sum":
            return E("sum(%s)" % a.s, P_ATOM, "int", a.v, lambda env: sum(x for x in a.f(env).v if x is not None),
                     min(0, n * a.lo), max(0, n * a.hi), m=a.m)
        if k == "product":
            M = max(abs(a.lo), abs(a.hi), 1) ** n
            return E("product(%s)" % a.s, P_ATOM, "int", a.v, lambda env: prodl([x for x in a.f(env).v if x is not None]), -M, M, m=a.m)
        if k == "sumocc":
            i = self.fresh("i")
            if a.x == "ocomp":
                return None
            return E("sum([bool2int(occurs(%s)) | %s in %s])" % (i, i, a.s), P_ATOM, "int", a.v, lambda env: sum(x is not None for x in a.f(env).v), 0, n, m=True)
        if k == "count":
            y = self.int(0, par)
            return E("count(%s, %s)" % (a.s, y.s), P_ATOM, "int", a.v or y.v, lambda env: both(a, y, env, lambda u, w: sum(x == w for x in u.v)), 0, n, m=a.m or y.m)
        if not a.v or "decl:open" in self.labels or "decl:derivedopt" in self.labels:
            return None
        F = min if k == "min" else max

        def f(env):
            v = [x for x in a.f(env).v if x is not None]
            if not v:
                raise Undef()
            return F(v)
        return E("%s(%s)" % (k, a.s), P_ATOM, "int", True, f, a.lo, a.hi, m=a.m)

    def i_occ(self, d, par):
        b = self.b_occ(d, par)
        return b and E("bool2int(%s)" % b.s, P_ATOM, "int", b.v, lambda env: int(b.f(env)), 0, 1, m=b.m)

    # ---- Booleans from options ------------------------------------------------------------------------
    def b_occ(self, d, par):
        a = self.oint(d - 1, par) if self.src.bool(2, 3) else self.obool(d - 1, par)
        if a.s == "<>":
            return None
        k = self.src.choice(["occurs", "absent"])
        return bnode("%s(%s)" % (k, a.s), P_ATOM, a.v, lambda env: (a.f(env) is None) == (k == "absent"), m=a.m)

    def b_ocmp(self, d, par):
        a, b = self.oint(d - 1, par), self.oany(d - 1, par)
        if not a.v or (b.t == "oint" and not b.v):
            return None  # comparisons with a fixed absent operand are not always supported
        if self.src.bool():
            a, b = b, a
        op, F = self.src.choice([("=", lambda x, y: x == y), ("!=", lambda x, y: x != y), ("=", lambda x, y: x == y),
                                 ("~=" if a.v or b.v else "=", None if a.v or b.v else lambda x, y: x == y), ("<", lambda x, y: x < y), ("<=", lambda x, y: x <= y), (">", lambda x, y: x > y), (">=", lambda x, y: x >= y)])
        if op in ("=", "!="):
            G = F
        elif op == "~=":
            G = lambda x, y: x is None or y is None or x == y
        else:
            G = lambda x, y: x is None or y is None or F(x, y)
        return bnode(infix(op, P_CMP, a, b), P_CMP, a.v or b.v, lambda env: both(a, b, env, G), m=a.m or b.m)

    def b_oin(self, d, par):
        s = self.src
        a = self.oint(d - 1, par)
        if a is ABS:
            return None
        vals = sorted(s.sample(range(-3, 6), s.int(1, 4)))
        txt = setlit(vals)
        if s.bool():
            vals = list(range(vals[0], vals[-1] + 1))
            txt = "%d..%d" % (vals[0], vals[-1])
        return bnode("%s in %s" % (par_if(a, P_ATOM), txt), P_IN, a.v, lambda env: a.f(env) in vals, m=a.m)

    def b_oguard(self, d, par):
        a, b = self.oint(d - 1, par), self.int(d - 1, par)
        if not a.v or par:
            return None
        op, F = self.src.choice(self.CMP)
        c = "deopt(%s) %s %s" % (a.s, op, par_if(b, P_ATOM))
        k = self.src.choice(["/\\", "\\/", "->"])
        if k == "/\\":
            return bnode("occurs(%s) /\\ %s" % (a.s, c), P_AND, True, lambda env: both(a, b, env, lambda x, y: x is not None and F(x, y)), m=a.m or b.m)

        def f(env):
            x = a.f(env)
            y, u = None, False
            try:
                y = b.f(env)
            except Undef:
                u = True
            return x is None or (not u and F(x, y))

        def g(env):
            try:
                return f(env)
            except Undef:
                # occurs(a) is itself false when a is undefined
                raise SkipCase("undefined operand of occurs under negation")
        if k == "\\/":
            return bnode("absent(%s) \\/ %s" % (a.s, c), P_OR, True, f, m=a.m or b.m)
        return bnode("occurs(%s) -> %s" % (a.s, c), P_IMPL, True, g, m=a.m or b.m)

    def b_oconn(self, d, par):
        a, b = self.obool(d - 1, par), self.obany(d - 1, par)
        if not a.v or (b.t == "obool" and not b.v):
            return None
        if self.src.bool():
            a, b = b, a
        ab = lambda F: lambda x, y: x is None or y is None or F(x, y)
        op, p, F = self.src.choice([("/\\", P_AND, lambda x, y: x is not False and y is not False), ("\\/", P_OR, lambda x, y: bool(x) or bool(y)),
                                    ("->", P_IMPL, ab(lambda x, y: not x or y)), ("<-", P_IMPL, ab(lambda x, y: x or not y)),
                                    ("<->", P_EQV, ab(lambda x, y: x == y)), ("xor", P_OR, ab(lambda x, y: x != y)),
                                    ("=", P_CMP, lambda x, y: x == y), ("!=", P_CMP, lambda x, y: x != y)])
        return bnode(infix(op, p, a, b), p, a.v or b.v, lambda env: both(a, b, env, F), m=a.m or b.m)

    def b_oquant(self, d, par):
        a = self.arr_obool(d - 1, par)
        if not a.v:
            return None
        k = self.src.weighted([(3, "forall"), (3, "exists"), (1, "xorall"), (1, "iffall"), (1, "clause")])
        if k == "clause":
            b = self.arr_obool(0, par)

            def F(x, y):
                v = list(x.v) + list(y.v)
                return any(t is None for t in v) or any(x.v) or not all(y.v)
            return bnode("clause(%s, %s)" % (a.s, b.s), P_ATOM, a.v or b.v, lambda env: both(a, b, env, F), m=a.m or b.m)
        F = {"forall": lambda v: all(x is not False for x in v), "exists": lambda v: any(v),
             "xorall": lambda v: None in v or sum(v) % 2 == 1, "iffall": lambda v: None in v or sum(v) % 2 == 0}[k]
        return bnode("%s(%s)" % (k, a.s), P_ATOM, a.v, lambda env: F(a.f(env).v), m=a.m)

    def b_oglob(self, d, par):
        c = [e for e in self.ids if e.t == "aoint" and e.v]
        if par or not c:
            return None
        a = self.src.choice(c)
        if "decl:open" in self.labels or "decl:derivedopt" in self.labels:
            return None  # the decompositions need bounds
        k = self.src.choice(["all_different", "increasing", "strictly_increasing", "decreasing", "all_equal"])
        if k != "all_different" and not self.pos:
            return None  # absent(increasing(..)) crashes: known finding
        pr = lambda env: [x for x in a.f(env).v if x is not None]
        if k == "all_equal":
            return None
        F = {"all_different": lambda v: len(set(v)) == len(v), "increasing": lambda v: all(x <= y for x, y in zip(v, v[1:])),
             "strictly_increasing": lambda v: all(x < y for x, y in zip(v, v[1:])), "decreasing": lambda v: all(x >= y for x, y in zip(v, v[1:]))}[k]
        self.items.insert(0, 'include "globals.mzn";') if 'include "globals.mzn";' not in self.items else None
        return bnode("%s(%s)" % (k, a.s), P_ATOM, True, lambda env: F(pr(env)), m=a.m)
