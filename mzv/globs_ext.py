"""Extensional constraints: tables, automata, regular expressions, decision diagrams."""
from .globs import GG, vals, paren
from .lang import lit_int, setlit, bnode, E, P_ATOM, Undef


def tbl(rows, r, c, sh):
    """text of a two-dimensional parameter array"""
    if sh == (1, 1) and rows and rows[0]:
        return "[|" + "|".join(",".join(r_) for r_ in rows) + "|]"
    return "array2d(%d..%d, %d..%d, [%s])" % (sh[0], sh[0] + r - 1, sh[1], sh[1] + c - 1, ", ".join(", ".join(r_) for r_ in rows))


class Extensional(GG):
    MAXSOL = 500
    GROUP = [(4, "g_table"), (2, "g_table_bool"), (3, "g_table_opt"), (5, "g_regular"), (3, "g_regular_set"), (3, "g_regular_gen"),
             (3, "g_nfa"), (2, "g_nfa_set"), (2, "g_nfa_gen"), (5, "g_regexp"), (3, "g_mdd"), (3, "g_mdd_nondet"),
             (3, "g_cost_regular"), (3, "g_cost_mdd")]

    def setup(self):
        s = self.src
        self.scal, self.arrs = [], []
        base = s.weighted([(6, 1), (1, 0), (1, -1), (1, 3)])
        lay = s.weighted([(6, "one"), (2, "opt"), (2, "bools"), (2, "scal")])
        if lay == "one":
            n = s.int(2, 4)
            self.declare("x", "int", self.rdom({2: 5, 3: 4, 4: 3}[n]), n, base)
            if s.bool():
                self.declare("c", "int", self.rdom(4 if n < 4 else 3))
        elif lay == "opt":
            self.declare("o", "int", [None] + self.rdom(3), s.int(2, 3), base)
            if s.bool():
                self.declare("y", "int", self.rdom(3))
        elif lay == "bools":
            self.declare("p", "bool", [False, True], s.int(2, 4), base)
            self.declare("x", "int", self.rdom(3), 2, 1)
        else:
            for i in range(s.int(2, 4)):
                self.declare("v%d" % (i + 1), "int", self.rdom(4 if i < 2 else 3))

    def seq(self, lo=1, hi=4):
        t, e, b = self.vec(None, lo, hi)
        return t, e, b

    def rowval(self, e):
        s = self.src
        if e.hi - e.lo <= 8 and s.bool(7, 8):
            return s.int(e.lo, e.hi)
        return s.int(-2, 5)

    # ---- tables
    def g_table(self):
        s = self.src
        t, els, b = self.seq()
        if not els:
            return None
        nr = s.int(0 if s.bool(1, 10) else 1, 6)
        rows = [[self.rowval(e) for e in els] for _ in range(nr)]
        if nr > 1 and s.bool(1, 4):
            rows[-1] = list(rows[0])
        self.inc("table")
        b1 = s.choice([1, 1, 0])
        txt = tbl([["%d" % x for x in r] for r in rows], nr, len(els), (b1, b))
        S = set(map(tuple, rows))
        if nr == 0:
            txt = "array2d(1..0, %d..%d, [])" % (b, b + len(els) - 1)
        return self.B("table(%s, %s)" % (t, txt), els, lambda env: tuple(vals(els, env)) in S)

    def g_table_bool(self):
        s = self.src
        n = s.int(1, 4)
        els = [self.barg() for _ in range(n)]
        t, _, b = self.arr(els, ty="bool")
        nr = s.int(1, 5)
        rows = [[s.bool() for _ in els] for _ in range(nr)]
        S = set(map(tuple, rows))
        self.inc("table")
        txt = tbl([["true" if x else "false" for x in r] for r in rows], nr, n, (1, b))
        return self.B("table(%s, %s)" % (t, txt), els, lambda env: tuple(vals(els, env)) in S)

    def g_table_opt(self):
        s = self.src
        ov = self.ovars()
        if not ov:
            return None
        n = s.int(1, 3)
        els = [s.choice(ov) if s.bool(3, 4) else self.iarg() for _ in range(n)]
        if all(e.t != "oint" for e in els):
            return None
        t, _, b = self.arr(els)
        nr = s.int(1, 5)
        rows = [[None if s.bool(1, 3) else s.int(e.lo, min(e.hi, e.lo + 6)) for e in els] for _ in range(nr)]
        S = set(map(tuple, rows))
        self.inc("table")
        txt = tbl([["<>" if x is None else "%d" % x for x in r] for r in rows], nr, n, (s.choice([1, 0]), b))
        return self.B("table(%s, %s)" % (t, txt), els, lambda env: (lambda w: any(all(x is None or y is None or x == y for x, y in zip(w, r)) for r in S))(vals(els, env)))

    # ---- automata
    def dfa(self, Q, S, q0, F, d, cost=None):
        """run over values; d: dict (q, s) -> q or absent"""
        def f(w):
            q, tot = q0, 0
            for x in w:
                if (q, x) not in d:
                    return False, 0
                if cost:
                    tot += cost[(q, x)]
                q = d[(q, x)]
            return q in F, tot
        return f

    def mkdfa(self, vlo, vhi, qlo=1):
        s = self.src
        Q = s.int(1, 4)
        qs = range(qlo, qlo + Q)
        d = {}
        for q in qs:
            for x in range(vlo, vhi + 1):
                if s.bool(3, 4):
                    d[(q, x)] = s.choice(qs)
        F = set(s.sample(qs, s.int(1, Q))) if not s.bool(1, 12) else set()
        return Q, qs, d, s.choice(qs), F

    def vrange(self, els, lo=None):
        s = self.src
        if not els:
            els = [lit_int(1), lit_int(2)]
        if lo is None:
            lo = min(e.lo for e in els)
            lo += s.weighted([(4, 0), (1, 1), (1, -1)])
        hi = max(e.hi for e in els)
        hi += s.weighted([(5, 0), (1, -1), (1, 1)])
        return lo, max(lo, min(hi, lo + 6))

    def g_regular(self):
        s = self.src
        t, els, b = self.seq(0)
        lo, hi = self.vrange(els, 1)
        Q, qs, d, q0, F = self.mkdfa(1, hi)
        rows = [["%d" % d.get((q, x), 0) for x in range(1, hi + 1)] for q in qs]
        self.inc("regular")
        f = self.dfa(Q, hi, q0, F, d)
        return self.B("regular(%s, %d, %d, %s, %d, %s)" % (t, Q, hi, tbl(rows, Q, hi, (1, 1)), q0, setlit(sorted(F))), els,
                      lambda env: f(vals(els, env))[0])

    def g_regular_set(self):
        s = self.src
        t, els, b = self.seq(0)
        lo, hi = self.vrange(els)
        Q, qs, d, q0, F = self.mkdfa(lo, hi)
        rows = [["%d" % d.get((q, x), 0) for x in range(lo, hi + 1)] for q in qs]
        self.inc("regular")
        f = self.dfa(Q, hi, q0, F, d)
        return self.B("regular(%s, %d, %d..%d, %s, %d, %s)" % (t, Q, lo, hi, tbl(rows, Q, hi - lo + 1, (1, lo)), q0, setlit(sorted(F))), els,
                      lambda env: f(vals(els, env))[0])

    def g_regular_gen(self):
        s = self.src
        t, els, b = self.seq(0)
        lo, hi = self.vrange(els)
        ql = s.choice([1, 0, 3])
        Q, qs, d, q0, F = self.mkdfa(lo, hi, ql)
        rows = [["<>" if (q, x) not in d else "%d" % d[(q, x)] for x in range(lo, hi + 1)] for q in qs]
        if all(c == "<>" for r in rows for c in r):
            return None
        self.inc("regular")
        f = self.dfa(Q, hi, q0, F, d)
        return self.B("regular(%s, %s, %d, %s)" % (t, tbl(rows, Q, hi - lo + 1, (ql, lo)), q0, setlit(sorted(F))), els,
                      lambda env: f(vals(els, env))[0])

    def nfa(self, form):
        s = self.src
        t, els, b = self.seq(0)
        lo, hi = self.vrange(els, 1 if form == "int" else None)
        ql = s.choice([1, 0, 3]) if form == "gen" else 1
        Q = s.int(1, 3)
        qs = range(ql, ql + Q)
        d = {(q, x): set(s.sample(qs, s.weighted([(3, 1), (2, 2), (1, 0)]))) for q in qs for x in range(lo, hi + 1)}
        q0, F = s.choice(qs), set(s.sample(qs, s.int(1, Q)))
        rows = [[setlit(sorted(d[(q, x)])) for x in range(lo, hi + 1)] for q in qs]
        self.inc("regular_nfa")

        def f(env):
            cur = {q0}
            for x in vals(els, env):
                cur = set().union(*[d.get((q, x), set()) for q in cur]) if cur else set()
            return bool(cur & F)
        D = tbl(rows, Q, hi - lo + 1, (ql, lo))
        if form == "int":
            txt = "regular_nfa(%s, %d, %d, %s, %d, %s)" % (t, Q, hi, D, q0, setlit(sorted(F)))
        elif form == "set":
            txt = "regular_nfa(%s, %d, %d..%d, %s, %d, %s)" % (t, Q, lo, hi, D, q0, setlit(sorted(F)))
        else:
            txt = "regular_nfa(%s, %s, %d, %s)" % (t, D, q0, setlit(sorted(F)))
        return self.B(txt, els, f)

    def g_nfa(self):
        return self.nfa("int")

    def g_nfa_set(self):
        return self.nfa("set")

    def g_nfa_gen(self):
        return self.nfa("gen")

    # ---- regular expressions: (text, prec, matcher) where matcher(w, i) = set of end positions
    def rx(self, d, lo, hi):
        s = self.src
        k = s.weighted([(4, "lit"), (1, "any"), (2, "class"), (1, "neg")] + ([(4, "cat"), (3, "alt"), (4, "quant"), (1, "grp")] if d > 0 else []))
        if k == "lit":
            v = s.int(max(lo, 0), max(hi, 0))
            return "%d" % v, 0, lambda w, i: {i + 1} if i < len(w) and w[i] == v else set()
        if k == "any":
            return ".", 0, lambda w, i: {i + 1} if i < len(w) else set()
        if k in ("class", "neg"):
            parts, S = [], set()
            for _ in range(s.int(1, 2)):
                a = s.int(max(lo, 0), max(hi, 0))
                if s.bool():
                    b = s.int(a, max(hi, a))
                    parts.append("%d-%d" % (a, b))
                    S |= set(range(a, b + 1))
                else:
                    parts.append("%d" % a)
                    S.add(a)
            txt = " ".join(parts)
            if k == "class":
                return "[%s]" % txt, 0, lambda w, i: {i + 1} if i < len(w) and w[i] in S else set()
            return "[^%s]" % txt, 0, lambda w, i: {i + 1} if i < len(w) and w[i] not in S else set()
        if k == "grp":
            t, p, f = self.rx(d - 1, lo, hi)
            return "(%s)" % t, 0, f

        def par(x, mx):
            return x[0] if x[1] <= mx else "(%s)" % x[0]
        if k == "cat":
            a, b = self.rx(d - 1, lo, hi), self.rx(d - 1, lo, hi)

            def fc(w, i, f=a[2], g=b[2]):
                return set().union(*[g(w, j) for j in f(w, i)] or [set()])
            return "%s %s" % (par(a, 2), par(b, 2)), 2, fc
        if k == "alt":
            a, b = self.rx(d - 1, lo, hi), self.rx(d - 1, lo, hi)
            return "%s%s%s" % (par(a, 3), s.choice(["|", " | "]), par(b, 3)), 3, lambda w, i: a[2](w, i) | b[2](w, i)
        a = self.rx(d - 1, lo, hi)
        q = s.choice(["*", "+", "?", "n", "n,", "n,m"])
        n = s.int(0 if s.bool(1, 6) else 1, 2)
        m = n + s.int(0, 2)
        if q == "n" and n == 0 or q == "n,m" and m == 0:
            n, m = 1, max(m, 1)
        mn, mx = {"*": (0, None), "+": (1, None), "?": (0, 1), "n": (n, n), "n,": (n, None), "n,m": (n, m)}[q]
        qt = {"n": "{%d}" % n, "n,": "{%d,}" % n, "n,m": "{%d,%d}" % (n, m)}.get(q, q)

        def fq(w, i, f=a[2]):
            cur, out, c = {i}, set(), 0
            seen = {}
            while True:
                if c >= mn:
                    out |= cur
                if mx is not None and c >= mx or c > len(w) + mn + 1 or not cur:
                    return out
                cur = set().union(*[f(w, j) for j in cur] or [set()])
                c += 1
        return par(a, 0) + qt, 1, fq

    def g_regexp(self):
        s = self.src
        t, els, b = self.seq()
        if not els or not any(e.v for e in els):
            return None
        lo, hi = min(e.lo for e in els), max(e.hi for e in els)
        rt, _, f = self.rx(s.int(1, 3), max(lo, 0), max(min(hi, 6), 0))
        self.inc("regular")
        self.inc("regular_regexp")

        def g(env):
            w = vals(els, env)
            return len(w) in f(w, 0)
        return self.B('regular(%s, "%s")' % (t, rt), els, g)

    # ---- decision diagrams
    def mdd(self, nondet, cost):
        s = self.src
        t, els, b = self.seq(1, 3)
        L = len(els)
        if not L:
            return None
        lo, hi = min(e.lo for e in els), max(e.hi for e in els)
        hi = min(hi, lo + 5)
        levels = [[1]]
        k = 2
        for l in range(1, L):
            m = s.int(1, 2)
            levels.append(list(range(k, k + m)))
            k += m
        levels.append([0])
        N = k - 1
        lev = [0] * (N + 1)
        for l, ns in enumerate(levels[:-1]):
            for n in ns:
                lev[n] = l + 1
        edges = []
        for l in range(L):
            for n in levels[l]:
                free = list(range(lo, hi + 1))
                for m in levels[l + 1]:
                    if not s.bool(4, 5):
                        continue
                    src = list(range(lo, hi + 1)) if nondet else free
                    lab = s.sample(src, s.int(1, 3))
                    if not lab:
                        continue
                    if not nondet:
                        free = [x for x in free if x not in lab]
                    edges.append((n, set(lab), m, s.int(-1, 3)))
        if s.bool(1, 4):
            edges = s.shuffle(edges)
        if not edges:
            return None
        En = len(edges)
        self.inc("mdd", "mdd_nondet", "cost_mdd")

        def f(w):
            """set of costs of accepting paths"""
            cur = {(1, 0)}
            for x in w:
                cur = {(m, c + k) for n, c in cur for (n2, lab, m, k) in edges if n2 == n and x in lab}
            return {c for n, c in cur if n == 0}
        a = "[%s]" % ", ".join(map(str, lev[1:]))
        fr = "[%s]" % ", ".join(str(e[0]) for e in edges)
        lb = "[%s]" % ", ".join(setlit(sorted(e[1])) for e in edges)
        co = "[%s]" % ", ".join(str(e[3]) for e in edges)
        to = "[%s]" % ", ".join(str(e[2]) for e in edges)
        if cost:
            c = self.iarg()
            return self.B("cost_mdd(%s, %d, %s, %d, %s, %s, %s, %s, %s)" % (t, N, a, En, fr, lb, co, to, c.s), els + [c],
                          lambda env: (lambda w: w[-1] in f(w[:-1]))(vals(els + [c], env)))
        return self.B("%s(%s, %d, %s, %d, %s, %s, %s)" % ("mdd_nondet" if nondet else "mdd", t, N, a, En, fr, lb, to), els,
                      lambda env: bool(f(vals(els, env))))

    def g_mdd(self):
        return self.mdd(False, False)

    def g_mdd_nondet(self):
        return self.mdd(True, False)

    def g_cost_mdd(self):
        return self.mdd(False, True)

    def g_cost_regular(self):
        s = self.src
        t, els, b = self.seq()
        if not els:
            return None
        lo, hi = self.vrange(els, 1)
        Q, qs, d, q0, F = self.mkdfa(1, hi)
        rows = [["%d" % d.get((q, x), 0) for x in range(1, hi + 1)] for q in qs]
        cost = {(q, x): s.int(-1, 3) for q in qs for x in range(1, hi + 1)}
        crow = [["%d" % cost[(q, x)] for x in range(1, hi + 1)] for q in qs]
        c = self.iarg()
        self.inc("cost_regular")
        f = self.dfa(Q, hi, q0, F, d, cost)

        def g(env):
            w = vals(els + [c], env)
            return f(w[:-1]) == (True, w[-1])
        return self.B("cost_regular(%s, %d, %d, %s, %d, %s, %s, %s)" % (
            t, Q, hi, tbl(rows, Q, hi, (1, 1)), q0, setlit(sorted(F)), tbl(crow, Q, hi, (1, 1)), c.s), els + [c], g)
