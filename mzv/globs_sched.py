"""Scheduling, packing and flow constraints."""
from .globs import GG, vals, cov, adj
from .lang import lit_int, Arr, prod
from .core import SkipCase


class Scheduling(GG):
    MAXSOL = 700
    GROUP = [(4, "g_cumulative"), (3, "g_cumulative_opt"), (3, "g_cumulatives"), (1, "g_cumulatives_opt"), (4, "g_disj"), (3, "g_disj_opt"),
             (4, "g_diffn"), (2, "g_diffnk"), (3, "g_binpack"), (3, "g_binpack_capa"), (3, "g_binpack_load"), (2, "g_binpack_loadfn"),
             (3, "g_knapsack"), (3, "g_flow"), (3, "g_span"), (3, "g_alternative"), (2, "g_geost")]

    def setup(self):
        s = self.src
        self.scal, self.arrs = [], []
        base = s.weighted([(6, 1), (1, 0), (1, -1), (1, 3)])
        lay = s.weighted([(4, "xy"), (3, "one"), (3, "opt"), (2, "optd"), (2, "scal")])
        if lay == "xy":
            n = s.int(2, 3)
            self.declare("x", "int", self.rdom(4 if n == 2 else 3), n, base)
            self.declare("y", "int", self.ndom(3), 2, 1)
            if s.bool():
                self.declare("c", "int", self.ndom(3))
        elif lay == "one":
            n = s.int(2, 4)
            self.declare("x", "int", self.rdom({2: 5, 3: 4, 4: 4}[n]), n, base)
            if s.bool():
                self.declare("c", "int", self.ndom(2))
        elif lay == "opt":
            n = s.int(2, 3)
            self.declare("o", "int", self.odom(3), n, base)
            if s.bool():
                self.declare("d", "int", self.ndom(3))
            if s.bool():
                self.declare("b", "bool", [False, True])
        elif lay == "optd":
            self.declare("o", "int", self.odom(2), 2, base)
            self.declare("q", "int", self.odom(3))
            self.declare("d", "int", self.ndom(3), 1 if s.bool() else 2, 1)
        else:
            for i in range(s.int(2, 4)):
                self.declare("v%d" % (i + 1), "int", (self.rdom if s.bool(1, 3) else self.ndom)(4 if i < 2 else 3))
            if s.bool():
                self.declare("b", "bool", [False, True])

    def rdom(self, w):
        d = super().rdom(w)
        if self.src.bool(1, 10):
            d = d[:-1] + [6000]     # a long horizon selects another decomposition
        return d

    def ndom(self, w):
        lo = self.src.weighted([(4, 0), (3, 1), (1, 2)])
        return list(range(lo, lo + self.src.int(2, w)))

    def odom(self, w):
        return [None] + self.rdom(w)

    def narg(self, lo=0, hi=3):
        """non-negative argument, usually a constant"""
        s = self.src
        c = [v for v in self.ivars() if v.lo >= 0]
        if c and s.bool(2, 5):
            return s.choice(c)
        return lit_int(s.int(lo, hi))

    def oarg(self):
        s = self.src
        c = self.ovars()
        if c and s.bool(6, 7):
            return s.choice(c)
        return self.iarg()

    def starts(self, n):
        return self.vec(n, base=1, shape=False)

    def nvec(self, n, f, base=1):
        els = [f() for _ in range(n)]
        return self.arr(els, base, shape=False)[0], els

    def same(self, n, *fs):
        """several arrays over the same index set"""
        b = self.src.weighted([(6, 1), (1, 0), (1, 2)])
        return [self.nvec(n, f, b) for f in fs]

    # ------------------------------------------------------------------------------------------
    def g_cumulative(self):
        s = self.src
        n = s.weighted([(4, 2), (4, 3), (1, 1), (1, 4)])
        (st, se), (dt, de), (rt, re) = self.same(n, self.iarg, self.narg, self.narg)
        c = self.narg(0, 4)
        self.inc("cumulative", "cumulative_opt")
        els = se + de + re + [c]
        if any(e.lo <= 0 for e in de):
            self.nogcp = True  # Gecode's cumulatives propagator treats tasks without duration as obstacles
        return self.B("cumulative(%s, %s, %s, %s)" % (st, dt, rt, c.s), els, lambda env: cum(vals(els, env), n))

    def g_cumulative_opt(self):
        s = self.src
        if not self.ovars():
            return None
        n = s.weighted([(4, 2), (3, 3), (1, 1)])
        (st, se), (dt, de), (rt, re) = self.same(n, self.oarg, self.narg, self.narg)
        if all(e.t != "oint" for e in se):
            return None
        c = self.narg(0, 4)
        self.inc("cumulative", "cumulative_opt")
        els = se + de + re + [c]
        if any(e.lo <= 0 for e in de):
            self.nogcp = True  # Gecode's cumulatives propagator treats tasks without duration as obstacles
        return self.B("cumulative(%s, %s, %s, %s)" % (st, dt, rt, c.s), els, lambda env: cum(vals(els, env), n))

    def cumulatives(self, sarg):
        s = self.src
        n = s.weighted([(4, 2), (3, 3), (1, 1)])
        m = s.int(1, 2)
        mb = s.choice([1, 1, 0])
        c = [v for v in self.ivars() if v.lo >= mb and v.hi < mb + m]

        def marg():
            return s.choice(c) if c and s.bool(4, 5) else lit_int(s.int(mb, mb + m - 1))
        rlo = s.choice([0, 0, -2])
        (st, se), (dt, de), (rt, re), (mt, me) = self.same(n, sarg, self.narg, lambda: self.iarg() if s.bool(1, 3) else lit_int(s.int(rlo, 3)), marg)
        if sarg == self.oarg and all(e.t != "oint" for e in se):
            return None
        bt, be = self.nvec(m, lambda: self.narg(0, 4) if s.bool(4, 5) else lit_int(s.int(-2, 0)), mb)
        up = s.bool(2, 3)
        form = s.choice(["pos", "named"])
        self.inc("cumulatives", "cumulatives_opt")
        els = se + de + re + me + be

        def f(env):
            w = vals(els, env)
            S, D, R, M, B = w[:n], w[n:2 * n], w[2 * n:3 * n], w[3 * n:4 * n], w[4 * n:]
            for i in range(n):
                if S[i] is None:
                    continue
                for t in range(S[i], S[i] + D[i]):
                    k = M[i]
                    tot = sum(R[j] for j in range(n) if S[j] is not None and M[j] == k and S[j] <= t < S[j] + D[j])
                    if up and tot > B[k - mb] or not up and tot < B[k - mb]:
                        return False
            return True
        if form == "pos":
            t = "cumulatives(%s, %s, %s, %s, %s, %s)" % (st, dt, rt, mt, bt, "true" if up else "false")
        else:
            t = "cumulatives(%s, %s, %s, %s, %s: %s)" % (st, dt, rt, mt, "upper_bound" if up else "lower_bound", bt)
        return self.B(t, els, f)

    def g_cumulatives(self):
        return self.cumulatives(self.iarg)

    def g_cumulatives_opt(self):
        if not self.ovars():
            return None
        return self.cumulatives(self.oarg)

    def disj(self, sarg):
        s = self.src
        n = s.weighted([(4, 2), (4, 3), (1, 1), (1, 4)])
        (st, se), (dt, de) = self.same(n, sarg, self.narg)
        if sarg == self.oarg and all(e.t != "oint" for e in se):
            return None
        strict = s.bool()
        nm = "disjunctive_strict" if strict else "disjunctive"
        self.inc(nm, nm + "_opt")
        els = se + de

        def f(env):
            w = vals(els, env)
            S, D = w[:n], w[n:]
            for i in range(n):
                for j in range(i):
                    if S[i] is None or S[j] is None:
                        continue
                    if not strict and (D[i] == 0 or D[j] == 0):
                        continue
                    if not (S[i] + D[i] <= S[j] or S[j] + D[j] <= S[i]):
                        return False
            return True
        return self.B("%s(%s, %s)" % (nm, st, dt), els, f)

    def g_disj(self):
        return self.disj(self.iarg)

    def g_disj_opt(self):
        if not self.ovars():
            return None
        return self.disj(self.oarg)

    def g_diffn(self):
        s = self.src
        n = s.weighted([(4, 2), (3, 3), (1, 1)])
        a = self.same(n, self.iarg, self.iarg, self.narg, self.narg)
        nm = s.choice(["diffn", "diffn_nonstrict"])
        self.inc(nm)
        els = sum((e for _, e in a), [])
        return self.B("%s(%s)" % (nm, ", ".join(t for t, _ in a)), els,
                      lambda env: boxes([(w[i], w[n + i]) for w in [vals(els, env)] for i in range(n)],
                                        [(w[2 * n + i], w[3 * n + i]) for w in [vals(els, env)] for i in range(n)], nm == "diffn"))

    def g_diffnk(self):
        s = self.src
        n, k = s.int(1, 3), s.int(1, 3)
        p = [self.iarg() for _ in range(n * k)]
        z = [self.narg() for _ in range(n * k)]
        nm = s.choice(["diffn_k", "diffn_nonstrict_k"])
        self.inc(nm)
        els = p + z
        ix = "1..%d, 1..%d" % (n, k)

        def f(env):
            w = vals(els, env)
            P = [tuple(w[i * k:i * k + k]) for i in range(n)]
            Z = [tuple(w[n * k + i * k:n * k + i * k + k]) for i in range(n)]
            return boxes(P, Z, nm == "diffn_k")
        return self.B("%s(array2d(%s, [%s]), array2d(%s, [%s]))" % (nm, ix, ", ".join(e.s for e in p), ix, ", ".join(e.s for e in z)), els, f)

    # ---- packing -----------------------------------------------------------------------------
    def binarg(self):
        return self.oarg if self.ovars() and self.src.bool(1, 2) else self.iarg

    def g_binpack(self):
        s = self.src
        n = s.int(1, 4)
        (bt, be), = self.same(n, self.binarg())
        b0 = self.base(bt)
        w = self.pvec(n, 0, 3)
        wt = self.arr([lit_int(x) for x in w], b0, False)[0]
        c = s.int(0, 5)
        self.inc("bin_packing")

        def f(env):
            v = vals(be, env)
            return all(sum(w[i] for i in range(n) if v[i] == k) <= c for k in set(v) - {None})
        return self.B("bin_packing(%d, %s, %s)" % (c, bt, wt), be, f)

    def base(self, t):
        return int(t[len("array1d("):].split("..")[0]) if t.startswith("array1d(") else 1

    def g_binpack_capa(self):
        s = self.src
        n, m = s.int(1, 4), s.int(1, 4)
        (bt, be), = self.same(n, self.binarg())
        w = self.pvec(n, 0, 3)
        wt = self.arr([lit_int(x) for x in w], self.base(bt), False)[0]
        cap = self.pvec(m, 0, 5)
        cb = s.choice([1, 1, 0, -1])
        ct = self.arr([lit_int(x) for x in cap], cb, False)[0]
        self.inc("bin_packing_capa")

        def f(env):
            v = vals(be, env)
            return all(x is None or cb <= x < cb + m for x in v) and all(sum(w[i] for i in range(n) if v[i] == k + cb) <= cap[k] for k in range(m))
        return self.B("bin_packing_capa(%s, %s, %s)" % (ct, bt, wt), be, f)

    def g_binpack_load(self):
        s = self.src
        n, m = s.int(1, 4), s.int(1, 3)
        (bt, be), = self.same(n, self.binarg())
        w = self.pvec(n, 0, 3)
        wt = self.arr([lit_int(x) for x in w], self.base(bt), False)[0]
        cb = s.choice([1, 1, 0, -1])
        lt, le = self.nvec(m, lambda: self.iarg() if s.bool() else lit_int(s.int(0, 3)), cb)
        self.inc("bin_packing_load")
        els = be + le

        def f(env):
            v = vals(els, env)
            v, L = v[:n], v[n:]
            return all(x is None or cb <= x < cb + m for x in v) and all(sum(w[i] for i in range(n) if v[i] == k + cb) == L[k] for k in range(m))
        return self.B("bin_packing_load(%s, %s, %s)" % (lt, bt, wt), els, f)

    def g_binpack_loadfn(self):
        s = self.src
        n = s.int(1, 4)
        (bt, be), = self.same(n, self.iarg)
        w = self.pvec(n, 0, 3)
        wt = self.arr([lit_int(x) for x in w], self.base(bt), False)[0]
        lo, hi = min(e.lo for e in be), max(e.hi for e in be)
        k = s.int(lo, hi)
        self.inc("bin_packing_load_fn")
        # constant items of weight 0 fix the index set of the result (it is the range of the bounds of bin)
        bt, wt = "%s ++ [%d, %d]" % (bt, lo, hi), "%s ++ [0, 0]" % wt
        return self.I("(bin_packing_load(%s, %s))[%d]" % (bt, wt, k), be, lambda env: sum(w[i] for i, x in enumerate(vals(be, env)) if x == k), 0, sum(w))

    def g_knapsack(self):
        s = self.src
        n = s.int(1, 3)
        (xt, xe), = self.same(n, self.narg)
        w, p = self.pvec(n, 0, 3), self.pvec(n, 0, 3)
        b = self.base(xt)
        wt, pt = [self.arr([lit_int(x) for x in q], b, False)[0] for q in (w, p)]
        W, P = self.iarg(), self.iarg()
        self.inc("knapsack")
        els = xe + [W, P]

        def f(env):
            v = vals(els, env)
            return sum(a * c for a, c in zip(w, v)) == v[n] and sum(a * c for a, c in zip(p, v)) == v[n + 1]
        return self.B("knapsack(%s, %s, %s, %s, %s)" % (wt, pt, xt, W.s, P.s), els, f)

    def g_flow(self):
        s = self.src
        m, N = s.int(1, 4), s.int(2, 3)
        cost = s.bool()
        arcs = [(s.int(1, N), s.int(1, N)) for _ in range(m)]
        fe = [self.iarg() for _ in range(m)]
        bal = [s.small(-2, 2) for _ in range(N)]
        if s.bool(7, 8):
            bal[0] = -sum(bal[1:])
        ft = "[" + ", ".join(e.s for e in fe) + "]"
        at = "[|" + "|".join("%d,%d" % a for a in arcs) + "|]"
        nm = "network_flow_cost" if cost else "network_flow"
        self.inc("network_flow")
        w = self.pvec(m, -1, 3)
        C = self.iarg()
        els = fe + ([C] if cost else [])

        def f(env):
            v = vals(els, env)
            for i in range(1, N + 1):
                o = sum(v[k] for k, (a, b) in enumerate(arcs) if a == i)
                n_ = sum(v[k] for k, (a, b) in enumerate(arcs) if b == i)
                if o - n_ != bal[i - 1]:
                    return False
            return not cost or sum(a * b for a, b in zip(w, v)) == v[m]
        if cost:
            return self.B("%s(%s, %s, %s, %s, %s)" % (nm, at, cov(bal), cov(w), ft, C.s), els, f)
        return self.B("%s(%s, %s, %s)" % (nm, at, cov(bal), ft), els, f)

    # ---- optional tasks -----------------------------------------------------------------------
    def spans(self, alt):
        s = self.src
        if not self.ovars():
            return None
        n = s.int(1, 3)
        s0, d0 = self.oarg(), self.narg(0, 4)
        (st, se), (dt, de) = self.same(n, self.oarg, self.narg)
        if self.base(st) != 1 and alt:
            pass
        els = [s0, d0] + se + de

        def f(env):
            v = vals(els, env)
            S0, D0, S, D = v[0], v[1], v[2:2 + n], v[2 + n:]
            occ = [i for i in range(n) if S[i] is not None]
            if alt and len(occ) != (S0 is not None):
                return False
            if S0 is None:
                return not occ and D0 == 0
            if not occ:
                return False
            return S0 == min(S[i] for i in occ) and S0 + D0 == max(S[i] + D[i] for i in occ)
        return "(%s, %s, %s, %s)" % (s0.s, d0.s, st, dt), els, f

    def g_span(self):
        r = self.spans(False)
        if r is None or all(e.t != "oint" for e in r[1]):
            return None
        self.inc("span")
        return self.B("span" + r[0], *r[1:])

    def g_alternative(self):
        r = self.spans(True)
        if r is None or all(e.t != "oint" for e in r[1]):
            return None
        self.inc("alternative")
        return self.B("alternative" + r[0], *r[1:])

    def g_geost(self):
        s = self.src
        k = s.int(1, 2)
        nr, ns, no = s.int(1, 3), s.int(1, 2), s.int(1, 2)
        size = [[s.int(1, 2) for _ in range(k)] for _ in range(nr)]
        off = [[s.int(0, 1) for _ in range(k)] for _ in range(nr)]
        shapes = [sorted(s.sample(range(1, nr + 1), s.int(1, min(2, nr)))) for _ in range(ns)]
        xs = [[self.iarg() for _ in range(k)] for _ in range(no)]
        kc = [v for v in self.ivars() if v.lo >= 1 and v.hi <= ns]
        kind = [s.choice(kc) if kc and s.bool() else lit_int(s.int(1, ns)) for _ in range(no)]
        self.inc("geost")
        els = sum(xs, []) + kind

        def t2(m, f=str):
            return "array2d(1..%d, 1..%d, [%s])" % (len(m), k, ", ".join(f(x) for r in m for x in r))

        def f(env):
            v = vals(els, env)
            P = [v[i * k:i * k + k] for i in range(no)]
            K = v[no * k:]
            for i in range(no):
                for j in range(i):
                    for r in shapes[K[i] - 1]:
                        for q in shapes[K[j] - 1]:
                            if all(P[i][d] + off[r - 1][d] < P[j][d] + off[q - 1][d] + size[q - 1][d] and
                                   P[j][d] + off[q - 1][d] < P[i][d] + off[r - 1][d] + size[r - 1][d] for d in range(k)):
                                return False
            return True
        return self.B("geost(%s, %s, [%s], %s, [%s])" % (t2(size), t2(off), ", ".join("{" + ",".join(map(str, x)) + "}" for x in shapes),
                      t2(xs, lambda e: e.s), ", ".join(e.s for e in kind)), els, f)


def cum(w, n):
    S, D, R, c = w[:n], w[n:2 * n], w[2 * n:3 * n], w[3 * n]
    pts = [x for x in S if x is not None]
    if not pts:
        return n == 0 or c >= 0
    for t in range(min(pts), max(a + b for a, b in zip(S, D) if a is not None) + 1):
        if sum(r for a, d, r in zip(S, D, R) if a is not None and a <= t < a + d) > c:
            return False
    return c >= 0


def boxes(P, Z, strict):
    n = len(P)
    for i in range(n):
        for j in range(i):
            if not strict and (0 in Z[i] or 0 in Z[j]):
                continue
            if all(p + z > q and q + y > p for p, z, q, y in zip(P[i], Z[i], P[j], Z[j])):
                return False
    return True
