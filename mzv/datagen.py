"""Random parameter types and values, written in every data format MiniZinc reads and compared in every format it writes.

Types: ("int",dom) ("float",dom) ("bool",) ("str",) ("enum",name) ("set",T) ("opt",T) ("arr",[ix..],T) ("tup",[T..]) ("rec",[(n,T)..])
where dom is None | (lo,hi) | [values] and ix is ("r",lo,hi) | ("e",name) | ("i",) (open).
Values: int float bool str, EV(enum, index), None, SetV(values) or SetV(range) , ArrV(ix,flat), tuple, dict."""
import json, math
from .core import SkipCase


class EV:
    __slots__ = ("n", "i")

    def __init__(self, n, i):
        self.n, self.i = n, i


class SetV:
    """a set; for floats possibly a range (lo, hi)"""
    def __init__(self, vals, rng=None):
        self.vals, self.rng = vals, rng


class ArrV:
    def __init__(self, ix, v):
        self.ix, self.v = ix, v  # ix: [(kind, lo, hi)], kind "int" or enum name


class Enum:
    """kind 'names': names; 'cons': names plus constructor over 1..k ; 'anon': k values"""
    def __init__(self, name, kind, names, con=None, k=0):
        self.name, self.kind, self.names, self.con, self.k = name, kind, names, con, k
        self.size = len(names) + k

    def text(self, i, q):
        """of the i-th value; q: identifiers that need it are quoted"""
        if i <= len(self.names):
            return ident(self.names[i - 1]) if q else self.names[i - 1]
        j = i - len(self.names)
        if self.kind == "anon":
            return "to_enum(%s,%d)" % (self.name, j)
        return "%s(%d)" % (self.con, j)

    def js(self, i):
        if i <= len(self.names):
            return {"e": self.names[i - 1]}
        j = i - len(self.names)
        if self.kind == "anon":
            return {"e": self.name, "i": j}
        return {"c": self.con, "e": j}

    def rhs(self):
        if self.kind == "anon":
            return "anon_enum(%d)" % self.k
        s = "{%s}" % ", ".join(map(ident, self.names))
        return s if self.kind == "names" else s + " ++ %s(1..%d)" % (self.con, self.k)


def ident(n):
    return n if n.isidentifier() and n.isascii() and not n.startswith("_") else "'%s'" % n


NAMES = ["A", "Bc", "d1", "x y", "é", "longer_name", "Z", "a-b", "Tt"]
STR = ["", "a", "hello world", "q\"q", "back\\slash", "tab\there", "line\nbreak", "é€", "%", "a;b", "{x}", "'", "\\(x)", "😀"]


class Data:
    def __init__(self, src):
        self.src = src
        self.enums = {}
        self.labels = set()
        self.n = 0

    def mkenums(self):
        s = self.src
        pool = list(NAMES)
        for name in ["E", "F"][: s.int(0, 2)]:
            kind = s.weighted([(4, "names"), (2, "cons"), (1, "anon")])
            k = s.int(1, 3)
            names = [] if kind == "anon" else s.sample(pool, k)
            pool = [x for x in pool if x not in names]
            self.enums[name] = Enum(name, kind, names, "K" + name, 0 if kind == "names" else s.int(1, 3))
            self.labels.add("enum:" + kind)

    # -- types --------------------------------------------------------------------------------
    def scalar(self, opt=True, sets=True, dom=True, st=True):
        s = self.src
        ks = [(5, "int"), (3, "float"), (2, "bool")]
        if st:
            ks.append((2, "str"))
        if self.enums:
            ks.append((4, "enum"))
        if sets:
            ks.append((3, "set"))
        k = s.weighted(ks)
        if k == "int":
            t = ("int", None)
            if dom and s.bool(1, 3):
                lo = s.small(-5, 5)
                t = ("int", (lo, lo + s.int(0, 6)) if s.bool(2, 3) else sorted({lo, lo + s.int(1, 4), lo + s.int(2, 9)}))
        elif k == "float":
            t = ("float", None)
            if dom and s.bool(1, 4):
                lo = s.small(-8, 8) / 2
                t = ("float", (lo, lo + s.int(0, 9) / 4))
        elif k == "enum":
            t = ("enum", s.choice(sorted(self.enums)))
        elif k == "set":
            while True:
                e = self.scalar(False, False, dom, False)
                if not (e[0] == "float" and e[1]):
                    break
            t = ("set", e)
        else:
            t = (k,)
        if opt and k != "set" and s.bool(1, 5):
            t = ("opt", t)
        return t

    def type(self, d=2, top=True):
        s = self.src
        k = s.weighted([(5, "s"), (5, "arr"), (1, "tup"), (1, "rec")]) if d > 0 else "s"
        if k == "s":
            return self.scalar()
        if k == "tup":
            return ("tup", [self.type(d - 1, False) for _ in range(s.int(1 if s.bool(1, 6) else 2, 3))])
        if k == "rec":
            return ("rec", [(n, self.type(d - 1, False)) for n in ["a", "b", "e", "i"][: s.int(1, 3)]])
        nd = s.weighted([(5, 1), (3, 2), (1, 3)])
        ix = []
        if s.bool(1, 3) and nd <= 2:
            ix = [("i",)] * nd
        else:
            for _ in range(nd):
                if self.enums and s.bool(1, 4):
                    ix.append(("e", s.choice(sorted(self.enums))))
                else:
                    lo = s.weighted([(5, 1), (2, 0), (1, -2), (1, 4)])
                    ix.append(("r", lo, lo + s.int(0, 3) - s.weighted([(12, 0), (1, 1)])))
        e = self.type(d - 1, False)
        while e[0] == "arr":
            e = e[2]
        return ("arr", ix, e)

    def ttext(self, t):
        k = t[0]
        if k in ("int", "float"):
            if t[1] is None:
                return k
            if isinstance(t[1], tuple):
                return "%s..%s" % (num(t[1][0]), num(t[1][1]))
            return "{%s}" % ",".join(map(num, t[1]))
        if k == "bool":
            return k
        if k == "str":
            return "string"
        if k == "enum":
            return t[1]
        if k == "set":
            return "set of " + self.ttext(t[1])
        if k == "opt":
            return "opt " + self.ttext(t[1])
        if k == "tup":
            return "tuple(%s)" % ", ".join(map(self.ttext, t[1]))
        if k == "rec":
            return "record(%s)" % ", ".join("%s: %s" % (self.ttext(x), n) for n, x in t[1])
        return "array[%s] of %s" % (", ".join("%d..%d" % i[1:] if i[0] == "r" else i[1] if i[0] == "e" else "int" for i in t[1]), self.ttext(t[2]))

    # -- values -------------------------------------------------------------------------------
    def value(self, t):
        s = self.src
        k = t[0]
        if k == "int":
            if t[1] is None:
                return s.weighted([(8, 0), (1, 1), (1, 2)]) and s.choice([2147483647, 2147483648, -2147483649, 4000000000, 123456789012, -999999999999999]) or s.small(-20, 30)
            return s.int(*t[1]) if isinstance(t[1], tuple) else s.choice(t[1])
        if k == "float":
            if t[1] is None:
                return s.choice([s.small(-40, 40) / 4, s.small(-9, 9) * 1.0, 1e10, -1.5e-5, 0.1, 3.141592653589793, 1e15, 2.5e-7, 123456.789])
            lo, hi = t[1]
            return lo + s.draw(int((hi - lo) * 4) + 1) / 4
        if k == "bool":
            return s.bool()
        if k == "str":
            return s.choice(STR)
        if k == "enum":
            return EV(t[1], s.int(1, self.enums[t[1]].size))
        if k == "opt":
            return None if s.bool(1, 3) else self.value(t[1])
        if k == "set":
            e = t[1]
            if e[0] == "float" and s.bool(1, 3):
                a = self.value(e)
                if abs(a) > 1e6:
                    a = 1.5
                b = a + s.int(1, 9) / 4
                return SetV([], (a, b))
            vals = [self.value(e) for _ in range(s.int(0, 3) if e[0] != "float" else s.int(1, 3))]
            if e[0] in ("int", "enum") and vals and s.bool(1, 2):
                a = vals[0].i if e[0] == "enum" else vals[0]
                for j in range(1, s.int(2, 5)):
                    x = a + j
                    if e[0] == "enum":
                        if x <= self.enums[e[1]].size:
                            vals.append(EV(e[1], x))
                    elif e[1] is None or (isinstance(e[1], tuple) and x <= e[1][1]):
                        vals.append(x)
            if e[0] == "enum":
                vals = [EV(e[1], i) for i in sorted({v.i for v in vals})]
            else:
                vals = sorted(set(vals))
            return SetV(vals)
        if k == "tup":
            return tuple(self.value(x) for x in t[1])
        if k == "rec":
            return {n: self.value(x) for n, x in t[1]}
        ix = []
        for i in t[1]:
            if i[0] == "r":
                ix.append(("int", i[1], max(i[2], i[1] - 1)))
            elif i[0] == "e":
                ix.append((i[1], 1, self.enums[i[1]].size))
            else:
                lo = s.weighted([(5, 1), (1, 0), (1, 3)])
                ix.append(("int", lo, lo + s.int(0, 3) - (1 if len(t[1]) == 1 and s.bool(1, 6) else 0)))
        n = 1
        for _, lo, hi in ix:
            n *= hi - lo + 1
        if n > 24:
            raise SkipCase("large array")
        if n == 0:
            self.labels.add("empty-array")
        return ArrV(ix, [self.value(t[2]) for _ in range(n)])

    # -- writers ------------------------------------------------------------------------------
    def show(self, v, q=False):
        """what show(v) prints (floats marked as in pareval.render)"""
        if isinstance(v, bool):
            return "true" if v else "false"
        if isinstance(v, int):
            return str(v)
        if isinstance(v, float):
            return "\x01%r\x02" % v
        if isinstance(v, str):
            return mstr(v)
        if v is None:
            return "<>"
        if isinstance(v, EV):
            return self.enums[v.n].text(v.i, q)
        if isinstance(v, SetV):
            if v.rng:
                return "%s..%s" % tuple(map(self.show, v.rng))
            l = v.vals
            if not l:
                return "{}"
            if isinstance(l[0], float):
                return "{" + ",".join(map(self.show, l)) + "}" if len(l) > 1 else "%s..%s" % (self.show(l[0]), self.show(l[0]))
            if isinstance(l[0], bool):
                return "{" + ",".join(map(self.show, l)) + "}"
            if isinstance(l[0], int) and l[-1] - l[0] == len(l) - 1:
                return "%d..%d" % (l[0], l[-1])
            return "{" + (", " if isinstance(l[0], EV) else ",").join(self.show(x, q) for x in l) + "}"
        if isinstance(v, ArrV):
            return "[" + ", ".join(self.show(x, q) for x in v.v) + "]"
        if isinstance(v, tuple):
            return "(" + ", ".join(self.show(x, q) for x in v) + ("," if len(v) == 1 else "") + ")"
        return "(" + ", ".join("%s: %s" % (n, self.show(x, q)) for n, x in v.items()) + ")"

    def js(self, v):
        """the value in JSON (as Python data)"""
        if isinstance(v, EV):
            return self.enums[v.n].js(v.i)
        if isinstance(v, SetV):
            return {"set": [list(v.rng)] if v.rng else [self.js(x) for x in v.vals]}
        if isinstance(v, ArrV):
            def nest(dims, vals):
                if len(dims) == 1:
                    return vals
                n = dims[0]
                k = len(vals) // n if n else 0
                return [nest(dims[1:], vals[i * k:(i + 1) * k]) for i in range(n)]
            return nest([hi - lo + 1 for _, lo, hi in v.ix], [self.js(x) for x in v.v])
        if isinstance(v, tuple):
            return [self.js(x) for x in v]
        if isinstance(v, dict):
            return {n: self.js(x) for n, x in v.items()}
        return v

    def jstext(self, v, t, top=True):
        """JSON text with the spellings the documentation allows"""
        s = self.src
        if v is None:
            return "null"
        if t[0] == "opt":
            return self.jstext(v, t[1], top)
        if isinstance(v, bool):
            return "true" if v else "false"
        if isinstance(v, str):
            return json.dumps(v, ensure_ascii=s.bool())
        if isinstance(v, EV):
            e = self.enums[v.n]
            if e.kind == "names" and top and s.bool(1, 3):
                return json.dumps(e.names[v.i - 1], ensure_ascii=False)
            return json.dumps(e.js(v.i), ensure_ascii=False)
        if isinstance(v, float):
            return "%d" % v if v == int(v) and abs(v) < 1e9 and s.bool(1, 3) else repr(v)
        if isinstance(v, int):
            return str(v)
        sp = s.choice(["", " ", "\n "])
        if isinstance(v, SetV):
            if v.rng:
                l = ["[%r,%r]" % v.rng]
            else:
                l = [self.jstext(x, t[1], False) for x in v.vals]
                w = v.vals
                if len(w) > 2 and isinstance(w[0], int) and not isinstance(w[0], bool) and w[-1] - w[0] == len(w) - 1 and s.bool():
                    l = ["[%d,%d]" % (w[0], w[-1])]
                elif s.bool(1, 3) and isinstance(w[:1], list) and w and isinstance(w[0], int):
                    l = s.shuffle(l)
            return "{%s\"set\":%s[%s]}" % (sp, sp, ("," + sp).join(l))
        if isinstance(v, ArrV):
            top2 = top

            def nest(dims, vals):
                if len(dims) == 1:
                    return "[" + ("," + sp).join(self.jstext(x, t[2], top2) for x in vals) + "]"
                n = dims[0]
                k = len(vals) // n if n else 0
                return "[" + ("," + sp).join(nest(dims[1:], vals[i * k:(i + 1) * k]) for i in range(n)) + "]"
            return nest([hi - lo + 1 for _, lo, hi in v.ix], v.v)
        if isinstance(v, tuple):
            return "[" + ("," + sp).join(self.jstext(x, y, False) for x, y in zip(v, t[1])) + "]"
        fs = [(n, x) for n, x in v.items()]
        ty = dict(t[1])
        return "{" + ("," + sp).join("\"%s\":%s%s" % (n, sp, self.jstext(x, ty[n], False)) for n, x in s.shuffle(fs)) + "}"

    def mzn(self, v, t):
        """a MiniZinc expression for the value"""
        s = self.src
        if v is None:
            return "<>"
        if t[0] == "opt":
            return self.mzn(v, t[1])
        if isinstance(v, bool):
            return "true" if v else "false"
        if isinstance(v, float):
            k = s.weighted([(5, 0), (1, 1), (1, 2)])
            if k == 1 and v == int(v) and abs(v) < 1e9:
                return "%d" % v
            if k == 2:
                return ("%.17e" % v).replace("e", s.choice("eE"))
            return repr(v)
        if isinstance(v, int):
            k = s.weighted([(8, 0), (1, 1), (1, 2), (1, 3)])
            a = {0: "%d", 1: "0x%x", 2: "0o%o", 3: "0x%X"}[k] % abs(v)
            return "-" + a if v < 0 else a
        if isinstance(v, str):
            if len(v) > 2 and s.bool(1, 5):
                k = s.int(1, len(v) - 1)
                return mstr(v[:k]) + " ++ " + mstr(v[k:])
            return mstr(v)
        if isinstance(v, EV):
            return self.enums[v.n].text(v.i, True)
        if isinstance(v, SetV):
            if v.rng:
                return "%r..%r" % v.rng
            w = v.vals
            if w and isinstance(w[0], int) and not isinstance(w[0], bool) and w[-1] - w[0] == len(w) - 1 and s.bool():
                return "%d..%d" % (w[0], w[-1])
            if w and isinstance(w[0], EV) and w[-1].i - w[0].i == len(w) - 1 and s.bool(1, 3):
                return "%s..%s" % (self.mzn(w[0], t[1]), self.mzn(w[-1], t[1]))
            return "{%s}" % ", ".join(self.mzn(x, t[1]) for x in (s.shuffle(w) if s.bool(1, 3) else w))
        if isinstance(v, tuple):
            return "(" + ", ".join(self.mzn(x, y) for x, y in zip(v, t[1])) + ("," if len(v) == 1 else "") + ")"
        if isinstance(v, dict):
            ty = dict(t[1])
            return "(" + ", ".join("%s: %s" % (n, self.mzn(x, ty[n])) for n, x in s.shuffle(list(v.items()))) + ")"
        els = [self.mzn(x, t[2]) for x in v.v]
        ix = v.ix
        if len(ix) == 1:
            k, lo, hi = ix[0]
            std = (k == "int" and lo == 1) or k != "int"
            f = s.weighted([(4, "lit"), (1, "idx"), (1, "fn")])
            if f == "lit" and std:
                return "[" + ", ".join(els) + ("," if els and s.bool(1, 8) else "") + "]"
            if f == "idx" and els:
                self.labels.add("fmt:indexed")
                return "[" + ", ".join("%s: %s" % (self.ixv(k, lo + j), e) for j, e in enumerate(els)) + "]"
            if not els and (std or t[1][0] != ("i",)):
                return "[]"
            return "array1d(%s, [%s])" % (self.ixs(ix[0]), ", ".join(els))
        if len(ix) == 2 and els and s.bool(2, 3):
            n = ix[1][2] - ix[1][1] + 1
            rows = [els[i:i + n] for i in range(0, len(els), n)]
            std = [k != "int" or lo == 1 for k, lo, hi in ix]
            rowh = not std[0] or s.bool(1, 4)
            colh = not std[1] or s.bool(1, 4)
            if (rowh or colh) and ix[0][0] != "int":
                rowh = True  # (an enumerated dimension without header is only inferred if there is no header at all)
            if (rowh or colh) and ix[1][0] != "int":
                colh = True
            out = []
            if colh:
                out.append(" ".join("%s:" % self.ixv(ix[1][0], ix[1][1] + j) for j in range(n)))
                self.labels.add("fmt:colheader")
            for i, r in enumerate(rows):
                out.append(("%s: " % self.ixv(ix[0][0], ix[0][1] + i) if rowh else "") + ", ".join(r))
            if rowh:
                self.labels.add("fmt:rowheader")
            return "[| " + "\n | ".join(out) + " |]"
        return "array%dd(%s, [%s])" % (len(ix), ", ".join(map(self.ixs, ix)), ", ".join(els))

    def ixv(self, k, i):
        return str(i) if k == "int" else self.enums[k].text(i, True)

    def ixs(self, ix):
        k, lo, hi = ix
        return k if k != "int" else "%d..%d" % (lo, hi)

    def onebased(self, v, t):
        """whether JSON (which has no index sets) can carry the value"""
        if isinstance(v, ArrV):
            if any(i[0] == "i" and x[1] != 1 for i, x in zip(t[1], v.ix)):
                return False
            return all(self.onebased(x, t[2]) for x in v.v)
        if isinstance(v, tuple):
            return all(self.onebased(x, y) for x, y in zip(v, t[1]))
        if isinstance(v, dict):
            return all(self.onebased(v[n], y) for n, y in t[1])
        return True


def dznloses(v, t, en, inside=False):
    """DZN output of arrays of enumerated values inside tuples and records has no index sets (known finding)"""
    if isinstance(v, ArrV):
        if inside and (len(v.ix) > 1 or (v.ix[0][0] == "int" and v.ix[0][1] != 1)):
            return True
        return any(dznloses(x, t[2], en, inside) for x in v.v)
    if isinstance(v, tuple):
        return any(dznloses(x, y, en, inside or has_enum(t)) for x, y in zip(v, t[1]))
    if isinstance(v, dict):
        return any(dznloses(v[n], y, en, inside or has_enum(t)) for n, y in t[1])
    return False


def has_enum(t):
    if t[0] == "enum":
        return True
    if t[0] in ("set", "opt"):
        return has_enum(t[1])
    if t[0] == "arr":
        return has_enum(t[2]) or any(i[0] == "e" for i in t[1])
    if t[0] == "tup":
        return any(map(has_enum, t[1]))
    return t[0] == "rec" and any(has_enum(x) for _, x in t[1])


def num(x):
    return str(x)


def mstr(v):
    return '"' + v.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n").replace("\t", "\\t") + '"'


def jeq(a, b):
    """JSON data equal; sets compared as unions of ranges; floats with tolerance"""
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) == {"set"} and set(b) == {"set"}:
            return seteq(a["set"], b["set"])
        return set(a) == set(b) and all(jeq(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(jeq(x, y) for x, y in zip(a, b))
    if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return type(a) is type(b) and a == b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return type(a) is type(b) and (a == b or (isinstance(a, float) and abs(a - b) <= 1e-9 * max(1, abs(a))))
    return False


def seteq(a, b):
    def norm(l):
        out = []
        for x in l:
            if isinstance(x, list):
                if isinstance(x[0], int):
                    out += list(range(x[0], x[1] + 1))
                elif x[0] == x[1]:
                    out.append(x[0])
                else:
                    out.append(x)
            else:
                out.append(x)
        return sorted(out, key=lambda x: json.dumps(x)) if out and isinstance(out[0], (int, str, bool)) else out
    x, y = norm(a), norm(b)
    return len(x) == len(y) and all(jeq(u, v) for u, v in zip(x, y))
