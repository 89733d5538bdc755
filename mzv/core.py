"""Small property-based testing engine.

Every random decision of a generator goes through Src.draw, so a case is a pure function of
(VERIF_SEED, property, index) and any failing case can be shrunk on its choice sequence and
replayed.  Cases run in a pool of worker processes; their number, not a clock, bounds a run."""
import os, sys, json, time, random, hashlib, multiprocessing, shutil, tempfile, traceback, signal

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JOBS = int(os.environ.get("MZV_JOBS", os.cpu_count() or 8))


class SkipCase(Exception):
    """The generated case lies outside the property's domain (counted, never silently)."""


class Src:
    def __init__(self, seed=None, choices=None):
        self.rng = random.Random(seed) if choices is None else None
        self.replay = choices
        self.choices = []

    def draw(self, n):
        """integer in [0, n)"""
        if n <= 1:
            return 0
        if self.replay is None:
            v = self.rng.randrange(n)
        else:
            i = len(self.choices)
            v = self.replay[i] if i < len(self.replay) else 0
            if v >= n:
                v = n - 1
        self.choices.append(v)
        if len(self.choices) > 20000:
            raise SkipCase("too many choices")
        return v

    def int(self, lo, hi):
        return lo + self.draw(hi - lo + 1)

    def small(self, lo, hi):
        """an int in [lo,hi]; 0 (or the value closest to 0) is the simplest"""
        n = hi - lo + 1
        base = min(max(0, lo), hi)
        order = sorted(range(lo, hi + 1), key=lambda x: (abs(x - base), x < base)) if n <= 64 else None
        v = self.draw(n)
        return order[v] if order else lo + v

    def bool(self, num=1, den=2):
        """True with probability num/den; False is the simple value"""
        return self.draw(den) >= den - num

    def choice(self, seq):
        return seq[self.draw(len(seq))]

    def weighted(self, items):
        """items: [(weight, value)], first is simplest"""
        tot = sum(w for w, _ in items)
        r = self.draw(tot)
        for w, v in items:
            if r < w:
                return v
            r -= w
        raise AssertionError

    def sample(self, seq, k):
        seq = list(seq)
        out = []
        for _ in range(min(k, len(seq))):
            out.append(seq.pop(self.draw(len(seq))))
        return out

    def shuffle(self, seq):
        seq = list(seq)
        out = []
        while seq:
            out.append(seq.pop(self.draw(len(seq))))
        return out


class Res:
    """Outcome of one case.  status: ok | fail | skip | inconclusive"""

    def __init__(self, status, kind="", msg="", nontrivial=False, key=None, labels=(), sample=None, sub=1,
                 sub_nontrivial=None, finding=None):
        self.status, self.kind, self.msg = status, kind, msg
        self.nontrivial, self.key, self.labels, self.sample = nontrivial, key, list(labels), sample
        self.sub = sub  # number of evaluations this case stands for
        self.sub_nontrivial = sub_nontrivial
        self.finding = finding


def ok(**kw):
    return Res("ok", **kw)


def fail(kind, msg, **kw):
    return Res("fail", kind, msg, **kw)


# ---------------------------------------------------------------------------------------------
_CHECK = None
_CTX = None


class Ctx:
    def __init__(self, tier, seed, tmp):
        self.tier, self.seed, self.tmp = tier, seed, tmp
        self.n = 0

    def dir(self):
        """fresh scratch directory for one case"""
        self.n += 1
        d = os.path.join(self.tmp, "c%d_%d" % (os.getpid(), self.n))
        os.makedirs(d)
        return d


def _init(check, tier, seed, tmp):
    global _CHECK, _CTX
    _CHECK, _CTX = check, Ctx(tier, seed, tmp)
    signal.signal(signal.SIGINT, signal.SIG_IGN)


def _exec(check, ctx, src):
    try:
        case = check.gen(src, ctx.tier)
    except SkipCase as e:
        return None, Res("skip", "gen:" + str(e))
    except RecursionError:
        return None, Res("skip", "gen:recursion")
    return case, exec_case(check, ctx, case)


def exec_case(check, ctx, case):
    d = ctx.dir()
    try:
        return check.run(case, ctx, d)
    except SkipCase as e:
        return Res("skip", str(e))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def _work(idx):
    src = Src(seed="%s:%s:%d" % (_CTX.seed, _CHECK.PROP, idx))
    try:
        case, res = _exec(_CHECK, _CTX, src)
    except Exception:
        return idx, None, None, Res("error", msg=traceback.format_exc())
    keep = res.status == "fail"
    return idx, (case if keep else None), (src.choices if keep else None), res


def _try(choices):
    src = Src(choices=choices)
    try:
        case, res = _exec(_CHECK, _CTX, src)
    except Exception:
        return None, None, Res("error", msg=traceback.format_exc())
    return case, src.choices, res


def _size(ch):
    return (len(ch), sum(ch))


def shrink(pool, choices, case, res, budget_s, same):
    t0 = time.time()
    best = (choices, case, res)
    tried = set()

    def batch(cands):
        """evaluate candidates in parallel; return first improving one"""
        nonlocal best
        todo = []
        for c in cands:
            k = tuple(c)
            if k not in tried and _size(c) < _size(best[0]):
                tried.add(k)
                todo.append(c)
            if len(todo) >= JOBS:
                if go(todo):
                    return True
                todo = []
                if time.time() - t0 > budget_s:
                    return False
        return bool(todo) and go(todo)

    def go(todo):
        nonlocal best
        ok_ = [(ch, ca, r) for ca, ch, r in pool.map(_try, todo) if r.status == "fail" and same(r)]
        ok_ = [x for x in ok_ if _size(x[0]) < _size(best[0])]
        if ok_:
            best = min(ok_, key=lambda x: _size(x[0]))
            return True
        return False

    def candidates():
        ch = best[0]
        n = len(ch)
        w = n // 2
        while w >= 1:
            for i in range(0, n, w):
                yield ch[:i] + ch[i + w:]
            for i in range(0, n, w):
                if any(ch[i:i + w]):
                    yield ch[:i] + [0] * len(ch[i:i + w]) + ch[i + w:]
            w //= 2
        for i in range(n):
            if ch[i] > 0:
                for v in sorted({0, ch[i] // 2, ch[i] - 1}):
                    if v < ch[i]:
                        yield ch[:i] + [v] + ch[i + 1:]
                        yield ch[:i] + [v] + ch[i + 2:]

    while time.time() - t0 < budget_s:
        if not batch(candidates()):
            break
    return best


def load_findings(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p)) if f.get("property") == prop and f.get("status") == "finding"]


def main(check):
    t0 = time.time()
    args = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = os.environ.get("VERIF_SEED", "1")
    prop = check.PROP
    for t in ("quick", "thorough"):
        if t in args:
            tier = t
            args.remove(t)
    if hasattr(check, "setup"):
        check.setup(tier)
    base = os.path.join(os.environ.get("MZV_TMP") or ("/dev/shm" if os.access("/dev/shm", os.W_OK) else "/tmp"))
    tmp = tempfile.mkdtemp(prefix="mzv_%s_" % prop, dir=base)
    try:
        rc = _main(check, args, tier, seed, prop, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


def _main(check, args, tier, seed, prop, tmp, t0):
    _init_args = (check, tier, seed, tmp)
    if args and args[0] == "--replay":
        _init(*_init_args)
        rp = json.load(open(args[1]))
        res = exec_case(check, _CTX, rp["case"])
        print(res.status, res.kind)
        print(res.msg)
        if res.status == "fail":
            print("VIOLATION property=%s replay=%s" % (prop, args[1]))
            return 1
        return 0
    if args and args[0] == "--show":
        _init(*_init_args)
        for i in args[1:]:
            src = Src(seed="%s:%s:%d" % (seed, prop, int(i)))
            case, res = _exec(check, _CTX, src)
            print("#", i, json.dumps(case, indent=1) if not hasattr(check, "show") else check.show(case))
            print(res.status, res.kind, res.msg, res.labels)
        return 0
    if args and args[0] == "--shrink":
        # shrink given case indices, print the minimal case
        for i in args[1:]:
            _init(*_init_args)
            src = Src(seed="%s:%s:%d" % (seed, prop, int(i)))
            case, res = _exec(check, _CTX, src)
            if res.status != "fail":
                print("#", i, res.status)
                continue
            pool = multiprocessing.Pool(JOBS, _init, _init_args)
            ch, ca, r = shrink(pool, src.choices, case, res, 25, lambda r, k=res.kind: r.kind == k)
            pool.terminate()
            print("#### %s: %s" % (i, r.kind))
            print(r.msg)
            print(json.dumps({k: v for k, v in ca.items() if k != "model"}) if isinstance(ca, dict) else ca)
            sys.stdout.flush()
        return 0
    n = check.N[tier]
    if args and args[0] == "--n":
        n = int(args[1])
    lo = 0
    keep_going = "--all" in args
    cap_s = float(os.environ.get("MZV_CAP_S", "420" if tier == "quick" else "100000"))

    # -- known findings are replayed on every run ------------------------------------------------
    _init(*_init_args)
    findings = load_findings(prop)
    n_known = 0
    for f in findings:
        res = exec_case(check, _CTX, f["case"])
        if res.status == "fail" and (not f.get("kind") or f["kind"] == res.kind):
            print("KNOWN-FINDING: property=%s %s: %s" % (prop, f["id"], f["what"]))
            n_known += 1
    # -- fixed regression corpus (shrunk past failures); plain cases that bypass the generator ---
    reg_fail = None
    nreg = 0
    for case in getattr(check, "regressions", lambda: [])():
        nreg += 1
        res = exec_case(check, _CTX, case)
        if res.status == "fail":
            reg_fail = (case, res)
            break

    stats = dict(evaluations=0, cases=0, skips=0, inconclusive=0)
    labels, skips, keys, samples, fails = {}, {}, set(), [], []
    nontriv_sub = 0
    err = None
    pool = multiprocessing.Pool(JOBS, _init, _init_args)
    try:
        if reg_fail is None:
            chunk = getattr(check, "CHUNK", 4)
            it = pool.imap_unordered(_work, range(lo, lo + n), chunk)
            for idx, case, choices, res in it:
                stats["cases"] += 1
                for l in res.labels:
                    labels[l] = labels.get(l, 0) + 1
                if res.status == "error":
                    err = res.msg
                    break
                if res.status == "skip":
                    stats["skips"] += 1
                    k = res.kind.split("\n")[0][:60]
                    skips[k] = skips.get(k, 0) + 1
                    continue
                stats["evaluations"] += res.sub
                if res.status == "inconclusive":
                    stats["inconclusive"] += 1
                    labels["inconclusive:" + res.kind] = labels.get("inconclusive:" + res.kind, 0) + 1
                    continue
                if res.nontrivial:
                    k = hashlib.sha1(str(res.key).encode()).hexdigest()[:16]
                    if k not in keys:
                        keys.add(k)
                        nontriv_sub += res.sub if res.sub_nontrivial is None else res.sub_nontrivial
                        if len(samples) < 6 and res.sample is not None and (len(samples) < 2 or idx % 17 == 0):
                            samples.append(str(res.sample)[:2500])
                if res.status == "fail":
                    fails.append((idx, case, choices, res))
                    if keep_going:
                        print("FAIL", idx, res.kind, res.msg[:700].replace("\n", " | "), "LABELS", *[l for l in res.labels if l[:2] == "g_" or l[:4] in ("ctx:", "kind")])
                        sys.stdout.flush()
                    elif len(fails) >= 3 or time.time() - t0 > cap_s:
                        break
                    else:
                        n_after = getattr(check, "AFTER_FAIL", 200)
                        if stats["cases"] - (first_fail if len(fails) > 1 else stats["cases"]) > n_after:
                            break
                    if len(fails) == 1:
                        first_fail = stats["cases"]
                if fails and not keep_going and stats["cases"] - first_fail > getattr(check, "AFTER_FAIL", 200):
                    break
                if time.time() - t0 > cap_s:
                    labels["stopped-by-time-cap"] = 1
                    break
        pool.terminate()
        pool.join()
        if err:
            sys.stderr.write("check machinery error:\n" + err)
            return 2
        violation = None
        if reg_fail is not None:
            violation = (None, reg_fail[0], reg_fail[1])
        elif fails and not keep_going:
            fails.sort(key=lambda f: _size(f[2]))
            pool = multiprocessing.Pool(JOBS, _init, _init_args)
            for idx, case, choices, res in fails:
                # confirm before believing it: the very same case must fail three times
                conf = [exec_case(check, _CTX, case) for _ in range(3)]
                if not all(c.status == "fail" and c.kind == res.kind for c in conf):
                    labels["unconfirmed-failure"] = labels.get("unconfirmed-failure", 0) + 1
                    sys.stderr.write("unconfirmed failure idx=%s %s %s\n" % (idx, res.kind, res.msg[:500]))
                    continue
                budget = 60 if tier == "quick" else 240
                same = lambda r, k=res.kind: r.kind == k
                sch, scase, sres = shrink(pool, choices, case, res, budget, same)
                if scase is not case:
                    conf = [exec_case(check, _CTX, scase) for _ in range(3)]
                    if not all(c.status == "fail" for c in conf):
                        scase, sres = case, res
                violation = (idx, scase, sres)
                break
            pool.terminate()
    finally:
        pool.terminate()

    ev = {
        "property": prop, "tier": tier, "seed": int(seed), "level": getattr(check, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": stats["evaluations"], "distinct_nontrivial": nontriv_sub,
            "rule": check.RULE, "samples": samples or ["(no non-trivial case)"],
            "generated_cases": stats["cases"], "distinct_nontrivial_cases": len(keys),
            "skipped_outside_domain": stats["skips"], "skip_reasons": dict(sorted(skips.items(), key=lambda x: -x[1])[:20]),
            "inconclusive": stats["inconclusive"], "regression_cases": nreg, "known_findings_reproduced": n_known,
            "classes": dict(sorted(labels.items(), key=lambda x: -x[1])[:120]),
        },
        "assumptions": getattr(check, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 1), "violations": 1 if violation else 0,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d evaluations, %d distinct non-trivial, %d cases, %d skipped, %d inconclusive, %d fails, %.1fs" % (
        prop, tier, stats["evaluations"], nontriv_sub, stats["cases"], stats["skips"], stats["inconclusive"],
        len(fails), time.time() - t0))
    if keep_going:
        print(json.dumps(ev["coverage"]["classes"]))
        print(json.dumps(ev["coverage"]["skip_reasons"]))
    if violation:
        idx, case, res = violation
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        rp = os.path.join(VERIF, "replays", "%s-%s-%s.json" % (prop, tier, hashlib.sha1(
            json.dumps(case, sort_keys=True, default=str).encode()).hexdigest()[:10]))
        with open(rp, "w") as f:
            json.dump({"property": prop, "seed": seed, "index": idx, "kind": res.kind, "message": res.msg,
                       "case": case, "replay_with": "python3 -m mzv.%s --replay %s" % (prop.lower(), rp)}, f, indent=1)
        print(res.kind)
        print(res.msg[:3000])
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    return 0
