"""Runs the sub-checks of one property: generation, counting, shrinking, replay, known findings, evidence."""
import ast, hashlib, importlib, json, multiprocessing as mp, os, sys, time, traceback
from . import build as B
from .drv import Driver, Died, DriverError
from hypothesis import given, settings, seed as hseed, HealthCheck, Phase
import hypothesis

ROOT = B.ROOT
WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))
SHRINK_S = 60
TOTAL_S = 640

class Violation(Exception):
    pass

class Stop(BaseException):
    pass

class Sub:
    """One generated sub-check. oracle(ctx, case) raises Violation or returns; case is a plain Python literal.
    nontrivial(case) -> bool; quick/thorough = number of cases over all workers; label(case) -> iterable of class names."""
    def __init__(self, name, driver, strategy, oracle, quick, thorough=None, nontrivial=None, label=None, rule="", opts=(), cpu=20, fixed=None, pin=1):
        self.name, self.driver, self.strategy, self.oracle = name, driver, strategy, oracle
        self.quick, self.thorough = quick, thorough or quick * 12
        self.nontrivial = nontrivial or (lambda c: True)
        self.label, self.rule, self.opts, self.cpu = label, rule, opts, cpu
        self.fixed = fixed          # callable(tier) -> list of cases run completely (enumerations)

class Ctx:
    """What an oracle sees: the driver (lazily started) and helpers."""
    def __init__(self, binary, cpu):
        self.binary, self.cpu = binary, cpu
        self._d = {}
        self.known_hits = {}
        self.known = {}
        self.notes = {}

    def note(self, what):
        self.notes[what] = self.notes.get(what, 0) + 1

    def drv(self, fill=0xbe):
        if fill not in self._d:
            self._d[fill] = Driver(self.binary, self.cpu, fill)
        return self._d[fill]

    def call(self, *a):
        try:
            return self.drv().call(*a)
        except Died as e:
            raise Violation("code under test died: " + str(e))

    def call_fill(self, fill, *a):
        try:
            return self.drv(fill).call(*a)
        except Died as e:
            raise Violation("code under test died: " + str(e))

    def raw(self, *a):
        return self.drv().raw(*a)

    def close(self):
        for d in self._d.values():
            d.close()
        self._d = {}

def load_known(pid):
    """known-findings.txt: lines 'finding: property=<id> key=<key> <text>' and 'fixed: property=<id> <commit> <text>'."""
    out = {}
    p = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("finding: property=%s " % pid):
                rest = line.split(" ", 2)[2].strip()
                key, text = rest.split(" ", 1)
                out[key[4:]] = text
    return out

def digest(case):
    return hashlib.blake2b(repr(case).encode("utf-8", "surrogatepass"), digest_size=8).digest()

def _run_sub(sub, binary, n, sd, shard, stop, known, t_end, q):
    ctx = Ctx(binary, sub.cpu)
    ctx.known = known
    st = dict(evals=0, nontriv=set(), samples=[], labels={}, best=None, err=None, inconclusive=False)
    t_fail = [None]

    def body(case):
        now = time.time()
        if st["best"] is None and (stop.is_set() or now > t_end):
            st["inconclusive"] = st["inconclusive"] or now > t_end
            raise Stop()
        if t_fail[0] is not None and (now - t_fail[0] > SHRINK_S):
            raise Stop()
        if t_fail[0] is None:
            st["evals"] += 1
            if sub.nontrivial(case):
                d = digest(case)
                if d not in st["nontriv"]:
                    st["nontriv"].add(d)
                    if len(st["samples"]) < 3 or (len(st["samples"]) < 6 and len(st["nontriv"]) % 97 == 0):
                        st["samples"].append(repr(case)[:1500])
            if sub.label:
                for l in sub.label(case):
                    st["labels"][l] = st["labels"].get(l, 0) + 1
        try:
            sub.oracle(ctx, case)
        except Violation as v:
            size = len(repr(case))
            if st["best"] is None:
                t_fail[0] = now
                stop.set()
            if st["best"] is None or size <= st["best"][0]:
                st["best"] = (size, repr(case), str(v))
            raise

    try:
        if sub.fixed is not None and shard == 0:
            pass
        if sub.strategy is not None and n > 0:
            @hseed(sd * 1000003 + shard)
            @settings(max_examples=n, deadline=None, database=None, report_multiple_bugs=False, print_blob=False,
                      suppress_health_check=list(HealthCheck), phases=(Phase.generate, Phase.shrink), verbosity=hypothesis.Verbosity.quiet)
            @given(sub.strategy)
            def test(case):
                body(case)
            test()
        elif sub.fixed is not None:
            for case in n:
                body(case)
    except Stop:
        pass
    except Violation:
        pass
    except (hypothesis.errors.Flaky, hypothesis.errors.FlakyFailure) if hasattr(hypothesis.errors, "FlakyFailure") else hypothesis.errors.Flaky:
        pass
    except BaseException:
        if st["best"] is None:
            st["err"] = traceback.format_exc()
    finally:
        hits = ctx.known_hits
        for k, v in ctx.notes.items():
            st["labels"][k] = st["labels"].get(k, 0) + v
        ctx.close()
    st["known_hits"] = hits
    q.put((sub.name, shard, st))

def replay_case(sub, binary, case, known):
    ctx = Ctx(binary, sub.cpu)
    ctx.known = known
    try:
        sub.oracle(ctx, case)
        return None
    except Violation as v:
        return str(v)
    finally:
        ctx.close()

def run_check(pid, mod, tier, sd, only=None, scale=1.0):
    t0 = time.time()
    known = load_known(pid)
    subs = [s for s in mod.SUBS if only is None or s.name in only]
    binaries = {}
    for s in subs:
        binaries[s.name] = B.build(s.driver, s.opts)
    tb = time.time() - t0
    t_end = t0 + (TOTAL_S if tier == "quick" else int(os.environ.get("VERIF_THOROUGH_S", "3000")))
    mpx = mp.get_context("fork")
    results = {}
    violations, errors, known_hits = [], [], {}
    inconclusive = False
    stop = mpx.Event()
    jobs = []
    for s in subs:
        total = int((s.quick if tier == "quick" else s.thorough) * scale)
        if s.strategy is not None:
            k = min(WORKERS, max(1, total))
            for i in range(k):
                jobs.append((s, total // k + (1 if i < total % k else 0), i))
        if s.fixed is not None:
            cases = list(s.fixed(tier))
            k = min(WORKERS, max(1, len(cases)))
            for i in range(k):
                jobs.append((Sub(s.name, s.driver, None, s.oracle, 0, 1, s.nontrivial, s.label, s.rule, s.opts, s.cpu, s.fixed), cases[i::k], 1000 + i))
    q = mpx.Queue()
    running, pending = {}, list(jobs)
    ndone = 0
    while ndone < len(jobs):
        while pending and len(running) < WORKERS:
            s, n, i = pending.pop(0)
            p = mpx.Process(target=_run_sub, args=(s, binaries[s.name], n, sd, i, stop, known, t_end, q))
            p.start()
            running[(s.name, i)] = p
        try:
            name, shard, st = q.get(timeout=5)
        except Exception:
            for key, p in list(running.items()):
                if not p.is_alive() and p.exitcode not in (0, None):
                    errors.append("worker %s died with %s" % (key, p.exitcode))
                    del running[key]
                    ndone += 1
            continue
        running.pop((name, shard)).join()
        ndone += 1
        r = results.setdefault(name, dict(evals=0, nontriv=set(), samples=[], labels={}, fails=[]))
        r["evals"] += st["evals"]
        r["nontriv"] |= st["nontriv"]
        r["samples"] += st["samples"][:2]
        inconclusive = inconclusive or st["inconclusive"]
        for k, v in st["labels"].items():
            r["labels"][k] = r["labels"].get(k, 0) + v
        for k, v in st["known_hits"].items():
            known_hits.setdefault(k, v)
        if st["best"]:
            r["fails"].append(st["best"])
        if st["err"]:
            errors.append("%s/%d: %s" % (name, shard, st["err"]))
    # failures: smallest first, replayed three times outside the library
    bysub = {s.name: s for s in subs}
    flaky = 0
    for name, r in results.items():
        for size, case_repr, msg in sorted(r["fails"]):
            case = ast.literal_eval(case_repr)
            outs = [replay_case(bysub[name], binaries[name], case, known) for _ in range(3)]
            if all(outs):
                os.makedirs(os.path.join(ROOT, "replay"), exist_ok=True)
                path = os.path.join(ROOT, "replay", "%s-%s-%s.json" % (pid, name, hashlib.sha1(case_repr.encode()).hexdigest()[:10]))
                with open(path, "w") as f:
                    json.dump(dict(property=pid, sub=name, case=case_repr, message=outs[0]), f, indent=1)
                violations.append((path, name, outs[0]))
                break
            flaky += 1
    cov = dict(
        evaluations=sum(r["evals"] for r in results.values()),
        distinct_nontrivial=sum(len(r["nontriv"]) for r in results.values()),
        rule="; ".join("%s: %s" % (s.name, s.rule) for s in subs if s.rule) or "see DESIGN.md",
        samples=[dict(sub=n, case=c) for n, r in results.items() for c in r["samples"][:3]],
        per_sub={n: dict(evaluations=r["evals"], distinct_nontrivial=len(r["nontriv"]), classes=dict(sorted(r["labels"].items()))) for n, r in results.items()},
        unreproducible=flaky, stopped_by_time=inconclusive, build_s=round(tb, 1),
    )
    ev = dict(property=pid, tier=tier, seed=sd, level="exploration", coverage=cov,
              assumptions=getattr(mod, "ASSUMPTIONS", []) + ["code compiled by g++ -O1 with AddressSanitizer and assertions from /repo's working tree"],
              wall_s=round(time.time() - t0, 2), violations=len(violations))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=True)
    for k, text in sorted(known_hits.items()):
        print("KNOWN-FINDING: property=%s %s (%s)" % (pid, known.get(k, k), text))
    if os.environ.get("VERIF_VERBOSE"):
        for n, r in results.items():
            print("  %s: %d cases, %d non-trivial, %s" % (n, r["evals"], len(r["nontriv"]), dict(sorted(r["labels"].items()))))
    print("%s %s: %d cases, %d distinct non-trivial, %.1fs (build %.1fs)%s" % (pid, tier, cov["evaluations"], cov["distinct_nontrivial"], time.time() - t0, tb,
          " STOPPED BY TIME" if inconclusive else ""))
    for path, name, msg in violations:
        print("  %s: %s" % (name, msg[:1500]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
    if violations:
        return 1
    if errors:
        print("ERROR of the check:\n" + errors[0])
        return 2
    if flaky:
        print("note: %d failing case(s) did not fail again when replayed" % flaky)
    return 0
